package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/loggers"
	"verifsim/w"
)

// logCheck passes the log calls on to a logger of the repository, and checks
// what it prints: one whole record for each call, about this call only.
type logCheck struct {
	wd    *w.World
	kind  int // 1: ECS, 2: text
	next  extensions.Logger
	calls map[string]*logCall
	out   []byte
	own   []extensions.LogInfo // given to every call, with room behind
}

type logCall struct {
	level, msg string
	ctx        context.Context
	info       []extensions.LogInfo
	at, until  time.Time
	seen       int
}

func newLogCheck(wd *w.World, kind int) *logCheck {
	if kind == 0 {
		return nil
	}
	l := &logCheck{wd: wd, kind: kind, calls: map[string]*logCall{}, next: loggers.NewECS()}
	if kind == 2 {
		l.next = loggers.NewText()
	}
	l.own = append(make([]extensions.LogInfo, 0, 16), extensions.LogInfo{Key: "app.name", Value: "sim"})
	syscall.SimOut = func(fd int, p []byte) {
		l.out = append(l.out, p...)
		runtime.Gosched()
	}
	return l
}

func (l *logCheck) log(level string, ctx context.Context, msg string, info []extensions.LogInfo) {
	if l == nil {
		return
	}
	n := len(l.calls)
	if len(info) == 0 {
		info = l.own
		if n%3 == 2 {
			info = append(info[:1:1], extensions.LogInfo{Key: "app.labels.a", Value: n}, extensions.LogInfo{Key: "app.labels.b", Value: -n}, extensions.LogInfo{Key: "top", Value: "x"})
		}
	}
	if level == "info" && n%5 == 3 {
		level = "warning"
	}
	c := &logCall{level: level, msg: fmt.Sprintf("%s @%d@", msg, len(l.calls)), ctx: ctx, info: info[:len(info):len(info)], at: time.Now()}
	l.calls[c.msg] = c
	switch level {
	case "info":
		l.next.Info(ctx, c.msg, info...)
	case "warning":
		l.next.Warning(ctx, c.msg, info...)
	default:
		l.next.Error(ctx, c.msg, info...)
	}
	c.until = time.Now()
}

// want gives what a record must hold, by path.
func (l *logCheck) want(c *logCall) map[string]string {
	m := map[string]string{}
	for _, i := range c.info {
		m[i.Key] = fmt.Sprintf("%+v", i.Value)
	}
	keys := map[extensions.ContextKey]string{extensions.ContextKeyIsChannel: "Channel", extensions.ContextKeyIsCorrelationID: "CorrelationID", extensions.ContextKeyIsBrokerMessage: "Content"}
	if l.kind == 1 {
		keys = map[extensions.ContextKey]string{extensions.ContextKeyIsProvider: "asyncapi.provider", extensions.ContextKeyIsChannel: "asyncapi.channel",
			extensions.ContextKeyIsCorrelationID: "trace.id", extensions.ContextKeyIsBrokerMessage: "event.original"}
		m["log.level"], m["log.logger"] = c.level, "github.com/lerenn/asyncapi-codegen/pkg/extensions/loggers/ecs.go"
		switch c.ctx.Value(extensions.ContextKeyIsDirection) {
		case "publication":
			m["event.action"] = "published-message"
		case "reception":
			m["event.action"] = "received-message"
		}
	}
	for k, n := range keys {
		if v := c.ctx.Value(k); v != nil {
			m[n] = fmt.Sprintf("%+v", v)
		}
	}
	return m
}

func nested(m map[string]string) map[string]any {
	out := map[string]any{}
	for k, v := range m {
		at, l := out, strings.Split(k, ".")
		for _, p := range l[:len(l)-1] {
			sub, _ := at[p].(map[string]any)
			if sub == nil {
				sub = map[string]any{}
				at[p] = sub
			}
			at = sub
		}
		at[l[len(l)-1]] = v
	}
	return out
}

func textLines(m map[string]any, indent string) []string {
	var l []string
	for k, v := range m {
		if sub, ok := v.(map[string]any); ok {
			l = append(append(l, indent+k+":"), textLines(sub, indent+"  ")...)
		} else {
			l = append(l, strings.Split(fmt.Sprintf("%s%s: %v", indent, k, v), "\n")...)
		}
	}
	return l
}

func sortedLines(l []string) string {
	var k []string
	for _, s := range l {
		if s != "" {
			k = append(k, s)
		}
	}
	sort.Strings(k)
	return strings.Join(k, "\n")
}

// check is made when nothing runs any more.
func (l *logCheck) check() {
	if l == nil {
		return
	}
	syscall.SimOut = nil
	wd, s := l.wd, string(l.out)
	wd.Rec("%d log calls, %d bytes", len(l.calls), len(s))
	var records []string
	if l.kind == 1 {
		records = strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	} else {
		for i, r := range strings.Split("\n\n"+s, "\n\n> ") {
			if i > 0 {
				records = append(records, r)
			} else if strings.TrimSpace(r) != "" {
				wd.For("C17", "log-record", "the text logger printed %q before any record", r)
			}
		}
	}
	if len(l.calls) == 0 && s == "" {
		return
	}
	stamp := func(c *logCall, s string) {
		at, err := time.Parse(time.RFC3339Nano, s)
		if err != nil || at.Before(c.at) || at.After(c.until) {
			wd.For("C17", "log-record", "the record of a call made between %v and %v is dated %q", c.at, c.until, s)
		}
	}
	for _, r := range records {
		var c *logCall
		if l.kind == 1 {
			var got map[string]any
			if err := json.Unmarshal([]byte(r), &got); err != nil {
				wd.For("C17", "log-record", "the ECS logger printed %q, which is no record: %v", r, err)
				return
			}
			msg, _ := got["message"].(string)
			if c = l.calls[utf(msg, l)]; c == nil {
				wd.For("C17", "log-record", "the ECS logger printed %q, which nobody logged", r)
				return
			}
			ts, _ := got["@timestamp"].(string)
			stamp(c, ts)
			delete(got, "message")
			delete(got, "@timestamp")
			b, _ := json.Marshal(nested(l.want(c)))
			want := map[string]any{}
			_ = json.Unmarshal(b, &want)
			if !reflect.DeepEqual(got, want) {
				wd.For("C17", "log-record", "the log call %q printed %s instead of %s", c.msg, r, b)
				return
			}
		} else {
			i := strings.Index(r, ": ")
			j := strings.Index(r, "@\n")
			if i < 0 || j < i {
				wd.For("C17", "log-record", "the text logger printed %q, which is no record", r)
				return
			}
			if c = l.calls[r[i+2:j+1]]; c == nil {
				wd.For("C17", "log-record", "the text logger printed %q, which nobody logged", r)
				return
			}
			stamp(c, r[:i])
			got, want := sortedLines(strings.Split(r[j+2:], "\n")), sortedLines(textLines(nested(l.want(c)), "  "))
			if got != want {
				wd.For("C17", "log-record", "the log call %q printed %q instead of %q", c.msg, got, want)
				return
			}
		}
		c.seen++
	}
	var msgs []string
	for m := range l.calls {
		msgs = append(msgs, m)
	}
	sort.Strings(msgs)
	for _, m := range msgs {
		if c := l.calls[m]; c.seen != 1 {
			wd.For("C17", "log-record", "the log call %q printed %d records", m, c.seen)
			return
		}
	}
	wd.Probe("records of a shipped logger checked")
}

// utf finds the call whose message reads so once it has been through JSON.
func utf(msg string, l *logCheck) string {
	if l.calls[msg] != nil {
		return msg
	}
	for m := range l.calls {
		if strings.ToValidUTF8(m, "\uFFFD") == msg {
			return m
		}
	}
	return ""
}

// recLogger records the errors logged through it.
type recLogger struct {
	next extensions.Logger
	errs []string
	ctx  context.Context
}

func (r *recLogger) Info(ctx context.Context, msg string, info ...extensions.LogInfo) {
	r.next.Info(ctx, msg, info...)
}

func (r *recLogger) Warning(ctx context.Context, msg string, info ...extensions.LogInfo) {
	r.next.Warning(ctx, msg, info...)
}

func (r *recLogger) Error(ctx context.Context, msg string, info ...extensions.LogInfo) {
	r.errs, r.ctx = append(r.errs, msg), ctx
	r.next.Error(ctx, msg, info...)
}
