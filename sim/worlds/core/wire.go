package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"
	"verifsim/w"
)

// What goes over the wire is the document of the contract: its names, every
// field that was set, none that was not. It is compared with the JSON form the
// message was made from, without any code of the generated package.

var (
	midHeader  = regexp.MustCompile(`^x-m[a-z]\d+$`)
	jsonShaped = map[string]bool{"order": true, "pingb": true, "pongb": true, "extra": true, "counts": true, "chatter": true, "rows": true, "union": true, "mixed": true, "knots": true, "twisty": true, "list": true, "pingd": true, "pongd": true, "callp": true}
)

// wireKey is the name of a property on the wire. Additional properties start
// with a digit and are left alone.
func (p *Package) wireKey(k string) string {
	if p.Name != "simv3p" || k == "" || k[0] >= '0' && k[0] <= '9' {
		return k
	}
	var s strings.Builder
	up := true
	for _, r := range k {
		switch {
		case r == '-' || r == ' ' || r == '.':
			r = '_'
			up = true
		case r >= 'A' && r <= 'Z':
			if !up {
				s.WriteByte('_')
			}
			up = true
			r += 'a' - 'A'
		default:
			up = r == '_'
		}
		s.WriteRune(r)
	}
	return s.String()
}

func decodeJSON(b string) (any, bool) {
	d := json.NewDecoder(strings.NewReader(b))
	d.UseNumber()
	var x any
	if d.Decode(&x) != nil || d.More() {
		return nil, false
	}
	return x, true
}

func sameText(got, want string) bool {
	if got == want {
		return true
	}
	g, e1 := time.Parse(time.RFC3339Nano, got)
	w, e2 := time.Parse(time.RFC3339Nano, want)
	return e1 == nil && e2 == nil && g.Equal(w)
}

// zeros are the required properties a sender may leave at their zero value.
var zeros = map[string]map[string]string{
	"text":   {"Headers/tag": `""`},
	"order":  {"Payload/count": `0`, "Payload/createdAt": `"0001-01-01T00:00:00Z"`},
	"meta":   {"Headers/label": `""`, "Headers/born": `"0001-01-01T00:00:00Z"`, "Headers/info": `{}`},
	"rows":   {"Payload/*/a": `0`},
	"union":  {"Payload/deep/in": `{}`, "Payload/merged/id": `""`, "Payload/merged/kind": `""`, "Payload/merged/size": `0`, "Payload/merged/box/w": `0`},
	"twisty": {"Payload/about/cid": `""`},
	"knots": {"Payload/name": `""`, "Payload/rank": `0`, "Payload/box": `{}`, "Payload/at": `"0001-01-01T00:00:00Z"`, "Payload/keep": `""`,
		"Payload/snap/cell": `{"w":0}`, "Payload/poly/*/q": `0`},
	"mixed": {"Payload/tree/name": `""`, "Payload/layers/base": `""`},
	"pingd": {"Payload/meta/ids/kind": `""`},
}

// eachZero visits the objects which have a required property of that kind.
func eachZero(op string, doc any, do func(o map[string]any, key, zero string)) {
	paths := make([]string, 0, 4)
	for p := range zeros[op] {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		l := strings.Split(p, "/")
		var walk func(x any, rest []string)
		walk = func(x any, rest []string) {
			switch v := x.(type) {
			case []any:
				for i := range v {
					if i > 0 { // the first one holds the number
						walk(v[i], rest[1:])
					}
				}
			case map[string]any:
				if len(rest) == 1 {
					do(v, rest[0], zeros[op][p])
				} else {
					walk(v[rest[0]], rest[1:])
				}
			}
		}
		walk(doc, l)
	}
}

// leaveOut takes required properties out of a message to send.
func leaveOut(r *w.Rand, op, js string) string {
	x, _ := decodeJSON(js)
	n := 0
	eachZero(op, x, func(o map[string]any, key, _ string) {
		if r.P(15) {
			n++
			delete(o, key)
		}
	})
	if n == 0 {
		return js
	}
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// wireDiff tells where a document differs from the one it should be, or "".
func (p *Package) wireDiff(path string, got, want any) string {
	bad := func() string {
		g, _ := json.Marshal(got)
		w, _ := json.Marshal(want)
		return fmt.Sprintf("%s is %s instead of %s", path, g, w)
	}
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			return bad()
		}
		named := map[string]bool{}
		keys := make([]string, 0, len(w))
		for k := range w {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			wk := p.wireKey(k)
			named[wk] = true
			x, there := g[wk]
			if !there {
				if l, ok := w[k].([]any); ok && len(l) == 0 {
					continue
				}
				return fmt.Sprintf("%s/%s is missing", path, wk)
			}
			if d := p.wireDiff(path+"/"+wk, x, w[k]); d != "" {
				return d
			}
		}
		keys = keys[:0]
		for k := range g {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			// With forced pointers a required property can be left out as well.
			if l, ok := g[k].([]any); ok && len(l) == 0 || p.Name == "simv3p" && g[k] == nil {
				continue
			}
			if !named[k] {
				return fmt.Sprintf("%s/%s is there and was not set", path, k)
			}
		}
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return bad()
		}
		for i := range w {
			if d := p.wireDiff(fmt.Sprintf("%s/%d", path, i), g[i], w[i]); d != "" {
				return d
			}
		}
	case json.Number:
		g, ok := got.(json.Number)
		if !ok {
			return bad()
		}
		a, ok1 := new(big.Rat).SetString(g.String())
		b, ok2 := new(big.Rat).SetString(w.String())
		if !ok1 || !ok2 {
			return bad()
		}
		if a.Cmp(b) != 0 {
			if x, e1 := g.Float64(); e1 == nil && strings.ContainsAny(g.String()+w.String(), ".eE") {
				if y, e2 := w.Float64(); e2 == nil && x == y {
					return ""
				}
			}
			return bad()
		}
	case string:
		g, ok := got.(string)
		if !ok || !sameText(g, w) {
			return bad()
		}
	default:
		if got != want {
			return bad()
		}
	}
	return ""
}

// checkDocument is the rule for a published message made from js.
func (t *traffic) checkDocument(it *item, msg extensions.BrokerMessage) {
	if it.enc || it.js == "" {
		return
	}
	x, ok := decodeJSON(it.full(t.pk))
	if !ok {
		return
	}
	doc := x.(map[string]any)
	if jsonShaped[it.op] {
		got, ok := decodeJSON(string(msg.Payload))
		if !ok {
			t.wd.For("C16", "document", "message %d (%s) is not JSON on the wire: %q", it.n, it.op, msg.Payload)
			return
		}
		if d := t.pk.wireDiff("", got, doc["Payload"]); d != "" {
			t.wd.For("C16", "document", "message %d (%s) made from %s went out as %s: %s", it.n, it.op, it.js, msg.Payload, d)
		}
	}
	hs, _ := doc["Headers"].(map[string]any)
	keys := make([]string, 0, len(hs))
	for k := range hs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	named := map[string]bool{versioning.DefaultVersionHeaderKey: true}
	for _, k := range keys {
		wk := k // key conversion is for properties of schemas
		named[wk] = true
		b, there := msg.Headers[wk]
		if !there {
			t.wd.For("C16", "document", "message %d (%s) made from %s went out without header %s", it.n, it.op, it.js, wk)
			continue
		}
		if s, ok := hs[k].(string); ok {
			if !sameText(string(b), s) {
				t.wd.For("C16", "document", "message %d (%s) went out with header %s=%q instead of %q", it.n, it.op, wk, b, s)
			}
			continue
		}
		got, ok := decodeJSON(string(b))
		d := ""
		if ok {
			d = t.pk.wireDiff("", got, hs[k])
		}
		if !ok || d != "" {
			t.wd.For("C16", "document", "message %d (%s) made from %s went out with header %s=%q (%s)", it.n, it.op, it.js, wk, b, d)
		}
	}
	keys = keys[:0]
	for k := range msg.Headers {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if !named[k] && !midHeader.MatchString(k) {
			t.wd.For("C16", "document", "message %d (%s) made from %s went out with header %s, which was not set", it.n, it.op, it.js, k)
		}
	}
}
