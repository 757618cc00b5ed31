package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifsim/w"
)

// Handler receives the messages of an operation.
type Handler func(ctx context.Context, op string, m any) error

// CtlOpts are the options of a generated controller.
type CtlOpts struct {
	Logger       extensions.Logger
	Middlewares  []extensions.Middleware
	ErrorHandler extensions.ErrorHandler
}

// Ctl drives a generated controller, of AsyncAPI v2 or v3.
type Ctl interface {
	Provider() string
	RecvOps() []string
	SendOps() []string
	Subscribe(ctx context.Context, op string, par []string, h Handler) error
	Unsubscribe(ctx context.Context, op string, par []string)
	SubscribeAll(ctx context.Context, h Handler) error
	UnsubscribeAll(ctx context.Context)
	Close(ctx context.Context)
	Send(ctx context.Context, op string, par []string, m any) error
	Request(ctx context.Context, op string, m any) (any, error)
	Reply(ctx context.Context, op string, req any, body string) error
}

// typed is the message of an operation as the type its generated function takes.
func typed[M any](v any, op string) M {
	m, ok := v.(M)
	if !ok {
		w.Cur.For("C02,C16", "message-type", "the function generated for %s takes a %T, the specification says %T", op, m, v)
	}
	return m
}

func subscribing[M any](ctx context.Context, f func(context.Context, func(context.Context, M) error) error, h Handler, op string) error {
	return f(ctx, func(ctx context.Context, m M) error { return h(ctx, op, m) })
}

func subscribingP[P, M any](ctx context.Context, f func(context.Context, P, func(context.Context, M) error) error, p P, h Handler, op string) error {
	return f(ctx, p, func(ctx context.Context, m M) error { return h(ctx, op, m) })
}

func sending[M any](ctx context.Context, f func(context.Context, M) error, m any, op string) error {
	return f(ctx, typed[M](m, op))
}

func sendingP[P, M any](ctx context.Context, f func(context.Context, P, M) error, p P, m any, op string) error {
	return f(ctx, p, typed[M](m, op))
}

func requesting[M, R any](ctx context.Context, f func(context.Context, M) (R, error), m any, op string) (any, error) {
	r, err := f(ctx, typed[M](m, op))
	return r, err
}

func replying[M, R any](ctx context.Context, f func(context.Context, M, func(*R)) error, req any, body, op string) error {
	return f(ctx, typed[M](req, op), func(r *R) { SetBody(r, body) })
}

// Package is a generated package.
type Package struct {
	Name    string
	V       int
	NewApp  func(extensions.BrokerController, CtlOpts) (Ctl, error)
	NewUser func(extensions.BrokerController, CtlOpts) (Ctl, error)
	New     func(op string) any
	Deref   func(any) any
}

var packages = map[string]*Package{}

// Version of the specification the package was generated from.
func (p *Package) Version() string {
	if p.Name == "simv2" {
		return "4.5.6"
	}
	if p.Name == "simv3b" {
		return "9.0.0"
	}
	return "1.2.3"
}

// Addr is the channel address of an operation.
func (p *Package) Addr(op string, par []string) string {
	pre := "sim"
	if p.V == 2 {
		pre = "sim2"
	}
	switch op {
	case "room":
		return pre + ".room." + par[0] + ".talk"
	case "seat":
		return pre + ".Seat100%." + par[1] + "." + par[0] + "/"
	case "chatter":
		return pre + ".chat"
	}
	return pre + "." + op
}

func nParams(op string) int {
	switch op {
	case "room":
		return 1
	case "seat":
		return 2
	}
	return 0
}

// Make builds a typed message from its JSON form {"Headers":…,"Payload":…},
// without the decoding code of the generated package.
func (p *Package) Make(op, js string) any {
	v := p.New(op)
	d := json.NewDecoder(strings.NewReader(js))
	d.UseNumber()
	var x any
	if err := d.Decode(&x); err != nil {
		panic(fmt.Sprintf("bad message %s for %s: %v", js, op, err))
	}
	fill(reflect.ValueOf(v).Elem(), x)
	return p.Deref(v)
}

var timeType = reflect.TypeOf(time.Time{})

func isTime(t reflect.Type) bool { return t.Kind() == reflect.Struct && t.ConvertibleTo(timeType) }

func isDate(t reflect.Type) bool {
	if t.Kind() != reflect.Struct || t.NumField() != 3 {
		return false
	}
	return t.Field(0).Name == "Year" && t.Field(1).Name == "Month" && t.Field(2).Name == "Day"
}

func plainKey(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'A' && r <= 'Z':
			return r + 'a' - 'A'
		case r >= 'a' && r <= 'z', r >= '0' && r <= '9':
			return r
		}
		return -1
	}, s)
}

func fill(v reflect.Value, x any) {
	t := v.Type()
	switch {
	case x == nil:
	case t.Kind() == reflect.Pointer:
		v.Set(reflect.New(t.Elem()))
		fill(v.Elem(), x)
	case isTime(t):
		tm, err := time.Parse(time.RFC3339Nano, x.(string))
		if err != nil {
			panic(err)
		}
		v.Set(reflect.ValueOf(tm).Convert(t))
	case isDate(t):
		tm, err := time.Parse("2006-01-02", x.(string))
		if err != nil {
			panic(err)
		}
		v.Field(0).SetInt(int64(tm.Year()))
		v.Field(1).SetInt(int64(tm.Month()))
		v.Field(2).SetInt(int64(tm.Day()))
	case t.Kind() == reflect.Struct:
		m := x.(map[string]any)
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
	next:
		for _, k := range keys {
			for i := 0; i < t.NumField(); i++ {
				if n := t.Field(i).Name; n != "AdditionalProperties" && plainKey(n) == plainKey(k) && plainKey(k) != "" {
					fill(v.Field(i), m[k])
					continue next
				}
			}
			f := v.FieldByName("AdditionalProperties")
			if !f.IsValid() {
				panic(fmt.Sprintf("no field for %q in %s", k, t))
			}
			if f.IsNil() {
				f.Set(reflect.MakeMap(f.Type()))
			}
			e := reflect.New(f.Type().Elem()).Elem()
			fill(e, m[k])
			f.SetMapIndex(reflect.ValueOf(k), e)
		}
	case t.Kind() == reflect.Slice:
		l := x.([]any)
		v.Set(reflect.MakeSlice(t, len(l), len(l)))
		for i := range l {
			fill(v.Index(i), l[i])
		}
	case t.Kind() == reflect.String:
		v.SetString(x.(string))
	case t.Kind() == reflect.Bool:
		v.SetBool(x.(bool))
	case t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64:
		f, err := x.(json.Number).Float64()
		if err != nil {
			panic(err)
		}
		v.SetFloat(f)
	case t.Kind() == reflect.Int32 || t.Kind() == reflect.Int64:
		i, err := x.(json.Number).Int64()
		if err != nil {
			panic(err)
		}
		v.SetInt(i)
	case t.Kind() == reflect.Uint8:
		i, err := x.(json.Number).Int64()
		if err != nil {
			panic(err)
		}
		v.SetUint(uint64(i))
	case t.Kind() == reflect.Interface:
		v.Set(reflect.ValueOf(x))
	default:
		panic("cannot fill " + t.String())
	}
}

// dump is the generic form of a value. Nil and empty lists and maps are the
// same (they are, on the wire), absent fields are left out.
func dump(v reflect.Value) any {
	t := v.Type()
	switch {
	case t.Kind() == reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		return dump(v.Elem())
	case isTime(t):
		return v.Convert(timeType).Interface().(time.Time).Format(time.RFC3339Nano)
	case isDate(t):
		return fmt.Sprintf("%04d-%02d-%02d", v.Field(0).Int(), v.Field(1).Int(), v.Field(2).Int())
	case t.Kind() == reflect.Struct:
		m := map[string]any{}
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			switch f.Kind() {
			case reflect.Pointer:
				if f.IsNil() {
					continue
				}
			case reflect.Slice, reflect.Map:
				if f.Len() == 0 && t.Field(i).Name != "Payload" {
					continue
				}
			}
			m[t.Field(i).Name] = dump(f)
		}
		return m
	case t.Kind() == reflect.Slice:
		l := []any{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, dump(v.Index(i)))
		}
		return l
	case t.Kind() == reflect.Map:
		m := map[string]any{}
		for _, k := range v.MapKeys() {
			m[k.String()] = dump(v.MapIndex(k))
		}
		return m
	case t.Kind() == reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return dump(v.Elem())
	case t.Kind() == reflect.Float32:
		return jnum(strconv.FormatFloat(v.Float(), 'g', -1, 32))
	case t.Kind() == reflect.Float64:
		return jnum(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	}
	return v.Interface()
}

func jnum(s string) any {
	if strings.ContainsAny(s, "IN") {
		return s
	}
	return json.Number(s)
}

// Canon is a form of a typed message which does not depend on the encoding
// code of the generated package.
func Canon(v any) string {
	if v == nil {
		return "null"
	}
	b, err := json.Marshal(dump(reflect.ValueOf(v)))
	if err != nil {
		return "unmarshalable: " + err.Error()
	}
	return string(b)
}

// SetBody sets the text of a reply.
func SetBody(v any, body string) {
	f := reflect.ValueOf(v).Elem().FieldByName("Payload")
	if f.Kind() == reflect.Struct {
		f = f.FieldByName("Body")
	}
	fill(f, body)
}

type corred interface{ CorrelationID() string }

// CorrOf is the message's correlation ID.
func CorrOf(v any) string {
	if c, ok := v.(corred); ok {
		return c.CorrelationID()
	}
	return ""
}

// corrOps are the operations whose message defines a correlation ID.
var corrOps = map[string]bool{"order": true, "ping": true, "pingb": true, "pong": true, "pongb": true, "pingd": true, "pongd": true, "traced": true, "branded": true, "twisty": true, "call": true, "callp": true}

func jstr(s string) string { b, _ := json.Marshal(s); return string(b) }

var words = []string{"", "a", "hello", "été", "日本", "x y\tz", `q"uo\te`, "<&>", "0", "null", "true", "{}", "line\nbreak", "\u0000\u0001", " padded ", "\r\n", "\ufeffmark", "A%20b%s", strings.Repeat("long", 50)}

// randInt draws a number, often one at the edge of a type.
func randInt(r *w.Rand) int64 {
	if r.P(40) {
		return w.Pick(r, int64(0), 0, 1, -1, math.MaxInt64, math.MinInt64, 1<<53+1)
	}
	return int64(r.U64())
}

func randInt32(r *w.Rand) int32 {
	if r.P(40) {
		return w.Pick(r, int32(0), 0, 1, -1, math.MaxInt32, math.MinInt32)
	}
	return int32(r.U64())
}

func randText(r *w.Rand) string {
	if r.N(1500) == 0 {
		return strings.Repeat("0123456789abcde ", w.Pick(r, 300, 2500, 5000))
	}
	return w.Pick(r, words...)
}

func randTime(r *w.Rand) string {
	base := int64(r.N(4102444800))
	if r.P(10) {
		base = -int64(r.N(1000000000))
	}
	t := time.Unix(base, 0).UTC()
	switch r.N(4) {
	case 0:
		t = t.In(time.FixedZone("", 3600*(r.N(25)-12)))
	case 1:
		t = t.In(time.FixedZone("", -(3600*3 + 1800)))
	}
	if r.P(40) {
		t = t.Add(time.Duration(r.N(1000000000)))
		if r.P(50) {
			t = t.Truncate(time.Millisecond)
		}
	}
	return t.Format(time.RFC3339Nano)
}

// randThing draws an object with additional properties.
func randThing(r *w.Rand, id string) string {
	s := `{"id":` + jstr(id)
	if r.P(40) {
		s += fmt.Sprintf(`,"level":%d`, randInt32(r))
	}
	if r.P(40) {
		s += `,"label":` + jstr(randText(r))
	}
	if r.P(40) {
		s += `,"snake_key":` + fmt.Sprint(r.P(50))
	}
	if r.P(40) {
		s += `,"kebab-key":` + strconv.FormatFloat(float64(r.N(64))/64, 'g', -1, 32)
	}
	for i := r.N(4); i > 0; i-- {
		s += "," + jstr(fmt.Sprint(i)+randText(r)) + ":" + jstr(randText(r))
	}
	return s + "}"
}

func randRow(r *w.Rand, a int) string {
	s := fmt.Sprintf(`{"a":%d`, a)
	if r.P(40) {
		s += `,"at":` + jstr(randTime(r))
	}
	switch r.N(3) {
	case 0:
		s += `,"b":[[],["a",` + jstr(randText(r)) + `]]`
	case 1:
		s += `,"b":[["x"]]`
	}
	if r.P(40) {
		s += `,"c":[` + jstr(randText(r)) + `]`
	}
	return s + "}"
}

// genMsg draws the content of message number n of an operation. Its number can
// be read back from the typed message, from its JSON form and from the bytes
// given to the broker. corr: 0 none, 1 fresh ID by the caller, or a given one.
func genMsg(r *w.Rand, op string, n int, corr string) string {
	tag := fmt.Sprintf("#%d#", n)
	opt := func(k, v string) string {
		if r.P(50) {
			return "," + jstr(k) + ":" + v
		}
		return ""
	}
	cj := ""
	if corr != "" {
		cj = `"correlationId":` + jstr(corr)
	}
	body := jstr(tag + randText(r))
	switch op {
	case "text":
		return fmt.Sprintf(`{"Headers":{"tag":%s%s%s},"Payload":%s}`, jstr(randText(r)), opt("note", jstr(randText(r))), opt("at", jstr(randTime(r))), body)
	case "small":
		return fmt.Sprintf(`{"Payload":%d}`, int32(uint32(r.U64())<<12|uint32(n)))
	case "big":
		return fmt.Sprintf(`{"Payload":%d}`, int64(r.U64()<<12|uint64(n)))
	case "ratio":
		return fmt.Sprintf(`{"Payload":%s}`, strconv.FormatFloat(float64(n)+float64(r.N(1<<30))/float64(1<<30), 'g', -1, 64))
	case "ratio32":
		return fmt.Sprintf(`{"Payload":%s}`, strconv.FormatFloat(float64(n)+float64(r.N(64))/64, 'g', -1, 32))
	case "order":
		items := ""
		if r.P(50) {
			items = `,"items":["a",` + jstr(randText(r)) + `]`
		}
		nested := ""
		switch r.N(3) {
		case 0:
			nested = `,"nested":{"key":` + jstr(randText(r)) + `}`
		case 1:
			nested = fmt.Sprintf(`,"nested":{"key":"k","val":%d}`, randInt32(r))
		}
		return fmt.Sprintf(`{"Headers":{"correlationId":%s%s},"Payload":{"id":%s,"count":%d,"createdAt":%s%s%s%s%s%s}}`,
			jstr(corr), opt("source", jstr(randText(r))), jstr(tag), randInt(r), jstr(randTime(r)),
			opt("ratio", strconv.FormatFloat(float64(randInt(r))/1024, 'g', -1, 64)), opt("flag", fmt.Sprint(r.P(50))), opt("comment", jstr(randText(r))), items, nested)
	case "list":
		s := fmt.Sprintf(`{"Payload":[%d`, n)
		for i := r.N(4); i > 0; i-- {
			s += fmt.Sprintf(",%d", randInt(r))
		}
		return s + "]}"
	case "stamp", "when":
		z := w.Pick(r, "Z", "+02:00", "-03:30")
		t := time.Unix(int64(n)*3600, int64(w.Pick(r, 0, 0, r.N(1000000000)))).UTC()
		return fmt.Sprintf(`{"Payload":%s}`, jstr(t.Format("2006-01-02T15:04:05.999999999")+z))
	case "extra":
		return fmt.Sprintf(`{"Payload":%s}`, randThing(r, tag))
	case "counts", "chatter":
		s := `{"id":` + jstr(tag)
		for i := r.N(4); i > 0; i-- {
			s += fmt.Sprintf(`,%s:%d`, jstr(fmt.Sprint(i)+randText(r)), randInt(r))
		}
		return `{"Payload":` + s + `}}`
	case "meta":
		inf := ""
		if r.P(50) {
			inf = `"k":` + jstr(randText(r))
			if r.P(50) {
				inf += fmt.Sprintf(`,"num":%d`, randInt(r))
			}
		}
		more := ""
		switch r.N(4) {
		case 0:
			more = `,"more":{}`
		case 1:
			more = `,"more":{"k":` + jstr(randText(r)) + `}`
		case 2:
			more = fmt.Sprintf(`,"more":{"k":"x","l":[%d,-1]}`, randInt(r))
		}
		return fmt.Sprintf(`{"Headers":{"label":%s,"born":%s,"info":{%s}%s%s%s%s},"Payload":%s}`, jstr(w.Pick(r, "good", "bad", "so so")), jstr(randTime(r)), inf, more,
			opt("day", jstr(randTime(r))), opt("x-trace", jstr(randText(r))), opt("LABEL_2", jstr(randText(r))), body)
	case "level":
		return fmt.Sprintf(`{"Payload":%d}`, int32(uint32(r.U64())<<12|uint32(n)))
	case "label":
		return fmt.Sprintf(`{"Payload":%s}`, body)
	case "rows":
		s := `{"Payload":[` + randRow(r, n)
		for i := r.N(3); i > 0; i-- {
			s += "," + randRow(r, int(randInt32(r)))
		}
		return s + "]}"
	case "mixed":
		day := func() string {
			return jstr(fmt.Sprintf("%04d-%02d-%02d", r.Range(1, 9999), r.Range(1, 12), r.Range(1, 28)))
		}
		list := func(n int, draw func() string) string {
			l := make([]string, n)
			for i := range l {
				l[i] = draw()
			}
			return "[" + strings.Join(l, ",") + "]"
		}
		dict := func(first string, draw func() string) string {
			var l []string
			if first != "" {
				l = append(l, first)
			}
			for i := r.N(4); i > 0; i-- {
				l = append(l, jstr(fmt.Sprint(i)+randText(r))+":"+draw())
			}
			return "{" + strings.Join(l, ",") + "}"
		}
		num := func() string { return fmt.Sprint(randInt(r)) }
		left := func() string {
			return w.Pick(r, `{}`, `{"a":`+jstr(randText(r))+`}`, `{"size":`+num()+`}`, `{"a":"","size":`+num()+`}`)
		}
		both := func() string {
			if r.P(50) {
				return left()
			}
			return w.Pick(r, `{"b":false}`, `{"b":true,"size":`+num()+`}`, `{"a":"x","b":false}`)
		}
		var tree func(depth int) string
		tree = func(depth int) string {
			s := `{"name":` + jstr(randText(r))
			if depth > 0 && r.P(60) {
				s += `,"kids":` + list(r.Range(1, 2), func() string { return tree(depth - 1) })
			}
			return s + "}"
		}
		id := ""
		if r.P(50) {
			id = `"id":` + jstr(randText(r))
		}
		hd := ""
		if r.P(40) {
			hd = `"named":` + jstr(randText(r))
		}
		return fmt.Sprintf(`{"Headers":{%s},"Payload":{"id":%s,"days":%s`, hd, jstr(tag+randText(r)), list(r.N(3), day)) +
			opt("times", list(r.N(3), func() string { return jstr(randTime(r)) })) + opt("day", day()) + opt("any", w.Pick(r, both(), `{"c":0}`, `{"a":"","c":`+num()+`}`)) + opt("either", both()) +
			opt("flags", dict("", func() string { return fmt.Sprint(r.P(50)) })) + opt("named", dict(id, left)) +
			opt("whens", dict("", func() string { return jstr(randTime(r)) })) + opt("lists", dict("", func() string { return list(r.N(3), num) })) +
			opt("nums", dict("", func() string { return w.Pick(r, "0", "-1.5", "1e300", "0.1", "5e-324") })) + opt("tree", tree(3)) +
			opt("layers", `{"base":`+jstr(randText(r))+opt("mid", num())+opt("top", jstr(randText(r)))+opt("in", w.Pick(r, `{}`, `{"deep":["a"]}`, `{"deep":["",`+jstr(randText(r))+`]}`))+`}`) +
			opt("pick", w.Pick(r, `{}`, `{"x":0}`, `{"yy":"yy"}`, `{"z":false}`, `{"ww":""}`, `{"ww":"w","z":true}`, `{"x":`+num()+`,"yy":"","z":true}`)) + `}}`
	case "knots":
		left := func() string {
			return w.Pick(r, `{}`, `{"a":`+jstr(randText(r))+`}`, `{"size":`+fmt.Sprint(randInt(r))+`}`, `{"a":"","size":0}`)
		}
		words := func() string {
			return w.Pick(r, `[]`, `[""]`, `["a",`+jstr(randText(r))+`]`, `["b","a","b"]`)
		}
		s := fmt.Sprintf(`{"id":%s,"name":%s,"rank":%d,"box":%s,"at":%s,"words":%s,"keep":%s`, body, jstr(randText(r)), randInt32(r), left(), jstr(randTime(r)), words(), jstr(randText(r)))
		s += opt("hint", jstr(randText(r))) + opt("more", words()) + opt("opt", fmt.Sprint(randInt32(r))) + opt("_hid", jstr(randText(r))) +
			opt("patCode", jstr(randText(r))) + opt("sp ace", fmt.Sprint(r.P(50))) + opt("do.t", fmt.Sprint(randInt(r))) +
			opt("cnt", w.Pick(r, "0", "1", "10")) + opt("lim", w.Pick(r, "0", "-1", "0.5")) + opt("stat", jstr(randText(r))) + opt("flag", fmt.Sprint(r.P(50))) +
			opt("ps", w.Pick(r, `[{"a":"","b":false,"c":0,"e":0}]`, `[{"a":"x","b":true,"c":-1.5,"e":7,"f":0},{"a":"","b":false,"c":0,"e":-1}]`))
		if r.P(50) {
			s += fmt.Sprintf(`,"snap":{"cell":{"w":%d},"list":[%d,2]%s%s}`, randInt(r), randInt(r), opt("own", left()), opt("free", jstr(randText(r))))
		}
		if r.P(50) {
			o := opt("fix", jstr(randText(r)))
			for i := r.N(3); i > 0; i-- {
				o += fmt.Sprintf(`,%s:{"q":%d%s}`, jstr(fmt.Sprint(i)+randText(r)), randInt(r), opt("r", w.Pick(r, `["x"]`, `["",""]`)))
			}
			s += `,"poly":{` + strings.TrimPrefix(o, ",") + `}`
		}
		return fmt.Sprintf(`{"Payload":%s}}`, s)
	case "union":
		s := `{"one":` + jstr(tag+randText(r)) + `,"free":[`
		for i, l := 0, r.N(3); i < l; i++ {
			if i > 0 {
				s += ","
			}
			s += w.Pick(r, `{}`, `{"x":1.5}`, `{"x":-0.001,"yy":`+randRow(r, r.N(100))+`}`)
		}
		s += "]" + opt("octet", fmt.Sprint(r.N(256))) + opt("nul", jstr(randText(r))) + opt("brief", jstr(randText(r))) + opt("flag", fmt.Sprint(r.P(50))) + opt("date", `"20`+fmt.Sprint(r.Range(10, 99))+`-02-28"`)
		if r.P(40) {
			s += `,"extra":` + randThing(r, randText(r))
		}
		switch r.N(3) {
		case 0:
			s += `,"deep":{"in":{}}`
		case 1:
			s += fmt.Sprintf(`,"deep":{"in":{"z":%d,"t":%s}}`, randInt32(r), jstr(randTime(r)))
		}
		if r.P(40) {
			s += `,"merged":{"id":` + jstr(randText(r)) + `,"kind":` + jstr(randText(r)) + fmt.Sprintf(`,"size":%d`, randInt(r)) + opt("more", jstr(randText(r))) +
				opt("box", `{"w":0.5`+opt("h", "-2")+`}`) + `}`
		}
		return `{"Payload":` + s + `}}`
	case "room", "seat", "chat":
		who := ""
		if r.P(50) {
			who = `"who":` + jstr(randText(r))
		}
		return fmt.Sprintf(`{"Headers":{%s},"Payload":%s}`, who, body)
	case "news":
		t := ""
		if r.P(50) {
			t = `"tag":` + jstr(randText(r))
		}
		return fmt.Sprintf(`{"Headers":{%s},"Payload":%s}`, t, body)
	case "ping", "pong":
		return fmt.Sprintf(`{"Headers":{%s},"Payload":%s}`, cj, body)
	case "pingb", "pongb":
		c := ""
		if corr != "" {
			c = `,"cid":` + jstr(corr)
		}
		return fmt.Sprintf(`{"Payload":{"body":%s%s}}`, body, c)
	case "pingd", "pongd":
		note := opt("note", jstr(randText(r)))
		switch {
		case corr != "":
			return fmt.Sprintf(`{"Payload":{"body":%s,"meta":{"ids":{"kind":%s,"cid":%s}%s}}}`, body, jstr(randText(r)), jstr(corr), note)
		case r.P(40):
			return fmt.Sprintf(`{"Payload":{"body":%s}}`, body)
		case r.P(40):
			return fmt.Sprintf(`{"Payload":{"body":%s,"meta":{%s}}}`, body, strings.TrimPrefix(note, ","))
		}
		return fmt.Sprintf(`{"Payload":{"body":%s,"meta":{"ids":{"kind":%s}%s}}}`, body, jstr(randText(r)), note)
	case "branded":
		h := opt("brand", jstr(randText(r))) + opt("made", jstr(randTime(r)))
		if corr != "" {
			h += `,"myID":` + jstr(corr)
		}
		return fmt.Sprintf(`{"Headers":{%s},"Payload":%s}`, strings.TrimPrefix(h, ","), body)
	case "twisty":
		h := strings.TrimPrefix(opt("brand", jstr(randText(r)))+opt("made", jstr(randTime(r))), ",")
		note := opt("note", jstr(randText(r)))
		switch {
		case corr != "":
			return fmt.Sprintf(`{"Headers":{%s},"Payload":{"body":%s,"about":{"cid":%s%s}}}`, h, body, jstr(corr), note)
		case r.P(50):
			return fmt.Sprintf(`{"Headers":{%s},"Payload":{"body":%s}}`, h, body)
		}
		return fmt.Sprintf(`{"Headers":{%s},"Payload":{"body":%s,"about":{%s}}}`, h, body, strings.TrimPrefix(note, ","))
	case "traced":
		hop := fmt.Sprintf(`"hop":%d`, randInt(r))
		switch {
		case corr != "":
			return fmt.Sprintf(`{"Headers":{"traceCtx":{"id":%s,%s}},"Payload":%s}`, jstr(corr), hop, body)
		case r.P(50):
			return fmt.Sprintf(`{"Headers":{},"Payload":%s}`, body)
		}
		return fmt.Sprintf(`{"Headers":{"traceCtx":{%s}},"Payload":%s}`, w.Pick(r, hop, ""), body)
	case "callp":
		c := ""
		if corr != "" {
			c = `,"cid":` + jstr(corr)
		}
		switch {
		case r.P(80):
			c = fmt.Sprintf(`,"meta":{"replyTo":%s%s}`, jstr(fmt.Sprintf("sim.reply.%d", n)), c)
		case c != "":
			c = `,"meta":{` + c[1:] + `}`
		}
		return fmt.Sprintf(`{"Payload":{"body":%s%s}}`, body, c)
	case "ask", "answer":
		return fmt.Sprintf(`{"Payload":%s}`, body)
	case "call":
		c := ""
		if cj != "" {
			c = "," + cj
		}
		return fmt.Sprintf(`{"Headers":{"replyTo":%s%s},"Payload":%s}`, jstr(fmt.Sprintf("sim.reply.%d", n)), c, body)
	}
	panic("no operation " + op)
}

var numRe = regexp.MustCompile(`#(\d+)#`)

// NumOf reads the message's number, or -1.
func NumOf(op string, v any) int {
	js := Canon(v)
	if m := numRe.FindStringSubmatch(js); m != nil {
		n, _ := strconv.Atoi(m[1])
		return n
	}
	var x struct{ Payload json.RawMessage }
	if json.Unmarshal([]byte(js), &x) != nil {
		return -1
	}
	switch op {
	case "small", "big", "level":
		i, err := strconv.ParseInt(string(x.Payload), 10, 64)
		if err != nil {
			return -1
		}
		return int(i & 0xfff)
	case "ratio", "ratio32":
		f, err := strconv.ParseFloat(string(x.Payload), 64)
		if err != nil {
			return -1
		}
		return int(f)
	case "list":
		var l []int64
		if json.Unmarshal(x.Payload, &l) != nil || len(l) == 0 {
			return -1
		}
		return int(l[0])
	case "rows":
		var l []struct{ A int }
		if json.Unmarshal(x.Payload, &l) != nil || len(l) == 0 {
			return -1
		}
		return l[0].A
	case "stamp", "when":
		var t time.Time
		if json.Unmarshal(x.Payload, &t) != nil {
			return -1
		}
		_, off := t.Zone()
		return int((t.Unix() + int64(off)) / 3600)
	}
	return -1
}

// RawNum reads the number of a text-like message from its bytes, or -1.
func RawNum(payload []byte) int {
	if m := numRe.FindSubmatch(payload); m != nil {
		n, _ := strconv.Atoi(string(m[1]))
		return n
	}
	return -1
}

// newIn makes a typed message of a package, by operation.
func pkgOf(wd *w.World) *Package {
	return packages[[]string{"simv3", "simv2", "simv3b", "simv3p"}[wd.C("pkg")]]
}
