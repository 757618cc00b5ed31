package main

import (
	"encoding/json"
	"fmt"

	"verifsim/w"
)

// specFiles draws a specification with the constructs the generator supports,
// and possibly a dependency: file name -> content; the first name is the main one.
type specFile struct {
	name    string
	content []byte
}

type obj = map[string]any

type specGen struct {
	r    *w.Rand
	v    int
	dep  bool
	n    int
	refs []string // schemas that may be referenced (declared before, so no cycles)
}

func genSpec(seed uint64) []specFile {
	r := w.NewRand(seed * 0x9e3779b9)
	g := &specGen{r: r, v: 2 + r.N(2), dep: r.P(25)}
	var files []specFile
	if g.dep {
		dep := obj{"asyncapi": g.asyncapi(), "info": obj{"title": "dep", "version": "0.1.0"}}
		schemas := obj{}
		var names []string
		for i, n := 0, r.Range(1, 3); i < n; i++ {
			name := fmt.Sprintf("dep%c", 'a'+i)
			schemas[name] = g.schema(2, true)
			names = append(names, name)
		}
		dep["components"] = obj{"schemas": schemas}
		if g.v == 2 {
			dep["channels"] = obj{}
		}
		j, _ := json.MarshalIndent(dep, "", " ")
		files = append(files, specFile{"dep.yaml", j})
		for _, n := range names {
			g.refs = append(g.refs, w.Pick(r, "./dep.yaml", "dep.yaml")+"#/components/schemas/"+n)
		}
	}
	doc := obj{"asyncapi": g.asyncapi(), "info": obj{"title": "t", "version": fmt.Sprintf("1.%d.0", r.N(4))}}
	schemas := obj{}
	var names []string
	for i, n := 0, r.N(6); i < n; i++ {
		name := g.name("schema")
		schemas[name] = g.schema(2, false)
		names = append(names, name)
		g.refs = append(g.refs, "#/components/schemas/"+name)
	}
	comps := obj{"schemas": schemas}
	messages := obj{}
	var msgs []string
	for i, n := 0, r.Range(1, 5); i < n; i++ {
		name := g.name("msg")
		messages[name] = g.message()
		msgs = append(msgs, name)
	}
	comps["messages"] = messages
	doc["components"] = comps
	if g.v == 3 {
		g.channels3(doc, msgs)
	} else {
		g.channels2(doc, msgs)
	}
	j, _ := json.MarshalIndent(doc, "", " ")
	return append([]specFile{{w.Pick(r, "spec.json", "spec.yaml", "spec.yml"), j}}, files...)
}

func (g *specGen) asyncapi() string {
	if g.v == 3 {
		return "3.0.0"
	}
	return w.Pick(g.r, "2.0.0", "2.4.0", "2.6.0")
}

func (g *specGen) name(kind string) string {
	g.n++
	// Names whose order differs from the order they are declared in.
	return fmt.Sprintf("%s%s%d", w.Pick(g.r, "a", "b", "m", "y", "z", "q_", "k-"), kind, g.n)
}

func (g *specGen) ref() obj { return obj{"$ref": w.Pick(g.r, g.refs...)} }

func (g *specGen) schema(depth int, object bool) obj {
	r := g.r
	if !object && len(g.refs) > 0 && r.P(20) {
		return g.ref()
	}
	if !object && (depth == 0 || r.P(45)) {
		s := obj{}
		switch r.N(8) {
		case 0:
			s["type"], s["format"] = "string", w.Pick(r, "date-time", "date", "uuid")
		case 1:
			s["type"] = "integer"
			if r.P(50) {
				s["format"] = w.Pick(r, "int32", "int64")
			}
			if r.P(30) {
				s["minimum"], s["maximum"] = r.N(5), 10+r.N(5)
			}
		case 2:
			s["type"] = "number"
		case 3:
			s["type"] = "boolean"
		case 4:
			s["type"], s["enum"] = "string", []any{"x", "y", "z"}
		case 5:
			s["type"] = "string"
			s["x-go-type"] = w.Pick(r, "uuid.UUID", "big.Int", "json.RawMessage")
			imp := map[any]string{"uuid.UUID": "github.com/google/uuid", "big.Int": "math/big", "json.RawMessage": "encoding/json"}[s["x-go-type"]]
			s["x-go-type-import"] = obj{"path": imp}
		default:
			s["type"] = "string"
			if r.P(30) {
				s["minLength"] = 1
			}
			if r.P(20) {
				s["description"] = "some\ntext"
			}
			if r.P(10) {
				s["x-omitempty"] = r.P(50)
			}
		}
		return s
	}
	if !object && r.P(30) {
		return obj{"type": "array", "items": g.schema(max(depth-1, 0), depth > 0 && r.P(60))}
	}
	s := obj{"type": "object"}
	props := obj{}
	var req []string
	for i, n := 0, r.Range(1, 5); i < n; i++ {
		name := fmt.Sprintf("%s%d", w.Pick(r, "alpha", "beta", "some_prop", "omega", "Zeta", "id-"), i)
		if depth <= 0 {
			props[name] = obj{"type": "string"}
		} else {
			props[name] = g.schema(depth-1, false)
		}
		if r.P(40) {
			req = append(req, name)
		}
	}
	s["properties"] = props
	if req != nil {
		s["required"] = req
	}
	if r.P(15) {
		s["additionalProperties"] = obj{"type": "string"}
	}
	if len(g.refs) > 0 && r.P(35) {
		var l []any
		for i, n := 0, r.Range(1, 3); i < n; i++ {
			if r.P(75) {
				l = append(l, g.ref())
			} else {
				l = append(l, obj{"type": "object", "properties": obj{fmt.Sprintf("extra%d", r.N(3)): obj{"type": w.Pick(r, "string", "integer")}}})
			}
		}
		s[w.Pick(r, "allOf", "allOf", "anyOf", "oneOf")] = l
		if r.P(40) {
			delete(s, "properties")
			delete(s, "required")
		}
	}
	return s
}

func (g *specGen) message() obj {
	r := g.r
	m := obj{"payload": g.schema(2, r.P(50))}
	if r.P(40) {
		m["headers"] = obj{"type": "object", "properties": obj{"tag": obj{"type": "string"}, "at": obj{"type": "string", "format": "date-time"}, "num": obj{"type": "string"}}, "required": []string{"tag"}}
	}
	if r.P(30) {
		m["correlationId"] = obj{"location": w.Pick(r, "$message.header#/correlationId", "$message.header#/tag")}
	}
	if r.P(20) {
		m["description"] = "a message"
	}
	return m
}

func (g *specGen) mref(n string) obj { return obj{"$ref": "#/components/messages/" + n} }

func (g *specGen) channels3(doc obj, msgs []string) {
	r := g.r
	chans, ops := obj{}, obj{}
	var names []string
	for i, n := 0, r.Range(1, 5); i < n; i++ {
		name := g.name("chan")
		c := obj{"address": "top." + name}
		if r.P(25) {
			c["address"] = "top.{room}.{seat}." + name
			c["parameters"] = obj{"room": obj{"description": "r"}, "seat": obj{"description": "s"}}
		}
		mm := obj{}
		for j, k := 0, w.Pick(r, 1, 1, 1, 2, 3); j < k; j++ {
			m := w.Pick(r, msgs...)
			mm[m] = g.mref(m)
		}
		if r.P(15) {
			mm["inline"+name] = g.message()
		}
		c["messages"] = mm
		chans[name] = c
		names = append(names, name)
	}
	for i, n := 0, r.Range(1, 5); i < n; i++ {
		ch := w.Pick(r, names...)
		op := obj{"action": w.Pick(r, "send", "receive"), "channel": obj{"$ref": "#/channels/" + ch}}
		if r.P(35) {
			op["reply"] = obj{"channel": obj{"$ref": "#/channels/" + w.Pick(r, names...)}}
		}
		ops[g.name("op")] = op
	}
	doc["channels"], doc["operations"] = chans, ops
}

func (g *specGen) channels2(doc obj, msgs []string) {
	r := g.r
	chans := obj{}
	for i, n := 0, r.Range(1, 5); i < n; i++ {
		name := g.name("chan")
		c := obj{}
		if r.P(25) {
			name = "top.{room}." + name
			c["parameters"] = obj{"room": obj{"description": "r", "schema": obj{"type": "string"}}}
		}
		msg := func() obj {
			if r.P(20) {
				return g.message()
			}
			if r.P(15) {
				return obj{"oneOf": []any{g.mref(w.Pick(r, msgs...)), g.mref(w.Pick(r, msgs...))}}
			}
			return g.mref(w.Pick(r, msgs...))
		}
		if r.P(60) {
			c["publish"] = obj{"operationId": g.name("pub"), "message": msg()}
		}
		if r.P(60) || c["publish"] == nil {
			c["subscribe"] = obj{"operationId": g.name("sub"), "message": msg()}
		}
		chans[name] = c
	}
	doc["channels"] = chans
}
