package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/openapi"
	"verif/mc"
)

// An abstract API document, rendered as OpenAPI 3 or Swagger 2 and translated to the model it describes by the reference.

type asch struct {
	ref, typ, format, desc, pattern string
	enum                            []string
	min, max                        string
	lo, hi                          int // sizes; -1: absent
	items, addl                     *asch
	props                           []aprop
	required                        []string
	example                         interface{}
}
type aprop struct {
	name string
	s    *asch
}

func as(typ, format string) *asch { return &asch{typ: typ, format: format, lo: -1, hi: -1} }
func aref(n string) *asch         { return &asch{ref: n, lo: -1, hi: -1} }
func (a asch) with(f func(*asch)) *asch {
	f(&a)
	return &a
}

func (a *asch) render(v int) jobj {
	if a.ref != "" {
		if v == 2 {
			return jobj{"$ref": "#/definitions/" + a.ref}
		}
		return jobj{"$ref": "#/components/schemas/" + a.ref}
	}
	m := jobj{}
	set := func(k, s string) {
		if s != "" {
			m[k] = s
		}
	}
	set("type", a.typ)
	set("format", a.format)
	set("description", a.desc)
	set("pattern", a.pattern)
	if a.enum != nil {
		m["enum"] = a.enum
	}
	if a.min != "" {
		m["minimum"] = json.Number(a.min)
	}
	if a.max != "" {
		m["maximum"] = json.Number(a.max)
	}
	sfx := map[string]string{"string": "Length", "array": "Items", "object": "Properties"}[a.typ]
	if a.lo >= 0 {
		m["min"+sfx] = a.lo
	}
	if a.hi >= 0 {
		m["max"+sfx] = a.hi
	}
	if a.items != nil {
		m["items"] = a.items.render(v)
	}
	if a.addl != nil {
		m["additionalProperties"] = a.addl.render(v)
	}
	if a.props != nil {
		ps := jobj{}
		for _, p := range a.props {
			ps[p.name] = p.s.render(v)
		}
		m["properties"] = ps
	}
	if a.required != nil {
		m["required"] = a.required
	}
	if a.example != nil {
		m["example"] = a.example
	}
	return m
}

var symRe = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_]*$`)

func (a *asch) spec(enums bool) sadl.TypeSpec {
	var ts sadl.TypeSpec
	sizes := func() {
		if a.lo > 0 {
			ts.MinSize = i64(int64(a.lo))
		}
		if a.hi >= 0 {
			ts.MaxSize = i64(int64(a.hi))
		}
	}
	bounds := func() {
		if a.min != "" {
			ts.Min = dec(a.min)
		}
		if a.max != "" {
			ts.Max = dec(a.max)
		}
	}
	item := func(s *asch) string {
		if s == nil {
			return ""
		}
		t := s.spec(true)
		return t.Type
	}
	if a.ref != "" {
		return tsOf(a.ref)
	}
	switch a.typ {
	case "boolean":
		ts.Type = "Bool"
	case "integer":
		ts.Type = map[string]string{"int8": "Int8", "int16": "Int16", "int32": "Int32"}[a.format]
		if ts.Type == "" {
			ts.Type = "Int64"
		}
		bounds()
	case "number":
		ts.Type = map[string]string{"float": "Float32", "double": "Float64"}[a.format]
		if ts.Type == "" {
			ts.Type = "Decimal"
		}
		bounds()
	case "string":
		all := enums && a.enum != nil
		for _, e := range a.enum {
			all = all && symRe.MatchString(e)
		}
		if all {
			return enumTS(a.enum...)
		}
		ts.Type = map[string]string{"uuid": "UUID", "date-time": "Timestamp", "byte": "Bytes"}[a.format]
		ts.Values = a.enum
		if ts.Type == "" {
			ts.Type = "String"
			ts.Pattern = a.pattern
			sizes()
		}
	case "array":
		ts.Type = "Array"
		ts.Items = item(a.items)
		sizes()
	default:
		if a.addl != nil && len(a.props) == 0 {
			ts.Type, ts.Keys, ts.Items = "Map", "String", item(a.addl)
			sizes()
			break
		}
		if a.typ == "" && a.props == nil {
			ts.Type = "Any"
			break
		}
		ts.Type = "Struct"
		for _, p := range a.props {
			f := fld(p.name, false, p.s.spec(true))
			f.Comment = p.s.desc
			for _, q := range a.required {
				f.Required = f.Required || q == p.name
			}
			ts.Fields = append(ts.Fields, f)
		}
	}
	return ts
}

func (a *asch) examples(target string) []*sadl.ExampleDef {
	var out []*sadl.ExampleDef
	if a.example != nil {
		out = append(out, &sadl.ExampleDef{Target: target, Example: a.example})
	}
	for _, p := range a.props {
		out = append(out, p.s.examples(target+"."+p.name)...)
	}
	return out
}

type aparam struct {
	in, name, desc string
	required       bool
	s              *asch
}
type aresp struct {
	desc    string
	s       *asch
	headers []aparam
}
type aop struct {
	path, method, id, summary string
	tags                      []string
	params                    []aparam
	body                      *asch
	bodyReq                   bool
	resps                     map[string]*aresp
}
type adoc struct {
	title   string
	types   []aprop
	ops     []*aop
	global  int // Swagger: media types declared 0 by each operation, 1 for the whole document, 2 both, differently, 3 and 4 partly by each
	noComps bool
}

func (d *adoc) render(v int) jobj {
	defs := jobj{}
	for _, t := range d.types {
		defs[t.name] = t.s.render(v)
	}
	paths := jobj{}
	media := []string{"application/xml", "application/json"}
	content := func(s *asch) jobj {
		return jobj{"application/json": jobj{"schema": s.render(3)}, "text/plain": jobj{"schema": jobj{"type": "string"}}}
	}
	for _, o := range d.ops {
		op := jobj{}
		if o.id != "" {
			op["operationId"] = o.id
		}
		if o.summary != "" {
			op["summary"] = o.summary
		}
		if o.tags != nil {
			op["tags"] = o.tags
		}
		var ps []interface{}
		for _, p := range o.params {
			pm := jobj{"in": p.in, "name": p.name}
			if v == 2 {
				pm = p.s.render(2)
				pm["in"], pm["name"] = p.in, p.name
			} else {
				pm["schema"] = p.s.render(3)
			}
			if p.required {
				pm["required"] = true
			}
			if p.desc != "" {
				pm["description"] = p.desc
			}
			ps = append(ps, pm)
		}
		if o.body != nil {
			if v == 2 {
				ps = append([]interface{}{jobj{"in": "body", "name": "payload", "required": o.bodyReq, "description": "the body", "schema": o.body.render(2)}}, ps...)
			} else {
				op["requestBody"] = jobj{"required": o.bodyReq, "description": "the body", "content": content(o.body)}
			}
		}
		if ps != nil {
			op["parameters"] = ps
		}
		rs := jobj{}
		for st, r := range o.resps {
			m := jobj{"description": r.desc}
			if r.s != nil {
				if v == 2 {
					m["schema"] = r.s.render(2)
				} else {
					m["content"] = content(r.s)
				}
			}
			hs := jobj{}
			for _, h := range r.headers {
				if v == 2 {
					hm := h.s.render(2)
					hm["description"] = h.desc
					hs[h.name] = hm
				} else {
					hs[h.name] = jobj{"description": h.desc, "schema": h.s.render(3)}
				}
			}
			if len(hs) > 0 {
				m["headers"] = hs
			}
			rs[st] = m
		}
		op["responses"] = rs
		if v == 2 && d.global != 1 {
			if d.global != 4 {
				op["consumes"] = media
			}
			if d.global != 3 {
				op["produces"] = media
			}
			if d.global == 2 {
				op["consumes"], op["produces"] = media[1:], media[1:]
			}
		}
		pi, _ := paths[o.path].(jobj)
		if pi == nil {
			pi = jobj{}
			paths[o.path] = pi
		}
		pi[strings.ToLower(o.method)] = op
	}
	info := jobj{"title": d.title, "version": "7", "description": "about it"}
	if v == 2 {
		doc := jobj{"swagger": "2.0", "info": info, "paths": paths, "definitions": defs, "host": "h.example", "basePath": "/b"}
		switch d.global {
		case 1:
			doc["consumes"], doc["produces"] = media, media
		case 2:
			doc["consumes"], doc["produces"] = []string{"text/plain"}, []string{"text/plain"}
		case 3: // the operations say what they consume
			doc["consumes"], doc["produces"] = []string{"text/plain"}, media
		case 4: // the operations say what they produce
			doc["consumes"], doc["produces"] = media, []string{"text/plain"}
		}
		return doc
	}
	doc := jobj{"openapi": "3.0.0", "info": info, "paths": paths, "components": jobj{"schemas": defs}}
	if d.noComps && len(defs) == 0 {
		delete(doc, "components")
	}
	return doc
}

func ident(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || (c >= '0' && c <= '9' && b.Len() > 0) {
			b.WriteRune(c)
		}
	}
	return b.String()
}

func (d *adoc) expect() *sadl.Schema {
	s := &sadl.Schema{Name: d.title, Version: "7", Comment: "about it"}
	byName := map[string]*asch{}
	for _, t := range d.types {
		byName[t.name] = t.s
	}
	for _, t := range d.types {
		x := t.s
		for x.ref != "" {
			x = byName[x.ref]
		}
		if x == t.s {
			s.Examples = append(s.Examples, x.examples(t.name)...)
		}
		n := td(t.name, x.spec(true))
		n.Comment = t.s.desc
		s.Types = append(s.Types, n)
	}
	for _, o := range d.ops {
		h := &sadl.HttpDef{Name: o.id, Path: o.path, Method: o.method, Comment: o.summary}
		if len(o.tags) > 0 {
			h.Resource = o.tags[0]
			if len(o.tags) > 1 {
				h.Annotations = map[string]string{"x_tags": strings.Join(o.tags[1:], ",")}
			}
		}
		sep := "?"
		for _, p := range o.params {
			in := &sadl.HttpParamSpec{StructFieldDef: *fld(ident(p.name), p.required, p.s.spec(false))}
			if in.Type == "Array" && in.Items == "" {
				in.Items = "Any"
			}
			in.Comment = p.desc
			switch p.in {
			case "query":
				in.Query = p.name
				h.Path += sep + p.name + "={" + ident(p.name) + "}"
				sep = "&"
			case "path":
				in.Path = true
			case "header":
				in.Header = p.name
			}
			h.Inputs = append(h.Inputs, in)
		}
		if o.body != nil && hasBody(o.method) {
			in := &sadl.HttpParamSpec{StructFieldDef: *fld("body", o.bodyReq, o.body.spec(true))}
			in.Comment = "the body"
			h.Inputs = append(h.Inputs, in)
		}
		var sts []string
		for st := range o.resps {
			sts = append(sts, st)
		}
		sort.Strings(sts)
		exp := "default"
		for i := len(sts) - 1; i >= 0; i-- {
			if sts[i][0] == '2' || (sts[i][0] == '3') {
				exp = sts[i]
			}
		}
		for _, st := range sts {
			r := o.resps[st]
			code := int32(0)
			fmt.Sscanf(st, "%d", &code)
			if st == exp {
				if st == "default" {
					code = 200
				}
				h.Expected = &sadl.HttpExpectedSpec{Status: code, Comment: r.desc}
				for _, hd := range r.headers {
					p := &sadl.HttpParamSpec{Header: hd.name, StructFieldDef: *fld("", false, hd.s.spec(true))}
					p.Comment = hd.desc
					h.Expected.Outputs = append(h.Expected.Outputs, p)
				}
				if r.s != nil {
					h.Expected.Outputs = append(h.Expected.Outputs, &sadl.HttpParamSpec{StructFieldDef: *fld("", false, r.s.spec(true))})
				}
			} else {
				e := &sadl.HttpExceptionSpec{Status: code, Comment: r.desc}
				if r.s != nil {
					e.Type = r.s.ref
				}
				h.Exceptions = append(h.Exceptions, e)
			}
		}
		s.Http = append(s.Http, h)
	}
	return s
}

// normSchema forgets what the statement does not prescribe: orders the document format does not keep, output names.
func normSchema(s *sadl.Schema) *sadl.Schema {
	s = cloneSchema(s)
	s.Annotations, s.Sadl = nil, ""
	sort.SliceStable(s.Examples, func(i, j int) bool { return s.Examples[i].Target < s.Examples[j].Target })
	sort.SliceStable(s.Types, func(i, j int) bool { return s.Types[i].Name < s.Types[j].Name })
	var fields func(ts *sadl.TypeSpec)
	fields = func(ts *sadl.TypeSpec) {
		sort.SliceStable(ts.Fields, func(i, j int) bool { return ts.Fields[i].Name < ts.Fields[j].Name })
		for _, f := range ts.Fields {
			fields(&f.TypeSpec)
		}
	}
	for _, t := range s.Types {
		fields(&t.TypeSpec)
	}
	sort.SliceStable(s.Http, func(i, j int) bool { return s.Http[i].Path+s.Http[i].Method < s.Http[j].Path+s.Http[j].Method })
	for _, h := range s.Http {
		if len(h.Annotations) == 0 {
			h.Annotations = nil
		}
		for _, in := range h.Inputs {
			fields(&in.TypeSpec)
			if (in.Query+in.Header != "") && !symRe.MatchString(in.Query+in.Header) {
				in.Name = ""
			}
		}
		if h.Expected != nil {
			for _, o := range h.Expected.Outputs {
				o.Name = ""
				fields(&o.TypeSpec)
			}
			os := h.Expected.Outputs
			sort.SliceStable(os, func(i, j int) bool { return os[i].Header < os[j].Header })
		}
		sort.SliceStable(h.Exceptions, func(i, j int) bool { return h.Exceptions[i].Status < h.Exceptions[j].Status })
	}
	return s
}

func importText(r *mc.R, v int, how string, text []byte) (*sadl.Model, error) {
	if v == 3 && how == "direct" {
		m := &openapi.Model{}
		if err := json.Unmarshal(text, m); err != nil {
			return nil, err
		}
		m, err := openapi.Validate(m)
		if err != nil {
			return nil, err
		}
		return m.ToSadl("fallback")
	}
	f := filepath.Join(r.Scratch, "fallback."+how)
	if err := os.WriteFile(f, text, 0644); err != nil {
		panic(err)
	}
	defer os.Remove(f)
	if v == 2 {
		return openapi.ImportSwagger([]string{f}, sadl.NewData())
	}
	return openapi.Import([]string{f}, sadl.NewData())
}

func importCase(v int, how string, d *adoc) mc.Case {
	if docSink != nil {
		return docSink(v, how, d)
	}
	return func(r *mc.R) {
		doc := d.render(v)
		text, err := json.Marshal(doc)
		if err != nil {
			panic(err)
		}
		r.Input(func() string { return string(text) })
		m, err := importText(r, v, how, text)
		if err != nil {
			r.Fail("error", "import failed: %v", err)
			return
		}
		if len(d.types) > 0 || !d.noComps {
			for _, t := range d.types {
				if m.FindType(t.name) == nil {
					r.Fail("lookup", "type %s cannot be looked up", t.name)
				}
			}
		}
		for _, h := range m.Http {
			ps := append([]*sadl.HttpParamSpec{}, h.Inputs...)
			if h.Expected != nil {
				ps = append(ps, h.Expected.Outputs...)
			}
			for _, p := range ps {
				if !symRe.MatchString(p.Name) {
					r.Fail("param-name", "%s has an input or output named %q (%s%s)", h.Name, p.Name, p.Query, p.Header)
				}
			}
		}
		want, got := normSchema(d.expect()), normSchema(&m.Schema)
		if df := diffOf(want, got); df != "" {
			r.Fail("model", "imported model differs from the document at %s (document vs model)\n  want %s\n  got  %s", df, jsonOf(want), jsonOf(got))
		}
		r.Outcome("imported")
	}
}

// ---- enumeration of documents

func auxSchemas() []aprop {
	return []aprop{
		{"Rec", as("object", "").with(func(a *asch) {
			a.props = []aprop{{"name", as("string", "")}, {"count", as("integer", "int32")}}
			a.required = []string{"name"}
		})},
		{"Err", as("object", "").with(func(a *asch) { a.props = []aprop{{"message", as("string", "")}} })},
		{"Col", as("string", "").with(func(a *asch) { a.enum = []string{"RED", "GREEN"} })},
	}
}

func schemaMenu(v int) []*asch {
	var m []*asch
	add := func(a ...*asch) { m = append(m, a...) }
	add(as("boolean", ""))
	for _, f := range []string{"", "int8", "int16", "int32", "int64"} {
		add(as("integer", f))
	}
	for _, f := range []string{"", "float", "double"} {
		add(as("number", f))
	}
	for _, t := range []*asch{as("integer", "int32"), as("integer", ""), as("number", ""), as("number", "double")} {
		for _, b := range [][2]string{{"0", ""}, {"", "100"}, {"-3", "7"}} {
			add(t.with(func(a *asch) { a.min, a.max = b[0], b[1] }))
		}
	}
	add(as("number", "").with(func(a *asch) { a.min, a.max = "-0.5", "1.25" }))
	add(as("string", ""), as("string", "uuid"), as("string", "date-time"), as("string", "byte"))
	for _, b := range [][2]int{{1, -1}, {-1, 9}, {2, 5}, {0, 0}} {
		add(as("string", "").with(func(a *asch) { a.lo, a.hi = b[0], b[1] }))
		if b[0] != 0 {
			add(as("array", "").with(func(a *asch) { a.items, a.lo, a.hi = aref("Rec"), b[0], b[1] }))
			add(as("object", "").with(func(a *asch) { a.addl, a.lo, a.hi = as("string", ""), b[0], b[1] }))
		}
	}
	add(as("string", "").with(func(a *asch) { a.pattern = "^a|b$" }), as("string", "").with(func(a *asch) { a.pattern, a.hi = "^x", 3 }))
	for _, e := range [][]string{{"A"}, {"B", "A", "c_9"}, {"two words", "x"}, {"a-b"}, {"1st"}} {
		add(as("string", "").with(func(a *asch) { a.enum = e }))
	}
	items := []*asch{as("string", ""), as("boolean", ""), as("integer", ""), as("integer", "int32"), as("number", "double"), as("number", ""), as("string", "date-time"), as("string", "uuid"), aref("Rec"), aref("Col")}
	for _, it := range items {
		add(as("array", "").with(func(a *asch) { a.items = it }), as("object", "").with(func(a *asch) { a.addl = it }))
	}
	return m
}

func objMenu(v int) []*asch {
	out := []*asch{as("object", ""), as("", "").with(func(a *asch) { a.props = []aprop{{"p", as("string", "")}} })}
	if v == 3 {
		out = append(out, as("", ""))
	}
	return append(out, as("object", "").with(func(a *asch) {
		a.props = []aprop{{"inner", as("object", "").with(func(b *asch) {
			b.props = []aprop{{"deep", as("string", "").with(func(s *asch) { s.hi = 4 })}, {"r", aref("Rec")}}
			b.required = []string{"deep"}
		})}, {"self", aref("T0")}}
		a.required = []string{"self"}
	}))
}

func drawOp(c *mc.C, v int, id string, base string, free string) *aop {
	pick := func(part string, n int) int {
		if strings.Contains(free, part) {
			return c.Choose(n)
		}
		return c.Dev(n)
	}
	methods := []string{"GET", "POST", "PUT", "DELETE", "HEAD", "PATCH"}
	methods = append(methods, "OPTIONS")
	o := &aop{id: id, path: "/" + base, resps: map[string]*aresp{}}
	o.method = methods[pick("method", len(methods))]
	ptypes := []*asch{as("string", ""), as("integer", "int64"), as("integer", ""), as("boolean", ""), as("number", ""), as("string", "date-time"),
		as("string", "").with(func(a *asch) { a.enum = []string{"up", "down"} }), as("string", "").with(func(a *asch) { a.pattern = "^z" }), as("integer", "int32").with(func(a *asch) { a.min, a.max = "1", "9" })}
	pt := func() *asch { return ptypes[pick("ptype", len(ptypes))] }
	comment := pick("comment", 2) == 1
	desc := func(s string) string {
		if comment {
			return s
		}
		return ""
	}
	if comment {
		o.summary = "does it"
	}
	switch pick("path", 4) {
	case 1:
		o.path += "/{id}"
		o.params = append(o.params, aparam{"path", "id", desc("the id"), true, pt()})
	case 2:
		o.path += "/{id2}/sub/{k_1}"
		o.params = append(o.params, aparam{"path", "k_1", "", true, as("string", "")}, aparam{"path", "id2", desc("the id"), true, pt()})
	case 3:
		o.path += "/{a1}/{a2}"
		o.params = append(o.params, aparam{"path", "a1", "", true, as("string", "")}, aparam{"path", "a2", "", true, pt()})
	}
	switch pick("query", 6) {
	case 1:
		o.params = append(o.params, aparam{"query", "lim", desc("limit"), false, pt()})
	case 2:
		o.params = append(o.params, aparam{"query", "q1", "", true, pt()}, aparam{"query", "q2", desc("two"), false, as("string", "")})
	case 3:
		o.params = append([]aparam{{"query", "many", "", false, as("array", "").with(func(a *asch) { a.items = as("string", "") })}}, o.params...)
	case 4:
		o.params = append([]aparam{{"query", "first-of", "", true, pt()}}, o.params...)
	case 5:
		o.params = append(o.params, aparam{"query", "filter[x]", "", false, pt()}, aparam{"query", "Auth", desc("two"), true, as("string", "")})
	}
	switch pick("header", 5) {
	case 1:
		o.params = append(o.params, aparam{"header", "Auth", desc("who"), false, pt()})
	case 2:
		o.params = append(o.params, aparam{"header", "X-Auth", "", true, as("string", "")})
	case 3:
		o.params = append(o.params, aparam{"header", "X-Auth", "", false, as("string", "")}, aparam{"header", "If-Match", "", true, pt()})
	case 4:
		o.params = append([]aparam{{"header", "x-lower", "", true, as("integer", "")}}, o.params...)
	}
	if hasBody(o.method) {
		bodies := []*asch{aref("Rec"), aref("Col"), as("string", ""), as("array", "").with(func(a *asch) { a.items = aref("Rec") })}
		if k := pick("body", len(bodies)+1); k < len(bodies) {
			o.body = bodies[k]
			o.bodyReq = pick("breq", 2) == 1
		}
	}
	outs := []*asch{aref("Rec"), nil, as("array", "").with(func(a *asch) { a.items = aref("Rec") }), as("string", ""), aref("Col")}
	main := &aresp{desc: "fine", s: outs[pick("out", len(outs))]}
	switch pick("outhdr", 3) {
	case 1:
		main.headers = []aparam{{"", "ETag", "tag", false, as("string", "")}}
	case 2:
		main.headers = []aparam{{"", "X-Rate", "rate", false, as("integer", "int32")}, {"", "Last-Mod", "", false, as("string", "date-time")}}
	}
	st := []string{"200", "201", "202", "204", "301", "default"}[pick("status", 6)]
	o.resps[st] = main
	switch pick("except", 7) {
	case 1:
		o.resps["404"] = &aresp{desc: "none", s: aref("Err")}
	case 2:
		o.resps["404"], o.resps["400"] = &aresp{desc: "none", s: aref("Err")}, &aresp{desc: "bad"}
	case 3:
		if _, ok := o.resps["default"]; !ok {
			o.resps["default"] = &aresp{desc: "other", s: aref("Err")}
		}
	case 4:
		o.resps["500"] = &aresp{desc: "oops", s: aref("Err")}
		if st != "default" {
			o.resps["304"] = &aresp{desc: "same"}
		}
	case 5: // a second success
		if st[0] == '2' {
			o.resps["206"] = &aresp{desc: "part", s: aref("Rec")}
		}
	case 6:
		if st[0] != '2' {
			break
		}
		o.resps["299"], o.resps["300"], o.resps["410"], o.resps["401"] = &aresp{desc: "a", s: aref("Err")}, &aresp{desc: "b", s: aref("Err")}, &aresp{desc: "c", s: aref("Err")}, &aresp{desc: "d", s: aref("Err")}
	}
	switch pick("tags", 6) {
	case 1:
		o.tags = []string{"Widget"}
	case 2:
		o.tags = []string{"Widget", "beta", "old"}
	case 3:
		o.tags = []string{"Widget", "Widget"}
	case 4:
		o.tags = []string{"zz", "accounts", "count", "a", "zz"}
	case 5:
		o.tags = []string{"two words", "b", "a"}
	}
	return o
}

// infoCase: what the document says about the service as a whole.
func infoCase(c *mc.C, v int, how string) mc.Case {
	title, desc, version := mc.Pick(c, "Thing", "A title, with words", "x_9"), mc.Pick(c, "", "some text"), mc.Pick(c, "1", "2.0-beta")
	info := jobj{"title": title, "version": version}
	if desc != "" {
		info["description"] = desc
	}
	want := map[string]string{}
	switch c.Choose(3) {
	case 1:
		info["license"] = jobj{"name": "L"}
		want["x_license_name"] = "L"
	case 2:
		info["license"] = jobj{"name": "L 2", "url": "http://l.example"}
		want["x_license_name"], want["x_license_url"] = "L 2", "http://l.example"
	}
	if c.Bool() {
		info["contact"] = jobj{"name": "C", "email": "c@c.example"}
	}
	doc := (&adoc{title: title, types: auxSchemas()}).render(v)
	doc["info"] = info
	var servers []string
	k := c.Choose(3)
	if v == 3 {
		var list []interface{}
		if odd := c.Choose(6); odd > 0 {
			servers = []string{[]string{"/relative", "HTTP://H.example:8080/", "https://h.example/v1?a=b&c", "ftp://f.example", "{scheme}://x"}[odd-1]}
			list = append(list, jobj{"url": servers[0]})
		}
		for i := len(servers); i < k; i++ {
			servers = append(servers, fmt.Sprintf("https://h%d.example/b", i))
			list = append(list, jobj{"url": servers[i], "description": "d"})
		}
		if len(list) > 0 {
			doc["servers"] = list
		}
	} else {
		delete(doc, "host")
		delete(doc, "basePath")
		if k > 0 {
			doc["host"] = "h.example"
			servers = []string{"https://h.example"}
		}
		if k == 2 {
			bp := mc.Pick(c, "/b/c", "/b/", "/", "/v1.2/x-y")
			doc["basePath"] = bp
			servers = []string{"https://h.example" + bp}
		}
	}
	return func(r *mc.R) {
		text, _ := json.Marshal(doc)
		r.Input(func() string { return string(text) })
		m, err := importText(r, v, how, text)
		if err != nil {
			r.Fail("error", "import failed: %v", err)
			return
		}
		name, comment := title, desc
		if !symRe.MatchString(title) {
			name = "fallback"
			if !strings.Contains(m.Comment, title) || !strings.Contains(m.Comment, desc) {
				r.Fail("comment", "comment %q, document has title %q, description %q", m.Comment, title, desc)
			}
			comment = m.Comment
		}
		if m.Name != name || m.Comment != comment || m.Version != version {
			r.Fail("info", "name %q comment %q version %q, want %q %q %q", m.Name, m.Comment, m.Version, name, comment, version)
		}
		for _, k := range []string{"x_license_name", "x_license_url"} {
			if m.Annotations[k] != want[k] {
				r.Fail("license", "%s is %q, want %q", k, m.Annotations[k], want[k])
			}
		}
		found := len(servers) == 0 && m.Annotations["x_server"] == ""
		for _, s := range servers {
			found = found || s == m.Annotations["x_server"]
		}
		if !found {
			r.Fail("server", "server %q, document has %q", m.Annotations["x_server"], servers)
		}
		r.Outcome("imported")
	}
}

// rejectCase: documents that cannot be represented, or are not documents of the kind, are reported.
func rejectCase(c *mc.C, v int, how string) mc.Case {
	d := &adoc{title: "Thing", types: auxSchemas(), global: 1}
	d.ops = []*aop{{id: "doIt", path: "/things/{id}", method: mc.Pick(c, "GET", "POST", "OPTIONS"), params: []aparam{{"path", "id", "", true, as("string", "")}}, resps: map[string]*aresp{"200": {desc: "fine", s: aref("Rec")}}}}
	doc := d.render(v)
	op := sub(doc, "paths", "/things/{id}", strings.ToLower(d.ops[0].method))
	defs := sub(doc, "components", "schemas")
	err := jobj{"description": "bad", "content": jobj{"application/json": jobj{"schema": aref("Err").render(v)}}}
	if v == 2 {
		defs = sub(doc, "definitions")
		err = jobj{"description": "bad", "schema": aref("Err").render(v)}
	}
	what := ""
	cases := []func(){
		func() { what = "another version"; delete(doc, "openapi"); doc["swagger"] = "1.2" },
		func() { what = "wildcard status"; sub(op, "responses")["4XX"] = err },
		func() { what = "bad status"; sub(op, "responses")["4o4"] = err },
		func() { what = "no response"; op["responses"] = jobj{} },
		func() { what = "only an error"; op["responses"] = jobj{"404": err} },
		func() { what = "undefined alias"; defs["Alias"] = aref("Nope").render(v) },
		func() { what = "alias cycle"; defs["A1"], defs["A2"] = aref("A2").render(v), aref("A1").render(v) },
		func() { what = "unknown type"; defs["Odd"] = jobj{"type": "file"} },
		func() {
			what = "unknown field type"
			defs["Odd"] = jobj{"type": "object", "properties": jobj{"x": jobj{"type": "file"}}}
		},
		func() { what = "unknown item type"; defs["Odd"] = jobj{"type": "array", "items": jobj{"type": "file"}} },
		func() {
			what = "parameter not in the path"
			ps := append([]interface{}{}, asArr(op["parameters"])...)
			pm := jcopy(ps[0]).(jobj)
			pm["name"] = "other"
			op["parameters"] = append(ps, pm)
		},
	}
	if v == 3 {
		cases = append(cases,
			func() { what = "no info"; delete(doc, "info") },
			func() { what = "no title"; delete(sub(doc, "info"), "title") },
			func() { what = "no version"; delete(sub(doc, "info"), "version") },
			func() { what = "license without name"; sub(doc, "info")["license"] = jobj{"url": "u"} },
			func() { what = "no paths"; delete(doc, "paths") },
			func() { what = "bad path"; sub(doc, "paths")["things"] = jobj{} },
			func() {
				what = "cookie"
				op["parameters"] = []interface{}{jobj{"in": "cookie", "name": "c", "schema": jobj{"type": "string"}}}
			},
			func() {
				what = "object parameter"
				op["parameters"] = append(asArr(op["parameters"]), jobj{"in": "query", "name": "c", "schema": jobj{"type": "object", "properties": jobj{"x": jobj{"type": "string"}}}})
			},
			func() { what = "enum of numbers"; defs["Odd"] = jobj{"type": "string", "enum": []interface{}{"a", 1}} },
		)
	}
	cases[c.Choose(len(cases))]()
	return func(r *mc.R) {
		text, _ := json.Marshal(doc)
		r.Input(func() string { return what + ": " + string(text) })
		if m, err := importText(r, v, how, text); err == nil {
			r.Fail("accepted", "%s: imported as %s", what, jsonOf(&m.Schema))
		}
		r.Outcome("%s", what)
	}
}

func docHarnesses(v int) []mc.Harness {
	menu, objs := schemaMenu(v), objMenu(v)
	hows := []string{"json", "yaml"}
	if v == 3 {
		hows = []string{"direct", "json", "yaml"}
	}
	first := hows[0]
	top := append(append([]*asch{}, menu...), objs...)
	return []mc.Harness{
		{Name: "types", Gen: func(c *mc.C) mc.Case {
			how := hows[c.Choose(len(hows))]
			t := top[c.Choose(len(top))]
			if c.Bool() {
				t = t.with(func(a *asch) { a.desc = "says \"so\" & more" })
			}
			d := &adoc{title: "Thing", types: append([]aprop{{"T0", t}}, auxSchemas()...)}
			switch c.Choose(3) {
			case 1:
				d.types = append(d.types, aprop{"Alias", aref("T0")})
			case 2:
				d.types = append([]aprop{{"Zlias", aref("Alias2")}, {"Alias1", aref("Zlias")}}, append(d.types, aprop{"Alias2", aref("T0")})...)
			}
			return importCase(v, how, d)
		}},
		{Name: "examples", Gen: func(c *mc.C) mc.Case {
			exs := []interface{}{nil, "text", 3.0, jobj{"p": "x", "q": []interface{}{1.0, true}}, false}
			ex := func() interface{} { return exs[c.Choose(len(exs))] }
			t := as("object", "").with(func(a *asch) {
				a.example = ex()
				a.props = []aprop{{"p", as("string", "").with(func(b *asch) { b.example = ex() })}, {"in", as("object", "").with(func(b *asch) {
					b.props = []aprop{{"deep", as("integer", "").with(func(b *asch) { b.example = ex() })}}
				})}}
			})
			d := &adoc{title: "Thing", types: append([]aprop{{"T0", t}, {"T1", as("string", "").with(func(a *asch) { a.example = ex() })}}, auxSchemas()...)}
			if c.Bool() {
				d.types = append(d.types, aprop{"Alias", aref("T0")})
			}
			return importCase(v, first, d)
		}},
		{Name: "symbols", Gen: func(c *mc.C) mc.Case {
			chars := []string{"A", "Z", "a", "z", "m", "0", "9", "_", "-", " ", "@", "[", "`", "{", "/", ":", "é", "$", "."}
			e := chars[c.Choose(len(chars))]
			if n := c.Choose(len(chars) + 1); n > 0 {
				e += chars[n-1]
			}
			vals := []string{e}
			switch c.Choose(3) {
			case 1:
				vals = []string{"First", e}
			case 2:
				vals = []string{e, "last_1", "Mid"}
			}
			t := as("string", "").with(func(a *asch) { a.enum = vals })
			d := &adoc{title: "Thing", types: append([]aprop{{"T0", t}}, auxSchemas()...)}
			return importCase(v, first, d)
		}},
		{Name: "service", Gen: func(c *mc.C) mc.Case { return infoCase(c, v, hows[c.Choose(len(hows))]) }},
		{Name: "rejected", Gen: func(c *mc.C) mc.Case { return rejectCase(c, v, hows[c.Choose(len(hows))]) }},
		{Name: "variety", Gen: func(c *mc.C) mc.Case {
			if c.Thorough() {
				if k := c.Choose(len(hows) + 1); k < len(hows) {
					return docVaried(c, v, hows[k], false)
				}
				return docVaried(c, v, first, true)
			}
			return docVaried(c, v, hows[c.Choose(len(hows))], false)
		}},
		{Name: "fields", Quick: 0, Deep: 1, Gen: func(c *mc.C) mc.Case {
			st := as("object", "")
			all := append(append([]*asch{}, menu...), aref("Rec"), aref("Col"), objs[3%len(objs)])
			names := []string{"zeta", "alpha", "mid"}
			for i := 0; i < 3; i++ {
				var s *asch
				if i == 0 {
					s = all[c.Choose(len(all))]
				} else {
					s = all[c.Dev(len(all))]
				}
				if s.ref == "" && ((i == 0 && c.Bool()) || (i > 0 && c.DevBool())) {
					s = s.with(func(a *asch) { a.desc = "note " + names[i] })
				}
				st.props = append(st.props, aprop{names[i], s})
				if c.Bool() {
					st.required = append(st.required, names[i])
				}
			}
			d := &adoc{title: "Thing", types: append(auxSchemas(), aprop{"T0", st})}
			return importCase(v, first, d)
		}},
		{Name: "params", Quick: 0, Deep: 1, Gen: func(c *mc.C) mc.Case {
			d := &adoc{title: "Thing", types: auxSchemas(), global: c.Choose(3)}
			d.ops = []*aop{drawOp(c, v, "doIt", "things", mc.Pick(c, "method path ptype query", "header body breq method query"))}
			return importCase(v, first, d)
		}},
		{Name: "results", Quick: 0, Deep: 1, Gen: func(c *mc.C) mc.Case {
			d := &adoc{title: "Thing", types: auxSchemas(), global: c.Choose(5)}
			d.ops = []*aop{drawOp(c, v, "doIt", "things", "out outhdr status except tags comment")}
			return importCase(v, first, d)
		}},
		{Name: "operations", Quick: 2, Deep: 4, Gen: func(c *mc.C) mc.Case {
			d := &adoc{title: mc.Pick(c, "Thing", "other_1"), types: auxSchemas(), global: c.Choose(5)}
			if v == 3 && c.DevBool() {
				d.types, d.noComps = nil, true
			}
			a := drawOp(c, v, "doIt", "things", "")
			b := drawOp(c, v, "undo", mc.PickDev(c, "others", "things"), "")
			d.ops = []*aop{a}
			if b.path != a.path || b.method != a.method {
				d.ops = append(d.ops, b)
			}
			return importCase(v, hows[c.Choose(len(hows))], d)
		}},
	}
}

func init() {
	mc.Register(&mc.Prop{ID: "C14",
		Bounds:      "types: every schema of the menu (all types and formats x every constraint combination, arrays and maps of scalars and references, objects incl. nested, untyped and self-referential, enums with symbolic and other values) x description x alias x 3 ways of loading; symbols: enums of 1-3 values with one value over all strings of 1-2 characters from 19; fields: 3-property objects, the first property over the whole menu, any subset required; params: method x path x query x header x body shapes; results: output x headers x status x other responses x tags; operations: two operations, up to 3 (4) deviations",
		Assumptions: []string{"the reference translation covers documents whose parameters are declared at the operation, whose array and map items are references or plain scalars, and whose error responses refer to component schemas; order of types, fields and responses and the names of outputs are not prescribed"},
		Harnesses:   docHarnesses(3)})
	mc.Register(&mc.Prop{ID: "C16",
		Bounds:      "the same enumeration as C14, rendered as Swagger 2 documents, with media types declared per operation or for the document, loaded as JSON and YAML",
		Assumptions: []string{"documents declare application/json among their media types; parameters are declared at the operation; array and map items are references or plain scalars"},
		Harnesses:   docHarnesses(2)})
}
