package main

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/boynton/sadl"
	"verif/mc"
)

// a change to a model, and whether the source printed from the result is still free of faults.
type change struct {
	what  string
	lit   interface{}
	ok    bool
	apply func()
}

func (x change) label() string {
	if x.lit == nil {
		return x.what
	}
	return x.what + jsonOf(x.lit)
}

// typeNames visits every place of s that names a type.
func typeNames(s *sadl.Schema, visit func(where, kind string, p *string)) {
	var spec func(w string, ts *sadl.TypeSpec)
	spec = func(w string, ts *sadl.TypeSpec) {
		switch ts.Type {
		case "Array":
			visit(w, "items", &ts.Items)
		case "Map":
			visit(w, "items", &ts.Items)
			visit(w, "keys", &ts.Keys)
		case "UnitValue":
			visit(w, "value", &ts.Value)
			visit(w, "unit", &ts.Unit)
		}
		if ts.Reference != "" {
			visit(w, "reference", &ts.Reference)
		}
		for _, f := range ts.Fields {
			visit(w+"."+f.Name, "type", &f.Type)
			spec(w+"."+f.Name, &f.TypeSpec)
		}
		for _, v := range ts.Variants {
			visit(w+"."+v.Name, "type", &v.Type)
			spec(w+"."+v.Name, &v.TypeSpec)
		}
	}
	for _, t := range s.Types {
		spec(t.Name, &t.TypeSpec)
	}
	for _, h := range s.Http {
		params := h.Inputs
		if h.Expected != nil {
			params = append(append([]*sadl.HttpParamSpec{}, params...), h.Expected.Outputs...)
		}
		for _, p := range params {
			visit(h.Name+"."+p.Name, "type", &p.Type)
			spec(h.Name+"."+p.Name, &p.TypeSpec)
		}
		for _, e := range h.Exceptions {
			visit(h.Name, "exception", &e.Type)
		}
	}
	for _, o := range s.Operations {
		for _, f := range o.Inputs {
			visit(o.Name+"."+f.Name, "type", &f.Type)
		}
		for _, f := range o.Outputs {
			visit(o.Name+"."+f.Name, "type", &f.Type)
		}
		for i := range o.Exceptions {
			visit(o.Name, "exception", &o.Exceptions[i])
		}
	}
	for _, e := range s.Examples {
		visit("example", "target", &e.Target)
	}
}

// conforming and other literals for a type; none where the menu does not reach.
func literals(s *sadl.Schema, ts *sadl.TypeSpec, depth int) (good, bad []interface{}) {
	for _, t := range s.Types {
		if t.Name == ts.Type {
			return literals(s, &t.TypeSpec, depth)
		}
	}
	named := func(n string) *sadl.TypeSpec {
		t := tsOf(n)
		return &t
	}
	object := []interface{}{jobj{"no such field": 1.0}}
	switch ts.Type {
	case "Bool":
		return []interface{}{true, false}, []interface{}{"true", dec("0"), []interface{}{}, jobj{}}
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		bad = []interface{}{"1", true, []interface{}{}, jobj{}}
		lo, hi := map[string]string{"Int8": "-128", "Int16": "-32768", "Int32": "-2147483648", "Int64": "-9223372036854775808"}[ts.Type], map[string]string{"Int8": "127", "Int16": "32767", "Int32": "2147483647", "Int64": "9223372036854775807"}[ts.Type]
		over := map[string][2]string{"Int8": {"-129", "128"}, "Int16": {"-32769", "32768"}, "Int32": {"-2147483649", "2147483648"}, "Int64": {"-9223372036854775809", "9223372036854775808"}}[ts.Type]
		if lo != "" {
			bad = append(bad, dec("1.5"), dec(over[0]), dec(over[1]))
		}
		if ts.Min != nil || ts.Max != nil {
			if ts.Min != nil {
				good = append(good, dec(ts.Min.String()))
				bad = append(bad, dec("-9223372036854775807"))
			}
			if ts.Max != nil {
				good = append(good, dec(ts.Max.String()))
				bad = append(bad, dec("9223372036854775806"))
			}
			return good, bad
		}
		if lo != "" {
			return []interface{}{dec(lo), dec(hi), dec("0")}, bad
		}
		return []interface{}{dec("0"), dec("-3.25"), dec("1000000")}, bad
	case "String":
		bad = []interface{}{dec("1"), true, []interface{}{"a"}, jobj{}}
		switch {
		case ts.Values != nil:
			return []interface{}{ts.Values[0], ts.Values[len(ts.Values)-1]}, append(bad, "none of them")
		case ts.Pattern == "^[a-z]+$":
			return []interface{}{"abc"}, append(bad, "", "A", "a1")
		case ts.Pattern != "":
			return nil, bad
		case ts.MinSize != nil || ts.MaxSize != nil:
			if ts.MinSize != nil && *ts.MinSize < 50 {
				good = append(good, strings.Repeat("x", int(*ts.MinSize)))
				if *ts.MinSize > 0 {
					bad = append(bad, strings.Repeat("x", int(*ts.MinSize)-1))
				}
			}
			if ts.MaxSize != nil && *ts.MaxSize < 50 {
				good = append(good, strings.Repeat("x", int(*ts.MaxSize)))
				bad = append(bad, strings.Repeat("x", int(*ts.MaxSize)+1))
			}
			return good, bad
		}
		return []interface{}{"", "a b", "\"q\" \\ é"}, bad
	case "Enum":
		var l []interface{}
		for _, e := range ts.Elements {
			l = append(l, e.Symbol)
		}
		return l, []interface{}{"NOT_A_SYMBOL", "", dec("0"), true}
	case "Timestamp":
		return []interface{}{"2020-02-29T01:02:03.004Z"}, []interface{}{"", "yesterday", dec("5"), "2020-02-30T01:02:03.004Z"}
	case "UUID":
		return []interface{}{"1ce437b0-1dd2-11b2-81ef-003ee1be85f9"}, []interface{}{"", "1ce437b0", dec("5")}
	case "Array":
		if depth <= 0 || ts.MinSize != nil || ts.MaxSize != nil {
			return nil, []interface{}{"x", jobj{}, dec("1")}
		}
		g, b := literals(s, named(ts.Items), depth-1)
		good = []interface{}{[]interface{}{}}
		bad = []interface{}{"x", jobj{}, dec("1")}
		for _, v := range g {
			good = append(good, []interface{}{v})
		}
		for i, v := range b {
			if len(g) > 0 && i == 0 {
				bad = append(bad, []interface{}{g[0], v})
			}
			bad = append(bad, []interface{}{v})
		}
		return good, bad
	case "Map":
		if depth <= 0 || ts.MinSize != nil || ts.MaxSize != nil || ts.Keys != "String" {
			return nil, []interface{}{"x", []interface{}{}, dec("1")}
		}
		g, b := literals(s, named(ts.Items), depth-1)
		good = []interface{}{jobj{}}
		bad = []interface{}{"x", []interface{}{}, dec("1")}
		for _, v := range g {
			good = append(good, jobj{"k": v})
		}
		for _, v := range b {
			bad = append(bad, jobj{"k": v})
		}
		return good, bad
	case "Struct":
		bad = append(object, "x", []interface{}{}, dec("1"))
		if depth <= 0 {
			return nil, bad
		}
		base := jobj{}
		for _, f := range ts.Fields {
			if f.Required {
				g, _ := literals(s, &f.TypeSpec, depth-1)
				if len(g) == 0 {
					return nil, bad
				}
				base[f.Name] = g[0]
			}
		}
		with := func(k string, v interface{}, drop bool) jobj {
			o := jobj{}
			for n, x := range base {
				o[n] = x
			}
			if drop {
				delete(o, k)
			} else {
				o[k] = v
			}
			return o
		}
		good = append(good, base)
		for _, f := range ts.Fields {
			g, b := literals(s, &f.TypeSpec, depth-1)
			for _, v := range g {
				good = append(good, with(f.Name, v, false))
			}
			for _, v := range b {
				bad = append(bad, with(f.Name, v, false))
			}
			if f.Required {
				bad = append(bad, with(f.Name, nil, true))
			}
		}
		return good, append(bad, with("no such field", "x", false))
	}
	return nil, nil
}

func cut(l []interface{}, n int) []interface{} {
	if len(l) > n {
		return l[:n]
	}
	return l
}

// changes are the edits of s that are judged; typeExamples: with examples of every type.
func changes(s *sadl.Schema, typeExamples bool) []change {
	l := []change{{"nothing", nil, true, func() {}}}
	var lit interface{}
	add := func(ok bool, what string, f func()) { l = append(l, change{what, lit, ok, f}) }
	// a change after which the examples at hand, not the declarations, may have a fault
	retyped := func(ok bool, what string, f func()) {
		add(ok, what, func() {
			f()
			if ok {
				s.Examples = nil
			}
		})
	}
	used := map[string]int{}
	typeNames(s, func(w, kind string, p *string) {
		used[strings.SplitN(*p, ".", 2)[0]]++
		for _, n := range []string{"Nope", "rec", "string"} {
			add(false, w+": "+kind+" "+n, func() { *p = n })
		}
	})
	for i, t := range s.Types {
		drop := func() { s.Types = append(append([]*sadl.TypeDef{}, s.Types[:i]...), s.Types[i+1:]...) }
		self := 0
		typeNames(&sadl.Schema{Types: []*sadl.TypeDef{t}}, func(w, kind string, p *string) {
			if *p == t.Name {
				self++
			}
		})
		add(used[t.Name] == self, "without "+t.Name, drop)
		add(used[t.Name] == 0, t.Name+" under another name", func() { t.Name = "Another" })
		add(false, "two of "+t.Name, func() {
			d := *t
			s.Types = append(s.Types, &d)
		})
		add(false, "first another "+t.Name, func() { s.Types = append([]*sadl.TypeDef{td(t.Name, tsOf("String"))}, s.Types...) })
		add(false, "a second "+t.Name, func() { s.Types = append(s.Types, td(t.Name, tsOf("Bool"))) })
	}
	for _, n := range sadl.BaseTypes {
		add(false, "a type "+n, func() { s.Types = append(s.Types, td(n, structTS(fld("a", false, tsOf("String"))))) })
	}
	bodyless := map[string]bool{"GET": true, "DELETE": true, "HEAD": true, "OPTIONS": true}
	for i, h := range s.Http {
		for k, o := range s.Http {
			if k != i {
				add(false, "two actions "+o.Name, func() { h.Name = o.Name })
			}
		}
		q := ""
		if k := strings.Index(h.Path, "?"); k >= 0 {
			q = h.Path[k:]
		}
		p := strings.TrimSuffix(h.Path, q)
		for _, bad := range []string{p + "/{x", p + "/x}", p + "/{a/b}", p + "/{{a}}", p + "/{a}}", "/{" + p, p + "}", p + "/{a{b}c}"} {
			add(false, h.Name+" path "+bad, func() { h.Path = bad + q })
		}
		extra := func() *sadl.HttpParamSpec {
			return &sadl.HttpParamSpec{StructFieldDef: *fld("extraBody", true, tsOf("String"))}
		}
		bodies := 0
		for _, in := range h.Inputs {
			if !in.Path && in.Query == "" && in.Header == "" {
				bodies++
			}
		}
		retyped(!bodyless[h.Method] && bodies == 0, h.Name+": one more body", func() { h.Inputs = append(h.Inputs, extra()) })
		add(false, h.Name+": two more bodies", func() {
			x := extra()
			x.Name = "other"
			h.Inputs = append(h.Inputs, x, extra())
		})
		add(true, h.Name+": one more header", func() {
			x := extra()
			x.Header, x.Required = "X-Extra", false
			h.Inputs = append(h.Inputs, x)
		})
		if e := h.Expected; e != nil {
			bodies := 0
			for _, o := range e.Outputs {
				if o.Header == "" {
					bodies++
				}
			}
			none := e.Status == 204 || e.Status == 304
			retyped(!none && bodies == 0, h.Name+": one more output body", func() { e.Outputs = append(e.Outputs, extra()) })
			for _, st := range []int32{204, 304} {
				add(bodies == 0, h.Name+": expected status without a body", func() { e.Status = st })
			}
			add(bodies <= 1, h.Name+": expected status with a body", func() { e.Status = 202 })
			add(true, h.Name+": one more output header", func() {
				x := extra()
				x.Header, x.Required = "X-Extra", false
				e.Outputs = append(e.Outputs, x)
			})
		}
		retyped(true, h.Name+": no result", func() { h.Expected = nil })
		add(false, h.Name+": no result, undefined exception", func() {
			h.Expected, h.Exceptions = nil, []*sadl.HttpExceptionSpec{{Type: "Nope", Status: 400}}
		})
	}
	// defaults
	defaults := func(w string, f *sadl.StructFieldDef, implied, param bool) {
		if strings.Contains("Array Map Struct Any Bytes UnitValue Union", f.Type) && f.Type != "Array" {
			return
		}
		good, bad := literals(s, &f.TypeSpec, 1)
		for _, v := range cut(good, 3) {
			lit = v
			if !implied {
				retyped(true, w+": default ", func() { f.Required, f.Default = false, v })
			}
			if !param {
				add(false, w+": required with default ", func() { f.Required, f.Default = true, v })
			}
		}
		for _, v := range bad {
			lit = v
			add(false, w+": default ", func() { f.Required, f.Default = false, v })
		}
		lit = nil
	}
	var inside func(w string, l []*sadl.StructFieldDef)
	inside = func(w string, l []*sadl.StructFieldDef) {
		for _, f := range l {
			defaults(w+"."+f.Name, f, false, false)
			inside(w+"."+f.Name, f.Fields)
			if f.Type == "String" {
				add(false, w+"."+f.Name+": pattern and values", func() { f.TypeSpec = sadl.TypeSpec{Type: "String", Pattern: "^a$", Values: []string{"a"}} })
				retyped(true, w+"."+f.Name+": reference", func() { f.TypeSpec = sadl.TypeSpec{Type: "String", Reference: "Rec"} })
				add(false, w+"."+f.Name+": undefined reference", func() { f.TypeSpec = sadl.TypeSpec{Type: "String", Reference: "Nope"} })
				uv := func(v, u string, ok bool) {
					retyped(ok, w+"."+f.Name+": unit value of "+v+" and "+u, func() { f.Default, f.TypeSpec = nil, sadl.TypeSpec{Type: "UnitValue", Value: v, Unit: u} })
				}
				if f.Default == nil {
					uv("Decimal", "String", true)
					uv("Num", "Col", true)
					uv("Int32", "Nm", true)
					uv("String", "String", false)
					uv("Col", "String", false)
					uv("Nope", "String", false)
					uv("Decimal", "Int32", false)
					uv("Decimal", "Rec", false)
					uv("Decimal", "Nope", false)
				}
			}
		}
	}
	for _, t := range s.Types {
		inside(t.Name, t.Fields)
		if t.Type == "String" {
			add(false, t.Name+": pattern and values", func() { t.Pattern, t.Values = "^a$", []string{"a"} })
			add(false, t.Name+": undefined reference", func() { t.Reference = "Nope" })
		}
	}
	for _, h := range s.Http {
		for _, p := range h.Inputs {
			if p.Query != "" || p.Header != "" {
				defaults(h.Name+"."+p.Name, &p.StructFieldDef, false, true)
			}
		}
		if h.Expected != nil {
			for _, p := range h.Expected.Outputs {
				if p.Header != "" {
					defaults(h.Name+" result."+p.Name, &p.StructFieldDef, false, true)
				}
			}
		}
	}
	// examples
	ex := func(ok bool, target string, v interface{}) {
		lit = v
		add(ok, "example "+target+" ", func() {
			s.Examples = append(s.Examples, &sadl.ExampleDef{Target: target, Name: "extra", Example: v})
		})
		lit = nil
	}
	if typeExamples {
		for _, n := range append([]string{}, sadl.BaseTypes...) {
			g, b := literals(s, &sadl.TypeSpec{Type: n, Keys: "String", Items: "Any"}, 0)
			if n == "Enum" || n == "Union" || n == "Struct" || n == "UnitValue" || n == "Bytes" {
				continue
			}
			for _, v := range g {
				ex(true, n, v)
			}
			for _, v := range b {
				ex(false, n, v)
			}
		}
		for _, t := range s.Types {
			g, b := literals(s, &t.TypeSpec, 3)
			for _, v := range cut(g, 12) {
				ex(true, t.Name, v)
			}
			for _, v := range b {
				ex(false, t.Name, v)
			}
			if t.Type == "Struct" {
				for _, f := range t.Fields {
					g, b := literals(s, &f.TypeSpec, 2)
					for _, v := range cut(g, 2) {
						ex(true, t.Name+"."+f.Name, v)
					}
					for _, v := range cut(b, 4) {
						ex(false, t.Name+"."+f.Name, v)
					}
				}
				ex(false, t.Name+".nope", "x")
			}
		}
	}
	for _, n := range []string{"Nope", "NopeRequest", "NopeResponse", "Nope.name", "DoThing", "dothingRequest", "Request", "Response", "DoThingrequest"} {
		ex(false, n, "x")
		ex(false, n, jobj{})
	}
	for _, h := range s.Http {
		both := [][]*sadl.HttpParamSpec{h.Inputs, nil}
		if h.Expected != nil {
			both[1] = h.Expected.Outputs
		}
		for k, params := range both {
			st := &sadl.TypeSpec{Type: "Struct"}
			for _, p := range params {
				f := p.StructFieldDef
				f.Required = f.Required || p.Query == "" && p.Header == ""
				st.Fields = append(st.Fields, &f)
			}
			g, b := literals(s, st, 3)
			target := cap1(h.Name) + []string{"Request", "Response"}[k]
			for _, v := range cut(g, 12) {
				ex(true, target, v)
			}
			for _, v := range b {
				ex(false, target, v)
			}
		}
	}
	return l
}

func cap1(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

func validCase(s *sadl.Schema, what string, ok bool) mc.Case {
	l := layout{gap: " ", enumSep: "\n", optSep: ", ", eq: "=", action: "action", indent: "  "}
	text := (&printer{layout: l, b: &strings.Builder{}}).schema(s)
	return func(r *mc.R) {
		r.Input(func() string { return what + "\n" + text })
		judgeSource(r, ok, what, func() (*sadl.Model, error) { return sadl.ParseSadlString(text, sadl.NewData()) })
	}
}

func judgeSource(r *mc.R, ok bool, what string, parse func() (*sadl.Model, error)) {
	m, err := parse()
	r.Outcome("%v", err == nil)
	switch {
	case err != nil && ok:
		r.Fail("rejected", "%s: a source without a fault is rejected: %v", what, err)
	case err == nil && !ok:
		r.Fail("accepted", "%s: a source with a fault is accepted", what)
	case err == nil:
		dangling(r, m)
	}
}

// dangling: every type name of an accepted model is defined.
func dangling(r *mc.R, m *sadl.Model) {
	defined := map[string]bool{}
	for _, n := range sadl.BaseTypes {
		defined[n] = true
	}
	for _, t := range m.Types {
		if defined[t.Name] {
			r.Fail("twice", "an accepted model defines %s twice", t.Name)
		}
		defined[t.Name] = true
	}
	typeNames(&m.Schema, func(w, kind string, p *string) {
		if kind != "target" && !defined[*p] {
			r.Fail("dangling", "an accepted model has an undefined %s in %s: %s", kind, w, *p)
		}
	})
}

func init() {
	one := func(name string, model func() *sadl.Schema) mc.Harness {
		return mc.Harness{Name: name, Split: true, Gen: func(c *mc.C) mc.Case {
			s := model()
			l := changes(s, true)
			x := l[c.Choose(len(l))]
			x.apply()
			return validCase(s, x.label(), x.ok)
		}}
	}
	pairs := mc.Harness{Name: "variety", Split: true, Gen: func(c *mc.C) mc.Case {
		cats := "required ptype status exception"
		if c.Thorough() {
			cats = allCats
		}
		s, what := varied(c, cats, false)
		if s == nil || !writable(s) {
			return nil
		}
		s.Examples = nil
		l := changes(s, c.Thorough()) // in the quick tier no examples of types
		x := l[c.Choose(len(l))]
		x.apply()
		if !writable(s) && x.ok {
			return nil
		}
		return validCase(s, what+"; "+x.label(), x.ok)
	}}
	mc.Register(&mc.Prop{ID: "C27",
		Bounds:      "a model with everything on it and a rich model, with every single fault at every position: every type name replaced by 3 undefined names, every type removed, renamed or defined twice, every built-in name taken, every pair of actions with one name, 8 malformed paths, misplaced bodies, every default and example over a menu of conforming and other literals at every field, parameter, type, request and response; every variation of the rich model with every fault (examples of types only in the thorough tier); included files",
		Assumptions: []string{"tokens come from the stand-in for the unavailable boynton/scanner, which provides the interface the parser uses", "literals of Bytes, UnitValue and union types are left to C01; path variables without an input are not judged"},
		Harnesses:   []mc.Harness{one("everything", textModel), one("rich", broadModel), pairs, {Name: "include", Split: true, Gen: drawIncludeFaults}}})
}

// drawIncludeFaults: names are resolved, and duplicates found, across included files.
func drawIncludeFaults(c *mc.C) mc.Case {
	parts := []struct{ name, text string }{
		{"", ""}, {"A", "type A String\n"}, {"A", "type A Struct {\n b B\n}\n"}, {"B", "type B Array<A>\n"}, {"", "http GET \"/a\" (action=getA) {\n expect 200 {\n a A\n }\n}\n"}, {"", "example A (name=n) \"x\"\n"}, {"", "operation o {\n inputs {\n a A\n }\n}\n"},
	}
	pick := func() int { return c.Choose(len(parts)) }
	outer, inner, deep := []int{pick(), pick()}, []int{pick(), pick()}, []int{0}
	chain := c.Bool()
	if chain {
		deep[0] = pick()
	}
	first := c.Bool()
	return func(r *mc.R) {
		file := func(n string) string { return filepath.Join(r.Scratch, n) }
		all := append(append(append([]int{}, outer...), inner...), deep...)
		defs, acts := map[string]int{}, 0
		full := ""
		for _, k := range all {
			if parts[k].name != "" {
				defs[parts[k].name]++
			}
			if strings.HasPrefix(parts[k].text, "http") {
				acts++
			}
			full += parts[k].text
		}
		ok := defs["A"] <= 1 && defs["B"] <= 1 && acts <= 1
		needA := strings.Contains(full, "Array<A>") || strings.Contains(full, "a A") || strings.Contains(full, "example A")
		needB := strings.Contains(full, "b B")
		ok = ok && (!needA || defs["A"] == 1) && (!needB || defs["B"] == 1)
		if strings.Contains(full, "example A") && strings.Contains(full, "type A Struct") {
			ok = false
		}
		text := func(l []int, inc string) string {
			s := ""
			for _, k := range l {
				s += parts[k].text
			}
			if inc != "" {
				inc = "include \"" + file(inc) + "\"\n"
			}
			if first {
				return inc + s
			}
			return s + inc
		}
		in := ""
		if chain {
			in = "deep.sadl"
		}
		files := map[string]string{"outer.sadl": text(outer, "inner.sadl"), "inner.sadl": text(inner, in), "deep.sadl": text(deep, "")}
		for n, t := range files {
			if err := os.WriteFile(file(n), []byte(t), 0644); err != nil {
				panic(err)
			}
		}
		r.Input(func() string {
			return "outer.sadl:\n" + files["outer.sadl"] + "\ninner.sadl:\n" + files["inner.sadl"] + "\ndeep.sadl:\n" + files["deep.sadl"]
		})
		judgeSource(r, ok, "included files", func() (*sadl.Model, error) {
			return sadl.ParseSadlFile(file("outer.sadl"), sadl.NewData())
		})
	}
}
