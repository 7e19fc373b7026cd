package main

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/boynton/sadl"
	"verif/mc"
)

// judgePrinted: m printed as SADL and parsed again is the same model, and its text a function of the model.
func judgePrinted(r *mc.R, m *sadl.Model) {
	before := cloneSchema(&m.Schema)
	out := sadl.DecompileSadl(m)
	if d := diffOf(jcopy(before), jcopy(&m.Schema)); d != "" {
		r.Fail("changed", "printing changes the model: %s", d)
		return
	}
	again, err := sadl.ParseSadlString(out, sadl.NewData())
	if err != nil {
		r.Fail("rejected", "the printed text is not accepted: %v\n%s", err, out)
		return
	}
	if d := diffOf(jcopy(before), jcopy(&again.Schema)); d != "" {
		r.Fail("model", "the model of the printed text differs: %s\n%s", d, out)
		return
	}
	if two := sadl.DecompileSadl(again); two != out {
		r.Fail("text", "the model of the printed text is printed differently:\n%s\n---\n%s", out, two)
		return
	}
	for k := 1; k < 8; k++ {
		mc.MapOrder(k)
		two := sadl.DecompileSadl(m)
		mc.MapOrder(0)
		if two != out {
			r.Fail("order", "the text depends on the order of map iteration:\n%s\n---\n%s", out, two)
			return
		}
	}
	r.Outcome("same")
}

func printCase(s *sadl.Schema, what string) mc.Case {
	l := layout{gap: " ", enumSep: "\n", optSep: ", ", eq: "=", action: "action", indent: "  "}
	if s.Name == "" {
		s.Name = "svc"
	}
	text := (&printer{layout: l, b: &strings.Builder{}}).schema(s)
	return func(r *mc.R) {
		r.Input(func() string { return what + "\n" + text })
		m, err := sadl.ParseSadlString(text, sadl.NewData())
		if err != nil {
			r.Outcome("not parsed") // C25 judges that
			return
		}
		judgePrinted(r, m)
	}
}

// builtCase: s itself, as an importer would build it, and not the parser.
func builtCase(s *sadl.Schema, what string) mc.Case {
	if s.Name == "" {
		s.Name = "svc"
	}
	return func(r *mc.R) {
		m, err := sadl.NewModel(cloneSchema(s))
		if err != nil {
			panic(err)
		}
		r.Input(func() string { return what + "\n" + jsonOf(s) })
		before := jcopy(&m.Schema)
		out := sadl.DecompileSadl(m)
		if d := diffOf(before, jcopy(&m.Schema)); d != "" {
			r.Fail("changed", "printing changes the model: %s", d)
			return
		}
		again, err := sadl.ParseSadlString(out, sadl.NewData())
		if err != nil {
			r.Fail("rejected", "the printed text is not accepted: %v\n%s", err, out)
			return
		}
		want := expected(s)
		want.Sadl = again.Sadl
		if d := diffOf(jcopy(want), jcopy(&again.Schema)); d != "" {
			r.Fail("model", "the model of the printed text differs: %s\n%s", d, out)
			return
		}
		r.Outcome("same")
	}
}

// words of every length around the widths at which comments are wrapped or moved.
func longComment(n int) string {
	s := ""
	for i := 0; len(s) < n; i++ {
		s += []string{"alpha ", "be ", "gammagamma ", "d "}[i%4]
	}
	return strings.TrimSpace(s[:n])
}

// eachComment visits every comment of s.
func eachComment(s *sadl.Schema, visit func(where string, p *string)) {
	visit("schema", &s.Comment)
	var fields func(w string, l []*sadl.StructFieldDef)
	spec := func(w string, ts *sadl.TypeSpec) {
		fields(w, ts.Fields)
		for _, e := range ts.Elements {
			visit(w+"."+e.Symbol, &e.Comment)
		}
		for _, v := range ts.Variants {
			visit(w+"."+v.Name, &v.Comment)
		}
	}
	fields = func(w string, l []*sadl.StructFieldDef) {
		for _, f := range l {
			visit(w+"."+f.Name, &f.Comment)
			spec(w+"."+f.Name, &f.TypeSpec)
		}
	}
	for _, t := range s.Types {
		visit(t.Name, &t.Comment)
		spec(t.Name, &t.TypeSpec)
	}
	for _, h := range s.Http {
		visit(h.Name, &h.Comment)
		for _, p := range h.Inputs {
			visit(h.Name+"."+p.Name, &p.Comment)
		}
		if h.Expected != nil {
			visit(h.Name+" expect", &h.Expected.Comment)
			for _, p := range h.Expected.Outputs {
				visit(h.Name+" expect."+p.Name, &p.Comment)
			}
		}
		for _, e := range h.Exceptions {
			visit(h.Name+" except "+e.Type, &e.Comment)
		}
	}
	for _, o := range s.Operations {
		visit(o.Name, &o.Comment)
		for _, f := range o.Inputs {
			visit(o.Name+"."+f.Name, &f.Comment)
		}
		for _, f := range o.Outputs {
			visit(o.Name+"."+f.Name, &f.Comment)
		}
	}
	for _, e := range s.Examples {
		visit("example of "+e.Target, &e.Comment)
	}
}

func init() {
	types := mc.Harness{Name: "types", Quick: 1, Deep: 2, Gen: func(c *mc.C) mc.Case {
		s := drawTypeText(c)
		if s == nil {
			return nil
		}
		return printCase(s, "a type definition")
	}}
	fields := mc.Harness{Name: "fields", Quick: 1, Deep: 2, Gen: func(c *mc.C) mc.Case {
		s := drawFieldText(c)
		if s == nil {
			return nil
		}
		return printCase(s, "fields")
	}}
	http := mc.Harness{Name: "http", Quick: 3, Deep: 4, Gen: func(c *mc.C) mc.Case {
		s := drawHttpText(c)
		if s == nil {
			return nil
		}
		return printCase(cloneSchema(s), "an action")
	}}
	variety := mc.Harness{Name: "variety", Split: true, Gen: func(c *mc.C) mc.Case {
		s, what := varied(c, allCats+" pdefault", c.Thorough())
		if s == nil || !writable(s) {
			return nil
		}
		for _, e := range s.Examples {
			if strings.HasSuffix(e.Target, "Request") || strings.HasSuffix(e.Target, "Response") || what == "examples: empty values" {
				return printCase(s, what)
			}
		}
		if c.Bool() {
			return builtCase(s, what)
		}
		return printCase(s, what)
	}}
	notes := mc.Harness{Name: "comments", Split: true, Quick: 1, Deep: 3, Gen: func(c *mc.C) mc.Case {
		s := textModel()
		var l []*string
		var w []string
		eachComment(s, func(where string, p *string) { l, w = append(l, p), append(w, where) })
		i := c.Choose(len(l))
		texts := []string{"", "x", "two words", "two\nlines", "three\n\nlines\n", "indented\n  line", "a // b", "ends with slash /", "{ } ( ) \"q\" ; , = # é ☃", "expect 200", "type X String"}
		for _, n := range []int{58, 60, 61, 62, 70, 80, 85, 90, 95, 97, 99, 100, 101, 110, 150, 210, 400} {
			texts = append(texts, longComment(n))
		}
		*l[i] = texts[c.Choose(len(texts))]
		if k := c.Dev(3); k > 0 && i+k < len(l) { // and a neighbour with none or a long one
			*l[i+k] = []string{"", longComment(120)}[c.Choose(2)]
		}
		if strings.Contains(*l[i], "\n") || c.DevBool() {
			if *l[i] != "" && c.DevBool() {
				*l[i] = strings.Replace(*l[i], " ", "\n", 1) + mc.Pick(c, "", "\n", "\n\nmore", "\n  more")
			}
			return builtCase(cloneSchema(s), "comment of "+w[i])
		}
		return printCase(cloneSchema(s), "comment of "+w[i])
	}}
	everything := mc.Harness{Name: "attributes", Split: true, Gen: func(c *mc.C) mc.Case {
		s := textModel()
		l := strippings(s)
		i := c.Choose(len(l))
		l[i].apply()
		what := l[i].what
		if c.Thorough() {
			j := c.Choose(len(l))
			if j > i {
				return nil
			}
			l[j].apply()
			what += "; " + l[j].what
		}
		if c.Bool() {
			return builtCase(cloneSchema(s), what)
		}
		return printCase(cloneSchema(s), what)
	}}
	alike := mc.Harness{Name: "alike", Gen: func(c *mc.C) mc.Case {
		return printCase(drawAlike(c), "inputs with like names")
	}}
	service := mc.Harness{Name: "service", Gen: func(c *mc.C) mc.Case {
		s := &sadl.Schema{Comment: mc.Pick(c, "", "about", longComment(130)), Namespace: mc.Pick(c, "", "com", "com.example.x"), Version: mc.Pick(c, "", "1", "1.2-b"), Base: mc.Pick(c, "", "/v1", "/")}
		s.Annotations = mc.Pick(c, nil, map[string]string{"x_a": ""}, map[string]string{"x_b": "v w", "x_a": "", "x_c": "https://h/"})
		text := mc.Pick(c, "", "name svc\n", "name a_b1\n", "name \"a b\"\n", "name \"type\"\n", "name \"1\"\n")
		if c.Bool() {
			s.Types = append(s.Types, td("T", tsOf("String")))
		}
		l := layout{gap: " ", enumSep: "\n", optSep: ", ", eq: "=", action: "action", indent: "  "}
		rest := (&printer{layout: l, b: &strings.Builder{}}).schema(s)
		if c.Bool() {
			rest = strings.Replace(rest, "namespace com.", "namespace \"com-x\".", 1)
		}
		if s.Comment != "" { // the comment comes first
			k := strings.Index(rest, "\n") + 1
			text = rest[:k] + text + rest[k:]
		} else {
			text += rest
		}
		return func(r *mc.R) {
			r.Input(func() string { return text })
			m, err := sadl.ParseSadlString(text, sadl.NewData())
			if err != nil {
				r.Outcome("not parsed")
				return
			}
			judgePrinted(r, m)
		}
	}}
	include := mc.Harness{Name: "file", Gen: func(c *mc.C) mc.Case {
		inner := c.Bool()
		annotated := c.Bool()
		return func(r *mc.R) {
			dir := r.Scratch
			in, out, res := filepath.Join(dir, "inner.sadl"), filepath.Join(dir, "outer.sadl"), filepath.Join(dir, "gen")
			os.RemoveAll(res)
			os.Mkdir(res, 0755)
			a := ""
			if annotated {
				a = " (x_a=\"b\")"
			}
			os.WriteFile(in, []byte("type B String"+a+"\nhttp GET \"/b\" {\n expect 204\n}\noperation o {\n}\nexample B (name=n) \"x\"\n"), 0644)
			text := "type A String\n"
			if inner {
				text += "include \"" + in + "\"\n"
			}
			os.WriteFile(out, []byte(text), 0644)
			r.Input(func() string { return text })
			m, err := sadl.ParseSadlFile(out, sadl.NewData())
			if err != nil {
				r.Outcome("not parsed")
				return
			}
			judgePrinted(r, m)
			if r.Failed() {
				return
			}
			g := sadl.NewGenerator(m, res)
			g.CreateSadlSource()
			got, err := os.ReadFile(filepath.Join(res, "outer.sadl"))
			if err != nil || string(got) != sadl.DecompileSadl(m) {
				r.Fail("file", "the generated file does not hold the printed text: %v\n%s", err, got)
			}
		}
	}}
	mc.Register(&mc.Prop{ID: "C28",
		Bounds:      "every type definition, field, action and example of C25's menus within 1 (types, fields) or 3 (actions) deviations (2 and 4 in the thorough tier), every single variation of a rich model (every pair in the thorough tier), a model with everything on it with every attribute dropped in turn (every two), and with every comment replaced by 25 texts of lengths around the widths at which comments are wrapped, leading directives in every combination, included files; each printed under all eight map iteration orders",
		Assumptions: []string{"tokens come from the stand-in for the unavailable boynton/scanner, which provides the interface the parser uses", "strings outside literals are written without escapes, words of comments are separated by single blanks"},
		Harnesses:   []mc.Harness{types, fields, http, alike, variety, notes, everything, service, include}})
}

// strippings: every attribute of s that can be left out or set otherwise, one at a time.
func strippings(s *sadl.Schema) []change {
	var l []change
	add := func(what string, f func()) { l = append(l, change{what, nil, true, f}) }
	annos := func(w string, a *map[string]string) {
		add(w+": no annotations", func() { *a = nil })
		add(w+": one annotation", func() { *a = map[string]string{"x_one": "1"} })
		add(w+": one flag", func() { *a = map[string]string{"x_one": ""} })
		add(w+": more annotations", func() { *a = map[string]string{"x_one": "1", "x_twoWords": "2 3", "x_three": "", "x_a": "a"} })
	}
	annos("schema", &s.Annotations)
	var fields func(w string, ts *sadl.TypeSpec)
	fields = func(w string, ts *sadl.TypeSpec) {
		for i, f := range ts.Fields {
			annos(w+"."+f.Name, &f.Annotations)
			add(w+": without "+f.Name, func() {
				ts.Fields = append(append([]*sadl.StructFieldDef{}, ts.Fields[:i]...), ts.Fields[i+1:]...)
				s.Examples = nil
			})
			if f.Default == nil {
				add(w+"."+f.Name+": required", func() { f.Required = !f.Required; s.Examples = nil })
			} else {
				add(w+"."+f.Name+": no default", func() { f.Default = nil })
			}
			fields(w+"."+f.Name, &f.TypeSpec)
		}
		for _, e := range ts.Elements {
			annos(w+"."+e.Symbol, &e.Annotations)
		}
		for _, v := range ts.Variants {
			annos(w+"."+v.Name, &v.Annotations)
		}
		add(w+": one element", func() {
			if len(ts.Elements) > 1 {
				ts.Elements = ts.Elements[:1]
				s.Examples = nil
			}
			if len(ts.Variants) > 1 {
				ts.Variants = ts.Variants[:1]
			}
		})
	}
	for _, t := range s.Types {
		annos(t.Name, &t.Annotations)
		fields(t.Name, &t.TypeSpec)
	}
	for i, h := range s.Http {
		annos(h.Name, &h.Annotations)
		add("without "+h.Name, func() {
			s.Http = append(append([]*sadl.HttpDef{}, s.Http[:i]...), s.Http[i+1:]...)
			s.Examples = nil
		})
		for _, res := range []string{"other", "things", "Things"} {
			add(h.Name+": resource "+res, func() { h.Resource = res })
		}
		add(h.Name+": default name", func() {
			old := *h
			if h.Name, h.Resource = defaultName(&sadl.HttpDef{Method: h.Method, Path: h.Path}); h.Name == "" {
				*h = old
			}
			s.Examples = nil
		})
		add(h.Name+": name after the resource", func() {
			if h.Resource != "" {
				h.Name, _ = defaultName(h)
				s.Examples = nil
			}
		})
		add(h.Name+": no result", func() { h.Expected = nil; s.Examples = nil })
		add(h.Name+": no exceptions", func() { h.Exceptions = nil })
		if h.Expected == nil {
			continue
		}
		annos(h.Name+" expect", &h.Expected.Annotations)
		add(h.Name+": no outputs", func() { h.Expected.Outputs = nil; s.Examples = nil })
		for _, p := range append(append([]*sadl.HttpParamSpec{}, h.Inputs...), h.Expected.Outputs...) {
			annos(h.Name+"."+p.Name, &p.Annotations)
			add(h.Name+"."+p.Name+": no default", func() { p.Default = nil })
			if p.Query != "" || p.Header != "" {
				add(h.Name+"."+p.Name+": required", func() { p.Required, p.Default = !p.Required, nil; s.Examples = nil })
				for _, d := range []interface{}{"", "a b", "q\"\\é<", true, false, dec("0"), dec("-1.5"), dec("12345678901234567890")} {
					ty := "String"
					switch d.(type) {
					case bool:
						ty = "Bool"
					case *sadl.Decimal:
						ty = "Decimal"
					}
					add(h.Name+"."+p.Name+": default "+jsonOf(d), func() { p.TypeSpec, p.Required, p.Default = tsOf(ty), false, d; s.Examples = nil })
				}
			}
		}
		for k, e := range h.Exceptions {
			annos(h.Name+" except "+e.Type, &e.Annotations)
			add(h.Name+" except "+e.Type+": no status", func() { e.Status = 0 })
			add(h.Name+": without "+e.Type, func() {
				h.Exceptions = append(append([]*sadl.HttpExceptionSpec{}, h.Exceptions[:k]...), h.Exceptions[k+1:]...)
			})
		}
	}
	for _, o := range s.Operations {
		annos(o.Name, &o.Annotations)
		add(o.Name+": no inputs", func() { o.Inputs = nil })
		add(o.Name+": no outputs", func() { o.Outputs = nil })
		add(o.Name+": no exceptions", func() { o.Exceptions = nil })
		for _, f := range o.Inputs {
			add(o.Name+"."+f.Name+": required", func() { f.Required = !f.Required })
		}
	}
	for i, e := range s.Examples {
		annos("example of "+e.Target, &e.Annotations)
		add("example of "+e.Target+": name", func() { e.Name = "other" })
		add("example of "+e.Target+": no name", func() { e.Name = "" })
		add("only the example of "+e.Target, func() { s.Examples = s.Examples[i : i+1] })
	}
	ex := func(v interface{}) {
		add("example "+jsonOf(v), func() { s.Examples = append(s.Examples, &sadl.ExampleDef{Target: "Any", Name: "extra", Example: v}) })
	}
	for _, v := range []interface{}{"", "<&>", "\u2028 \u00e9 ☃ \t\n\"\\/", true, false, dec("0"), dec("-0.10"), dec("1e3"), dec("123456789012345678901234567890.5"), []interface{}{}, []interface{}{[]interface{}{}, jobj{}}, jobj{}, jobj{"b": "1", "a": []interface{}{"x", dec("2"), true}, "c d": jobj{"": "e"}}} {
		ex(v)
	}
	return l
}
