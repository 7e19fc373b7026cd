package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"verif/mc"
)

// C19: generated Go model code.

func goSupported(runtime bool) func(ts sadl.TypeSpec) bool {
	return func(ts sadl.TypeSpec) bool {
		if ts.Type == "Enum" && len(ts.Elements) > 0 && ts.Elements[0].Symbol == "" {
			return false
		}
		if !runtime && (ts.Type == "UnitValue" || ts.Items == "UnitValue") {
			return false
		}
		return true
	}
}

func goFieldOK(runtime bool) func(ts sadl.TypeSpec) bool {
	return func(ts sadl.TypeSpec) bool { return ts.Type != "Enum" && goSupported(runtime)(ts) }
}
func goDefOK(runtime bool) func(ts sadl.TypeSpec) bool {
	return func(ts sadl.TypeSpec) bool { return ts.Type != "UnitValue" && goSupported(runtime)(ts) }
}

// goTypeWant: predicate on the printed Go type of a field, pointers ignored.
func (e typeEnv) goTypeOK(ts *sadl.TypeSpec, got string) bool {
	got = strings.TrimPrefix(got, "*")
	if e[ts.Type] != nil {
		return got == ts.Type
	}
	switch ts.Type {
	case "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "String":
		return got == strings.ToLower(ts.Type)
	case "Decimal", "Timestamp", "UnitValue":
		return got == ts.Type || got == "sadl."+ts.Type
	case "UUID":
		return got == "string" || got == "UUID" || got == "sadl.UUID"
	case "Bytes":
		return got == "[]uint8" || got == "Bytes"
	case "Any":
		return got == "interface {}"
	case "Array":
		return strings.HasPrefix(got, "[]") && e.goTypeOK(refTS(ts.Items, "Any"), got[2:])
	case "Map":
		i := strings.Index(got, "]")
		return strings.HasPrefix(got, "map[") && i > 0 && e.goTypeOK(refTS(ts.Keys, "String"), got[4:i]) && e.goTypeOK(refTS(ts.Items, "Any"), got[i+1:])
	}
	return false
}

func refTS(n, def string) *sadl.TypeSpec {
	if n == "" {
		n = def
	}
	return &sadl.TypeSpec{Type: n}
}

// badSymbols: texts close to the symbols of an enum, and others, that are none of them.
func (e typeEnv) badSymbols(t string) []string {
	have := map[string]bool{}
	for _, el := range e[t].Elements {
		have[enumText(el)] = true
	}
	var out []string
	add := func(s string) {
		if !have[s] {
			have[s] = true
			out = append(out, s)
		}
	}
	add("NO_SUCH")
	add("")
	add("0")
	for _, el := range e[t].Elements {
		s := enumText(el)
		add(el.Symbol)
		add(strings.ToLower(s))
		add(strings.ToUpper(s))
		add(s + " ")
		add(s + "x")
		add(s[:len(s)-1])
	}
	return out
}

func (e typeEnv) jsonJobs(types ...string) []*rtJob {
	var out []*rtJob
	for _, t := range types {
		out = append(out, &rtJob{Kind: "fields", Type: t})
		for _, v := range e.values(&sadl.TypeSpec{Type: t}, 3) {
			out = append(out, &rtJob{Kind: "json", Type: t, Value: rawJSON(v), want: v})
		}
		if e.spec(refTS(t, "")).Type == "Enum" {
			for _, el := range e[t].Elements {
				out = append(out, &rtJob{Kind: "text", Type: t, Value: rawJSON(enumText(el)), want: enumText(el)})
			}
			for _, bad := range e.badSymbols(t) {
				out = append(out, &rtJob{Kind: "json", Type: t, Value: rawJSON(bad), want: nil})
			}
		}
		if b := e.spec(refTS(t, "")).Type; b == "Decimal" || b == "Timestamp" {
			for _, v := range e.values(&sadl.TypeSpec{Type: t}, 3) {
				out = append(out, &rtJob{Kind: "text", Type: t, Value: rawJSON(v), want: fmt.Sprint(v)})
			}
		}
	}
	return out
}

// goUsable: common part of the judges; false when there is nothing more to judge.
func goUsable(r *mc.R, g *goResult) bool {
	r.Input(func() string {
		b, _ := json.Marshal(g.prep.job.schema)
		return fmt.Sprintf("%s runtime=%v server=%v client=%v %s", g.prep.job.note, g.prep.job.runtime, g.prep.job.server, g.prep.job.client, b)
	})
	switch {
	case g.prep.panic != "":
		r.Fail("panic", "the generator panics: %s", clipN(g.prep.panic, 1500))
	case g.prep.err != "":
		r.Fail("error", "the generator reports %s", g.prep.err)
	case g.compile != "":
		r.Fail("compile", "the generated code does not compile:\n%s", clipN(g.compile, 1500))
	case g.died != "":
		r.Fail("died", "the generated code brings the process down:\n%s", clipN(g.died, 1500))
	default:
		return true
	}
	return false
}

func judgeTypes(r *mc.R, job, res interface{}) {
	g := res.(*goResult)
	if !goUsable(r, g) {
		return
	}
	s := g.prep.job.schema
	e := envOf(s)
	// the structs of requests and responses count as types of the model
	for _, h := range s.Http {
		req, rsp := td(cap1(h.Name)+"Request", structTS()), td(cap1(h.Name)+"Response", structTS())
		for _, in := range h.Inputs {
			f := in.StructFieldDef
			req.Fields = append(req.Fields, &f)
		}
		if h.Expected != nil {
			for _, o := range h.Expected.Outputs {
				f := o.StructFieldDef
				rsp.Fields = append(rsp.Fields, &f)
			}
		}
		e[req.Name], e[rsp.Name] = req, rsp
	}
	var digest []string
	for i, j := range g.prep.job.jobs {
		o := g.results[i]
		if o.Panic != "" {
			r.Fail("panic-generated", "%s %s %s: the generated code panics: %s", j.Kind, j.Type, j.Value, o.Panic)
			continue
		}
		ts := e.spec(refTS(j.Type, ""))
		switch j.Kind {
		case "fields":
			judgeFields(r, e, j.Type, ts, o)
		case "json":
			if ts.Type == "Enum" && j.want == nil {
				if o.Err == "" {
					r.Fail("enum-accepts", "enum %s accepts %s", j.Type, j.Value)
				}
				continue
			}
			if o.Err != "" {
				r.Fail("decode", "%s does not decode %s: %s", j.Type, j.Value, o.Err)
				continue
			}
			back, err := parseJSON(o.Out)
			if err != nil {
				r.Fail("encode", "%s encodes %s as %s: %v", j.Type, j.Value, o.Out, err)
				continue
			}
			in, _ := parseJSON(string(j.Value))
			if a, b := e.canon(ts, in, 0), e.canon(ts, back, 0); a != b {
				r.Fail("json-roundtrip:"+ts.Type, "%s: %s becomes %s after decoding and encoding", j.Type, j.Value, o.Out)
			}
			digest = append(digest, o.Out)
		case "text":
			if o.Err != "" {
				r.Fail("decode", "%s does not decode %s: %s", j.Type, j.Value, o.Err)
			} else if ts.Type == "Decimal" {
				if e.canon(ts, num(o.Out), 0) != e.canon(ts, num(j.want.(string)), 0) {
					r.Fail("text", "%s decoded from %s prints as %q", j.Type, j.Value, o.Out)
				}
			} else if o.Out != j.want {
				r.Fail("text", "%s decoded from %s prints as %q, not %q", j.Type, j.Value, o.Out, j.want)
			}
		}
	}
	r.Outcome("%s", strings.Join(digest, "|"))
}

func judgeFields(r *mc.R, e typeEnv, name string, ts *sadl.TypeSpec, o rtResult) {
	kind := strings.Fields(o.Out)
	switch ts.Type {
	case "Struct", "Union":
		if kind[0] != "struct" {
			r.Fail("kind", "%s is declared as %s", name, o.Out)
			return
		}
		fields := ts.Fields
		if ts.Type == "Union" {
			for _, v := range ts.Variants {
				fields = append(fields, &sadl.StructFieldDef{Name: v.Name, TypeSpec: v.TypeSpec})
			}
		}
		i := 0
		for _, f := range o.Fields {
			js := reflect.StructTag(f.Tag).Get("json")
			if js == "-" {
				continue
			}
			if i >= len(fields) {
				r.Fail("extra-field", "%s has an undeclared field %s", name, f.Name)
				return
			}
			want := fields[i]
			i++
			opts := strings.Split(js, ",")
			omit := false
			for _, op := range opts[1:] {
				omit = omit || op == "omitempty" || op == "omitzero"
			}
			if opts[0] != want.Name || f.Name != cap1(want.Name) {
				r.Fail("field-name", "%s: field %s %q, want %s", name, f.Name, f.Tag, want.Name)
			}
			if omit == want.Required {
				r.Fail("field-omit", "%s: field %s has tag %q, required=%v", name, f.Name, f.Tag, want.Required)
			}
			if !e.goTypeOK(&want.TypeSpec, f.Type) {
				r.Fail("field-type", "%s: field %s of type %s is declared as %s", name, want.Name, descTS(&want.TypeSpec), f.Type)
			}
		}
		if i != len(fields) {
			r.Fail("missing-field", "%s: %d of %d fields are declared", name, i, len(fields))
		}
	case "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "String":
		if kind[0] != strings.ToLower(ts.Type) {
			r.Fail("kind", "%s (%s) is declared as %s", name, ts.Type, o.Out)
		}
	case "UUID":
		if kind[0] != "string" {
			r.Fail("kind", "%s (%s) is declared as %s", name, ts.Type, o.Out)
		}
	case "Array":
		if kind[0] != "slice" || !e.goTypeOK(refTS(ts.Items, "Any"), strings.Join(kind[1:], " ")) {
			r.Fail("kind", "%s (%s) is declared as %s", name, descTS(ts), o.Out)
		}
	case "Map":
		if kind[0] != "map" || len(kind) < 3 || !e.goTypeOK(refTS(ts.Keys, "String"), kind[1]) || !e.goTypeOK(refTS(ts.Items, "Any"), strings.Join(kind[2:], " ")) {
			r.Fail("kind", "%s (%s) is declared as %s", name, descTS(ts), o.Out)
		}
	}
}

func descTS(ts *sadl.TypeSpec) string {
	b, _ := json.Marshal(ts)
	return string(b)
}

func init() {
	var p *mc.Prop
	// all type definitions, a few per package: T0, T1 .. drawn from the menu in order
	defs := func(runtime bool) []sadl.TypeSpec {
		m := defMenu(goDefOK(runtime))
		e := enumTS("SYM_A", "SYM_B")
		e.Elements[0].Annotations = map[string]string{"x_enumValue": "sym-a"}
		m = append(m, e,
			sadl.TypeSpec{Type: "Map", Keys: "Col", Items: "Rec"}, sadl.TypeSpec{Type: "Map", Keys: "UUID", Items: "Decimal"}, sadl.TypeSpec{Type: "Map", Keys: "Nm", Items: "Timestamp"}, sadl.TypeSpec{Type: "Map", Keys: "Int32", Items: "Col"},
			tsOf("Array"), tsOf("Map"),
			structTS(fld("d", false, tsOf("Decimal")), fld("t", false, tsOf("Timestamp")), fld("dd", true, tsOf("D0")), fld("od", false, tsOf("D0")), fld("tt", true, tsOf("Ts0")), fld("ot", false, tsOf("Ts0")), fld("u", false, tsOf("U0")), fld("ds", false, arrTS("D0")), fld("dm", false, mapTS("D0")), fld("um", false, mapTS("U0")), fld("ta", false, arrTS("Ts0"))))
		return m
	}
	defBatch := func(name string, runtime bool) mc.Harness {
		b := &mc.Batch{Name: name, Quick: 0, Deep: 0, Chunk: 300, Prep: goPrepJob, Run: goRunBatch, Judge: judgeTypes}
		menu := defs(runtime)
		b.Gen = func(c *mc.C) interface{} {
			t := td("T0", menu[c.Choose(len(menu))])
			if t.Type == "Enum" { // symbols are constants of the package
				for i := range t.Elements {
					t.Elements[i].Symbol = "T_" + t.Elements[i].Symbol
				}
			}
			types := append(serviceAux(), t, td("D0", tsOf("Decimal")), td("Ts0", tsOf("Timestamp")), td("U0", unionTS("rec", "Rec", "num", "Num")))
			if c.Bool() {
				types = append([]*sadl.TypeDef{t}, append(serviceAux(), td("D0", tsOf("Decimal")), td("Ts0", tsOf("Timestamp")), td("U0", unionTS("rec", "Rec", "num", "Num")))...)
			}
			s := cloneSchema(&sadl.Schema{Name: "svc", Types: types})
			return &goJob{schema: s, runtime: runtime, jobs: envOf(s).jsonJobs("T0", "Col", "D0", "Ts0", "U0")}
		}
		return b.Harness()
	}
	fieldBatch := func(name string, runtime bool) mc.Harness {
		b := &mc.Batch{Name: name, Quick: 0, Deep: 1, Chunk: 400, Prep: goPrepJob, Run: goRunBatch, Judge: judgeTypes}
		menu := specMenu(goFieldOK(runtime))
		b.Gen = func(c *mc.C) interface{} {
			// one field drawn freely; the others by deviation; nothing else in the model needs what the field needs
			n := 2
			st := td("S", structTS())
			names := []string{"zeta", "alphaBeta", "x2"}
			k0 := c.Choose(len(menu))
			req0 := c.Bool()
			for i := 0; i < n; i++ {
				k, req := k0, req0
				if i > 0 {
					k, req = c.Dev(len(menu)), c.DevBool()
				}
				st.Fields = append(st.Fields, fld(names[i], req, menu[k]))
			}
			types := serviceAux()
			if c.Bool() { // only what is needed
				types = closure(types, st)
			}
			s := cloneSchema(&sadl.Schema{Name: "svc", Types: append(types, st)})
			return &goJob{schema: s, runtime: runtime, jobs: envOf(s).jsonJobs("S")}
		}
		return b.Harness()
	}
	actBatch := func() mc.Harness {
		b := &mc.Batch{Name: "actions", Quick: 1, Deep: 2, Chunk: 400, Prep: goPrepJob, Run: goRunBatch, Judge: judgeTypes}
		b.Gen = func(c *mc.C) interface{} {
			o := defaultHttp()
			o.paramTypes = append([]sadl.TypeSpec{tsOf("String"), tsOf("Decimal"), tsOf("UUID"), tsOf("Timestamp")}, o.paramTypes[1:]...)
			o.outTypes = append(o.outTypes, tsOf("Timestamp"), tsOf("Decimal"), arrTS("Decimal"))
			o.bodyTypes = append(o.bodyTypes, tsOf("Timestamp"), tsOf("Any"), mapTS("Timestamp"))
			h := drawAction(c, "getIt", "things", o, "")
			if c.DevBool() {
				h.Expected = nil
			}
			s := &sadl.Schema{Name: "svc", Types: serviceAux(), Http: []*sadl.HttpDef{h}}
			if c.DevBool() {
				s.Http = append(s.Http, drawAction(c, "Other", "others", o, ""))
			}
			s = cloneSchema(s)
			var jobs []*rtJob
			for _, h := range s.Http {
				jobs = append(jobs, &rtJob{Kind: "fields", Type: cap1(h.Name) + "Request"}, &rtJob{Kind: "fields", Type: cap1(h.Name) + "Response"})
			}
			return &goJob{schema: s, jobs: jobs}
		}
		return b.Harness()
	}
	varyBatch := func(name string, runtime bool) mc.Harness {
		b := &mc.Batch{Name: name, Chunk: 250, Prep: goPrepJob, Run: goRunBatch, Judge: judgeTypes}
		b.Gen = func(c *mc.C) interface{} {
			s, _ := varied(c, "fname required comment annotation symbol values union schema pname ptype outheader action", c.Thorough())
			if s == nil {
				return nil
			}
			var names []string
			for _, t := range s.Types {
				names = append(names, t.Name)
			}
			j := &goJob{schema: s, runtime: runtime, jobs: envOf(s).jsonJobs(names...)}
			for _, h := range s.Http {
				j.jobs = append(j.jobs, &rtJob{Kind: "fields", Type: cap1(h.Name) + "Request"}, &rtJob{Kind: "fields", Type: cap1(h.Name) + "Response"})
			}
			return j
		}
		return b.Harness()
	}
	p = &mc.Prop{ID: "C19",
		Harnesses: []mc.Harness{varyBatch("variety", false), varyBatch("variety-runtime", true), defBatch("definitions", false), fieldBatch("fields", false), actBatch(), defBatch("definitions-runtime", true), fieldBatch("fields-runtime", true), {Name: "placement", Quick: 9, Deep: 9, Gen: c19Placement}},
		Assumptions: []string{
			"the generated packages are compiled and run with the installed Go toolchain; the value menus per type are finite (boundary integers, long decimals, special characters, absent optional fields)",
			"names that a model makes collide in Go (enum symbols shared between enums, Go keywords as symbols, fields named like generated methods) are outside the property",
			"an optional field holding the zero value of a Go type without an unset state counts as absent, as the generator documents",
		},
		Bounds: "every type definition of the menu in two positions, every field specification, required and optional, with and without the rest of the model; request and response types of every action shape within 1 (quick) or 2 (thorough) deviations; every variation (pair) of names, comments, annotations, constraints, symbols and variants of a rich model; both runtime settings",
	}
	mc.Register(p)
}

// closure keeps the types a definition needs, transitively.
func closure(types []*sadl.TypeDef, roots ...*sadl.TypeDef) []*sadl.TypeDef {
	by := map[string]*sadl.TypeDef{}
	for _, t := range types {
		by[t.Name] = t
	}
	need := map[string]bool{}
	var visit func(ts *sadl.TypeSpec)
	name := func(n string) {
		if t := by[n]; t != nil && !need[n] {
			need[n] = true
			visit(&t.TypeSpec)
		}
	}
	visit = func(ts *sadl.TypeSpec) {
		name(ts.Type)
		name(ts.Items)
		name(ts.Keys)
		name(ts.Value)
		name(ts.Unit)
		for _, f := range ts.Fields {
			visit(&f.TypeSpec)
		}
		for _, v := range ts.Variants {
			visit(&v.TypeSpec)
		}
	}
	for _, t := range roots {
		visit(&t.TypeSpec)
	}
	var out []*sadl.TypeDef
	for _, t := range types {
		if need[t.Name] {
			out = append(out, t)
		}
	}
	return out
}

// c19Placement: which files are written where, under which package name.
func c19Placement(c *mc.C) mc.Case {
	name := mc.Pick(c, "", "svc", "Shop", "petStore")
	ns := mc.Pick(c, "", "acme", "com.acme.shop")
	pkg := mc.Pick(c, "", "models", "a.b")
	cname := mc.Pick(c, "", "other")
	model, server, client := c.Choose(3), c.Bool(), c.Bool()
	return func(r *mc.R) {
		r.Input(func() string {
			return fmt.Sprintf("name=%q namespace=%q package=%q confname=%q model=%d server=%v client=%v", name, ns, pkg, cname, model, server, client)
		})
		if name == "" && cname == "" {
			return
		}
		s := &sadl.Schema{Name: name, Namespace: ns, Types: serviceAux(), Http: []*sadl.HttpDef{{Name: "ping", Method: "GET", Path: "/ping", Expected: &sadl.HttpExpectedSpec{Status: 204}}}}
		m, _ := sadl.NewModel(cloneSchema(s))
		conf := sadl.NewData()
		put := func(k string, v interface{}) { conf.Put(k, v) }
		if pkg != "" {
			put("package", pkg)
		}
		if cname != "" {
			put("name", cname)
		}
		wantModel := true
		if model == 1 {
			put("model", false)
			wantModel = false
		} else if model == 2 {
			put("model", true)
		}
		if server {
			put("server", true)
		}
		if client {
			put("client", true)
		}
		dir := filepath.Join(r.Scratch, "place")
		os.RemoveAll(dir)
		defer os.RemoveAll(dir)
		if err := golang.Export(m, dir, conf); err != nil {
			r.Fail("error", "%v", err)
			return
		}
		eff := pkg
		if eff == "" {
			eff = ns
		}
		if eff == "" {
			eff = "main"
		}
		parts := strings.Split(eff, ".")
		n := cname
		if n == "" {
			n = name
		}
		base := strings.ToLower(n[:1]) + n[1:]
		want := map[string]bool{}
		pdir := filepath.Join(parts...)
		if wantModel {
			want[filepath.Join(pdir, base+"_model.go")] = true
		}
		if server {
			want[filepath.Join(pdir, base+"_server.go")] = true
		}
		if client {
			want[filepath.Join(pdir, base+"_client.go")] = true
		}
		var got []string
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				rel, _ := filepath.Rel(dir, p)
				got = append(got, rel)
				if !want[rel] {
					r.Fail("extra-file", "unexpected file %s", rel)
				}
				delete(want, rel)
				f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
				if err != nil {
					r.Fail("syntax", "%s: %v", rel, err)
				} else if f.Name.Name != parts[len(parts)-1] {
					r.Fail("package", "%s: package %s, want %s", rel, f.Name.Name, parts[len(parts)-1])
				}
			}
			return nil
		})
		for f := range want {
			r.Fail("missing-file", "%s is not written", f)
		}
		sort.Strings(got)
		r.Outcome("%v", got)
	}
}
