package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/java"
	"verif/mc"
)

// C21: generated Java model code.

var javaBoxes = map[string][2]string{"Bool": {"boolean", "Boolean"}, "Int8": {"byte", "Byte"}, "Int16": {"short", "Short"}, "Int32": {"int", "Integer"}, "Int64": {"long", "Long"}, "Float32": {"float", "Float"}, "Float64": {"double", "Double"}}

// javaTypes: the acceptable Java types of a field.
func (e typeEnv) javaTypes(fname string, ts *sadl.TypeSpec, required bool) []string {
	name := ts.Type
	b := e.spec(ts)
	if x, ok := javaBoxes[b.Type]; ok {
		if required {
			return x[:]
		}
		return []string{x[1]}
	}
	switch b.Type {
	case "String", "UUID":
		return []string{b.Type}
	case "Decimal":
		return []string{"BigDecimal"}
	case "Timestamp":
		return []string{"Instant", "Timestamp"}
	case "Bytes":
		return []string{"byte[]"}
	case "Any":
		return []string{"Object"}
	case "Array":
		var out []string
		for _, t := range e.javaTypes("", refTS(b.Items, "Any"), false) {
			out = append(out, "List<"+t+">")
		}
		return out
	case "Map":
		var out []string
		for _, k := range e.javaTypes("", refTS(b.Keys, "String"), false) {
			for _, t := range e.javaTypes("", refTS(b.Items, "Any"), false) {
				out = append(out, "Map<"+k+","+t+">")
			}
		}
		return out
	}
	if e[name] == nil {
		return []string{cap1(fname)} // an inline struct is a nested class
	}
	return []string{name}
}

func sameNum(a, b string) bool {
	x, ok1 := new(big.Rat).SetString(a)
	y, ok2 := new(big.Rat).SetString(b)
	return ok1 && ok2 && x.Cmp(y) == 0
}

func (e typeEnv) judgeAnnotations(r *mc.R, where string, f *sadl.StructFieldDef, typ, tag string) {
	ts := e.spec(&f.TypeSpec)
	want := map[string]string{}
	prim := false
	if x, ok := javaBoxes[ts.Type]; ok {
		prim = typ == x[0]
	}
	if f.Required && !prim {
		want["NotNull"] = ""
	}
	if ts.Type == "String" {
		if ts.Pattern != "" {
			want["Pattern.regexp"] = ts.Pattern
		}
		if ts.MinSize != nil && *ts.MinSize > 0 {
			want["Size.min"] = fmt.Sprint(*ts.MinSize)
		}
		if ts.MaxSize != nil {
			want["Size.max"] = fmt.Sprint(*ts.MaxSize)
		}
	}
	if _, ok := javaBoxes[ts.Type]; ok && ts.Type != "Bool" || ts.Type == "Decimal" {
		if ts.Min != nil {
			want["Min"] = ts.Min.String()
		}
		if ts.Max != nil {
			want["Max"] = ts.Max.String()
		}
	}
	for _, l := range strings.Split(tag, "\n") {
		if l == "" {
			continue
		}
		name, rest, _ := strings.Cut(l, " ")
		check := func(key, val string) {
			w, ok := want[key]
			if !ok || w != val && !sameNum(w, val) {
				r.Fail("annotation", "%s: field %s (%s, required=%v) is annotated with %s", where, f.Name, descTS(&f.TypeSpec), f.Required, l)
			}
			delete(want, key)
		}
		switch name {
		case "NotNull":
			check("NotNull", "")
		case "Pattern":
			check("Pattern.regexp", strings.TrimPrefix(rest, "regexp="))
		case "Size":
			if ts.Type != "String" {
				continue // not carried for other types at present; harmless when right
			}
			for _, kv := range strings.Fields(rest) {
				k, v, _ := strings.Cut(kv, "=")
				check("Size."+k, v)
			}
		case "Min", "DecimalMin":
			check("Min", strings.TrimPrefix(rest, "value="))
		case "Max", "DecimalMax":
			check("Max", strings.TrimPrefix(rest, "value="))
		}
	}
	for k, v := range want {
		r.Fail("annotation-missing", "%s: field %s (%s, required=%v) has no annotation for %s %s: %q", where, f.Name, descTS(&f.TypeSpec), f.Required, k, v, tag)
	}
}

// withActions adds the requests and responses of the actions to the types.
func (e typeEnv) withActions(s *sadl.Schema) typeEnv {
	for _, h := range s.Http {
		req, rsp := td(cap1(h.Name)+"Request", structTS()), td(cap1(h.Name)+"Response", structTS())
		for _, in := range h.Inputs {
			f := in.StructFieldDef
			req.Fields = append(req.Fields, &f)
		}
		if h.Expected != nil {
			for _, o := range h.Expected.Outputs {
				f := o.StructFieldDef
				rsp.Fields = append(rsp.Fields, &f)
			}
		}
		e[req.Name], e[rsp.Name] = req, rsp
	}
	return e
}

func judgeJava(r *mc.R, _, res interface{}) {
	g := res.(*javaResult)
	if !javaUsable(r, g) {
		return
	}
	laxTime = true
	defer func() { laxTime = false }()
	s := g.prep.job.schema
	e := envOf(s).withActions(s)
	exceptions := map[string]bool{}
	if g.prep.job.conf["service-exception"] == nil {
		for _, h := range s.Http {
			for _, x := range h.Exceptions {
				exceptions[x.Type] = true
			}
		}
	}
	var digest []string
	for i, j := range g.prep.job.jobs {
		o := g.results[i]
		if o.Panic != "" {
			if strings.HasPrefix(o.Panic, "driver: ") {
				panic("mc: " + o.Panic)
			}
			r.Fail("members", "%s %s %s: %s", j.Kind, j.Type, j.Value, o.Panic)
			continue
		}
		ts := e.spec(refTS(j.Type, ""))
		switch j.Kind {
		case "fields":
			if ts.Type == "Enum" {
				var got, want []string
				for _, f := range o.Fields {
					got = append(got, f.Name+"="+f.Tag)
				}
				for _, el := range ts.Elements {
					want = append(want, el.Symbol+"="+enumText(el))
				}
				if o.Out != "enum" || strings.Join(got, ",") != strings.Join(want, ",") {
					r.Fail("enum", "%s is the %s %v, want %v", j.Type, o.Out, got, want)
				}
				continue
			}
			want := "class"
			if exceptions[j.Type] {
				want = "exception"
			}
			if o.Out != want {
				r.Fail("kind", "%s is a %s, want %s", j.Type, o.Out, want)
			}
			if ts.Type == "UnitValue" {
				continue
			}
			fields := ts.Fields
			for _, v := range ts.Variants {
				fields = append(fields, &sadl.StructFieldDef{Name: v.Name, TypeSpec: v.TypeSpec})
			}
			if len(o.Fields) != len(fields) {
				r.Fail("field-count", "%s has %d members %v, want %d", j.Type, len(o.Fields), o.Fields, len(fields))
				continue
			}
			for k, f := range fields {
				got := o.Fields[k]
				ok := false
				for _, t := range e.javaTypes(f.Name, &f.TypeSpec, f.Required) {
					ok = ok || t == got.Type
				}
				if got.Name != f.Name || !ok {
					r.Fail("field", "%s: member %d is %s %s, want %v %s", j.Type, k, got.Type, got.Name, e.javaTypes(f.Name, &f.TypeSpec, f.Required), f.Name)
					continue
				}
				e.judgeAnnotations(r, j.Type, f, got.Type, got.Tag)
			}
		case "json":
			if ts.Type == "Enum" && j.want == nil {
				if o.Err == "" {
					r.Fail("enum-accepts", "enum %s accepts %s", j.Type, j.Value)
				}
				continue
			}
			if o.Err != "" {
				r.Fail("decode", "%s does not decode and encode %s: %s", j.Type, j.Value, o.Err)
				continue
			}
			back, err := parseJSON(o.Out)
			if err != nil {
				r.Fail("encode", "%s encodes %s as %s: %v", j.Type, j.Value, o.Out, err)
				continue
			}
			in, _ := parseJSON(string(j.Value))
			if a, b := e.canon(ts, in, 0), e.canon(ts, back, 0); a != b {
				r.Fail("json-roundtrip:"+ts.Type, "%s: %s becomes %s after decoding and encoding", j.Type, j.Value, o.Out)
			}
			digest = append(digest, o.Out)
		case "text":
			if o.Err != "" {
				r.Fail("decode", "%s does not decode %s: %s", j.Type, j.Value, o.Err)
			} else if o.Out != j.want {
				r.Fail("text", "%s decoded from %s prints as %q, not %q", j.Type, j.Value, o.Out, j.want)
			}
		}
	}
	r.Outcome("%s", strings.Join(digest, "|"))
}

// javaJobs: jobs for the named types that become classes.
func (e typeEnv) javaJobs(pretty bool, types ...string) []*rtJob {
	var out []*rtJob
	for _, t := range types {
		ts := e.spec(refTS(t, ""))
		switch ts.Type {
		case "Struct", "Union", "Enum", "UnitValue":
		default:
			continue
		}
		out = append(out, &rtJob{Kind: "fields", Type: t})
		for _, v := range e.values(&sadl.TypeSpec{Type: t}, 3) {
			out = append(out, &rtJob{Kind: "json", Type: t, Value: rawJSON(v), want: v})
		}
		if ts.Type == "Enum" {
			for _, el := range ts.Elements {
				out = append(out, &rtJob{Kind: "text", Type: t, Value: rawJSON(enumText(el)), want: enumText(el)})
			}
			for _, bad := range e.badSymbols(t) {
				out = append(out, &rtJob{Kind: "json", Type: t, Value: rawJSON(bad), want: nil})
			}
		}
	}
	return out
}

func inlineStructs() []sadl.TypeSpec {
	inner := structTS(fld("deep", true, tsOf("Int32")), fld("when", false, tsOf("Timestamp")))
	return []sadl.TypeSpec{
		structTS(fld("street", true, tsOf("String")), fld("zip", false, tsOf("Int32"))),
		structTS(fld("inside", true, inner), fld("rec", false, tsOf("Rec"))),
	}
}

// javaFieldOK: what a field can be. Inline enums and unit values are reported as errors.
func javaFieldOK(ts sadl.TypeSpec) bool {
	return ts.Type != "Enum" && ts.Type != "UnitValue" && ts.Items != "UnitValue"
}
func javaDefOK(ts sadl.TypeSpec) bool {
	return (ts.Type != "Enum" || ts.Elements[0].Symbol != "") && ts.Items != "UnitValue" && ts.Type != "UnitValue"
}

func javaConf(mode int) map[string]interface{} {
	conf := map[string]interface{}{}
	if mode&1 != 0 {
		conf["immutable"] = false
	}
	if mode&2 != 0 {
		conf["instants"] = false
	}
	if mode&4 != 0 {
		conf["json"] = true
	}
	if mode&8 != 0 {
		conf["service-exception"] = true
	}
	return conf
}

func init() {
	defs := defMenu(javaDefOK)
	e := enumTS("SYM_A", "SYM_B")
	e.Elements[0].Annotations = map[string]string{"x_enumValue": "sym \"a\"\\"}
	e.Elements[1].Comment = "the second"
	defs = append(defs, e,
		sadl.TypeSpec{Type: "Map", Keys: "Col", Items: "Rec"}, sadl.TypeSpec{Type: "Map", Keys: "UUID", Items: "Decimal"}, sadl.TypeSpec{Type: "Map", Keys: "Nm", Items: "Timestamp"}, sadl.TypeSpec{Type: "Map", Keys: "Int32", Items: "Col"},
		unionTS("d", "D0", "t", "Timestamp", "ts", "Ts0", "b", "Bool", "l", "Recs"), unionTS("u", "Uv", "by", "Bytes", "any", "Any"),
		structTS(fld("message", true, tsOf("String")), fld("more", false, tsOf("Int32"))))
	for _, v := range []string{"Decimal", "Float64", "Float32", "Int8", "Int16", "Int32", "Int64"} {
		for _, u := range []string{"Col", "String", "Nm"} {
			defs = append(defs, sadl.TypeSpec{Type: "UnitValue", Value: v, Unit: u})
		}
	}
	extra := func() []*sadl.TypeDef {
		return []*sadl.TypeDef{td("D0", ranged("Decimal", "0.1", "")), td("Ts0", tsOf("Timestamp")), td("U0", unionTS("rec", "Rec", "num", "Num")), td("B0", tsOf("Bool")), td("Uv", sadl.TypeSpec{Type: "UnitValue", Value: "Decimal", Unit: "Col"})}
	}
	defBatch := &mc.Batch{Name: "definitions", Chunk: 500, Prep: javaPrepJob, Run: javaRunBatch, Judge: judgeJava}
	defBatch.Gen = func(c *mc.C) interface{} {
		t := td("T0", defs[c.Choose(len(defs))])
		// a holder shows the type as a field, optional and required, and inside containers
		hold := td("Holder", structTS(fld("one", true, tsOf("T0")), fld("two", false, tsOf("T0"))))
		if t.Type != "Array" && t.Type != "Map" {
			hold.Fields = append(hold.Fields, fld("list", false, arrTS("T0")), fld("map", true, mapTS("T0")))
		}
		mode := c.Choose(4)
		types := append(serviceAux(), extra()...)
		if c.Thorough() && c.Bool() {
			types = append([]*sadl.TypeDef{t}, types...)
			types = append(types, hold)
		} else {
			types = append([]*sadl.TypeDef{hold, t}, types...)
			types = closure(types, hold)
			types = append(types, hold)
		}
		s := cloneSchema(&sadl.Schema{Name: "svc", Types: types})
		return &javaJob{schema: s, conf: javaConf(mode), jobs: envOf(s).javaJobs(false, "T0", "Holder")}
	}
	fmenu := specMenu(javaFieldOK)
	fmenu = append(fmenu, inlineStructs()...)
	for _, n := range []string{"D0", "Ts0", "U0", "B0", "Uv"} {
		fmenu = append(fmenu, tsOf(n), arrTS(n), mapTS(n))
	}
	fmenu = append(fmenu, sadl.TypeSpec{Type: "String", Pattern: "^[\"\\\\/]?\\d$", Values: nil}, sadl.TypeSpec{Type: "Map", Keys: "Col", Items: "Timestamp"}, ranged("Int64", "-9000000000", "9000000000"))
	fieldBatch := &mc.Batch{Name: "fields", Deep: 1, Chunk: 500, Prep: javaPrepJob, Run: javaRunBatch, Judge: judgeJava}
	fieldBatch.Gen = func(c *mc.C) interface{} {
		st := td("S", structTS())
		k0, req0 := c.Choose(len(fmenu)), c.Bool()
		st.Fields = append(st.Fields, fld("zeta", req0, fmenu[k0]))
		if k := c.Dev(len(fmenu) + 1); k < len(fmenu) {
			st.Fields = append(st.Fields, fld("alphaBeta", c.DevBool(), fmenu[k]))
		}
		st.Fields[0].Comment = mc.PickDev(c, "", "about it", "line one\nline two")
		mode := c.Choose(2)
		if c.Thorough() {
			mode |= c.Choose(4) << 1
		} else {
			mode |= c.Dev(4) << 1
		}
		s := cloneSchema(&sadl.Schema{Name: "svc", Types: append(closure(append(serviceAux(), extra()...), st), st)})
		if st.Fields[0].Pattern != "" && strings.Contains(st.Fields[0].Pattern, "\\d") {
			return &javaJob{schema: s, conf: javaConf(mode), jobs: []*rtJob{{Kind: "fields", Type: "S"}}}
		}
		return &javaJob{schema: s, conf: javaConf(mode), jobs: envOf(s).javaJobs(false, "S")}
	}
	actBatch := &mc.Batch{Name: "actions", Quick: 1, Deep: 2, Chunk: 500, Prep: javaPrepJob, Run: javaRunBatch, Judge: judgeJava}
	actBatch.Gen = func(c *mc.C) interface{} {
		o := defaultHttp()
		o.paramTypes = append([]sadl.TypeSpec{tsOf("String"), tsOf("Decimal"), tsOf("UUID"), tsOf("Timestamp")}, o.paramTypes[1:]...)
		o.outTypes = append(o.outTypes, tsOf("Timestamp"), tsOf("Decimal"), arrTS("Decimal"))
		o.bodyTypes = append(o.bodyTypes, tsOf("Timestamp"), tsOf("Any"), mapTS("Timestamp"))
		h := drawAction(c, "getIt", "things", o, "")
		if c.DevBool() {
			h.Expected = nil
		}
		s := &sadl.Schema{Name: "svc", Types: serviceAux(), Http: []*sadl.HttpDef{h}}
		if c.DevBool() {
			s.Http = append(s.Http, drawAction(c, "Other", "others", o, ""))
		}
		mode := c.Choose(2) | c.Dev(8)<<1
		s = cloneSchema(s)
		var names []string
		for _, h := range s.Http {
			names = append(names, cap1(h.Name)+"Request", cap1(h.Name)+"Response")
		}
		return &javaJob{schema: s, conf: javaConf(mode), jobs: envOf(s).withActions(s).javaJobs(false, append(names, "Err", "Missing")...)}
	}
	vary := &mc.Batch{Name: "variety", Chunk: 250, Prep: javaPrepJob, Run: javaRunBatch, Judge: judgeJava}
	vary.Gen = func(c *mc.C) interface{} {
		s, _ := varied(c, "required comment annotation symbol values union schema ptype outheader", c.Thorough())
		if s == nil {
			return nil
		}
		mode := []int{0, 1}[c.Choose(2)]
		var names []string
		for _, t := range s.Types {
			names = append(names, t.Name)
		}
		return &javaJob{schema: s, conf: javaConf(mode), jobs: envOf(s).javaJobs(false, names...)}
	}
	mc.Register(&mc.Prop{ID: "C21",
		Harnesses: []mc.Harness{vary.Harness(), defBatch.Harness(), fieldBatch.Harness(), actBatch.Harness(), {Name: "placement", Quick: 9, Deep: 9, Gen: c21Placement}, {Name: "refused", Quick: 9, Deep: 9, Gen: c21Refused}},
		Assumptions: []string{
			"the Jackson, Bean Validation, JAX-RS and Jersey libraries are replaced by stand-ins with the documented meaning of the annotations and classes that the generated code uses; code is compiled by javac 17 and run",
			"field names are lower camel case with at least two lower-case letters in front and no Java keyword; types are not named like classes of the imported libraries; the lombok option (it needs an annotation processor) is outside the check",
		},
		Bounds: "every type definition of the menu alone, as a required and optional field and inside containers; every field specification; requests and responses of every action shape within 1 (quick) or 2 (thorough) deviations; with and without builders, instants, pretty printing and service exceptions",
	})
}

// c21Refused: models that cannot be expressed are reported, not mistranslated.
func c21Refused(c *mc.C) mc.Case {
	bad := []*sadl.StructFieldDef{fld("pick", c.Bool(), enumTS("A", "B")), fld("amount", true, tsOf("UnitValue")), fld("class", true, tsOf("String")), fld("package", false, tsOf("Int32")), fld("default", true, tsOf("Rec")), fld("int", true, tsOf("String")), fld("true", true, tsOf("Bool")), fld("s", true, inlineStructs()[0]), fld("amounts", false, arrTS("UnitValue"))}
	k := c.Choose(len(bad))
	mode := c.Choose(2)
	where := c.Choose(2)
	return func(r *mc.R) {
		st := td("S", structTS(fld("aa", false, tsOf("String"))))
		if where == 0 {
			st.Fields = append(st.Fields, bad[k])
		} else {
			st.Fields = append([]*sadl.StructFieldDef{bad[k]}, st.Fields...)
		}
		s := cloneSchema(&sadl.Schema{Name: "svc", Types: append(serviceAux(), st)})
		r.Input(func() string {
			return fmt.Sprintf("config=%v field %s", javaConf(mode), descTS(&sadl.TypeSpec{Type: "Struct", Fields: st.Fields}))
		})
		m, _ := sadl.NewModel(s)
		conf := sadl.NewData()
		conf.Put("package", "p")
		for k, v := range javaConf(mode) {
			conf.Put(k, v)
		}
		dir := filepath.Join(r.Scratch, "refused")
		os.RemoveAll(dir)
		defer os.RemoveAll(dir)
		err := java.Export(m, dir, conf)
		if err == nil {
			r.Fail("accepted", "no error is reported for %s %s", bad[k].Name, descTS(&bad[k].TypeSpec))
		}
		r.Outcome("%v", err)
	}
}

// c21Placement: which files are written where, in which package.
func c21Placement(c *mc.C) mc.Case {
	name := mc.Pick(c, "svc", "petStore")
	ns := mc.Pick(c, "", "acme", "com.acme.shop")
	domain := mc.Pick(c, "", "shop.example.org")
	pkg := mc.Pick(c, "", "a.b")
	cname := mc.Pick(c, "", "other")
	parts := c.Choose(8) // model, server, client
	custom := c.Choose(4)
	impl := c.Bool()
	return func(r *mc.R) {
		r.Input(func() string {
			return fmt.Sprintf("name=%q namespace=%q domain=%q package=%q confname=%q parts=%d custom=%d impl=%v", name, ns, domain, pkg, cname, parts, custom, impl)
		})
		if ns == "" && pkg == "" && domain == "" {
			return // the package depends on the environment
		}
		s := &sadl.Schema{Name: name, Namespace: ns, Types: serviceAux(), Http: []*sadl.HttpDef{{Name: "ping", Method: "GET", Path: "/ping", Expected: &sadl.HttpExpectedSpec{Status: 204}}}}
		m, _ := sadl.NewModel(cloneSchema(s))
		conf := sadl.NewData()
		put := func(k string, v interface{}) { conf.Put(k, v) }
		if pkg != "" {
			put("package", pkg)
		}
		if domain != "" {
			put("domain", domain)
		}
		n := name
		if cname != "" {
			put("name", cname)
			n = cname
		}
		n = cap1(n)
		eff := pkg
		if eff == "" && domain != "" {
			eff = "org.example.shop"
		}
		if eff == "" {
			eff = ns
		}
		src := "src/main/java"
		mp, sp, cp := eff+".model", eff+".server", eff+".client"
		header := "//\n// Generated by sadl\n//\n"
		if custom&1 != 0 {
			src = "gen/sources"
			put("source", src)
			header = "// mine\n"
			put("header", header)
		}
		if custom&2 != 0 {
			mp, sp, cp = "x.models", "y", "z.cl.ient"
			put("model-package", mp)
			put("server-package", sp)
			put("client-package", cp)
		}
		want := map[string]string{} // file to package
		if parts&1 != 0 {
			put("model", false)
		} else {
			for _, t := range []string{"Rec", "Col", "Err", "Missing", n, "PingRequest", "PingResponse"} {
				want[t] = mp
			}
		}
		if parts&2 != 0 {
			put("server", true)
			want[n+"Resources"] = sp
			if impl {
				put("example-implementation", true)
				want["Main"], want[n+"Controller"] = "", ""
			}
		}
		if parts&4 != 0 {
			put("client", true)
			want[n+"Client"], want["ClientConfig"] = cp, cp
		}
		dir := filepath.Join(r.Scratch, "place")
		os.RemoveAll(dir)
		defer os.RemoveAll(dir)
		if err := java.Export(m, dir, conf); err != nil {
			r.Fail("error", "%v", err)
			return
		}
		var got []string
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() {
				return nil
			}
			rel, _ := filepath.Rel(dir, p)
			got = append(got, rel)
			cls := strings.TrimSuffix(filepath.Base(p), ".java")
			if cls == "Util" || cls == "Timestamp" || cls == "ServiceException" {
				return nil // helpers
			}
			pk, ok := want[cls]
			if !ok {
				r.Fail("extra-file", "unexpected file %s", rel)
				return nil
			}
			delete(want, cls)
			if exp := filepath.Join(src, strings.ReplaceAll(pk, ".", "/"), cls+".java"); rel != exp {
				r.Fail("place", "%s is written to %s, want %s", cls, rel, exp)
			}
			b, _ := os.ReadFile(p)
			decl := ""
			if pk != "" {
				decl = "package " + pk + ";"
			}
			found := ""
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(strings.TrimSpace(l), "package ") {
					found = strings.TrimSpace(l)
				}
			}
			if found != decl || !strings.HasPrefix(string(b), header) {
				r.Fail("package", "%s begins with %q", rel, clipN(string(b), 120))
			}
			return nil
		})
		for f, p := range want {
			r.Fail("missing-file", "%s is not written in package %s", f, p)
		}
		sort.Strings(got)
		r.Outcome("%v", got)
	}
}
