package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/graphql"
	"verif/mc"
)

// a small reader of the GraphQL schema language, independent of the library's importer

type gqlField struct{ name, typ string }
type gqlDef struct {
	kind, name string
	fields     []gqlField // type
	names      []string   // enum symbols, union variants
}

func gqlTokens(text string) ([]string, error) {
	var toks []string
	for _, line := range strings.Split(text, "\n") {
		i := 0
		for i < len(line) {
			ch := line[i]
			switch {
			case ch == '#':
				i = len(line)
			case ch == ' ' || ch == '\t' || ch == ',':
				i++
			case strings.IndexByte("{}()[]!:|=&@", ch) >= 0:
				toks = append(toks, string(ch))
				i++
			case ch == '_' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z':
				j := i
				for j < len(line) && (line[j] == '_' || line[j] >= '0' && line[j] <= '9' || line[j] >= 'a' && line[j] <= 'z' || line[j] >= 'A' && line[j] <= 'Z') {
					j++
				}
				toks = append(toks, line[i:j])
				i = j
			default:
				return nil, fmt.Errorf("unexpected %q in %q", ch, line)
			}
		}
	}
	return toks, nil
}

func gqlParse(text string) (defs []*gqlDef, err error) {
	toks, err := gqlTokens(text)
	if err != nil {
		return nil, err
	}
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	pos := 0
	peek := func() string {
		if pos < len(toks) {
			return toks[pos]
		}
		return ""
	}
	next := func() string {
		t := peek()
		if t == "" {
			panic("unexpected end of the schema")
		}
		pos++
		return t
	}
	name := func() string {
		t := next()
		if !(t[0] == '_' || t[0] >= 'a' && t[0] <= 'z' || t[0] >= 'A' && t[0] <= 'Z') {
			panic("expected a name, found " + t)
		}
		return t
	}
	expect := func(s string) {
		if t := next(); t != s {
			panic("expected " + s + ", found " + t)
		}
	}
	var typ func() string
	typ = func() string {
		var s string
		if peek() == "[" {
			next()
			s = "[" + typ() + "]"
			expect("]")
		} else {
			s = name()
		}
		if peek() == "!" {
			next()
			s += "!"
		}
		return s
	}
	for pos < len(toks) {
		d := &gqlDef{kind: name(), name: name()}
		switch d.kind {
		case "type":
			expect("{")
			for peek() != "}" {
				f := gqlField{name: name()}
				expect(":")
				f.typ = typ()
				d.fields = append(d.fields, f)
			}
			expect("}")
			if len(d.fields) == 0 {
				panic("type " + d.name + " has no fields")
			}
		case "enum":
			expect("{")
			for peek() != "}" {
				d.names = append(d.names, name())
			}
			expect("}")
		case "union":
			expect("=")
			if peek() == "|" {
				next()
			}
			d.names = append(d.names, name())
			for peek() == "|" {
				next()
				d.names = append(d.names, name())
			}
		case "scalar":
		default:
			panic("unexpected definition " + d.kind)
		}
		defs = append(defs, d)
	}
	return defs, nil
}

func gqlScalar(t string, custom map[string]string) string {
	if c := custom[t]; c != "" {
		switch t {
		case "UUID", "Timestamp", "Int64", "Decimal":
			return c
		}
	}
	switch t {
	case "Bool":
		return "Boolean"
	case "Int8", "Int16", "Int32":
		return "Int"
	case "Int64", "Float32", "Float64", "Decimal":
		return "Float"
	case "String", "UUID", "Timestamp":
		return "String"
	}
	return ""
}

func gqlType(types refModel, ts *sadl.TypeSpec, custom map[string]string) string {
	if ts.Type == "Array" {
		return "[" + gqlType(types, &sadl.TypeSpec{Type: ts.Items}, custom) + "!]"
	}
	if s := gqlScalar(ts.Type, custom); s != "" {
		return s
	}
	if t := types[ts.Type]; t != nil {
		switch t.Type {
		case "Struct", "Enum", "Union":
			return ts.Type
		}
		return gqlType(types, t, custom)
	}
	return ts.Type
}

func checkGql(r *mc.R, schema *sadl.Schema, text string, custom map[string]string) {
	defs, err := gqlParse(text)
	if err != nil {
		r.Fail("syntax", "the exported schema does not parse: %v\n%s", err, text)
		return
	}
	known := map[string]int{"Int": 1, "Float": 1, "String": 1, "Boolean": 1, "ID": 1}
	byName := map[string]*gqlDef{}
	for _, d := range defs {
		known[d.name]++
		if known[d.name] > 1 {
			r.Fail("duplicate", "%s is defined more than once or redefines a built-in", d.name)
		}
		byName[d.name] = d
	}
	use := func(where, t string) {
		n := strings.Trim(t, "[]!")
		if known[n] == 0 {
			r.Fail("dangling", "%s refers to %s, which is not defined", where, n)
		}
	}
	types := refOf(schema)
	want := map[string]bool{}
	for _, t := range schema.Types {
		kind := map[string]string{"Struct": "type", "Enum": "enum", "Union": "union"}[t.Type]
		if kind == "" {
			continue
		}
		want[t.Name] = true
		d := byName[t.Name]
		if d == nil || d.kind != kind {
			r.Fail("missing", "%s %s is not exported", kind, t.Name)
			continue
		}
		switch kind {
		case "type":
			if len(d.fields) != len(t.Fields) {
				r.Fail("fields", "type %s has %d fields, want %d", t.Name, len(d.fields), len(t.Fields))
				continue
			}
			for i, f := range t.Fields {
				wt := gqlType(types, &f.TypeSpec, custom)
				if f.Required {
					wt += "!"
				}
				if d.fields[i].name != f.Name || d.fields[i].typ != wt {
					r.Fail("field", "field %d of %s is %s: %s, want %s: %s", i, t.Name, d.fields[i].name, d.fields[i].typ, f.Name, wt)
				}
				use(t.Name+"."+f.Name, d.fields[i].typ)
			}
		case "enum", "union":
			var ws []string
			for _, e := range t.Elements {
				ws = append(ws, e.Symbol)
			}
			for _, v := range t.Variants {
				ws = append(ws, v.Type)
				use(t.Name, v.Type)
			}
			if strings.Join(ws, " ") != strings.Join(d.names, " ") {
				r.Fail("names", "%s %s lists %v, want %v", kind, t.Name, d.names, ws)
			}
		}
	}
	for _, d := range defs {
		if d.kind != "scalar" && !want[d.name] {
			r.Fail("extra", "%s %s is not in the model", d.kind, d.name)
		}
	}
}

func gqlCustom(c *mc.C) (map[string]string, *sadl.Data) {
	conf := sadl.NewData()
	custom := map[string]string{}
	switch c.Choose(4) {
	case 1:
		custom["Timestamp"] = "DateTime"
	case 2:
		custom["Timestamp"], custom["UUID"], custom["Int64"], custom["Decimal"] = "Timestamp", "UUID", "Long", "BigDecimal"
	case 3:
		custom["Int64"], custom["Decimal"] = "BigNum", "BigNum"
	}
	m := jobj{}
	for k, v := range custom {
		m[k] = v
	}
	conf.Put("custom-scalars", m)
	return custom, conf
}

func gqlCase(schema *sadl.Schema, custom map[string]string, conf *sadl.Data, viaExport bool) mc.Case {
	return func(r *mc.R) {
		r.Input(func() string { return jsonOf(schema) + " custom=" + jsonOf(custom) })
		model, err := sadl.NewModel(cloneSchema(schema))
		if err != nil {
			panic(err)
		}
		var text string
		if viaExport {
			text = mc.Capture(func() { err = graphql.Export(model, conf) })
		} else {
			text, err = graphql.FromSadl(model, conf)
		}
		if err != nil {
			r.Fail("error", "export failed: %v", err)
			return
		}
		checkGql(r, schema, text, custom)
		r.Outcome("exported")
	}
}

var gqlComments = []string{"", "a field", "two\nlines", "# hash } type X {", "a\n}\n\ntype Evil {\n  x: Int"}

func gqlScalars() []sadl.TypeSpec {
	var m []sadl.TypeSpec
	for _, n := range scalarNames {
		if n != "Bytes" && n != "UnitValue" {
			m = append(m, tsOf(n))
		}
	}
	return append(m, ranged("Int32", "1", "2"), sadl.TypeSpec{Type: "String", Pattern: "^x"})
}

// gqlModel: named scalars, arrays of every item, enums, unions of structs, and a struct of drawn fields.
func gqlModel(c *mc.C, n int, importable bool) *sadl.Schema {
	var defs []*sadl.TypeDef
	var names []string
	defs = append(defs, td("Rec", structTS(fld("id", true, tsOf("String")))), td("Oth", structTS(fld("rec", false, tsOf("Rec")))), td("Col", enumTS("RED", "Green", "b_3")), td("One", enumTS("ONLY")), td("Un", unionTS("Rec", "Rec", "Oth", "Oth")))
	names = append(names, "Rec", "Col", "Un")
	for _, s := range gqlScalars() {
		if s.Min == nil && s.Pattern == "" {
			names = append(names, s.Type)
		}
	}
	if !importable {
		for i, s := range gqlScalars() {
			nm := fmt.Sprintf("Sc%d", i)
			defs = append(defs, td(nm, s))
			names = append(names, nm)
		}
		for i, it := range append([]string{}, names...) {
			nm := fmt.Sprintf("Ar%d", i)
			defs = append(defs, td(nm, arrTS(it)))
			names = append(names, nm)
		}
		defs = append(defs, td("Ars", arrTS("Ar0")))
		names = append(names, "Ars")
	}
	var specs []sadl.TypeSpec
	for _, nm := range names {
		specs = append(specs, tsOf(nm))
	}
	for _, nm := range names {
		specs = append(specs, arrTS(nm))
	}
	st := td("S", structTS())
	fn := []string{"zeta", "alpha_2", "midField"}
	for i := 0; i < n; i++ {
		var f *sadl.StructFieldDef
		if i == 0 {
			f = fld(fn[i], c.Bool(), specs[c.Choose(len(specs))])
			f.Comment = gqlComments[c.Dev(len(gqlComments))]
		} else {
			f = fld(fn[i], c.DevBool(), specs[c.Dev(len(specs))])
			f.Comment = gqlComments[c.Dev(len(gqlComments))]
		}
		st.Fields = append(st.Fields, f)
	}
	st.Comment = comments[c.Dev(len(comments))]
	types := append(defs, st)
	if c.DevBool() {
		types = append([]*sadl.TypeDef{st}, defs...)
	}
	switch c.Dev(6) {
	case 1:
		types = append(types, td("Loop", structTS(fld("next", false, tsOf("Loop")), fld("kids", true, arrTS("Loop")))))
	case 2:
		types = append(types, td("Un3", unionTS("S", "S", "Rec", "Rec", "Oth", "Oth")), td("Un1", unionTS("Rec", "Rec")))
	case 3:
		types = append(types, td("Big", enumTS("Z", "Y", "X", "W", "V")))
	case 4:
		types[len(types)-1], types[0] = types[0], types[len(types)-1]
	case 5:
		types = append(types, td("Last", structTS(fld("a", true, tsOf("Un")), fld("b", true, arrTS("Un")), fld("c", false, tsOf("Last")))))
	}
	// named scalars and arrays nothing refers to are left out
	used := map[string]bool{}
	by := map[string]*sadl.TypeDef{}
	for _, t := range types {
		by[t.Name] = t
	}
	var mark func(n string)
	mark = func(n string) {
		t := by[n]
		if t == nil || used[n] {
			return
		}
		used[n] = true
		mark(t.Items)
		for _, f := range t.Fields {
			mark(f.Type)
			mark(f.Items)
		}
	}
	for _, t := range types {
		if !strings.HasPrefix(t.Name, "Sc") && !strings.HasPrefix(t.Name, "Ar") {
			mark(t.Name)
		}
	}
	var kept []*sadl.TypeDef
	for _, t := range types {
		if used[t.Name] {
			kept = append(kept, t)
		}
	}
	return cloneSchema(&sadl.Schema{Name: "svc", Types: kept})
}

// gqlUnsupported: a model with one part that GraphQL cannot express.
func gqlUnsupported(c *mc.C) *sadl.Schema {
	bad := []sadl.TypeSpec{mapTS("String"), mapTS("Rec"), tsOf("Any"), tsOf("Bytes"), {Type: "UnitValue", Unit: "Col", Value: "Decimal"}, enumTS("A", "B"), structTS(fld("x", true, tsOf("String"))), unionTS("Rec", "Rec")}
	b := bad[c.Choose(len(bad))]
	rec, col := td("Rec", structTS(fld("id", true, tsOf("String")))), td("Col", enumTS("RED", "Green"))
	types := []*sadl.TypeDef{rec, col}
	st := td("S", structTS(fld("ok", true, tsOf("String"))))
	inline := b.Type == "Enum" || b.Type == "Struct" || b.Type == "Union"
	if c.Bool() { // inline
		st.Fields = append(st.Fields, fld("bad", c.Bool(), b))
		switch c.Choose(3) {
		case 1:
			st.Fields[0], st.Fields[1] = st.Fields[1], st.Fields[0]
		case 2:
			if !inline && b.Type != "Map" && b.Type != "UnitValue" {
				st.Fields[1].TypeSpec = arrTS(b.Type)
			}
		}
		types = append(types, st)
	} else if inline { // a named enum or union among the variants
		nm := td("Bad", b)
		un := unionTS("Rec", "Rec", "Bad", "Bad")
		if b.Type == "Struct" {
			un = unionTS("Rec", "Rec", "String", "String")
		}
		if c.Bool() {
			un.Variants[0], un.Variants[1] = un.Variants[1], un.Variants[0]
		}
		types = append(types, nm, st, td("Un", un))
	} else { // named, used or not
		types = append(types, st)
		switch c.Choose(3) {
		case 1:
			st.Fields = append(st.Fields, fld("bad", c.Bool(), tsOf("Bad")))
		case 2:
			st.Fields = append(st.Fields, fld("bad", c.Bool(), arrTS("Bad")))
		}
		types = append(types, td("Bad", b))
		if c.Bool() {
			types[0], types[len(types)-1] = types[len(types)-1], types[0]
		}
	}
	return cloneSchema(&sadl.Schema{Name: "svc", Types: types})
}

// ---- import

type gdoc struct {
	text  strings.Builder
	types []*sadl.TypeDef
}

func (g *gdoc) p(f string, a ...interface{}) { fmt.Fprintf(&g.text, f, a...) }

func gqlImportSpec(t string) (sadl.TypeSpec, bool) {
	req := strings.HasSuffix(t, "!")
	t = strings.TrimSuffix(t, "!")
	conv := func(n string) string {
		switch n {
		case "Int":
			return "Int32"
		case "Float":
			return "Float64"
		case "Boolean":
			return "Bool"
		}
		return n
	}
	if t[0] == '[' {
		return arrTS(conv(strings.Trim(t, "[]!"))), req
	}
	return tsOf(conv(t)), req
}

func flat(s string) string { return strings.Replace(s, "\n", " ", -1) }

func gqlDesc(c *mc.C) (string, string) {
	switch c.Dev(6) {
	case 4:
		return "\"\"\"\none\ntwo\nthree\nfour\n\"\"\"\n", "one two three four"
	case 5:
		return "# a remark, no description\n\"says \\\"x\\\" # } \"\n", "says \"x\" # } "
	case 1:
		return "\"\"\"a note\"\"\"\n", "a note"
	case 2:
		return "\"short\"\n", "short"
	case 3:
		return "\"\"\"\nfirst\nsecond\n\"\"\"\n", "first second"
	}
	return "", ""
}

// gqlDirective: directives carry no types.
func gqlDirective(c *mc.C) string {
	return []string{"", " @deprecated", " @deprecated(reason: \"old\")"}[c.Dev(3)]
}

// gqlNamesCase: definitions on their own and in pairs, whose names are near those of built-in types.
func gqlNamesCase(c *mc.C) (string, []*sadl.TypeDef) {
	names := []string{"Id", "Ids", "Url", "URL", "int", "Ints", "Floaty", "string", "bool", "Query", "Mutation", "Schema", "Types", "Date", "Rec_2", "_R"}
	text, types := "", []*sadl.TypeDef{{Name: "ID", Comment: "*", TypeSpec: tsOf("String")}}
	used := map[string]bool{}
	for i := 0; i < 2; i++ {
		n := names[c.Choose(len(names))]
		if used[n] {
			return "", nil
		}
		used[n] = true
		switch c.Choose(4) {
		case 0:
			if i == 0 {
				return "", nil
			}
			continue
		case 1:
			text += "type " + n + " {\n  own: " + n + "\n  all: [" + n + "!]!\n  id: ID!\n}\n"
			types = append(types, td(n, structTS(fld("own", false, tsOf(n)), fld("all", true, arrTS(n)), fld("id", true, tsOf("ID")))))
		case 2:
			text += "enum " + n + " {\n  ID\n  Int\n  type\n}\n"
			types = append(types, td(n, enumTS("ID", "Int", "type")))
		case 3:
			text += "union " + n + " = A_" + n + " | B_" + n + "\ntype B_" + n + " {\n  x: Float\n}\ntype A_" + n + " {\n  y: Boolean\n}\n"
			types = append(types, td(n, unionTS("A_"+n, "A_"+n, "B_"+n, "B_"+n)), td("B_"+n, structTS(fld("x", false, tsOf("Float64")))), td("A_"+n, structTS(fld("y", false, tsOf("Bool")))))
		}
	}
	switch c.Choose(3) {
	case 1:
		text = strings.TrimSuffix(text, "\n")
	case 2:
		text = strings.ReplaceAll(text, "\n", "\r\n")
	}
	return text, types
}

func drawGdoc(c *mc.C) *gdoc {
	g := &gdoc{types: []*sadl.TypeDef{{Name: "ID", Comment: "*", TypeSpec: tsOf("String")}}}
	ftypes := []string{}
	for _, n := range []string{"Int", "Float", "String", "Boolean", "ID", "Rec", "Col", "Un", "UUID", "Timestamp"} {
		for _, f := range []string{"%s", "%s!", "[%s]", "[%s!]", "[%s]!", "[%s!]!"} {
			ftypes = append(ftypes, fmt.Sprintf(f, n))
		}
	}
	emitSchema := c.Dev(4)
	roots := [][]string{{"query", "mutation"}, {"query"}, {"query", "mutation", "subscription"}, {"subscription", "query"}}[c.Dev(4)]
	rootType := map[string]string{"query": "Query", "mutation": "Mut", "subscription": "Sub"}
	ops := func() {
		g.p("schema {\n")
		for _, k := range roots {
			g.p("  %s: %s\n", k, rootType[k])
		}
		g.p("}\n")
	}
	opTypes := func() {
		for _, k := range roots {
			g.p("type %s {\n  get(id: ID!): Rec\n}\n", rootType[k])
		}
	}
	if emitSchema == 1 {
		ops()
		opTypes()
	}
	if emitSchema == 2 {
		opTypes()
	}
	g.p("scalar Timestamp\nscalar UUID\n")
	parts := []func(){
		func() {
			d, cm := gqlDesc(c)
			g.p("%stype Rec {\n", d)
			t := &sadl.TypeDef{Name: "Rec", Comment: cm, TypeSpec: structTS()}
			n := 1 + c.Dev(3)
			for i := 0; i < n; i++ {
				var ft string
				if i == 0 {
					ft = ftypes[c.Choose(len(ftypes))]
				} else {
					ft = ftypes[c.Dev(len(ftypes))]
				}
				fd, fc := gqlDesc(c)
				name := []string{"zz", "aa_1", "mM"}[i]
				g.p("%s  %s: %s%s\n", fd, name, ft, gqlDirective(c))
				ts, req := gqlImportSpec(ft)
				f := fld(name, req, ts)
				f.Comment = fc
				t.Fields = append(t.Fields, f)
			}
			g.p("}\n")
			g.types = append(g.types, t)
		},
		func() {
			d, cm := gqlDesc(c)
			g.p("%senum Col {\n", d)
			t := &sadl.TypeDef{Name: "Col", Comment: cm, TypeSpec: sadl.TypeSpec{Type: "Enum"}}
			syms := []string{"RED", "green", "B_3"}[:3-c.Dev(3)]
			for _, s := range syms {
				ed, ec := gqlDesc(c)
				g.p("%s  %s%s\n", ed, s, gqlDirective(c))
				t.Elements = append(t.Elements, &sadl.EnumElementDef{Symbol: s, Comment: ec})
			}
			g.p("}\n")
			g.types = append(g.types, t)
		},
		func() {
			d, cm := gqlDesc(c)
			t := &sadl.TypeDef{Name: "Un", Comment: cm, TypeSpec: sadl.TypeSpec{Type: "Union"}}
			vs := [][]string{{"Rec", "Oth"}, {"Oth", "Rec"}, {"Oth"}}[c.Dev(3)]
			g.p("%sunion Un = %s\n", d, strings.Join(vs, " | "))
			for _, v := range vs {
				t.Variants = append(t.Variants, &sadl.UnionVariantDef{Name: v, TypeSpec: tsOf(v)})
			}
			g.types = append(g.types, t)
			g.p("type Oth {\n  b: Boolean!\n}\n")
			g.types = append(g.types, td("Oth", structTS(fld("b", true, tsOf("Bool")))))
		},
	}
	order := [][]int{{0, 1, 2}, {2, 1, 0}, {1, 0, 2}}[c.Dev(3)]
	for _, i := range order {
		parts[i]()
	}
	if emitSchema == 2 {
		ops()
	}
	if emitSchema == 3 {
		opTypes()
		ops()
	}
	return g
}

// gqlRejected: schema text the importer does not support (lists of lists in every null form, scalars it does not know,
// other definitions), text that does not parse, and file lists it does not take.
func gqlRejected(c *mc.C) (string, int) {
	kind := c.Choose(4)
	nn := func() string { return []string{"", "!"}[c.Choose(2)] }
	pre, post := "", ""
	switch c.Choose(3) {
	case 1:
		pre = "  ok: Int\n"
	case 2:
		post = "  ok: [Int!]\n"
	}
	switch kind {
	case 0: // lists of lists
		t := []string{"Int", "T", "ID"}[c.Choose(3)]
		s := "[" + t + nn() + "]" + nn()
		for d := 1 + c.Choose(2); d > 0; d-- {
			s = "[" + s + "]" + nn()
		}
		return "type T {\n" + pre + "  bad: " + s + "\n" + post + "}\n", 1
	case 1:
		def := []string{"scalar Money\n", "scalar Decimal\n", "scalar Int64\n", "scalar Date\n", "scalar timestamp\n", "scalar UUIDs\n", "scalar Any\n", "directive @d on FIELD\n", "{ q }\n", "query Q { q }\n", "fragment F on T { ok }\n"}[c.Choose(11)]
		t := "type T {\n  a: Int\n" + pre + post + "}\n"
		if c.Bool() {
			return t + def, 1
		}
		return def + t, 1
	case 2:
		return []string{"type T {\n" + pre + "  a: \n}\n", "type T {\n" + pre + "  a: [Int\n}\n", "type T {\n  a: Int\n" + post, "enum {\n  A\n}\n" + post, "union U = |\n" + pre, "type T }\n" + post, "\"\"\"open\ntype T {\n  a: Int\n}\n"}[c.Choose(7)], 1
	}
	return "type T {\n  a: Int\n" + pre + post + "}\n", []int{-1, 0, 2}[c.Choose(3)]
}

func importGql(r *mc.R, text string) (*sadl.Model, error) {
	f := filepath.Join(r.Scratch, "m.graphql")
	if err := os.WriteFile(f, []byte(text), 0644); err != nil {
		panic(err)
	}
	defer os.Remove(f)
	conf := sadl.NewData()
	conf.Put("name", "given")
	return graphql.Import([]string{f}, conf)
}

func gqlImportCase(text string, types []*sadl.TypeDef) mc.Case {
	return func(r *mc.R) {
		r.Input(func() string { return text })
		m, err := importGql(r, text)
		if err != nil {
			r.Fail("error", "import failed: %v", err)
			return
		}
		if m.Name != "given" {
			r.Fail("name", "model name %q", m.Name)
		}
		got := cloneSchema(&m.Schema)
		for _, t := range got.Types {
			if t.Name == "ID" {
				t.Comment = "*"
			}
		}
		if d := diffOf(types, got.Types); d != "" {
			r.Fail("types", "imported types differ at %s (schema vs model)\n%s", d, jsonOf(got.Types))
		}
	}
}

// gqlVaried: the rich model without what GraphQL cannot express, with one variation (or two).
func gqlVaried(c *mc.C) *sadl.Schema {
	s, _ := varied(c, "comment annotation fname required symbol size bound pattern union schema", c.Thorough())
	if s == nil {
		return nil
	}
	var types []*sadl.TypeDef
	for _, t := range s.Types {
		if t.Type == "Map" {
			continue
		}
		var fs []*sadl.StructFieldDef
		for _, f := range t.Fields {
			if f.Type != "Map" && f.Type != "Mp" {
				fs = append(fs, f)
			}
		}
		t.Fields = fs
		for _, v := range t.Variants {
			if v.Type == "String" {
				return nil
			}
		}
		if len(t.Variants) == 2 && t.Variants[0].Type == t.Variants[1].Type {
			return nil
		}
		types = append(types, t)
	}
	s.Types = types
	s.Http = nil
	return s
}

func init() {
	mc.Register(&mc.Prop{ID: "C17",
		Bounds:      "models with named scalars of every supported kind, named arrays of every item type, enums, unions of structs, and a struct of 1-3 fields: the first over every named and inline array/scalar/struct/enum/union type x required x 5 comments (with line breaks and braces), others by up to 1 (2) deviations; 4 custom-scalar configurations; through FromSadl and through Export; every variation (pair of variations) of names, comments, annotations, constraints, symbols and union variants of a model with every expressible kind of definition; every way to use one of 8 inexpressible types as a field, item, variant or definition",
		Assumptions: []string{"structs have at least one field; HTTP actions and examples are not exported"},
		Harnesses: []mc.Harness{
			{Name: "fields", Quick: 1, Deep: 2, Gen: func(c *mc.C) mc.Case {
				custom, conf := gqlCustom(c)
				return gqlCase(gqlModel(c, 2, false), custom, conf, false)
			}},
			{Name: "variety", Split: true, Gen: func(c *mc.C) mc.Case {
				custom, conf := gqlCustom(c)
				s := gqlVaried(c)
				if s == nil {
					return nil
				}
				return gqlCase(s, custom, conf, false)
			}},
			{Name: "command", Quick: 1, Deep: 1, Gen: func(c *mc.C) mc.Case {
				custom, conf := gqlCustom(c)
				return gqlCase(gqlModel(c, 1, true), custom, conf, true)
			}},
			{Name: "unsupported", Quick: 1, Deep: 1, Gen: func(c *mc.C) mc.Case {
				schema, cmd := gqlUnsupported(c), c.Bool()
				return func(r *mc.R) {
					r.Input(func() string { return jsonOf(schema) })
					model, err := sadl.NewModel(cloneSchema(schema))
					if err != nil {
						panic(err)
					}
					var text string
					if cmd {
						text = mc.Capture(func() { err = graphql.Export(model, sadl.NewData()) })
					} else {
						text, err = graphql.FromSadl(model, sadl.NewData())
					}
					if err == nil {
						r.Fail("accepted", "a model GraphQL cannot express is exported without an error\n%s", text)
					} else if err.Error() == "" {
						r.Fail("message", "the error has no message")
					}
					r.Outcome("rejected")
				}
			}},
		}})
	mc.Register(&mc.Prop{ID: "C18",
		Bounds:      "import: schemas with an object type of 1-3 fields (the first over 10 types x 6 list/non-null forms, others by deviation), an enum of 1-3 symbols, a union of 1-2 variants, in 3 orders, with 6 description forms and 3 directives on every element and the operation types declared before, around or after, up to 2 (3) deviations; rejection: lists of lists in every null form to depth 3, 11 unsupported definitions, 7 malformed texts, 0, 2 or missing files; single definitions and pairs over 16 names near those of built-in types; name and namespace given or not; round trip: every model of C17 restricted to inline arrays",
		Assumptions: []string{"interfaces and inputs are outside the supported subset (they are skipped); the predefined ID type is always added"},
		Harnesses: []mc.Harness{
			{Name: "import", Quick: 2, Deep: 3, Gen: func(c *mc.C) mc.Case {
				g := drawGdoc(c)
				return gqlImportCase(g.text.String(), g.types)
			}},
			{Name: "names", Gen: func(c *mc.C) mc.Case {
				text, types := gqlNamesCase(c)
				if types == nil {
					return nil
				}
				return gqlImportCase(text, types)
			}},
			{Name: "rejected", Quick: 1, Deep: 1, Gen: func(c *mc.C) mc.Case {
				text, files := gqlRejected(c)
				return func(r *mc.R) {
					r.Input(func() string { return fmt.Sprint(files, " files\n", text) })
					var paths []string
					for i := 0; i < files; i++ {
						f := filepath.Join(r.Scratch, fmt.Sprintf("m%d.graphql", i))
						if err := os.WriteFile(f, []byte(text), 0644); err != nil {
							panic(err)
						}
						defer os.Remove(f)
						paths = append(paths, f)
					}
					if files < 0 {
						paths = []string{filepath.Join(r.Scratch, "missing.graphql")}
					}
					m, err := graphql.Import(paths, sadl.NewData())
					if err == nil {
						r.Fail("accepted", "imported without an error as %s", jsonOf(m.Types))
					} else if err.Error() == "" {
						r.Fail("message", "the error has no message")
					}
					r.Outcome("rejected")
				}
			}},
			{Name: "named", Quick: 0, Deep: 0, Gen: func(c *mc.C) mc.Case {
				nm, ns := []string{"", "svc"}[c.Choose(2)], []string{"", "a.b"}[c.Choose(2)]
				return func(r *mc.R) {
					r.Input(func() string { return nm + " " + ns })
					f := filepath.Join(r.Scratch, "m.graphql")
					if err := os.WriteFile(f, []byte("type T {\n  a: Int\n}\n"), 0644); err != nil {
						panic(err)
					}
					defer os.Remove(f)
					conf := sadl.NewData()
					if nm != "" {
						conf.Put("name", nm)
					}
					if ns != "" {
						conf.Put("namespace", ns)
					}
					m, err := graphql.Import([]string{f}, conf)
					if err != nil {
						r.Fail("error", "import failed: %v", err)
						return
					}
					if nm != "" && m.Name != nm || m.Name == "" || m.Namespace != ns {
						r.Fail("name", "name %q namespace %q, want %q %q", m.Name, m.Namespace, nm, ns)
					}
				}
			}},
			{Name: "roundtrip", Quick: 1, Deep: 2, Gen: func(c *mc.C) mc.Case {
				s := gqlModel(c, 2, true)
				return func(r *mc.R) {
					r.Input(func() string { return jsonOf(s) })
					model, err := sadl.NewModel(cloneSchema(s))
					if err != nil {
						panic(err)
					}
					text, err := graphql.FromSadl(model, sadl.NewData())
					if err != nil {
						r.Fail("export", "export failed: %v", err)
						return
					}
					m, err := importGql(r, text)
					if err != nil {
						r.Fail("import", "import of the exported schema failed: %v\n%s", err, text)
						return
					}
					want := cloneSchema(s)
					sc := func(n string) string {
						switch gqlScalar(n, nil) {
						case "Int":
							return "Int32"
						case "Float":
							return "Float64"
						case "String":
							return "String"
						}
						return n
					}
					for _, t := range want.Types {
						t.Comment = ""
						for _, f := range t.Fields {
							f.Comment = ""
							f.Pattern, f.Min, f.Max = "", nil, nil
							f.Type = sc(f.Type)
							if f.Items != "" {
								f.Items = sc(f.Items)
							}
						}
					}
					got := cloneSchema(&m.Schema)
					var ts []*sadl.TypeDef
					for _, t := range got.Types {
						t.Comment = ""
						for _, f := range t.Fields {
							f.Comment = ""
						}
						if t.Name != "ID" {
							ts = append(ts, t)
						}
					}
					if d := diffOf(want.Types, ts); d != "" {
						r.Fail("roundtrip", "export then import changed the types at %s\n%s", d, text)
					}
				}
			}},
		}})
}
