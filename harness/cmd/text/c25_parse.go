package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"verif/mc"
)

// A printer of schemas as SADL text, written from the grammar and independent of the library's own. Every freedom the
// grammar leaves is a field of layout; alternative 0 is the plain style.
type layout struct {
	gap      string // between tokens
	tight    bool   // nothing before ( and {
	blank    int    // blank lines between statements
	end      string // what ends a statement
	body     int    // 0: one element per line; 1: one line, separated by ;  2: one line, separated by ,
	enumSep  string
	optSep   string
	optCase  int
	eq       string
	list     bool // List for Array
	bare     bool // leave out what is the default anyway
	place    int  // of comments
	reverse  bool // options in reverse order
	eof      bool // no line end at the end of the file
	angle    bool // Union<A,B> where possible
	lower    bool // method in lower case
	action   string
	pretty   bool // literals over several lines
	required bool // write "required" where it is implied
	block    bool // block comments before statements
	indent   string
}

func drawLayout(c *mc.C, body bool) layout {
	var l layout
	l.gap = []string{" ", "\t", "  ", " /* block */ ", " /* two\nlines */ "}[c.Dev(5)]
	l.tight = c.DevBool()
	l.blank = c.Dev(3)
	l.end = []string{"", ";", " ;", ";;"}[c.Dev(4)]
	if body {
		l.body = c.Dev(3)
	}
	l.enumSep = []string{"\n", ",\n", ";\n", ", ", " ; ", " ", "\n\n"}[c.Dev(7)]
	l.optSep = []string{", ", " ", ",", " , "}[c.Dev(4)]
	l.optCase = c.Dev(3)
	l.eq = []string{"=", " = "}[c.Dev(2)]
	l.list = c.DevBool()
	l.bare = c.DevBool()
	l.place = c.Dev(9)
	l.reverse = c.DevBool()
	l.eof = c.DevBool()
	l.angle = c.DevBool()
	l.lower = c.DevBool()
	l.action = []string{"action", "operation"}[c.Dev(2)]
	l.pretty = c.DevBool()
	l.required = c.DevBool()
	l.block = c.DevBool()
	l.indent = []string{"    ", "\t", ""}[c.Dev(3)]
	return l
}

// words of a comment as the reader sees it: the lines, trimmed and joined.
func flat(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, " ")
}

type printer struct {
	layout
	b *strings.Builder
}

// comment gives the parts of a comment to print before a statement, after its opening brace, and at its end.
func (p *printer) comment(ind, text string, block bool) (lead, open, trail string) {
	if p.block {
		lead = ind + "/* not a comment of anything */\n"
	}
	if flat(text) == "" {
		return lead, "", ""
	}
	lines := func(l []string) string {
		s := ""
		for _, x := range l {
			s += ind + "// " + x + "\n"
		}
		return s
	}
	one := flat(text)
	first, rest := one, ""
	if i := strings.Index(one, " "); i > 0 {
		first, rest = one[:i], one[i+1:]
	}
	t := func(s string) string {
		if s == "" {
			return ""
		}
		return " // " + s
	}
	switch p.place {
	case 0:
		return lead + lines(strings.Split(text, "\n")), "", ""
	case 1:
		return lead, "", t(one)
	case 2:
		return lead + lines([]string{first}), "", t(rest)
	case 3:
		return lead + lines(strings.Split(one, " ")), "", ""
	case 4:
		return lead + lines([]string{one}) + "\n", "", ""
	case 5:
		return lead + ind + "//" + one + "\n", "", ""
	case 6:
		if block {
			return lead, t(one), ""
		}
		return lead, "", t(one)
	case 7:
		if block {
			return lead + lines([]string{first}), t(rest), ""
		}
		return lead + lines([]string{first}) + "\n" + lines([]string{"", rest}), "", ""
	default:
		if block {
			return lead, t(first), t(rest)
		}
		return lead + ind + "//   " + one + "  \n", "", ""
	}
}

func (p *printer) key(k string) string {
	switch p.optCase {
	case 1:
		return strings.ToUpper(k)
	case 2:
		return strings.ToUpper(k[:1]) + k[1:]
	}
	return k
}

func (p *printer) opt(k, v string) string { return p.key(k) + p.eq + v }

func (p *printer) annos(a map[string]string) []string {
	var out []string
	for k := range a {
		out = append(out, k)
	}
	sort.Strings(out)
	for i, k := range out {
		if v := a[k]; v != "" || p.bare {
			out[i] = k + p.eq + `"` + v + `"`
		}
	}
	return out
}

func (p *printer) options(l []string) string {
	if len(l) == 0 {
		return ""
	}
	if p.reverse {
		r := []string{}
		for i := range l {
			r = append(r, l[len(l)-1-i])
		}
		l = r
	}
	s := "(" + strings.Join(l, p.optSep) + ")"
	if p.tight {
		return s
	}
	return p.gap + s
}

func (p *printer) brace() string {
	if p.tight {
		return "{"
	}
	return p.gap + "{"
}

func (p *printer) literal(v interface{}) string {
	b, err := json.Marshal(v)
	if p.pretty {
		b, err = json.MarshalIndent(v, "", "  ")
	}
	if err != nil {
		panic(err)
	}
	return string(b)
}

func quoted(s string) string { return `"` + s + `"` }

func (p *printer) constraints(ts *sadl.TypeSpec) []string {
	var o []string
	if ts.Pattern != "" {
		o = append(o, p.opt("pattern", quoted(ts.Pattern)))
	}
	if ts.Values != nil {
		var v []string
		for _, x := range ts.Values {
			v = append(v, quoted(x))
		}
		sep := ", "
		if p.pretty {
			sep = ",\n"
		}
		o = append(o, p.opt("values", "["+strings.Join(v, sep)+"]"))
	}
	if ts.MinSize != nil {
		o = append(o, p.opt("minsize", fmt.Sprint(*ts.MinSize)))
	}
	if ts.MaxSize != nil {
		o = append(o, p.opt("maxsize", fmt.Sprint(*ts.MaxSize)))
	}
	if ts.Min != nil {
		o = append(o, p.opt("min", ts.Min.String()))
	}
	if ts.Max != nil {
		o = append(o, p.opt("max", ts.Max.String()))
	}
	if ts.Reference != "" {
		o = append(o, p.opt("reference", ts.Reference))
	}
	return o
}

// elements lays out the elements of a block, each given as its leading comment, text and trailing comment.
func (p *printer) elements(ind, sep string, l [][3]string) string {
	s := ""
	for i, e := range l {
		if p.body > 0 && e[0] == "" && e[2] == "" {
			s += " " + e[1]
			if i < len(l)-1 {
				s += []string{"", ";", ","}[p.body]
			}
			if i < len(l)-1 && l[i+1][0] != "" {
				s += "\n"
			}
			continue
		}
		if p.body > 0 && (i == 0 || l[i-1][2] == "" && l[i-1][0] == "") && e[0] != "" && !strings.HasSuffix(s, "\n") {
			s += "\n"
		}
		s += e[0] + ind + e[1] + sep + e[2] + "\n" + strings.Repeat("\n", p.blank)
	}
	return s
}

// typeSpec prints a specification; what comes after an inline body is left to the caller.
func (p *printer) typeSpec(ind string, ts *sadl.TypeSpec, heads []string, open string) string {
	switch ts.Type {
	case "Array":
		n := "Array"
		if p.list {
			n = "List"
		}
		if ts.Items == "Any" && p.bare {
			return n
		}
		return n + "<" + ts.Items + ">"
	case "Map":
		if ts.Items == "Any" && ts.Keys == "String" && p.bare {
			return "Map"
		}
		return "Map<" + ts.Keys + p.optSep + ts.Items + ">"
	case "UnitValue":
		if ts.Value == "" || ts.Value == "Decimal" && ts.Unit == "String" && p.bare {
			return "UnitValue"
		}
		return "UnitValue<" + ts.Value + "," + ts.Unit + ">"
	case "Struct":
		if len(ts.Fields) == 0 && p.bare && open == "" {
			return "Struct" + p.options(heads)
		}
		var l [][3]string
		for _, f := range ts.Fields {
			lead, op, trail := p.comment(ind+p.indent, f.Comment, f.Type == "Struct" || f.Type == "Enum")
			l = append(l, [3]string{lead, p.field(ind+p.indent, f, op), trail})
		}
		return "Struct" + p.options(heads) + p.brace() + open + p.nl(open) + p.elements(ind+p.indent, p.end, l) + ind + "}"
	case "Enum":
		s := "Enum" + p.options(heads) + p.brace() + open + p.nl(open)
		for _, e := range ts.Elements {
			lead, _, trail := p.comment(ind+p.indent, e.Comment, false)
			if lead != "" && !strings.HasSuffix(s, "\n") {
				s += "\n"
			}
			s += lead + ind + p.indent + e.Symbol + p.options(p.annos(e.Annotations))
			if trail != "" {
				s += strings.TrimRight(p.enumSep, "\n ") + trail + "\n"
			} else {
				s += p.enumSep
			}
		}
		return s + ind + "}"
	case "Union":
		angle := p.angle && open == "" && len(heads) == 0
		var l [][3]string
		var names []string
		for _, v := range ts.Variants {
			angle = angle && v.Name == v.Type && v.Comment == "" && len(v.Annotations) == 0
			names = append(names, v.Type)
			lead, op, trail := p.comment(ind+p.indent, v.Comment, v.Type == "Struct" || v.Type == "Enum")
			l = append(l, [3]string{lead, p.field(ind+p.indent, &sadl.StructFieldDef{Name: v.Name, Annotations: v.Annotations, TypeSpec: v.TypeSpec}, op), trail})
		}
		if angle {
			return "Union<" + strings.Join(names, ",") + ">"
		}
		return "Union" + p.options(heads) + p.brace() + open + p.nl(open) + p.elements(ind+p.indent, p.end, l) + ind + "}"
	}
	return ts.Type
}

func (p *printer) nl(open string) string {
	if p.body > 0 && open == "" {
		return ""
	}
	return "\n"
}

func inlineBody(t string) bool { return t == "Struct" || t == "Enum" || t == "Union" }

func (p *printer) field(ind string, f *sadl.StructFieldDef, open string) string {
	if f.Type == "Struct" && p.bare { // without a body, its options would be taken for those of the type
		q := *p
		q.bare = false
		p = &q
	}
	o := p.constraints(&f.TypeSpec)
	if f.Required {
		o = append(o, p.key("required"))
	}
	if f.Default != nil {
		o = append(o, p.opt("default", p.literal(f.Default)))
	}
	var heads []string
	if inlineBody(f.Type) && p.reverse {
		heads = p.annos(f.Annotations)
	} else {
		o = append(o, p.annos(f.Annotations)...)
	}
	return f.Name + p.gap + p.typeSpec(ind, &f.TypeSpec, heads, open) + p.options(o)
}

func (p *printer) param(ind string, f *sadl.HttpParamSpec, implied bool) [3]string {
	lead, _, trail := p.comment(ind, f.Comment, false)
	var o []string
	if f.Header != "" {
		o = append(o, p.opt("header", quoted(f.Header)))
	}
	if f.Required && (!implied || p.required) {
		o = append(o, p.key("required"))
	}
	if f.Default != nil {
		o = append(o, p.opt("default", p.literal(f.Default)))
	}
	o = append(o, p.annos(f.Annotations)...)
	return [3]string{lead, f.Name + p.gap + p.typeSpec(ind, &f.TypeSpec, nil, "") + p.options(o), trail}
}

func (p *printer) stmt(lead, text, trail string) {
	p.b.WriteString(strings.Repeat("\n", p.blank) + lead + text + p.end + trail + "\n")
}

func (p *printer) directive(text, trail string) {
	p.b.WriteString(text + p.end + trail + "\n")
}

// defaultName of an action: its method and the last fixed segment of its path.
func defaultName(h *sadl.HttpDef) (name, resource string) {
	resource = h.Resource
	if resource == "" {
		path := strings.SplitN(h.Path, "?", 2)[0]
		for _, seg := range strings.Split(path, "/") {
			if seg != "" && !strings.Contains(seg, "{") {
				resource = seg
			}
		}
	}
	if resource == "" {
		return "", ""
	}
	return strings.ToLower(h.Method) + strings.ToUpper(resource[:1]) + resource[1:], resource
}

func (p *printer) schema(s *sadl.Schema) string {
	lead, _, _ := (&printer{layout: layout{place: p.place % 2 * 3}}).comment("", s.Comment, false)
	p.b.WriteString(lead)
	if s.Name != "" {
		p.directive("name"+p.gap+s.Name, "")
	}
	if s.Namespace != "" {
		p.directive("namespace"+p.gap+s.Namespace, "")
	}
	if s.Version != "" {
		p.directive("version"+p.gap+quoted(s.Version), "")
	}
	if s.Base != "" {
		p.directive("base"+p.gap+quoted(s.Base), "")
	}
	var ks []string
	for k := range s.Annotations {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if p.reverse {
			p.b.WriteString(k + p.eq + quoted(s.Annotations[k]) + "\n")
		} else if s.Annotations[k] == "" {
			p.b.WriteString(k + "\n")
		} else {
			p.b.WriteString(k + " " + quoted(s.Annotations[k]) + "\n")
		}
	}
	for _, t := range s.Types {
		lead, open, trail := p.comment("", t.Comment, inlineBody(t.Type) && !(len(t.Fields) == 0 && t.Type == "Struct" && p.bare))
		o := p.constraints(&t.TypeSpec)
		var heads []string
		if inlineBody(t.Type) {
			heads = p.annos(t.Annotations)
		} else {
			o = append(o, p.annos(t.Annotations)...)
		}
		p.stmt(lead, "type"+p.gap+t.Name+p.gap+p.typeSpec("", &t.TypeSpec, heads, open)+p.options(o), trail)
	}
	for _, h := range s.Http {
		lead, open, trail := p.comment("", h.Comment, true)
		m := h.Method
		if p.lower {
			m = strings.ToLower(m)
		}
		var o []string
		if dn, _ := defaultName(&sadl.HttpDef{Method: h.Method, Path: h.Path, Resource: h.Resource}); dn != h.Name {
			o = append(o, p.opt(p.action, h.Name))
		}
		if h.Resource != "" {
			o = append(o, p.opt("resource", h.Resource))
		}
		o = append(o, p.annos(h.Annotations)...)
		var l [][3]string
		for _, in := range h.Inputs {
			l = append(l, p.param(p.indent, in, in.Query == "" && in.Header == ""))
		}
		if x := h.Expected; x != nil {
			shorthand := len(x.Outputs) == 1 && x.Outputs[0].Name == "entity" && x.Outputs[0].Comment == ""
			lead, open, trail := p.comment(p.indent, x.Comment, !(shorthand || len(x.Outputs) == 0 && p.bare))
			t := "expect" + p.gap + fmt.Sprint(x.Status) + p.options(p.annos(x.Annotations))
			if shorthand {
				t += " " + x.Outputs[0].Type
			} else if len(x.Outputs) > 0 || !p.bare {
				var ol [][3]string
				for _, f := range x.Outputs {
					ol = append(ol, p.param(p.indent+p.indent, f, f.Header == "" && x.Status != 204 && x.Status != 304))
				}
				t += p.brace() + open + p.nl(open) + p.elements(p.indent+p.indent, p.end, ol) + p.indent + "}"
			}
			l = append(l, [3]string{lead, t, trail})
		}
		for _, e := range h.Exceptions {
			lead, _, trail := p.comment(p.indent, e.Comment, false)
			t := "except" + p.gap
			if e.Status != 0 {
				t += fmt.Sprint(e.Status) + p.gap
			}
			l = append(l, [3]string{lead, t + e.Type + p.options(p.annos(e.Annotations)), trail})
		}
		p.stmt(lead, "http"+p.gap+m+p.gap+quoted(h.Path)+p.options(o)+p.brace()+open+p.nl(open)+p.elements(p.indent, p.end, l)+"}", trail)
	}
	for _, x := range s.Operations {
		lead, _, trail := p.comment("", x.Comment, false)
		t := "operation" + p.gap + x.Name + p.options(p.annos(x.Annotations)) + p.brace() + "\n"
		part := func(name string, l [][3]string) {
			if len(l) > 0 {
				t += p.indent + name + p.brace() + "\n"
				for _, e := range l {
					t += e[0] + p.indent + p.indent + e[1] + e[2] + "\n" + strings.Repeat("\n", p.blank)
				}
				t += p.indent + "}\n"
			}
		}
		var ins, outs, excs [][3]string
		for _, f := range x.Inputs {
			lead, _, trail := p.comment(p.indent, f.Comment, false)
			var o []string
			if f.Required {
				o = append(o, "required")
			}
			ins = append(ins, [3]string{lead, f.Name + p.gap + f.Type + p.options(o), trail})
		}
		for _, f := range x.Outputs {
			lead, _, trail := p.comment(p.indent, f.Comment, false)
			outs = append(outs, [3]string{lead, f.Name + p.gap + f.Type, trail})
		}
		for _, e := range x.Exceptions {
			excs = append(excs, [3]string{"", e, ""})
		}
		part("inputs", ins)
		part("outputs", outs)
		part("exceptions", excs)
		p.stmt(lead, t+"}", trail)
	}
	for _, e := range s.Examples {
		lead, _, trail := p.comment("", e.Comment, false)
		var o []string
		if e.Name != "" {
			o = append(o, p.opt("name", e.Name))
		}
		o = append(o, p.annos(e.Annotations)...)
		p.stmt(lead, "example"+p.gap+e.Target+p.options(o)+p.gap+p.literal(e.Example), trail)
	}
	text := p.b.String()
	if p.eof {
		text = strings.TrimRight(text, "\n")
	}
	return text
}

// expected is the model that a text printed from s describes.
func expected(s *sadl.Schema) *sadl.Schema {
	s = cloneSchema(s)
	s.Sadl = sadl.Version
	s.Comment = flat(s.Comment)
	var fields func(l []*sadl.StructFieldDef)
	spec := func(ts *sadl.TypeSpec) {
		if ts.Type == "UnitValue" && ts.Value == "" {
			ts.Value, ts.Unit = "Decimal", "String"
		}
		fields(ts.Fields)
		for _, e := range ts.Elements {
			e.Comment = flat(e.Comment)
		}
		for _, v := range ts.Variants {
			v.Comment = flat(v.Comment)
		}
	}
	fields = func(l []*sadl.StructFieldDef) {
		for _, f := range l {
			f.Comment = flat(f.Comment)
			spec(&f.TypeSpec)
		}
	}
	for _, t := range s.Types {
		t.Comment = flat(t.Comment)
		spec(&t.TypeSpec)
	}
	for _, h := range s.Http {
		h.Comment = flat(h.Comment)
		if dn, res := defaultName(h); dn == h.Name {
			h.Resource = res
		}
		for _, p := range h.Inputs {
			p.Comment = flat(p.Comment)
			spec(&p.TypeSpec)
			p.Required = p.Required || p.Query == "" && p.Header == ""
		}
		if h.Expected != nil {
			h.Expected.Comment = flat(h.Expected.Comment)
			for _, p := range h.Expected.Outputs {
				p.Comment = flat(p.Comment)
				spec(&p.TypeSpec)
				p.Required = p.Required || p.Header == ""
			}
		}
		for _, e := range h.Exceptions {
			e.Comment = flat(e.Comment)
		}
	}
	for _, o := range s.Operations {
		o.Comment = flat(o.Comment)
		for _, f := range o.Inputs {
			f.Comment = flat(f.Comment)
		}
		for _, f := range o.Outputs {
			f.Comment = flat(f.Comment)
		}
	}
	for _, e := range s.Examples {
		e.Comment = flat(e.Comment)
	}
	return s
}

func sameSchema(r *mc.R, class string, want *sadl.Schema, got *sadl.Schema) bool {
	if d := diffOf(jcopy(want), jcopy(got)); d != "" {
		r.Fail(class, "the model differs from the text: %s", d)
		return false
	}
	return true
}

func parseCase(s *sadl.Schema, l layout, what string) mc.Case {
	text := (&printer{layout: l, b: &strings.Builder{}}).schema(s)
	return func(r *mc.R) {
		r.Input(func() string { return what + "\n" + text })
		m, err := sadl.ParseSadlString(text, sadl.NewData())
		if err != nil {
			r.Fail("rejected", "a valid source is rejected: %v", err)
			return
		}
		r.Outcome("parsed")
		sameSchema(r, "model", expected(s), &m.Schema)
	}
}

// writable: the schema can be written without escapes outside literals, and constraints only where the grammar has them.
func writable(s *sadl.Schema) bool {
	ok := true
	text := func(l ...string) {
		for _, x := range l {
			if strings.ContainsAny(x, "\"\\\n") {
				ok = false
			}
		}
	}
	annos := func(a map[string]string) {
		for _, v := range a {
			text(v)
		}
	}
	var spec func(ts *sadl.TypeSpec)
	spec = func(ts *sadl.TypeSpec) {
		text(ts.Pattern)
		text(ts.Values...)
		for _, f := range ts.Fields {
			annos(f.Annotations)
			spec(&f.TypeSpec)
		}
		for _, e := range ts.Elements {
			annos(e.Annotations)
		}
	}
	param := func(p *sadl.HttpParamSpec) {
		annos(p.Annotations)
		ts := p.TypeSpec
		if ts.Pattern != "" || ts.Values != nil || ts.Min != nil || ts.Max != nil || ts.MinSize != nil || ts.MaxSize != nil {
			ok = false
		}
	}
	annos(s.Annotations)
	for _, t := range s.Types {
		annos(t.Annotations)
		spec(&t.TypeSpec)
	}
	for _, h := range s.Http {
		annos(h.Annotations)
		seen := map[string]bool{}
		for _, e := range h.Exceptions {
			if seen[e.Type] {
				ok = false
			}
			seen[e.Type] = true
		}
		for _, p := range h.Inputs {
			param(p)
		}
		if h.Expected != nil {
			for _, p := range h.Expected.Outputs {
				param(p)
				if p.Header == "" && (h.Expected.Status == 204 || h.Expected.Status == 304) {
					ok = false
				}
			}
		}
	}
	for _, x := range s.Examples { // an example has a name or none
		text(x.Name)
	}
	return ok
}

// textSpecs: specifications beyond the shared menu.
func textSpecs() []sadl.TypeSpec {
	l := specMenu(nil)
	uv := func(v, u string) sadl.TypeSpec { return sadl.TypeSpec{Type: "UnitValue", Value: v, Unit: u} }
	ref := func(t string) sadl.TypeSpec { return sadl.TypeSpec{Type: t, Reference: "Rec"} }
	km := mapTS("Rec")
	km.Keys = "Nm"
	return append(l, uv("Num", "Col"), uv("Decimal", "Nm"), ref("String"), ref("UUID"), km, sized(tsOf("Bytes"), 1, 9), sized(km, 0, 4))
}

func inlineSpecs() []sadl.TypeSpec {
	deep := fld("deep", true, structTS(fld("x", false, enumTS("P", "Q")), fld("y", true, arrTS("Rec"))))
	deep.Comment = "nested note"
	return []sadl.TypeSpec{structTS(), structTS(fld("one", true, tsOf("String"))), structTS(deep, fld("more", false, sized(tsOf("String"), 1, 2)))}
}

// textModel: everything the language has, with comments and annotations on every node that can carry them.
func textModel() *sadl.Schema {
	s := broadModel()
	note := func(p *string, n string) { *p = "about " + n }
	a := map[string]string{"x_a": "b", "x_flag": "", "x_camelCase": "D e"}
	s.Comment, s.Namespace, s.Base, s.Annotations = "the service\nof things", "com.example", "/v1", map[string]string{"x_server": "https://h.example/", "x_on": ""}
	uv := td("Uv", sadl.TypeSpec{Type: "UnitValue", Value: "Num", Unit: "Col"})
	in := fld("inner", true, structTS(fld("deep", false, enumTS("P", "Q")), fld("w", true, tsOf("String"))))
	dfl := fld("dfl", false, ranged("Int32", "1", "9"))
	dfl.Default = dec("5")
	dst := fld("dst", false, tsOf("String"))
	dst.Default = "a \"b\""
	dbl := fld("dbl", false, tsOf("Bool"))
	dbl.Default = true
	s.Types = append(s.Types, uv, td("U1", unionTS("rec", "Rec", "err", "Err")), td("U2", unionTS("Rec", "Rec", "String", "String")), td("Empty", structTS()), td("Ref", sadl.TypeSpec{Type: "UUID", Reference: "Rec"}),
		td("Inl", structTS(in, dfl, dst, dbl, fld("uv", false, sadl.TypeSpec{Type: "UnitValue", Value: "Decimal", Unit: "String"}))), td("Bts", sized(tsOf("Bytes"), 1, 9)), td("Anys", arrTS("Any")), td("AnyM", mapTS("Any")))
	s.Types[len(s.Types)-8].Variants[1].TypeSpec = arrTS("Rec")
	for _, t := range s.Types {
		note(&t.Comment, t.Name)
		t.Annotations = a
		if t.Name == "U2" {
			t.Comment, t.Annotations = "", nil
			continue
		}
		for i, f := range t.Fields {
			if i < 3 {
				note(&f.Comment, f.Name)
				f.Annotations = a
			}
		}
		for _, e := range t.Elements {
			note(&e.Comment, e.Symbol)
			e.Annotations = a
		}
		for _, v := range t.Variants {
			note(&v.Comment, v.Name)
			v.Annotations = a
		}
	}
	for i, h := range s.Http {
		note(&h.Comment, h.Name)
		h.Annotations = a
		for k, p := range append(append([]*sadl.HttpParamSpec{}, h.Inputs...), h.Expected.Outputs...) {
			note(&p.Comment, p.Name)
			p.Annotations = a
			if i == 0 && k == 1 {
				p.Default = dec("7")
			}
			if i == 0 && k == 3 {
				p.Default = "tok"
			}
		}
		note(&h.Expected.Comment, "success")
		h.Expected.Annotations = a
		for _, e := range h.Exceptions {
			note(&e.Comment, e.Type)
			e.Annotations = a
		}
	}
	s.Http = append(s.Http, &sadl.HttpDef{Name: "getWidget", Resource: "widget", Method: "GET", Path: "/widget/{w}?x={x}", Inputs: []*sadl.HttpParamSpec{
		{Path: true, StructFieldDef: *fld("w", true, tsOf("UUID"))}, {Query: "x", StructFieldDef: *fld("x", false, arrTS("String"))}},
		Expected: &sadl.HttpExpectedSpec{Status: 200, Outputs: []*sadl.HttpParamSpec{{StructFieldDef: *fld("entity", true, tsOf("Rec"))}}}},
		&sadl.HttpDef{Name: "noAnswer", Resource: "odd", Method: "OPTIONS", Path: "/"})
	op := &sadl.OperationDef{Name: "op", Comment: "about op", Annotations: a, Exceptions: []string{"Err", "Missing"}}
	op.Inputs = append(op.Inputs, &sadl.OperationInput{StructFieldDef: *fld("one", true, tsOf("Rec"))}, &sadl.OperationInput{StructFieldDef: *fld("two", false, tsOf("String"))})
	op.Outputs = append(op.Outputs, &sadl.OperationOutput{Name: "res", TypeSpec: tsOf("Recs")})
	note(&op.Inputs[0].Comment, "one")
	note(&op.Outputs[0].Comment, "res")
	s.Operations = append(s.Operations, op, &sadl.OperationDef{Name: "idle"})
	ex := func(t, n string, v interface{}) {
		s.Examples = append(s.Examples, &sadl.ExampleDef{Target: t, Name: n, Example: v, Comment: "example of " + t})
	}
	ex("Rec", "", jobj{"name": "x \"q\" \\ é", "count": 3.0})
	ex("Recs", "several", []interface{}{jobj{"name": "a"}, jobj{"name": "b", "count": -1.0}})
	ex("Recs", "none", []interface{}{})
	ex("Rec.name", "", "text")
	ex("Num", "", 5.0)
	ex("DoThingRequest", "first", jobj{"id": "i", "skip": "s", "body": jobj{"zeta": "z", "col": "RED", "flag": true, "fl": 1.5}})
	s.Examples[1].Annotations = a
	return cloneSchema(s)
}

func drawTypeText(c *mc.C) *sadl.Schema {
	defs := defMenu(nil)
	for _, ts := range textSpecs() {
		if !isUserType(ts.Type) {
			defs = append(defs, ts)
		}
	}
	s := typesModel(c, defs, c.Choose(2))
	if c.DevBool() {
		for _, t := range s.Types {
			if t.Name == "T0" {
				t.Annotations = map[string]string{"x_a": "b", "x_Flag": ""}
			}
		}
	}
	if !writable(s) {
		return nil
	}
	return s
}

func drawFieldText(c *mc.C) *sadl.Schema {
	s := fieldsModel(c, append(textSpecs(), inlineSpecs()...), 2)
	st := s.Types[len(s.Types)-1]
	if c.DevBool() {
		st.Fields[0].Annotations = map[string]string{"x_bC": "c", "x_off": ""}
	}
	switch f := st.Fields[c.Dev(2)]; {
	case f.Required:
	case f.Type == "String" && f.TypeSpec.Pattern == "" && f.Values == nil && f.MinSize == nil && f.MaxSize == nil:
		f.Default = []interface{}{nil, "", "x y", "q\"\\"}[c.Dev(4)]
	case f.Type == "Int32" && f.Min == nil && f.Max == nil:
		f.Default = []interface{}{nil, dec("0"), dec("-3")}[c.Dev(3)]
	case f.Type == "Bool":
		f.Default = []interface{}{nil, true, false}[c.Dev(3)]
	case f.Type == "Array" && f.Items == "String" && f.MinSize == nil:
		f.Default = []interface{}{nil, []interface{}{}, []interface{}{"a", "b"}}[c.Dev(3)]
	}
	if !writable(s) {
		return nil
	}
	return s
}

func drawHttpText(c *mc.C) *sadl.Schema {
	o := defaultHttp()
	o.paramTypes = []sadl.TypeSpec{tsOf("String"), tsOf("Int32"), tsOf("Nm"), arrTS("Col")}
	o.base = richBase
	h := drawAction(c, "doIt", "things", o, "")
	s := &sadl.Schema{Name: "svc", Types: serviceAux(), Http: []*sadl.HttpDef{h}}
	if k := c.Dev(3); k == 1 {
		h.Expected = nil
	} else if k == 2 {
		h.Name, h.Resource = "", ""
		h.Name, h.Resource = defaultName(h)
	}
	if !writable(s) {
		return nil
	}
	return cloneSchema(s)
}

// drawAlike: an action with three inputs whose names, and the names they go by in the request, are easily mistaken for one
// another, in every place they can be read from and every order.
func drawAlike(c *mc.C) *sadl.Schema {
	names := [][]string{{"name", "na", "n"}, {"n", "na", "name"}, {"id", "Id", "ID"}, {"a", "b", "c"}, {"a_b", "ab", "a"}}[c.Choose(5)]
	wire := [][]string{names, {names[1], names[2], names[0]}, {names[2], names[0], names[1]}, {"q", "qq", "q-q"}}[c.Choose(4)]
	h := &sadl.HttpDef{Name: "doIt", Resource: "things", Method: "GET", Path: "/a", Expected: &sadl.HttpExpectedSpec{Status: 204}}
	query := ""
	order := [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}}[c.Choose(3)]
	for i, n := range names {
		h.Inputs = append(h.Inputs, &sadl.HttpParamSpec{StructFieldDef: *fld(n, false, tsOf([]string{"String", "Int32", "Bool"}[i]))})
	}
	for _, i := range order {
		in := h.Inputs[i]
		switch c.Choose(3) {
		case 0:
			in.Path, in.Required = true, true
			h.Path += "/" + []string{"", "x-"}[i%2] + "{" + in.Name + "}"
		case 1:
			in.Query = wire[i]
			query += "&" + wire[i] + "={" + in.Name + "}"
		default:
			in.Header = wire[i]
		}
	}
	if query != "" {
		h.Path += "?" + query[1:]
	}
	return cloneSchema(&sadl.Schema{Name: "svc", Http: []*sadl.HttpDef{h}})
}

func init() {
	alike := mc.Harness{Name: "alike", Gen: func(c *mc.C) mc.Case {
		return parseCase(drawAlike(c), drawLayout(c, true), "inputs with like names")
	}}
	types := mc.Harness{Name: "types", Quick: 1, Deep: 2, Gen: func(c *mc.C) mc.Case {
		s := drawTypeText(c)
		if s == nil {
			return nil
		}
		return parseCase(s, drawLayout(c, true), "a type definition")
	}}
	fields := mc.Harness{Name: "fields", Quick: 1, Deep: 2, Gen: func(c *mc.C) mc.Case {
		s := drawFieldText(c)
		if s == nil {
			return nil
		}
		return parseCase(s, drawLayout(c, true), "fields")
	}}
	http := mc.Harness{Name: "http", Quick: 2, Deep: 3, Gen: func(c *mc.C) mc.Case {
		s := drawHttpText(c)
		if s == nil {
			return nil
		}
		return parseCase(s, drawLayout(c, true), "an action")
	}}
	variety := mc.Harness{Name: "variety", Split: true, Quick: 1, Deep: 1, Gen: func(c *mc.C) mc.Case {
		s, what := varied(c, allCats+" pdefault", c.Thorough())
		if s == nil || !writable(s) {
			return nil
		}
		for _, e := range s.Examples {
			if strings.HasSuffix(e.Target, "Request") || strings.HasSuffix(e.Target, "Response") || what == "examples: empty values" {
				return nil // C27 judges which of these conform
			}
		}
		if c.Thorough() {
			return parseCase(s, layout{gap: " ", enumSep: "\n", optSep: ", ", eq: "=", action: "action", indent: "  "}, what)
		}
		return parseCase(s, drawLayout(c, true), what)
	}}
	lay := mc.Harness{Name: "layout", Quick: 2, Deep: 3, Gen: func(c *mc.C) mc.Case {
		return parseCase(textModel(), drawLayout(c, true), "everything")
	}}
	directives := mc.Harness{Name: "directives", Gen: drawDirectives}
	include := mc.Harness{Name: "include", Gen: drawInclude}
	refused := mc.Harness{Name: "refused", Gen: drawRefused}
	mc.Register(&mc.Prop{ID: "C25",
		Bounds:      "every type definition, field and action of the menus, every single variation of a rich model, and a model with everything on it, each printed in every layout within 1 (types, fields, variety) or 2 (actions, everything) deviations from the plain one (2 and 3 in the thorough tier); leading directives in every order of 2 (3) with comments around them; included files; 48 texts that are no definition",
		Assumptions: []string{"tokens come from the stand-in for the unavailable boynton/scanner, which provides the interface the parser uses", "strings outside literals are written without escapes"},
		Harnesses:   []mc.Harness{types, fields, http, alike, variety, lay, directives, include, refused}})
}

// drawDirectives: the leading directives in every order, with comments around them.
func drawDirectives(c *mc.C) mc.Case {
	kinds := []string{"name", "namespace", "version", "base", "x_a", "x_b", "type"}
	n := 2
	if c.Thorough() {
		n = 3
	}
	want := &sadl.Schema{Sadl: sadl.Version, Name: "."}
	text := ""
	var note []string
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		k := kinds[c.Choose(len(kinds))]
		if used[k] {
			return nil
		}
		used[k] = true
		about := func(s string) {
			if k == "type" {
				want.Types[0].Comment = strings.TrimSpace(want.Types[0].Comment + " " + s)
			} else {
				note = append(note, s)
			}
		}
		if k == "type" {
			want.Types = append(want.Types, td("T", tsOf("String")))
		}
		if c.Bool() {
			text += "// lead " + k + "\n"
			about("lead " + k)
		}
		if c.Bool() {
			text += "\n"
		}
		switch k {
		case "name":
			v := []string{"svc", `"svc"`, `"a b"`}[c.Choose(3)]
			text += "name " + v
			want.Name = strings.Trim(v, `"`)
		case "namespace":
			v := []string{"com", "com.example.x", `"com.ex"`, `com . "y"`}[c.Choose(4)]
			text += "namespace " + v
			want.Namespace = strings.NewReplacer(`"`, "", " ", "").Replace(v)
		case "version":
			v := []string{"1", `"1.2-b"`, "2.5", "beta"}[c.Choose(4)]
			text += "version " + v
			want.Version = strings.Trim(v, `"`)
		case "base":
			v := []string{`"/v1"`, `""`, `"/"`}[c.Choose(3)]
			text += "base " + v
			want.Base = strings.Trim(v, `"`)
		case "x_a", "x_b":
			if want.Annotations == nil {
				want.Annotations = map[string]string{}
			}
			v := []string{"", ` "val"`, ` = "val"`, `="v w"`}[c.Choose(4)]
			text += k + v
			want.Annotations[k] = strings.Trim(v, `= "`)
		case "type":
			text += "type T String"
		}
		if k[0] != 'x' && c.Bool() {
			text += ";"
		}
		if c.Bool() {
			text += " // trail " + k
			about("trail " + k)
		}
		text += "\n"
	}
	if c.Bool() {
		text = strings.TrimSuffix(text, "\n")
	}
	want.Comment = strings.Join(note, " ")
	return func(r *mc.R) {
		r.Input(func() string { return text })
		m, err := sadl.ParseSadlString(text, sadl.NewData())
		if err != nil {
			r.Fail("rejected", "a valid source is rejected: %v", err)
			return
		}
		r.Outcome("parsed")
		sameSchema(r, "model", want, &m.Schema)
	}
}

// drawInclude: definitions of an included file stand where it is included.
func drawInclude(c *mc.C) mc.Case {
	pieces := func(tag string) (*sadl.Schema, string) {
		s := &sadl.Schema{}
		if c.Bool() {
			s.Types = append(s.Types, td("T"+tag, structTS(fld("a", true, tsOf("String")))))
		}
		if c.Bool() {
			s.Http = append(s.Http, &sadl.HttpDef{Name: "do" + tag, Resource: "r", Method: "GET", Path: "/" + tag, Expected: &sadl.HttpExpectedSpec{Status: 204}})
		}
		if c.Bool() {
			s.Operations = append(s.Operations, &sadl.OperationDef{Name: "op" + tag})
		}
		if c.Bool() {
			s.Examples = append(s.Examples, &sadl.ExampleDef{Target: "String", Name: "n" + tag, Example: "e"})
		}
		if c.Bool() && len(s.Types) > 0 {
			s.Types[0].Annotations = map[string]string{"x_a": "1"}
		}
		l := layout{gap: " ", enumSep: "\n", optSep: ", ", eq: "=", action: "action", indent: "  "}
		return s, (&printer{layout: l, b: &strings.Builder{}}).schema(s)
	}
	inner, innerText := pieces("B")
	one, oneText := pieces("A")
	pos := c.Choose(2)
	meta := c.Choose(2)
	return func(r *mc.R) {
		file := filepath.Join(r.Scratch, "inner.sadl")
		name := filepath.Join(r.Scratch, "outer.sadl")
		inc := "include \"" + file + "\"\n"
		it := innerText
		if meta == 1 {
			it = "// inner\nname other\nversion 9\nbase \"/zz\"\n" + it
		}
		text := "name svc\n" + inc + oneText
		if pos == 1 {
			text = "name svc\n" + oneText + inc
		}
		r.Input(func() string { return "inner.sadl:\n" + it + "\nouter.sadl:\n" + text })
		for n, t := range map[string]string{file: it, name: text} {
			if err := os.WriteFile(n, []byte(t), 0644); err != nil {
				panic(err)
			}
		}
		m, err := sadl.ParseSadlFile(name, sadl.NewData())
		if err != nil {
			r.Fail("rejected", "a valid source is rejected: %v", err)
			return
		}
		r.Outcome("parsed")
		in := expected(inner)
		mark := func(a *map[string]string) {
			if *a == nil {
				*a = map[string]string{}
			}
			(*a)["x_include"] = file
		}
		for _, t := range in.Types {
			mark(&t.Annotations)
		}
		for _, t := range in.Http {
			mark(&t.Annotations)
		}
		for _, t := range in.Operations {
			mark(&t.Annotations)
		}
		a, b := in, expected(one)
		if pos == 1 {
			a, b = b, a
		}
		want := &sadl.Schema{Sadl: sadl.Version, Name: "svc", Types: append(a.Types, b.Types...), Http: append(a.Http, b.Http...), Operations: append(a.Operations, b.Operations...), Examples: append(a.Examples, b.Examples...)}
		got := cloneSchema(&m.Schema)
		for _, x := range got.Examples {
			delete(x.Annotations, "x_include")
			if len(x.Annotations) == 0 {
				x.Annotations = nil
			}
		}
		sameSchema(r, "model", want, got)
	}
}

// drawRefused: text that no definition accounts for is an error, not silently dropped.
func drawRefused(c *mc.C) mc.Case {
	body := []string{
		"type A Struct {\n a String b Int32\n}\n", "type A Struct {\n a String 5\n}\n", "type A Struct {\n a String x_b\n}\n", "type A String type B String\n", "type A String foo\n",
		"tyep A String\n", "Type A String\n", "types {\n}\n", "type A String (minsiz=1)\n", "type A Int32 (pattern=\"a\")\n", "type A Int32 (minsize=1)\n", "type A String (min=1)\n", "type A Bool (values=[\"a\"])\n",
		"type A String (required)\n", "type A Struct {\n a Int32 (pattern=\"x\")\n}\n", "type A Struct {\n a String (header=\"X\")\n}\n", "type A Array<String,String>\n", "type A Map<String>\n", "type A Array<>\n", "type A UnitValue<Decimal>\n", "type A String<String>\n",
		"type A Struct<String>\n", "type A Enum {\n A B(\n}\n", "type A B\ntype B String\n", "type A Union\n",
		"http FETCH \"/a\" {\n expect 204\n}\n", "http GET /a {\n expect 204\n}\n", "http GET \"/a\"\n", "http GET \"/a\" (action=x) {\n expect 204\n expect 200\n}\n", "http GET \"/a/{b}\" {\n b String c\n expect 204\n}\n",
		"http GET \"/a\" {\n expect 204 {\n expect 200\n}\n}\n", "http GET \"/a\" {\n expect 204 {\n except 400 String\n}\n}\n", "http GET \"/a\" {\n expect OK\n}\n", "http GET \"/a\" {\n expect 204\n} http GET \"/b\" {\n expect 204\n}\n", "http GET \"/a?n={n}\" {\n n Int32 (min=1)\n expect 204\n}\n",
		"http GET \"/a\" {\n expect 204 foo bar\n}\n", "http GET \"/a\" {\n expect 204\n except 400 String foo\n}\n", "http GET \"/a\" {\n expect 204\n except 400 String\n except 401 String\n}\n",
		"operation o {\n input {\n}\n}\n", "operation o {\n inputs {\n a\n}\n}\n", "operation o {\n inputs {\n a String (default)\n}\n}\n", "operation o\n",
		"example String\n", "example String (nam=x) \"a\"\n", "base \"v1\"\n", "name\n", "version {\n", "{\n", "5\n", "\"text\"\n", "x_a 5\n", "x_a \"a\" \"b\"\n",
	}
	k := c.Choose(len(body))
	pre := []string{"", "type Z String\n"}[c.Choose(2)]
	post := []string{"", "type Y String\n", "// note"}[c.Choose(3)]
	text := pre + body[k] + post
	return func(r *mc.R) {
		r.Input(func() string { return text })
		m, err := sadl.ParseSadlString(text, sadl.NewData())
		if err == nil {
			r.Fail("accepted", "text that is no definition is accepted: %s", jsonOf(m.Schema))
			return
		}
		r.Outcome("refused")
	}
}
