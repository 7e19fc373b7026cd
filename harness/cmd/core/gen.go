package main

import (
	"strings"

	"github.com/boynton/sadl"
	"verif/mc"
)

// Generators of service models, shared by the exporter and generator checks. Every drawn model is valid: names are
// defined, path variables and path inputs agree, bodies only where the method allows them.

func mapTS(items string) sadl.TypeSpec {
	return sadl.TypeSpec{Type: "Map", Keys: "String", Items: items}
}
func arrTS(items string) sadl.TypeSpec { return sadl.TypeSpec{Type: "Array", Items: items} }
func sized(ts sadl.TypeSpec, min, max int64) sadl.TypeSpec {
	if min >= 0 {
		ts.MinSize = i64(min)
	}
	if max >= 0 {
		ts.MaxSize = i64(max)
	}
	return ts
}
func ranged(t, min, max string) sadl.TypeSpec {
	ts := tsOf(t)
	if min != "" {
		ts.Min = dec(min)
	}
	if max != "" {
		ts.Max = dec(max)
	}
	return ts
}

// serviceAux: the named types that drawn specifications refer to.
func serviceAux() []*sadl.TypeDef {
	return []*sadl.TypeDef{
		td("Rec", structTS(fld("name", true, tsOf("String")), fld("count", false, tsOf("Int32")))),
		td("Col", enumTS("RED", "GREEN", "BLUE")),
		td("Recs", arrTS("Rec")),
		td("Nm", sadl.TypeSpec{Type: "String", Pattern: "^[a-z]+$"}),
		td("Num", ranged("Int64", "1", "100")),
		td("Mp", mapTS("Rec")),
		td("Err", structTS(fld("message", true, tsOf("String")))),
		td("Missing", structTS(fld("what", false, tsOf("String")))),
	}
}

var scalarNames = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "Timestamp", "UUID", "Bytes", "UnitValue"}

// specMenu: every kind of specification with every constraint it can carry. keep filters by the exporter's support.
func specMenu(keep func(ts sadl.TypeSpec) bool) []sadl.TypeSpec {
	var m []sadl.TypeSpec
	add := func(ts ...sadl.TypeSpec) {
		for _, t := range ts {
			if keep == nil || keep(t) {
				m = append(m, t)
			}
		}
	}
	for _, n := range scalarNames {
		add(tsOf(n))
	}
	for _, n := range []string{"Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal"} {
		add(ranged(n, "0", ""), ranged(n, "", "100"), ranged(n, "-3", "7"), ranged(n, "1", "1"))
	}
	add(ranged("Decimal", "-0.5", "1.25"), ranged("Float64", "0.5", "2.25"))
	add(sadl.TypeSpec{Type: "String", Pattern: "^a+$"}, sadl.TypeSpec{Type: "String", Values: []string{"one", "two words"}}, sadl.TypeSpec{Type: "String", Values: []string{"x-1"}},
		sized(tsOf("String"), 1, -1), sized(tsOf("String"), -1, 9), sized(tsOf("String"), 2, 5), sized(sadl.TypeSpec{Type: "String", Pattern: "^b$"}, 0, 0))
	for _, n := range append(append([]string{}, scalarNames...), "Any", "Rec", "Col", "Recs", "Nm", "Num", "Mp") {
		add(arrTS(n), mapTS(n))
	}
	add(sized(arrTS("String"), 1, -1), sized(arrTS("Rec"), -1, 3), sized(arrTS("Int32"), 2, 2), sized(mapTS("String"), 1, -1), sized(mapTS("Rec"), -1, 3), sized(mapTS("Int32"), 2, 4))
	add(enumTS("ONE"), enumTS("A", "B"), enumTS("B", "A", "C"))
	add(tsOf("Any"))
	for _, n := range []string{"Rec", "Col", "Recs", "Nm", "Num", "Mp"} {
		add(tsOf(n))
	}
	return m
}

func isUserType(n string) bool {
	for _, t := range sadl.BaseTypes {
		if t == n {
			return false
		}
	}
	return n != ""
}

// defMenu: specifications a type definition can have.
func defMenu(keep func(ts sadl.TypeSpec) bool) []sadl.TypeSpec {
	m := specMenu(func(ts sadl.TypeSpec) bool { return !isUserType(ts.Type) && (keep == nil || keep(ts)) })
	for _, ts := range []sadl.TypeSpec{
		structTS(), structTS(fld("z", true, tsOf("String")), fld("a", false, tsOf("Int32"))), structTS(fld("r", true, tsOf("Rec")), fld("s", true, tsOf("T0"))),
		structTS(fld("list", false, arrTS("T0")), fld("m", false, mapTS("T0"))),
		unionTS("rec", "Rec", "err", "Err"), unionTS("Rec", "Rec", "String", "String"), unionTS("nm", "Nm"), unionTS("i", "Int32", "recs", "Recs", "self", "T0"),
	} {
		if keep == nil || keep(ts) {
			m = append(m, ts)
		}
	}
	return m
}

var comments = []string{"", "a comment", "Quoted \"text\" & <tags>", "line one\nline two"}

// typesModel: one drawn type definition T0 among the auxiliary ones.
func typesModel(c *mc.C, defs []sadl.TypeSpec, pos int) *sadl.Schema {
	t := td("T0", defs[c.Choose(len(defs))])
	t.Comment = comments[c.Choose(len(comments))]
	types := serviceAux()
	switch pos {
	case 0:
		types = append([]*sadl.TypeDef{t}, types...)
	default:
		types = append(types, t)
	}
	return cloneSchema(&sadl.Schema{Name: "svc", Version: "1", Types: types})
}

// fieldsModel: a struct of n drawn fields.
func fieldsModel(c *mc.C, specs []sadl.TypeSpec, n int) *sadl.Schema {
	names := []string{"zeta", "alpha", "midField"}
	st := td("S", structTS())
	for i := 0; i < n; i++ {
		var k int
		req := true
		if i == 0 {
			k = c.Choose(len(specs))
			req = c.Bool()
		} else {
			k = c.Dev(len(specs))
			req = c.DevBool()
		}
		f := fld(names[i], req, specs[k])
		if c.DevBool() {
			f.Comment = "field note"
		}
		st.Fields = append(st.Fields, f)
	}
	return cloneSchema(&sadl.Schema{Name: "svc", Version: "1", Types: append(serviceAux(), st)})
}

// httpOpts restricts what drawn actions contain.
type httpOpts struct {
	methods             []string
	paramTypes          []sadl.TypeSpec // path, query and header inputs
	bodyTypes, outTypes []sadl.TypeSpec
	statuses            []int32
	noDefaultException  bool
	noArrayParams       bool
	base                map[string]int // the default alternative of a part, if not the first
	nameEqWire          bool           // names of query parameters equal their wire names
}

func defaultHttp() httpOpts {
	return httpOpts{
		methods:    []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS"},
		paramTypes: []sadl.TypeSpec{tsOf("String"), tsOf("Int32"), tsOf("Int64"), tsOf("Bool"), tsOf("Nm"), tsOf("Col"), tsOf("Timestamp"), {Type: "String", Values: []string{"p q", "r"}}, ranged("Int32", "1", "9")},
		bodyTypes:  []sadl.TypeSpec{tsOf("Rec"), tsOf("Recs"), tsOf("String"), arrTS("Rec"), mapTS("Int32"), tsOf("Mp")},
		outTypes:   []sadl.TypeSpec{tsOf("Rec"), tsOf("Recs"), tsOf("String"), arrTS("Rec"), mapTS("String")},
		statuses:   []int32{200, 201, 202, 302},
	}
}

func hasBody(m string) bool { return m == "POST" || m == "PUT" || m == "PATCH" }

// richBase makes the default action one with every kind of part.
var richBase = map[string]int{"method": 1, "path": 2, "query": 2, "header": 1, "outhdr": 2, "except": 2}

// drawAction: an action named name under the given resource; dims says which parts are drawn freely, the rest by deviation.
func drawAction(c *mc.C, name, res string, o httpOpts, free string) *sadl.HttpDef {
	pick := func(part string, n int) int {
		if strings.Contains(free, part) {
			return (c.Choose(n) + o.base[part]) % n
		}
		return (c.Dev(n) + o.base[part]) % n
	}
	h := &sadl.HttpDef{Name: name, Path: "/" + res}
	h.Method = o.methods[pick("method", len(o.methods))]
	in := func(name, query, header string, path bool, req bool, ts sadl.TypeSpec) *sadl.HttpParamSpec {
		return &sadl.HttpParamSpec{Path: path, Query: query, Header: header, StructFieldDef: *fld(name, req, ts)}
	}
	ptype := func() sadl.TypeSpec { return o.paramTypes[pick("ptype", len(o.paramTypes))] }
	switch pick("path", 4) {
	case 1:
		h.Path += "/{id}"
		h.Inputs = append(h.Inputs, in("id", "", "", true, true, ptype()))
	case 2:
		h.Path += "/{id}/part/{partNo2}"
		h.Inputs = append(h.Inputs, in("id", "", "", true, true, tsOf("String")), in("partNo2", "", "", true, true, ptype()))
	case 3: // declared in the other order
		h.Path += "/{k}/{id}"
		h.Inputs = append(h.Inputs, in("id", "", "", true, true, tsOf("String")), in("k", "", "", true, true, tsOf("Int32")))
	}
	q := pick("query", 4)
	wire := func(n string) string {
		if o.nameEqWire {
			return n
		}
		return n + "_w"
	}
	if q > 0 {
		p := in("lim", wire("lim"), "", false, pick("qreq", 2) == 1, ptype())
		h.Inputs = append(h.Inputs, p)
		h.Path += "?" + p.Query + "={lim}"
	}
	if q == 2 {
		p := in("skip", "skip", "", false, false, tsOf("String"))
		h.Inputs = append(h.Inputs, p)
		h.Path += "&skip={skip}"
	}
	if q == 3 && !o.noArrayParams {
		p := in("tag2", "tag2", "", false, true, arrTS("String"))
		h.Inputs = append(h.Inputs, p)
		h.Path += "&tag2={tag2}"
	}
	hd := pick("header", 3)
	if hd > 0 {
		h.Inputs = append(h.Inputs, in("auth", "", "X-Auth", false, hd == 2, tsOf("String")))
	}
	if hasBody(h.Method) {
		k := pick("body", len(o.bodyTypes)+1)
		if k < len(o.bodyTypes) {
			nm := "body"
			if pick("bname", 2) == 1 {
				nm = "item"
			}
			b := in(nm, "", "", false, true, o.bodyTypes[k])
			if pick("order", 2) == 1 {
				h.Inputs = append([]*sadl.HttpParamSpec{b}, h.Inputs...)
			} else {
				h.Inputs = append(h.Inputs, b)
			}
		}
	}
	ex := &sadl.HttpExpectedSpec{}
	h.Expected = ex
	out := pick("out", len(o.outTypes)+2)
	if out == len(o.outTypes) { // no content
		ex.Status = 204
	} else if out == len(o.outTypes)+1 {
		ex.Status = o.statuses[pick("status", len(o.statuses))]
	} else {
		ex.Status = o.statuses[pick("status", len(o.statuses))]
		ex.Outputs = append(ex.Outputs, in("body", "", "", false, true, o.outTypes[out]))
	}
	switch pick("outhdr", 3) {
	case 1:
		ex.Outputs = append(ex.Outputs, in("mod", "", "Last-Mod", false, false, tsOf("String")))
	case 2:
		ex.Outputs = append([]*sadl.HttpParamSpec{in("etag", "", "ETag", false, false, tsOf("String")), in("mod", "", "Last-Mod", false, false, tsOf("Int32"))}, ex.Outputs...)
	}
	exc := func(t string, st int32) *sadl.HttpExceptionSpec {
		return &sadl.HttpExceptionSpec{Type: t, Status: st}
	}
	switch k := pick("except", 6); {
	case k == 1:
		h.Exceptions = append(h.Exceptions, exc("Missing", 404))
	case k == 2:
		h.Exceptions = append(h.Exceptions, exc("Missing", 404), exc("Err", 400))
	case k == 3 && !o.noDefaultException:
		h.Exceptions = append(h.Exceptions, exc("Err", 0), exc("Missing", 304))
	case k == 4 && !o.noDefaultException:
		h.Exceptions = append(h.Exceptions, exc("Err", 0))
	case k == 5 && !o.noDefaultException:
		h.Exceptions = append(h.Exceptions, exc("Missing", 409), exc("Err", 0), exc("Rec", 404))
	}
	if pick("comment", 2) == 1 {
		h.Comment = "does things"
		ex.Comment = "went well"
		for _, e := range h.Exceptions {
			e.Comment = "went badly"
		}
		for _, i := range h.Inputs {
			i.Comment = "about " + i.Name
		}
	}
	if pick("resource", 2) == 1 {
		h.Resource = "Widget"
	}
	if !o.nameEqWire {
		rename := func(p *sadl.HttpParamSpec, n string) {
			h.Path = strings.Replace(h.Path, p.Query+"={", n+"={", 1)
			p.Query = n
		}
		k := pick("wire", 4) // other wire names, and ones that two parameters share
		for _, p := range h.Inputs {
			switch {
			case k == 1 && p.Name == "lim":
				rename(p, "page-size")
			case k == 1 && p.Header != "":
				p.Header = "x-token"
			case k == 2 && p.Header != "" && q > 0:
				p.Header = "lim_w"
			case k == 3 && p.Name == "lim":
				rename(p, "id")
			}
		}
	}
	return h
}
