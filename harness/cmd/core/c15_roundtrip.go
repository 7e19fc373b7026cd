package main

import (
	"encoding/json"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/openapi"
	"verif/mc"
)

// oasProject: what of a specification OpenAPI (as exported) can express.
func oasProject(ts *sadl.TypeSpec, def bool) {
	switch ts.Type {
	case "Int8", "Int16":
		ts.Type = "Int32"
	case "UUID":
		if !def {
			ts.Type = "" // free: UUID or String
		}
	case "UnitValue":
		ts.Type = "String"
	case "String":
		if len(ts.Values) > 0 {
			all := true
			for _, v := range ts.Values {
				all = all && symRe.MatchString(v)
			}
			if all {
				ts.Type = "Enum"
				for _, v := range ts.Values {
					ts.Elements = append(ts.Elements, &sadl.EnumElementDef{Symbol: v})
				}
				ts.Values = nil
			}
		}
	case "Array", "Map":
		switch ts.Items {
		case "Int8", "Int16":
			ts.Items = "Int32"
		case "UnitValue", "UUID":
			ts.Items = "" // free
		}
	case "Struct":
		sort.SliceStable(ts.Fields, func(i, j int) bool { return ts.Fields[i].Name < ts.Fields[j].Name })
		for _, f := range ts.Fields {
			f.Comment, f.Default, f.Annotations = "", nil, nil
			oasProject(&f.TypeSpec, false)
		}
	case "Enum":
		for _, e := range ts.Elements {
			e.Comment, e.Annotations = "", nil
		}
	}
	if ts.MinSize != nil && *ts.MinSize == 0 {
		ts.MinSize = nil
	}
}

func oasProjectSchema(s *sadl.Schema, imported bool) *sadl.Schema {
	s = cloneSchema(s)
	s.Sadl, s.Annotations, s.Examples, s.Operations = "", nil, nil, nil
	sort.SliceStable(s.Types, func(i, j int) bool { return s.Types[i].Name < s.Types[j].Name })
	for _, t := range s.Types {
		t.Annotations = nil
		if !imported {
			oasProject(&t.TypeSpec, true)
		} else {
			var blank func(ts *sadl.TypeSpec)
			blank = func(ts *sadl.TypeSpec) {
				for _, f := range ts.Fields {
					f.Comment = ""
					blank(&f.TypeSpec)
				}
				sort.SliceStable(ts.Fields, func(i, j int) bool { return ts.Fields[i].Name < ts.Fields[j].Name })
			}
			blank(&t.TypeSpec)
		}
	}
	for _, h := range s.Http {
		p := h.Path
		if i := strings.Index(p, "?"); i >= 0 {
			p = p[:i]
		}
		h.Path = p
		if !imported {
			h.Path = s.Base + h.Path
		}
		h.Annotations = nil
		var params, body []*sadl.HttpParamSpec
		for _, in := range h.Inputs {
			if in.Path || in.Query != "" || in.Header != "" {
				params = append(params, in)
				if !in.Path {
					in.Name = "" // derived from the wire name
				}
			} else {
				in.Name = "body"
				body = append(body, in)
			}
			if !imported {
				v := in.Values
				in.Values = nil
				oasProject(&in.TypeSpec, false)
				in.Values = v
			}
			in.Default, in.Annotations = nil, nil
		}
		h.Inputs = append(params, body...)
		if h.Expected != nil {
			for _, o := range h.Expected.Outputs {
				o.Name, o.Required, o.Default, o.Annotations = "", false, nil, nil
				if !imported {
					oasProject(&o.TypeSpec, false)
				}
				if o.Header == "" {
					o.Comment = ""
				}
			}
			os := h.Expected.Outputs
			sort.SliceStable(os, func(i, j int) bool { return os[i].Header < os[j].Header })
			h.Expected.Annotations = nil
		}
		sort.SliceStable(h.Exceptions, func(i, j int) bool { return h.Exceptions[i].Status < h.Exceptions[j].Status })
	}
	s.Base = ""
	sort.SliceStable(s.Http, func(i, j int) bool { return s.Http[i].Name < s.Http[j].Name })
	return s
}

// forgetFree drops from got what want leaves free (want's Type or Items "", placeholder descriptions).
func forgetFree(want, got *sadl.Schema) {
	var ts func(w, g *sadl.TypeSpec)
	ts = func(w, g *sadl.TypeSpec) {
		if w.Type == "" && (g.Type == "String" || g.Type == "UUID") {
			g.Type = ""
		}
		if w.Items == "" && (g.Items == "String" || g.Items == "UUID") {
			g.Items = ""
		}
		for i := range w.Fields {
			if i < len(g.Fields) {
				ts(&w.Fields[i].TypeSpec, &g.Fields[i].TypeSpec)
			}
		}
	}
	for i := range want.Types {
		if i < len(got.Types) {
			if want.Types[i].Comment == "" {
				got.Types[i].Comment = ""
			}
			ts(&want.Types[i].TypeSpec, &got.Types[i].TypeSpec)
		}
	}
	for i := range want.Http {
		if i >= len(got.Http) {
			break
		}
		w, g := want.Http[i], got.Http[i]
		for j := range w.Inputs {
			if j < len(g.Inputs) {
				ts(&w.Inputs[j].TypeSpec, &g.Inputs[j].TypeSpec)
			}
		}
		if w.Expected != nil && g.Expected != nil {
			if w.Expected.Comment == "" {
				g.Expected.Comment = ""
			}
			for j := range w.Expected.Outputs {
				if j < len(g.Expected.Outputs) {
					ts(&w.Expected.Outputs[j].TypeSpec, &g.Expected.Outputs[j].TypeSpec)
				}
			}
		}
		for j := range w.Exceptions {
			if j < len(g.Exceptions) && w.Exceptions[j].Comment == "" {
				g.Exceptions[j].Comment = ""
			}
		}
	}
}

func oasRoundTrip(schema *sadl.Schema) mc.Case {
	return func(r *mc.R) {
		r.Input(func() string { return jsonOf(schema) })
		want := oasProjectSchema(schema, false)
		doc, err := exportOAS(schema)
		if err != nil {
			r.Fail("export", "export failed: %v", err)
			return
		}
		b, _ := json.Marshal(doc)
		m := &openapi.Model{}
		if err := json.Unmarshal(b, m); err != nil {
			r.Fail("parse", "the exported document does not load: %v", err)
			return
		}
		if m, err = openapi.Validate(m); err != nil {
			r.Fail("invalid", "the exported document is rejected: %v", err)
			return
		}
		back, err := m.ToSadl("svc")
		if err != nil {
			r.Fail("import", "import failed: %v", err)
			return
		}
		got := oasProjectSchema(&back.Schema, true)
		forgetFree(want, got)
		if d := diffOf(want, got); d != "" {
			r.Fail("model", "export then import changed the model at %s\n  before %s\n  after  %s", d, jsonOf(want), jsonOf(got))
		}
		r.Outcome("same")
	}
}

func init() {
	noUnion := func(ts sadl.TypeSpec) bool { return oasDefOK(ts) && ts.Type != "Union" }
	defs, specs := defMenu(noUnion), specMenu(nil)
	mc.Register(&mc.Prop{ID: "C15",
		Bounds:      "the model enumeration of C13 without unions: every definition x comment x position; structs of 2 fields; actions with every parameter, body and result shape; two actions up to 3 (5) deviations",
		Assumptions: []string{"not preserved by the exported document and therefore not compared: order of types and fields, Int8/Int16 (widened to Int32), UnitValue and field-level UUID (strings), names of body and header parameters, field comments and defaults, element comments, annotations, examples, the query part of path templates"},
		Harnesses: []mc.Harness{
			{Name: "types", Gen: func(c *mc.C) mc.Case { return oasRoundTrip(typesModel(c, defs, c.Choose(2))) }},
			{Name: "fields", Quick: 1, Deep: 2, Gen: func(c *mc.C) mc.Case { return oasRoundTrip(fieldsModel(c, specs, 2)) }},
			{Name: "params", Quick: 0, Deep: 1, Gen: func(c *mc.C) mc.Case {
				return oasRoundTrip(serviceModel(c, defaultHttp(), "method path query qreq header body order"))
			}},
			{Name: "results", Quick: 0, Deep: 1, Gen: func(c *mc.C) mc.Case {
				return oasRoundTrip(serviceModel(c, defaultHttp(), "out status outhdr except comment resource"))
			}},
			{Name: "variety", Split: true, Gen: func(c *mc.C) mc.Case {
				s, _ := varied(c, "fname required comment symbol size bound pattern values schema action path method pname wire pdefault ptype status outheader exception", c.Thorough())
				if s == nil || s.Version == "" || s.Namespace != "" || s.Annotations["x_license_url"] != "" { // a document has no namespace, always a version, and a licence a name
					return nil
				}
				return oasRoundTrip(s)
			}},
			{Name: "deviations", Quick: 3, Deep: 5, Gen: func(c *mc.C) mc.Case { return oasRoundTrip(serviceModel(c, defaultHttp(), "")) }},
		}})
}
