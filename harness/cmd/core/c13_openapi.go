package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/openapi"
	"verif/mc"
)

func sortedKeysOf(m jobj) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// exportOAS runs the real exporter and gives the document as a reader of its JSON sees it.
func exportOAS(schema *sadl.Schema) (jobj, error) {
	model, err := sadl.NewModel(schema)
	if err != nil {
		panic("harness: invalid model: " + err.Error())
	}
	doc, err := openapi.NewGenerator(model, sadl.NewData()).ExportToOAS3()
	if err != nil {
		return nil, err
	}
	b, err := json.Marshal(doc)
	if err != nil {
		return nil, err
	}
	var m jobj
	err = json.Unmarshal(b, &m)
	return m, err
}

func ratOf(v interface{}) string {
	if f, ok := v.(float64); ok {
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	return fmt.Sprint(v)
}

func decRat(d *sadl.Decimal) string {
	f, _ := strconv.ParseFloat(d.Text('f', -1), 64)
	return strconv.FormatFloat(f, 'f', -1, 64)
}

// oasKeys: what a schema object for ts must say, key by key. Keys mapped to nil are free.
func oasExpect(ts *sadl.TypeSpec, def bool) jobj {
	e := jobj{"description": nil, "example": nil}
	num := func(t, f string) {
		e["type"] = t
		if f != "" {
			e["format"] = f
		}
		if ts.Min != nil {
			e["minimum"] = decRat(ts.Min)
		}
		if ts.Max != nil {
			e["maximum"] = decRat(ts.Max)
		}
	}
	size := func(min, max string) {
		if ts.MinSize != nil && *ts.MinSize > 0 {
			e[min] = fmt.Sprint(*ts.MinSize)
		}
		if ts.MaxSize != nil {
			e[max] = fmt.Sprint(*ts.MaxSize)
		}
	}
	items := func(key string) {
		n := ts.Items
		if n == "" {
			n = "Any"
		}
		e[key] = oasExpect(&sadl.TypeSpec{Type: n}, false)
	}
	switch ts.Type {
	case "Bool":
		e["type"] = "boolean"
	case "Int8", "Int16", "Int32":
		num("integer", "int32")
	case "Int64":
		num("integer", "int64")
	case "Float32":
		num("number", "float")
	case "Float64":
		num("number", "double")
	case "Decimal":
		num("number", "")
	case "String":
		e["type"] = "string"
		if ts.Pattern != "" {
			e["pattern"] = ts.Pattern
		}
		if len(ts.Values) > 0 {
			e["enum"] = ts.Values
		}
		size("minLength", "maxLength")
	case "Timestamp":
		e["type"], e["format"] = "string", "date-time"
	case "UUID":
		e["type"], e["format"] = "string", nil
		if def {
			e["format"] = "uuid"
		}
	case "Bytes":
		e["type"], e["format"] = "string", "byte"
	case "UnitValue":
		e["type"] = "string"
	case "Any":
	case "Enum":
		e["type"] = "string"
		var syms []string
		for _, el := range ts.Elements {
			syms = append(syms, el.Symbol)
		}
		e["enum"] = syms
	case "Array":
		e["type"] = "array"
		items("items")
		size("minItems", "maxItems")
	case "Map":
		e["type"] = "object"
		items("additionalProperties")
		size("minProperties", "maxProperties")
	case "Struct":
		e["type"] = "object"
		props := jobj{}
		var req []string
		for _, f := range ts.Fields {
			props[f.Name] = oasExpect(&f.TypeSpec, false)
			if f.Required {
				req = append(req, f.Name)
			}
		}
		if len(props) > 0 {
			e["properties"] = props
		}
		if len(req) > 0 {
			e["required"] = req
		}
	case "Union":
		var vs []interface{}
		for _, v := range ts.Variants {
			vs = append(vs, oasExpect(&v.TypeSpec, false))
		}
		e["oneOf"] = vs
	default:
		e["$ref"] = "#/components/schemas/" + ts.Type
	}
	return e
}

// oasMatch compares an emitted schema object with the expectation.
func oasMatch(want, got jobj) string {
	for _, k := range sortedKeysOf(want) {
		w := want[k]
		if w == nil {
			continue
		}
		g, ok := got[k]
		if !ok {
			return k + " missing"
		}
		switch w := w.(type) {
		case jobj:
			gm, ok := g.(jobj)
			if !ok {
				return k + " is not an object"
			}
			if k == "properties" {
				for _, p := range sortedKeysOf(gm) {
					if _, ok := w[p]; !ok {
						return "undeclared property " + p
					}
				}
				for _, p := range sortedKeysOf(w) {
					pm, ok := gm[p].(jobj)
					if !ok {
						return "property " + p + " missing"
					}
					if d := oasMatch(w[p].(jobj), pm); d != "" {
						return "property " + p + ": " + d
					}
				}
			} else if d := oasMatch(w, gm); d != "" {
				return k + ": " + d
			}
		case []string:
			ga, _ := g.([]interface{})
			var gs []string
			for _, x := range ga {
				gs = append(gs, fmt.Sprint(x))
			}
			if k == "required" {
				w = append([]string{}, w...)
				sort.Strings(w)
				sort.Strings(gs)
			}
			if !reflect.DeepEqual(w, gs) {
				return fmt.Sprintf("%s is %q, want %q", k, gs, w)
			}
		case []interface{}:
			ga, _ := g.([]interface{})
			if len(ga) != len(w) {
				return fmt.Sprintf("%s has %d entries, want %d", k, len(ga), len(w))
			}
			for i := range w {
				gm, _ := ga[i].(jobj)
				if d := oasMatch(w[i].(jobj), gm); d != "" {
					return fmt.Sprintf("%s[%d]: %s", k, i, d)
				}
			}
		case string:
			if ratOf(g) != w {
				return fmt.Sprintf("%s is %v, want %s", k, g, w)
			}
		}
	}
	for _, k := range sortedKeysOf(got) {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("%s = %v is not declared by the model", k, got[k])
		}
	}
	return ""
}

func walkRefs(v interface{}, f func(string)) {
	switch v := v.(type) {
	case jobj:
		for k, x := range v {
			if s, ok := x.(string); ok && k == "$ref" {
				f(s)
			}
			walkRefs(x, f)
		}
	case []interface{}:
		for _, x := range v {
			walkRefs(x, f)
		}
	}
}

func pathOf(schema *sadl.Schema, h *sadl.HttpDef) string {
	p := schema.Base + h.Path
	if i := strings.Index(p, "?"); i >= 0 {
		p = p[:i]
	}
	return p
}

// checkOASDoc is the oracle of C13.
func checkOASDoc(r *mc.R, schema *sadl.Schema, doc jobj) {
	schemas := sub(doc, "components", "schemas")
	walkRefs(doc, func(ref string) {
		n := strings.TrimPrefix(ref, "#/components/schemas/")
		if n == ref || schemas[n] == nil {
			r.Fail("dangling", "reference %q does not resolve", ref)
		}
	})
	declared := map[string]bool{}
	for _, t := range schema.Types {
		declared[t.Name] = true
		s, ok := schemas[t.Name].(jobj)
		if !ok {
			r.Fail("missing-type", "type %s is not exported", t.Name)
			continue
		}
		if d := oasMatch(oasExpect(&t.TypeSpec, true), s); d != "" {
			r.Fail("schema", "type %s: %s", t.Name, d)
		}
		if t.Comment != "" && str(s["description"]) != t.Comment {
			r.Fail("comment", "type %s: description %q, want %q", t.Name, s["description"], t.Comment)
		}
		var exs []interface{}
		for _, ex := range schema.Examples {
			if ex.Target == t.Name {
				exs = append(exs, jcopy(ex.Example))
			}
		}
		found := len(exs) == 0
		for _, ex := range exs { // the format has one place for the examples of a type
			found = found || reflect.DeepEqual(s["example"], ex)
		}
		if !found {
			r.Fail("example", "type %s: example %v, want one of %v", t.Name, s["example"], exs)
		}
	}
	for _, n := range sortedKeysOf(schemas) {
		if !declared[n] {
			r.Fail("extra-type", "schema %s is not in the model", n)
		}
	}
	checkOASInfo(r, schema, doc)
	checkOASExamples(r, schema, doc)
	paths := sub(doc, "paths")
	seen := map[string]bool{}
	for _, h := range schema.Http {
		p, m := pathOf(schema, h), strings.ToLower(h.Method)
		seen[m+" "+p] = true
		op := sub(paths, p, m)
		if op == nil {
			r.Fail("missing-action", "action %s (%s %s) is not exported", h.Name, m, p)
			continue
		}
		checkOASOp(r, h, op)
	}
	for p, item := range paths {
		im, _ := item.(jobj)
		for m := range im {
			if !seen[m+" "+p] {
				r.Fail("extra-action", "%s %s is not in the model", m, p)
			}
		}
	}
}

// checkOASInfo: what the document says about the service as a whole.
func checkOASInfo(r *mc.R, schema *sadl.Schema, doc jobj) {
	info := sub(doc, "info")
	version := schema.Version
	if version == "" {
		version = "dev"
	}
	for _, w := range [][3]string{{"title", schema.Name, str(info["title"])}, {"version", version, str(info["version"])}, {"description", schema.Comment, str(info["description"])},
		{"license name", schema.Annotations["x_license_name"], str(sub(info, "license")["name"])}, {"license url", schema.Annotations["x_license_url"], str(sub(info, "license")["url"])}} {
		if w[1] != w[2] {
			r.Fail("info", "%s is %q, want %q", w[0], w[2], w[1])
		}
	}
	if u := schema.Annotations["x_server"]; u != "" {
		found := false
		for _, s := range asArr(doc["servers"]) {
			m, _ := s.(jobj)
			found = found || str(m["url"]) == u
		}
		if !found {
			r.Fail("server", "server %q is not among %v", u, doc["servers"])
		}
	}
}

// checkOASExamples: request and response examples appear at the parameter or body they give a value for, and nowhere else.
func checkOASExamples(r *mc.R, schema *sadl.Schema, doc jobj) {
	type slot struct {
		one   interface{}
		named map[string]interface{}
	}
	types := map[string]bool{}
	for _, t := range schema.Types {
		types[t.Name] = true
	}
	for _, h := range schema.Http {
		want := map[string]*slot{}
		put := func(k string, ex *sadl.ExampleDef, v interface{}) {
			if want[k] == nil {
				want[k] = &slot{named: map[string]interface{}{}}
			}
			if ex.Name == "" {
				want[k].one = jcopy(v)
			} else {
				want[k].named[ex.Name] = jcopy(v)
			}
		}
		for _, ex := range schema.Examples {
			vals, _ := ex.Example.(jobj)
			cap := strings.ToUpper(h.Name[:1]) + h.Name[1:]
			if types[ex.Target] {
				continue
			}
			if ex.Target == cap+"Request" {
				for _, in := range h.Inputs {
					v, ok := vals[in.Name]
					switch {
					case !ok:
					case in.Path:
						put("path:"+in.Name, ex, v)
					case in.Query != "":
						put("query:"+in.Query, ex, v)
					case in.Header != "":
						put("header:"+in.Header, ex, v)
					default:
						put("request body", ex, v)
					}
				}
			}
			if ex.Target == cap+"Response" && h.Expected != nil {
				for _, out := range h.Expected.Outputs {
					if v, ok := vals[out.Name]; ok && out.Header == "" {
						put("response "+fmt.Sprint(h.Expected.Status), ex, v)
					}
				}
			}
		}
		op := sub(doc, "paths", pathOf(schema, h), strings.ToLower(h.Method))
		got := map[string]jobj{"request body": sub(op, "requestBody", "content", "application/json")}
		for _, p := range asArr(op["parameters"]) {
			pm, _ := p.(jobj)
			got[str(pm["in"])+":"+str(pm["name"])] = pm
		}
		for st := range sub(op, "responses") {
			got["response "+st] = sub(op, "responses", st, "content", "application/json")
		}
		for k, g := range got {
			w := want[k]
			if w == nil {
				w = &slot{}
			}
			if !reflect.DeepEqual(g["example"], w.one) {
				r.Fail("example-value", "%s, %s: example %v, want %v", h.Name, k, g["example"], w.one)
			}
			ge := sub(g, "examples")
			for n, v := range w.named {
				if x := sub(ge, n); x == nil || !reflect.DeepEqual(x["value"], v) {
					r.Fail("example-value", "%s, %s: example %q is %v, want %v", h.Name, k, n, x, v)
				}
			}
			if len(ge) != len(w.named) {
				r.Fail("example-extra", "%s, %s: examples %v, want %v", h.Name, k, ge, w.named)
			}
		}
		for k := range want {
			if got[k] == nil {
				r.Fail("example-lost", "%s, %s: not exported", h.Name, k)
			}
		}
	}
}

func checkOASOp(r *mc.R, h *sadl.HttpDef, op jobj) {
	if str(op["operationId"]) != h.Name {
		r.Fail("op-name", "operationId %q, want %q", op["operationId"], h.Name)
	}
	if str(op["summary"]) != h.Comment {
		r.Fail("op-comment", "summary %q, want %q", op["summary"], h.Comment)
	}
	var tags []string
	if h.Resource != "" {
		tags = append(tags, h.Resource)
	}
	if t := h.Annotations["x_tags"]; t != "" {
		tags = append(tags, strings.Split(t, ",")...)
	}
	var got []string
	for _, t := range asArr(op["tags"]) {
		got = append(got, str(t))
	}
	if strings.Join(got, "|") != strings.Join(tags, "|") {
		r.Fail("op-resource", "tags %q, want the resource and tags %q", got, tags)
	}
	params := map[string]jobj{}
	for _, p := range asArr(op["parameters"]) {
		pm, _ := p.(jobj)
		k := str(pm["in"]) + ":" + str(pm["name"])
		if params[k] != nil {
			r.Fail("param-dup", "%s: parameter %s twice", h.Name, k)
		}
		params[k] = pm
	}
	body := sub(op, "requestBody")
	wantBody := false
	for _, in := range h.Inputs {
		var k string
		req := in.Required
		switch {
		case in.Path:
			k, req = "path:"+in.Name, true
		case in.Query != "":
			k = "query:" + in.Query
		case in.Header != "":
			k = "header:" + in.Header
		default:
			wantBody = true
			sch := sub(body, "content", "application/json", "schema")
			if sch == nil {
				r.Fail("body", "%s: body %s is not exported", h.Name, in.Name)
				continue
			}
			if d := oasMatch(oasExpect(&in.TypeSpec, false), sch); d != "" {
				r.Fail("body", "%s: body %s: %s", h.Name, in.Name, d)
			}
			continue
		}
		p := params[k]
		if p == nil {
			r.Fail("param", "%s: parameter %s is not exported", h.Name, k)
			continue
		}
		delete(params, k)
		b, _ := p["required"].(bool)
		if b != req {
			r.Fail("param-required", "%s: parameter %s required=%v, want %v", h.Name, k, b, req)
		}
		if str(p["description"]) != in.Comment {
			r.Fail("param-comment", "%s: parameter %s description %q, want %q", h.Name, k, p["description"], in.Comment)
		}
		if d := oasMatch(oasExpect(&in.TypeSpec, false), sub(p, "schema")); d != "" {
			r.Fail("param-type", "%s: parameter %s: %s", h.Name, k, d)
		}
	}
	for k := range params {
		r.Fail("param-extra", "%s: parameter %s is not in the model", h.Name, k)
	}
	if body != nil && !wantBody {
		r.Fail("body-extra", "%s: the model has no body", h.Name)
	}
	resps := sub(op, "responses")
	want := map[string]bool{}
	if h.Expected != nil {
		k := fmt.Sprint(h.Expected.Status)
		want[k] = true
		resp := sub(resps, k)
		if resp == nil {
			r.Fail("expected", "%s: expected status %s is not exported (%v)", h.Name, k, sortedKeysOf(resps))
		} else {
			if h.Expected.Comment != "" && str(resp["description"]) != h.Expected.Comment {
				r.Fail("expected-comment", "%s: response description %q", h.Name, resp["description"])
			}
			headers := sub(resp, "headers")
			nh, nb := 0, 0
			for _, o := range h.Expected.Outputs {
				where := sub(headers, o.Header)
				if o.Header == "" {
					nb++
					where = sub(resp, "content", "application/json")
				} else {
					nh++
				}
				sch := sub(where, "schema")
				if sch == nil {
					r.Fail("output", "%s: output %s is not exported", h.Name, o.Name)
				} else if d := oasMatch(oasExpect(&o.TypeSpec, false), sch); d != "" {
					r.Fail("output", "%s: output %s: %s", h.Name, o.Name, d)
				}
			}
			if len(headers) != nh || len(sub(resp, "content")) != nb {
				r.Fail("output-extra", "%s: response has headers %v, content %v", h.Name, sortedKeysOf(headers), sortedKeysOf(sub(resp, "content")))
			}
		}
	}
	for _, e := range h.Exceptions {
		k := "default"
		if e.Status != 0 {
			k = fmt.Sprint(e.Status)
		}
		want[k] = true
		resp := sub(resps, k)
		if resp == nil {
			r.Fail("exception", "%s: exception status %s is not exported", h.Name, k)
			continue
		}
		if e.Comment != "" && str(resp["description"]) != e.Comment {
			r.Fail("exception-comment", "%s: exception description %q", h.Name, resp["description"])
		}
		sch := sub(resp, "content", "application/json", "schema")
		if sch == nil {
			r.Fail("exception", "%s: exception %s has no type", h.Name, k)
		} else if d := oasMatch(oasExpect(&sadl.TypeSpec{Type: e.Type}, false), sch); d != "" {
			r.Fail("exception", "%s: exception %s: %s", h.Name, k, d)
		}
	}
	for k := range resps {
		if h.Expected != nil && !want[k] {
			r.Fail("response-extra", "%s: response %s is not in the model", h.Name, k)
		}
	}
}

func asArr(v interface{}) []interface{} { a, _ := v.([]interface{}); return a }

// what OpenAPI export supports: Bytes, UnitValue and Any only inside other types.
func oasDefOK(ts sadl.TypeSpec) bool {
	return ts.Type != "Bytes" && ts.Type != "UnitValue" && ts.Type != "Any"
}

func oasCase(schema *sadl.Schema) mc.Case {
	return func(r *mc.R) {
		r.Input(func() string { return jsonOf(schema) })
		before := cloneSchema(schema)
		doc, err := exportOAS(schema)
		if err != nil {
			r.Fail("error", "export failed: %v", err)
			return
		}
		checkOASDoc(r, before, doc)
		r.Outcome("exported")
	}
}

// serviceModel: two actions over the auxiliary types.
func serviceModel(c *mc.C, o httpOpts, free string) *sadl.Schema {
	s := &sadl.Schema{Name: "svc", Version: "1", Types: serviceAux()}
	if c.DevBool() {
		s.Base = "/v1"
	}
	s.Http = append(s.Http, drawAction(c, "doThing", "things", o, free))
	switch c.Dev(4) {
	case 1:
		s.Http = append(s.Http, &sadl.HttpDef{Name: "other", Method: "GET", Path: "/others", Expected: &sadl.HttpExpectedSpec{Status: 200}})
	case 2: // same path, another method
		h := cloneSchema(&sadl.Schema{Http: s.Http[:1]}).Http[0]
		h.Name = "second"
		if h.Method == "DELETE" {
			h.Method = "GET"
		} else {
			h.Method = "DELETE"
		}
		var ins []*sadl.HttpParamSpec
		for _, in := range h.Inputs {
			if in.Path || in.Query != "" || in.Header != "" {
				ins = append(ins, in)
			}
		}
		h.Inputs = ins
		s.Http = append(s.Http, h)
	case 3:
		s.Http = append([]*sadl.HttpDef{{Name: "first", Method: "PUT", Path: "/things", Inputs: []*sadl.HttpParamSpec{{StructFieldDef: *fld("body", true, tsOf("Rec"))}}, Expected: &sadl.HttpExpectedSpec{Status: 201}}}, s.Http...)
		if s.Http[1].Method == "PUT" && pathOf(s, s.Http[1]) == pathOf(s, s.Http[0]) {
			s.Http = s.Http[1:]
		}
	}
	return cloneSchema(s)
}

func init() {
	defs, specs := defMenu(oasDefOK), specMenu(nil)
	specsTop := append(append([]sadl.TypeSpec{}, specs...), structTS(fld("in", true, tsOf("String")), fld("o", false, tsOf("Rec"))), structTS(), unionTS("rec", "Rec", "s", "String"))
	mc.Register(&mc.Prop{ID: "C13",
		Bounds:      "types: every definition of the menu (all scalar kinds with every bound/size/pattern/values combination, arrays and maps of every base and named type, structs incl. recursive ones, enums, unions of base and named types) x 4 comments x 2 positions; fields: structs of 2 fields, the first over the whole menu, the second one deviation away; params: every method x every path/query/header/body shape; actions: every part of an action drawn freely in turn, the other parts up to 2 (3) deviations; examples: type examples and request/response examples on every method",
		Assumptions: []string{"the document is read as JSON; format of a UUID-typed field, descriptions not set by the model and the required flag of bodies are not prescribed; exceptions of one action have distinct statuses; numeric bounds are exactly representable as 64-bit floats"},
		Harnesses: []mc.Harness{
			{Name: "types", Gen: func(c *mc.C) mc.Case { return oasCase(typesModel(c, defs, c.Choose(2))) }},
			{Name: "fields", Quick: 1, Deep: 2, Gen: func(c *mc.C) mc.Case { return oasCase(fieldsModel(c, specsTop, 2)) }},
			{Name: "params", Quick: 0, Deep: 1, Gen: func(c *mc.C) mc.Case {
				o := defaultHttp()
				return oasCase(serviceModel(c, o, "method path query qreq header body order"))
			}},
			{Name: "types of params", Quick: 0, Deep: 1, Gen: func(c *mc.C) mc.Case {
				o := defaultHttp()
				o.paramTypes = specMenu(nil)
				o.bodyTypes = specMenu(nil)
				o.outTypes = specMenu(nil)
				return oasCase(serviceModel(c, o, mc.Pick(c, "path ptype", "query ptype", "method body", "out")))
			}},
			{Name: "results", Quick: 1, Deep: 2, Gen: func(c *mc.C) mc.Case {
				return oasCase(serviceModel(c, defaultHttp(), "out status outhdr except comment resource"))
			}},
			{Name: "deviations", Quick: 3, Deep: 5, Gen: func(c *mc.C) mc.Case { return oasCase(serviceModel(c, defaultHttp(), "")) }},
			{Name: "examples", Quick: 1, Deep: 2, Gen: func(c *mc.C) mc.Case {
				s := serviceModel(c, defaultHttp(), "method out")
				if c.Bool() {
					s.Http[0].Expected = nil
				}
				nm := mc.Pick(c, "", "ex1")
				switch c.Choose(6) {
				case 0:
					s.Examples = []*sadl.ExampleDef{{Target: "Rec", Name: nm, Example: jobj{"name": "x", "count": 3.0}}}
				case 1:
					s.Examples = []*sadl.ExampleDef{{Target: "Nm", Name: nm, Example: "abc"}, {Target: "Recs", Name: nm, Example: []interface{}{jobj{"name": "y"}}}}
				case 2:
					s.Examples = []*sadl.ExampleDef{{Target: "DoThingRequest", Name: nm, Example: jobj{"body": jobj{"name": "x"}, "id": "i"}}}
				case 3:
					s.Examples = []*sadl.ExampleDef{{Target: "DoThingResponse", Name: nm, Example: jobj{"body": jobj{"name": "x"}, "id": "i"}}}
				case 4:
					s.Examples = []*sadl.ExampleDef{{Target: "SecondResponse", Name: nm, Example: jobj{"body": jobj{"name": "x"}}}, {Target: "SecondRequest", Name: nm, Example: jobj{}}}
				case 5:
					s.Examples = []*sadl.ExampleDef{{Target: "Rec.name", Name: nm, Example: "q"}}
				}
				return oasCase(s)
			}},
			{Name: "service", Quick: 0, Deep: 1, Gen: func(c *mc.C) mc.Case {
				s := serviceModel(c, defaultHttp(), "")
				s.Version = mc.Pick(c, "1", "", "2.0-b")
				s.Comment = comments[c.Choose(len(comments))]
				if c.Bool() {
					s.Name = "Other_name"
				}
				for _, k := range []string{"x_server", "x_license_name", "x_license_url", "x_other"} {
					if c.Bool() {
						if s.Annotations == nil {
							s.Annotations = map[string]string{}
						}
						s.Annotations[k] = map[string]string{"x_server": "https://h.example/v1?a=b&c", "x_license_name": "Some \"L\"", "x_license_url": "http://l.example", "x_other": "o"}[k]
					}
				}
				if t := mc.Pick(c, "", "beta", "beta,old thing"); t != "" {
					s.Http[0].Annotations = map[string]string{"x_tags": t, "x_z": "1"}
				}
				return oasCase(s)
			}},
			{Name: "request examples", Quick: 0, Deep: 1, Gen: func(c *mc.C) mc.Case {
				o := defaultHttp()
				o.methods = []string{"POST", "GET"}
				s := serviceModel(c, o, "method path query header bname body order")
				for _, in := range s.Http[0].Inputs {
					if in.Name == "item" && c.Bool() { // a body called like a header
						in.Name = "X-Auth"
					}
				}
				if c.Bool() { // an output called like an input
					s.Http[0].Expected.Outputs = append(s.Http[0].Expected.Outputs, &sadl.HttpParamSpec{Header: "X-Auth", StructFieldDef: *fld("auth", false, tsOf("String"))})
				}
				names := [][]string{{""}, {"ex1"}, {"ex1", "ex2"}, {"", "ex2"}}[c.Choose(4)]
				whole := c.Bool()
				for i, n := range names {
					req, res := jobj{}, jobj{}
					for j, in := range s.Http[0].Inputs {
						if whole || j == i {
							req[in.Name] = fmt.Sprintf("value %d %d", i, j)
						}
					}
					for j, out := range s.Http[0].Expected.Outputs {
						res[out.Name] = fmt.Sprintf("out %d %d", i, j)
					}
					s.Examples = append(s.Examples, &sadl.ExampleDef{Target: "DoThingRequest", Name: n, Example: req}, &sadl.ExampleDef{Target: "DoThingResponse", Name: n, Example: res})
				}
				return oasCase(s)
			}},
			{Name: "variety", Split: true, Gen: func(c *mc.C) mc.Case {
				s, _ := varied(c, allCats+" pdefault status-body", c.Thorough())
				if s == nil {
					return nil
				}
				return oasCase(s)
			}},
			{Name: "duplicates", Quick: 1, Deep: 2, Gen: func(c *mc.C) mc.Case {
				s := serviceModel(c, defaultHttp(), "method path")
				h := cloneSchema(&sadl.Schema{Http: s.Http[:1]}).Http[0]
				h.Name = "again"
				s.Http = append(s.Http, h)
				return func(r *mc.R) {
					r.Input(func() string { return jsonOf(s) })
					if _, err := exportOAS(s); err == nil {
						r.Fail("duplicate", "two actions on %s %s: export succeeded and lost one", h.Method, h.Path)
					}
				}
			}},
		}})
}
