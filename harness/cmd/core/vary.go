package main

import (
	"strconv"
	"strings"

	"github.com/boynton/sadl"
	"verif/mc"
)

// Variations of a rich model: each changes one attribute of one node to an unusual but legal value. Checks enumerate
// every single variation, or every pair, of the categories their property covers.

type variation struct {
	cat, what string
	apply     func()
}

// broadModel: every kind of definition once, and three actions that use every kind of part.
func broadModel() *sadl.Schema {
	s := &sadl.Schema{Name: "svc", Version: "1", Types: serviceAux()}
	s.Types = append(s.Types, td("S", structTS(
		fld("zeta", true, tsOf("String")), fld("alpha", false, ranged("Int32", "-3", "7")), fld("midField", false, arrTS("String")), fld("m", false, mapTS("Rec")),
		fld("col", true, tsOf("Col")), fld("nm", false, tsOf("Nm")), fld("num", false, tsOf("Num")), fld("at", false, tsOf("Timestamp")), fld("id", false, tsOf("UUID")),
		fld("flag", false, tsOf("Bool")), fld("dec", false, tsOf("Decimal")), fld("fl", false, tsOf("Float64")), fld("big", false, tsOf("Int64")), fld("rec", false, tsOf("Rec")), fld("recs", false, tsOf("Recs")))))
	p := func(name, query, header string, path, req bool, t string) *sadl.HttpParamSpec {
		return &sadl.HttpParamSpec{Path: path, Query: query, Header: header, StructFieldDef: *fld(name, req, tsOf(t))}
	}
	exc := func(t string, st int32) *sadl.HttpExceptionSpec {
		return &sadl.HttpExceptionSpec{Type: t, Status: st}
	}
	s.Http = []*sadl.HttpDef{
		{Name: "doThing", Method: "POST", Path: "/things/{id}?lim={lim}&skip={skip}", Inputs: []*sadl.HttpParamSpec{p("id", "", "", true, true, "String"), p("lim", "lim", "", false, false, "Int32"), p("skip", "skip", "", false, true, "String"), p("auth", "", "X-Auth", false, false, "String"), p("body", "", "", false, true, "S")},
			Expected:   &sadl.HttpExpectedSpec{Status: 201, Outputs: []*sadl.HttpParamSpec{p("etag", "", "ETag", false, false, "String"), p("body", "", "", false, true, "S")}},
			Exceptions: []*sadl.HttpExceptionSpec{exc("Missing", 404), exc("Err", 400)}},
		{Name: "getThing", Method: "GET", Path: "/things/{id}", Inputs: []*sadl.HttpParamSpec{p("id", "", "", true, true, "String"), p("flag", "", "X-Flag", false, false, "Bool")},
			Expected:   &sadl.HttpExpectedSpec{Status: 200, Outputs: []*sadl.HttpParamSpec{p("body", "", "", false, true, "Rec")}},
			Exceptions: []*sadl.HttpExceptionSpec{exc("Missing", 404)}},
		{Name: "dropThing", Method: "DELETE", Path: "/things/{id}", Inputs: []*sadl.HttpParamSpec{p("id", "", "", true, true, "String")},
			Expected: &sadl.HttpExpectedSpec{Status: 204}, Exceptions: []*sadl.HttpExceptionSpec{exc("Err", 0)}},
	}
	return cloneSchema(s)
}

// variations lists what can be varied in s. Categories: fname required comment annotation fdefault symbol size bound
// pattern values union schema action path method resource tags pname wire pdefault ptype status outheader exception example
func variations(s *sadl.Schema, cats string) []variation {
	var l []variation
	on := map[string]bool{}
	for _, k := range strings.Fields(cats) {
		on[k] = true
	}
	add := func(cat, what string, f func()) {
		if on[cat] {
			l = append(l, variation{cat, what, f})
		}
	}
	texts := []string{" padded ", "line one\n\nline three", "ends with newline\n", "\"quoted\" \\ back", "*/ // /* # é ☃ {x} %d", "a long comment that goes on and on, beyond eighty columns, so that it has to be wrapped somewhere by whoever prints it"}
	comment := func(what string, p *string) {
		for i, t := range texts {
			if i == 1 || i == 4 {
				add("comment2", what+": comment "+t, func() { *p = t })
			}
			add("comment", what+": comment "+t, func() { *p = t })
		}
	}
	annos := func(what string, p *map[string]string) {
		add("annotation", what+": annotations", func() { *p = map[string]string{"x_a": "b", "x_flag": ""} })
	}
	constraints := func(what string, ts *sadl.TypeSpec) {
		switch ts.Type {
		case "String", "Array", "Map":
			for _, mm := range [][2]int64{{0, -1}, {-1, 0}, {0, 0}, {1, 1}, {-1, 1 << 33}, {1 << 33, 1 << 40}, {3, 2147483647}} {
				if ts.Type != "Map" && ts.Type != "Array" || mm[0] < 100 {
					add("size", what+": size", func() { *ts = sized(*ts, mm[0], mm[1]) })
				}
			}
			if ts.Type == "String" {
				for _, p := range []string{`^[a-z"\\/]+\d*$`, `a|b`, `^\s*$`, "é+", "/x/", "^$"} {
					add("pattern", what+": pattern "+p, func() { *ts = sadl.TypeSpec{Type: "String", Pattern: p} })
				}
				for _, v := range [][]string{{"a b", "c,d", "e\"f"}, {"", "x y"}, {"B b", "A a", "C c"}, {"1", "2"}, {"only one"}} {
					add("values", what+": values", func() { *ts = sadl.TypeSpec{Type: "String", Values: v} })
				}
			}
		case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
			for _, b := range [][2]string{{"0", ""}, {"", "0"}, {"-9", "-2"}, {"0", "0"}, {"100", ""}, {"", "-100"}} {
				add("bound", what+": bounds", func() { *ts = ranged(ts.Type, b[0], b[1]) })
			}
			if ts.Type[0] != 'I' {
				add("bound", what+": bounds", func() { *ts = ranged(ts.Type, "-0.25", "1000000.5") })
			}
			if ts.Type == "Int64" || ts.Type == "Decimal" {
				add("bound", what+": bounds", func() { *ts = ranged(ts.Type, "-4294967297", "9007199254740992") })
			}
			if ts.Type != "Int8" && ts.Type != "Int16" {
				add("bound", what+": bounds", func() { *ts = ranged(ts.Type, "-2147483648", "2147483647") })
			}
		}
	}
	for _, t := range s.Types {
		comment(t.Name, &t.Comment)
		annos(t.Name, &t.Annotations)
		constraints(t.Name, &t.TypeSpec)
		for i, f := range t.Fields {
			w := t.Name + "." + f.Name
			for _, n := range []string{"Zed", "mid_field2", "x1", "Rec", "q", "URL", "aLongNameWithManyWords", "id2"} {
				if t.Name == "S" && i < 3 || t.Name == "Rec" {
					add("fname", w+": name "+n, func() { f.Name = n })
				}
			}
			add("required", w+": required", func() { f.Required = !f.Required })
			if i < 2 {
				comment(w, &f.Comment)
				annos(w, &f.Annotations)
			}
			constraints(w, &f.TypeSpec)
		}
		if t.Type == "Enum" {
			for _, sy := range [][]string{{"red", "green"}, {"Mixed", "mixed", "MIXED2"}, {"A_B", "aB", "a1"}, {"ONLY"}, {"E", "D", "C", "B", "A"}, {"x", "X"}} {
				add("symbol", t.Name+": symbols "+strings.Join(sy, ","), func() { t.TypeSpec = enumTS(sy...) })
			}
			for i, e := range t.Elements {
				if i < 2 {
					comment(t.Name+"."+e.Symbol, &e.Comment)
					annos(t.Name+"."+e.Symbol, &e.Annotations)
				}
			}
		}
	}
	for _, u := range [][]string{{"a", "String", "b", "String"}, {"a", "Rec", "b", "Rec"}, {"one", "Rec"}, {"rec", "Rec", "err", "Err", "s", "S", "missing", "Missing"}, {"B", "Err", "A", "Rec"}} {
		add("union", "union "+strings.Join(u, ","), func() {
			if len(s.Types) > 0 && s.Types[len(s.Types)-1].Name == "U0" {
				return
			}
			s.Types = append(s.Types, td("U0", unionTS(u...)))
		})
	}
	for _, e := range []struct {
		what string
		f    func()
	}{
		{"name Other_1", func() { s.Name = "Other_1" }}, {"no version", func() { s.Version = "" }}, {"version text", func() { s.Version = "2.0.0-beta+1" }},
		{"namespace", func() { s.Namespace = "com.example.things" }}, {"base /v1", func() { s.Base = "/v1" }}, {"base /v1/x.y", func() { s.Base = "/v1/x.y" }},
	} {
		add("schema", e.what, e.f)
	}
	comment("schema", &s.Comment)
	for _, u := range []string{"https://h.example/v1/", "/relative", "HTTP://H.example:8080", "https://h.example/v1?a=b&c"} {
		add("schema", "server "+u, func() { s.Annotations = map[string]string{"x_server": u} })
	}
	add("schema", "license", func() { s.Annotations = map[string]string{"x_license_name": "The \"L\" 2.0"} })
	add("schema", "license url", func() { s.Annotations = map[string]string{"x_license_url": "https://l.example/L?x=1&y=2"} })
	for hi, h := range s.Http {
		comment(h.Name, &h.Comment)
		annos(h.Name, &h.Annotations)
		for _, n := range []string{"x", "do_thing2", "doThing2", "doThings", "response", "doThingRequest"} {
			if hi == 0 {
				add("action", h.Name+": name "+n, func() { h.Name = n })
			}
		}
		if hi == 0 {
			for _, m := range []string{"PUT", "PATCH"} {
				add("method", h.Name+": "+m, func() { h.Method = m })
			}
		}
		if hi == 1 {
			for _, m := range []string{"HEAD", "OPTIONS"} {
				add("method", h.Name+": "+m, func() {
					h.Method = m
				})
			}
		}
		for _, f := range []func(p string) string{
			func(p string) string { return strings.Replace(p, "/things/{id}", "/things/{id}/", 1) },
			func(p string) string { return strings.Replace(p, "/things/{id}", "/{id}", 1) },
			func(p string) string { return strings.Replace(p, "/things/{id}", "/things/{id}.json", 1) },
			func(p string) string { return strings.Replace(p, "/things/{id}", "/a.b/c-d_e/{id}/x", 1) },
			func(p string) string { return strings.Replace(p, "/things/{id}", "/Things/{id}", 1) },
			func(p string) string { return strings.Replace(p, "/things/{id}", "/things/{id}/things/x", 1) },
		} {
			add("path", h.Name+": path "+f(h.Path), func() { h.Path = f(h.Path) })
		}
		for _, rz := range []string{"Thing", "thing", "ThingStore"} {
			add("resource", h.Name+": resource "+rz, func() { h.Resource = rz })
		}
		for _, t := range []string{"beta", "Beta,OLD", "a b,c d,e", "same,same"} {
			add("tags", h.Name+": tags "+t, func() { h.Annotations = map[string]string{"x_tags": t} })
		}
		params := append([]*sadl.HttpParamSpec{}, h.Inputs...)
		if h.Expected != nil {
			comment(h.Name+" expected", &h.Expected.Comment)
			annos(h.Name+" expected", &h.Expected.Annotations)
			sts := []int32{200, 202, 203, 206, 299, 302}
			if len(h.Expected.Outputs) == 0 {
				sts = append(sts, 205, 304, 301)
			}
			for _, st := range sts {
				add("status", h.Name+": expected status", func() { h.Expected.Status = st })
			}
			for _, st := range []int32{204, 304, 205} {
				add("status-body", h.Name+": expected status with outputs", func() { h.Expected.Status = st })
			}
			add("status", h.Name+": outputs reversed", func() {
				o := h.Expected.Outputs
				for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
					o[i], o[j] = o[j], o[i]
				}
			})
			for _, o := range h.Expected.Outputs {
				if o.Header != "" {
					for _, n := range []string{"x-count", "X-RATE-Limit", "etag", "Location"} {
						add("outheader", h.Name+"."+o.Name+": header "+n, func() { o.Header = n })
					}
					for _, t := range []string{"Int32", "Bool", "Int64", "Nm", "Timestamp"} {
						add("outheader", h.Name+"."+o.Name+": header type "+t, func() { o.TypeSpec = tsOf(t) })
					}
				}
				comment(h.Name+"."+o.Name, &o.Comment)
				annos(h.Name+"."+o.Name, &o.Annotations)
			}
			add("outheader", h.Name+": more headers", func() {
				for _, n := range []string{"X-B", "X-A", "X-C"} {
					h.Expected.Outputs = append(h.Expected.Outputs, &sadl.HttpParamSpec{Header: n, StructFieldDef: *fld("out"+n[2:], false, tsOf("String"))})
				}
			})
		}
		for i, p := range params {
			w := h.Name + "." + p.Name
			if hi > 0 && p.Path {
				continue
			}
			comment(w, &p.Comment)
			annos(w, &p.Annotations)
			if !p.Path {
				if p.Query != "" || p.Header != "" {
					add("required", w+": required", func() { p.Required = !p.Required })
				}
			}
			if !p.Path && (p.Query != "" || p.Header != "") {
				d := map[string]interface{}{"String": "dflt", "Bool": true, "Int32": dec("5")}[p.Type]
				add("pdefault", w+": default", func() { p.Required, p.Default = false, d })
			}
			rename := func(n string) {
				h.Path = strings.Replace(h.Path, "{"+p.Name+"}", "{"+n+"}", -1)
				p.Name = n
			}
			for _, n := range []string{"q", "Lim2", "long_name_3", "aB"} {
				if i < 4 {
					add("pname", w+": name "+n, func() { rename(n) })
				}
			}
			if p.Query != "" {
				for _, n := range []string{"page-size", "Lim", "a.b", "id", "X"} {
					add("wire", w+": query "+n, func() { h.Path = strings.Replace(h.Path, p.Query+"={", n+"={", 1); p.Query = n })
				}
			}
			if p.Header != "" {
				for _, n := range []string{"x-token", "X-RATE", "lim", "If-None-Match"} {
					add("wire", w+": header "+n, func() { p.Header = n })
				}
			}
			if p.Path || p.Query != "" || p.Header != "" {
				for _, t := range []string{"Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bool", "UUID", "Timestamp", "Nm", "Num", "Col"} {
					add("ptype", w+": type "+t, func() { p.TypeSpec = tsOf(t) })
				}
			}
		}
		for k, sts := range [][]int32{{401, 403}, {410, 500}, {501, 503}, {422, 429}, {304, 0}, {599, 418}} {
			add("exception", h.Name+": statuses", func() {
				h.Exceptions = []*sadl.HttpExceptionSpec{{Type: "Err", Status: sts[k%2]}, {Type: "Missing", Status: sts[1-k%2]}}
			})
		}
		add("exception", h.Name+": none", func() { h.Exceptions = nil })
		add("exception", h.Name+": four", func() {
			h.Exceptions = []*sadl.HttpExceptionSpec{{Type: "Missing", Status: 404}, {Type: "Err", Status: 400}, {Type: "Rec", Status: 409}, {Type: "S", Status: 500}}
		})
		add("exception-same", h.Name+": one type, two statuses", func() {
			h.Exceptions = []*sadl.HttpExceptionSpec{{Type: "Err", Status: 404}, {Type: "Err", Status: 400}, {Type: "Missing", Status: 500}}
		})
		for _, e := range h.Exceptions {
			comment(h.Name+" exception "+e.Type, &e.Comment)
			annos(h.Name+" exception "+e.Type, &e.Annotations)
		}
	}
	ex := func(target, name string, v interface{}) *sadl.ExampleDef {
		return &sadl.ExampleDef{Target: target, Name: name, Example: v}
	}
	one, two := jobj{"name": "x", "count": 3.0}, jobj{"name": "y \"q\""}
	for _, e := range []struct {
		what string
		l    []*sadl.ExampleDef
	}{
		{"two of a type", []*sadl.ExampleDef{ex("Rec", "", one), ex("Rec", "", two)}},
		{"two named of a type", []*sadl.ExampleDef{ex("Rec", "n1", one), ex("Rec", "n2", two)}},
		{"scalars", []*sadl.ExampleDef{ex("Nm", "", "abc"), ex("Num", "", 7.0), ex("Col", "", "RED"), ex("Recs", "", []interface{}{one})}},
		{"empty values", []*sadl.ExampleDef{ex("Recs", "", []interface{}{}), ex("Mp", "", jobj{}), ex("Nm", "", "")}},
		{"request with everything", []*sadl.ExampleDef{ex("DoThingRequest", "", jobj{"id": "i", "lim": 3.0, "skip": "s", "auth": "a", "body": one})}},
		{"request with zeroes", []*sadl.ExampleDef{ex("DoThingRequest", "z", jobj{"id": "i", "lim": 0.0, "skip": "", "auth": "", "body": jobj{}})}},
		{"requests of two actions", []*sadl.ExampleDef{ex("DoThingRequest", "n", jobj{"id": "i"}), ex("GetThingRequest", "n", jobj{"id": "j", "flag": false}), ex("DropThingRequest", "n", jobj{"id": "k"})}},
		{"responses", []*sadl.ExampleDef{ex("DoThingResponse", "", jobj{"etag": "e", "body": one}), ex("GetThingResponse", "n", jobj{"body": two}), ex("DropThingResponse", "n", jobj{})}},
		{"comment", []*sadl.ExampleDef{{Target: "Rec", Name: "c", Comment: "note", Example: one, Annotations: map[string]string{"x_a": "1"}}}},
	} {
		add("example", "examples: "+e.what, func() { s.Examples = append(s.Examples, e.l...) })
	}
	return l
}

const allCats = "fname required comment annotation symbol size bound pattern values union schema action path method resource tags pname wire ptype status outheader exception exception-same example"

// varied draws a rich model with one variation, or (pairs) with two.
func varied(c *mc.C, cats string, pairs bool) (*sadl.Schema, string) {
	s := broadModel()
	l := variations(s, cats)
	i := c.Choose(len(l))
	what := l[i].what
	if pairs {
		j := c.Choose(len(l))
		if j > i {
			return nil, ""
		}
		if j < i {
			l[j].apply()
			what += "; " + l[j].what
		}
	}
	l[i].apply()
	if !validSchema(s) {
		return nil, ""
	}
	return cloneSchema(s), what
}

// validSchema: no two fields, symbols, parameters, places or paths of the drawn model collide.
func validSchema(s *sadl.Schema) bool {
	uniq := func() func(string) bool {
		m := map[string]bool{}
		return func(k string) bool {
			if m[k] {
				return false
			}
			m[k] = true
			return true
		}
	}
	routes := uniq()
	for _, t := range s.Types {
		u := uniq()
		for _, f := range t.Fields {
			if !u(strings.ToLower(strings.ReplaceAll(f.Name, "_", ""))) {
				return false
			}
		}
	}
	for _, h := range s.Http {
		un, ul := uniq(), uniq()
		for _, p := range h.Inputs {
			if !un(strings.ToLower(strings.ReplaceAll(p.Name, "_", ""))) {
				return false
			}
			if p.Query != "" && !ul("q"+p.Query) || p.Header != "" && !ul("h"+strings.ToLower(p.Header)) {
				return false
			}
		}
		if h.Expected != nil {
			u2 := uniq()
			for _, p := range h.Expected.Outputs {
				if !u2(strings.ToLower(p.Header)) {
					return false
				}
			}
			us := uniq()
			us(statusKey(h.Expected.Status))
			for _, e := range h.Exceptions {
				if !us(statusKey(e.Status)) {
					return false
				}
			}
		}
		p := h.Path
		if i := strings.Index(p, "?"); i >= 0 {
			p = p[:i]
		}
		if !routes(h.Method + " " + p) {
			return false
		}
	}
	return true
}

func statusKey(n int32) string { return strconv.Itoa(int(n)) }
