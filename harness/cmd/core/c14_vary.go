package main

import (
	"verif/mc"
)

// docVariations: a document that uses every part once, and every way to give one part of it an unusual but legal value.
func docVariations(v int) (*adoc, []variation) {
	mod := func(t, f string, g func(a *asch)) *asch { return as(t, f).with(g) }
	rich := mod("object", "", func(a *asch) {
		a.desc = "a rich one"
		a.props = []aprop{{"zeta", as("string", "")}, {"alpha", mod("integer", "int32", func(a *asch) { a.min, a.max = "-3", "7" })}, {"midField", mod("array", "", func(a *asch) { a.items = as("string", "") })},
			{"m", mod("object", "", func(a *asch) { a.addl = aref("Rec") })}, {"col", aref("Col")}, {"at", as("string", "date-time")}, {"id", as("string", "uuid")}, {"flag", as("boolean", "")}, {"dec", as("number", "")}, {"fl", as("number", "double")}, {"big", as("integer", "int64")}, {"rec", aref("Rec")}}
		a.required = []string{"zeta", "col"}
	})
	d := &adoc{title: "Thing", types: append(auxSchemas(), aprop{"S", rich},
		aprop{"Recs", mod("array", "", func(a *asch) { a.items = aref("Rec") })}, aprop{"Mp", mod("object", "", func(a *asch) { a.addl = as("integer", "") })},
		aprop{"Nm", mod("string", "", func(a *asch) { a.pattern = "^[a-z]+$" })}, aprop{"Num", mod("integer", "int64", func(a *asch) { a.min, a.max = "1", "100" })}, aprop{"Fl", as("number", "")})}
	str := as("string", "")
	d.ops = []*aop{
		{id: "doThing", path: "/things/{id}", method: "POST", summary: "does", tags: []string{"Thing"},
			params: []aparam{{"path", "id", "the id", true, str}, {"query", "lim", "limit", false, as("integer", "int32")}, {"query", "skip", "", true, str}, {"header", "X-Auth", "who", false, str}}, body: aref("S"), bodyReq: true,
			resps: map[string]*aresp{"201": {desc: "made", s: aref("S"), headers: []aparam{{"", "ETag", "tag", false, str}}}, "404": {desc: "none", s: aref("Err")}, "400": {desc: "bad", s: aref("Rec")}}},
		{id: "getThing", path: "/things/{id}", method: "GET", params: []aparam{{"path", "id", "", true, str}, {"header", "X-Flag", "", true, as("boolean", "")}},
			resps: map[string]*aresp{"200": {desc: "fine", s: aref("Rec")}, "default": {desc: "other", s: aref("Err")}}},
		{id: "dropThing", path: "/things/{id}", method: "DELETE", params: []aparam{{"path", "id", "", true, str}}, resps: map[string]*aresp{"204": {desc: "gone"}}},
	}
	var l []variation
	add := func(what string, f func()) { l = append(l, variation{"", what, f}) }
	texts := []string{"line one\n\nline three", "ends with newline\n", " padded ", "\"quoted\" \\ back", "*/ // # é ☃ {x} %d: - [a]", "a long text that goes on and on, beyond eighty columns, so that it has to be wrapped somewhere by whoever prints it"}
	text := func(what string, p *string) {
		for _, t := range texts {
			add(what+": text "+t, func() { *p = t })
		}
	}
	shape := func(what string, a *asch) {
		if a.ref != "" {
			return
		}
		switch a.typ {
		case "integer", "number":
			bs := [][2]string{{"0", ""}, {"", "0"}, {"0", "0"}, {"-9", "-2"}, {"-100", ""}, {"", "2147483647"}}
			if a.format != "int32" {
				bs = append(bs, [2]string{"-4294967297", "9007199254740992"}, [2]string{"4294967296", ""}, [2]string{"", "1000000000000"})
			}
			if a.typ == "number" {
				bs = append(bs, [2]string{"-0.25", "1000000.5"}, [2]string{"0.001", ""})
			}
			for _, b := range bs {
				add(what+": bounds "+b[0]+".."+b[1], func() { a.min, a.max = b[0], b[1] })
			}
		case "string", "array", "object":
			if a.format != "" || a.enum != nil || a.props != nil {
				break
			}
			for _, z := range [][2]int{{-1, 0}, {1, 1}, {1, -1}, {-1, 1 << 33}, {3, 2147483647}, {1 << 32, -1}} {
				add(what+": sizes", func() { a.lo, a.hi = z[0], z[1] })
			}
			if a.typ == "string" {
				for _, p := range []string{`^[a-z"\\/]+\d*$`, "a|b", `^\s*$`, "é+", "/x/", "^$"} {
					add(what+": pattern "+p, func() { a.pattern = p })
				}
				for _, e := range [][]string{{"a b", "c,d", "e\"f"}, {"red", "Green", "BLUE_3"}, {"x", "X"}, {"1", "2"}, {"b", "a", "c-c"}} {
					add(what+": enum", func() { a.enum, a.pattern = e, "" })
				}
			}
		}
	}
	for i := range d.types {
		t := d.types[i]
		text(t.name, &t.s.desc)
		shape(t.name, t.s)
		for k := range t.s.props {
			p := &t.s.props[k]
			w := t.name + "." + p.name
			if p.s.ref == "" && k < 4 {
				text(w, &p.s.desc)
			}
			shape(w, p.s)
			if t.name == "S" && k < 3 || t.name == "Rec" {
				for _, n := range []string{"Zed", "mid_field2", "x1", "q", "URL", "Col", "name2"} {
					add(w+": name "+n, func() {
						for j, q := range t.s.required {
							if q == p.name {
								t.s.required[j] = n
							}
						}
						p.name = n
					})
				}
			}
			req := func(n string, on bool) {
				var out []string
				for _, q := range t.s.required {
					if q != n {
						out = append(out, q)
					}
				}
				if on {
					out = append([]string{n}, out...)
				}
				t.s.required = out
			}
			was := false
			for _, q := range t.s.required {
				was = was || q == p.name
			}
			add(w+": required", func() { req(p.name, !was) })
		}
		if t.s.props != nil {
			s := t.s
			// names that only differ in case, or where one begins with the other
			for _, pair := range [][2]string{{"twin", "Twin"}, {"TWIN", "tWIN"}, {"twin", "twin2"}, {"twins", "twin"}, {"a_b", "ab"}} {
				for _, who := range []int{0, 1} {
					add(t.name+": "+pair[who]+" required, not "+pair[1-who], func() {
						s.props = append(s.props, aprop{pair[0], as("string", "")}, aprop{pair[1], as("boolean", "")})
						s.required = append(s.required, pair[who])
					})
				}
			}
			add(t.name+": everything required", func() {
				s.required = nil
				for _, p := range s.props {
					s.required = append(s.required, p.name)
				}
			})
			add(t.name+": nothing required", func() { s.required = nil })
			add(t.name+": more properties allowed", func() { s.addl = as("string", "") })
			add(t.name+": more properties allowed", func() { s.addl = aref("Err") })
		}
	}
	for oi, o := range d.ops {
		text(o.id, &o.summary)
		for _, n := range []string{"x", "do_thing2", "DoThings", "response", "get2"} {
			add(o.id+": id "+n, func() { o.id = n })
		}
		if oi == 0 {
			add("PUT", func() { o.method = "PUT" })
			add("PATCH", func() { o.method = "PATCH" })
			add("body optional", func() { o.bodyReq = false })
		}
		for _, p := range []string{"/{id}", "/things/{id}/", "/things/{id}.json", "/a.b/c-d_e/{id}/x", "/Things/{id}", "/things/{id}/things"} {
			add(o.id+": path "+p, func() { o.path = p })
		}
		for _, t := range [][]string{{"Thing Store", "x"}, {"a,b", "c"}, {"t", "T", "t"}, {"One", "", "Two"}} {
			if oi == 0 && t[1] != "" && t[0] != "a,b" {
				add(o.id+": tags", func() { o.tags = t })
			}
		}
		for k := range o.params {
			p := &o.params[k]
			w := o.id + "." + p.name
			if oi > 0 && p.in == "path" {
				continue
			}
			text(w, &p.desc)
			if p.in != "path" {
				add(w+": required", func() { p.required = !p.required })
				for _, n := range []string{"x", "Lim2", "long_name_3", "x-token", "X-RATE", "a.b", "page-size", "ID2"} {
					add(w+": name "+n, func() { p.name = n })
				}
			}
			for _, s := range []*asch{as("integer", "int8"), as("integer", "int16"), as("integer", "int32"), as("integer", "int64"), as("integer", ""), as("number", "float"), as("number", "double"), as("number", ""), as("boolean", ""), as("string", "uuid"), as("string", "date-time"), as("string", "byte")} {
				add(w+": type "+s.typ+s.format, func() { p.s = s })
			}
			for _, n := range []string{"Nm", "Num", "Col"} {
				if v == 3 {
					add(w+": type "+n, func() { p.s = aref(n) })
				}
			}
			add(w+": several", func() {
				if p.in == "query" {
					p.s = mod("array", "", func(a *asch) { a.items = as("integer", "int32") })
				}
			})
			own := p.s.with(func(*asch) {})
			n0 := len(l)
			shape(w, own)
			for j := n0; j < len(l); j++ {
				f := l[j].apply
				l[j].apply = func() { f(); p.s = own }
			}
		}
		for st, rs := range o.resps {
			_ = st
			text(o.id+" "+st, &rs.desc)
			for k := range rs.headers {
				h := &rs.headers[k]
				text(o.id+" header", &h.desc)
				for _, n := range []string{"x-count", "X-RATE-Limit", "etag", "Location"} {
					add(o.id+" header "+n, func() { h.name = n })
				}
				for _, s := range []*asch{as("integer", "int32"), as("boolean", ""), as("integer", ""), as("string", "date-time"), as("string", "uuid"), as("number", "")} {
					add(o.id+" header type "+s.typ+s.format, func() { h.s = s })
				}
			}
			if oi == 0 && st == "201" {
				for _, s := range []*asch{aref("Recs"), aref("Mp"), aref("Nm"), as("boolean", ""), as("integer", "int64"), mod("array", "", func(a *asch) { a.items = aref("S") }), mod("object", "", func(a *asch) { a.addl = aref("S") })} {
					add(o.id+": result", func() { rs.s = s })
				}
			}
		}
		first := map[string]string{"doThing": "201", "getThing": "200", "dropThing": "204"}[o.id]
		for _, st := range []string{"200", "202", "203", "206", "299", "302", "307"} {
			add(o.id+": expected "+st, func() {
				r := o.resps[first]
				delete(o.resps, first)
				o.resps[st] = r
			})
		}
		for _, sts := range [][]string{{"401", "403"}, {"410", "500"}, {"501", "503"}, {"422", "429"}, {"599", "418"}, {"404", "default"}, {"400", "405", "406", "409", "500"}} {
			add(o.id+": errors", func() {
				for k := range o.resps {
					if k != first {
						delete(o.resps, k)
					}
				}
				for i, st := range sts {
					o.resps[st] = &aresp{desc: "err " + st, s: aref([]string{"Err", "Rec", "S"}[i%3])}
				}
			})
		}
	}
	for _, t := range []string{"x", "T_1", "aLongTitle9"} {
		add("title "+t, func() { d.title = t })
	}
	add("media types for the whole document", func() { d.global = 1 })
	add("media types at both levels", func() { d.global = 2 })
	add("operations say what they consume", func() { d.global = 3 })
	add("operations say what they produce", func() { d.global = 4 })
	return d, l
}

func docVaried(c *mc.C, v int, how string, pairs bool) mc.Case {
	d, l := docVariations(v)
	i := c.Choose(len(l))
	if pairs {
		j := c.Choose(len(l))
		if j > i {
			return nil
		}
		if j < i {
			l[j].apply()
		}
	}
	l[i].apply()
	routes := map[string]bool{}
	for _, o := range d.ops {
		if routes[o.method+o.path] {
			return nil
		}
		routes[o.method+o.path] = true
		names := map[string]bool{}
		for _, p := range o.params {
			if names[p.in+p.name] {
				return nil
			}
			names[p.in+p.name] = true
		}
	}
	ids := map[string]bool{}
	for _, o := range d.ops {
		if ids[o.id] {
			return nil
		}
		ids[o.id] = true
	}
	for _, t := range d.types {
		props := map[string]bool{}
		for _, p := range t.s.props {
			if props[p.name] {
				return nil
			}
			props[p.name] = true
		}
	}
	return importCase(v, how, d)
}
