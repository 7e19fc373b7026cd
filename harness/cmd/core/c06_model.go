package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"verif/mc"
)

// ---- C07: every attribute of every schema node, by reflection

// baseNames are the base types the documentation lists.
var baseNames = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UnitValue", "UUID", "Array", "Map", "Struct", "Enum", "Union", "Any"}

// fill sets every exported attribute; the default is "present with an ordinary value"; deviations: absent, another value.
func fill(c *mc.C, v reflect.Value, name string, depth int) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(mc.PickDev(c, "v"+name, "", "a \"q\" <b> & \\ é\n\u2028x"))
	case reflect.Bool:
		v.SetBool(!c.DevBool())
	case reflect.Int32:
		v.SetInt(mc.PickDev(c, int64(200), 0, -1))
	case reflect.Int64:
		v.SetInt(mc.PickDev(c, int64(3), 0, 9223372036854775807))
	case reflect.Ptr:
		if v.Type() == reflect.TypeOf((*sadl.Decimal)(nil)) {
			if s := mc.PickDev(c, "1.5", "", "0", "-12345678901234567890123456789.0123456789", "0.1", "9223372036854775807"); s != "" {
				v.Set(reflect.ValueOf(dec(s)))
			}
			return
		}
		if v.Type().Elem().Kind() != reflect.Struct {
			if c.DevBool() {
				return
			}
		}
		n := reflect.New(v.Type().Elem())
		fill(c, n.Elem(), name, depth)
		v.Set(n)
	case reflect.Interface:
		switch c.Dev(7) {
		case 0:
			v.Set(reflect.ValueOf("text"))
		case 1:
		case 2:
			v.Set(reflect.ValueOf(false))
		case 3:
			v.Set(reflect.ValueOf([]interface{}{"a", true, nil}))
		case 4:
			v.Set(reflect.ValueOf(map[string]interface{}{"k": []interface{}{}, "n": nil}))
		case 5:
			v.Set(reflect.ValueOf(12.5))
		case 6:
			v.Set(reflect.ValueOf(""))
		}
	case reflect.Slice:
		if depth <= 0 {
			return
		}
		n := mc.PickDev(c, 1, 0, 2)
		if n == 0 {
			return
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			fill(c, s.Index(i), fmt.Sprintf("%s%d", name, i), depth-1)
		}
		v.Set(s)
	case reflect.Map:
		switch c.Dev(3) {
		case 0:
			v.Set(reflect.ValueOf(map[string]string{"x_a": "1"}))
		case 1:
		case 2:
			v.Set(reflect.ValueOf(map[string]string{"x_a": "", "x_b": "<\">"}))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			fill(c, v.Field(i), f.Name, depth)
		}
	}
}

func init() {
	mc.Register(&mc.Prop{ID: "C06",
		Bounds: "all schemas of up to 3 types (4 in thorough) with names from a pool that collides with itself, with case variants and with built-in names, and up to 2 (3) HTTP actions; every name of the pool looked up",
		Harnesses: []mc.Harness{
			{Name: "names", Gen: func(c *mc.C) mc.Case {
				nt, nh := 3, 2
				if c.Thorough() {
					nt, nh = 4, 3
				}
				tpool := []string{"A", "B", "a", "String", "Struct", "Any", "Foo"}
				if builtin := c.Choose(1 + len(baseNames)); builtin > 0 { // every built-in name, in turn
					tpool[4], nt, nh = baseNames[builtin-1], 2, 0
				}
				hpool := []string{"x", "y", "X", "A", ""}
				differ := c.Choose(5) // in what the definitions differ from each other: everything, nothing, or one attribute
				schema := &sadl.Schema{Name: "t"}
				want := true
				seen := map[string]string{}
				for _, b := range baseNames {
					seen[b] = "base"
				}
				for i := 0; i < nt; i++ {
					k := c.Choose(len(tpool) + 1)
					if k == 0 {
						break
					}
					n := tpool[k-1]
					if seen[n] != "" {
						want = false
					}
					seen[n] = fmt.Sprintf("comment %d", i)
					t := td(n, tsOf([]string{"String", "Int32", "Bool", "UUID"}[i]))
					t.Comment = seen[n]
					if differ != 0 && differ != 2 {
						t.Comment, seen[n] = "same", "same"
					}
					if differ == 1 || differ == 2 {
						t.Type = "String"
					}
					if differ == 4 {
						t.Annotations = map[string]string{"x_i": fmt.Sprint(i)}
						t.TypeSpec = []sadl.TypeSpec{tsOf("String"), structTS(fld("a", false, tsOf("String"))), enumTS("P"), arrTS("String")}[i]
					}
					schema.Types = append(schema.Types, t)
				}
				hseen := map[string]string{}
				samePath := differ == 1 || differ == 3
				for i := 0; i < nh; i++ {
					k := c.Choose(len(hpool) + 1)
					if k == 0 {
						break
					}
					n := hpool[k-1]
					if hseen[n] != "" {
						want = false
					}
					hseen[n] = fmt.Sprintf("/p%d", i)
					if samePath {
						hseen[n] = "/p"
					}
					h := &sadl.HttpDef{Name: n, Method: "GET", Path: hseen[n]}
					if differ == 0 || differ == 3 {
						h.Method = []string{"GET", "PUT", "POST"}[i]
					}
					if differ == 0 || differ == 4 {
						h.Resource = []string{"", "r", "s"}[i]
					}
					schema.Http = append(schema.Http, h)
				}
				return func(r *mc.R) {
					r.Input(func() string { return jsonOf(schema) })
					before := cloneSchema(schema)
					model, err := sadl.NewModel(schema)
					r.Outcome("%v %d %d", err == nil, len(schema.Types), len(schema.Http))
					if (err == nil) != want || (model != nil) != want {
						r.Fail("verdict", "NewModel: %v, want accepted=%v", err, want)
						return
					}
					if d := diffOf(before, schema); d != "" {
						r.Fail("mutated", "the schema changed: %s", d)
					}
					if !want {
						return
					}
					if d := diffOf(before, &model.Schema); d != "" {
						r.Fail("content", "the model's schema differs: %s", d)
					}
					for _, n := range append(append([]string{"", "C", "string", "AA", "foo"}, tpool...), baseNames...) {
						t := model.FindType(n)
						switch {
						case seen[n] == "" && t != nil:
							r.Fail("ghost", "FindType(%q) found %s", n, jsonOf(t))
						case seen[n] == "base" && (t == nil || t.Name != n || t.Type != n):
							r.Fail("base", "FindType(%q) = %s", n, jsonOf(t))
						case seen[n] != "" && seen[n] != "base" && (t == nil || t.Name != n || t.Comment != seen[n]):
							r.Fail("lookup", "FindType(%q) = %s", n, jsonOf(t))
						}
					}
					for _, n := range append([]string{"", "z", "a"}, hpool...) {
						h := model.FindHttp(n)
						if hseen[n] == "" && h != nil || hseen[n] != "" && (h == nil || h.Path != hseen[n]) {
							r.Fail("lookup-http", "FindHttp(%q) = %s", n, jsonOf(h))
						}
					}
				}
			}},
		}})

	mc.Register(&mc.Prop{ID: "C07",
		Bounds: "one instance of every schema node with every attribute set, and every model at most 1 (2 in thorough) attribute changes away, and 2 (3) changes away for one type, one HTTP action, one operation plus example: absent, empty, zero, another value with JSON-special characters, big decimals, repeated list elements",
		Harnesses: []mc.Harness{
			{Name: "attributes", Quick: 1, Deep: 2, Gen: func(c *mc.C) mc.Case {
				schema := &sadl.Schema{}
				fill(c, reflect.ValueOf(schema).Elem(), "", 3)
				return jsonCase(schema)
			}},
			{Name: "type", Quick: 2, Deep: 3, Gen: func(c *mc.C) mc.Case {
				t := &sadl.TypeDef{}
				fill(c, reflect.ValueOf(t).Elem(), "", 1)
				return jsonCase(&sadl.Schema{Name: "t", Types: []*sadl.TypeDef{t}})
			}},
			{Name: "http", Quick: 2, Deep: 3, Gen: func(c *mc.C) mc.Case {
				h := &sadl.HttpDef{}
				fill(c, reflect.ValueOf(h).Elem(), "", 1)
				return jsonCase(&sadl.Schema{Name: "t", Http: []*sadl.HttpDef{h}})
			}},
			{Name: "operation-example", Quick: 2, Deep: 3, Gen: func(c *mc.C) mc.Case {
				o := &sadl.OperationDef{}
				fill(c, reflect.ValueOf(o).Elem(), "", 1)
				e := &sadl.ExampleDef{}
				fill(c, reflect.ValueOf(e).Elem(), "", 1)
				return jsonCase(&sadl.Schema{Name: "t", Operations: []*sadl.OperationDef{o}, Examples: []*sadl.ExampleDef{e}})
			}},
		}})

	// ---- C08
	canon := func(ts *sadl.TypeSpec) string { return "" }
	_ = canon
	aux := []*sadl.TypeDef{
		td("S1", sadl.TypeSpec{Type: "String", MaxSize: i64(3)}), td("S2", sadl.TypeSpec{Type: "String", MaxSize: i64(3)}), td("S3", sadl.TypeSpec{Type: "String", MaxSize: i64(4)}),
		td("N1", sadl.TypeSpec{Type: "Decimal", Min: dec("1")}), td("N2", sadl.TypeSpec{Type: "Decimal", Min: dec("1.0")}),
		td("E1", enumTS("a", "b")), td("E2", enumTS("b", "a")), td("E3", enumTS("a", "c")),
		td("P1", structTS(fld("x", true, tsOf("Int8")))), td("P2", structTS(fld("x", true, tsOf("Int8")))), td("P3", structTS(fld("x", false, tsOf("Int8")))),
	}
	auxMap := map[string]*sadl.TypeSpec{}
	for _, t := range aux {
		auxMap[t.Name] = &t.TypeSpec
	}
	for _, b := range baseNames {
		auxMap[b] = &sadl.TypeSpec{Type: b}
	}
	var canonSpec func(ts *sadl.TypeSpec) string
	canonName := func(n string) string {
		if t := auxMap[n]; t != nil {
			return canonSpec(t)
		}
		return "undefined:" + n
	}
	canonSpec = func(ts *sadl.TypeSpec) string {
		p := []string{ts.Type}
		num := func(k string, d *sadl.Decimal) {
			if d != nil {
				p = append(p, k+"="+canonDec(d.Text('f', -1)))
			}
		}
		sz := func(k string, d *int64) {
			if d != nil {
				p = append(p, fmt.Sprint(k, "=", *d))
			}
		}
		var set []string
		switch ts.Type {
		case "String":
			sz("min", ts.MinSize)
			sz("max", ts.MaxSize)
			set = append(set, ts.Values...)
			p = append(p, "pat="+ts.Pattern, "ref="+ts.Reference)
		case "UUID":
			p = append(p, "ref="+ts.Reference)
		case "Bytes":
			sz("min", ts.MinSize)
			sz("max", ts.MaxSize)
		case "UnitValue":
			p = append(p, canonName(ts.Value), canonName(ts.Unit))
		case "Array", "Map":
			sz("min", ts.MinSize)
			sz("max", ts.MaxSize)
			p = append(p, "items", canonName(ts.Items))
			if ts.Type == "Map" {
				p = append(p, "keys", canonName(ts.Keys))
			}
		case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
			num("min", ts.Min)
			num("max", ts.Max)
		case "Enum":
			for _, e := range ts.Elements {
				set = append(set, e.Symbol)
			}
		case "Union":
			for _, e := range ts.Variants {
				set = append(set, e.Name+":<"+canonSpec(&e.TypeSpec)+">")
			}
		case "Struct":
			for _, f := range ts.Fields {
				p = append(p, fmt.Sprintf("%s %v <%s>", f.Name, f.Required, canonSpec(&f.TypeSpec)))
			}
		}
		sort.Strings(set)
		return strings.Join(p, " ") + "{" + strings.Join(set, ",") + "}"
	}
	specs := func(c *mc.C) sadl.TypeSpec {
		optI := func() *int64 {
			switch c.Choose(4) {
			case 1:
				return i64(3)
			case 2:
				return i64(0)
			case 3:
				return i64(4)
			}
			return nil
		}
		optD := func() *sadl.Decimal {
			if s := mc.Pick(c, "", "1", "1.0", "1.5", "0"); s != "" {
				return dec(s)
			}
			return nil
		}
		switch c.Choose(14) {
		case 0:
			return tsOf(mc.Pick(c, "Bool", "Timestamp", "Any", "S1", "P1", "Int32", "Struct", "Nope"))
		case 12:
			return sadl.TypeSpec{Type: "UUID", Reference: mc.Pick(c, "", "P1", "P2")}
		case 13:
			u := unionTS("a", "S1", "b", "P1")
			v := &u.Variants[c.Choose(2)].TypeSpec
			*v = mc.Pick(c, arrTS("S1"), arrTS("S3"), sadl.TypeSpec{Type: "String", MaxSize: i64(3)}, sadl.TypeSpec{Type: "String", MaxSize: i64(4)}, ranged("Int8", "1", ""), enumTS("a", "b"), enumTS("b", "a"), enumTS("a"))
			if c.Bool() {
				u.Variants[0], u.Variants[1] = u.Variants[1], u.Variants[0]
			}
			return u
		case 1:
			return sadl.TypeSpec{Type: "String", MinSize: optI(), MaxSize: optI()}
		case 2:
			return sadl.TypeSpec{Type: "String", Pattern: mc.Pick(c, "", "a*", "b*"), Reference: mc.Pick(c, "", "P1", "P2")}
		case 3:
			return sadl.TypeSpec{Type: "String", Values: mc.Pick(c, nil, []string{"a", "b"}, []string{"b", "a"}, []string{"a"}, []string{"a", "c"}, []string{"a", "b", "c"})}
		case 4:
			return sadl.TypeSpec{Type: mc.Pick(c, "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal"), Min: optD(), Max: optD()}
		case 5:
			return sadl.TypeSpec{Type: "Bytes", MinSize: optI(), MaxSize: optI()}
		case 6:
			return sadl.TypeSpec{Type: "UnitValue", Value: mc.Pick(c, "Decimal", "N1", "N2"), Unit: mc.Pick(c, "S1", "S2", "S3", "E1", "E2", "String")}
		case 7:
			return sadl.TypeSpec{Type: "Array", Items: mc.Pick(c, "Any", "String", "S1", "S2", "S3", "P1", "P2", "P3"), MinSize: optI(), MaxSize: optI()}
		case 8:
			return sadl.TypeSpec{Type: "Map", Keys: mc.Pick(c, "String", "S1", "S2", "E1", "E2", "E3"), Items: mc.Pick(c, "Any", "S1", "S2", "P1", "P3"), MinSize: mc.Pick(c, nil, i64(1), i64(1)), MaxSize: mc.Pick(c, nil, i64(2), i64(3))}
		case 9:
			return enumTS(mc.Pick(c, []string{"a"}, []string{"a", "b"}, []string{"b", "a"}, []string{"a", "c"}, []string{"a", "b", "c"}, []string{"b", "c", "a"})...)
		case 10:
			return unionTS(mc.Pick(c, []string{"a", "S1"}, []string{"a", "S1", "b", "P1"}, []string{"b", "P1", "a", "S1"}, []string{"a", "S1", "b", "P2"}, []string{"x", "S1", "b", "P1"}, []string{"a", "S1", "c", "S1"}, []string{"a", "S1", "b", "P1", "c", "Int8"})...)
		}
		mk := func() sadl.TypeSpec {
			switch c.Choose(7) {
			case 1:
				return tsOf("Int16")
			case 2:
				return sadl.TypeSpec{Type: "String", MaxSize: i64(3)}
			case 3:
				return sadl.TypeSpec{Type: "Array", Items: "S1"}
			case 4:
				return sadl.TypeSpec{Type: "Array", Items: "S2"}
			case 5:
				return sadl.TypeSpec{Type: "Int8", Min: dec("1")}
			case 6:
				return enumTS("a", "b")
			}
			return tsOf("Int8")
		}
		ts := structTS(fld(mc.Pick(c, "x", "y"), c.Bool(), mk()))
		if c.Bool() {
			ts.Fields = append(ts.Fields, fld("z", c.Bool(), mk()))
		}
		return ts
	}
	// materialize the menu once: every specification the generator can draw
	var menu []func() sadl.TypeSpec
	buildMenu := func() {
		if menu != nil {
			return
		}
		mc.Each(func(c *mc.C) {
			ts := specs(c)
			menu = append(menu, func() sadl.TypeSpec {
				return cloneV(reflect.ValueOf(ts)).Interface().(sadl.TypeSpec)
			})
		})
	}
	mc.Register(&mc.Prop{ID: "C08",
		Bounds:      "all ordered pairs of the type specifications in an enumerated menu (every base type with every combination of two constraint attributes, permuted and near-equal sets, structs of one or two fields), each side freshly allocated; undefined names in every position; transitivity follows from agreement with a canonical form",
		Assumptions: []string{"struct fields of a named type are the same exactly when the names are equal; item, key, unit and value types are compared by structure"},
		Harnesses: []mc.Harness{
			{Name: "pairs", Gen: func(c *mc.C) mc.Case {
				buildMenu()
				a, b := menu[c.Choose(len(menu))], menu[c.Choose(len(menu))]
				return func(r *mc.R) {
					ta, tb := a(), b()
					r.Input(func() string { return jsonOf(ta) + " vs " + jsonOf(tb) })
					model, _ := sadl.NewModel(&sadl.Schema{Name: "t", Types: aux})
					want := canonSpec(&ta) == canonSpec(&tb)
					got := model.EquivalentTypes(&ta, &tb)
					r.Outcome("%v", got)
					if got != want {
						r.Fail("verdict", "reported equivalent=%v, want %v", got, want)
					}
				}
			}},
			{Name: "names", Gen: func(c *mc.C) mc.Case {
				pool := []string{"S1", "S2", "S3", "N1", "N2", "E1", "E2", "E3", "P1", "P2", "P3", "String", "Int8", "Nope", "Nada", ""}
				a, b := mc.Pick(c, pool...), mc.Pick(c, pool...)
				return func(r *mc.R) {
					r.Input(func() string { return a + " vs " + b })
					model, _ := sadl.NewModel(&sadl.Schema{Name: "t", Types: aux})
					got := model.EquivalentTypesByName(a, b)
					r.Outcome("%v", got)
					if want := canonName(a) == canonName(b); got != want {
						r.Fail("verdict", "reported equivalent=%v, want %v", got, want)
					}
				}
			}},
			{Name: "undefined", Gen: func(c *mc.C) mc.Case {
				mk := func() sadl.TypeSpec {
					n := mc.Pick(c, "Nope", "Nada", "S1")
					switch c.Choose(5) {
					case 1:
						return sadl.TypeSpec{Type: "Array", Items: n}
					case 2:
						return sadl.TypeSpec{Type: "Map", Keys: n, Items: "S1"}
					case 3:
						return sadl.TypeSpec{Type: "UnitValue", Value: n, Unit: "S1"}
					case 4:
						return sadl.TypeSpec{Type: "UnitValue", Value: "N1", Unit: n}
					}
					return tsOf(n)
				}
				ta, tb := mk(), mk()
				return func(r *mc.R) {
					r.Input(func() string { return jsonOf(ta) + " vs " + jsonOf(tb) })
					model, _ := sadl.NewModel(&sadl.Schema{Name: "t", Types: aux})
					got := model.EquivalentTypes(&ta, &tb)
					r.Outcome("%v", got)
					if canonSpec(&ta) != canonSpec(&tb) && got {
						r.Fail("verdict", "different undefined types reported equivalent")
					}
				}
			}},
		}})

	// ---- C09
	mc.Register(&mc.Prop{ID: "C09",
		Bounds: "two structs of two fields each plus an optional extra type; every field name from {bar, fooBar, foo, fooBaz, baz}, inline enum with one of three element lists or a plain type; the extra type takes one of the names that hoisting needs, with an equal, permuted or different enum or a struct; applied twice",
		Harnesses: []mc.Harness{
			{Name: "elsewhere", Gen: func(c *mc.C) mc.Case {
				// inline enums that are not struct fields, and the rest of the schema
				schema := &sadl.Schema{Name: "t", Comment: "c", Base: "/b", Annotations: map[string]string{"x_a": "1"}}
				inner := fld("kind", c.Bool(), enumTS("A", "B"))
				inner.Comment, inner.Default = mc.Pick(c, "", "fc"), mc.Pick[interface{}](c, nil, "A")
				deep := structTS(fld("kind", true, enumTS("A", "Z")))
				foo := td("Foo", structTS(fld("a", true, tsOf("Int8")), inner, fld("deep", false, deep)))
				foo.Annotations = map[string]string{"x_b": "2"}
				u := td("U", unionTS("kind", "Foo", "kind2", "Int8"))
				u.Variants[c.Choose(2)].TypeSpec = enumTS("C", "D")
				schema.Types = []*sadl.TypeDef{foo, u, td("Kind", enumTS("A", "B")), td("L", arrTS("Foo"))}
				h := &sadl.HttpDef{Name: "get", Method: "GET", Path: "/x?kind={kind}", Inputs: []*sadl.HttpParamSpec{{Query: "kind", StructFieldDef: *fld("kind", false, enumTS("A", "Q"))}},
					Expected: &sadl.HttpExpectedSpec{Status: 200, Outputs: []*sadl.HttpParamSpec{{Header: "X-Kind", StructFieldDef: *fld("hkind", false, enumTS("X"))}, {StructFieldDef: *fld("body", false, tsOf("Foo"))}}}}
				schema.Http = []*sadl.HttpDef{h}
				schema.Operations = []*sadl.OperationDef{{Name: "op", Inputs: []*sadl.OperationInput{{StructFieldDef: *fld("kind", true, enumTS("A", "R"))}}, Outputs: []*sadl.OperationOutput{{Name: "o", TypeSpec: enumTS("A", "S")}}}}
				schema.Examples = []*sadl.ExampleDef{{Target: "Foo", Name: "e", Example: map[string]interface{}{"kind": "A"}}}
				return func(r *mc.R) {
					s := cloneSchema(schema)
					r.Input(func() string { return jsonOf(schema) })
					model, err := sadl.NewModel(s)
					if err == nil {
						err = model.ConvertInlineEnums()
					}
					r.Outcome("%v", err == nil)
					if err != nil {
						r.Fail("verdict", "%v", err)
						return
					}
					if len(model.Types) != len(schema.Types)+1 || model.Types[0].Fields[1].Type == "Enum" {
						r.Fail("count", "want one new type: %s", jsonOf(model.Types))
						return
					}
					nt := model.Types[len(schema.Types)]
					if model.Types[0].Fields[1].Type != nt.Name || diffOf(nt.TypeSpec, inner.TypeSpec) != "" {
						r.Fail("reference", "field kind became %s, new type %s", jsonOf(model.Types[0].Fields[1]), jsonOf(nt))
					}
					want := cloneSchema(schema)
					want.Types[0].Fields[1].TypeSpec = tsOf(nt.Name)
					got := model.Schema
					got.Types = got.Types[:len(schema.Types)]
					if d := diffOf(*want, got); d != "" {
						r.Fail("touched", "hoisting changed %s", d)
					}
				}
			}},
			{Name: "hoist", Quick: 0, Deep: 0, Gen: func(c *mc.C) mc.Case {
				elems := [][]string{{"A", "B"}, {"B", "A"}, {"A", "C"}}
				schema := &sadl.Schema{Name: "t", Comment: "c"}
				mkField := func(names ...string) *sadl.StructFieldDef {
					f := fld(mc.Pick(c, names...), false, tsOf("String"))
					switch k := c.Choose(5); k {
					case 0:
						f.MaxSize = i64(5)
					case 1, 2, 3:
						f.TypeSpec = enumTS(elems[k-1]...)
						f.Elements[0].Comment = "first"
						f.Required = true
						f.Comment = "fc"
						f.Annotations = map[string]string{"x_a": "1"}
						f.Default = "A"
					case 4:
						f.TypeSpec = tsOf("FooBar")
					}
					return f
				}
				foo := td("Foo", structTS(mkField("bar", "fooBar", "foo"), mkField("fooBaz", "baz")))
				if c.Bool() {
					foo.Fields = append(foo.Fields, mkField("bar2", "fooBar"))
				}
				other := td(mc.Pick(c, "Fo", "Bar"), structTS(mkField("oBar", "bar")))
				schema.Types = []*sadl.TypeDef{foo, other}
				if k := c.Choose(6); k > 0 {
					x := td(mc.Pick(c, "FooBar", "BarBar", "FooFoo"), tsOf("Int8"))
					switch k {
					case 2, 3, 4:
						x.TypeSpec = enumTS(elems[k-2]...)
					case 5:
						x.TypeSpec = structTS(fld("q", true, tsOf("Int8")))
					}
					if c.Bool() {
						schema.Types = append(schema.Types, x)
					} else {
						schema.Types = append([]*sadl.TypeDef{x}, schema.Types...)
					}
				}
				names := map[string]bool{}
				for _, t := range schema.Types {
					if names[t.Name] {
						return nil
					}
					names[t.Name] = true
					fs := map[string]bool{}
					for _, f := range t.Fields {
						if fs[f.Name] {
							return nil
						}
						fs[f.Name] = true
					}
				}
				return func(r *mc.R) {
					s := cloneSchema(schema)
					r.Input(func() string { return jsonOf(schema) })
					model, err := sadl.NewModel(s)
					if err != nil {
						r.Fail("newmodel", "%v", err)
						return
					}
					// reference: a table of enum symbol sets by name
					symset := func(ts *sadl.TypeSpec) string {
						if ts.Type != "Enum" {
							return "not an enum: " + jsonOf(ts)
						}
						var l []string
						for _, e := range ts.Elements {
							l = append(l, e.Symbol)
						}
						sort.Strings(l)
						return strings.Join(l, ",")
					}
					have := map[string]string{}
					for _, t := range schema.Types {
						have[t.Name] = symset(&t.TypeSpec)
					}
					ok := true
					added := map[string]bool{}
					for _, t := range schema.Types {
						for _, f := range t.Fields {
							if t.Type != "Struct" || f.Type != "Enum" {
								continue
							}
							n := strings.ToUpper(f.Name[:1]) + f.Name[1:]
							if !strings.HasPrefix(n, t.Name) {
								n = t.Name + n
							}
							if h, exists := have[n]; exists {
								if h != symset(&f.TypeSpec) {
									ok = false
								}
							} else {
								have[n] = symset(&f.TypeSpec)
								added[n] = true
							}
						}
					}
					err = model.ConvertInlineEnums()
					r.Outcome("%v %d", err == nil, len(added))
					if (err == nil) != ok {
						r.Fail("verdict", "ConvertInlineEnums: %v, want success=%v", err, ok)
						return
					}
					if err != nil {
						return
					}
					check := func(when string) {
						if len(model.Types) != len(schema.Types)+len(added) {
							r.Fail("count", "%s: %d types, want %d: %s", when, len(model.Types), len(schema.Types)+len(added), jsonOf(model.Types))
							return
						}
						seen := map[string]bool{}
						for i, t := range model.Types {
							if seen[t.Name] {
								r.Fail("duplicate", "%s: type %s defined twice", when, t.Name)
							}
							seen[t.Name] = true
							if ft := model.FindType(t.Name); ft == nil || diffOf(ft, t) != "" {
								r.Fail("index", "%s: FindType(%s) = %s", when, t.Name, jsonOf(ft))
							}
							if i >= len(schema.Types) {
								if !added[t.Name] {
									r.Fail("unexpected", "%s: new type %s", when, t.Name)
								}
								continue
							}
							o := schema.Types[i]
							want := cloneV(reflect.ValueOf(o)).Interface().(*sadl.TypeDef)
							for j, f := range o.Fields {
								if o.Type == "Struct" && f.Type == "Enum" && j < len(t.Fields) {
									nt := model.FindType(t.Fields[j].Type)
									if t.Fields[j].Type == "Enum" || nt == nil || symset(&nt.TypeSpec) != symset(&f.TypeSpec) {
										r.Fail("reference", "%s: field %s.%s refers to %s", when, o.Name, f.Name, jsonOf(nt))
									}
									if nt != nil && added[nt.Name] && diffElements(nt, schema) {
										r.Fail("elements", "%s: hoisted type %s has other elements than any inline definition: %s", when, nt.Name, jsonOf(nt))
									}
									want.Fields[j].TypeSpec = sadl.TypeSpec{Type: t.Fields[j].Type}
								}
							}
							if d := diffOf(want, t); d != "" {
								r.Fail("touched", "%s: type %s changed elsewhere: %s", when, o.Name, d)
							}
						}
					}
					check("after hoisting")
					if r.Failed() {
						return
					}
					if err := model.ConvertInlineEnums(); err != nil {
						r.Fail("again", "second application: %v", err)
						return
					}
					check("after hoisting twice")
				}
			}},
		}})
}

// diffElements: the hoisted type's elements are not literally those of one of the inline definitions.
func diffElements(t *sadl.TypeDef, schema *sadl.Schema) bool {
	for _, s := range schema.Types {
		for _, f := range s.Fields {
			if f.Type == "Enum" && diffOf(f.Elements, t.Elements) == "" {
				return false
			}
		}
	}
	return true
}

func jsonCase(schema *sadl.Schema) mc.Case {
	return func(r *mc.R) {
		// names must be distinct for a model
		for i, t := range schema.Types {
			t.Name = fmt.Sprintf("T%d", i)
		}
		for i, h := range schema.Http {
			h.Name = fmt.Sprintf("h%d", i)
		}
		r.Input(func() string { return jsonOf(schema) })
		model, err := sadl.NewModel(schema)
		if err != nil {
			r.Fail("newmodel", "%v", err)
			return
		}
		text := sadl.Pretty(model)
		r.Outcome("%s", text)
		var back sadl.Schema
		if err := json.Unmarshal([]byte(text), &back); err != nil {
			r.Fail("unjson", "%v in %s", err, text)
			return
		}
		m2, err := sadl.NewModel(&back)
		if err != nil {
			r.Fail("newmodel2", "%v", err)
			return
		}
		if d := diffOf(schema, &m2.Schema); d != "" {
			r.Fail("lost", "the JSON form lost or changed %s", d)
		}
		if t2 := sadl.Pretty(m2); t2 != text {
			r.Fail("unstable", "the JSON form changed: %s\nvs %s", text, t2)
		}
		if !sadl.Equivalent(model, m2) {
			r.Fail("equivalent", "the model and its copy are not reported equivalent")
		}
	}
}
