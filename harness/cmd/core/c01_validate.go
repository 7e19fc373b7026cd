package main

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"verif/mc"
)

// ---- abstract values

type val struct {
	kind string // nil bool str num arr map
	b    bool
	s    string // str: the text; num: a decimal literal
	arr  []*val
	m    map[string]*val
}

func vs(s string) *val   { return &val{kind: "str", s: s} }
func vn(s string) *val   { return &val{kind: "num", s: s} }
func vb(b bool) *val     { return &val{kind: "bool", b: b} }
func va(xs ...*val) *val { return &val{kind: "arr", arr: xs} }
func vnil() *val         { return &val{kind: "nil"} }
func vm(kv ...interface{}) *val {
	m := map[string]*val{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1].(*val)
	}
	return &val{kind: "map", m: m}
}

// toGo builds the representation the library uses; ptr selects strings (and bools) by pointer, as the parser builds them.
func (v *val) toGo(ptr bool) interface{} {
	switch v.kind {
	case "bool":
		b := v.b
		if ptr {
			return &b
		}
		return b
	case "str":
		s := v.s
		if ptr {
			return &s
		}
		return s
	case "num":
		return dec(v.s)
	case "arr":
		a := make([]interface{}, 0)
		for _, x := range v.arr {
			a = append(a, x.toGo(ptr))
		}
		return a
	case "map":
		m := map[string]interface{}{}
		for k, x := range v.m {
			m[k] = x.toGo(ptr)
		}
		return m
	}
	return nil
}

// many: some map in the value has two entries or more.
func (v *val) many() bool {
	for _, x := range v.arr {
		if x.many() {
			return true
		}
	}
	for _, x := range v.m {
		if x.many() {
			return true
		}
	}
	return len(v.m) > 1
}

func (v *val) String() string {
	switch v.kind {
	case "bool":
		return fmt.Sprint(v.b)
	case "str":
		return fmt.Sprintf("%q", v.s)
	case "num":
		return v.s
	case "arr":
		var l []string
		for _, x := range v.arr {
			l = append(l, x.String())
		}
		return "[" + strings.Join(l, ",") + "]"
	case "map":
		var l []string
		for k, x := range v.m {
			l = append(l, fmt.Sprintf("%q:%s", k, x))
		}
		sort.Strings(l)
		return "{" + strings.Join(l, ",") + "}"
	}
	return "nil"
}

// ---- reference validator

var goodTimestamps = map[string]bool{"2019-02-04T01:05:16.565Z": true, "2019-02-04T01:05:16.565+00:00": true, "2000-02-29T23:59:59.000Z": true}
var goodUUIDs = map[string]bool{"1ce437b0-1dd2-11b2-81ef-003ee1be85f9": true, "1CE437B0-1dd2-11b2-81ef-003ee1be85f9": true}

type refModel map[string]*sadl.TypeSpec

var intRange = map[string][2]string{
	"Int8": {"-128", "127"}, "Int16": {"-32768", "32767"}, "Int32": {"-2147483648", "2147483647"}, "Int64": {"-9223372036854775808", "9223372036854775807"},
}

func rat(s string) *big.Rat {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("mc: rat " + s)
	}
	return r
}

var reCache = map[string]*regexp.Regexp{}

func (m refModel) conforms(ts *sadl.TypeSpec, v *val) bool {
	sizeOK := func(n int) bool {
		return (ts.MinSize == nil || int64(n) >= *ts.MinSize) && (ts.MaxSize == nil || int64(n) <= *ts.MaxSize)
	}
	switch ts.Type {
	case "Any", "Bytes":
		return true
	case "Bool":
		return v.kind == "bool"
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		if v.kind != "num" {
			return false
		}
		x := rat(v.s)
		if rng, ok := intRange[ts.Type]; ok {
			if !x.IsInt() || x.Cmp(rat(rng[0])) < 0 || x.Cmp(rat(rng[1])) > 0 {
				return false
			}
		}
		if ts.Min != nil && x.Cmp(rat(ts.Min.Text('f', -1))) < 0 {
			return false
		}
		if ts.Max != nil && x.Cmp(rat(ts.Max.Text('f', -1))) > 0 {
			return false
		}
		return true
	case "String":
		if v.kind != "str" || !sizeOK(len(v.s)) {
			return false
		}
		if len(ts.Values) > 0 {
			ok := false
			for _, x := range ts.Values {
				ok = ok || x == v.s
			}
			if !ok {
				return false
			}
		}
		if ts.Pattern != "" {
			re := reCache[ts.Pattern]
			if re == nil {
				re = regexp.MustCompile(ts.Pattern)
				reCache[ts.Pattern] = re
			}
			return re.MatchString(v.s)
		}
		return true
	case "Timestamp":
		return v.kind == "str" && goodTimestamps[v.s]
	case "UUID":
		return v.kind == "str" && goodUUIDs[v.s]
	case "Enum":
		if v.kind == "str" {
			for _, e := range ts.Elements {
				if e.Symbol == v.s {
					return true
				}
			}
		}
		return false
	case "UnitValue":
		if v.kind != "str" {
			return false
		}
		parts := strings.SplitN(v.s, " ", 2)
		if len(parts) != 2 || parts[1] == "" || !regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?$`).MatchString(parts[0]) {
			return false
		}
		return (ts.Value == "" || m.conforms(m[ts.Value], vn(parts[0]))) && (ts.Unit == "" || m.conforms(m[ts.Unit], vs(parts[1])))
	case "Array":
		if v.kind != "arr" || !sizeOK(len(v.arr)) {
			return false
		}
		for _, x := range v.arr {
			if ts.Items != "" && !m.conforms(m[ts.Items], x) {
				return false
			}
		}
		return true
	case "Map":
		if v.kind != "map" || !sizeOK(len(v.m)) {
			return false
		}
		for k, x := range v.m {
			if ts.Keys != "" && !m.conforms(m[ts.Keys], vs(k)) {
				return false
			}
			if ts.Items != "" && !m.conforms(m[ts.Items], x) {
				return false
			}
		}
		return true
	case "Struct":
		if v.kind != "map" {
			return false
		}
		names := map[string]bool{}
		for _, f := range ts.Fields {
			names[f.Name] = true
			x, ok := v.m[f.Name]
			if ok {
				if !m.conforms(&f.TypeSpec, x) {
					return false
				}
			} else if f.Required {
				return false
			}
		}
		for k := range v.m {
			if !names[k] {
				return false
			}
		}
		return true
	case "Union":
		if v.kind != "map" {
			return false
		}
		for k, x := range v.m {
			ok := false
			for _, u := range ts.Variants {
				if u.Name == k {
					ok = m.conforms(&u.TypeSpec, x)
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	if t := m[ts.Type]; t != nil {
		return m.conforms(t, v)
	}
	return false
}

func refOf(schema *sadl.Schema) refModel {
	m := refModel{}
	for _, b := range baseNames {
		m[b] = &sadl.TypeSpec{Type: b}
	}
	for _, t := range schema.Types {
		ts := t.TypeSpec
		m[t.Name] = &ts
	}
	return m
}

// auxiliary named types available to every C01 model
func auxTypes() []*sadl.TypeDef {
	return []*sadl.TypeDef{
		td("Color", enumTS("red", "green")),
		td("Code", sadl.TypeSpec{Type: "String", Pattern: "^[a-c]+$"}),
		td("Small", sadl.TypeSpec{Type: "Int16", Min: dec("-2"), Max: dec("300")}),
		td("Price", sadl.TypeSpec{Type: "Decimal", Min: dec("0.5")}),
		td("Point", structTS(fld("x", true, tsOf("Int8")), fld("tag", false, tsOf("Color")))),
		td("Codes", sadl.TypeSpec{Type: "Array", Items: "Code", MinSize: i64(1)}),
		td("Either", unionTS("num", "Int8", "word", "Code")),
	}
}

func typeMenu() []sadl.TypeSpec {
	var l []sadl.TypeSpec
	add := func(ts sadl.TypeSpec) { l = append(l, ts) }
	add(tsOf("Any"))
	add(tsOf("Bytes"))
	add(tsOf("Bool"))
	for _, n := range []string{"Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal"} {
		add(tsOf(n))
		add(sadl.TypeSpec{Type: n, Min: dec("-1")})
		add(sadl.TypeSpec{Type: n, Max: dec("2")})
		add(sadl.TypeSpec{Type: n, Min: dec("0"), Max: dec("2")})
		if n[0] != 'I' {
			add(sadl.TypeSpec{Type: n, Min: dec("0.5"), Max: dec("2.25")})
		}
	}
	add(tsOf("String"))
	add(sadl.TypeSpec{Type: "String", MinSize: i64(2)})
	add(sadl.TypeSpec{Type: "String", MaxSize: i64(2)})
	add(sadl.TypeSpec{Type: "String", MinSize: i64(1), MaxSize: i64(1)})
	add(sadl.TypeSpec{Type: "String", MinSize: i64(0), MaxSize: i64(0)})
	add(sadl.TypeSpec{Type: "String", Pattern: "^[a-c]+$"})
	add(sadl.TypeSpec{Type: "String", Pattern: "^[a-c]*$", MinSize: i64(1), MaxSize: i64(3)})
	add(sadl.TypeSpec{Type: "String", Values: []string{"ab", "red"}})
	add(sadl.TypeSpec{Type: "String", Values: []string{"ab", "abc", "red"}, MaxSize: i64(2)})
	add(sadl.TypeSpec{Type: "String", Pattern: "b"})
	add(sadl.TypeSpec{Type: "String", Pattern: "^a|d$"})
	add(sadl.TypeSpec{Type: "String", Pattern: "^$|ab"})
	add(sadl.TypeSpec{Type: "String", Values: []string{"", "true"}})
	add(sadl.TypeSpec{Type: "Int64", Min: dec("-9007199254740993"), Max: dec("9007199254740993")})
	add(sadl.TypeSpec{Type: "Int64", Min: dec("9007199254740993"), Max: dec("9223372036854775807")})
	add(sadl.TypeSpec{Type: "Decimal", Min: dec("0.1"), Max: dec("123456789012345678901234567890")})
	add(sadl.TypeSpec{Type: "Float64", Min: dec("0.1")})
	add(sadl.TypeSpec{Type: "Float32", Max: dec("0.1")})
	add(tsOf("Timestamp"))
	add(tsOf("UUID"))
	add(enumTS("red", "green"))
	add(enumTS("ab"))
	add(tsOf("UnitValue"))
	add(sadl.TypeSpec{Type: "UnitValue", Value: "Decimal", Unit: "String"})
	add(sadl.TypeSpec{Type: "UnitValue", Value: "Int8", Unit: "Color"})
	add(sadl.TypeSpec{Type: "UnitValue", Value: "Price", Unit: "Code"})
	for _, it := range []string{"", "Any", "String", "Int8", "Code", "Point", "Codes", "Either", "Color"} {
		add(sadl.TypeSpec{Type: "Array", Items: it})
		for _, k := range []string{"String", "Color", "Code", "UUID", ""} {
			if k == "" && it != "" || it == "Color" && k != "String" {
				continue
			}
			add(sadl.TypeSpec{Type: "Map", Items: it, Keys: k})
		}
	}
	for _, it := range []string{"Any", "String"} {
		add(sadl.TypeSpec{Type: "Array", Items: it, MinSize: i64(1)})
		add(sadl.TypeSpec{Type: "Array", Items: it, MaxSize: i64(1)})
		add(sadl.TypeSpec{Type: "Array", Items: it, MinSize: i64(1), MaxSize: i64(1)})
		add(sadl.TypeSpec{Type: "Map", Keys: "String", Items: it, MinSize: i64(1)})
		add(sadl.TypeSpec{Type: "Map", Keys: "String", Items: it, MaxSize: i64(1)})
		add(sadl.TypeSpec{Type: "Map", Keys: "Code", Items: it, MinSize: i64(1), MaxSize: i64(1)})
	}
	add(structTS(fld("x", true, tsOf("Int8")), fld("ab", false, tsOf("String"))))
	add(structTS(fld("x", false, tsOf("Color")), fld("red", true, tsOf("Any"))))
	add(structTS(fld("ab", false, sadl.TypeSpec{Type: "Array", Items: "Code"}), fld("p", false, tsOf("Point"))))
	add(structTS(fld("ab", false, enumTS("red")), fld("x", false, sadl.TypeSpec{Type: "Int32", Max: dec("7")})))
	add(unionTS("num", "Int8", "word", "Code"))
	add(unionTS("x", "Point", "ab", "String"))
	return l
}

func valueMenu() []*val {
	l := []*val{vnil(), vb(true), vb(false)}
	for _, s := range []string{"", "a", "ab", "abc", "abcd", "red", "green", "re", "RED", "blue", "zz",
		"2019-02-04T01:05:16.565Z", "2019-02-04T01:05:16.565+00:00", "2000-02-29T23:59:59.000Z", "2019-02-30T01:05:16.565Z", "2019-02-04T25:05:16.565Z", "2019-02-04", "2019-02-04T01:05:16.565+01:00",
		"1ce437b0-1dd2-11b2-81ef-003ee1be85f9", "1CE437B0-1dd2-11b2-81ef-003ee1be85f9", "1ce437b0-1dd2-11b2-81ef-003ee1be85f", "1ce437b0-1dd2-11b2-81ef-003ee1be85fg", "1ce437b001dd2-11b2-81ef-003ee1be85f9",
		"1 red", "1.5 red", "127 green", "128 red", "-129 red", "0.4 abc", "0.5 abc", "12.25 ab", "1 blue", "1 ", " red", "x red", "1  red", "100.00 USD", "true", "1"} {
		l = append(l, vs(s))
	}
	for _, s := range []string{"0", "1", "-1", "2", "3", "-2", "0.5", "0.4", "2.25", "2.26", "127", "128", "-128", "-129", "127.5", "7", "8", "300", "301",
		"32767", "32768", "-32768", "-32769", "2147483647", "2147483648", "-2147483648", "-2147483649",
		"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "0.00000000000000000001", "-1.0000000000000000000001", "2.0000000000000000000000001", "123456789012345678901234567890", "123456789012345678901234567890.5", "9007199254740992", "9007199254740993", "9007199254740994", "-9007199254740993", "-9007199254740994", "0.1", "0.09999999999999999999", "0.10000000000000000001"} {
		l = append(l, vn(s))
	}
	l = append(l, va(), va(vs("ab")), va(vs("ab"), vs("zz")), va(vs("red")), va(vn("5")), va(vn("500")), va(vn("5"), vs("ab")), va(vs("zz"), vs("ab")), va(vnil()), va(va(vs("ab"))), va(va()), va(va(vs("ab")), va(vs("zz"))),
		va(vm("x", vn("1"))), va(vm("x", vn("1")), vm()), va(vm("num", vn("1"))), va(vm("word", vs("zz"))), va(vs("a"), vs("b"), vs("c")))
	l = append(l, vm(), vm("x", vn("1")), vm("x", vn("1000")), vm("x", vs("red")), vm("ab", vs("ab")), vm("ab", vs("red")), vm("ab", vn("1")), vm("x", vn("1"), "ab", vs("q")), vm("x", vn("1"), "ab", vn("1")), vm("x", vn("1"), "y", vn("1")),
		vm("red", vs("ab")), vm("red", vn("5"), "green", vn("6")), vm("red", vn("5"), "blue", vn("6")), vm("blue", vs("ab")), vm("abc", va(vs("ab"))), vm("abc", va(vs("zz"))), vm("a", vs("ab"), "zz", vs("ab")),
		vm("1ce437b0-1dd2-11b2-81ef-003ee1be85f9", vs("ab")), vm("num", vn("1")), vm("num", vn("300")), vm("word", vs("ab")), vm("word", vs("zz")), vm("word", vn("1")), vm("other", vn("1")), vm("num", vn("1"), "word", vs("zz")), vm("num", vn("300"), "word", vs("ab")), vm("num", vn("1"), "other", vn("1")), vm("ab", vs("ab"), "x", vs("zz")), vm("p", vm("x", vn("1"))), vm("p", vm("tag", vs("red"))), vm("p", vm("x", vn("1"), "tag", vs("red"))), vm("p", vm("x", vn("1"), "tag", vs("zz"))), vm("ab", va(vs("ab"), vs("zz"))), vm("ab", va(vs("ab"))), vm("x", vn("8")), vm("x", vn("7")),
		vm("x", vm("x", vn("3"))), vm("x", vm()), vm("", vs("ab")), vm("a", vs("ab"), "b", vs("ab")))
	return l
}

// wrappers embed a type and a value one level deeper.
type wrapper struct {
	name string
	wrap func(n int, ts sadl.TypeSpec, v *val, types *[]*sadl.TypeDef) (sadl.TypeSpec, *val)
}

func named(n int, ts sadl.TypeSpec, types *[]*sadl.TypeDef) string {
	nm := fmt.Sprintf("T%d", n)
	*types = append(*types, td(nm, ts))
	return nm
}

var wrappers = []wrapper{
	{"name", func(n int, ts sadl.TypeSpec, v *val, types *[]*sadl.TypeDef) (sadl.TypeSpec, *val) {
		return tsOf(named(n, ts, types)), v
	}},
	{"field", func(n int, ts sadl.TypeSpec, v *val, types *[]*sadl.TypeDef) (sadl.TypeSpec, *val) {
		return structTS(fld("f", true, ts)), vm("f", v)
	}},
	{"optfield2", func(n int, ts sadl.TypeSpec, v *val, types *[]*sadl.TypeDef) (sadl.TypeSpec, *val) {
		return structTS(fld("e", true, tsOf("Int8")), fld("f", false, tsOf(named(n, ts, types)))), vm("e", vn("1"), "f", v)
	}},
	{"item", func(n int, ts sadl.TypeSpec, v *val, types *[]*sadl.TypeDef) (sadl.TypeSpec, *val) {
		return sadl.TypeSpec{Type: "Array", Items: named(n, ts, types)}, va(v)
	}},
	{"item2", func(n int, ts sadl.TypeSpec, v *val, types *[]*sadl.TypeDef) (sadl.TypeSpec, *val) {
		return sadl.TypeSpec{Type: "Array", Items: named(n, ts, types), MinSize: i64(1), MaxSize: i64(2)}, va(v, v)
	}},
	{"mapitem", func(n int, ts sadl.TypeSpec, v *val, types *[]*sadl.TypeDef) (sadl.TypeSpec, *val) {
		return sadl.TypeSpec{Type: "Map", Keys: "String", Items: named(n, ts, types)}, vm("k", v)
	}},
	{"variant", func(n int, ts sadl.TypeSpec, v *val, types *[]*sadl.TypeDef) (sadl.TypeSpec, *val) {
		return unionTS("other", "Int8", "f", named(n, ts, types)), vm("f", v)
	}},
}

func validateCase(types []*sadl.TypeDef, ts sadl.TypeSpec, v *val, ptr bool, viaName bool) mc.Case {
	return func(r *mc.R) {
		schema := &sadl.Schema{Name: "t", Types: append(auxTypes(), types...)}
		if viaName {
			schema.Types = append(schema.Types, td("Top", ts))
		}
		r.Input(func() string {
			return fmt.Sprintf("type %s in %s, value %s (strings by pointer: %v)", jsonOf(ts), jsonOf(types), v, ptr)
		})
		model, err := sadl.NewModel(schema)
		if err != nil {
			r.Fail("newmodel", "NewModel: %v", err)
			return
		}
		want := refOf(schema).conforms(&ts, v)
		gv := v.toGo(ptr)
		var got error
		if viaName {
			got = model.Validate("", "Top", gv)
		} else {
			got = model.ValidateAgainstTypeSpec("ctx", &ts, gv)
		}
		for off := 1; off < 8 && v.many() && got == nil; off++ { // in whatever order the entries are visited
			mc.MapOrder(off)
			if viaName {
				got = model.Validate("", "Top", gv)
			} else {
				got = model.ValidateAgainstTypeSpec("ctx", &ts, gv)
			}
			mc.MapOrder(0)
		}
		r.Outcome("%v", got == nil)
		if (got == nil) != want {
			r.Fail("verdict", "conforms=%v but validation says: %v", want, got)
		}
		if got != nil && got.Error() == "" {
			r.Fail("noerrtext", "rejection without a message")
		}
	}
}

func init() {
	tm, vmn := typeMenu(), valueMenu()
	mc.Register(&mc.Prop{ID: "C01",
		Bounds:      "scalar: every type of the menu x 0 or 1 wrapper (name, required field, optional field by name, array item, two array items, map item, union variant) x every value of the menu x both string representations x by name/by specification; nested: wrapper chains of depth 2 (3 in thorough); struct: two (three) fields, every type/requiredness/presence/validity combination and an undeclared key",
		Assumptions: []string{"reference validator written from README's base type list; strings are ASCII; declared integer bounds lie within the native range; Bytes content is not checked by design of the statement; patterns are anchored"},
		Harnesses: []mc.Harness{
			{Name: "scalar", Gen: func(c *mc.C) mc.Case {
				ts := tm[c.Choose(len(tm))]
				v := vmn[c.Choose(len(vmn))]
				w := c.Choose(len(wrappers) + 1)
				var types []*sadl.TypeDef
				if w > 0 {
					ts, v = wrappers[w-1].wrap(0, ts, v, &types)
				}
				mode := c.Choose(4)
				return validateCase(types, ts, v, mode&1 == 1, mode&2 == 2)
			}},
			{Name: "nested", Gen: func(c *mc.C) mc.Case {
				step := 1
				depth := 2
				if c.Thorough() {
					depth = 3
				}
				leafs := []sadl.TypeSpec{tsOf("Int8"), {Type: "Int32", Min: dec("-1"), Max: dec("2")}, {Type: "String", MaxSize: i64(2)}, enumTS("red", "green"), tsOf("Color"), tsOf("Small"), {Type: "Array", Items: "Code", MaxSize: i64(1)}, {Type: "Map", Keys: "Code", Items: "Small"}, tsOf("Either"), tsOf("Point"), tsOf("UUID")}
				ts := leafs[c.Choose(len(leafs))]
				v := vmn[c.Choose((len(vmn)+step-1)/step)*step]
				var types []*sadl.TypeDef
				for i := 0; i < depth; i++ {
					ts, v = wrappers[c.Choose(len(wrappers))].wrap(i, ts, v, &types)
				}
				return validateCase(types, ts, v, true, true)
			}},
			{Name: "struct", Gen: func(c *mc.C) mc.Case {
				nf := 2
				if c.Thorough() {
					nf = 3
				}
				type fv struct {
					ts        sadl.TypeSpec
					good, bad []*val
				}
				menu := []fv{
					{tsOf("Int8"), []*val{vn("1")}, []*val{vn("128"), vs("1")}},
					{sadl.TypeSpec{Type: "String", MaxSize: i64(2)}, []*val{vs("ab")}, []*val{vs("abc"), vb(true)}},
					{tsOf("Color"), []*val{vs("red")}, []*val{vs("x"), vn("1")}},
					{tsOf("Point"), []*val{vm("x", vn("1")), vm("x", vn("1"), "tag", vs("red"))}, []*val{vm(), vm("x", vn("1"), "z", vn("1"))}},
					{tsOf("Codes"), []*val{va(vs("a"))}, []*val{va(), va(vs("a"), vs("z"))}},
					{sadl.TypeSpec{Type: "Map", Keys: "Color", Items: "Point"}, []*val{vm(), vm("red", vm("x", vn("1")))}, []*val{vm("x", vm("x", vn("1"))), vm("red", vn("1"))}},
				}
				names := []string{"a", "b", "aa"}
				var fs []*sadl.StructFieldDef
				m := vm()
				for i := 0; i < nf; i++ {
					f := menu[c.Choose(len(menu))]
					fs = append(fs, fld(names[i], c.Bool(), f.ts))
					k := c.Choose(1 + len(f.good) + len(f.bad))
					if k > len(f.good) {
						m.m[names[i]] = f.bad[k-1-len(f.good)]
					} else if k > 0 {
						m.m[names[i]] = f.good[k-1]
					}
				}
				switch c.Choose(4) {
				case 1:
					m.m["z"] = vn("1")
				case 2:
					m.m["A"] = vs("ab")
				case 3:
					m.m[""] = vnil()
				}
				return validateCase(nil, structTS(fs...), m, true, true)
			}},
			{Name: "undefined", Gen: func(c *mc.C) mc.Case {
				where := c.Choose(7)
				v := vmn[c.Choose(len(vmn))]
				return func(r *mc.R) {
					model, _ := sadl.NewModel(&sadl.Schema{Name: "t", Types: auxTypes()})
					ts := tsOf("Nope")
					applies := true
					switch where {
					case 1:
						ts = sadl.TypeSpec{Type: "Array", Items: "Nope"}
						applies = v.kind != "arr" || len(v.arr) > 0
					case 2:
						ts = sadl.TypeSpec{Type: "Map", Keys: "String", Items: "Nope"}
						applies = v.kind != "map" || len(v.m) > 0
					case 3:
						ts = structTS(fld("x", false, tsOf("Nope")))
						_, has := v.m["x"]
						applies = v.kind != "map" || has
					case 4:
						ts = unionTS("x", "Nope")
						applies = v.kind != "map" || len(v.m) > 0
					case 5:
						ts = sadl.TypeSpec{Type: "Map", Keys: "Nope", Items: "Any"}
						applies = v.kind != "map" || len(v.m) > 0
					}
					r.Input(func() string { return fmt.Sprintf("type %s, value %s", jsonOf(ts), v) })
					var err error
					if where == 6 {
						err = model.Validate("", "Nope", v.toGo(true))
					} else {
						err = model.ValidateAgainstTypeSpec("", &ts, v.toGo(true))
					}
					r.Outcome("%d %v", where, err == nil)
					if applies && err == nil {
						r.Fail("undefined-accepted", "a value of an undefined type was accepted")
					}
				}
			}},
		}})
}
