package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/boynton/sadl"
)

// JSON values conforming to a type, and comparison of JSON texts by what they mean for a type.

type typeEnv map[string]*sadl.TypeDef

func envOf(s *sadl.Schema) typeEnv {
	e := typeEnv{}
	for _, t := range s.Types {
		e[t.Name] = t
	}
	return e
}

// spec gives the specification behind a type name (named types resolved), or the given one for inline types.
func (e typeEnv) spec(ts *sadl.TypeSpec) *sadl.TypeSpec {
	if t := e[ts.Type]; t != nil {
		return &t.TypeSpec
	}
	return ts
}
func (e typeEnv) byName(n string, def string) *sadl.TypeSpec {
	if n == "" {
		n = def
	}
	if t := e[n]; t != nil {
		return &t.TypeSpec
	}
	return &sadl.TypeSpec{Type: n}
}

type num = json.Number

// values: conforming values (none for types without finite values); depth limits recursion.
func (e typeEnv) values(ts *sadl.TypeSpec, depth int) []interface{} {
	ts = e.spec(ts)
	if depth < -6 {
		return nil // a type that contains itself: no finite value this way
	}
	switch ts.Type {
	case "Bool":
		return []interface{}{true, false}
	case "Int8", "Int16", "Int32", "Int64":
		if ts.Min != nil || ts.Max != nil {
			v := ts.Min
			if v == nil {
				v = ts.Max
			}
			return []interface{}{num(v.String())}
		}
		bits := map[string]uint{"Int8": 7, "Int16": 15, "Int32": 31, "Int64": 63}[ts.Type]
		hi := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1))
		lo := new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), bits))
		return []interface{}{num("7"), num(hi.String()), num(lo.String()), num("0")}
	case "Float32":
		if ts.Min != nil {
			return []interface{}{num(ts.Min.String())}
		}
		return []interface{}{num("1.5"), num("-0.25"), num("16777215")}
	case "Float64":
		if ts.Min != nil {
			return []interface{}{num(ts.Min.String())}
		}
		return []interface{}{num("0.1"), num("-12345678.875"), num("9007199254740991")}
	case "Decimal":
		if ts.Min != nil {
			return []interface{}{num(ts.Min.String())}
		}
		return []interface{}{num("0.1"), num("-3"), num("123456789012345678901234567890.0123456789012345678901234567890123456789"), num("0"), num("1000000000000000000000000000000")}
	case "String":
		if len(ts.Values) > 0 {
			return []interface{}{ts.Values[0], ts.Values[len(ts.Values)-1]}
		}
		if ts.Pattern != "" {
			return []interface{}{strings.Trim(strings.NewReplacer("[a-z]+", "abc", "a+", "aa").Replace(ts.Pattern), "^$")}
		}
		if ts.MinSize != nil || ts.MaxSize != nil {
			n := int64(0)
			if ts.MinSize != nil {
				n = *ts.MinSize
			}
			return []interface{}{strings.Repeat("s", int(n))}
		}
		return []interface{}{"a b", "q\"\\\n<&>é/?#%+=", ""}
	case "UUID":
		return []interface{}{"1ce437b0-1dd2-11b2-81ef-003ee1be85f9"}
	case "Timestamp":
		return []interface{}{"2019-02-03T04:05:06.789Z", "0987-12-31T23:59:59.000Z"}
	case "UnitValue":
		n, u := "3.5", "USD"
		if strings.HasPrefix(e.byName(ts.Value, "Decimal").Type, "Int") {
			n = "-12"
		}
		if us := e.byName(ts.Unit, "String"); us.Type == "Enum" {
			u = enumText(us.Elements[0])
		}
		return []interface{}{n + " " + u}
	case "Bytes":
		return []interface{}{"AAH/", ""}
	case "Any":
		return []interface{}{map[string]interface{}{"a": []interface{}{num("1"), "x", nil, true}}, "text"}
	case "Enum":
		var out []interface{}
		for _, el := range ts.Elements {
			out = append(out, enumText(el))
		}
		return out
	case "Array":
		if depth <= 0 {
			return []interface{}{[]interface{}{}}
		}
		items := e.values(e.byName(ts.Items, "Any"), depth-1)
		n := len(items)
		if n == 0 {
			return []interface{}{[]interface{}{}}
		}
		if ts.MinSize != nil || ts.MaxSize != nil {
			k := int64(1)
			if ts.MinSize != nil {
				k = *ts.MinSize
			}
			var xs []interface{}
			for i := int64(0); i < k; i++ {
				xs = append(xs, items[int(i)%n])
			}
			return []interface{}{xs}
		}
		return []interface{}{append([]interface{}{}, items...), []interface{}{items[0]}, []interface{}{}}
	case "Map":
		if depth <= 0 {
			return []interface{}{map[string]interface{}{}}
		}
		items := e.values(e.byName(ts.Items, "Any"), depth-1)
		keys := e.values(e.byName(ts.Keys, "String"), 1)
		if len(items) == 0 {
			return []interface{}{map[string]interface{}{}}
		}
		m := map[string]interface{}{}
		for i, it := range items {
			m[keyText(keys[i%len(keys)])] = it
		}
		one := map[string]interface{}{keyText(keys[0]): items[0]}
		if ts.MinSize != nil || ts.MaxSize != nil {
			if ts.MinSize != nil && *ts.MinSize > 1 {
				return []interface{}{map[string]interface{}{"k1": items[0], "k2": items[0]}}
			}
			return []interface{}{one}
		}
		return []interface{}{m, one, map[string]interface{}{}}
	case "Struct":
		full, min := map[string]interface{}{}, map[string]interface{}{}
		out := []interface{}{}
		for _, f := range ts.Fields {
			if depth <= 0 && !f.Required {
				continue
			}
			vs := e.values(&f.TypeSpec, depth-1)
			if len(vs) == 0 {
				if f.Required {
					return nil
				}
				continue
			}
			full[f.Name] = vs[0]
			if f.Required {
				min[f.Name] = vs[0]
			}
		}
		out = append(out, full)
		if len(min) < len(full) {
			out = append(out, min)
		}
		if depth > 0 {
			for _, f := range ts.Fields { // every value of every field
				for i, v := range e.values(&f.TypeSpec, depth-1) {
					if i == 0 {
						continue
					}
					m := map[string]interface{}{}
					for k, x := range full {
						m[k] = x
					}
					m[f.Name] = v
					out = append(out, m)
				}
			}
		}
		return out
	case "Union":
		var out []interface{}
		for _, v := range ts.Variants {
			if depth <= 0 && e.spec(&v.TypeSpec).Type == "Union" {
				continue
			}
			for _, x := range e.values(&v.TypeSpec, depth-1) {
				out = append(out, map[string]interface{}{v.Name: x})
			}
		}
		return out
	}
	panic("mc: no values for " + ts.Type)
}

func keyText(v interface{}) string { return fmt.Sprint(v) }

func enumText(el *sadl.EnumElementDef) string {
	if v, ok := el.Annotations["x_enumValue"]; ok && v != "" {
		return v
	}
	return el.Symbol
}

// canon gives a text equal for JSON values that mean the same for the type. Optional fields that hold the zero value of
// a Go type without a distinct "unset" state count as absent; in Java (laxTime) only empty texts and containers do.
func (e typeEnv) canon(ts *sadl.TypeSpec, v interface{}, depth int) string {
	ts = e.spec(ts)
	if depth > 12 {
		return "..."
	}
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return fmt.Sprint(x)
	}
	str := func() string {
		b, _ := json.Marshal(v)
		return string(b)
	}
	switch ts.Type {
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		s := ""
		switch x := v.(type) {
		case json.Number:
			s = string(x)
		case string:
			if ts.Type != "Decimal" {
				return "not a number " + str()
			}
			s = x
		default:
			return "not a number " + str()
		}
		rat, ok := new(big.Rat).SetString(s)
		if !ok {
			return "not a number " + str()
		}
		if ts.Type == "Float32" {
			f, _ := rat.Float32()
			return fmt.Sprint(f)
		}
		if ts.Type == "Float64" {
			f, _ := rat.Float64()
			return fmt.Sprint(f)
		}
		return rat.RatString()
	case "Array":
		xs, ok := v.([]interface{})
		if !ok {
			return "not an array " + str()
		}
		var out []string
		for _, x := range xs {
			out = append(out, e.canon(e.byName(ts.Items, "Any"), x, depth+1))
		}
		return "[" + strings.Join(out, ",") + "]"
	case "Map":
		m, ok := v.(map[string]interface{})
		if !ok {
			return "not a map " + str()
		}
		var out []string
		for k, x := range m {
			kb, _ := json.Marshal(k)
			out = append(out, string(kb)+":"+e.canon(e.byName(ts.Items, "Any"), x, depth+1))
		}
		sort.Strings(out)
		return "{" + strings.Join(out, ",") + "}"
	case "Struct", "Union":
		m, ok := v.(map[string]interface{})
		if !ok {
			return "not an object " + str()
		}
		var out []string
		known := map[string]bool{}
		one := func(f *sadl.StructFieldDef, optional bool) {
			known[f.Name] = true
			x, has := m[f.Name]
			if !has || (optional && e.unset(&f.TypeSpec, x, ts.Type == "Union")) {
				return
			}
			out = append(out, f.Name+"="+e.canon(&f.TypeSpec, x, depth+1))
		}
		for _, f := range ts.Fields {
			one(f, !f.Required)
		}
		for _, f := range ts.Variants {
			one(&sadl.StructFieldDef{Name: f.Name, TypeSpec: f.TypeSpec}, true)
		}
		for k := range m {
			if !known[k] {
				out = append(out, "UNDECLARED "+k)
			}
		}
		sort.Strings(out)
		return "{" + strings.Join(out, ";") + "}"
	}
	if x, ok := v.(string); ok && laxTime && ts.Type == "Timestamp" {
		if t, err := time.Parse(time.RFC3339Nano, x); err == nil {
			return t.UTC().Format("2006-01-02T15:04:05.000000000Z")
		}
	}
	return str()
}

// laxTime: timestamps are compared as instants, not as texts.
var laxTime bool

func (e typeEnv) unset(ts *sadl.TypeSpec, v interface{}, variant bool) bool {
	if !laxTime {
		return e.isZero(ts, v)
	}
	if variant {
		return false
	}
	switch e.spec(ts).Type {
	case "String", "Bytes", "Array", "Map", "Any":
		return e.isZero(ts, v)
	}
	return v == nil
}

// isZero: the value is the zero of a Go type that cannot tell unset from zero.
func (e typeEnv) isZero(ts *sadl.TypeSpec, v interface{}) bool {
	switch e.spec(ts).Type {
	case "Bool":
		return v == false
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64":
		n, ok := v.(json.Number)
		if !ok {
			return false
		}
		r, ok := new(big.Rat).SetString(string(n))
		return ok && r.Sign() == 0
	case "String", "UUID", "Bytes":
		return v == ""
	case "Array", "Map":
		rv := reflect.ValueOf(v)
		return v == nil || (rv.Kind() == reflect.Slice || rv.Kind() == reflect.Map) && rv.Len() == 0
	}
	return v == nil
}

func parseJSON(s string) (interface{}, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	return v, nil
}

func rawJSON(v interface{}) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		panic("mc: " + err.Error())
	}
	return b
}
