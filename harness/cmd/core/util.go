package main

import (
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/boynton/sadl"
)

// same is structural equality in which nil and empty slices/maps agree and decimals compare numerically; diff names the first difference.
func diff(path string, a, b reflect.Value) string {
	if a.IsValid() != b.IsValid() {
		return path + ": present on one side only"
	}
	if !a.IsValid() {
		return ""
	}
	if a.Kind() == reflect.Interface || b.Kind() == reflect.Interface {
		if a.Kind() == reflect.Interface {
			a = a.Elem()
		}
		if b.Kind() == reflect.Interface {
			b = b.Elem()
		}
		return diff(path, a, b)
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %v vs %v", path, a.Type(), b.Type())
	}
	if a.Type() == reflect.TypeOf(sadl.Decimal{}) {
		x, y := a.Interface().(sadl.Decimal), b.Interface().(sadl.Decimal)
		if x.Cmp(&y.Float) != 0 {
			return fmt.Sprintf("%s: %s vs %s", path, x.Text('f', -1), y.Text('f', -1))
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return path + ": nil on one side only"
		}
		if a.IsNil() {
			return ""
		}
		return diff(path, a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath != "" {
				continue
			}
			if d := diff(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d vs %d elements", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d vs %d entries", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			if !b.MapIndex(k).IsValid() {
				return fmt.Sprintf("%s[%v]: missing", path, k)
			}
			if d := diff(fmt.Sprintf("%s[%v]", path, k), a.MapIndex(k), b.MapIndex(k)); d != "" {
				return d
			}
		}
		return ""
	}
	if a.Interface() != b.Interface() {
		return fmt.Sprintf("%s: %v vs %v", path, a.Interface(), b.Interface())
	}
	return ""
}

func diffOf(a, b interface{}) string { return diff("", reflect.ValueOf(a), reflect.ValueOf(b)) }

// clone makes a deep copy that shares nothing.
func cloneV(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		if d, ok := v.Interface().(*sadl.Decimal); ok {
			return reflect.ValueOf(dec(d.Text('f', -1)))
		}
		n := reflect.New(v.Elem().Type())
		n.Elem().Set(cloneV(v.Elem()))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(cloneV(v.Elem()))
		return n
	case reflect.Struct:
		if d, ok := v.Interface().(sadl.Decimal); ok {
			return reflect.ValueOf(*dec(d.Text('f', -1)))
		}
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				n.Field(i).Set(cloneV(v.Field(i)))
			}
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(cloneV(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, cloneV(v.MapIndex(k)))
		}
		return n
	}
	return v
}

func cloneSchema(s *sadl.Schema) *sadl.Schema {
	return cloneV(reflect.ValueOf(s)).Interface().(*sadl.Schema)
}

func dec(s string) *sadl.Decimal {
	d, err := sadl.ParseDecimal(s)
	if err != nil {
		panic("mc: bad literal in harness: " + s)
	}
	return d
}

func i64(n int64) *int64 { return &n }

func enumTS(syms ...string) sadl.TypeSpec {
	ts := sadl.TypeSpec{Type: "Enum"}
	for _, s := range syms {
		ts.Elements = append(ts.Elements, &sadl.EnumElementDef{Symbol: s})
	}
	return ts
}

func fld(name string, req bool, ts sadl.TypeSpec) *sadl.StructFieldDef {
	return &sadl.StructFieldDef{Name: name, Required: req, TypeSpec: ts}
}

func tsOf(t string) sadl.TypeSpec { return sadl.TypeSpec{Type: t} }

func structTS(fs ...*sadl.StructFieldDef) sadl.TypeSpec {
	return sadl.TypeSpec{Type: "Struct", Fields: fs}
}

func unionTS(names ...string) sadl.TypeSpec {
	ts := sadl.TypeSpec{Type: "Union"}
	for i := 0; i+1 < len(names); i += 2 {
		ts.Variants = append(ts.Variants, &sadl.UnionVariantDef{Name: names[i], TypeSpec: tsOf(names[i+1])})
	}
	return ts
}

func td(name string, ts sadl.TypeSpec) *sadl.TypeDef { return &sadl.TypeDef{Name: name, TypeSpec: ts} }

func jsonOf(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "error " + err.Error()
	}
	return string(b)
}

func jcopy(v interface{}) interface{} {
	b, _ := json.Marshal(v)
	var r interface{}
	json.Unmarshal(b, &r)
	return r
}

type jobj = map[string]interface{}

func sub(m jobj, keys ...string) jobj {
	for _, k := range keys {
		n, _ := m[k].(jobj)
		m = n
	}
	return m
}

func str(v interface{}) string { s, _ := v.(string); return s }
