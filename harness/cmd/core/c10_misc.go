package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/boynton/sadl"
	"verif/mc"
)

var dataValues = []interface{}{
	"s", "", "false", "true", true, false, float64(3), float64(0), float64(-7), nil,
	[]interface{}{"x", "", "y"}, []interface{}{},
	map[string]interface{}{"a": "deep", "c": float64(2)},
	map[string]interface{}{"b": map[string]interface{}{"a": true, "b": map[string]interface{}{"c": "bottom"}}},
	map[string]interface{}{},
}

func refGet(root interface{}, path []string) interface{} {
	v := root
	for _, k := range path {
		m, ok := v.(map[string]interface{})
		if !ok {
			return nil
		}
		v, ok = m[k]
		if !ok {
			return nil
		}
	}
	return v
}

func checkData(r *mc.R, d *sadl.Data, root interface{}, when string) {
	keys := []string{"a", "b", "c", "a.b", "zz"}
	var paths [][]string
	for _, k := range keys {
		paths = append(paths, []string{k})
		for _, l := range keys[:3] {
			paths = append(paths, []string{k, l})
			for _, m := range keys[:3] {
				paths = append(paths, []string{k, l, m})
			}
		}
	}
	for _, p := range paths {
		want := refGet(root, p)
		got := d.Get(p...)
		if !reflect.DeepEqual(got, want) {
			r.Fail("get", "%s: Get(%q) = %v, want %v", when, p, got, want)
			return
		}
		if d.Has(p...) != (want != nil) {
			r.Fail("has", "%s: Has(%q) = %v, value %v", when, p, d.Has(p...), want)
		}
		ws, _ := want.(string)
		if g := d.GetString(p...); g != ws {
			r.Fail("getstring", "%s: GetString(%q) = %q, value %v", when, p, g, want)
		}
		wb := want != nil
		if b, ok := want.(bool); ok {
			wb = b
		} else if s, ok := want.(string); ok {
			wb = s != "false"
		}
		if g := d.GetBool(p...); g != wb {
			r.Fail("getbool", "%s: GetBool(%q) = %v, value %v", when, p, g, want)
		}
		wf, _ := want.(float64)
		if d.GetInt(p...) != int(wf) || d.GetInt64(p...) != int64(wf) || d.GetFloat64(p...) != wf {
			r.Fail("getnum", "%s: GetInt/Int64/Float64(%q) = %v %v %v, value %v", when, p, d.GetInt(p...), d.GetInt64(p...), d.GetFloat64(p...), want)
		}
		wa, _ := want.([]interface{})
		if g := d.GetArray(p...); len(g) != len(wa) || len(wa) > 0 && !reflect.DeepEqual(g, wa) {
			r.Fail("getarray", "%s: GetArray(%q) = %v, value %v", when, p, g, want)
		}
		sa := d.GetStringArray(p...)
		if len(sa) != len(wa) {
			r.Fail("getstringarray", "%s: GetStringArray(%q) = %v, value %v", when, p, sa, want)
		} else {
			for i := range sa {
				if sa[i] != wa[i] {
					r.Fail("getstringarray", "%s: GetStringArray(%q) = %v, value %v", when, p, sa, want)
				}
			}
		}
		wm, _ := want.(map[string]interface{})
		if g := d.GetMap(p...); len(g) != len(wm) || len(wm) > 0 && !reflect.DeepEqual(g, wm) {
			r.Fail("getmap", "%s: GetMap(%q) = %v, value %v", when, p, g, want)
		}
		if g := d.GetData(p...); g == nil || g.IsNil() != (want == nil) || wm != nil && !reflect.DeepEqual(g.Get("a"), wm["a"]) {
			r.Fail("getdata", "%s: GetData(%q) = %v, value %v", when, p, g, want)
		}
		if g := d.GetDecimal(p...); g != nil {
			r.Fail("getdecimal", "%s: GetDecimal(%q) = %v, value %v", when, p, g, want)
		}
	}
	gen := &sadl.Generator{Config: d}
	for _, k := range keys {
		want := refGet(root, []string{k})
		ws, wi, wb := "dflt", 99, true
		if want != nil {
			ws, _ = want.(string)
			f, _ := want.(float64)
			wi = int(f)
			switch x := want.(type) {
			case bool:
				wb = x
			case string:
				wb = x != "false"
			}
		}
		if g := gen.GetConfigString(k, "dflt"); g != ws {
			r.Fail("config", "%s: string option %q = %q, value %v", when, k, g, want)
		}
		if g := gen.GetConfigInt(k, 99); g != wi {
			r.Fail("config", "%s: int option %q = %v, value %v", when, k, g, want)
		}
		if g := gen.GetConfigBool(k, true); g != wb {
			r.Fail("config", "%s: bool option %q = %v, value %v", when, k, g, want)
		}
		if want == nil && gen.GetConfigBool(k, false) {
			r.Fail("config", "%s: absent bool option %q ignores its default", when, k)
		}
	}
}

// yamlOf writes a non-empty map in block style.
func yamlOf(m map[string]interface{}, indent string) string {
	var b strings.Builder
	for _, k := range sortedKeysOf(m) {
		if s, ok := m[k].(map[string]interface{}); ok && len(s) > 0 {
			b.WriteString(indent + k + ":\n" + yamlOf(s, indent+"  "))
			continue
		}
		v, _ := json.Marshal(m[k])
		b.WriteString(indent + k + ": " + string(v) + "\n")
	}
	return b.String()
}

func sptr(s string) *string { return &s }

// helperCase: the accessors for plain string-keyed maps, over the values the library itself builds.
func helperCase(v interface{}, present bool, nested bool) mc.Case {
	return func(r *mc.R) {
		r.Input(func() string { return fmt.Sprintf("%T %v present=%v nested=%v", v, sadl.Pretty(v), present, nested) })
		m := map[string]interface{}{"other": "x"}
		if present {
			m["k"] = v
		} else {
			v = nil
		}
		var get func(k string) (interface{}, string, bool, int, int64, []interface{}, []string, map[string]interface{}, *sadl.Decimal)
		if nested {
			d := sadl.AsData(map[string]interface{}{"n": m})
			get = func(k string) (interface{}, string, bool, int, int64, []interface{}, []string, map[string]interface{}, *sadl.Decimal) {
				return d.Get("n", k), d.GetString("n", k), d.GetBool("n", k), d.GetInt("n", k), d.GetInt64("n", k), d.GetArray("n", k), d.GetStringArray("n", k), d.GetMap("n", k), d.GetDecimal("n", k)
			}
		} else {
			get = func(k string) (interface{}, string, bool, int, int64, []interface{}, []string, map[string]interface{}, *sadl.Decimal) {
				return sadl.Get(m, k), sadl.GetString(m, k), sadl.GetBool(m, k), sadl.GetInt(m, k), sadl.GetInt64(m, k), sadl.GetArray(m, k), sadl.GetStringArray(m, k), sadl.GetMap(m, k), sadl.GetDecimal(m, k)
			}
		}
		got, s, b, i, i6, a, sa, mm, dc := get("k")
		if !reflect.DeepEqual(got, v) {
			r.Fail("get", "looked up %v", got)
		}
		var ws string
		wb := v != nil
		var wi int
		var wi6 int64
		var wa []interface{}
		var wm map[string]interface{}
		var wd *sadl.Decimal
		numeric := false
		switch x := v.(type) {
		case string:
			ws, wb = x, x != "false"
		case *string:
			ws = *x
		case bool:
			wb = x
		case float64:
			wi, wi6 = int(x), int64(x)
		case int:
			wi, numeric = x, true
		case int32:
			wi, numeric = int(x), true
		case sadl.Decimal:
			wd = &x
		case *sadl.Decimal:
			wd = x
		case []interface{}:
			wa = x
		case map[string]interface{}:
			wm = x
		}
		if s != ws {
			r.Fail("string", "as a string %q, want %q", s, ws)
		}
		if b != wb {
			r.Fail("bool", "as a boolean %v, want %v", b, wb)
		}
		if i != wi || !numeric && i6 != wi6 {
			r.Fail("int", "as integers %v %v, want %v %v", i, i6, wi, wi6)
		}
		if len(a) != len(wa) || len(wa) > 0 && !reflect.DeepEqual(a, wa) {
			r.Fail("array", "as an array %v, want %v", a, wa)
		}
		if len(mm) != len(wm) || len(wm) > 0 && !reflect.DeepEqual(mm, wm) {
			r.Fail("map", "as a map %v, want %v", mm, wm)
		}
		if (dc == nil) != (wd == nil) || dc != nil && dc.String() != wd.String() {
			r.Fail("decimal", "as a decimal %v, want %v", dc, wd)
		}
		var wsa []string
		all := true
		for _, e := range wa {
			switch x := e.(type) {
			case string:
				wsa = append(wsa, x)
			case *string:
				wsa = append(wsa, *x)
			default:
				all = false
			}
		}
		if all && (len(sa) != len(wsa) || len(sa) > 0 && !reflect.DeepEqual(sa, wsa)) {
			r.Fail("strings", "as strings %q, want %q", sa, wsa)
		}
		if !all && !nested && sa != nil {
			r.Fail("strings", "as strings %q although not all elements are", sa)
		}
		if _, s, b, _, _, _, _, _, _ := get("other"); s != "x" || !b {
			r.Fail("other", "another key reads %q", s)
		}
		r.Outcome("%T", v)
	}
}

func init() {
	mc.Register(&mc.Prop{ID: "C10",
		Bounds:      "every sequence of up to 2 puts (3 in thorough) of 15 JSON values under 3 keys on an empty, preloaded or non-map container, with every key path of length 1..3 over a colliding key pool looked up through every getter after every step; JSON, file and YAML round trip of the result",
		Assumptions: []string{"values are the ones JSON decoding gives (strings, booleans, float64, arrays, maps, null)"},
		Harnesses: []mc.Harness{
			{Name: "native", Gen: func(c *mc.C) mc.Case {
				vals := append([]interface{}{sptr("text"), sptr(""), sptr("false"), dec("1.50"), *dec("-3"), dec("123456789012345678901234567890"), int(7), int32(-8), 3.75, -2.5, float64(1 << 40),
					[]interface{}{"x", sptr("y")}, []interface{}{sptr("z")}, []interface{}{"x", 1.0}, []interface{}{1.0, "x"}, []interface{}{true, nil}, []interface{}{[]interface{}{"x"}},
					map[string]interface{}{"k": map[string]interface{}{"k": "deep"}}}, dataValues...)
				return helperCase(vals[c.Choose(len(vals))], c.Bool(), c.Bool())
			}},
			{Name: "text", Gen: func(c *mc.C) mc.Case {
				v := dataValues[c.Choose(len(dataValues))]
				switch c.Choose(4) {
				case 1:
					v = []interface{}{v, "<&>", v}
				case 2:
					v = map[string]interface{}{"k<1>": v, " ": "\n \"q\" é"}
				case 3:
					v = " \n" + fmt.Sprint(v) + "\n "
				}
				return func(r *mc.R) {
					r.Input(func() string { return fmt.Sprintf("%#v", v) })
					for n, s := range map[string]string{"ToString": sadl.ToString(v), "Pretty": sadl.Pretty(v), "Data": sadl.AsData(v).String()} {
						var got interface{}
						if err := json.Unmarshal([]byte(s), &got); err != nil || !reflect.DeepEqual(got, jcopy(v)) {
							r.Fail("text", "%s gives %q, which reads as %v (%v)", n, s, got, err)
						}
					}
					var none *sadl.Data
					if none.Get("a") != nil || none.Has("a", "b") || none.GetString("a") != "" {
						r.Fail("none", "a lookup in no container finds something")
					}
					if g := (&sadl.Generator{}).GetConfigString("a", "d"); g != "d" {
						r.Fail("none", "an option without configuration is %q", g)
					}
				}
			}},
			{Name: "annotations", Gen: func(c *mc.C) mc.Case {
				keys := []string{"x_a", "x_b", "y"}
				annos := map[string]string{}
				for _, k := range keys {
					switch c.Choose(4) {
					case 1:
						annos[k] = ""
					case 2:
						annos[k] = "v \"1\""
					case 3:
						annos[k] = "false"
					}
				}
				if len(annos) == 0 && c.Bool() {
					annos = nil
				}
				return func(r *mc.R) {
					r.Input(func() string { return fmt.Sprint(annos) })
					for _, k := range append(keys, "x", "") {
						want, ok := annos[k]
						if ok && want == "" {
							want = "true"
						}
						if g := sadl.GetAnnotation(annos, k); g != want {
							r.Fail("annotation", "annotation %q reads %q, want %q", k, g, want)
						}
					}
				}
			}},
			{Name: "ops", Gen: func(c *mc.C) mc.Case {
				n := 2
				if c.Thorough() {
					n = 3
				}
				start := c.Choose(4)
				type op struct {
					k string
					v interface{}
				}
				var ops []op
				for i := 0; i < n; i++ {
					k := c.Choose(4)
					if k == 0 {
						break
					}
					ops = append(ops, op{[]string{"a", "b", "a.b"}[k-1], dataValues[c.Choose(len(dataValues))]})
				}
				persist := c.Choose(4)
				return func(r *mc.R) {
					r.Input(func() string { return fmt.Sprintf("start %d, puts %v, persist %d", start, ops, persist) })
					var d *sadl.Data
					var root interface{}
					switch start {
					case 0:
						d = sadl.NewData()
					case 1:
						root = map[string]interface{}{"c": map[string]interface{}{"a": float64(1)}, "b": "x"}
						d = sadl.AsData(jcopy(root))
					case 2:
						root = "scalar"
						d = sadl.AsData("scalar")
					case 3:
						root = map[string]interface{}{"a": map[string]interface{}{"b": "y"}}
						var err error
						d, err = sadl.DataFromJsonString(`{"a":{"b":"y"}}`)
						if err != nil {
							r.Fail("fromjson", "%v", err)
							return
						}
					}
					if d.IsNil() != (root == nil) {
						r.Fail("isnil", "IsNil() = %v for %v", d.IsNil(), root)
					}
					checkData(r, d, root, "at start")
					for i, o := range ops {
						if root == nil {
							root = map[string]interface{}{}
						}
						if m, ok := root.(map[string]interface{}); ok {
							m[o.k] = jcopy(o.v)
						}
						d.Put(o.k, jcopy(o.v))
						checkData(r, d, root, fmt.Sprintf("after put %d", i+1))
					}
					if m, ok := root.(map[string]interface{}); ok && !reflect.DeepEqual(d.AsMap(), m) {
						r.Fail("asmap", "AsMap() = %v, want %v", d.AsMap(), m)
					}
					r.Outcome("%s", d)
					switch persist {
					case 1:
						b, err := json.Marshal(d)
						if err != nil {
							r.Fail("json", "%v", err)
							return
						}
						d2 := sadl.NewData()
						if err := json.Unmarshal(b, d2); err != nil {
							r.Fail("json", "%s: %v", b, err)
							return
						}
						checkData(r, d2, root, "after JSON")
					case 2, 3:
						if _, ok := root.(map[string]interface{}); !ok {
							return
						}
						f := filepath.Join(r.Scratch, "d.json")
						if persist == 3 {
							f = filepath.Join(r.Scratch, "d.yaml")
						}
						if err := sadl.DataToFile(d, f); err != nil {
							r.Fail("file", "%v", err)
							return
						}
						if m := root.(map[string]interface{}); persist == 3 && len(m) > 0 {
							if err := os.WriteFile(f, []byte(yamlOf(m, "")), 0600); err != nil {
								panic(err)
							}
						}
						d2, err := sadl.DataFromFile(f)
						if err != nil {
							r.Fail("file", "%v", err)
							return
						}
						checkData(r, d2, root, "after file")
					}
				}
			}},
		}})

	mc.Register(&mc.Prop{ID: "C11",
		Bounds: "every comment of up to 8 (9 in thorough) symbols over {a, bbbb, space, newline} x indent 0/2/8 x prefixes {'// ', '# ', ' * ', '//'} x widths {0,1,4,7,12,20,80} x padding; realistic sentences at every width 0..60",
		Harnesses: []mc.Harness{
			{Name: "symbols", Gen: func(c *mc.C) mc.Case {
				n := 7
				if c.Thorough() {
					n = 8
				}
				comment := enumString(c, []string{"a", "bbbb", " ", "\n"}, n)
				indent := mc.Pick(c, "", "  ", "        ")
				prefix := mc.Pick(c, "// ", " * ")
				width := mc.Pick(c, 80, 0, 1, 7, 12, 20)
				pad := c.Bool()
				return commentCase(comment, indent, prefix, width, pad)
			}},
			{Name: "sentences", Gen: func(c *mc.C) mc.Case {
				comment := mc.Pick(c, "The quick brown fox jumps over the lazy dog, twice.", "averyveryverylongwordthatdoesnotfitanywhereatall and then short ones", "first line\nsecond line with more words\n\nlast", "trailing newline\n", "*/ not the end /* or // start", "  leading and   inner   spaces  ")
				return commentCase(comment, mc.Pick(c, "", "    "), mc.Pick(c, "// ", "# ", "//", " * "), c.Choose(61), c.Bool())
			}},
		}})

	// ---- C12
	contents := []string{"", "x", "hello\nworld\n", strings.Repeat("0123456789abcdef", 700)}
	targets := []string{"new", "other", "existing", "dir", "missing/child", "full", "emptyfile", "link"}
	mc.Register(&mc.Prop{ID: "C12",
		Bounds:      "every sequence of up to 2 (3 in thorough) writes over 8 destinations (two new files, an existing file, an empty file, a symlink to a file, a directory, a path in a missing directory, a full device) x 4 contents (empty to larger than any buffer) x overwriting requested or not (or as text) x an error already pending; every sequence of up to 4 (5) begin/emit/template/end steps",
		Assumptions: []string{"a full device is /dev/full reached through a symlink in the scratch directory; permission faults are not enumerated because the checks run as root"},
		Harnesses: []mc.Harness{
			{Name: "write", Gen: func(c *mc.C) mc.Case {
				n := 2
				if c.Thorough() {
					n = 3
				}
				force := mc.Pick(c, interface{}(nil), false, true, "true", "false")
				pending := c.Bool()
				type op struct {
					t string
					k int
				}
				var ops []op
				for i := 0; i < n; i++ {
					k := c.Choose(len(targets) + 1)
					if k == 0 {
						break
					}
					ops = append(ops, op{targets[k-1], c.Choose(len(contents))})
				}
				return func(r *mc.R) {
					r.Input(func() string {
						return fmt.Sprintf("force-overwrite=%v pending error=%v writes %v", force, pending, ops)
					})
					dir := filepath.Join(r.Scratch, "w")
					os.RemoveAll(dir)
					os.MkdirAll(filepath.Join(dir, "dir"), 0700)
					files := map[string]string{"existing": "precious", "emptyfile": "", "linked": "target"}
					for k, v := range files {
						os.WriteFile(filepath.Join(dir, k), []byte(v), 0600)
					}
					os.Symlink("/dev/full", filepath.Join(dir, "full"))
					os.Symlink("linked", filepath.Join(dir, "link"))
					conf := sadl.NewData()
					if force != nil {
						conf.Put("force-overwrite", force)
					}
					over := force == true || force == "true"
					gen := &sadl.Generator{Config: conf, OutDir: dir}
					if pending {
						gen.Err = fmt.Errorf("earlier failure")
					}
					mustErr := pending
					trace := ""
					for i, o := range ops {
						before := gen.Err
						gen.WriteFile(filepath.Join(dir, o.t), contents[o.k])
						key := o.t
						if key == "link" {
							key = "linked"
						}
						old, exists := files[key]
						wrote := false
						switch {
						case o.t == "dir" || o.t == "full":
							if over && (o.t == "dir" || contents[o.k] != "") {
								mustErr = true
							}
						case o.t == "missing/child":
							mustErr = true
						case exists && !over:
						default:
							wrote = true
						}
						if mustErr && gen.Err == nil {
							r.Fail("silent", "step %d (%v): no error reported", i+1, o)
						}
						if before != nil && gen.Err == nil {
							r.Fail("erased", "step %d (%v): an earlier error was erased", i+1, o)
						}
						var b []byte
						var err error
						if key != "full" && key != "dir" {
							b, err = os.ReadFile(filepath.Join(dir, key))
						}
						if wrote {
							if gen.Err == nil && (err != nil || string(b) != contents[o.k]) {
								r.Fail("content", "step %d (%v): no error, but the file holds %q, %v", i+1, o, clipS(string(b)), err)
							}
							if before == nil && gen.Err != nil {
								r.Fail("spurious", "step %d (%v): %v", i+1, o, gen.Err)
							}
							if err == nil {
								files[key] = string(b)
							}
						} else if exists && (err != nil || string(b) != old) {
							r.Fail("clobbered", "step %d (%v): existing content %q became %q, %v", i+1, o, clipS(old), clipS(string(b)), err)
						}
						for k, v := range files {
							if k != key {
								if b, err := os.ReadFile(filepath.Join(dir, k)); err != nil || string(b) != v {
									r.Fail("bystander", "step %d (%v): %s changed to %q, %v", i+1, o, k, clipS(string(b)), err)
								}
							}
						}
						trace += fmt.Sprint(o.t, wrote, gen.Err == nil, ";")
					}
					r.Outcome("%s", trace)
				}
			}},
			{Name: "emit", Gen: func(c *mc.C) mc.Case {
				n := 4
				if c.Thorough() {
					n = 5
				}
				var ops []int
				for i := 0; i < n; i++ {
					k := c.Choose(8)
					if k == 0 {
						break
					}
					ops = append(ops, k)
				}
				return func(r *mc.R) {
					names := []string{"", "begin", "emit a", "emit big", "template", "end", "bad template", "emit empty"}
					r.Input(func() string {
						var l []string
						for _, k := range ops {
							l = append(l, names[k])
						}
						return strings.Join(l, ", ")
					})
					gen := &sadl.Generator{Config: sadl.NewData()}
					big := contents[3]
					begun, want, failed := false, "", false
					out := ""
					for i, k := range ops {
						switch k {
						case 1:
							gen.Begin()
							if !failed {
								begun, want = true, ""
							}
						case 2:
							gen.Emit("a\n")
							if begun && !failed {
								want += "a\n"
							}
						case 3:
							gen.Emit(big)
							if begun && !failed {
								want += big
							}
						case 4:
							gen.EmitTemplate("t", "<{{.X}}>", map[string]string{"X": "v"}, nil)
							if begun && !failed {
								want += "<v>"
							}
						case 5:
							got := gen.End()
							w := want
							if failed {
								w = ""
							}
							if got != w {
								r.Fail("end", "step %d: got %q, want %q", i+1, clipS(got), clipS(w))
							}
							out += fmt.Sprint(len(got), ";")
						case 6:
							gen.EmitTemplate("t", "{{.X", nil, nil)
							failed = true
						case 7:
							gen.Emit("")
						}
						if failed != (gen.Err != nil) {
							r.Fail("err", "step %d: error %v, want error=%v", i+1, gen.Err, failed)
						}
					}
					r.Outcome("%s", out)
				}
			}},
		}})

	// ---- C30
	mc.Register(&mc.Prop{ID: "C30",
		Bounds: "every dotted target of up to 3 segments (4 in thorough) over a pool of 31 names (types, fields, nested and named struct fields, HTTP requests and responses, their inputs and outputs, actions without an expected result, unknown and empty names, names that differ in case only)",
		Harnesses: []mc.Harness{
			{Name: "targets", Gen: func(c *mc.C) mc.Case {
				n := 3
				if c.Thorough() {
					n = 4
				}
				pool := []string{"Foo", "Bar", "a", "b", "in", "c", "d", "e", "arr", "foo", "GetThingRequest", "GetThingResponse", "NoExpRequest", "NoExpResponse", "UnknownRequest", "PingResponse", "Request", "Response", "id", "body", "out", "h", "", "String", "zzz", "Id", "H", "D", "A", "FOO", "GetthingRequest"}
				segs := []string{mc.Pick(c, pool...)}
				for i := 1; i < n; i++ {
					k := c.Choose(len(pool) + 1)
					if k == 0 {
						break
					}
					segs = append(segs, pool[k-1])
				}
				return func(r *mc.R) {
					target := strings.Join(segs, ".")
					r.Input(func() string { return target })
					schema := exampleSchema()
					model, err := sadl.NewModel(schema)
					if err != nil {
						r.Fail("newmodel", "%v", err)
						return
					}
					want, verdict := refTarget(schema, segs)
					ts, err := model.FindExampleType(&sadl.ExampleDef{Target: target})
					r.Outcome("%v %s", err == nil, jsonOf(ts))
					switch verdict {
					case "error":
						if err == nil {
							r.Fail("accepted", "target %q resolved to %s, want an error", target, jsonOf(ts))
						}
					case "untyped":
						if err != nil || ts != nil {
							r.Fail("untyped", "target %q gave %s, %v", target, jsonOf(ts), err)
						}
					default:
						if err != nil || ts == nil || diffOf(ts, want) != "" {
							r.Fail("resolved", "target %q gave %s, %v; want %s", target, jsonOf(ts), err, jsonOf(want))
						}
					}
				}
			}},
		}})
}

func clipS(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%s...(%d bytes)", s[:40], len(s))
	}
	return s
}

func exampleSchema() *sadl.Schema {
	param := func(name, typ, query string, path bool) *sadl.HttpParamSpec {
		return &sadl.HttpParamSpec{Path: path, Query: query, StructFieldDef: *fld(name, false, tsOf(typ))}
	}
	return &sadl.Schema{Name: "t", Types: []*sadl.TypeDef{
		td("Foo", structTS(fld("a", true, sadl.TypeSpec{Type: "String", MaxSize: i64(3)}), fld("b", false, tsOf("Bar")), fld("in", false, structTS(fld("c", false, tsOf("Int32")), fld("b", false, tsOf("Bar")))), fld("e", false, enumTS("x")), fld("arr", false, sadl.TypeSpec{Type: "Array", Items: "Bar"}))),
		td("Bar", structTS(fld("D", false, tsOf("Int64")), fld("d", false, tsOf("Int8")), fld("foo", false, tsOf("Foo")))),
		td("PingResponse", structTS(fld("out", false, tsOf("Bool")))),
	}, Http: []*sadl.HttpDef{
		{Name: "getThing", Method: "GET", Path: "/t/{id}", Inputs: []*sadl.HttpParamSpec{param("Id", "Int16", "i", false), param("id", "String", "", true), param("body", "Foo", "", false)},
			Expected: &sadl.HttpExpectedSpec{Status: 200, Outputs: []*sadl.HttpParamSpec{param("H", "Bool", "", false), param("out", "Bar", "", false), param("h", "UUID", "", false)}}},
		{Name: "noExp", Method: "GET", Path: "/n", Inputs: []*sadl.HttpParamSpec{param("id", "Int64", "", true)}},
		{Name: "ping", Method: "GET", Path: "/p", Expected: &sadl.HttpExpectedSpec{Status: 200, Outputs: []*sadl.HttpParamSpec{param("h", "UUID", "", false)}}},
	}}
}

func refTarget(s *sadl.Schema, segs []string) (*sadl.TypeSpec, string) {
	types := refOf(s)
	cur := types[segs[0]]
	rest := segs[1:]
	if cur == nil {
		var h *sadl.HttpDef
		in := strings.HasSuffix(segs[0], "Request")
		for _, x := range s.Http {
			n := strings.ToUpper(x.Name[:1]) + x.Name[1:]
			if n+"Request" == segs[0] || n+"Response" == segs[0] {
				h = x
			}
		}
		if h == nil {
			return nil, "error"
		}
		if len(rest) == 0 {
			return nil, "untyped"
		}
		ps := h.Inputs
		if !in {
			ps = nil
			if h.Expected != nil {
				ps = h.Expected.Outputs
			}
		}
		for _, p := range ps {
			if p.Name == rest[0] {
				ts := p.TypeSpec
				cur = &ts
			}
		}
		if cur == nil {
			return nil, "error"
		}
		rest = rest[1:]
	}
	for _, k := range rest {
		st := cur
		if n := types[st.Type]; n != nil && st.Type != "Struct" {
			st = n
		}
		if st.Type != "Struct" {
			return nil, "error"
		}
		cur = nil
		for _, f := range st.Fields {
			if f.Name == k {
				cur = &f.TypeSpec
			}
		}
		if cur == nil {
			return nil, "error"
		}
	}
	return cur, ""
}

func commentCase(comment, indent, prefix string, width int, pad bool) mc.Case {
	return func(r *mc.R) {
		r.Input(func() string {
			return fmt.Sprintf("comment %q indent %q prefix %q width %d pad %v", comment, indent, prefix, width, pad)
		})
		out := sadl.FormatComment(indent, prefix, comment, width, pad)
		r.Outcome("%s", out)
		if prefix == "// " {
			gen := &sadl.Generator{}
			if o := gen.FormatComment(indent, comment, width, pad); o != out {
				r.Fail("generator", "the generator formats differently: %q vs %q", o, out)
			}
		}
		if !strings.HasSuffix(out, "\n") {
			r.Fail("newline", "output %q does not end its last line", out)
			return
		}
		lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		bare := indent + strings.Trim(prefix, " ")
		var body []string
		for i, l := range lines {
			if strings.HasPrefix(l, indent+prefix) {
				body = append(body, l[len(indent)+len(prefix):])
				continue
			}
			if pad && l == bare && (i == 0 || i == len(lines)-1) {
				continue
			}
			r.Fail("outside", "line %q of %q is not a comment line", l, out)
			return
		}
		if pad && strings.Trim(prefix, " ") == prefix && len(body) >= 2 && body[0] == "" && body[len(body)-1] == "" && !strings.Contains(comment, "\n") && strings.Join(body, " ") != comment {
			body = body[1 : len(body)-1] // padding lines look like empty comment lines
		}
		if strings.Contains(comment, "\n") {
			if got := strings.Join(body, "\n"); got != comment {
				r.Fail("lines", "the lines became %q", body)
			}
			return
		}
		if got := strings.Join(body, " "); got != comment {
			r.Fail("words", "the text became %q (output %q)", got, out)
		}
		if width > len(indent) {
			for _, l := range body {
				if len(strings.Fields(l)) > 1 && len(indent)+len(prefix)+len(strings.TrimRight(l, " ")) > width {
					r.Fail("width", "line %q is longer than %d although it could be broken", l, width)
				}
			}
		}
	}
}
