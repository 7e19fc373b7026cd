package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"github.com/boynton/sadl/graphql"
	"github.com/boynton/sadl/httptrace"
	"github.com/boynton/sadl/java"
	"github.com/boynton/sadl/openapi"
	"verif/mc"
)

// C23: the output of every exporter and importer does not depend on map iteration order or on the process.
// C24: exporters and importers do not influence one another, and leave the model alone.

// A step is one run of an exporter on a model, or of an importer on a document. Its output is text.
type step struct {
	name     string
	importer bool
	run      func(m *sadl.Model, doc, dir string) (string, error)
}

func confOf(kv ...interface{}) *sadl.Data {
	d := sadl.NewData()
	for i := 0; i < len(kv); i += 2 {
		d.Put(kv[i].(string), kv[i+1])
	}
	return d
}

// treeText: every file below dir, with its content.
func treeText(dir string) string {
	var l []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			l = append(l, "== "+rel+"\n"+string(b))
		}
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "")
}

var dateLine = regexp.MustCompile(`(?m)^Date: .*$`)

func captured(f func() error) (string, error) {
	var err error
	s := mc.Capture(func() { err = f() })
	return s, err
}

func files(dir string, f func() error) (string, error) {
	os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	s, err := captured(f)
	return strings.ReplaceAll(s, dir, "DIR") + treeText(dir), err
}

func modelText(m *sadl.Model, err error) (string, error) {
	if err != nil {
		return "", err
	}
	b, err := json.Marshal(&m.Schema)
	return string(b), err
}

func fileStep(dir, name, doc string, f func(path string) (*sadl.Model, error)) (string, error) {
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, []byte(doc), 0644); err != nil {
		panic("mc: " + err.Error())
	}
	var m *sadl.Model
	var err error
	mc.Capture(func() { m, err = f(p) })
	return modelText(m, err)
}

var steps = []step{
	{"openapi", false, func(m *sadl.Model, _, dir string) (string, error) {
		return captured(func() error { return openapi.Export(m, sadl.NewData()) })
	}},
	{"graphql", false, func(m *sadl.Model, _, dir string) (string, error) {
		return captured(func() error {
			return graphql.Export(m, confOf("custom-scalars", map[string]interface{}{"Timestamp": "DateTime", "UUID": "Guid", "Decimal": "BigDecimal", "Int64": "Long"}))
		})
	}},
	{"http-trace", false, func(m *sadl.Model, _, dir string) (string, error) {
		s, err := captured(func() error { return httptrace.Export(m, sadl.NewData()) })
		return dateLine.ReplaceAllString(s, "Date:"), err
	}},
	{"go", false, func(m *sadl.Model, _, dir string) (string, error) {
		return files(dir, func() error {
			return golang.Export(m, dir, confOf("package", "gen", "server", true, "client", true))
		})
	}},
	{"go-runtime", false, func(m *sadl.Model, _, dir string) (string, error) {
		return files(dir, func() error { return golang.Export(m, dir, confOf("package", "gen", "runtime", true)) })
	}},
	{"java", false, func(m *sadl.Model, _, dir string) (string, error) {
		return files(dir, func() error {
			return java.Export(m, dir, confOf("package", "gen", "server", true, "client", true, "example-implementation", true))
		})
	}},
	{"java-mutable", false, func(m *sadl.Model, _, dir string) (string, error) {
		return files(dir, func() error {
			return java.Export(m, dir, confOf("domain", "shop.acme.com", "immutable", false, "instants", false, "json", true, "service-exception", true, "server", true, "maven", true, "getters", true))
		})
	}},
	{"import-openapi", true, func(_ *sadl.Model, doc, dir string) (string, error) {
		return fileStep(dir, "doc.json", doc, func(p string) (*sadl.Model, error) { return openapi.Import([]string{p}, sadl.NewData()) })
	}},
	{"import-swagger", true, func(_ *sadl.Model, doc, dir string) (string, error) {
		return fileStep(dir, "doc.yaml", doc, func(p string) (*sadl.Model, error) { return openapi.ImportSwagger([]string{p}, sadl.NewData()) })
	}},
	{"import-graphql", true, func(_ *sadl.Model, doc, dir string) (string, error) {
		return fileStep(dir, "doc.graphql", doc, func(p string) (*sadl.Model, error) { return graphql.Import([]string{p}, confOf("name", "given")) })
	}},
}

// A subject is what steps run on: a model (as JSON) or a document per importer.
type subject struct {
	Schema string
	Docs   map[string]string
}

func (s *subject) model() *sadl.Model {
	var sc sadl.Schema
	if err := json.Unmarshal([]byte(s.Schema), &sc); err != nil {
		panic("mc: " + err.Error())
	}
	for _, x := range sc.Examples {
		x.Example = exampleForm(x.Example, true)
	}
	m, err := sadl.NewModel(&sc)
	if err != nil {
		panic("mc: the drawn model is not valid: " + err.Error())
	}
	return m
}

func (s *subject) has(k int) bool {
	return !steps[k].importer && s.Schema != "" || s.Docs[steps[k].name] != ""
}

// perform runs a step; errors are part of the outcome, their wording is not.
func (s *subject) perform(k int, m *sadl.Model, dir string) (out string) {
	defer func() {
		if e := recover(); e != nil {
			if t := fmt.Sprint(e); strings.HasPrefix(t, "mc: ") {
				panic(e)
			}
			out = "panic"
		}
	}()
	t, err := steps[k].run(m, s.Docs[steps[k].name], dir)
	if err != nil {
		return "error"
	}
	return "ok\n" + t
}

// freshOutput performs a step in a new process, with the runtime's own map order.
var freshCache = map[string]string{}

func (s *subject) freshOutput(k int) string {
	in, _ := json.Marshal(map[string]interface{}{"Subject": s, "Step": k})
	if o, ok := freshCache[string(in)]; ok {
		return o
	}
	cmd := exec.Command("/proc/self/exe")
	cmd.Env = append(os.Environ(), "VERIF_CHILD=step")
	cmd.Stdin = bytes.NewReader(in)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		panic("mc: the fresh process failed: " + err.Error() + clipN(eb.String(), 1000))
	}
	if len(freshCache) > 3000 {
		freshCache = map[string]string{}
	}
	freshCache[string(in)] = string(out)
	return string(out)
}

func init() {
	if os.Getenv("VERIF_CHILD") != "step" {
		return
	}
	var job struct {
		Subject subject
		Step    int
	}
	b, _ := io.ReadAll(os.Stdin)
	if err := json.Unmarshal(b, &job); err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp("", "verif-step")
	if err != nil {
		panic(err)
	}
	var m *sadl.Model
	if job.Subject.Schema != "" {
		m = job.Subject.model()
	}
	out := job.Subject.perform(job.Step, m, filepath.Join(dir, "step"))
	os.RemoveAll(dir)
	fmt.Print(out)
	os.Exit(0)
}

// ---- subjects

func annos(p string) map[string]string {
	return map[string]string{"x_zeta": p + "1", "x_tags": "red,blue", "x_alpha": p + "2", "x_mid": ""}
}

// richModel: a model using as much as an exporter supports, with deviations.
func richModel(c *mc.C, types []sadl.TypeSpec) *sadl.Schema {
	o := goHttp(false)
	o.base = richBase
	h := goAction(c, "getIt", "things", o, "")
	if h == nil {
		return nil
	}
	s := &sadl.Schema{Name: "svc", Namespace: "acme.shop", Version: "1", Types: serviceAux(), Http: []*sadl.HttpDef{h}, Annotations: annos("s")}
	s.Types = append(s.Types, td("D0", tsOf("Decimal")), td("Ts0", tsOf("Timestamp")), td("U0", unionTS("rec", "Rec", "num", "Num")))
	t0 := td("T0", types[c.Dev(len(types))])
	t0.Annotations = annos("t")
	s.Types = append(s.Types, t0, td("Big", structTS(
		fld("ts", true, tsOf("Timestamp")), fld("dec", false, tsOf("Decimal")), fld("id", true, tsOf("UUID")), fld("mm", false, mapTS("Timestamp")), fld("ll", true, arrTS("Decimal")), fld("col", true, tsOf("Col")), fld("t0", false, tsOf("T0")))))
	for _, f := range s.Types[len(s.Types)-1].Fields {
		f.Annotations = annos("f")
		f.Comment = "about " + f.Name
	}
	s.Types[1].Elements[0].Annotations = map[string]string{"x_enumValue": "r", "x_b": "c"}
	h.Annotations = annos("h")
	s.Http = append(s.Http, &sadl.HttpDef{Name: "other", Method: "DELETE", Path: "/others/{id}", Inputs: []*sadl.HttpParamSpec{{Path: true, StructFieldDef: *fld("id", true, tsOf("Int32"))}},
		Expected: &sadl.HttpExpectedSpec{Status: 204}, Exceptions: []*sadl.HttpExceptionSpec{{Type: "Err", Status: 400}, {Type: "Missing", Status: 404}}})
	s.Operations = []*sadl.OperationDef{{Name: "op", Annotations: annos("o")}}
	if c.DevBool() {
		s.Name = "other1"
		s.Namespace = ""
		s.Base = "/v1"
	}
	if c.DevBool() {
		s.Http = s.Http[1:]
	}
	e := envOf(s)
	for _, x := range []string{"", "first", "second", "third"} {
		for _, h := range s.Http {
			req, res := map[string]interface{}{}, map[string]interface{}{}
			for _, in := range h.Inputs {
				req[in.Name] = e.values(&in.TypeSpec, 2)[0]
			}
			s.Examples = append(s.Examples, &sadl.ExampleDef{Target: reqTarget(h), Name: x, Example: req})
			if x == "third" && len(h.Exceptions) > 0 {
				s.Examples = append(s.Examples, &sadl.ExampleDef{Target: h.Exceptions[0].Type, Name: x, Example: e.values(&sadl.TypeSpec{Type: h.Exceptions[0].Type}, 2)[0]})
			} else {
				for _, out := range h.Expected.Outputs {
					res[out.Name] = e.values(&out.TypeSpec, 2)[0]
				}
				s.Examples = append(s.Examples, &sadl.ExampleDef{Target: resTarget(h), Name: x, Example: res})
			}
		}
	}
	s.Examples = append(s.Examples, &sadl.ExampleDef{Target: "Rec", Example: map[string]interface{}{"name": "n", "count": num("3")}}, &sadl.ExampleDef{Target: "Col", Name: "c", Example: "RED"})
	return s
}

// gqlSupported leaves out what the GraphQL exporter does not support.
func gqlSupported(sc *sadl.Schema) {
	var keep []*sadl.TypeDef
	for _, t := range sc.Types {
		if t.Name != "Mp" && t.Name != "U0" {
			keep = append(keep, t)
		}
	}
	sc.Types = keep
	var fs []*sadl.StructFieldDef
	big := keep[len(keep)-1]
	for _, f := range big.Fields {
		if f.Type != "Map" {
			fs = append(fs, f)
		}
	}
	big.Fields = fs
}

func schemaJSON(s *sadl.Schema) string {
	b, err := json.Marshal(s)
	if err != nil {
		panic("mc: " + err.Error())
	}
	return string(b)
}

// plainTypes: definitions every exporter accepts.
var plainTypes = []sadl.TypeSpec{structTS(fld("z", true, tsOf("String")), fld("a", false, tsOf("Int32"))), tsOf("String"), arrTS("Rec"), enumTS("B", "A")}

// docSink, when set, receives the drawn documents of the import checks instead of their own judge.
var docSink func(v int, how string, d *adoc) mc.Case

func docSubjects(v int) []mc.Harness {
	var out []mc.Harness
	name := map[int]string{2: "import-swagger", 3: "import-openapi"}[v]
	for _, h := range docHarnesses(v) {
		h := h
		if h.Name == "params" || h.Name == "results" || h.Name == "service" || h.Name == "rejected" || h.Name == "symbols" { // shapes are covered by the operations
			continue
		}
		gen := h.Gen
		h.Name = fmt.Sprintf("%s-%s", name, h.Name)
		if h.Quick > 1 {
			h.Quick, h.Deep = 1, 2
		}
		h.Gen = func(c *mc.C) mc.Case {
			// two success answers, or several media types, leave the importer a choice
			more := c.Choose(4)
			anon := c.DevBool()
			docSink = func(v int, how string, d *adoc) mc.Case {
				if how == "yaml" {
					return nil
				}
				doc := d.render(v)
				if more != 0 || anon {
					b, _ := json.Marshal(doc)
					doc = jobj{}
					json.Unmarshal(b, &doc)
					if !embellish(doc, v, more, anon) {
						return nil
					}
				}
				text, _ := json.MarshalIndent(doc, "", " ")
				return orderCase(&subject{Docs: map[string]string{name: string(text)}}, stepNo(name), true)
			}
			defer func() { docSink = nil }()
			return gen(c)
		}
		out = append(out, h)
	}
	return out
}

// embellish adds further success responses (1), media types (2) or extension fields and parameters (3) to every
// operation, and removes the operations' names.
func embellish(doc jobj, v, more int, anon bool) bool {
	n := 0
	for _, pi := range sub(doc, "paths") {
		for _, o := range pi.(jobj) {
			op, ok := o.(jobj)
			if !ok {
				continue
			}
			n++
			rs := sub(op, "responses")
			if anon {
				delete(op, "operationId")
			}
			switch more {
			case 1:
				mk := func(t string) jobj {
					sch := jobj{"$ref": "#/definitions/" + t}
					if v == 2 {
						return jobj{"description": t, "schema": sch}
					}
					sch["$ref"] = "#/components/schemas/" + t
					return jobj{"description": t, "content": jobj{"application/json": jobj{"schema": sch}}}
				}
				rs["203"], rs["206"], rs["201"] = mk("Rec"), mk("Col"), mk("Rec")
			case 2:
				if v == 2 {
					op["produces"] = []interface{}{"text/plain", "application/json", "application/xml"}
					op["consumes"] = []interface{}{"text/plain", "application/json", "application/xml"}
				} else {
					for _, r := range rs {
						if m := sub(r.(jobj), "content"); m != nil {
							m["text/plain"] = jobj{"schema": jobj{"type": "string"}}
							m["application/xml"] = jobj{"schema": jobj{"type": "integer"}}
						}
					}
					if m := sub(op, "requestBody", "content"); m != nil {
						m["text/plain"] = jobj{"schema": jobj{"type": "string"}}
						m["application/xml"] = jobj{"schema": jobj{"type": "integer"}}
					}
				}
			case 3:
				op["x-one"], op["x-two"], op["x-three"] = "1", jobj{"b": 1, "a": 2}, "3"
				doc["x-one"], doc["x-two"] = "1", jobj{"b": 1, "a": 2}
				hs := jobj{}
				for _, h := range []string{"X-Zeta", "X-Alpha", "X-Mid"} {
					if v == 2 {
						hs[h] = jobj{"type": "string"}
					} else {
						hs[h] = jobj{"schema": jobj{"type": "string"}}
					}
				}
				for _, r := range rs {
					r.(jobj)["headers"] = hs
				}
			}
		}
	}
	return n > 0 || more == 3
}

func stepNo(name string) int {
	for i, s := range steps {
		if s.name == name {
			return i
		}
	}
	panic("mc: no step " + name)
}

func orderCase(s *subject, k int, fresh bool) mc.Case {
	return func(r *mc.R) {
		r.Input(func() string { return steps[k].name + " " + s.Schema + s.Docs[steps[k].name] })
		dir := filepath.Join(r.Scratch, "step")
		var first string
		for off := 0; off < 8; off++ {
			var m *sadl.Model
			if s.Schema != "" {
				m = s.model()
			}
			mc.MapOrder(off)
			o := s.perform(k, m, dir)
			mc.MapOrder(0)
			if off == 0 {
				first = o
			} else if o != first {
				r.Fail("order:"+steps[k].name, "the output depends on the iteration order of maps (offset %d): %s", off, diffText(first, o))
				return
			}
		}
		if !fresh {
			r.Outcome("%s", first)
			return
		}
		if o := s.freshOutput(k); o != first {
			r.Fail("process:"+steps[k].name, "another process gives another output: %s", diffText(first, o))
		}
		r.Outcome("%s", first)
	}
}

func diffText(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	s := i - 60
	if s < 0 {
		s = 0
	}
	end := func(t string) string {
		e := i + 100
		if e > len(t) {
			e = len(t)
		}
		return t[s:e]
	}
	return fmt.Sprintf("%q ... or ... %q", end(a), end(b))
}

func init() {
	exports := func(c *mc.C) mc.Case {
		k := c.Choose(7)
		var types []sadl.TypeSpec
		switch steps[k].name {
		case "graphql":
			types = plainTypes
		case "java", "java-mutable":
			types = append(append([]sadl.TypeSpec{}, plainTypes...), defMenu(javaDefOK)...)
		default:
			types = append(append([]sadl.TypeSpec{}, plainTypes...), defMenu(nil)...)
		}
		sc := richModel(c, types)
		if sc == nil {
			return nil
		}
		if steps[k].name == "graphql" {
			gqlSupported(sc)
		}
		return orderCase(&subject{Schema: schemaJSON(sc)}, k, true)
	}
	gql := func(c *mc.C) mc.Case {
		d := drawGdoc(c)
		if d == nil {
			return nil
		}
		return orderCase(&subject{Docs: map[string]string{"import-graphql": d.text.String()}}, stepNo("import-graphql"), true)
	}
	format := func(c *mc.C) mc.Case {
		keys := []string{"x_b", "x_a", "x_c", "x_d", "x_aa"}
		n := 1 + c.Choose(len(keys))
		m := map[string]string{}
		first := c.Choose(len(keys))
		for i := 0; i < n; i++ {
			m[keys[(first+i)%len(keys)]] = mc.Pick(c, "v", "q\"")
		}
		return func(r *mc.R) {
			r.Input(func() string { return fmt.Sprint(m) })
			out := map[string]bool{}
			for off := 0; off < 8; off++ {
				mc.MapOrder(off)
				out[sadl.AnnotationsAsString(m)+sadl.Pretty(m)+sadl.AsString(m)] = true
			}
			mc.MapOrder(0)
			if len(out) != 1 {
				r.Fail("annotations", "annotations are printed in different ways: %v", out)
			}
		}
	}
	variety := func(c *mc.C) mc.Case {
		sc, _ := varied(c, allCats+" pdefault", false)
		if sc == nil {
			return nil
		}
		k := c.Choose(7)
		if !c.Thorough() || c.Bool() { // with several annotations everywhere
			sc.Annotations = annos("s")
			for i, t := range sc.Types {
				t.Annotations = annos(fmt.Sprint(i))
				for _, f := range t.Fields {
					f.Annotations = annos("f")
				}
				for _, e := range t.Elements {
					e.Annotations = map[string]string{"x_b": "r", "x_a": "c", "x_c": ""}
				}
				for _, v := range t.Variants {
					v.Annotations = annos("v")
				}
			}
			for _, h := range sc.Http {
				h.Annotations = annos("h")
				for _, p := range h.Inputs {
					p.Annotations = annos("p")
				}
				if h.Expected != nil {
					h.Expected.Annotations = annos("x")
				}
			}
		}
		if steps[k].name == "graphql" {
			withoutMaps(sc)
		}
		if _, err := sadl.NewModel(cloneSchema(sc)); err != nil {
			return nil
		}
		return orderCase(&subject{Schema: schemaJSON(sc)}, k, c.Thorough())
	}
	hs := []mc.Harness{{Name: "variety", Split: true, Gen: variety}, {Name: "export", Quick: 1, Deep: 2, Gen: exports}, {Name: "import-graphql", Quick: 1, Deep: 3, Gen: gql}, {Name: "format", Quick: 9, Deep: 9, Gen: format}}
	hs = append(append(hs, docSubjects(3)...), docSubjects(2)...)
	mc.Register(&mc.Prop{ID: "C23", Harnesses: hs,
		Assumptions: []string{"maps of up to eight entries: the runtime iterates them from one of eight offsets, all of which are tried; for larger maps one run of the unmodified order in another process is compared", "the Date of an HTTP trace and the wording of errors are left out"},
		Bounds:      "every exporter and importer; rich models within 1 (quick) or 2 (thorough) deviations, every variation of a rich model with many annotations (and with few), all documents of the import checks' grammar, also with several success answers, media types, headers and extension fields; eight iteration offsets each, and one run in a new process (of the variations in the thorough tier)",
	})

	// C24: sequences
	hist := func(c *mc.C) mc.Case {
		n := 2
		if c.Thorough() {
			n = 3
		}
		// the first model may deviate, the second is a fixed, different one
		sa := richModel(c, plainTypes)
		if sa == nil {
			return nil
		}
		var subs []*subject
		sb := &sadl.Schema{Name: "second", Version: "2", Types: []*sadl.TypeDef{td("Rec", structTS(fld("other", false, tsOf("Timestamp")), fld("name", true, tsOf("Decimal")))), td("Col", enumTS("RED", "PINK")), td("Solo", structTS(fld("aa", true, tsOf("Int64"))))},
			Http:     []*sadl.HttpDef{{Name: "getIt", Method: "GET", Path: "/recs", Expected: &sadl.HttpExpectedSpec{Status: 201, Outputs: []*sadl.HttpParamSpec{{StructFieldDef: *fld("body", true, tsOf("Rec"))}}}}},
			Examples: []*sadl.ExampleDef{{Target: "Solo", Example: map[string]interface{}{"aa": num("4")}}, {Target: "GetItRequest", Name: "only", Example: map[string]interface{}{}}}}
		for _, s := range []*sadl.Schema{sa, sb} {
			subs = append(subs, &subject{Schema: schemaJSON(s), Docs: histDocs(s)})
		}
		subs = append(subs, bareSubject())
		type act struct{ sub, step int }
		var seq []act
		for i := 0; i < n; i++ {
			k := c.Choose(len(subs) * len(steps))
			a := act{k % len(subs), k / len(subs)}
			if !subs[a.sub].has(a.step) {
				return nil
			}
			seq = append(seq, a)
		}
		return func(r *mc.R) {
			r.Input(func() string {
				var l []string
				for _, a := range seq {
					l = append(l, fmt.Sprintf("%s on model %d", steps[a.step].name, a.sub))
				}
				return strings.Join(l, ", then ") + "; models: " + subs[0].Schema + " and " + subs[1].Schema
			})
			dir := filepath.Join(r.Scratch, "step")
			ms := []*sadl.Model{subs[0].model(), subs[1].model(), subs[2].model()}
			var before []string
			for _, m := range ms {
				before = append(before, modelState(m))
			}
			for i, a := range seq {
				o := subs[a.sub].perform(a.step, ms[a.sub], dir)
				if w := subs[a.sub].freshOutput(a.step); o != w {
					r.Fail("output:"+steps[a.step].name, "step %d (%s) gives another output than alone: %s", i, steps[a.step].name, diffText(w, o))
				}
				for k, m := range ms {
					if s := modelState(m); s != before[k] {
						r.Fail("model:"+steps[a.step].name, "step %d (%s) changes model %d: %s", i, steps[a.step].name, k, diffText(before[k], s))
						before[k] = s
					}
				}
				r.Outcome("%s", o)
			}
		}
	}
	mc.Register(&mc.Prop{ID: "C24", Harnesses: []mc.Harness{{Name: "sequences", Quick: 0, Deep: 1, Gen: hist}, {Name: "models", Quick: 1, Deep: 1, Gen: histRepeat}, {Name: "variety", Split: true, Gen: histVaried}, histImports(3), histImports(2)},
		Assumptions: []string{"one process and one goroutine; the output of a step alone is taken from a new process; the Date of an HTTP trace and the wording of errors are left out"},
		Bounds:      "every sequence of 2 (quick) or 3 (thorough) steps over seven exporter configurations and three importers on three models and their documents, one of them bare; for every model within one deviation, every exporter twice in a row; for every variation of a rich model, every exporter on it, on a bare model and on it again (thorough: any other exporter in between); for every document of the import checks' variety, its import, the import of a bare document, and its import again",
	})
}

// bareSubject: a model and documents with nothing in them that need not be.
func bareSubject() *subject {
	return &subject{Schema: schemaJSON(&sadl.Schema{Name: "bare"}), Docs: map[string]string{
		"import-openapi": `{"openapi":"3.0.0","info":{"title":"Bare","version":"1"},"paths":{}}`,
		"import-swagger": `{"swagger":"2.0","info":{"title":"Bare","version":"1"},"paths":{}}`,
		"import-graphql": "type Only { a: Int }\n"}}
}

// small: a model and documents that use a little of everything, leaving most attributes out.
func smallSubject() *subject {
	s := &sadl.Schema{Name: "small", Types: []*sadl.TypeDef{td("Rec", structTS(fld("a", false, tsOf("String")))), td("Err", structTS(fld("message", false, tsOf("String"))))},
		Http: []*sadl.HttpDef{{Name: "getRec", Method: "GET", Path: "/recs", Expected: &sadl.HttpExpectedSpec{Status: 200, Outputs: []*sadl.HttpParamSpec{{StructFieldDef: *fld("body", true, tsOf("Rec"))}}}, Exceptions: []*sadl.HttpExceptionSpec{{Type: "Err", Status: 400}}}}}
	return &subject{Schema: schemaJSON(s), Docs: map[string]string{
		"import-openapi": `{"openapi":"3.0.0","info":{"title":"Small","version":"1"},"paths":{"/recs":{"get":{"operationId":"getRec","responses":{"200":{"description":"ok","content":{"application/json":{"schema":{"$ref":"#/components/schemas/Rec"}}}}}}}},"components":{"schemas":{"Rec":{"type":"object","properties":{"a":{"type":"string"}}}}}}`,
		"import-swagger": `{"swagger":"2.0","info":{"title":"Small","version":"1"},"paths":{"/recs":{"get":{"operationId":"getRec","responses":{"200":{"description":"ok","schema":{"$ref":"#/definitions/Rec"}}}}}},"definitions":{"Rec":{"type":"object","properties":{"a":{"type":"string"}}}}}`,
		"import-graphql": "type Rec { a: Int }\nenum Col { A }\n"}}
}

// around: step k on s, then step j on the bare and the small subject, then step k on s again; nothing may show of what went before.
func around(r *mc.R, s *subject, k, j int) {
	dir := filepath.Join(r.Scratch, "step")
	var m *sadl.Model
	before := ""
	state := func() string {
		if m == nil {
			return ""
		}
		return modelState(m)
	}
	if s.Schema != "" {
		m = s.model()
		before = modelState(m)
	}
	a := s.perform(k, m, dir)
	if t := state(); t != before {
		r.Fail("model:"+steps[k].name, "%s changes the model: %s", steps[k].name, diffText(before, t))
		return
	}
	for _, o := range []*subject{bareSubject(), smallSubject()} {
		if got, want := o.perform(j, o.model(), dir), o.freshOutput(j); got != want {
			r.Fail("output:"+steps[j].name, "%s after %s gives another output than alone: %s", steps[j].name, steps[k].name, diffText(want, got))
			return
		}
	}
	if t := state(); t != before {
		r.Fail("model:"+steps[j].name, "%s changes a model it was not given: %s", steps[j].name, diffText(before, t))
	} else if b := s.perform(k, m, dir); b != a {
		r.Fail("output:"+steps[k].name, "%s gives another output the second time: %s", steps[k].name, diffText(a, b))
	}
	r.Outcome("%s", a)
}

func withoutMaps(sc *sadl.Schema) {
	keep := sc.Types[:0]
	for _, t := range sc.Types {
		if t.Type != "Map" && t.Type != "Union" {
			keep = append(keep, t)
		}
	}
	sc.Types = keep
}

func histVaried(c *mc.C) mc.Case {
	sc, what := varied(c, allCats+" pdefault", false)
	if sc == nil {
		return nil
	}
	k := c.Choose(7)
	j := k
	if c.Thorough() {
		j = c.Choose(len(steps))
	}
	if steps[k].name == "graphql" {
		withoutMaps(sc)
	}
	if _, err := sadl.NewModel(cloneSchema(sc)); err != nil {
		return nil
	}
	s := &subject{Schema: schemaJSON(sc)}
	return func(r *mc.R) {
		r.Input(func() string { return steps[k].name + ", " + steps[j].name + " on others, again; " + what + " " + s.Schema })
		around(r, s, k, j)
	}
}

func histImports(v int) mc.Harness {
	name := map[int]string{2: "import-swagger", 3: "import-openapi"}[v]
	var out mc.Harness
	for _, h := range docHarnesses(v) {
		if h.Name == "variety" {
			out = h
		}
	}
	gen := out.Gen
	out.Name = name
	out.Gen = func(c *mc.C) mc.Case {
		j := stepNo(name)
		if c.Thorough() {
			j = c.Choose(len(steps))
		}
		docSink = func(v int, how string, d *adoc) mc.Case {
			if how == "yaml" {
				return nil
			}
			text, _ := json.Marshal(d.render(v))
			s := &subject{Docs: map[string]string{name: string(text)}}
			return func(r *mc.R) {
				r.Input(func() string { return name + ", " + steps[j].name + " on others, again; " + string(text) })
				around(r, s, stepNo(name), j)
			}
		}
		defer func() { docSink = nil }()
		return gen(c)
	}
	return out
}

// histRepeat: one exporter twice on one model, for every model within a deviation.
func histRepeat(c *mc.C) mc.Case {
	k := c.Choose(7)
	sc := richModel(c, append(append([]sadl.TypeSpec{}, plainTypes...), defMenu(nil)...))
	if sc == nil {
		return nil
	}
	if steps[k].name == "graphql" {
		gqlSupported(sc)
	}
	s := &subject{Schema: schemaJSON(sc)}
	return func(r *mc.R) {
		r.Input(func() string { return steps[k].name + " twice on " + s.Schema })
		dir := filepath.Join(r.Scratch, "step")
		m := s.model()
		before := modelState(m)
		a := s.perform(k, m, dir)
		if t := modelState(m); t != before {
			r.Fail("model:"+steps[k].name, "%s changes the model: %s", steps[k].name, diffText(before, t))
		}
		if b := s.perform(k, m, dir); b != a {
			r.Fail("output:"+steps[k].name, "%s gives another output the second time: %s", steps[k].name, diffText(a, b))
		}
		r.Outcome("%s", a)
	}
}

func modelState(m *sadl.Model) string {
	b, err := json.Marshal(&m.Schema)
	if err != nil {
		panic("mc: " + err.Error())
	}
	s := string(b)
	for _, t := range m.Types {
		if m.FindType(t.Name) != t {
			s += " lookup of " + t.Name
		}
	}
	return s
}

// histDocs: a document for every importer, describing the same types.
func histDocs(s *sadl.Schema) map[string]string {
	d := &adoc{title: cap1(s.Name), types: auxSchemas()}
	if s.Name == "second" {
		d.types = d.types[1:]
		st := as("object", "")
		st.props = append(st.props, aprop{"only", as("string", "date-time")})
		d.types = append([]aprop{{"Rec", st}}, d.types...)
	}
	doc, err := exportOAS(cloneSchema(s))
	if err != nil {
		doc = d.render(3)
	}
	a, _ := json.Marshal(doc)
	b, _ := json.Marshal(d.render(2))
	return map[string]string{"import-openapi": string(a), "import-swagger": string(b),
		"import-graphql": "type Rec { " + s.Name + ": String! other: [Int] }\nenum Col { A B }\nunion U = Rec\n"}
}
