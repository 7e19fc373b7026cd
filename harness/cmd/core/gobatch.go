package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"verif/mc"
)

// Running generated Go code: every drawn model becomes one package of a scratch module, together with a small driver
// file; the packages are compiled with the installed toolchain and linked into one program that performs the jobs.

//go:embed gostub/mux.go.txt
var muxSrc string

//go:embed gostub/handlers.go.txt
var handlersSrc string

//go:embed gostub/rt.go.txt
var rtSrc string

type goJob struct {
	schema  *sadl.Schema
	runtime bool
	server  bool
	client  bool
	jobs    []*rtJob
	fix     func(*sadl.Schema) // applied to the copy given to the generator
	note    string
}

type rtJob struct {
	Kind   string
	Type   string
	Value  json.RawMessage
	Action string
	Answer string
	Result json.RawMessage
	Method string
	URL    string
	Body   string
	Header map[string]string
	want   interface{} // for the judge
}
type rtField struct{ Name, Tag, Type string }
type rtSeen struct {
	Method, Path, Query, Body string
	Header                    map[string][]string
}
type rtImpl struct{ Action, Req string }
type rtResult struct {
	Out, Err, Body, ErrType, Panic string
	Fields                         []rtField
	Seen                           []rtSeen
	Impl                           []rtImpl
	Status                         int
	Header                         map[string][]string
}

type goPrep struct {
	job   *goJob
	id    string
	err   string // of the generator
	panic string
	files []string
}
type goResult struct {
	prep    *goPrep
	compile string
	died    string
	results []rtResult
}

func cap1(s string) string {
	if s == "" {
		return s
	}
	return strings.ToUpper(s[:1]) + s[1:]
}

// goExport runs the generator for one job in dir/gen/<id>.
func goPrepJob(dir string, i int, j interface{}) interface{} {
	job := j.(*goJob)
	p := &goPrep{job: job, id: fmt.Sprintf("p%04d", i)}
	gen := filepath.Join(dir, "gen")
	os.MkdirAll(gen, 0755)
	conf := sadl.NewData()
	conf.Put("package", p.id)
	conf.Put("name", "svc")
	if job.runtime {
		conf.Put("runtime", true)
	}
	if job.server {
		conf.Put("server", true)
	}
	if job.client {
		conf.Put("client", true)
	}
	sc := cloneSchema(job.schema)
	if job.fix != nil {
		job.fix(sc)
	}
	m, err := sadl.NewModel(sc)
	if err != nil {
		panic("mc: the drawn model is not valid: " + err.Error())
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				p.panic = fmt.Sprintf("%v\n%s", e, debug.Stack())
			}
		}()
		if err := golang.Export(m, gen, conf); err != nil {
			p.err = err.Error()
		}
	}()
	pkgdir := filepath.Join(gen, p.id)
	if p.err != "" || p.panic != "" {
		os.RemoveAll(pkgdir)
		return p
	}
	fs, _ := filepath.Glob(filepath.Join(pkgdir, "*.go"))
	for _, f := range fs {
		p.files = append(p.files, filepath.Base(f))
	}
	os.WriteFile(filepath.Join(pkgdir, "zz_driver.go"), []byte(goDriver(p)), 0644)
	return p
}

func goDriver(p *goPrep) string {
	var b strings.Builder
	job := p.job
	serve := job.server
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"verifgen/rt\"\n", p.id)
	if serve {
		b.WriteString("\t\"net/http\"\n")
	}
	b.WriteString(")\n\n")
	b.WriteString("func VerifPkg() *rt.Pkg {\n\tp := &rt.Pkg{Types: map[string]func() interface{}{\n")
	for _, t := range job.schema.Types {
		fmt.Fprintf(&b, "\t\t%q: func() interface{} { return new(%s) },\n", t.Name, t.Name)
	}
	for _, h := range job.schema.Http {
		fmt.Fprintf(&b, "\t\t%q: func() interface{} { return new(%s) },\n", cap1(h.Name)+"Request", cap1(h.Name)+"Request")
		fmt.Fprintf(&b, "\t\t%q: func() interface{} { return new(%s) },\n", cap1(h.Name)+"Response", cap1(h.Name)+"Response")
	}
	b.WriteString("\t}}\n")
	if serve {
		b.WriteString("\tp.Serve = func(h rt.Hook, base string) http.Handler { return InitServer(&verifImpl{h}, base) }\n")
		b.WriteString("\tp.NewRes = map[string]func() interface{}{}\n\tp.NewReq = map[string]func() interface{}{}\n\tp.Call = map[string]func(string, interface{}) (interface{}, error){}\n")
		for _, h := range job.schema.Http {
			n := cap1(h.Name)
			fmt.Fprintf(&b, "\tp.NewRes[%q] = func() interface{} { return new(%sResponse) }\n\tp.NewReq[%q] = func() interface{} { return new(%sRequest) }\n", h.Name, n, h.Name, n)
			if job.client {
				fmt.Fprintf(&b, "\tp.Call[%q] = func(t string, r interface{}) (interface{}, error) {\n\t\tc, err := NewClient(t)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tout, err := c.%s(r.(*%sRequest))\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn out, nil\n\t}\n", h.Name, n, n)
			}
		}
	}
	b.WriteString("\treturn p\n}\n")
	if job.client {
		b.WriteString("\nvar _ Svc = (*SvcClient)(nil)\n")
	}
	if serve {
		b.WriteString("\ntype verifImpl struct{ h rt.Hook }\n\n")
		for _, h := range job.schema.Http {
			n := cap1(h.Name)
			fmt.Fprintf(&b, "func (v *verifImpl) %s(req *%sRequest) (*%sResponse, error) {\n\tr, err := v.h(%q, req)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn r.(*%sResponse), nil\n}\n", n, n, n, h.Name, n)
		}
	} else {
		b.WriteString("\ntype verifImpl struct{}\n\nvar _ Svc = (*verifImpl)(nil)\n\n")
		for _, h := range job.schema.Http {
			n := cap1(h.Name)
			fmt.Fprintf(&b, "func (v *verifImpl) %s(req *%sRequest) (*%sResponse, error) {\n\treturn nil, nil\n}\n", n, n, n)
		}
	}
	return b.String()
}

var pkgRe = regexp.MustCompile(`\bgen/(p\d{4})\b`)

func goRunBatch(dir string, preps []interface{}) []interface{} {
	w := func(name, text string) {
		f := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(f), 0755)
		os.WriteFile(f, []byte(text), 0644)
	}
	w("rt/rt.go", rtSrc)
	w("mux/mux.go", muxSrc)
	w("mux/go.mod", "module github.com/gorilla/mux\ngo 1.18\n")
	w("handlers/handlers.go", handlersSrc)
	w("handlers/go.mod", "module github.com/gorilla/handlers\ngo 1.18\n")
	// the runtime option refers to the sadl package of /repo
	w("scanner/go.mod", "module github.com/boynton/scanner\ngo 1.18\n")
	w("smithy/go.mod", "module github.com/boynton/smithy\ngo 1.18\n")
	sum, _ := os.ReadFile("/repo/go.sum")
	w("go.sum", string(sum))
	w("overlay.json", `{"Replace": {"/repo/parser.go": "", "/repo/unparser.go": ""}}`)
	w("go.mod", "module verifgen\n\ngo 1.18\n\nrequire (\n\tgithub.com/gorilla/mux v0.0.0\n\tgithub.com/gorilla/handlers v0.0.0\n\tgithub.com/boynton/sadl v0.0.0\n)\n\nreplace github.com/gorilla/mux => ./mux\n\nreplace github.com/gorilla/handlers => ./handlers\n\nreplace github.com/boynton/sadl => /repo\n\nreplace github.com/boynton/scanner => ./scanner\n\nreplace github.com/boynton/smithy => ./smithy\n")
	env := []string{"GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0"}
	res := make([]interface{}, len(preps))
	ok := map[string]*goResult{}
	for i, p := range preps {
		r := &goResult{prep: p.(*goPrep)}
		res[i] = r
		if r.prep.err == "" && r.prep.panic == "" {
			ok[r.prep.id] = r
		}
	}
	for round := 0; len(ok) > 0; round++ {
		if round > 30 {
			panic("mc: the generated packages cannot be separated into those that build and those that do not")
		}
		out, err := mc.Tool(dir, env, 10*time.Minute, "go", "build", "-overlay", "overlay.json", "-gcflags=-e", "./gen/...")
		if err == nil {
			break
		}
		bad := map[string]bool{}
		cur := ""
		for _, l := range strings.Split(out, "\n") {
			if m := pkgRe.FindStringSubmatch(l); m != nil {
				cur = m[1]
			} else if strings.TrimSpace(l) == "" {
				continue
			}
			if g := ok[cur]; g != nil {
				bad[cur] = true
				if len(g.compile) < 3000 {
					g.compile += l + "\n"
				}
			}
		}
		if len(bad) == 0 {
			panic("mc: go build failed: " + err.Error() + "\n" + out)
		}
		for id := range bad {
			os.RemoveAll(filepath.Join(dir, "gen", id))
			delete(ok, id)
		}
	}
	if len(ok) == 0 {
		return res
	}
	var ids []string
	for id := range ok {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"verifgen/rt\"\n")
	for _, id := range ids {
		fmt.Fprintf(&b, "\t%q\n", "verifgen/gen/"+id)
	}
	b.WriteString(")\n\nfunc main() {\n\trt.Main(map[string]*rt.Pkg{\n")
	for _, id := range ids {
		fmt.Fprintf(&b, "\t\t%q: %s.VerifPkg(),\n", id, id)
	}
	b.WriteString("\t})\n}\n")
	w("main.go", b.String())
	if out, err := mc.Tool(dir, env, 10*time.Minute, "go", "build", "-overlay", "overlay.json", "-ldflags=-s -w", "-o", "driver", "."); err != nil {
		panic("mc: linking the driver failed: " + err.Error() + "\n" + out)
	}
	run := func(sel []string) (map[string][]rtResult, string) {
		jobs := map[string][]*rtJob{}
		for _, id := range sel {
			jobs[id] = ok[id].prep.job.jobs
		}
		jb, err := json.Marshal(jobs)
		if err != nil {
			panic("mc: " + err.Error())
		}
		w("jobs.json", string(jb))
		os.Remove(filepath.Join(dir, "out.json"))
		out, err := mc.Tool(dir, append(env, "GOMAXPROCS=2", "GOTRACEBACK=single"), 5*time.Minute, "./driver", "jobs.json", "out.json")
		if err != nil {
			return nil, err.Error() + "\n" + clipN(out, 1500)
		}
		ob, err := os.ReadFile(filepath.Join(dir, "out.json"))
		var all map[string][]rtResult
		if err == nil {
			err = json.Unmarshal(ob, &all)
		}
		if err != nil {
			panic("mc: " + err.Error())
		}
		return all, ""
	}
	all, died := run(ids)
	for _, id := range ids {
		if died != "" {
			one, d := run([]string{id})
			ok[id].died = d
			all = one
		}
		ok[id].results = all[id]
	}
	return res
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
