package main

import (
	"embed"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/java"
	"verif/mc"
)

// Running generated Java code: every drawn model is exported under its own package, all of them are compiled by one
// javac run against stand-ins for the libraries they import, and a driver performs the jobs on the classes by
// reflection.

//go:embed javastub
var javaStub embed.FS

type javaJob struct {
	schema *sadl.Schema
	conf   map[string]interface{}
	jobs   []*rtJob
	fix    func(*sadl.Schema)
	note   string
}
type javaPrep struct {
	job   *javaJob
	id    string
	err   string
	panic string
}
type javaResult struct {
	prep    *javaPrep
	compile string
	results []rtResult
}

func javaPrepJob(dir string, i int, j interface{}) interface{} {
	job := j.(*javaJob)
	p := &javaPrep{job: job, id: fmt.Sprintf("p%04d", i)}
	out := filepath.Join(dir, "gen", p.id)
	conf := sadl.NewData()
	conf.Put("package", p.id)
	for k, v := range job.conf {
		conf.Put(k, v)
	}
	sc := cloneSchema(job.schema)
	if job.fix != nil {
		job.fix(sc)
	}
	m, err := sadl.NewModel(sc)
	if err != nil {
		panic("mc: the drawn model is not valid: " + err.Error())
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				p.panic = fmt.Sprintf("%v\n%s", e, debug.Stack())
			}
		}()
		if err := java.Export(m, out, conf); err != nil {
			p.err = err.Error()
		}
	}()
	if p.err != "" || p.panic != "" {
		os.RemoveAll(out)
		return p
	}
	// the example implementation goes to the unnamed package: give each job its own
	src := filepath.Join(out, "src", "main", "java")
	fs, _ := filepath.Glob(filepath.Join(src, "*.java"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		os.WriteFile(filepath.Join(src, p.id, filepath.Base(f)), append([]byte("package "+p.id+";\n"), b...), 0644)
		os.Remove(f)
	}
	return p
}

var javaErrRe = regexp.MustCompile(`^(?:\./)?gen/(p\d{4})/\S+\.java:\d+: error`)

func javaRunBatch(dir string, preps []interface{}) []interface{} {
	var stubs []string
	fs.WalkDir(javaStub, "javastub", func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			b, _ := javaStub.ReadFile(p)
			f := filepath.Join(dir, p)
			os.MkdirAll(filepath.Dir(f), 0755)
			os.WriteFile(f, b, 0644)
			stubs = append(stubs, p)
		}
		return nil
	})
	os.MkdirAll(filepath.Join(dir, "stubs"), 0755)
	os.MkdirAll(filepath.Join(dir, "classes"), 0755)
	os.WriteFile(filepath.Join(dir, "stubs.txt"), []byte(strings.Join(stubs, "\n")), 0644)
	if out, err := mc.Tool(dir, nil, 5*time.Minute, "javac", "-J-Xshare:auto", "-nowarn", "-encoding", "UTF-8", "-d", "stubs", "@stubs.txt"); err != nil {
		panic("mc: javac of the stand-ins failed: " + err.Error() + "\n" + out)
	}
	res := make([]interface{}, len(preps))
	ok := map[string]*javaResult{}
	for i, p := range preps {
		r := &javaResult{prep: p.(*javaPrep)}
		res[i] = r
		if r.prep.err == "" && r.prep.panic == "" {
			ok[r.prep.id] = r
		}
	}
	for round := 0; len(ok) > 0; round++ {
		if round > 8 {
			panic("mc: the generated classes cannot be separated into those that build and those that do not")
		}
		var files []string
		for id := range ok {
			filepath.Walk(filepath.Join(dir, "gen", id), func(p string, fi os.FileInfo, err error) error {
				if err == nil && strings.HasSuffix(p, ".java") {
					rel, _ := filepath.Rel(dir, p)
					files = append(files, rel)
				}
				return nil
			})
		}
		sort.Strings(files)
		if len(files) == 0 {
			break
		}
		os.WriteFile(filepath.Join(dir, "files.txt"), []byte(strings.Join(files, "\n")), 0644)
		out, err := mc.Tool(dir, nil, 10*time.Minute, "javac", "-J-Xmx6g", "-nowarn", "-Xlint:none", "-proc:none", "-Xmaxerrs", "100000", "-XDshould-stop.ifError=FLOW", "-encoding", "UTF-8", "-cp", "stubs", "-d", "classes", "@files.txt")
		if err == nil {
			break
		}
		bad := map[string]bool{}
		cur := ""
		for _, l := range strings.Split(out, "\n") {
			if m := javaErrRe.FindStringSubmatch(l); m != nil {
				cur = m[1]
			}
			if g := ok[cur]; g != nil {
				bad[cur] = true
				if len(g.compile) < 2000 {
					g.compile += l + "\n"
				}
			}
		}
		if len(bad) == 0 {
			panic("mc: javac failed: " + err.Error() + "\n" + clipN(out, 5000))
		}
		for id := range bad {
			os.RemoveAll(filepath.Join(dir, "gen", id))
			delete(ok, id)
		}
	}
	jobs := map[string][]*rtJob{}
	n := 0
	for id, r := range ok {
		if len(r.prep.job.jobs) > 0 {
			jobs[id] = r.prep.job.jobs
			n++
		}
	}
	if n == 0 {
		return res
	}
	jb, err := json.Marshal(jobs)
	if err != nil {
		panic("mc: " + err.Error())
	}
	os.WriteFile(filepath.Join(dir, "jobs.json"), jb, 0644)
	if out, err := mc.Tool(dir, nil, 10*time.Minute, "java", "-Xmx4g", "-cp", "stubs:classes", "-Dfile.encoding=UTF-8", "verif.Driver", "jobs.json", "out.json"); err != nil {
		panic("mc: the driver failed: " + err.Error() + "\n" + clipN(out, 3000))
	}
	ob, err := os.ReadFile(filepath.Join(dir, "out.json"))
	var all map[string][]rtResult
	if err == nil {
		err = json.Unmarshal(ob, &all)
	}
	if err != nil {
		panic("mc: " + err.Error())
	}
	for id, r := range ok {
		r.results = all[id]
		for i := range r.results {
			for k := range r.results[i].Impl { // methods are named after the actions
				for _, h := range r.prep.job.schema.Http {
					if im := &r.results[i].Impl[k]; strings.EqualFold(h.Name[:1], im.Action[:1]) && h.Name[1:] == im.Action[1:] {
						im.Action = h.Name
					}
				}
			}
		}
	}
	return res
}

// javaUsable: common part of the judges; false when there is nothing more to judge.
func javaUsable(r *mc.R, g *javaResult) bool {
	r.Input(func() string {
		b, _ := json.Marshal(g.prep.job.schema)
		return fmt.Sprintf("%s config=%v %s", g.prep.job.note, g.prep.job.conf, b)
	})
	switch {
	case g.prep.panic != "":
		r.Fail("panic", "the generator panics: %s", clipN(g.prep.panic, 1500))
	case g.prep.err != "":
		r.Fail("error", "the generator reports %s", g.prep.err)
	case g.compile != "":
		r.Fail("compile", "the generated code does not compile:\n%s", clipN(g.compile, 1500))
	default:
		return true
	}
	return false
}
