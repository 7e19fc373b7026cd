package main

import (
	"fmt"
	"strings"

	"github.com/boynton/sadl"
	"verif/mc"
)

// C31: generated Java servers (JAX-RS resources) and clients. As for Go, what the client puts on the wire, what the
// implementation receives and what comes back are each judged against the model.

func judgeJavaService(r *mc.R, job, res interface{}) {
	g := res.(*javaResult)
	if !javaUsable(r, g) {
		return
	}
	jobs, results := g.prep.job.jobs, g.results
	if len(jobs) == 0 {
		r.Outcome("compiled")
		return
	}
	if jobs[0].Kind == "main" {
		if o := results[0]; o.Panic != "" || o.Out != "true SvcResources" {
			r.Fail("main", "the example implementation does not start a server with the resources: %s %s", o.Out, o.Panic)
		}
		jobs, results = jobs[1:], results[1:]
	}
	laxTime = true
	defer func() { laxTime = false }()
	judgeCalls(r, envOf(g.prep.job.schema), jobs, results, true)
}

func javaHttp() httpOpts {
	o := goHttp(false)
	keep := func(l []sadl.TypeSpec) (out []sadl.TypeSpec) {
		for _, t := range l {
			if t.Type != "Timestamp" && t.Type != "Bytes" {
				out = append(out, t)
			}
		}
		return
	}
	o.bodyTypes, o.outTypes = keep(o.bodyTypes), keep(o.outTypes)
	return o
}

func javaServiceJobs(s *sadl.Schema, client bool) []*rtJob {
	jaxQueries = true
	defer func() { jaxQueries = false }()
	jobs := serviceJobs(s, client)
	if s.Base != "" {
		for _, j := range jobs {
			if j.Kind == "raw" {
				j.URL = s.Base + j.URL
			}
		}
	}
	return jobs
}

func init() {
	mk := func(name string, quick, deep int, modes int, free string) mc.Harness {
		b := &mc.Batch{Name: name, Quick: quick, Deep: deep, Chunk: 250, Prep: javaPrepJob, Run: javaRunBatch, Judge: judgeJavaService}
		b.Gen = func(c *mc.C) interface{} {
			o := javaHttp()
			if strings.Contains(free, "rich") {
				o.base = richBase
			}
			var h *sadl.HttpDef
			if free == "params" {
				h = goParams(c, o)
			} else {
				h = goAction(c, "getIt", "things", o, free)
			}
			if h == nil {
				return nil
			}
			for _, x := range h.Expected.Outputs {
				if x.Header == "Last-Modified" {
					return nil // dates of HTTP headers are not converted
				}
			}
			s := &sadl.Schema{Name: "svc", Types: goServiceTypes(), Http: []*sadl.HttpDef{h}}
			if c.DevBool() {
				h2 := &sadl.HttpDef{Name: "Second", Method: "DELETE", Path: plainPath(h), Expected: &sadl.HttpExpectedSpec{Status: 204}}
				for _, in := range h.Inputs {
					if in.Path {
						p := *in
						h2.Inputs = append(h2.Inputs, &p)
					}
				}
				if h.Method == "DELETE" {
					h2.Method = "PUT"
				}
				if c.Bool() {
					s.Http = append([]*sadl.HttpDef{h2}, s.Http...)
				} else {
					s.Http = append(s.Http, h2)
				}
			}
			if c.DevBool() && len(h.Exceptions) == 0 && len(h.Expected.Outputs) == 0 {
				h.Expected = nil
			}
			defs := 0
			if free == "params" {
				defs = c.Choose(7)
			} else {
				defs = c.Dev(5)
			}
			if c.DevBool() {
				s.Base = "/base"
			}
			mode := 0
			if modes > 1 && defs < 3 {
				mode = []int{0, 1, 2, 8, 9, 3, 11}[c.Choose(modes)]
			} else {
				mode = []int{0, 1, 2, 8, 9, 3, 11}[c.Dev(7)]
			}
			s = cloneSchema(s)
			job := &javaJob{schema: s, conf: javaConf(mode)}
			if defs > 0 {
				goDefaults(envOf(s), s, defs)
				job.fix = func(m *sadl.Schema) { goDefaults(envOf(m), m, defs) }
			}
			only := c.Dev(4)
			if only != 1 {
				job.conf["client"] = true
			}
			if only != 2 {
				job.conf["server"] = true
				job.jobs = javaServiceJobs(s, only != 1)
			}
			if only == 3 {
				job.conf["example-implementation"] = true
				job.jobs = append([]*rtJob{{Kind: "main"}}, job.jobs...)
			}
			job.note = fmt.Sprintf("defaults=%d", defs)
			return job
		}
		return b.Harness()
	}
	vary := &mc.Batch{Name: "variety", Chunk: 250, Prep: javaPrepJob, Run: javaRunBatch, Judge: judgeJavaService}
	vary.Gen = func(c *mc.C) interface{} {
		s, _ := varied(c, strings.Replace(serviceCats, "pname", "", 1), c.Thorough())
		if s == nil || s.Name != "svc" || s.Base != "" || s.Http[1].Method == "HEAD" || strings.Contains(jsonOf(s.Http), "}.json") || strings.Contains(jsonOf(s.Http), "{id}/?") || strings.Contains(jsonOf(s.Http), "{id}/\"") { // an answer to HEAD has no body; a path variable is a whole segment; paths do not end with a slash
			return nil
		}
		job := &javaJob{schema: s, conf: javaConf([]int{0, 1, 2, 8, 9, 3, 11}[c.Dev(7)]), jobs: javaServiceJobs(s, true)}
		job.conf["client"], job.conf["server"] = true, true
		return job
	}
	mc.Register(&mc.Prop{ID: "C31",
		Harnesses: []mc.Harness{
			vary.Harness(),
			mk("shape", 1, 2, 2, ""),
			mk("rich", 1, 2, 1, "rich"),
			mk("params", 0, 2, 4, "params"),
			mk("headers", 0, 1, 2, "hdrtype"),
			mk("results", 0, 1, 4, "out except"),
		},
		Assumptions: []string{
			"JAX-RS (server and client), Jackson, Bean Validation and dependency injection are replaced by stand-ins with the documented meaning of the annotations and calls that the generated code uses; requests are exchanged in process as method, escaped URL, header fields and body text",
			"path values are non-empty and contain no slash; query values contain no braces (JAX-RS clients take them for templates) and no percent-encoded triples; header values are printable",
			"exceptions are structs with statuses distinct from one another and from the expected status; HEAD actions have no body output; paths do not end with a slash; parameters are not arrays or structs; a Timestamp or Bytes is not itself a body",
		},
		Bounds: "one or two actions per service; every method, path shape, parameter type and location, body and output type, exception set, with and without builders, instants, service exceptions, a base path and the example implementation; every value of a boundary menu per input and output; deviations 1 (quick), 2 (thorough); every variation (pair) of a rich service of three actions",
	})
}
