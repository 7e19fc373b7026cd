package main

import (
	"fmt"
	"math"
	"math/big"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/boynton/sadl"
	"verif/mc"
)

// C20: generated Go servers and clients. Three views of every call are judged against the model: what the client puts
// on the wire, what the server hands to the implementation (for requests of the client and for requests written by the
// harness), and what comes back.

type callWant struct {
	h      *sadl.HttpDef
	req    map[string]interface{} // inputs by name
	answer string                 // ok, exception type, ""
	result interface{}
	status []int32 // acceptable statuses
	none   bool    // the implementation must not be reached
}

// jaxQueries: query values contain no braces, which JAX-RS clients take for templates.
var jaxQueries bool

// paramValues: values for a path, query or header input.
func (e typeEnv) paramValues(in *sadl.HttpParamSpec) []interface{} {
	ts := e.spec(&in.TypeSpec)
	if ts.Type == "String" && len(ts.Values) == 0 && ts.Pattern == "" {
		switch {
		case in.Path:
			return []interface{}{"p1", "a b", "q\"<&>é?#%+=;:@$,!'()*~[]{}|^`\\"}
		case in.Query != "" && jaxQueries:
			return []interface{}{"q1", "a b", "q\"<&>é?#%+=;:@$,!'()*~[]|^`\\/\n", ""}
		case in.Query != "":
			return []interface{}{"q1", "a b", "q\"<&>é?#%+=;:@$,!'()*~[]{}|^`\\/\n", ""}
		default:
			return []interface{}{"h1", "a b;c=\"d\", e/f?%+~"}
		}
	}
	if ts.Type == "Timestamp" {
		return []interface{}{"2019-02-03T04:05:06.789Z", "2021-12-31T23:59:59.000Z"}
	}
	return e.values(&in.TypeSpec, 2)
}

func outputValues(e typeEnv, o *sadl.HttpParamSpec) []interface{} {
	if o.Header == "" {
		return e.values(&o.TypeSpec, 3)
	}
	if o.Header == "Last-Modified" {
		return []interface{}{"2019-02-03T04:05:06.000Z", "1999-12-31T23:59:59.000Z"}
	}
	return e.paramValues(o)
}

func textOf(v interface{}) string { return fmt.Sprint(v) }

// valueOf: the JSON value a parameter's text stands for.
func (e typeEnv) valueOf(ts *sadl.TypeSpec, text string) interface{} {
	switch e.spec(ts).Type {
	case "Bool":
		return text == "true"
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		return num(text)
	}
	return text
}

func isBodyIn(in *sadl.HttpParamSpec) bool { return !in.Path && in.Query == "" && in.Header == "" }

func plainPath(h *sadl.HttpDef) string { return strings.SplitN(h.Path, "?", 2)[0] }

func rawCall(h *sadl.HttpDef, req map[string]interface{}) *rtJob {
	j := &rtJob{Kind: "raw", Action: h.Name, Method: h.Method, Header: map[string]string{}}
	path := plainPath(h)
	q := url.Values{}
	for _, in := range h.Inputs {
		v, ok := req[in.Name]
		if !ok {
			continue
		}
		switch {
		case in.Path:
			path = strings.Replace(path, "{"+in.Name+"}", url.PathEscape(textOf(v)), 1)
		case in.Query != "":
			q.Set(in.Query, textOf(v))
		case in.Header != "":
			j.Header[in.Header] = textOf(v)
		default:
			j.Body = string(rawJSON(v))
		}
	}
	j.URL = path
	if len(q) > 0 {
		j.URL += "?" + q.Encode()
	}
	return j
}

func serviceJobs(s *sadl.Schema, client bool) []*rtJob {
	e := envOf(s)
	var out []*rtJob
	add := func(w *callWant) {
		raw := rawCall(w.h, w.req)
		raw.Answer, raw.Result, raw.want = w.answer, rawJSON(w.result), w
		out = append(out, raw)
		if client {
			out = append(out, &rtJob{Kind: "call", Action: w.h.Name, Value: rawJSON(w.req), Answer: w.answer, Result: rawJSON(w.result), want: w})
		}
	}
	for _, h := range s.Http {
		full, min := map[string]interface{}{}, map[string]interface{}{}
		vals := map[string][]interface{}{}
		for _, in := range h.Inputs {
			if isBodyIn(in) {
				vals[in.Name] = e.values(&in.TypeSpec, 3)
			} else {
				vals[in.Name] = e.paramValues(in)
			}
			full[in.Name] = vals[in.Name][0]
			if in.Required {
				min[in.Name] = vals[in.Name][0]
			}
		}
		status := int32(200)
		var outs []*sadl.HttpParamSpec
		if h.Expected != nil {
			status = h.Expected.Status
			outs = h.Expected.Outputs
		}
		res := map[string]interface{}{}
		for _, o := range outs {
			res[o.Name] = outputValues(e, o)[0]
		}
		ok := func(req, res map[string]interface{}) {
			add(&callWant{h: h, req: req, answer: "ok", result: res, status: []int32{status}})
		}
		ok(full, res)
		ok(min, res)
		with := func(m map[string]interface{}, k string, v interface{}) map[string]interface{} {
			c := map[string]interface{}{}
			for a, b := range m {
				c[a] = b
			}
			if v == nil {
				delete(c, k)
			} else {
				c[k] = v
			}
			return c
		}
		for _, in := range h.Inputs {
			for _, v := range vals[in.Name][1:] {
				ok(with(full, in.Name, v), res)
			}
			if !in.Required {
				ok(with(full, in.Name, nil), res)
			}
		}
		for _, o := range outs {
			for _, v := range outputValues(e, o)[1:] {
				ok(full, with(res, o.Name, v))
			}
			if !o.Required {
				ok(full, with(res, o.Name, nil))
			}
		}
		for _, x := range h.Exceptions {
			st := []int32{x.Status}
			if x.Status == 0 {
				st = []int32{500, 400, 501, 502, 503}
			}
			for _, v := range e.values(&sadl.TypeSpec{Type: x.Type}, 2) {
				add(&callWant{h: h, req: full, answer: x.Type, result: v, status: st})
			}
		}
		add(&callWant{h: h, req: full, answer: "", status: []int32{500}})
		// requests that match no action
		other := *h
		other.Method = "TRACE"
		o := rawCall(&other, full)
		o.want = &callWant{h: h, none: true, status: []int32{404, 405}}
		out = append(out, o)
		o2 := rawCall(h, full)
		o2.URL = "/nowhere" + o2.URL
		o2.want = &callWant{h: h, none: true, status: []int32{404}}
		out = append(out, o2)
	}
	return out
}

func reqType(h *sadl.HttpDef) *sadl.TypeSpec {
	t := structTS()
	for _, in := range h.Inputs {
		f := in.StructFieldDef
		f.Required = false // zero and absent are the same thing to a Go request
		t.Fields = append(t.Fields, &f)
	}
	return &t
}
func resType(h *sadl.HttpDef) *sadl.TypeSpec {
	t := structTS()
	if h.Expected != nil {
		for _, o := range h.Expected.Outputs {
			f := o.StructFieldDef
			f.Required = false
			t.Fields = append(t.Fields, &f)
		}
	}
	return &t
}

// toJSON normalizes drawn values (json.Number and such stay as they are).
func (e typeEnv) same(ts *sadl.TypeSpec, want interface{}, got string) bool {
	g, err := parseJSON(got)
	if err != nil {
		return false
	}
	w, _ := parseJSON(string(rawJSON(want)))
	return e.canon(ts, w, 0) == e.canon(ts, g, 0)
}

func judgeService(r *mc.R, job, res interface{}) {
	g := res.(*goResult)
	if !goUsable(r, g) {
		return
	}
	judgeCalls(r, envOf(g.prep.job.schema), g.prep.job.jobs, g.results, false)
}

// judgeCalls judges every call; nullable says that the language tells the zero value from the absent one.
func judgeCalls(r *mc.R, e typeEnv, jobs []*rtJob, results []rtResult, nullable bool) {
	var digest []string
	for i, j := range jobs {
		o := results[i]
		w := j.want.(*callWant)
		where := fmt.Sprintf("%s %s %s req=%s %s%s header=%v body=%s answer=%q %s", j.Kind, w.h.Name, w.h.Method, j.Value, j.Method, j.URL, j.Header, j.Body, j.Answer, j.Result)
		if strings.HasPrefix(o.Panic, "driver: ") {
			panic("mc: " + where + ": " + o.Panic)
		}
		if o.Panic != "" {
			r.Fail("panic-generated", "%s: the generated code panics: %s", where, o.Panic)
			continue
		}
		if strings.HasPrefix(o.Err, "rt: ") {
			panic("mc: " + where + ": " + o.Err)
		}
		statusOK := false
		for _, s := range w.status {
			statusOK = statusOK || int(s) == o.Status
		}
		if w.none {
			if len(o.Impl) != 0 || !statusOK {
				r.Fail("not-routed", "%s: no action matches, but the answer is %d and the implementation saw %v", where, o.Status, o.Impl)
			}
			continue
		}
		if j.Kind == "call" {
			judgeWire(r, e, w, where, o)
		}
		// what the implementation received
		if len(o.Impl) != 1 || o.Impl[0].Action != w.h.Name {
			r.Fail("invocation", "%s: the implementation saw %v (answer %d %s, error %s)", where, o.Impl, o.Status, clipN(o.Body, 300), o.Err)
			continue
		}
		want := map[string]interface{}{}
		for k, v := range w.req {
			want[k] = v
		}
		for _, in := range w.h.Inputs {
			if in.Default == nil {
				continue
			}
			v, has := want[in.Name]
			if !has || !nullable && (j.Kind == "call" && e.isZero(&in.TypeSpec, v) || textOf(v) == "") {
				want[in.Name] = defaultValue(in.Default)
			}
		}
		if !e.same(reqType(w.h), want, o.Impl[0].Req) {
			r.Fail("input", "%s: the implementation received %s, want %s", where, o.Impl[0].Req, rawJSON(want))
		}
		if j.Kind == "raw" {
			if !statusOK {
				r.Fail("status", "%s: answered with %d, want %v", where, o.Status, w.status)
				continue
			}
			if w.answer == "" {
				continue
			}
			if w.answer != "ok" {
				if w.h.Method != "HEAD" && o.Status != 304 && !e.same(&sadl.TypeSpec{Type: w.answer}, w.result, o.Body) {
					r.Fail("exception-body", "%s: answered with %s", where, o.Body)
				}
				continue
			}
			rm := w.result.(map[string]interface{})
			if w.h.Expected != nil {
				for _, out := range w.h.Expected.Outputs {
					v, has := rm[out.Name]
					if out.Header != "" {
						hv := o.Header[http.CanonicalHeaderKey(out.Header)]
						if !has || e.isZero(&out.TypeSpec, v) {
							if len(hv) > 1 || len(hv) == 1 && !has && !zeroText(hv[0]) {
								r.Fail("output-header", "%s: header %s is %q, but the output is not set", where, out.Header, hv)
							}
							continue
						}
						if len(hv) != 1 || !e.sameText(out, v, hv[0]) {
							r.Fail("output-header", "%s: header %s is %q, want %v", where, out.Header, hv, v)
						}
					} else if has && o.Status != 204 && w.h.Method != "HEAD" && !e.same(&out.TypeSpec, v, o.Body) {
						r.Fail("output-body", "%s: body is %s, want %s", where, o.Body, rawJSON(v))
					}
				}
			}
			digest = append(digest, o.Body)
			continue
		}
		// what the client returns
		switch w.answer {
		case "ok":
			if o.Err != "" {
				r.Fail("client-error", "%s: the client reports %s", where, o.Err)
				continue
			}
			rm := w.result.(map[string]interface{})
			if !e.same(resType(w.h), rm, o.Out) {
				r.Fail("client-result", "%s: the client returns %s, want %s", where, o.Out, rawJSON(rm))
			}
		case "":
			if o.Err == "" {
				r.Fail("client-no-error", "%s: the client returns %s although the server failed", where, o.Out)
			}
		default:
			if w.h.Method == "HEAD" || w.status[0] == 304 { // no body to tell the details
				if o.Err == "" {
					r.Fail("client-no-error", "%s: the client returns %s although the server failed", where, o.Out)
				}
			} else if o.ErrType != w.answer || !e.same(&sadl.TypeSpec{Type: w.answer}, w.result, o.Body) {
				r.Fail("client-exception", "%s: the client reports %s (%s) %s", where, o.ErrType, o.Err, o.Body)
			}
		}
		digest = append(digest, o.Out+o.Err)
	}
	r.Outcome("%s", strings.Join(digest, "|"))
}

func zeroText(s string) bool { return s == "" || s == "0" || s == "false" }

func (e typeEnv) sameText(p *sadl.HttpParamSpec, v interface{}, text string) bool {
	if p.Header == "Last-Modified" && e.spec(&p.TypeSpec).Type == "Timestamp" {
		t, err := http.ParseTime(text)
		return err == nil && t.UTC().Format("2006-01-02T15:04:05.000Z") == v
	}
	w, _ := parseJSON(string(rawJSON(v)))
	return e.canon(&p.TypeSpec, e.valueOf(&p.TypeSpec, text), 0) == e.canon(&p.TypeSpec, w, 0)
}

// judgeWire: the request the client sent.
func judgeWire(r *mc.R, e typeEnv, w *callWant, where string, o rtResult) {
	if len(o.Seen) != 1 {
		r.Fail("wire-count", "%s: the client sent %d requests (error %s)", where, len(o.Seen), o.Err)
		return
	}
	s := o.Seen[0]
	if s.Method != w.h.Method {
		r.Fail("wire-method", "%s: sent with method %s", where, s.Method)
	}
	tmpl := strings.Split("/base"+plainPath(w.h), "/")
	got := strings.Split(s.Path, "/")
	okPath := len(tmpl) == len(got)
	byName := map[string]*sadl.HttpParamSpec{}
	for _, in := range w.h.Inputs {
		byName[in.Name] = in
	}
	for i := 0; okPath && i < len(tmpl); i++ {
		if strings.HasPrefix(tmpl[i], "{") {
			n := strings.Trim(tmpl[i], "{}")
			okPath = e.sameText(byName[n], w.req[n], got[i])
		} else {
			okPath = tmpl[i] == got[i]
		}
	}
	if !okPath {
		r.Fail("wire-path", "%s: sent to %s", where, s.Path)
	}
	q, err := url.ParseQuery(strings.ReplaceAll(s.Query, ";", "%3B")) // a semicolon does not separate parameters
	if err != nil {
		r.Fail("wire-query", "%s: sent with query %s: %v", where, s.Query, err)
	}
	body := false
	for _, in := range w.h.Inputs {
		v, has := w.req[in.Name]
		set := has && !e.isZero(&in.TypeSpec, v)
		switch {
		case in.Path:
		case in.Query != "":
			vs := q[in.Query]
			delete(q, in.Query)
			if set && (len(vs) != 1 || !e.sameText(in, v, vs[0])) || !set && !(len(vs) == 0 || len(vs) == 1 && zeroText(vs[0])) {
				r.Fail("wire-query", "%s: sent with %s=%q", where, in.Query, vs)
			}
		case in.Header != "":
			vs := s.Header[http.CanonicalHeaderKey(in.Header)]
			if set && (len(vs) != 1 || !e.sameText(in, v, vs[0])) || !set && !(len(vs) == 0 || len(vs) == 1 && zeroText(vs[0])) {
				r.Fail("wire-header", "%s: sent with %s: %q", where, in.Header, vs)
			}
		default:
			body = true
			if has && !e.same(&in.TypeSpec, v, s.Body) {
				r.Fail("wire-body", "%s: sent with body %s", where, s.Body)
			}
		}
	}
	if len(q) > 0 {
		r.Fail("wire-query", "%s: sent with undeclared query parameters %v", where, q)
	}
	if !body && strings.TrimSpace(s.Body) != "" {
		r.Fail("wire-body", "%s: sent with an undeclared body %s", where, s.Body)
	}
}

func defaultValue(d interface{}) interface{} {
	switch x := d.(type) {
	case *string:
		return *x
	case *sadl.Decimal:
		return num(x.String())
	case float64:
		if x == math.Trunc(x) {
			return num(strconv.FormatFloat(x, 'f', 0, 64))
		}
		return num(strconv.FormatFloat(x, 'f', -1, 64))
	}
	return d
}

func goHttp(runtime bool) httpOpts {
	o := defaultHttp()
	o.noArrayParams = true
	o.paramTypes = []sadl.TypeSpec{tsOf("String"), tsOf("Int32"), tsOf("Bool"), tsOf("Nm"), tsOf("Col"), tsOf("Timestamp"), tsOf("Int8"), tsOf("Int64"), tsOf("Float64"), tsOf("Float32"), tsOf("Decimal"), tsOf("UUID"), tsOf("Num"), tsOf("D0"), tsOf("Ts0"), {Type: "String", Values: []string{"p q", "r"}}, ranged("Int32", "1", "9")}
	o.bodyTypes = append(o.bodyTypes, tsOf("Timestamp"), tsOf("Decimal"), tsOf("Any"), tsOf("Col"), tsOf("U0"), tsOf("Int32"), tsOf("Bool"))
	o.outTypes = append(o.outTypes, tsOf("Timestamp"), tsOf("Decimal"), tsOf("Any"), tsOf("Col"), tsOf("U0"), tsOf("Int32"), tsOf("Bool"))
	o.statuses = []int32{200, 201, 202, 203}
	return o
}

func goServiceTypes() []*sadl.TypeDef {
	return append(serviceAux(), td("D0", tsOf("Decimal")), td("Ts0", tsOf("Timestamp")), td("U0", unionTS("rec", "Rec", "num", "Num")))
}

// goAction draws an action the Go generator supports, or nil.
func goAction(c *mc.C, name, res string, o httpOpts, free string) *sadl.HttpDef {
	h := drawAction(c, name, res, o, free)
	if h.Method == "HEAD" { // no body can be returned
		for _, out := range h.Expected.Outputs {
			if out.Header == "" {
				return nil
			}
		}
	}
	if strings.Contains(free, "hdrtype") || c.DevBool() { // types of headers
		ot := mc.Pick(c, "Bool", "Int64", "Float64", "Decimal", "Timestamp", "UUID", "Nm", "Col", "Num", "D0", "Ts0")
		hn := "X-Out"
		if (ot == "Timestamp") && c.Bool() {
			hn = "Last-Modified"
		}
		h.Expected.Outputs = append(h.Expected.Outputs, &sadl.HttpParamSpec{Header: hn, StructFieldDef: *fld("hout", c.Bool(), tsOf(ot))})
		h.Inputs = append(h.Inputs, &sadl.HttpParamSpec{Header: "x-IN", StructFieldDef: *fld("hin", c.Bool(), tsOf(ot))})
	}
	return h
}

// goDefaults gives the optional query and header inputs defaults: nth chooses the value; in the form the parser gives
// them (odd kinds) or as read from JSON.
func goDefaults(e typeEnv, s *sadl.Schema, kind int) {
	parsed, nth := kind%2 == 1, (kind-1)/2
	for _, h := range s.Http {
		for _, in := range h.Inputs {
			if in.Required || in.Query == "" && in.Header == "" {
				continue
			}
			vs := e.paramValues(in)
			v := vs[nth%len(vs)]
			switch x := v.(type) {
			case string:
				if parsed {
					in.Default = &x
				} else {
					in.Default = x
				}
			case num:
				f, _ := x.Float64()
				exact, _ := new(big.Rat).SetString(string(x))
				if parsed || exact.Cmp(new(big.Rat).SetFloat64(f)) != 0 {
					in.Default = dec(string(x))
				} else {
					in.Default = f
				}
			case bool:
				in.Default = x
			}
		}
	}
}

// goParams: one parameter type in all three places.
func goParams(c *mc.C, o httpOpts) *sadl.HttpDef {
	ts := o.paramTypes[c.Choose(len(o.paramTypes))]
	req := c.Bool()
	h := &sadl.HttpDef{Name: "getIt", Method: mc.PickDev(c, "GET", "POST", "OPTIONS"), Path: "/things/{id}/part/{part}?w_lim={lim}", Expected: &sadl.HttpExpectedSpec{Status: 200}}
	h.Inputs = []*sadl.HttpParamSpec{
		{Query: "w_lim", StructFieldDef: *fld("lim", req, ts)},
		{Path: true, StructFieldDef: *fld("part", true, ts)},
		{Path: true, StructFieldDef: *fld("id", true, tsOf("String"))},
		{Header: "x-Par", StructFieldDef: *fld("hpar", req, ts)},
	}
	if h.Method == "POST" {
		h.Inputs = append(h.Inputs, &sadl.HttpParamSpec{StructFieldDef: *fld("body", true, tsOf("Rec"))})
	}
	return h
}

const serviceCats = "required comment2 annotation schema action path method resource tags pname wire pdefault ptype status outheader exception example"

func init() {
	mk := func(name string, quick, deep int, runtime bool, free string) mc.Harness {
		b := &mc.Batch{Name: name, Quick: quick, Deep: deep, Chunk: 250, Prep: goPrepJob, Run: goRunBatch, Judge: judgeService}
		b.Gen = func(c *mc.C) interface{} {
			o := goHttp(runtime)
			if free == "rich" {
				o.base = richBase
			}
			var h *sadl.HttpDef
			if free == "params" {
				h = goParams(c, o)
			} else {
				h = goAction(c, "getIt", "things", o, free)
			}
			if h == nil {
				return nil
			}
			if runtime {
				for _, x := range h.Expected.Outputs {
					if x.Header == "Last-Modified" {
						return nil // the runtime's Timestamp has no HTTP date form
					}
				}
			}
			s := &sadl.Schema{Name: "svc", Types: goServiceTypes(), Http: []*sadl.HttpDef{h}}
			if c.DevBool() {
				// a second action: the same resource with another method, or its own
				h2 := &sadl.HttpDef{Name: "Second", Method: "DELETE", Path: plainPath(h), Expected: &sadl.HttpExpectedSpec{Status: 204}}
				for _, in := range h.Inputs {
					if in.Path {
						p := *in
						h2.Inputs = append(h2.Inputs, &p)
					}
				}
				if h.Method == "DELETE" {
					h2.Method = "PUT"
				}
				if c.Bool() {
					s.Http = append([]*sadl.HttpDef{h2}, s.Http...)
				} else {
					s.Http = append(s.Http, h2)
				}
			}
			if c.DevBool() && len(h.Exceptions) == 0 && len(h.Expected.Outputs) == 0 {
				h.Expected = nil
			}
			if c.DevBool() { // only the types the actions need
				var roots []*sadl.TypeDef
				for _, a := range s.Http {
					t := td("x", *reqType(a))
					t.Fields = append(t.Fields, resType(a).Fields...)
					for _, x := range a.Exceptions {
						t.Fields = append(t.Fields, fld("x", true, tsOf(x.Type)))
					}
					roots = append(roots, t)
				}
				s.Types = closure(s.Types, roots...)
			}
			defs := 0
			if free == "params" {
				defs = c.Choose(7)
			} else {
				defs = c.Dev(5)
			}
			s = cloneSchema(s)
			job := &goJob{runtime: runtime, server: true, client: true}
			if defs > 0 {
				goDefaults(envOf(s), s, defs)
				job.fix = func(m *sadl.Schema) { goDefaults(envOf(m), m, defs) }
			}
			only := c.Dev(3)
			if only == 1 {
				job.client = false
			}
			if only == 2 {
				job.server = false
			}
			job.schema = s
			if job.server {
				job.jobs = serviceJobs(s, job.client)
			}
			return job
		}
		return b.Harness()
	}
	vary := &mc.Batch{Name: "variety", Chunk: 250, Prep: goPrepJob, Run: goRunBatch, Judge: judgeService}
	vary.Gen = func(c *mc.C) interface{} {
		s, _ := varied(c, serviceCats, c.Thorough())
		if s == nil || s.Http[1].Method == "HEAD" || strings.Contains(jsonOf(s.Http), "}.json") { // an answer to HEAD has no body; a path variable is a whole segment
			return nil
		}
		return &goJob{schema: s, server: true, client: true, jobs: serviceJobs(s, true)}
	}
	mc.Register(&mc.Prop{ID: "C20",
		Harnesses: []mc.Harness{
			vary.Harness(),
			mk("shape", 1, 2, false, ""),
			mk("rich", 1, 2, false, "rich"),
			mk("params", 0, 2, false, "params"),
			mk("headers", 0, 1, false, "hdrtype"),
			mk("results", 0, 1, false, "out except"),
			mk("runtime", 1, 2, true, ""),
		},
		Assumptions: []string{
			"github.com/gorilla/mux and handlers are replaced by a stand-in with the routing semantics of mux's documentation (segments, variables matching one segment, method filter); requests are serialized to HTTP/1.1 wire form and parsed again, without a socket",
			"a parameter holding its Go zero value counts as not supplied, as the generator documents; path values are non-empty and contain no slash; header values are printable",
			"exceptions are structs with statuses distinct from one another and from the expected status; HEAD actions have no body output; parameters are not arrays or structs",
		},
		Bounds: "one or two actions per service; every method, path shape, parameter type and location, body and output type, exception set; every value of a boundary menu per input and output; deviations 1 (quick), 2 (thorough); every variation (pair) of a rich service of three actions",
	})
}
