package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/httptrace"
	"verif/mc"
)

// C22: traces of HTTP examples. The printed text is read back as a sequence of requests and responses and compared,
// value by value, with what the examples and the action say.

type trace struct {
	name, action string
	method       string
	target       string
	header       http.Header
	body         string
	hasRes       bool
	status       int
	reason       string
	resHeader    http.Header
	resBody      string
}

var traceHead = regexp.MustCompile(`^# (.*?) ?\(action=(.*)\)$`)

func readTraces(text string) (out []*trace, err error) {
	lines := strings.Split(text, "\n")
	i := 0
	headers := func() http.Header {
		h := http.Header{}
		for i < len(lines) && lines[i] != "" {
			k, v, ok := strings.Cut(lines[i], ":")
			if !ok && err == nil {
				err = fmt.Errorf("not a header field: %q", lines[i])
			}
			h.Add(k, strings.TrimSpace(v))
			i++
		}
		if i == len(lines) && err == nil {
			err = fmt.Errorf("the header does not end")
		}
		i++
		return h
	}
	body := func() string {
		s := i
		for i < len(lines) && !strings.HasPrefix(lines[i], "#") {
			i++
		}
		return strings.Join(lines[s:i], "\n")
	}
	var t *trace
	for i < len(lines) && err == nil {
		l := lines[i]
		switch {
		case strings.HasPrefix(l, "#"):
			if m := traceHead.FindStringSubmatch(l); m != nil {
				t = &trace{name: m[1], action: m[2]}
				out = append(out, t)
			}
			i++
		case l == "":
			i++
		case strings.HasPrefix(l, "HTTP/1.1 ") && t != nil && t.method != "" && !t.hasRes:
			p := strings.SplitN(l, " ", 3)
			t.hasRes = true
			if len(p) == 3 {
				t.reason = p[2]
			}
			t.status, err = strconv.Atoi(p[1])
			i++
			t.resHeader = headers()
			t.resBody = body()
		case strings.HasSuffix(l, " HTTP/1.1") && t != nil && t.method == "":
			p := strings.Split(l, " ")
			if len(p) != 3 {
				return nil, fmt.Errorf("not a request line: %q", l)
			}
			t.method, t.target = p[0], p[1]
			i++
			t.header = headers()
			t.body = body()
		default:
			return nil, fmt.Errorf("unexpected line %q", l)
		}
	}
	return out, err
}

type exampleWant struct {
	name   string
	h      *sadl.HttpDef
	req    map[string]interface{}
	answer string // "", ok or an exception type
	result interface{}
	status int32
}

// exampleForm gives a value the form the parser gives it, or the one of a JSON decoder.
func exampleForm(v interface{}, parsed bool) interface{} {
	switch x := v.(type) {
	case string:
		if parsed {
			return &x
		}
	case json.Number:
		if parsed {
			return dec(string(x))
		}
		f, _ := x.Float64()
		return f
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range x {
			m[k] = exampleForm(e, parsed)
		}
		return m
	case []interface{}:
		l := []interface{}{}
		for _, e := range x {
			l = append(l, exampleForm(e, parsed))
		}
		return l
	}
	return v
}

// lossy: the value has numbers that a JSON decoder cannot hold.
func lossy(v interface{}) bool {
	switch x := v.(type) {
	case json.Number:
		f, err := x.Float64()
		return err != nil || !sameNum(strconv.FormatFloat(f, 'f', -1, 64), string(x))
	case map[string]interface{}:
		for _, e := range x {
			if lossy(e) {
				return true
			}
		}
	case []interface{}:
		for _, e := range x {
			if lossy(e) {
				return true
			}
		}
	}
	return false
}

func reqTarget(h *sadl.HttpDef) string { return cap1(h.Name) + "Request" }
func resTarget(h *sadl.HttpDef) string { return cap1(h.Name) + "Response" }

func judgeTrace(r *mc.R, e typeEnv, t *trace, w *exampleWant) {
	where := fmt.Sprintf("example %q of %s: request %s, answer %s %s", w.name, w.h.Name, rawJSON(w.req), w.answer, rawJSON(w.result))
	if t.method != w.h.Method {
		r.Fail("method", "%s: shown with method %q", where, t.method)
	}
	tp, tq, _ := strings.Cut(t.target, "?")
	got, tmpl := strings.Split(tp, "/"), strings.Split(plainPath(w.h), "/")
	okPath := len(got) == len(tmpl)
	byName := map[string]*sadl.HttpParamSpec{}
	for _, in := range w.h.Inputs {
		byName[in.Name] = in
	}
	for i := 0; okPath && i < len(tmpl); i++ {
		if b, a := strings.Index(tmpl[i], "{"), strings.Index(tmpl[i], "}"); b >= 0 && a > b {
			n, pre, suf := tmpl[i][b+1:a], tmpl[i][:b], tmpl[i][a+1:]
			okPath = len(got[i]) >= len(pre)+len(suf) && strings.HasPrefix(got[i], pre) && strings.HasSuffix(got[i], suf)
			if okPath {
				s, err := url.PathUnescape(got[i][len(pre) : len(got[i])-len(suf)])
				okPath = err == nil && e.sameText(byName[n], w.req[n], s)
			}
		} else {
			okPath = got[i] == tmpl[i]
		}
	}
	if !okPath || strings.ContainsAny(t.target, "{}# ") {
		r.Fail("path", "%s: shown with %s", where, t.target)
	}
	q, err := url.ParseQuery(tq)
	if err != nil {
		r.Fail("query", "%s: shown with query %q: %v", where, tq, err)
	}
	if _, t, ok := strings.Cut(w.h.Path, "?"); ok { // what the template fixes
		for _, item := range strings.Split(t, "&") {
			if k, v, _ := strings.Cut(item, "="); !strings.Contains(item, "{") {
				if vs := q[k]; len(vs) != 1 || vs[0] != v {
					r.Fail("query", "%s: shown with %s=%q, the template has %s", where, k, vs, item)
				}
				delete(q, k)
			}
		}
	}
	body := ""
	for _, in := range w.h.Inputs {
		v, has := w.req[in.Name]
		switch {
		case in.Path:
		case in.Query != "":
			if vs := q[in.Query]; has && (len(vs) != 1 || !e.sameText(in, v, vs[0])) || !has && len(vs) > 0 {
				r.Fail("query", "%s: shown with %s=%q", where, in.Query, vs)
			}
			delete(q, in.Query)
		case in.Header != "":
			if vs := t.header[http.CanonicalHeaderKey(in.Header)]; has && (len(vs) != 1 || !e.sameText(in, v, vs[0])) || !has && len(vs) > 0 {
				r.Fail("header", "%s: shown with %s: %q", where, in.Header, vs)
			}
		default:
			if has {
				body = in.Name
				if !e.same(&in.TypeSpec, v, t.body) {
					r.Fail("body", "%s: shown with body %s", where, t.body)
				}
			}
		}
	}
	if len(q) > 0 {
		r.Fail("query", "%s: shown with query parameters %v that are not inputs", where, q)
	}
	if body == "" && strings.TrimSpace(t.body) != "" {
		r.Fail("body", "%s: shown with body %q", where, t.body)
	}
	if cl := t.header["Content-Length"]; len(cl) > 0 && cl[0] != fmt.Sprint(len(strings.TrimSuffix(t.body, "\n"))) {
		r.Fail("length", "%s: the request has Content-Length %q", where, cl)
	}
	if w.answer == "" {
		if t.hasRes {
			r.Fail("response", "%s: a response is shown (status %d), but there is no example for it", where, t.status)
		}
		return
	}
	if !t.hasRes {
		r.Fail("response", "%s: no response is shown", where)
		return
	}
	if int32(t.status) != w.status || t.reason != http.StatusText(t.status) {
		r.Fail("status", "%s: the response has status %d %q, want %d", where, t.status, t.reason, w.status)
	}
	cl, err := strconv.Atoi(t.resHeader.Get("Content-Length"))
	if err != nil || cl > len(t.resBody) || strings.TrimSpace(t.resBody[cl:]) != "" || len(t.resHeader["Content-Length"]) != 1 {
		r.Fail("length", "%s: the response has Content-Length %q and a body of %d bytes", where, t.resHeader["Content-Length"], len(t.resBody))
		return
	}
	rb := t.resBody[:cl]
	if d, err := http.ParseTime(t.resHeader.Get("Date")); err != nil || len(t.resHeader["Date"]) != 1 || time.Since(d) > 10*time.Minute || time.Since(d) < -10*time.Minute {
		r.Fail("date", "%s: the response has Date %q at %s", where, t.resHeader["Date"], time.Now().UTC())
	}
	if w.answer != "ok" {
		if w.status != 304 && !e.same(&sadl.TypeSpec{Type: w.answer}, w.result, rb) {
			r.Fail("exception", "%s: the response has body %s", where, rb)
		}
		return
	}
	rm := w.result.(map[string]interface{})
	hasBody := false
	if w.h.Expected != nil {
		for _, o := range w.h.Expected.Outputs {
			v, has := rm[o.Name]
			if o.Header != "" {
				if vs := t.resHeader[http.CanonicalHeaderKey(o.Header)]; has && (len(vs) != 1 || !e.sameText(o, v, vs[0])) || !has && len(vs) > 0 {
					r.Fail("output-header", "%s: the response has %s: %q", where, o.Header, vs)
				}
			} else if has && w.status != 204 {
				hasBody = true
				if !e.same(&o.TypeSpec, v, rb) {
					r.Fail("output-body", "%s: the response has body %s", where, rb)
				}
			}
		}
	}
	if !hasBody && strings.TrimSpace(rb) != "" {
		r.Fail("output-body", "%s: the response has body %q", where, rb)
	}
}

// runTraces exports the model and judges the traces; wants are the examples expected, in order, per action.
func runTraces(r *mc.R, s *sadl.Schema, wants []*exampleWant, examples []*sadl.ExampleDef) {
	m, err := sadl.NewModel(cloneSchema(s))
	if err != nil {
		panic("mc: " + err.Error())
	}
	m.Examples = examples
	text := mc.Capture(func() { err = httptrace.Export(m, sadl.NewData()) })
	if err != nil {
		r.Fail("error", "export fails: %v", err)
		return
	}
	ts, err := readTraces(text)
	if err != nil {
		r.Fail("unreadable", "%v in\n%s", err, text)
		return
	}
	r.Outcome("%s", regexp.MustCompile(`(?m)^Date: .*$`).ReplaceAllString(text, ""))
	e := envOf(s)
	if len(ts) != len(wants) {
		r.Fail("count", "%d examples are shown, want %d:\n%s", len(ts), len(wants), clipN(text, 3000))
		return
	}
	for i, t := range ts {
		w := wants[i]
		if t.name != w.name || t.action != w.h.Name {
			r.Fail("order", "example %d is %q of %s, want %q of %s", i, t.name, t.action, w.name, w.h.Name)
			continue
		}
		judgeTrace(r, e, t, w)
	}
}

func exStatus(h *sadl.HttpDef) int32 {
	if h.Expected != nil {
		return h.Expected.Status
	}
	return 200
}

func exceptionStatusOf(x *sadl.HttpExceptionSpec) int32 {
	if x.Status == 0 {
		return 500
	}
	return x.Status
}

func c22Shape(free string) func(c *mc.C) mc.Case {
	return func(c *mc.C) mc.Case {
		o := goHttp(false)
		o.statuses = []int32{200, 203, 204, 302, 412}
		if free == "rich" {
			o.base = richBase
		}
		var h *sadl.HttpDef
		if free == "params" {
			h = goParams(c, o)
		} else {
			h = goAction(c, "getIt", "things", o, free)
			if h == nil {
				return nil
			}
		}
		for _, x := range h.Expected.Outputs {
			if x.Header == "Last-Modified" {
				return nil
			}
		}
		if c.DevBool() && len(h.Expected.Outputs) == 0 {
			h.Expected = nil
		}
		for _, in := range h.Inputs { // optional bodies exist too
			if isBodyIn(in) && c.DevBool() {
				in.Required = false
			}
		}
		if h.Expected != nil && c.DevBool() {
			for _, out := range h.Expected.Outputs {
				out.Required = false
			}
		}
		plain := c.DevBool() // a path without a query template, as imported definitions have
		parsed := c.Choose(2) == 0
		zone := c.Dev(3)
		order := c.Dev(3)
		s := &sadl.Schema{Name: "svc", Types: goServiceTypes(), Http: []*sadl.HttpDef{h}}
		if plain {
			h.Path = plainPath(h)
		}
		if k := c.Dev(5); k > 0 && !plain { // constants in the query
			fixed := []string{"flag", "v=1", "flag&v=1", "v="}[k-1]
			if a, b, ok := strings.Cut(h.Path, "?"); !ok {
				h.Path = a + "?" + fixed
			} else if k%2 == 1 {
				h.Path = a + "?" + fixed + "&" + b
			} else {
				h.Path += "&" + fixed
			}
		}
		return traceCase(cloneSchema(s), parsed, zone, order)
	}
}

// traceCase: an example for every call and answer of every action.
func traceCase(s *sadl.Schema, parsed bool, zone, order int) mc.Case {
	return func(r *mc.R) {
		r.Input(func() string {
			b, _ := json.Marshal(s)
			return fmt.Sprintf("parsed=%v zone=%d order=%d %s", parsed, zone, order, b)
		})
		old := time.Local
		time.Local = []*time.Location{time.UTC, time.FixedZone("east", 5*3600+1800), time.FixedZone("west", -8*3600)}[zone]
		defer func() { time.Local = old }()
		var wants []*exampleWant
		var reqs, ress []*sadl.ExampleDef
		for _, j := range serviceJobs(s, false) {
			w := j.want.(*callWant)
			if w.none || !parsed && (lossy(w.req) || lossy(w.result)) {
				continue
			}
			x := &exampleWant{name: fmt.Sprintf("ex%d", len(wants)), h: w.h, req: w.req, answer: w.answer, result: w.result, status: exStatus(w.h)}
			reqs = append(reqs, &sadl.ExampleDef{Target: reqTarget(w.h), Name: x.name, Example: exampleForm(w.req, parsed)})
			target := resTarget(w.h)
			for _, ex := range w.h.Exceptions {
				if ex.Type == w.answer {
					x.status = exceptionStatusOf(ex)
					target = ex.Type
				}
			}
			if w.answer != "" {
				ress = append(ress, &sadl.ExampleDef{Target: target, Name: x.name, Example: exampleForm(w.result, parsed)})
			}
			wants = append(wants, x)
		}
		var all []*sadl.ExampleDef
		switch order {
		case 0:
			all = append(reqs, ress...)
		case 1:
			all = append(ress, reqs...)
		default:
			for i, x := range reqs {
				all = append(all, x)
				if i < len(ress) {
					all = append(all, ress[i])
				}
			}
		}
		runTraces(r, s, wants, all)
	}
}

// c22Varied: every variation of a rich service.
func c22Varied(c *mc.C) mc.Case {
	s, _ := varied(c, "fname required symbol bound values union action path method resource pname wire pdefault ptype status outheader exception schema", c.Thorough())
	if s == nil {
		return nil
	}
	return traceCase(s, c.Choose(2) == 0, 0, 0)
}

// c22Pairs: which examples are shown together.
func c22Pairs(c *mc.C) mc.Case {
	n := 3
	if c.Thorough() {
		n = 4
	}
	one := &sadl.HttpDef{Name: "getIt", Method: "GET", Path: "/one/{id}", Inputs: []*sadl.HttpParamSpec{{Path: true, StructFieldDef: *fld("id", true, tsOf("String"))}},
		Expected: &sadl.HttpExpectedSpec{Status: 200, Outputs: []*sadl.HttpParamSpec{{StructFieldDef: *fld("body", true, tsOf("String"))}}}, Exceptions: []*sadl.HttpExceptionSpec{{Type: "Missing", Status: 404}}}
	two := &sadl.HttpDef{Name: "Two", Method: "POST", Path: "/two", Inputs: []*sadl.HttpParamSpec{{StructFieldDef: *fld("body", true, tsOf("String"))}},
		Expected: &sadl.HttpExpectedSpec{Status: 204}, Exceptions: []*sadl.HttpExceptionSpec{{Type: "Missing", Status: 410}, {Type: "Nm", Status: 400}}}
	targets := []string{"GetItRequest", "GetItResponse", "Missing", "TwoRequest", "TwoResponse", "Nm", "Rec"}
	type pick struct{ t, n int }
	var ps []pick
	seen := map[pick]bool{}
	names := []string{"", "x", "long name"}
	for i := 0; i < n; i++ {
		k := c.Choose(len(targets)*len(names) + 1)
		if k == 0 {
			break
		}
		p := pick{(k - 1) % len(targets), (k - 1) / len(targets)}
		if seen[p] {
			return nil // examples of one target have distinct names
		}
		seen[p] = true
		ps = append(ps, p)
	}
	for k := range names { // one outcome per example
		cnt := func(ts ...int) (n int) {
			for _, t := range ts {
				if seen[pick{t, k}] {
					n++
				}
			}
			return
		}
		if cnt(0) > 0 && cnt(1, 2) > 1 || cnt(3) > 0 && cnt(4, 2, 5) > 1 {
			return nil
		}
	}
	s := cloneSchema(&sadl.Schema{Name: "svc", Types: serviceAux(), Http: []*sadl.HttpDef{one, two}})
	return func(r *mc.R) {
		r.Input(func() string {
			var l []string
			for _, p := range ps {
				l = append(l, fmt.Sprintf("%s %q", targets[p.t], names[p.n]))
			}
			return strings.Join(l, ", ")
		})
		val := func(i int, p pick) interface{} {
			v := fmt.Sprintf("v%d", i)
			switch p.t {
			case 0:
				return map[string]interface{}{"id": v}
			case 1, 3:
				return map[string]interface{}{"body": v}
			case 2:
				return map[string]interface{}{"what": v}
			case 4:
				return map[string]interface{}{}
			case 5:
				return "abc"
			}
			return map[string]interface{}{"name": v}
		}
		var exs []*sadl.ExampleDef
		var wants []*exampleWant
		for i, p := range ps {
			exs = append(exs, &sadl.ExampleDef{Target: targets[p.t], Name: names[p.n], Example: exampleForm(val(i, p), true)})
		}
		for a, h := range s.Http {
			for i, p := range ps {
				if p.t != a*3 {
					continue
				}
				w := &exampleWant{name: names[p.n], h: h, req: val(i, p).(map[string]interface{})}
				for k, q := range ps {
					if q.n != p.n {
						continue
					}
					if targets[q.t] == resTarget(h) {
						w.answer, w.result, w.status = "ok", val(k, q), h.Expected.Status
					}
					for _, x := range h.Exceptions {
						if x.Type == targets[q.t] {
							w.answer, w.result, w.status = x.Type, val(k, q), x.Status
						}
					}
				}
				wants = append(wants, w)
			}
		}
		runTraces(r, s, wants, exs)
	}
}

func init() {
	mc.Register(&mc.Prop{ID: "C22",
		Harnesses: []mc.Harness{
			{Name: "shape", Quick: 2, Deep: 3, Gen: c22Shape("")},
			{Name: "rich", Quick: 1, Deep: 2, Gen: c22Shape("rich")},
			{Name: "params", Quick: 1, Deep: 2, Gen: c22Shape("params")},
			{Name: "headers", Quick: 0, Deep: 2, Gen: c22Shape("hdrtype")},
			{Name: "results", Quick: 0, Deep: 2, Gen: c22Shape("out except")},
			{Name: "variety", Split: true, Gen: c22Varied},
			{Name: "pairs", Quick: 9, Deep: 9, Gen: c22Pairs},
		},
		Assumptions: []string{"examples conform to the action, as the parser checks; parameters are scalars or enums, path values are non-empty, header values printable; examples of one target have distinct names, and each name has at most one response or exception per action; the body of a 304 exception is not prescribed"},
		Bounds:      "every action shape within 2 (quick) or 3 (thorough) deviations, every parameter type and place, every value of a boundary menu per input and output, values as parsed or as read from JSON, three time zones, three orders, constants in the query template; every variation (pair of variations) of a rich service; every sequence of up to 3 (4) examples over two actions, three names and seven targets",
	})
}
