package mc

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// R collects what one execution observed.
type R struct {
	fails    []Fail
	outcome  string
	desc     func() string
	skipped  bool
	Scratch  string
	Property string
}

type Fail struct{ Key, Msg string }

// Fail records a violation. key is a stable identification of what fails (used only to recognise listed findings).
func (r *R) Fail(key, format string, args ...interface{}) {
	if len(r.fails) < 4 {
		m := fmt.Sprintf(format, args...)
		if len(m) > 6000 {
			m = m[:6000] + "..."
		}
		r.fails = append(r.fails, Fail{key, m})
	}
}
func (r *R) Failed() bool { return len(r.fails) > 0 }

// Outcome is what the execution observed (for counting distinct outcomes).
func (r *R) Outcome(format string, args ...interface{}) { r.outcome = fmt.Sprintf(format, args...) }

// Input describes the case, lazily.
func (r *R) Input(f func() string) { r.desc = f }

type Case func(r *R)

type Harness struct {
	Name  string
	Quick int // deviation bound
	Deep  int // deviation bound of the thorough tier
	// Gen draws one case; nil means the path is not a case (it is counted as pruned).
	Gen func(c *C) Case
	// Solo: run in one worker only (cases are expensive batches or use shared resources)
	Solo bool
	// Split: the alternatives of the first choice are dealt out to the workers (when drawing is costly); otherwise every
	// worker draws every case and runs its share.
	Split bool
}

type Prop struct {
	ID          string
	Harnesses   []Harness
	Assumptions []string
	Bounds      string
}

var props = map[string]*Prop{}

func Register(p *Prop) { props[p.ID] = p }

type harnessResult struct {
	Name       string
	Split      bool
	Bound      int
	Executions int64
	Pruned     int64
	Nodes      int64 // new tree nodes (states)
	Distinct   int64
	Complete   bool
	Samples    []string
	Outcomes   map[string]int
}

type violation struct {
	Property string `json:"property"`
	Binary   string `json:"binary"`
	Harness  string `json:"harness"`
	Tier     string `json:"tier"`
	Bound    int    `json:"bound"`
	Path     []int  `json:"path"`
	Key      string `json:"key"`
	Message  string `json:"message"`
	Input    string `json:"input"`
	Command  string `json:"replay_command,omitempty"`
	Devs     int    `json:"deviations"`
}

type workerResult struct {
	Harnesses  []*harnessResult
	Violations []*violation
	Known      map[string]string
	Stopped    string
}

func bound(h *Harness, tier string) int {
	if tier == "thorough" {
		return h.Deep
	}
	return h.Quick
}

// ---------------------------------------------------------------- worker

type status struct{ mem []byte }

func openStatus(path string) *status {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		panic(err)
	}
	f.Truncate(8192)
	mem, err := syscall.Mmap(int(f.Fd()), 0, 8192, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	f.Close()
	return &status{mem}
}

func (s *status) set(h int, path []int) {
	binary.LittleEndian.PutUint32(s.mem[8:], uint32(h))
	n := len(path)
	if n > 2000 {
		n = 2000
	}
	binary.LittleEndian.PutUint32(s.mem[12:], uint32(n))
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint32(s.mem[16+4*i-0:], uint32(path[i]))
		if 16+4*i+8 >= len(s.mem) {
			break
		}
	}
	binary.LittleEndian.PutUint64(s.mem[0:], binary.LittleEndian.Uint64(s.mem[0:])+1)
}
func (s *status) get() (n uint64, h int, path []int) {
	n = binary.LittleEndian.Uint64(s.mem[0:])
	h = int(binary.LittleEndian.Uint32(s.mem[8:]))
	k := int(binary.LittleEndian.Uint32(s.mem[12:]))
	for i := 0; i < k; i++ {
		path = append(path, int(binary.LittleEndian.Uint32(s.mem[16+4*i:])))
	}
	return
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watch ends the process (97) when one execution burns far more CPU, or blocks far longer, than any legitimate one.
func watch(s *status) {
	last := uint64(0)
	cpu0, t0 := cpuTime(), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		n, _, _ := s.get()
		if n != last {
			last, cpu0, t0 = n, cpuTime(), time.Now()
			continue
		}
		if n > 0 && n != ^uint64(0) && (cpuTime()-cpu0 > 60*time.Second || time.Since(t0) > 400*time.Second) {
			fmt.Fprintln(os.Stderr, "mc: execution does not terminate")
			os.Exit(97)
		}
	}
}

func childSetup() {
	debug.SetMaxStack(64 << 20)
	lim := syscall.Rlimit{}
	syscall.Getrlimit(syscall.RLIMIT_AS, &lim)
	if lim.Cur > 3<<30 {
		lim.Cur = 3 << 30 // soft limit: tools run by a batch lift it
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	core := syscall.Rlimit{}
	syscall.Setrlimit(syscall.RLIMIT_CORE, &core)
	MapOrder(0)
	null, _ := os.OpenFile("/dev/null", os.O_RDWR, 0)
	realStdout = os.Stdout
	os.Stdout = null
}

var realStdout *os.File

// runCase executes a case, turning a panic into a failure.
func runCase(cs Case, r *R) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			r.Fail("panic:"+panicSite(st), "panic: %v\n%s", e, trimStack(st))
		}
		MapOrder(0)
	}()
	cs(r)
}

// panicSite names the innermost function of the code under test on the stack.
func panicSite(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "github.com/boynton/sadl") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/boynton/")
		}
	}
	return "?"
}

func trimStack(st string) string {
	var out []string
	lines := strings.Split(st, "\n")
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "boynton/sadl") {
			out = append(out, lines[i])
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func describe(r *R) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprint("(description failed: ", e, ")")
		}
	}()
	if r.desc == nil {
		return ""
	}
	s = r.desc()
	if len(s) > 8000 {
		s = s[:8000] + "..."
	}
	return s
}

func worker(p *Prop, tier string, id, n int, dir string, deadline time.Time, known map[string]bool) {
	childSetup()
	st := openStatus(filepath.Join(dir, fmt.Sprintf("status.%d", id)))
	go watch(st)
	beat = func() {
		binary.LittleEndian.PutUint64(st.mem[0:], binary.LittleEndian.Uint64(st.mem[0:])+1)
	}
	scratch := filepath.Join(dir, fmt.Sprintf("scratch.%d", id))
	os.MkdirAll(scratch, 0700)
	res := &workerResult{Known: map[string]string{}}
	seenKeys := map[string]int{}
	failfast := os.Getenv("VERIF_FAILFAST") != ""
	for hi := range p.Harnesses {
		h := &p.Harnesses[hi]
		if h.Solo && hi%n != id {
			continue
		}
		hr := &harnessResult{Name: h.Name, Split: h.Split, Bound: bound(h, tier), Outcomes: map[string]int{}}
		res.Harnesses = append(res.Harnesses, hr)
		outcomes := map[[12]byte]bool{}
		var path []int
		from := 0
		idx := int64(0)
		hr.Complete = true
		if h.Split {
			c := newC(nil, hr.Bound, tier)
			h.Gen(c)
			if c.pos == 0 || id >= c.width[0] {
				continue
			}
			path = []int{id}
		}
		for {
			c := newC(path, hr.Bound, tier)
			cs := h.Gen(c)
			c.path = c.path[:c.pos]
			c.width = c.width[:c.pos]
			hr.Nodes += int64(c.pos - from)
			if cs == nil {
				hr.Pruned++
			} else {
				if h.Solo || h.Split || int(idx%int64(n)) == id {
					mark = func(p []int) { st.set(hi, p) }
					st.set(hi, c.path)
					r := &R{Scratch: scratch, Property: p.ID}
					runCase(cs, r)
					hr.Executions++
					o := sha256.Sum256([]byte(r.outcome))
					var k [12]byte
					copy(k[:], o[:])
					if len(outcomes) < 2000000 {
						outcomes[k] = true
					}
					if len(r.outcome) < 24 && len(hr.Outcomes) < 40 {
						hr.Outcomes[r.outcome]++
					}
					if hr.Executions == 1 || hr.Executions == 97 {
						if d := describe(r); d != "" {
							if len(d) > 700 {
								d = d[:700] + "..."
							}
							hr.Samples = append(hr.Samples, h.Name+": "+d+" => "+clip(r.outcome, 200))
						}
					}
					for _, f := range r.fails {
						if known[p.ID+" "+f.Key] {
							if _, ok := res.Known[f.Key]; !ok {
								res.Known[f.Key] = clip(f.Msg, 300)
							}
							continue
						}
						seenKeys[h.Name+f.Key]++
						if seenKeys[h.Name+f.Key] <= 3 {
							res.Violations = append(res.Violations, &violation{Property: p.ID, Harness: h.Name, Tier: tier, Bound: hr.Bound, Path: append([]int{}, c.path...), Key: f.Key, Message: f.Msg, Input: describe(r), Devs: c.devs})
						}
					}
				}
				idx++
			}
			if failfast { // for campaigns over many changed trees: one violation in any worker ends the run
				stop := filepath.Join(dir, "stop")
				if len(res.Violations) > 0 {
					os.WriteFile(stop, nil, 0600)
				}
				if _, err := os.Stat(stop); err == nil {
					res.Stopped = "violations"
					hr.Complete = false
					break
				}
			}
			if len(res.Violations) >= 60 {
				res.Stopped = "violations"
				hr.Complete = false
				break
			}
			if idx&63 == 0 && time.Now().After(deadline) {
				res.Stopped = "deadline"
				hr.Complete = false
				break
			}
			path, from = c.next()
			if path == nil {
				break
			}
			if h.Split && from == 0 {
				if path[0] += n - 1; path[0] >= c.width[0] {
					break
				}
			}
		}
		hr.Distinct = int64(len(outcomes))
		if res.Stopped != "" {
			break
		}
	}
	binary.LittleEndian.PutUint64(st.mem, ^uint64(0))
	b, _ := json.Marshal(res)
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("result.%d", id)), b, 0600); err != nil {
		os.Exit(98)
	}
	os.Exit(0)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---------------------------------------------------------------- replay

func replay(file string, verbose bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[v.Property]
	if p == nil {
		return 2
	}
	for hi := range p.Harnesses {
		h := &p.Harnesses[hi]
		if h.Name != v.Harness {
			continue
		}
		childSetup()
		Replaying = true
		dir, _ := os.MkdirTemp("", "verif-replay-")
		defer os.RemoveAll(dir)
		st := openStatus(filepath.Join(dir, "status"))
		go watch(st)
		c := newC(v.Path, v.Bound, v.Tier)
		cs := h.Gen(c)
		if cs == nil {
			fmt.Fprintln(realStdout, "the recorded path is not a case of this harness any more")
			return 0
		}
		st.set(hi, c.path)
		scratch := filepath.Join(dir, "scratch")
		os.MkdirAll(scratch, 0700)
		r := &R{Scratch: scratch, Property: p.ID}
		runCase(cs, r)
		fmt.Fprintf(realStdout, "input:\n%s\noutcome: %s\n", describe(r), clip(r.outcome, 2000))
		if len(r.fails) == 0 {
			fmt.Fprintln(realStdout, "HOLDS on this execution")
			return 0
		}
		for _, f := range r.fails {
			fmt.Fprintf(realStdout, "FAILS [%s]: %s\n", f.Key, f.Msg)
		}
		return 3
	}
	fmt.Fprintln(os.Stderr, "no such harness:", v.Harness)
	return 2
}

// ---------------------------------------------------------------- parent

func loadKnown(file string) map[string]bool {
	out := map[string]bool{}
	b, err := os.ReadFile(file)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var e struct{ Status, Property, Key string }
		if json.Unmarshal([]byte(l), &e) == nil && e.Status == "known" {
			out[e.Property+" "+e.Key] = true
		}
	}
	return out
}

func Main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: check PROP TIER VERIFDIR | worker ... | replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		p := props[os.Args[2]]
		id, _ := strconv.Atoi(os.Args[4])
		n, _ := strconv.Atoi(os.Args[5])
		dl, _ := strconv.ParseInt(os.Args[7], 10, 64)
		worker(p, os.Args[3], id, n, os.Args[6], time.Unix(dl, 0), loadKnown(os.Args[8]))
	case "replay":
		os.Exit(replay(os.Args[2], true))
	case "list":
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "check":
		os.Exit(check(os.Args[2], os.Args[3], os.Args[4]))
	}
}

func check(id, tier, verif string) int {
	t0 := time.Now()
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	budget := 600 * time.Second
	if tier == "thorough" {
		budget = 5400 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if k, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(k) * time.Second
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	knownFile := filepath.Join(verif, "known-findings.jsonl")
	dir, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	deadline := t0.Add(budget)
	self, _ := os.Executable()
	type done struct {
		id   int
		err  error
		tail string
	}
	ch := make(chan done)
	cmds := make([]*exec.Cmd, n)
	for i := 0; i < n; i++ {
		cmd := exec.Command(self, "worker", id, tier, strconv.Itoa(i), strconv.Itoa(n), dir, strconv.FormatInt(deadline.Unix(), 10), knownFile)
		errf, _ := os.Create(filepath.Join(dir, fmt.Sprintf("stderr.%d", i)))
		cmd.Stderr = errf
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single", "TMPDIR="+dir)
		cmds[i] = cmd
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		go func(i int, cmd *exec.Cmd, f *os.File) {
			err := cmd.Wait()
			f.Close()
			ch <- done{id: i, err: err}
		}(i, cmd, errf)
	}
	var vios []*violation
	known := map[string]string{}
	hres := map[string]*harnessResult{}
	var order []string
	stopped := ""
	infra := ""
	for k := 0; k < n; k++ {
		d := <-ch
		b, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result.%d", d.id)))
		if d.err != nil || rerr != nil {
			tail, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("stderr.%d", d.id)))
			st := openStatus(filepath.Join(dir, fmt.Sprintf("status.%d", d.id)))
			cnt, hi, path := st.get()
			if cnt == 0 || cnt == ^uint64(0) || hi >= len(p.Harnesses) || strings.Contains(string(tail), "mc: ") && !strings.Contains(string(tail), "does not terminate") {
				infra = fmt.Sprintf("worker %d: %v %s", d.id, d.err, clip(string(tail), 3000))
				continue
			}
			h := &p.Harnesses[hi]
			vios = append(vios, &violation{Property: id, Harness: h.Name, Tier: tier, Bound: bound(h, tier), Path: path, Key: "process-died", Message: fmt.Sprintf("the process ended while running the code under test: %v\n%s", d.err, clip(string(tail), 3000))})
			stopped = "crash"
			continue
		}
		var wr workerResult
		if err := json.Unmarshal(b, &wr); err != nil {
			infra = err.Error()
			continue
		}
		vios = append(vios, wr.Violations...)
		for k, v := range wr.Known {
			known[k] = v
		}
		if wr.Stopped != "" {
			stopped = wr.Stopped
		}
		for _, hr := range wr.Harnesses {
			t := hres[hr.Name]
			if t == nil {
				c := *hr
				hres[hr.Name] = &c
				order = append(order, hr.Name)
				continue
			}
			t.Executions += hr.Executions
			if t.Split {
				t.Nodes += hr.Nodes
				t.Pruned += hr.Pruned
			} else {
				if hr.Nodes > t.Nodes {
					t.Nodes = hr.Nodes
				}
				if hr.Pruned > t.Pruned {
					t.Pruned = hr.Pruned
				}
			}
			if hr.Distinct > t.Distinct {
				t.Distinct = hr.Distinct
			}
			t.Complete = t.Complete && hr.Complete
			for k, v := range hr.Outcomes {
				t.Outcomes[k] += v
			}
			if len(t.Samples) < 3 {
				t.Samples = append(t.Samples, hr.Samples...)
			}
		}
	}
	sort.Strings(order)
	// smallest first
	sort.SliceStable(vios, func(i, j int) bool {
		if vios[i].Devs != vios[j].Devs {
			return vios[i].Devs < vios[j].Devs
		}
		return len(vios[i].Path) < len(vios[j].Path)
	})
	var confirmed *violation
	rdir := filepath.Join(verif, "replays")
	unstable := 0
	seen := map[string]int{}
	confirmedKeys := map[string]bool{}
	for _, v := range vios {
		if seen[v.Harness+v.Key] >= 2 || len(seen) > 12 || confirmedKeys[v.Harness+v.Key] {
			continue
		}
		seen[v.Harness+v.Key]++
		os.MkdirAll(rdir, 0755)
		v.Binary = filepath.Base(self)
		hsh := sha256.Sum256([]byte(fmt.Sprint(v.Harness, v.Path, v.Key)))
		rp := filepath.Join(rdir, fmt.Sprintf("%s-%x.json", id, hsh[:4]))
		v.Command = fmt.Sprintf("bash %s/check.sh replay %s", verif, rp)
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(rp, b, 0644)
		ok := true
		for k := 0; k < 3 && ok; k++ {
			cmd := exec.Command(self, "replay", rp)
			cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "TMPDIR="+dir)
			out, err := cmd.CombinedOutput()
			if err == nil {
				ok = false
			} else if ee, isExit := err.(*exec.ExitError); isExit && ee.ExitCode() == 2 && strings.Contains(string(out), "no such harness") {
				ok = false
			}
		}
		if !ok {
			unstable++
			if v.Key == "process-died" {
				infra = "a worker died and the execution it was running does not fail when re-run: " + v.Message
			}
			fmt.Printf("note: not reproduced on replay, not reported: [%s/%s] %s\n", v.Harness, v.Key, clip(v.Message, 500))
			os.Remove(rp)
			continue
		}
		confirmedKeys[v.Harness+v.Key] = true
		fmt.Printf("violation [%s/%s] %s\n  input: %s\n  replay: %s\n", v.Harness, v.Key, clip(v.Message, 2500), clip(v.Input, 1500), rp)
		if confirmed == nil {
			confirmed = v
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		}
	}
	var states, trans, execs, pruned int64
	exhaustive := stopped == "" && infra == ""
	var samples []string
	hs := []interface{}{}
	for _, nm := range order {
		t := hres[nm]
		states += t.Nodes + 1
		trans += t.Nodes
		execs += t.Executions
		pruned += t.Pruned
		exhaustive = exhaustive && t.Complete
		for i, s := range t.Samples {
			if i < 2 {
				samples = append(samples, s)
			}
		}
		m := map[string]interface{}{"harness": nm, "deviation_bound": t.Bound, "executions": t.Executions, "choice_tree_nodes": t.Nodes + 1, "distinct_outcomes_at_least": t.Distinct, "complete": t.Complete}
		if len(t.Outcomes) > 0 && len(t.Outcomes) <= 12 {
			m["outcomes"] = t.Outcomes
		}
		hs = append(hs, m)
		fmt.Printf("%s %s: %d executions, %d choice-tree nodes, >=%d distinct outcomes, bound %d, complete=%v\n", id, nm, t.Executions, t.Nodes+1, t.Distinct, t.Bound, t.Complete)
	}
	nv := 0
	if confirmed != nil {
		nv = 1
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": execs,
			"samples": samples, "exhaustive": exhaustive, "stopped": stopped,
			"harnesses": hs, "bounds": p.Bounds, "map_iteration_control": mapControl(),
			"known_findings_seen": known, "unstable_not_reported": unstable, "pruned_paths": pruned,
		},
		"assumptions": append([]string{"every execution runs the real code built from /repo's working tree; nothing is sampled: the choice tree is enumerated depth first within the stated deviation bound"}, p.Assumptions...),
		"wall_s":      time.Since(t0).Seconds(), "violations": nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0644)
	var kk []string
	for k := range known {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s [%s] %s\n", id, k, strings.ReplaceAll(clip(known[k], 200), "\n", " "))
	}
	if confirmed != nil {
		return 1
	}
	if infra != "" {
		fmt.Fprintln(os.Stderr, "infrastructure error:", infra)
		return 2
	}
	return 0
}
