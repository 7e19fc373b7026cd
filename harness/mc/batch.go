package mc

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Replaying: one recorded execution is being re-run.
var Replaying bool

var beat = func() {}
var mark = func(path []int) {}

// EachBounded runs f on every path of its choice tree within the deviation bound.
func EachBounded(bound int, tier string, f func(c *C)) {
	var path []int
	for {
		c := newC(path, bound, tier)
		f(c)
		c.path, c.width = c.path[:c.pos], c.width[:c.pos]
		path, _ = c.next()
		if path == nil {
			return
		}
	}
}

// Batch turns a check whose executions need an external tool (a compiler) into a harness: all cases of the choice
// tree are enumerated first, run together in chunks, and then judged one by one.
type Batch struct {
	Name        string
	Quick, Deep int
	Chunk       int
	Gen         func(c *C) interface{} // nil: no case
	// Prep runs the code under test for one job (number i of its chunk) in the chunk's directory.
	Prep func(dir string, i int, job interface{}) interface{}
	// Run runs the external tool on the prepared jobs and gives one result per job.
	Run     func(dir string, preps []interface{}) []interface{}
	Judge   func(r *R, job, result interface{})
	results map[string]interface{}
}

func (b *Batch) Harness() Harness {
	h := Harness{Name: b.Name, Quick: b.Quick, Deep: b.Deep, Solo: true}
	h.Gen = func(c *C) Case {
		job := b.Gen(c)
		if job == nil {
			return nil
		}
		key := fmt.Sprint(c.path[:c.pos])
		tier, bnd := c.Tier, c.bound
		return func(r *R) {
			if b.results == nil {
				b.results = map[string]interface{}{}
				dir := filepath.Join(r.Scratch, "batch")
				if Replaying {
					os.MkdirAll(dir, 0700)
					b.results[key] = b.Run(dir, []interface{}{b.Prep(dir, 0, job)})[0]
				} else {
					var keys []string
					var jobs []interface{}
					var paths [][]int
					EachBounded(bnd, tier, func(c *C) {
						if j := b.Gen(c); j != nil {
							keys = append(keys, fmt.Sprint(c.path[:c.pos]))
							paths = append(paths, append([]int{}, c.path[:c.pos]...))
							jobs = append(jobs, j)
						}
					})
					for i := 0; i < len(jobs); i += b.Chunk {
						n := i + b.Chunk
						if n > len(jobs) {
							n = len(jobs)
						}
						os.MkdirAll(dir, 0700)
						var preps []interface{}
						for k := i; k < n; k++ {
							mark(paths[k])
							preps = append(preps, b.Prep(dir, k-i, jobs[k]))
						}
						for k, res := range b.Run(dir, preps) {
							b.results[keys[i+k]] = res
						}
						os.RemoveAll(dir)
						beat()
					}
				}
				os.RemoveAll(dir)
			}
			res, ok := b.results[key]
			if !ok {
				panic("mc: batch has no result for " + key)
			}
			b.Judge(r, job, res)
		}
	}
	return h
}

// Tool runs an external program with the address-space limit lifted. It returns the combined output.
func Tool(dir string, env []string, limit time.Duration, name string, args ...string) (string, error) {
	q := []string{"-c", "ulimit -Sv unlimited 2>/dev/null; exec \"$@\"", "sh", name}
	cmd := exec.Command("sh", append(q, args...)...)
	cmd.Dir = dir
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOMAXPROCS=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, env...)
	var out strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	t := time.NewTicker(5 * time.Second)
	defer t.Stop()
	deadline := time.After(limit)
	for {
		select {
		case err := <-done:
			return out.String(), err
		case <-t.C:
			beat()
		case <-deadline:
			cmd.Process.Kill()
			<-done
			return out.String(), fmt.Errorf("mc: %s did not finish", name)
		}
	}
}
