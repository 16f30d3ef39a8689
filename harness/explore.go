package main

// The exploration engine: deterministic enumeration of scenarios, executed in
// parallel on the real code; canonical states, transitions and violations are
// collected; violations are confirmed by re-execution.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Violation struct {
	Sig    string `json:"sig"`    // stable identity of what fails (known findings match on it)
	Detail string `json:"detail"` // free text
	Task   string `json:"task"`
}

// C collects what one task observed.
type C struct {
	Task   string
	run    *Run
	viol   []Violation
	states []uint64
	trans  int
	evals  int
	keys   []uint64
	traces int
	sample []string
	out    any
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// State records a reached (canonicalised) state.
func (c *C) State(s string) uint64 {
	h := hash64(s)
	c.states = append(c.states, h)
	return h
}

// Step counts a transition: one operation executed on the real code.
func (c *C) Step() { c.trans++ }

// Case counts one evaluated case; key identifies it for distinctness, ""
// marks a trivial one.
func (c *C) Case(key string) {
	c.evals++
	if key != "" {
		c.keys = append(c.keys, hash64(key))
	}
}

// Trace counts a trace replayed on the operating system's file system.
func (c *C) Trace() { c.traces++ }
func (c *C) Sample(f string, a ...any) {
	if len(c.sample) < 3 {
		c.sample = append(c.sample, fmt.Sprintf(f, a...))
	}
}
func (c *C) Fail(sig, f string, a ...any) {
	if len(c.viol) < 50 {
		d := fmt.Sprintf(f, a...)
		if len(d) > 3000 {
			d = d[:3000] + "..."
		}
		d = unrandom(d)
		c.viol = append(c.viol, Violation{Sig: unrandom(sig), Detail: d, Task: c.Task})
	}
}

type Run struct {
	Prop, Tier string
	worker     bool
	Target     string // replay: only this task (and tasks that are a prefix of it)
	Budget     time.Duration
	t0         time.Time
	mu         sync.Mutex
	states     map[uint64]struct{}
	keys       map[uint64]struct{}
	trans      int
	evals      int
	traces     int
	tasks      int
	samples    []string
	viol       map[string]Violation
	violN      map[string]int
	skipped    int
	flaky      []Violation
	confirmed  map[string]bool
	first      time.Time
	extra      map[string]any
	Known      map[string]string
	prog       *os.File
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier, t in the thorough tier.
func Pick[T any](r *Run, q, t T) T {
	if r.Thorough() {
		return t
	}
	return q
}

type task struct {
	id string
	f  func(c *C)
}

// Batch is a set of tasks executed in parallel.
type Batch struct {
	r *Run
	t []task
	// each task runs in a process of its own
	isolated bool
}

func (r *Run) Batch() *Batch { return &Batch{r: r} }
func (b *Batch) Do(id string, f func(c *C)) {
	if b.r.Target != "" && b.r.Target != id && !strings.HasPrefix(b.r.Target, id+"|") {
		return
	}
	b.t = append(b.t, task{id, f})
}

// the exploration goes on for a while after the first confirmed violation
var afterViolation = func() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("VERIF_AFTER")); err == nil {
		return d
	}
	return 20 * time.Second
}()

const hangAfter = 150 * time.Second

// Wait runs all tasks and returns their results in order (nil for skipped).
func (b *Batch) Wait() []*C {
	res := make([]*C, len(b.t))
	if b.isolated && b.r.worker {
		for _, t := range b.t {
			if t.id == b.r.Target {
				b.r.report(t)
			}
		}
		return res
	}
	var next int64 = -1
	var wg sync.WaitGroup
	n := runtime.GOMAXPROCS(0)
	if n > len(b.t) {
		n = len(b.t)
	}
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(b.t) {
					return
				}
				b.r.mu.Lock()
				over := time.Since(b.r.t0) > b.r.Budget || !b.r.first.IsZero() && time.Since(b.r.first) > afterViolation
				b.r.mu.Unlock()
				if over {
					b.r.mu.Lock()
					b.r.skipped++
					b.r.mu.Unlock()
					continue
				}
				res[i] = b.r.exec(w, b.t[i], b.isolated)
			}
		}(w)
	}
	wg.Wait()
	for _, c := range res {
		if c != nil {
			b.r.merge(c)
		}
	}
	b.t = nil
	return res
}

func (r *Run) mark(w int, id string) {
	if r.prog == nil {
		return
	}
	if len(id) > 1000 {
		id = id[:1000]
	}
	r.prog.WriteAt([]byte(id+strings.Repeat(" ", 1023-len(id))+"\n"), int64(w)*1024)
}

func (r *Run) exec(w int, t task, isolated bool) *C {
	r.mark(w, t.id)
	once := r.once
	if isolated {
		once = r.spawn
	}
	c := once(t)
	if len(c.viol) == 0 {
		r.mark(w, "")
		return c
	}
	// confirm by re-execution, once per signature
	seen := map[string]bool{}
	todo := 0
	r.mu.Lock()
	for _, v := range c.viol {
		if r.confirmed[v.Sig] {
			seen[v.Sig] = true
		} else {
			todo++
		}
	}
	r.mu.Unlock()
	if todo == 0 {
		r.mark(w, "")
		return c
	}
	n0 := len(seen)
	for k := 0; k < 20 && len(seen) < len(c.viol); k++ {
		d := once(t)
		for _, v := range d.viol {
			seen[v.Sig] = true
		}
		if k >= 3 && len(seen) > n0 {
			break
		}
	}
	var keep []Violation
	for _, v := range c.viol {
		if seen[v.Sig] {
			keep = append(keep, v)
			r.mu.Lock()
			r.confirmed[v.Sig] = true
			if _, ok := r.Known[v.Sig]; !ok && r.first.IsZero() {
				r.first = time.Now()
			}
			r.mu.Unlock()
		} else {
			r.mu.Lock()
			r.flaky = append(r.flaky, v)
			r.mu.Unlock()
		}
	}
	c.viol = keep
	r.mark(w, "")
	return c
}

// once executes a task; a panic outside guarded calls or a hang is a
// violation too.
func (r *Run) once(t task) *C {
	done := make(chan *C, 1)
	go func() {
		c := &C{Task: t.id, run: r}
		defer func() {
			if x := recover(); x != nil {
				buf := make([]byte, 16384)
				st := string(buf[:runtime.Stack(buf, false)])
				at := frame(st)
				if at == "" {
					fmt.Fprintf(os.Stderr, "harness panic in %s: %v\n%s\n", t.id, x, st)
					os.Exit(3)
				}
				c.Fail("panic at "+at, "panic: %v\n%s", x, st)
			}
			done <- c
		}()
		t.f(c)
	}()
	select {
	case c := <-done:
		return c
	case <-time.After(hangAfter):
		buf := make([]byte, 1<<20)
		st := string(buf[:runtime.Stack(buf, true)])
		c := &C{Task: t.id, run: r}
		c.Fail("hang", "execution did not finish within %v\n%s", hangAfter, st)
		return c
	}
}

// remote is what a worker process tells.
type remote struct {
	Viol         []Violation
	States, Keys []uint64
	Trans, Evals int
	Traces       int
	Sample       []string
}

// report runs the task in the worker process and writes what it observed.
func (r *Run) report(t task) {
	c := r.once(t)
	f := os.NewFile(3, "report")
	json.NewEncoder(f).Encode(remote{c.viol, c.states, c.keys, c.trans, c.evals, c.traces, c.sample})
	f.Close()
	os.Exit(0)
}

// spawn runs a task in a process of its own.
func (r *Run) spawn(t task) *C {
	c := &C{Task: t.id, run: r}
	pr, pw, err := os.Pipe()
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	bin := os.Getenv("VH_WORKERBIN") // e.g. built with the race detector
	if bin == "" {
		bin = os.Args[0]
	}
	cmd := exec.Command(bin, r.Prop, r.Tier, "--task", t.id)
	cmd.Env = append(os.Environ(), "VH_WORKER=1", "GOMAXPROCS=1", "VH_PROGRESS=")
	cmd.ExtraFiles = []*os.File{pw}
	var eb bytes.Buffer
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	pw.Close()
	var x remote
	derr := json.NewDecoder(pr).Decode(&x)
	pr.Close()
	err = cmd.Wait()
	if derr == nil {
		c.viol, c.states, c.keys, c.trans, c.evals, c.traces, c.sample = x.Viol, x.States, x.Keys, x.Trans, x.Evals, x.Traces, x.Sample
		for i := range c.viol {
			if j := strings.Index(eb.String(), "WARNING: DATA RACE"); j >= 0 && strings.HasSuffix(c.viol[i].Sig, "data race") {
				c.viol[i].Detail += "\n" + fmt.Sprintf("%.2500s", eb.String()[j:])
			}
		}
		return c
	}
	at, tr := crash(eb.String())
	if at == "" {
		fmt.Fprintf(os.Stderr, "harness: worker for %s: %v %v\n%.4000s\n", t.id, err, derr, eb.String())
		os.Exit(3)
	}
	c.Fail("process crash at "+at, "%s", tr)
	return c
}

// crash finds the frame of the code under test in the output of a process
// that panicked.
func crash(s string) (at, tr string) {
	i := strings.Index(s, "panic: ")
	if i < 0 {
		i = strings.Index(s, "fatal error: ")
	}
	if i < 0 {
		return "", ""
	}
	tr = s[i:]
	if strings.Contains(tr, "out of memory") {
		return "", ""
	}
	if j := strings.Index(tr, "\n\ngoroutine "); j > 0 {
		if k := strings.Index(tr[j+2:], "\n\n"); k > 0 {
			tr = tr[:j+2+k]
		}
	}
	at = frame(tr)
	if at == "" && !strings.Contains(tr, "zz_verif/vh/") {
		at = "unknown place"
	}
	return at, tr
}

// frame returns the first frame of the repository's packages in a stack.
func frame(st string) string {
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if (strings.Contains(l, "gocfl/v2/pkg/") || strings.Contains(l, "/repo/pkg/") || strings.Contains(l, "/pkg/ocfl/") || strings.Contains(l, "/pkg/extension/")) && strings.Contains(l, ".go:") {
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			return filepath.Base(filepath.Dir(l)) + "/" + filepath.Base(l)
		}
	}
	return ""
}

func (r *Run) merge(c *C) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.tasks++
	for _, s := range c.states {
		r.states[s] = struct{}{}
	}
	for _, s := range c.keys {
		if len(r.keys) >= 40_000_000 {
			break // a lower bound is enough, memory is not unlimited
		}
		r.keys[s] = struct{}{}
	}
	r.trans += c.trans
	r.evals += c.evals
	r.traces += c.traces
	if len(r.samples) < 6 {
		r.samples = append(r.samples, c.sample...)
	}
	for _, v := range c.viol {
		r.violN[v.Sig]++
		if o, ok := r.viol[v.Sig]; !ok || len(v.Task) < len(o.Task) || (len(v.Task) == len(o.Task) && v.Task < o.Task) {
			r.viol[v.Sig] = v
		}
	}
}

// BFS explores operation histories breadth first. A node is identified by its
// trace; expand executes it (re-running from the node's state) and returns the
// successor nodes; nodes whose Key was seen before are not expanded again.
type Node struct {
	Trace string
	Key   uint64
	Data  any
}

func (r *Run) BFS(name string, roots []*Node, depth int, expand func(n *Node) []Succ) {
	seen := map[uint64]bool{}
	level := roots
	for d := 0; d < depth && len(level) > 0; d++ {
		b := r.Batch()
		for _, n := range level {
			for _, s := range expand(n) {
				b.Do(n.Trace+"|"+s.Name, s.Run)
			}
		}
		res := b.Wait()
		level = nil
		for _, c := range res {
			if c == nil || c.out == nil {
				continue
			}
			n := c.out.(*Node)
			if seen[n.Key] {
				continue
			}
			seen[n.Key] = true
			n.Trace = c.Task
			level = append(level, n)
		}
	}
}

// Succ is one enabled transition; Run executes it and sets c.out to the
// successor node (or leaves it nil to stop there).
type Succ struct {
	Name string
	Run  func(c *C)
}

type Check struct {
	Prop      string
	Level     string
	Rule      string
	Assume    []string
	Run       func(r *Run)
	QBudget   time.Duration
	Unlimited bool
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.Prop] = c }

func (r *Run) Extra(k string, v any) {
	r.mu.Lock()
	r.extra[k] = v
	r.mu.Unlock()
}

func verifDir() string {
	if v := os.Getenv("VERIF_DIR"); v != "" {
		return v
	}
	return "/verif"
}

func loadKnown(prop string) map[string]string {
	k := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var e struct{ Property, Sig, What string }
		if json.Unmarshal([]byte(l), &e) == nil && e.Property == prop {
			k[e.Sig] = e.What
		}
	}
	return k
}

func (r *Run) finish(ck *Check, out *os.File) int {
	var sigs []string
	for s := range r.viol {
		sigs = append(sigs, s)
	}
	sort.Slice(sigs, func(i, j int) bool {
		a, b := r.viol[sigs[i]], r.viol[sigs[j]]
		if len(a.Task) != len(b.Task) {
			return len(a.Task) < len(b.Task)
		}
		return sigs[i] < sigs[j]
	})
	unk := 0
	dir := filepath.Join(verifDir(), "build", "replay")
	os.MkdirAll(dir, 0o755)
	for _, s := range sigs {
		v := r.viol[s]
		if w, ok := r.Known[s]; ok {
			fmt.Fprintf(out, "KNOWN-FINDING: property=%s %s\n", r.Prop, w)
			continue
		}
		unk++
		if unk > 5 && os.Getenv("VH_ALL") == "" {
			continue
		}
		p := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", r.Prop, hash64(s+v.Task)))
		b, _ := json.MarshalIndent(map[string]any{"property": r.Prop, "tier": r.Tier, "task": v.Task, "sig": v.Sig, "detail": v.Detail, "count": r.violN[s],
			"replay": fmt.Sprintf("cd %s && ./run.sh %s %s --replay %s", verifDir(), r.Prop, r.Tier, p)}, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", r.Prop, p)
		d := v.Detail
		if len(d) > 1200 {
			d = d[:1200] + "..."
		}
		fmt.Fprintf(out, "  %s (in %d executions)\n  first: %s\n  %s\n", s, r.violN[s], v.Task, strings.ReplaceAll(d, "\n", "\n  "))
	}
	if unk > 5 {
		fmt.Fprintf(out, "  ... %d violation signatures in total\n", unk)
	}
	for i, v := range r.flaky {
		if i < 5 {
			fmt.Fprintf(out, "NOTE: not reproduced in 20 re-executions, not reported: %s %s: %.300s\n", v.Task, v.Sig, v.Detail)
		}
	}
	cov := map[string]any{"states": len(r.states), "transitions": r.trans, "traces_validated_against_impl": r.traces,
		"scenarios": r.tasks, "exhaustive": r.skipped == 0, "scenarios_skipped_by_time_budget": r.skipped, "samples": r.samples, "rule": ck.Rule,
		"known_findings_seen": len(sigs) - unk, "unreproduced": len(r.flaky)}
	if r.evals > 0 || ck.Level != "model_checking" {
		cov["evaluations"] = r.evals
		cov["distinct_nontrivial"] = len(r.keys)
	}
	if len(r.samples) == 0 {
		cov["samples"] = []string{}
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	as := ck.Assume
	if as == nil {
		as = []string{}
	}
	ev := map[string]any{"property": r.Prop, "tier": r.Tier, "seed": seed(), "level": ck.Level, "coverage": cov, "assumptions": as,
		"wall_s": time.Since(r.t0).Seconds(), "violations": unk}
	if r.Target == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verifDir(), "evidence", r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(out, err)
			return 3
		}
	}
	fmt.Fprintf(out, "%s %s: scenarios=%d states=%d transitions=%d evaluations=%d distinct=%d traces=%d skipped=%d violations=%d known=%d wall=%.1fs\n",
		r.Prop, r.Tier, r.tasks, len(r.states), r.trans, r.evals, len(r.keys), r.traces, r.skipped, unk, len(sigs)-unk, time.Since(r.t0).Seconds())
	if unk > 0 {
		return 1
	}
	return 0
}

func seed() int {
	n := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}
