package main

// C13: stream extensions under every schedule. The reads of the source, the
// writes of the stored file and the steps of every extension wait at gates; a
// controller waits until nothing moves any more, and decides which gate opens
// next. All decisions are enumerated, on the real code.

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"emperror.dev/errors"
	"github.com/je4/gocfl/v2/pkg/ocfl"
)

// gates of one execution
type gates struct {
	mu      sync.Mutex
	waiting map[int]chan struct{}
	what    map[int]string
	count   map[int]int
	off     bool
}

func (g *gates) pass(id int, what string) {
	g.mu.Lock()
	if g.off {
		g.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	if g.waiting[id] != nil {
		id += 100 // cannot happen: one goroutine per gate
	}
	g.waiting[id], g.what[id] = ch, what
	g.count[id]++
	g.mu.Unlock()
	<-ch
}

func (g *gates) open(id int) {
	g.mu.Lock()
	ch := g.waiting[id]
	delete(g.waiting, id)
	g.mu.Unlock()
	close(ch)
}

func (g *gates) enabled() (r []int) {
	g.mu.Lock()
	defer g.mu.Unlock()
	for i := range g.waiting {
		r = append(r, i)
	}
	sort.Ints(r)
	return r
}

// state describes how far everybody is.
func (g *gates) state() string {
	g.mu.Lock()
	defer g.mu.Unlock()
	var l []string
	for i, n := range g.count {
		w := "-"
		if g.waiting[i] != nil {
			w = g.what[i]
		}
		l = append(l, fmt.Sprintf("%d:%d%s", i, n, w))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

var stackBuf = make([]byte, 1<<18)

// quiet waits until every other goroutine is blocked (the process has one
// processor). slept: some goroutine sleeps.
func quiet() {
	t0 := time.Now()
	for i := 0; ; i++ {
		runtime.Gosched()
		if i < 3 {
			continue
		}
		st := stackBuf[:runtime.Stack(stackBuf, true)]
		busy := 0
		for len(st) > 0 {
			k := bytes.IndexByte(st, '\n')
			if k < 0 {
				break
			}
			l := st[:k]
			if bytes.HasPrefix(l, []byte("goroutine ")) && bytes.HasSuffix(l, []byte("]:")) {
				s := l[bytes.IndexByte(l, '[')+1:]
				for _, b := range []string{"running", "runnable", "sleep", "syscall", "waiting", "preempted", "copystack", "GC assist"} {
					if bytes.HasPrefix(s, []byte(b)) {
						busy++
					}
				}
			}
			st = st[k+1:]
		}
		if busy <= 1 { // this one
			return
		}
		if time.Since(t0) > 20*time.Second {
			return
		}
	}
}

const (
	gSrc = 0
	gDst = 1
	gExt = 2 // and following
)

// sBehave is what a stream extension does.
type sBehave struct {
	name  string
	read  int // bytes to read, -1: up to the end
	buf   int // size of the buffer
	fail  bool
	gated int // gate at every n-th read
}

type sCall struct {
	got      []byte
	end      error // what ended the reading
	returned bool
	files    string
	dest     string
}

// sRun is the shared state of one execution.
type sRun struct {
	g     *gates
	scn   *sScn
	mu    sync.Mutex
	calls map[int][]*sCall
}

type sExt struct {
	*hBase
	n   int
	run **sRun
}

func (x *sExt) StreamObject(_ ocfl.Object, r io.Reader, files []string, dest string) error {
	run := *x.run
	if run == nil {
		_, _ = io.Copy(io.Discard, r)
		return nil
	}
	b := run.scn.exts[x.n]
	c := &sCall{files: fmt.Sprint(files), dest: dest}
	run.mu.Lock()
	run.calls[x.n] = append(run.calls[x.n], c)
	run.mu.Unlock()
	left := b.read
	for k := 0; left != 0; k++ {
		if b.gated > 0 && k%b.gated == 0 {
			run.g.pass(gExt+x.n, "r")
		}
		p := make([]byte, b.buf)
		if left > 0 && left < len(p) {
			p = p[:left]
		}
		n, err := r.Read(p)
		c.got = append(c.got, p[:n]...)
		// the buffer belongs to the reader of the stream now
		for i := range p {
			p[i] = 0xEE
		}
		if left > 0 {
			left -= n
		}
		if err != nil {
			c.end = err
			break
		}
	}
	run.g.pass(gExt+x.n, "e")
	run.mu.Lock()
	c.returned = true
	run.mu.Unlock()
	if b.fail {
		return errors.New("extension fails")
	}
	return nil
}

// sSrc is the source: read k returns chunks[k] bytes.
type sSrc struct {
	run    *sRun
	data   []byte
	k      int
	closed bool
	info   fs.FileInfo
}

func (s *sSrc) Stat() (fs.FileInfo, error) { return s.info, nil }
func (s *sSrc) Close() error               { s.closed = true; return nil }
func (s *sSrc) Read(p []byte) (int, error) {
	scn := s.run.scn
	if scn.gate(s.k, len(s.data)) {
		s.run.g.pass(gSrc, "r")
	}
	k := s.k
	s.k++
	if scn.srcErr == k+1 {
		return 0, errors.New("source fails")
	}
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), len(s.data))
	if len(scn.chunks) > 0 {
		n = min(n, scn.chunks[k%len(scn.chunks)])
	}
	copy(p, s.data[:n])
	s.data = s.data[n:]
	if scn.eof && len(s.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

type sFS struct {
	run  *sRun
	tree Tree
}

func (f *sFS) Open(name string) (fs.File, error) {
	if d, ok := f.tree[name]; ok {
		fi, err := fs.Stat(f.tree.FS(), name)
		must(err)
		return &sSrc{run: f.run, data: []byte(d), info: fi}, nil
	}
	return f.tree.FS().Open(name)
}
func (f *sFS) ReadDir(n string) ([]fs.DirEntry, error) { return fs.ReadDir(f.tree.Disk().FS(), n) }
func (f *sFS) Stat(n string) (fs.FileInfo, error)      { return fs.Stat(f.tree.Disk().FS(), n) }

type sScn struct {
	name   string
	via    string // file reader data folder
	files  Tree
	chunks []int
	eof    bool // end of file together with the last bytes
	exts   []sBehave
	fixity []Alg
	srcErr int // number of the read that fails (1..)
	dstErr int // number of the write that fails (1..)
	coarse bool
	dedup  bool
	// all schedules; otherwise states which were expanded are not expanded again
	full  bool
	limit int
}

// gate: large files wait only at the first and at the last reads.
func (s *sScn) gate(k, left int) bool {
	return !s.coarse || k == 0 || left <= 40000
}

func (s *sScn) run(c *C) {
	var cur *sRun
	e := defaultEnv(nil)
	e.Fixity = s.fixity
	e.Obj = baseExt()
	if s.fixity != nil {
		e.Obj = baseExt(digExt)
	}
	e.Extra = map[string]func(fs.FS) (ocfl.Extension, error){}
	for i := range s.exts {
		n := fmt.Sprintf("NNNN-stream%d", i)
		e.Obj[n] = extCfg(n)
		e.Extra[n] = func(fs.FS) (ocfl.Extension, error) {
			return &sExt{hBase: &hBase{name: n}, n: i, run: &cur}, nil
		}
	}
	disk := NewDisk("o")
	must(e.Init(disk.FS()))
	var g *gates
	key := func() string { return g.state() }
	if s.full {
		key = nil
	}
	outcomes := map[string]bool{}
	maxSteps, runs := 0, 0
	nsched, div := schedules(1<<30, key, func(choose func(en []int, last int) int) bool {
		runs++
		d := disk.Clone()
		sr, f, _, err := e.Load(d.FS())
		must(err)
		o, err := e.Open(sr, f, "x")
		if err != nil {
			c.Fail("object cannot be created", "%v", err)
			return false
		}
		g = &gates{waiting: map[int]chan struct{}{}, what: map[int]string{}, count: map[int]int{}}
		run := &sRun{g: g, scn: s, calls: map[int][]*sCall{}}
		src := &sFS{run, s.files}
		vfs, err := o.StartUpdate(src, "m", "u", "a", false)
		if err != nil {
			c.Fail("update cannot be started", "%v", err)
			return false
		}
		cur = run
		writes := 0
		ingesting := true
		d.Hook = func(op Op) (int, error) {
			if !ingesting || !strings.Contains(op.Path, "/content/") || op.Kind != "write" {
				return op.Size, nil
			}
			writes++
			w := writes
			if s.gate(w-1, 1<<30) || (s.coarse && op.Size < 32768) {
				g.pass(gDst, "w")
			}
			if s.dstErr == w {
				return 0, errors.New("target fails")
			}
			return op.Size, nil
		}
		names := sortedKeys(s.files)
		var res error
		done := make(chan struct{})
		early := ""
		finished := false
		go func() {
			res = guard(func() error {
				switch s.via {
				case "file":
					for _, n := range names {
						if err := o.AddFile(src, vfs, n, s.dedup, "", false, false); err != nil {
							return err
						}
					}
					return nil
				case "reader":
					for _, n := range names {
						r, err := src.Open(n)
						must(err)
						if _, err := o.AddReader(r, []string{n}, "", false, false); err != nil {
							return err
						}
					}
					return nil
				case "data":
					for _, n := range names {
						if err := o.AddData([]byte(s.files[n]), n, s.dedup, "", false, false); err != nil {
							return err
						}
					}
					return nil
				}
				return o.AddFolder(src, vfs, s.dedup, "")
			})
			// every extension has finished
			run.mu.Lock()
			for i, l := range run.calls {
				for k, x := range l {
					if !x.returned {
						early += fmt.Sprintf("extension %d, file %d; ", i, k)
					}
				}
			}
			finished = true
			run.mu.Unlock()
			close(done)
		}()
		var tr []string
		last, steps := -1, 0
		for {
			quiet()
			en := g.enabled()
			for k := 0; k < 20 && len(en) == 0; k++ { // nothing moves: sure?
				run.mu.Lock()
				fin := finished
				run.mu.Unlock()
				if fin {
					break
				}
				time.Sleep(10 * time.Millisecond)
				quiet()
				en = g.enabled()
			}
			if len(en) == 0 {
				break
			}
			st := g.state()
			x := choose(en, last)
			last = x
			c.State(s.name + "\x00" + st)
			c.Step()
			tr = append(tr, fmt.Sprint(x, g.what[x]))
			steps++
			g.open(x)
		}
		maxSteps = max(maxSteps, steps)
		sched := strings.Join(tr, " ")
		run.mu.Lock()
		fin := finished
		run.mu.Unlock()
		if !fin {
			st := string(stackBuf[:runtime.Stack(stackBuf, true)])
			c.Fail("deadlock: "+s.via, "%s: schedule %s: nothing can move, the call did not return\n%s", s.name, sched, repoStacks(st))
			return false
		}
		<-done
		d.Hook = nil
		ingesting = false
		cur = nil
		out, ok := s.judge(c, e, run, o, d, sched, early, res, names)
		outcomes[out] = true
		c.Case(s.name + sched)
		if s.limit > 0 && runs >= s.limit {
			return false
		}
		return ok
	})
	c.Sample("%s: %d executions of up to %d steps, %d outcomes, diverged %d", s.name, nsched, maxSteps, len(outcomes), div)
}

// repoStacks: the goroutines that are in the code under test
func repoStacks(st string) string {
	var r []string
	for _, g := range strings.Split(st, "\n\n") {
		if strings.Contains(g, "/pkg/ocfl.") || strings.Contains(g, "/pkg/extension.") {
			r = append(r, g)
		}
	}
	return strings.Join(r, "\n\n")
}

func (s *sScn) judge(c *C, e *Env, run *sRun, o ocfl.Object, d *Disk, sched, early string, res error, names []string) (string, bool) {
	fail := func(sig, f string, a ...any) (string, bool) {
		c.Fail(sig+": "+s.via, "%s: schedule %s: %s", s.name, sched, fmt.Sprintf(f, a...))
		return "", false
	}
	if isPanic(res) {
		return fail("panic", "%v", res)
	}
	if early != "" {
		return fail("returned before the extensions have finished", "%s", early)
	}
	wantErr := s.srcErr > 0 || s.dstErr > 0
	for _, b := range s.exts {
		wantErr = wantErr || b.fail
	}
	if wantErr != (res != nil) {
		return fail("error", "error expected: %v, got %v", wantErr, res)
	}
	out := fmt.Sprint(res != nil)
	for i, b := range s.exts {
		l := run.calls[i]
		want := len(names)
		if wantErr {
			want = 1 // the first file failed
		}
		if len(l) != want {
			return fail("calls of an extension", "extension %d was called %d times for %d files", i, len(l), want)
		}
		for k, x := range l {
			data := s.files[names[k]]
			full := data
			if b.read >= 0 && b.read < len(full) {
				full = full[:b.read]
			}
			out += fmt.Sprintf(" %d:%d", i, len(x.got))
			if s.srcErr > 0 || s.dstErr > 0 {
				if !strings.HasPrefix(data, string(x.got)) {
					return fail("bytes", "extension %d, file %q got %s, the file is %s", i, names[k], clip(string(x.got)), clip(data))
				}
				if s.srcErr > 0 && x.end == io.EOF && b.read < 0 {
					return fail("end of an incomplete stream", "extension %d, file %q got %s and the end of the file", i, names[k], clip(string(x.got)))
				}
				continue
			}
			if string(x.got) != full {
				return fail("bytes", "extension %d, file %q got %s, the file is %s", i, names[k], clip(string(x.got)), clip(data))
			}
			if b.read < 0 && x.end != io.EOF {
				return fail("end of file", "extension %d, file %q: the stream ended with %v", i, names[k], x.end)
			}
			if want := fmt.Sprint([]string{names[k]}); x.files != want {
				return fail("names", "extension %d, file %q: called with %s", i, names[k], x.files)
			}
		}
	}
	if res != nil {
		return out, true
	}
	err := guard(func() error {
		if err := o.EndUpdate(); err != nil {
			return err
		}
		return o.Close()
	})
	if err != nil {
		return fail("update cannot be finished", "%v", err)
	}
	snap := d.Snap()
	pre := objPrefix(snap, "x")
	ro := ReadObj(snap.Sub(pre))
	if inv := ro.Invalid(); len(inv) > 0 {
		return fail("object invalid", "%v", inv)
	}
	st := stateOf(ro, "v1")
	for _, n := range names {
		if st[n] != s.files[n] {
			return fail("stored file", "%q is %s, want %s", n, clip(st[n]), clip(s.files[n]))
		}
	}
	if len(st) != len(names) {
		return fail("stored files", "%v, want %v", sortedKeys(st), names)
	}
	return out, true
}

func clip(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q... (%d bytes)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func init() {
	register(&Check{Prop: "C13", Level: "model_checking", Rule: "a state is the progress of source, target and extensions when nothing moves (reads, writes and steps done, who waits for what); a transition opens one gate; a case is one complete schedule",
		Assume: []string{"the digest runners of the utils module run freely between the gates", "a state (progress of every participant) is expanded once in the scenarios not named full: the participants only communicate through pipes"}, Run: runC13})
}

func runC13(r *Run) {
	all := sBehave{name: "all", read: -1, buf: 4, gated: 1}
	allBig := sBehave{name: "all1M", read: -1, buf: 700000, gated: 1}
	one := sBehave{name: "byte", read: -1, buf: 1, gated: 2}
	few := sBehave{name: "few", read: 2, buf: 2, gated: 1}
	never := sBehave{name: "never"}
	failNow := sBehave{name: "failNow", fail: true}
	failMid := sBehave{name: "failMid", read: 2, buf: 1, gated: 1, fail: true}
	failEnd := sBehave{name: "failEnd", read: -1, buf: 4, gated: 1, fail: true}
	bs := []sBehave{all, one, few, never, failNow, failMid, failEnd}
	big1 := strings.Repeat("0123456789abcdef", 1<<16) + "tail"
	var l []*sScn
	add := func(s sScn) {
		for _, b := range s.exts {
			s.name += " " + b.name
		}
		l = append(l, &s)
	}
	small := Tree{"f": "hello"}
	two := Tree{"f": "hello", "g": "other"}
	vias := []string{"file", "reader", "data", "folder"}
	for _, via := range vias {
		add(sScn{name: via + " none", via: via, files: two, chunks: []int{3}, full: true})
		for _, b := range bs {
			add(sScn{name: via, via: via, files: small, chunks: []int{3}, exts: []sBehave{b}})
			if !b.fail {
				add(sScn{name: via + " two files", via: via, files: two, chunks: []int{3}, exts: []sBehave{b}})
			}
		}
		for _, x := range bs {
			for _, y := range bs {
				add(sScn{name: via, via: via, files: small, chunks: []int{3}, exts: []sBehave{x, y}})
				if r.Thorough() && !x.fail && !y.fail {
					add(sScn{name: via + " two files", via: via, files: two, chunks: []int{3}, exts: []sBehave{x, y}})
				}
			}
		}
	}
	for _, via := range vias {
		for _, x := range bs {
			add(sScn{name: "full " + via, via: via, files: Tree{"f": "abc"}, chunks: []int{2}, exts: []sBehave{x}, full: true})
			for _, y := range bs {
				// every schedule, without the reduction
				if r.Thorough() || via == "file" && x.read >= 0 {
					add(sScn{name: "full " + via, via: via, files: Tree{"f": "ab"}, exts: []sBehave{x, y}, full: true})
				}
				if r.Thorough() && x.read >= 0 && y.read >= 0 {
					add(sScn{name: "full abc " + via, via: via, files: Tree{"f": "abc"}, chunks: []int{2}, exts: []sBehave{x, y}, full: true})
				}
			}
		}
	}
	var comps [][]int
	compositions(Pick(r, 3, 5), func(x []int) { comps = append(comps, append([]int{}, x...)) })
	for _, ch := range comps {
		for _, eof := range []bool{false, true} {
			for _, ex := range [][]sBehave{{all}, {one, few}} {
				for _, via := range []string{"file", "reader", "folder"} {
					add(sScn{name: fmt.Sprint(via, " chunks ", ch, eof), via: via, files: Tree{"f": "hello"[:Pick(r, 3, 5)]}, chunks: ch, eof: eof, exts: ex})
				}
			}
		}
	}
	add(sScn{name: "empty", via: "file", files: Tree{"f": ""}, exts: []sBehave{all, few, never}})
	add(sScn{name: "eof with data", via: "file", files: small, chunks: []int{3}, eof: true, exts: []sBehave{all, few}})
	add(sScn{name: "fixity", via: "file", files: small, chunks: []int{3}, fixity: []Alg{"md5", "sha256"}, exts: []sBehave{all, few}})
	add(sScn{name: "dedup", via: "file", files: Tree{"f": "hello", "g": "hello"}, chunks: []int{3}, dedup: true})
	for k := 1; k <= 3; k++ {
		for _, ex := range [][]sBehave{nil, {all}, {few}, {never}, {all, few}, {all, failMid}} {
			for _, via := range []string{"file", "reader", "folder"} {
				add(sScn{name: fmt.Sprint(via, " source fails at read ", k), via: via, files: small, chunks: []int{3}, srcErr: k, exts: ex})
			}
		}
	}
	for k := 1; k <= 2; k++ {
		for _, ex := range [][]sBehave{nil, {all}, {few}, {never}, {all, few}} {
			for _, via := range vias {
				if via == "data" && k == 2 {
					continue
				}
				add(sScn{name: fmt.Sprint(via, " target fails at write ", k), via: via, files: small, chunks: []int{3}, dstErr: k, exts: ex})
			}
		}
	}
	for _, ex := range [][]sBehave{{allBig}, {few}, {never}, {failMid}, {allBig, few}, {allBig, never}, {allBig, failNow}, {allBig, allBig}} {
		add(sScn{name: "large", via: "file", files: Tree{"f": big1}, coarse: true, exts: ex})
		add(sScn{name: "large data", via: "data", files: Tree{"f": big1}, coarse: true, exts: ex})
	}
	for _, x := range bs {
		for _, y := range bs {
			for _, z := range bs {
				if r.Thorough() || (x.name == "all" && y.read >= 0 && z.read < 0) {
					add(sScn{name: "three", via: "file", files: small, chunks: []int{3}, exts: []sBehave{x, y, z}})
				}
			}
		}
	}
	b := r.Batch()
	b.isolated = true
	for _, s := range l {
		b.Do(s.name, s.run)
	}
	b.Wait()
}
