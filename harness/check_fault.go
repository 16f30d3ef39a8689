package main

// C11: every single (thorough: every pair of) file system operation of a
// create/update fails. C12: the process stops at every point of a
// create/update.

import (
	"errors"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
	"sync"
	"time"
)

func init() {
	register(&Check{Prop: "C11", Level: "model_checking",
		Rule:   "For every scenario (prior history x update x extensions) the fault-free execution on the real code is recorded; then it is repeated with a failure injected at every single file system operation (open, read, stat, readdir, sub, create, write completely/partially, close with all, some or none of the data kept, mkdir) of source and target, as a single failure and as a failure of everything from there on; thorough adds every pair of failures. An execution that reports success must have produced exactly the tree of the fault-free execution; committed versions stay untouched.",
		Assume: []string{"file system failures appear as errors returned by the operation; failing writes may have written a prefix", "the in-memory file system behaves like the operating system's (bound by the replays of the history checks)"},
		Run:    runC11})
	register(&Check{Prop: "C12", Level: "model_checking",
		Rule:   "For every scenario the sequence of mutating file system operations of the fault-free execution is recorded; every prefix of it, with the directory creations of a file creation split and the last write torn at every enumerated byte position, and with every single unsynchronised file left empty, is a crash state. In every crash state the version directories of committed versions are unchanged and the tool's validation reports an error unless the storage is exactly in the state before or after the operation (canonical trees).",
		Assume: []string{"operations reach the disk in program order (a write may be torn; additionally the data of any one file written by the interrupted operation may be lost)", "the in-memory file system behaves like the operating system's"},
		Run:    runC12})
}

// FScn is one operation whose execution is disturbed.
type FScn struct {
	Name string
	Env  *Env
	Init bool  // the disturbed operation is the creation of the storage root
	Prep []Add // undisturbed history
	Op   Add
	src  Tree
}

func add1(id string, t Tree, m mode, area string) Add {
	return Add{ID: id, Msg: "m", User: "u", Addr: "mailto:a@b.org", Src: t.FS(), Area: area, Dedup: m.dedup, Echo: m.echo}
}

func faultScns(r *Run) []*FScn {
	D, N, E := mode{true, false}, mode{false, false}, mode{true, true}
	base := env11("p", fixAlgs("md5"), digExt)
	sub := env11("p", nil, contentExt("content", "data", "meta", "metadata"))
	def := defaultEnv(fixAlgs("sha256"))
	two := Tree{"a": "X", "d/b": "YY"}
	v1 := func(a string) []Add { return []Add{add1("o1", two, D, a)} }
	s := []*FScn{
		{Name: "init", Env: def, Init: true},
		{Name: "create", Env: base, Op: add1("o1", nil, D, ""), src: two},
		{Name: "create-nodedup", Env: base, Op: add1("o1", nil, N, ""), src: Tree{"a": "X", "b": "X"}},
		{Name: "update", Env: base, Prep: v1(""), Op: add1("o1", nil, D, ""), src: Tree{"a": "Z", "c": "X", "d/b": "YY"}},
		{Name: "update-echo", Env: base, Prep: v1(""), Op: add1("o1", nil, E, ""), src: Tree{"a": "Z", "e/f": "N"}},
		{Name: "update-noop", Env: base, Prep: v1(""), Op: add1("o1", nil, D, ""), src: two},
		{Name: "update-v3", Env: base, Prep: append(v1(""), add1("o1", Tree{"a": "Z"}, D, "")), Op: add1("o1", nil, N, ""), src: Tree{"a": "Q"}},
		{Name: "other", Env: base, Prep: v1(""), Op: add1("o2", nil, D, ""), src: two},
		{Name: "subpath-create", Env: sub, Op: add1("o1", nil, D, "meta"), src: Tree{"a": "X"}},
		{Name: "subpath-update", Env: sub, Prep: v1("content"), Op: add1("o1", nil, E, "content"), src: Tree{"a": "Z"}},
		{Name: "default-create", Env: def, Op: add1("info:x", nil, D, ""), src: Tree{"a": "X"}},
		{Name: "default-update", Env: def, Prep: []Add{add1("info:x", two, D, "")}, Op: add1("info:x", nil, D, ""), src: Tree{"a": "Z"}},
		{Name: "big", Env: base, Op: add1("o1", nil, D, ""), src: Tree{"a": big}},
	}
	return s
}

// prepare runs the undisturbed part.
func (s *FScn) prepare() (*Disk, error) {
	d := NewDisk("root")
	if s.Init {
		return d, nil
	}
	if err := s.Env.Init(d.FS()); err != nil {
		return nil, err
	}
	for _, a := range s.Prep {
		if _, err := s.Env.Do(d.FS(), a); err != nil {
			return nil, err
		}
	}
	return d, nil
}

func (s *FScn) run(fsys, src fs.FS) error {
	return guard(func() error {
		if s.Init {
			return s.Env.Init(fsys)
		}
		a := s.Op
		a.Src = src
		_, err := s.Env.Do(fsys, a)
		return err
	})
}

// exec runs the disturbed operation with hooks on both disks.
func (s *FScn) exec(root *Disk, hook func(Op) (int, error)) (err error, hang bool) {
	src := s.src.Disk()
	src.Hook, root.Hook = hook, hook
	done := make(chan error, 1)
	go func() {
		done <- s.run(root.FS(), srcFS{src.FS()})
	}()
	select {
	case err = <-done:
	case <-time.After(40 * time.Second):
		hang = true
	}
	src.Hook = nil
	root.mu.Lock()
	root.Hook = nil
	root.mu.Unlock()
	return
}

var errFault = errors.New("injected input/output error")

// faultPoint identifies an operation of the execution.
type faultPoint struct {
	key  string // kind, file system, path
	n    int    // occurrence
	part int    // bytes which reach the file (writes, closing)
}

func (f faultPoint) String() string { return fmt.Sprintf("%s#%d/%d", f.key, f.n, f.part) }

func opKey(o Op) string { return o.FS + ":" + o.Kind + ":" + o.Path }

func (s *FScn) points() (root *Disk, after Snap, pts []faultPoint, mut []string, err error) {
	root, err = s.prepare()
	if err != nil {
		return
	}
	d := root.Clone()
	var mu sync.Mutex
	cnt := map[string]int{}
	e, hang := s.exec(d, func(o Op) (int, error) {
		mu.Lock()
		defer mu.Unlock()
		k := opKey(o)
		pts = append(pts, faultPoint{k, cnt[k], 0})
		if (o.Kind == "write" || o.Kind == "wclose") && o.Size > 1 {
			pts = append(pts, faultPoint{k, cnt[k], o.Size / 2})
		}
		if o.Kind == "wclose" && o.Size > 0 {
			pts = append(pts, faultPoint{k, cnt[k], o.Size}) // nothing is lost
		}
		cnt[k]++
		return o.Size, nil
	})
	if hang {
		e = errors.New("hang")
	}
	return root, d.Snap(), pts, mut, e
}

func runC11(r *Run) {
	total := 0
	b := r.Batch()
	for _, s := range faultScns(r) {
		s := s
		root, after, pts, _, err := s.points()
		if err != nil {
			b.Do(s.Name, func(c *C) { c.Fail("fault-free execution fails", "%s: %v", s.Name, err) })
			continue
		}
		want := canon(after)
		before := root.Snap()
		b.Do(s.Name+"|os", func(c *C) {
			// the undisturbed execution on the operating system's file system
			onOS(before, func(fsys fs.FS, dir string) {
				err := s.run(fsys, s.src.FS())
				if err != nil {
					c.Fail("os result", "%s fails on the real file system: %v", s.Name, err)
				} else if got := osSnap(dir); canon(got) != want {
					c.Fail("os tree", "%s: tree on the real file system differs from the one in memory: %s", s.Name, after.Diff(got))
				} else {
					c.Trace()
				}
			})
		})
		total += len(pts)
		one := func(name string, pts []faultPoint, sticky bool) {
			b.Do(s.Name+"|"+name, func(c *C) {
				d := root.Clone()
				cnt := map[string]int{}
				var mu sync.Mutex
				fired := 0
				err, hang := s.exec(d, func(o Op) (int, error) {
					mu.Lock()
					defer mu.Unlock()
					k := opKey(o)
					n := cnt[k]
					cnt[k]++
					if sticky && fired > 0 {
						return 0, errFault
					}
					for _, p := range pts {
						if p.key == k && p.n == n {
							fired++
							return p.part, errFault
						}
					}
					return o.Size, nil
				})
				c.Step()
				s.judgeFault(c, pts, fired, err, hang, before, d, want)
			})
		}
		for i, p := range pts {
			one(p.String(), []faultPoint{p}, false)
			if p.part == 0 {
				one(p.String()+"+", []faultPoint{p}, true)
			}
			if r.Thorough() && len(pts) < 400 {
				for _, q := range pts[i+1:] {
					one(p.String()+"&"+q.String(), []faultPoint{p, q}, false)
				}
			}
		}
	}
	b.Wait()
	r.Extra("fault_points", total)
}

func (s *FScn) judgeFault(c *C, pts []faultPoint, fired int, err error, hang bool, before Snap, d *Disk, want string) {
	if hang {
		c.Fail("hang: "+s.faultSig(pts), "%s does not return when %v fails", s.Name, pts)
		return
	}
	after := d.Snap()
	c.State(s.Name + canon(after))
	c.Sample("%s -> %v", c.Task, err)
	if isPanic(err) {
		c.Fail("panic: "+s.faultSig(pts), "%s panics when %v fails: %v\n%s", s.Name, pts, err, err.(*PanicError).Stack)
		return
	}
	if esc := d.Escaped(); len(esc) > 0 {
		c.Fail("escape", "files outside the storage root: %q", esc)
	}
	versionsIntact(c, before, after, fmt.Sprintf("%s with failing %v", s.Name, pts))
	if fired == 0 {
		return
	}
	if err == nil && canon(after) != want {
		c.Fail("success in spite of a failure: "+s.faultSig(pts), "%s reports success although %v failed; the result differs from the undisturbed one", s.Name, pts)
	}
}

// faultSig is the failing operation without names of the scenario.
func (s *FScn) faultSig(pts []faultPoint) string {
	var r []string
	for _, p := range pts {
		f := strings.SplitN(p.key, ":", 3)
		r = append(r, f[0]+" "+f[1]+" "+path.Base(f[2]))
	}
	return strings.Join(r, " + ")
}

// versionsIntact: the version directories of committed versions are unchanged.
func versionsIntact(c *C, before, after Snap, what string) {
	for p := range findObjs(before) {
		bo := ReadObj(before.Sub(p))
		if bo.Inv == nil {
			continue
		}
		as := after.Sub(p)
		for _, v := range bo.Vers {
			if d := before.Sub(p + v + "/").Diff(as.Sub(v + "/")); d != "" {
				c.Fail("committed version changed", "%s%s after %s: %s", p, v, what, d)
			}
		}
	}
}

// ------------------------------------------------------------------- C12

func runC12(r *Run) {
	total := 0
	for _, s := range faultScns(r) {
		s := s
		if s.Init {
			continue // the property is about objects
		}
		b := r.Batch()
		root, err := s.prepare()
		var log []LogEntry
		var after Snap
		if err == nil {
			d := root.Clone()
			d.Log = &log
			var hang bool
			err, hang = s.exec(d, nil)
			if hang {
				err = errors.New("hang")
			}
			after = d.Snap()
		}
		if err != nil {
			b.Do(s.Name, func(c *C) { c.Fail("fault-free execution fails", "%s: %v", s.Name, err) })
			b.Wait()
			continue
		}
		before := root.Snap()
		cb, ca := canon(before), canon(after)
		st := func(name string, build func() *Disk) {
			total++
			b.Do(s.Name+"|"+name, func(c *C) {
				d := build()
				s.judgeCrash(c, d, before, after, cb, ca)
			})
		}
		upto := func(n int) *Disk {
			d := root.Clone()
			for _, e := range log[:n] {
				d.Apply(e, -1)
			}
			return d
		}
		for n := 0; n <= len(log); n++ {
			n := n
			st(fmt.Sprint(n), func() *Disk { return upto(n) })
			if n == len(log) {
				continue
			}
			e := log[n]
			switch e.Kind {
			case "create":
				// the directories of the new file are created one by one
				segs := split(e.Path)
				for k := 2; k < len(segs); k++ {
					k := k
					p := "/" + strings.Join(segs[:k], "/")
					if dd := upto(n); func() bool { _, err := dd.lookup(p); return err != nil }() {
						st(fmt.Sprintf("%d/%d", n, k), func() *Disk { d := upto(n); d.mkdirAll(p); return d })
					}
				}
			case "write":
				for _, k := range tears(r, len(e.Data)) {
					k := k
					st(fmt.Sprintf("%d@%d", n, k), func() *Disk { d := upto(n); d.Apply(e, k); return d })
				}
			}
			// the data of one file was not written back before the crash
			if r.Thorough() || n%4 == 0 || n == len(log)-1 {
				seen := map[string]bool{}
				for _, w := range log[:n] {
					if w.Kind != "write" || seen[w.Path] || len(w.Data) == 0 {
						continue
					}
					seen[w.Path] = true
					p := w.Path
					st(fmt.Sprintf("%d-lost:%s", n, p), func() *Disk {
						d := root.Clone()
						for _, e := range log[:n] {
							if e.Kind == "write" && e.Path == p {
								continue
							}
							d.Apply(e, -1)
						}
						return d
					})
				}
			}
		}
		b.Wait()
	}
	r.Extra("crash_points", total)
}

func tears(r *Run, n int) []int {
	var l []int
	if n <= Pick(r, 80, 6000) {
		for k := 1; k < n; k++ {
			l = append(l, k)
		}
		return l
	}
	m := map[int]bool{1: true, n / 3: true, n / 2: true, n - 2: true, n - 1: true}
	for k := range m {
		if k > 0 && k < n {
			l = append(l, k)
		}
	}
	sort.Ints(l)
	return l
}

func (s *FScn) judgeCrash(c *C, d *Disk, before, after Snap, cb, ca string) {
	snap := d.Snap()
	cs := canon(snap)
	c.State(s.Name + cs)
	versionsIntact(c, before, snap, s.Name)
	es, _, err := s.Env.Validate(d.FS())
	c.Step()
	c.Sample("%s -> %v %d errors", c.Task, err, len(es))
	if !strings.Contains(c.Task, "@") && !strings.Contains(c.Task, "lost") {
		// the same state on the operating system's file system
		onOS(snap, func(fsys fs.FS, dir string) {
			os, _, oerr := s.Env.Validate(fsys)
			if (err == nil) != (oerr == nil) || codes(es) != codes(os) {
				c.Fail("os result", "validation on the real file system: %v %v, in memory: %v %v", oerr, os, err, es)
			} else {
				c.Trace()
			}
		})
	}
	if isPanic(err) {
		c.Fail("validation panics after a crash", "%v\n%s", err, err.(*PanicError).Stack)
		return
	}
	if err != nil || len(es) > 0 {
		return
	}
	if exactly(snap, before, cs, cb) || exactly(snap, after, cs, ca) {
		return
	}
	diff := before.Diff(snap)
	if len(after.Diff(snap)) < len(diff) {
		diff = after.Diff(snap)
	}
	c.Fail("crash unnoticed: "+crashSig(before, after, snap), "%s: the storage is neither in the state before nor after the operation, but validates; differences to the nearer one: %s", c.Task, diff)
}

// exactly compares canonically, and sidecars (which canon ignores) by the
// inventories they belong to.
func exactly(s, t Snap, cs, ct string) bool {
	if cs != ct {
		return false
	}
	for k, v := range s {
		if i := strings.Index(k, "inventory.json."); i >= 0 {
			if refDigest(k[i+len("inventory.json."):], s[k[:i]+"inventory.json"])+" inventory.json" != v {
				return false
			}
		}
	}
	_ = t
	return true
}

// crashSig names the files in which the state differs from before and after.
func crashSig(before, after, s Snap) string {
	m := map[string]bool{}
	for k := range after {
		if v, ok := s[k]; !ok || v != after[k] {
			m[path.Base(k)] = true
		}
	}
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	if len(l) > 4 {
		l = append(l[:4], "...")
	}
	return strings.Join(l, ",")
}

func codes(l []string) string {
	var r []string
	for _, x := range l {
		r = append(r, x[:4])
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}
