package main

// C23: concurrent path building. The packages of the repository are
// instrumented: a scheduling point before every statement and at every lock
// operation. All schedules of two or three threads within a preemption bound
// are executed on the real code; the race detector watches each of them
// (the scheduler's own hand-overs are hidden from it), so that accesses which
// are not ordered by the code's own synchronisation are reported as well.

import (
	"fmt"
	"slices"
	"strings"

	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/gocfl/v2/zz_verif/vsync"
)

// schedules enumerates all schedules with at most bound preemptions. run
// executes one schedule; false stops the enumeration.
// The number of steps of a thread is not always the same (iteration over maps):
// if a chosen thread has ended already, the run is repeated, and finally given up.
// key (may be nil) names the state at a decision: a state is expanded once.
func schedules(bound int, key func() string, run func(choose func(en []int, last int) int) bool) (n, diverged int) {
	type point struct {
		opts []int // options in order; opts[0] costs nothing
		free bool  // every option is free (the last thread cannot run)
		i    int
	}
	var stack []*point
	again := 0
	seen := map[string]bool{}
	for {
		k, used := 0, 0
		div, pruned := false, false
		ok := run(func(en []int, last int) int {
			if !div && k < len(stack) && !slices.Contains(en, stack[k].opts[stack[k].i]) {
				div = true
			}
			if div {
				if slices.Contains(en, last) {
					return last
				}
				return en[0]
			}
			if k < len(stack) {
				p := stack[k]
				k++
				if !p.free && p.i > 0 {
					used++
				}
				return p.opts[p.i]
			}
			if key != nil && !pruned {
				st := key()
				pruned = seen[st]
				seen[st] = true
			}
			if pruned { // only to the end
				stack = append(stack, &point{opts: en[:1], free: true})
				k++
				return en[0]
			}
			p := &point{free: true}
			for _, t := range en {
				if t == last {
					p.free = false
				}
			}
			if !p.free {
				p.opts = append(p.opts, last)
				if used < bound {
					for _, t := range en {
						if t != last {
							p.opts = append(p.opts, t)
						}
					}
				}
			} else {
				p.opts = append(p.opts, en...)
			}
			stack = append(stack, p)
			k++
			return p.opts[0]
		})
		n++
		if !ok {
			return
		}
		if div {
			if again++; again < 10 {
				continue
			}
			diverged++
		}
		again = 0
		for len(stack) > 0 {
			p := stack[len(stack)-1]
			if p.i+1 < len(p.opts) {
				p.i++
				break
			}
			stack = stack[:len(stack)-1]
		}
		if len(stack) == 0 {
			return
		}
	}
}

// cScn: threads, each building paths for its identifiers.
type cScn struct {
	name  string
	exts  []*layout
	warm  []string
	ids   [][]string
	what  string // root: storage root path, content: path of a file in the object
	bound int
}

func (s *cScn) manager() (ocfl.ExtensionManager, error) {
	e := defaultEnv(nil)
	e.Root = baseExt()
	for _, l := range s.exts {
		e.Root[l.name] = l.files()
	}
	f, err := e.Factory()
	if err != nil {
		return nil, err
	}
	return f.LoadExtensions(extDisk(e.Root), nil)
}

func (s *cScn) build(m ocfl.ExtensionManager, id string) (r string) {
	err := guard(func() error {
		var p string
		var err error
		if s.what == "content" {
			p, err = m.BuildObjectManifestPath(nil, id, "content")
		} else {
			p, err = m.BuildStorageRootPath(nil, id)
		}
		r = p
		return err
	})
	if err != nil {
		if isPanic(err) {
			return "panic: " + err.Error()
		}
		return "error"
	}
	return "path " + r
}

func (s *cScn) run(c *C) {
	want := map[string]string{}
	for _, ids := range s.ids {
		for _, id := range ids {
			m, err := s.manager()
			if err != nil {
				c.Fail("configuration refused", "%v", err)
				return
			}
			want[id] = s.build(m, id)
		}
	}
	maxSteps := 0
	m, err := s.manager()
	must(err)
	n, div := schedules(s.bound, nil, func(choose func(en []int, last int) int) bool {
		// the layout is fresh in every schedule if the loading is not too expensive
		if m, err = s.manager(); err != nil {
			c.Fail("configuration refused", "%v", err)
			return false
		}
		for _, id := range s.warm {
			s.build(m, id)
		}
		races := vsync.Races()
		got := make([][]string, len(s.ids))
		var fs []func()
		for i, ids := range s.ids {
			fs = append(fs, func() {
				for _, id := range ids {
					got[i] = append(got[i], s.build(m, id))
				}
			})
		}
		var tr []byte
		dead, steps, panics := vsync.Run(fs, func(en []int, last int) int {
			x := choose(en, last)
			tr = append(tr, byte('0'+x))
			return x
		})
		maxSteps = max(maxSteps, steps)
		c.Step()
		c.Case(s.name + string(tr))
		if dead {
			c.Fail("deadlock: "+s.name, "schedule %s", tr)
			return false
		}
		for i, p := range panics {
			if p != nil {
				c.Fail("panic: "+s.name, "thread %d, schedule %s: %v", i, tr, p)
				return false
			}
		}
		if vsync.Races() > races {
			c.Fail("data race", "%s: schedule %s: accesses without synchronisation (report of the race detector on stderr)", s.name, tr)
			return false
		}
		for i, ids := range s.ids {
			for k, id := range ids {
				if got[i][k] != want[id] {
					c.Fail("other path: "+s.name, "schedule %s: thread %d, id %q: %s, alone: %s", tr, i, id, got[i][k], want[id])
					return false
				}
			}
		}
		c.State(s.name + fmt.Sprint(got, string(tr)))
		// nothing of it is left behind
		for _, ids := range s.ids {
			for _, id := range ids {
				if g := s.build(m, id); g != want[id] {
					c.Fail("other path afterwards: "+s.name, "schedule %s: id %q: %s, alone: %s", tr, id, g, want[id])
					return false
				}
			}
		}
		return true
	})
	c.Sample("%s: %d schedules of up to %d steps with at most %d preemptions (%d could not be repeated: iteration over maps)", s.name, n, maxSteps, s.bound, div)
}

func init() {
	register(&Check{Prop: "C23", Level: "model_checking",
		Rule: "a case is one schedule (sequence of thread choices at the statements and lock operations of pkg/ocfl and pkg/extension) of two or three threads; a state is a schedule with its results",
		Assume: []string{"calls into other packages (hash functions, regular expressions) are atomic in a schedule; the race detector still sees their memory accesses",
			"iteration over maps makes the number of steps of the pairtree layout vary: prefixes which cannot be repeated in ten runs are given up (counted in the samples)"},
		Run: runC23})
}

func runC23(r *Run) {
	var l []*cScn
	long := func(n int) string { return strings.Repeat("x", n) }
	dc := func(j J) *layout { return &layout{name: extension.DirectCleanName, cfg: j} }
	type cfg struct {
		l   *layout
		ids []string
	}
	ab := []string{"a", "b"}
	cfgs := []cfg{
		{flatDirect(), ab},
		{hashLayout(hid, J{}), ab},
		{hashLayout(hid, J{"digestAlgorithm": "md5", "tupleSize": 1, "numberOfTuples": 1}), []string{"ü", "b"}},
		{hashLayout(hnt, J{}), ab},
		{hashLayout(hnt, J{"digestAlgorithm": "sha512", "tupleSize": 2, "numberOfTuples": 2, "shortObjectRoot": true}), ab},
		{hashLayout(hnt, J{"digestAlgorithm": "md5", "tupleSize": 0, "numberOfTuples": 0}), ab},
		{flatOmit(J{"delimiter": ":"}), []string{"x:a", "b"}},
		{tupleOmit(J{"delimiter": ":", "tupleSize": 1, "numberOfTuples": 1, "zeroPadding": "left"}), []string{"x:a", "b"}},
		{pairtree(J{"digestAlgorithm": "sha256"}), []string{"abc", "b:d"}},
		{dc(J{}), []string{"a/b", "c"}},
		{dc(J{"utfEncode": true}), []string{"a:b", "~c"}},
		{dc(J{"maxPathSegmentLen": 4, "fallbackDigestAlgorithm": "md5", "maxPathnameLen": 200}), []string{"abcde", "fghij"}},
		{dc(J{"maxPathSegmentLen": 40, "fallbackDigestAlgorithm": "md5", "numberOfFallbackTuples": 2, "fallbackTupleSize": 2}), []string{long(41), "b"}},
		{dc(J{"maxPathnameLen": 3, "fallbackDigestAlgorithm": "md5"}), []string{"abcd", "b"}},
	}
	for i, x := range cfgs {
		nm := fmt.Sprintf("%02d %s", i, x.l.name)
		b2, b3 := Pick(r, 2, 3), Pick(r, 1, 2)
		a, b := x.ids[0], x.ids[1]
		l = append(l,
			&cScn{name: nm + " two", exts: []*layout{x.l}, ids: [][]string{{a}, {b}}, bound: b2},
			&cScn{name: nm + " two warm", exts: []*layout{x.l}, warm: []string{a}, ids: [][]string{{a}, {b}}, bound: Pick(r, 1, 2)},
			&cScn{name: nm + " same", exts: []*layout{x.l}, ids: [][]string{{a}, {a}}, bound: b2},
			&cScn{name: nm + " three", exts: []*layout{x.l}, ids: [][]string{{a}, {b}, {a + b}}, bound: b3},
			&cScn{name: nm + " twice", exts: []*layout{x.l}, ids: [][]string{{a, b}, {b, a}}, bound: b3},
		)
		if x.l.name == extension.DirectCleanName {
			l = append(l, &cScn{name: nm + " content", what: "content", exts: []*layout{x.l}, ids: [][]string{{a}, {b}}, bound: b2})
		}
	}
	l = append(l, &cScn{name: "chain 0006 0003", exts: []*layout{flatOmit(J{"delimiter": ":"}), hashLayout(hid, J{"digestAlgorithm": "md5", "tupleSize": 1, "numberOfTuples": 1})}, ids: [][]string{{"x:a"}, {"b"}}, bound: Pick(r, 2, 3)},
		&cScn{name: "no layout", ids: [][]string{{"a"}, {"b"}}, bound: 2},
		&cScn{name: "0003 long", exts: []*layout{hashLayout(hid, J{})}, ids: [][]string{{long(101)}, {long(102)}}, bound: Pick(r, 1, 2)})
	b := r.Batch()
	b.isolated = true
	for _, s := range l {
		b.Do(s.name, s.run)
	}
	b.Wait()
}
