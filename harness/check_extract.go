package main

// C14: extraction delivers exactly the version or fails. C21: areas.

import (
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
	"sync"
	"time"
)

func init() {
	register(&Check{Prop: "C14", Level: "model_checking", Run: runC14,
		Rule:   "(a) every valid object of the writer's space, every version selector, with and without manifest; (b) every change of the validation catalogue: extraction fails or delivers exactly the recorded names with contents of the recorded digests; (c) every file system operation of an extraction fails (completely, partially, from there on; thorough: pairs); nothing is written outside of the target",
		Assume: []string{"the target folder is empty, as the extract command demands", "file system failures appear as errors of the operation"}})
	register(&Check{Prop: "C21", Level: "model_checking", Run: runC21,
		Rule:   "every sequence of updates of the areas of every configuration, with every tree and mode; after each update the state, the place of the content, the extraction of every area and version and the refusal of unknown areas are compared with a model",
		Assume: []string{"area paths are not nested in each other"}})
}

// lenientState is what an extraction of version v has to deliver if it
// succeeds: logical path -> digest (lower case). ok is false if that is undefined.
func lenientState(o Snap, v string) (st map[string]string, alg string, ok bool) {
	j, err := parseJE(o["inventory.json"])
	if err != nil || dupJSON([]byte(o["inventory.json"])) != "" {
		return
	}
	for k := range j { // Go's decoder ignores the case of keys
		for _, s := range []string{"id", "type", "digestAlgorithm", "head", "contentDirectory", "manifest", "versions", "fixity"} {
			if k != s && strings.EqualFold(k, s) {
				return
			}
		}
	}
	alg, _ = j["digestAlgorithm"].(string)
	if v == "" || v == "latest" {
		v, _ = j["head"].(string)
	}
	vs, _ := j["versions"].(J)
	vb, _ := vs[v].(J)
	s, _ := vb["state"].(J)
	if s == nil || refHash(alg) == nil {
		return
	}
	st = map[string]string{}
	for d, l := range s {
		l, isl := l.([]any)
		if !isl {
			return
		}
		for _, p := range l {
			p, iss := p.(string)
			if !iss {
				return
			}
			if x, dup := st[p]; dup && x != strings.ToLower(d) {
				return
			}
			st[p] = strings.ToLower(d)
		}
	}
	return st, alg, true
}

// checkManifest compares the manifest file with the extracted files.
func checkManifest(c *C, what, alg string, got Tree) {
	name := "manifest." + alg
	m, ok := got[name]
	if !ok {
		c.Fail("no manifest", "%s: files %v", what, sortedKeys(got))
		return
	}
	var want []string
	lf := false
	for p, d := range got {
		if p != name {
			want = append(want, refDigest(alg, d)+" "+p)
			lf = lf || strings.Contains(p, "\n")
		}
	}
	if lf { // no lines
		n := 0
		for _, w := range want {
			n += len(w) + 1
			d, p, _ := strings.Cut(w, " ")
			if !strings.Contains(m, d+" "+p+"\n") && !strings.Contains(m, strings.ToUpper(d)+" "+p+"\n") {
				c.Fail("wrong manifest", "%s: manifest %.400q, files %v", what, m, sortedKeys(got))
				return
			}
		}
		if n != len(m) {
			c.Fail("wrong manifest", "%s: manifest %.400q, files %v", what, m, sortedKeys(got))
		}
		return
	}
	sort.Strings(want)
	var lines []string
	for _, l := range strings.SplitAfter(m, "\n") {
		if l == "" {
			continue
		}
		d, p, _ := strings.Cut(strings.TrimSuffix(l, "\n"), " ")
		lines = append(lines, strings.ToLower(d)+" "+p)
	}
	sort.Strings(lines)
	if strings.Join(lines, "\n") != strings.Join(want, "\n") {
		c.Fail("wrong manifest", "%s: manifest %.400q, files %v", what, m, sortedKeys(got))
	}
}

func runC14(r *Run) {
	initValRoot()
	e := valEnv()
	// extract into a fresh target; reports what must never happen
	ex := func(c *C, root *Disk, what, p, id, ver string, man bool, area string) (Tree, error) {
		before := root.Snap()
		t := NewDisk("t")
		err := e.Extract(root.FS(), t.FS(), p, id, ver, man, area)
		c.Step()
		if isPanic(err) {
			_, at, _ := strings.Cut(err.Error(), " at ")
			c.Fail("panic at "+at, "%s: %s", what, short(err))
		}
		if x := t.Escaped(); len(x) > 0 {
			c.Fail("written outside of the target", "%s: %q", what, x)
		}
		if x := before.Diff(root.Snap()); x != "" {
			c.Fail("extraction changed the storage root", "%s: %s", what, x)
		}
		return Tree(t.Snap().OnlyFiles()), err
	}
	// (a) valid objects
	dims := validDims()
	alts := make([]int, len(dims))
	for i, d := range dims {
		alts[i] = len(d.alts)
	}
	b := r.Batch()
	for hi, h := range validHistories() {
		k := Pick(r, 1, 2)
		if len(h.h) > 20 || hi > 4 && !r.Thorough() {
			k = 0
		}
		combos(alts, k, func(pick map[int]int) {
			w := &WObj{ID: "o", Specs: []string{"1.1"}, Algs: []string{"sha512"}, States: h.h}
			name := h.name
			for d := range dims {
				if a, ok := pick[d]; ok {
					dims[d].alts[a](w)
					name += fmt.Sprintf(" %s.%d", dims[d].name, a)
				}
			}
			w.ID = "o" // found by id below
			if w.Width == 2 && len(h.h) > 9 || w.Width == 3 && len(h.h) > 99 {
				return
			}
			b.Do("valid "+name, func(c *C) {
				o := w.write()
				if k, _ := judgeRef(o); k != jValid {
					return
				}
				c.State(canon(o))
				root := FromSnap("w", rootWith(o))
				alg := w.Algs[min(len(w.States)-1, len(w.Algs)-1)]
				one := func(fsys *Disk, ver string, want Tree, man bool, by string) {
					what := fmt.Sprintf("%s version %q", name, ver)
					p, id := "", "o"
					if by == "path" {
						p, id = "o", ""
					}
					got, err := ex(c, fsys, what, p, id, ver, man, "")
					c.Case(what + by + fmt.Sprint(man))
					if want == nil {
						if err == nil {
							c.Fail("extraction of a version which does not exist succeeds", "%s: %d files", what, len(got))
						} else if len(got) > 0 {
							c.Fail("extraction of a version which does not exist writes files", "%s: %v", what, sortedKeys(got))
						}
						return
					}
					if err != nil {
						c.Fail("extraction of a valid object fails", "%s: %s", what, short(err))
						return
					}
					if man {
						checkManifest(c, what, alg, got)
						delete(got, "manifest."+alg)
					}
					if d := sameTree(want, got); d != "" {
						c.Fail("wrong files extracted", "%s: %s", what, d)
					}
				}
				last := len(w.States) - 1
				for i, st := range w.States {
					if i > 2 && i < last-1 && !r.Thorough() {
						continue
					}
					one(root, w.vname(i+1), st, i%2 == 0, "id")
				}
				for _, man := range []bool{false, true} {
					one(root, "", w.States[last], man, "path")
					one(root, "latest", w.States[last], man, "id")
				}
				for _, v := range []string{"v0", w.vname(len(w.States) + 1), "1", "V1", "v1 ", "v01", "v001", "head", "../v1", "v-1", "content", "."} {
					if n, wd, ok := verNum(v); ok && n <= len(w.States) && wd == w.Width {
						continue
					}
					one(root, v, nil, true, "id")
				}
				if len(pick) == 0 && h.name != "deep" && h.name != "unicode" {
					c.Trace()
					onOS(rootWith(o), func(fsys fs.FS, _ string) {
						onOS(Snap{}, func(tgt fs.FS, dir string) {
							if err := e.Extract(fsys, tgt, "", "o", "", false, ""); err != nil {
								c.Fail("extraction of a valid object fails on disk", "%s: %s", name, short(err))
							} else if d := sameTree(w.States[last], Tree(osSnap(dir).OnlyFiles())); d != "" {
								c.Fail("wrong files extracted on disk", "%s: %s", name, d)
							}
						})
					})
				}
			})
		})
	}
	// several objects, the whole storage root
	ws := bases(r)
	for _, w1 := range ws {
		for _, w2 := range ws {
			b.Do("whole root "+w1.Name+" "+w2.Name, func(c *C) {
				for _, pl := range [][]string{{"a", "b"}, {"a/x", "a/y"}, {"p/q/r", "o"}} {
					s := Snap{}
					for k, v := range valRoot {
						s[k] = v
					}
					for k, v := range w1.write() {
						s[pl[0]+"/"+k] = v
					}
					for k, v := range w2.write() {
						s[pl[1]+"/"+k] = v
					}
					for _, ver := range []string{"", "latest", "v1", "v2"} {
						for _, man := range []bool{false, true} {
							what := fmt.Sprintf("root %s %s %v version %q", w1.Name, w2.Name, pl, ver)
							c.Case(what + fmt.Sprint(man))
							want := Tree{}
							defined := true
							for i, w := range []*WObj{w1, w2} {
								k := len(w.States) - 1
								if ver != "" && ver != "latest" {
									k = int(ver[1] - '1')
									if w.Width > 0 || k >= len(w.States) {
										defined = false
										break
									}
								}
								for p, d := range w.States[k] {
									want[pl[i]+"/"+p] = d
								}
							}
							got, err := ex(c, FromSnap("w", s), what, "", "", ver, man, "")
							if !defined {
								if err == nil {
									c.Fail("extraction of a version which does not exist succeeds", "%s", what)
								}
								continue
							}
							if err != nil {
								c.Fail("extraction of the whole storage root fails", "%s: %s", what, short(err))
								continue
							}
							if man {
								for i, w := range []*WObj{w1, w2} {
									alg := w.Algs[len(w.Algs)-1]
									sub := Tree(Snap(got).Sub(pl[i] + "/"))
									checkManifest(c, what, alg, sub)
									delete(got, pl[i]+"/manifest."+alg)
								}
							}
							if d := sameTree(want, got); d != "" {
								c.Fail("wrong files extracted from the whole storage root", "%s: %s", what, d)
							}
						}
					}
					if w1 == w2 {
						c.Trace()
						onOS(s, func(fsys fs.FS, _ string) {
							onOS(Snap{}, func(tgt fs.FS, dir string) {
								if err := e.Extract(fsys, tgt, "", "", "", false, ""); err != nil {
									c.Fail("extraction of the whole storage root fails on disk", "%s: %s", w1.Name, short(err))
								} else if n := len(osSnap(dir).OnlyFiles()); n != 2*len(w1.States[len(w1.States)-1]) {
									c.Fail("wrong files extracted on disk", "%s: %d files", w1.Name, n)
								}
							})
						})
					}
				}
			})
		}
	}
	// malicious names, and names which collide with the manifest
	for _, p := range []string{"../x", "/x", "a/../../x", "..", ".", "", "./x", "a//b", "a/", "/", "..\\x", "C:\\x", "../w/x", "a/./b", "\x00", "a\x00b", "../../../../x", "manifest.sha512", "manifest.sha512/x", "manifest.md5"} {
		b.Do(fmt.Sprintf("name %q", p), func(c *C) {
			for _, man := range []bool{false, true} {
				w := &WObj{ID: "o", Specs: []string{"1.1"}, Algs: []string{"sha512"}, States: []Tree{{"a": "A", "name": "B"}}}
				o := w.write()
				inv := parseJ(o["inventory.json"])
				st := inv["versions"].(J)["v1"].(J)["state"].(J)
				st[refDigest("sha512", "B")] = []any{p}
				putInv(o, "", inv)
				putInv(o, "v1/", inv)
				what := fmt.Sprintf("logical path %q", p)
				c.State(what + fmt.Sprint(man))
				c.Case(what + fmt.Sprint(man))
				got, err := ex(c, FromSnap("w", rootWith(o)), what, "", "o", "", man, "")
				if err != nil {
					continue
				}
				if man {
					checkManifest(c, what, "sha512", got)
					delete(got, "manifest.sha512")
				}
				if d := sameTree(Tree{"a": "A", p: "B"}, got); d != "" {
					c.Fail("unusual name extracted wrongly", "%s manifest=%v: %s", what, man, d)
				}
			}
		})
	}
	b.Wait()
	// (b) damaged objects
	valSpace(r, Pick(r, "one three bare upgraded", ""), func(c *C, base, name, sig string, o Snap) {
		if !consistentTree(o) {
			return
		}
		root := FromSnap("w", rootWith(o))
		for _, v := range []string{"", "v1"} {
			what := fmt.Sprintf("%s: %s version %q", base, name, v)
			c.Case(what)
			got, err := ex(c, root, what, "o", "", v, false, "")
			if err != nil {
				continue
			}
			st, alg, ok := lenientState(o, v)
			if !ok {
				continue
			}
			for p, d := range got {
				if x, ok := st[p]; !ok {
					c.Fail("file extracted which is not in the state: "+sig, "%s: %q", what, p)
				} else if x != refDigest(alg, d) {
					c.Fail("wrong bytes delivered: "+sig, "%s: %q", what, p)
				}
			}
			for p := range st {
				if _, ok := got[p]; !ok {
					c.Fail("file of the state not extracted: "+sig, "%s: %q", what, p)
				}
			}
		}
	})
	// (c) failing operations
	b = r.Batch()
	pts := 0
	for _, s := range extractScns() {
		pts += s.faults(r, b)
	}
	b.Wait()
	r.Extra("fault_points", pts)
}

// XScn is an extraction whose file system operations fail.
type XScn struct {
	Name  string
	Env   *Env
	Prep  []Add
	P, ID string
	Ver   string
	Man   bool
	Area  string
}

func extractScns() []*XScn {
	D := mode{true, false}
	base := env11("x", nil)
	sub := env11("x", nil, contentExt("content", "data", "meta", "metadata"))
	two := []Add{add1("o1", Tree{"a": "X", "d/b": "YY", "c": "X"}, D, ""), add1("o1", Tree{"a": "Z", "e": ""}, D, "")}
	areas := []Add{add1("o1", Tree{"a": "X", "b": "Y"}, D, "content"), add1("o1", Tree{"a": "X", "b": "Z"}, D, "meta")}
	return []*XScn{
		{Name: "v1", Env: base, Prep: two, ID: "o1", Ver: "v1", Man: true},
		{Name: "latest", Env: base, Prep: two, ID: "o1", Ver: ""},
		{Name: "big", Env: base, Prep: []Add{add1("o1", Tree{"a": big, "b": "B"}, D, "")}, P: "o1", Man: true},
		{Name: "root", Env: base, Prep: append(append([]Add{}, two...), add1("o2", Tree{"x": "X"}, D, "")), Man: true},
		{Name: "area", Env: sub, Prep: areas, ID: "o1", Area: "meta", Man: true},
		{Name: "full", Env: sub, Prep: areas, ID: "o1", Area: "full"},
	}
}

func (s *XScn) run(root, t *Disk) error {
	return s.Env.Extract(root.FS(), t.FS(), s.P, s.ID, s.Ver, s.Man, s.Area)
}

func (s *XScn) faults(r *Run, b *Batch) int {
	root := NewDisk("root")
	must(s.Env.Init(root.FS()))
	for _, a := range s.Prep {
		_, err := s.Env.Do(root.FS(), a)
		must(err)
	}
	exec := func(hook func(Op) (int, error)) (Snap, []string, error, bool) {
		d, t := root.Clone(), NewDisk("t")
		d.Hook, t.Hook = hook, hook
		done := make(chan error, 1)
		go func() { done <- s.run(d, t) }()
		var err error
		select {
		case err = <-done:
		case <-time.After(40 * time.Second):
			return nil, nil, nil, true
		}
		d.Hook, t.Hook = nil, nil
		return t.Snap(), t.Escaped(), err, false
	}
	var pts []faultPoint
	cnt := map[string]int{}
	var mu sync.Mutex
	good, _, err, _ := exec(func(o Op) (int, error) {
		mu.Lock()
		defer mu.Unlock()
		k := opKey(o)
		pts = append(pts, faultPoint{k, cnt[k], 0})
		if (o.Kind == "write" || o.Kind == "wclose") && o.Size > 1 {
			pts = append(pts, faultPoint{k, cnt[k], o.Size / 2})
		}
		if o.Kind == "wclose" && o.Size > 0 {
			pts = append(pts, faultPoint{k, cnt[k], o.Size}) // nothing is lost
		}
		cnt[k]++
		return o.Size, nil
	})
	norm := func(s Snap) string { // the manifest has no order
		s = s.copy()
		for k, v := range s {
			if strings.HasPrefix(path.Base(k), "manifest.") {
				l := strings.SplitAfter(v, "\n")
				sort.Strings(l)
				s[k] = strings.Join(l, "")
			}
		}
		return canon(s)
	}
	if err != nil {
		b.Do("faults "+s.Name, func(c *C) { c.Fail("undisturbed extraction fails", "%s: %s", s.Name, short(err)) })
		return 0
	}
	want := norm(good)
	one := func(name string, ps []faultPoint, sticky bool) {
		b.Do("faults "+s.Name+"|"+name, func(c *C) {
			cnt := map[string]int{}
			var mu sync.Mutex
			fired, lost := 0, false
			got, esc, err, hang := exec(func(o Op) (int, error) {
				mu.Lock()
				defer mu.Unlock()
				k := opKey(o)
				n := cnt[k]
				cnt[k]++
				if sticky && fired > 0 {
					return 0, errFault
				}
				for _, p := range ps {
					if p.key == k && p.n == n {
						fired++
						lost = lost || o.FS == "t" && (o.Kind == "wclose" || o.Kind == "write")
						return p.part, errFault
					}
				}
				return o.Size, nil
			})
			c.Step()
			c.State(name + norm(got))
			c.Case(s.Name + name)
			sig := (&FScn{}).faultSig(ps)
			switch {
			case hang:
				c.Fail("hang: "+sig, "%s does not return when %v fails", s.Name, ps)
			case isPanic(err):
				c.Fail("panic: "+sig, "%s panics when %v fails: %s", s.Name, ps, short(err))
			case len(esc) > 0:
				c.Fail("written outside of the target", "%s, %v fails: %q", s.Name, ps, esc)
			case lost && err == nil:
				c.Fail("success in spite of a failure: "+sig, "%s succeeds although %v failed", s.Name, ps)
			case fired > 0 && err == nil && norm(got) != want:
				c.Fail("success in spite of a failure: "+sig, "%s succeeds although %v failed, with a different result", s.Name, ps)
			}
		})
	}
	for i, p := range pts {
		one(p.String(), []faultPoint{p}, false)
		if p.part == 0 {
			one(p.String()+"+", []faultPoint{p}, true)
		}
		if r.Thorough() && len(pts) < 300 {
			for _, q := range pts[i+1:] {
				one(p.String()+"&"+q.String(), []faultPoint{p, q}, false)
			}
		}
	}
	return len(pts)
}

// ---- areas ---------------------------------------------------------------

func runC21(r *Run) {
	type cfg struct {
		name  string
		def   string // ext-…-area parameter
		paths []string
	}
	cfgs := []cfg{
		{"plain", "", []string{"content", "data", "meta", "metadata"}},
		{"prefix", "", []string{"content", "data", "meta", "data2", "x", "dat"}},
		{"deep", "", []string{"content", "x/y", "meta", "x/z", "xy", "xy"}},
		{"blank", "", []string{"content", "a b", "meta", "a", "m2", "é.%20"}},
		{"slash", "", []string{"content", "data/", "meta", "./metadata", "m2", "m//2"}},
		{"default", "meta", []string{"content", "data", "meta", "metadata"}},
		{"same names", "", []string{"content", "meta", "meta", "content"}},
	}
	trs := []Tree{{"a": "X"}, {"a": "X", "b": "X"}, {"a": "Y", "d/b": "X"}, {"data/a": "X", "metadata": "Y"}, {}}
	type op struct {
		area  string
		tree  Tree
		m     mode
		area2 string
		tree2 Tree
	}
	b := r.Batch()
	for _, cf := range cfgs {
		areas := map[string]string{}
		var names []string
		for i := 0; i < len(cf.paths); i += 2 {
			areas[cf.paths[i]] = path.Clean(cf.paths[i+1])
			names = append(names, cf.paths[i])
		}
		def := cf.def
		if def == "" {
			def = "content"
		}
		var ops []op
		for _, a := range append([]string{""}, names...) {
			for _, t := range trs {
				for _, m := range []mode{{true, false}, {false, false}, {true, true}} {
					ops = append(ops, op{area: a, tree: t, m: m})
				}
			}
		}
		for _, a := range names {
			for _, a2 := range names {
				if a != a2 {
					ops = append(ops, op{area: a, tree: trs[1], m: mode{true, false}, area2: a2, tree2: trs[2]})
				}
			}
		}
		e := env11("areas "+cf.name, nil, contentExt(cf.paths...))
		if cf.def != "" {
			e.Params = map[string]string{"ext-NNNN-content-subpath-area": cf.def}
		}
		depth := 2
		if r.Thorough() && cf.name == "plain" {
			depth = 3
		}
		var seqs [][]op
		var rec func(s []op)
		rec = func(s []op) {
			if len(s) > 0 {
				seqs = append(seqs, append([]op{}, s...))
			}
			if len(s) == depth {
				return
			}
			os := ops
			if len(s) == 1 && depth > 2 {
				os = ops[:min(len(ops), 40)]
			} else if len(s) == 2 {
				os = ops[:min(len(ops), 12)]
			}
			for _, o := range os {
				rec(append(s, o))
			}
		}
		if r.Thorough() || cf.name == "prefix" {
			rec(nil)
		} else {
			for _, o := range ops {
				seqs = append(seqs, []op{o})
			}
			for i, o := range ops {
				for _, o2 := range ops[:min(len(ops), 12)] {
					_ = i
					seqs = append(seqs, []op{o, o2})
				}
			}
		}
		for i := 0; i < len(seqs); i += 50 {
			part := seqs[i:min(i+50, len(seqs))]
			b.Do(fmt.Sprintf("%s %05d", cf.name, i), func(c *C) {
				for si, seq := range part {
					c21seq(c, e, cf.name, areas, def, names, len(seq), func(k int) (string, Tree, mode, string, Tree) {
						o := seq[k]
						return o.area, o.tree, o.m, o.area2, o.tree2
					}, si == 0 && i%200 == 0)
				}
			})
		}
	}
	b.Wait()
	r.Extra("area_configurations", len(cfgs))
}

func c21seq(c *C, e *Env, cname string, areas map[string]string, def string, names []string, n int, get func(int) (string, Tree, mode, string, Tree), os bool) {
	d := NewDisk("root")
	must(e.Init(d.FS()))
	model := Tree{} // full path -> content
	var versions []Tree
	var hist []string
	join := func(area, p string) string {
		if area == "" {
			area = def
		}
		return path.Join(areas[area], p)
	}
	for k := 0; k < n; k++ {
		area, tree, m, area2, tree2 := get(k)
		hist = append(hist, fmt.Sprintf("%q %v %v %q %v", area, tree, m, area2, tree2))
		what := fmt.Sprintf("%s: %v", cname, hist)
		a := add1("o1", tree, m, area)
		if area2 != "" {
			a.Areas = []AreaSrc{{area2, tree2.FS()}}
		}
		before := d.Snap()
		mod, err := e.Do(d.FS(), a)
		c.Step()
		if err != nil {
			c.Fail("update of an area fails", "%s: %s", what, short(err))
			return
		}
		next := Tree{}
		for p, x := range model {
			next[p] = x
		}
		if m.echo {
			ea := area
			if ea == "" {
				ea = def
			}
			for p := range next {
				if strings.HasPrefix(p, areas[ea]+"/") {
					if _, ok := tree[p[len(areas[ea])+1:]]; !ok {
						delete(next, p)
					}
				}
			}
		}
		for p, x := range tree {
			next[join(area, p)] = x
		}
		for p, x := range tree2 {
			next[join(area2, p)] = x
		}
		s := d.Snap()
		pre := objPrefix(s, "o1")
		o := ReadObj(s.Sub(pre))
		if bad := o.Invalid(); len(bad) > 0 {
			c.Fail("invalid object", "%s: %v", what, bad)
			return
		}
		changed := sameTree(model, next) != "" || !m.dedup && len(tree) > 0 || k == 0
		if mod && len(o.Vers) == len(versions)+1 {
			versions = append(versions, next)
		} else if changed {
			c.Fail("no new version", "%s", what)
			return
		} else if before.Diff(s) != "" {
			c.Fail("unmodified object changed", "%s: %s", what, before.Diff(s))
		}
		model = next
		// the state of the newest version, and where its content lies
		st := Tree{}
		readme := ""
		for dg, ps := range o.Inv.Versions[o.Inv.Head].State {
			for _, p := range ps {
				cps := o.Paths[strings.ToLower(dg)]
				if len(cps) == 0 {
					continue
				}
				if p == "README.md" {
					readme = o.Files[cps[0]]
					continue
				}
				st[p] = o.Files[cps[0]]
			}
		}
		if x := sameTree(model, st); x != "" {
			c.Fail("state of the areas differs", "%s: %s", what, x)
			return
		}
		all := Tree{}
		for _, v := range versions {
			for p, x := range v {
				all[p+"\x00"+x] = ""
			}
		}
		for p, x := range o.Files {
			seg := strings.SplitN(p, "/", 3)
			if len(seg) < 3 || seg[1] != "content" || seg[2] == "README.md" {
				continue
			}
			if _, ok := all[seg[2]+"\x00"+x]; !ok {
				c.Fail("content stored outside of its area", "%s: %s", what, p)
			}
		}
		c.State(canon(s))
		c.Case(what)
		// extraction of every area
		if k < n-1 {
			continue // of the last state, with all versions
		}
		for vi, v := range append(append([]Tree{}, versions...), model) {
			ver := ""
			if vi < len(versions) {
				ver = o.Vers[vi]
			}
			for _, area := range append([]string{"", "full"}, names...) {
				want := Tree{}
				for p, x := range v {
					if area == "full" {
						want[p] = x
					} else {
						ap := areas[area]
						if area == "" {
							ap = areas[def]
						}
						if strings.HasPrefix(p, ap+"/") {
							want[p[len(ap)+1:]] = x
						}
					}
				}
				if area == "full" {
					want["README.md"] = readme
				}
				for _, man := range []bool{false, true} {
					if man && vi < len(versions) {
						continue
					}
					t := NewDisk("t")
					err := e.Extract(d.FS(), t.FS(), "", "o1", ver, man, area)
					c.Step()
					w := fmt.Sprintf("%s: extract %q of %q", what, area, ver)
					if err != nil {
						c.Fail("extraction of an area fails", "%s: %s", w, short(err))
						continue
					}
					got := Tree(t.Snap().OnlyFiles())
					if man {
						checkManifest(c, w, "sha512", got)
						delete(got, "manifest.sha512")
					}
					if x := sameTree(want, got); x != "" {
						c.Fail("extraction of an area delivers other files", "%s: %s", w, x)
					}
				}
			}
		}
		// unknown areas
		for _, ua := range []string{"nope", "Content", "content ", "data", ".", "/"} {
			if _, ok := areas[ua]; ok {
				continue
			}
			t := NewDisk("t")
			if err := e.Extract(d.FS(), t.FS(), "", "o1", "", false, ua); err == nil && len(model) > 0 {
				c.Fail("unknown area extracted", "%s: area %q: %v", what, ua, sortedKeys(t.Snap()))
			}
			d2 := d.Clone()
			_, err := e.Do(d2.FS(), add1("o1", Tree{"new": "N"}, mode{true, false}, ua))
			c.Step()
			if err == nil {
				c.Fail("unknown area accepted", "%s: area %q", what, ua)
			}
			immutable(c, s, d2.Snap(), what+" then unknown area "+ua)
		}
		if os {
			c.Trace()
			onOS(s, func(fsys fs.FS, _ string) {
				onOS(Snap{}, func(tgt fs.FS, dir string) {
					if err := e.Extract(fsys, tgt, "", "o1", "", false, ""); err != nil {
						c.Fail("extraction of an area fails on disk", "%s: %s", what, short(err))
					}
					want := Tree{}
					for p, x := range model {
						if strings.HasPrefix(p, areas[def]+"/") {
							want[p[len(areas[def])+1:]] = x
						}
					}
					if x := sameTree(want, Tree(osSnap(dir).OnlyFiles())); x != "" {
						c.Fail("extraction on disk delivers other files", "%s: %s", what, x)
					}
				})
			})
		}
	}
}
