package main

// C18: objects of a storage root. C19: the storage root itself.

import (
	"context"
	"fmt"
	"io/fs"
	"sort"
	"strings"

	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
)

func init() {
	register(&Check{Prop: "C18", Level: "model_checking", Run: runC18,
		Rule:   "breadth-first exploration of all sequences of creations and updates (one storage root kept open, or freshly loaded for each operation) of every identifier of a bounded set, for every layout; after each operation existence, enumeration, loading by id and by folder, validation, and the bytes of all other objects are compared with a model",
		Assume: []string{"one writer at a time"}})
	register(&Check{Prop: "C19", Level: "model_checking", Run: runC19,
		Rule:   "initialisation of every location out of a bounded set with every version and layout; loading of every set of up to 2 (thorough 3) declaration files with every content",
		Assume: []string{"a line end of carriage return and line feed is tolerated in declarations"}})
}

type rootCfg struct {
	name string
	env  *Env
	ids  []string // objects which have to be possible
	odd  []string // anything but damage
	prep func(c *Env) Snap
}

func rootCfgs() []*rootCfg {
	mk := func(name string, root Ext, ids []string, odd ...string) *rootCfg {
		e := env11("root "+name, fixAlgs("md5"), digExt)
		e.Root = root
		return &rootCfg{name: name, env: e, ids: ids, odd: odd}
	}
	plain := []string{"a", "b", "ab", ".b"}
	hashed := []string{"a", "b", "info:x/1", "../x"}
	r := []*rootCfg{
		mk("flat direct", baseExt(extCfg(extension.StorageLayoutFlatDirectName)), plain, "extensions", "0=ocfl_1.1", "a/b", "a/extensions", "..", ".", "", "a/", "/a", "A", "ocfl_layout.json", "a/v1", "a/v1/content", "c/d/e"),
		mk("flat omit", baseExt(extCfg(extension.FlatOmitPrefixStorageLayoutName, "delimiter", `":"`)), []string{"n:a", "n:b", "n:ab", "c"}, "m:a", "a", "n:extensions", ":", "n:", "n:a/b", "n:.."),
		mk("hash and id", baseExt(extCfg(extension.StorageLayoutHashAndIdNTupleName, "digestAlgorithm", `"sha256"`, "tupleSize", "3", "numberOfTuples", "3")), hashed, ""),
		mk("hashed", baseExt(extCfg(extension.StorageLayoutHashedNTupleName, "digestAlgorithm", `"sha256"`, "tupleSize", "3", "numberOfTuples", "3", "shortObjectRoot", "false")), hashed, ""),
		mk("hashed short", baseExt(extCfg(extension.StorageLayoutHashedNTupleName, "digestAlgorithm", `"sha256"`, "tupleSize", "0", "numberOfTuples", "0", "shortObjectRoot", "false")), hashed),
		mk("ntuple omit", baseExt(extCfg(extension.NTupleOmitPrefixStorageLayoutName, "delimiter", `":"`, "tupleSize", "2", "numberOfTuples", "2", "zeroPadding", `"left"`, "reverseObjectRoot", "false")), []string{"n:1234", "n:1235", "n:5", "n:12345"}, "m:1234", "1234", "n:"),
		mk("direct clean", baseExt(extCfg(extension.DirectCleanName, "maxPathnameLen", "32000", "maxPathSegmentLen", "127", "encodeUTF", "false", "replacementString", `"_"`, "whitespaceReplacementString", `" "`, "fallbackFolder", `"fallback"`, "numberOfFallbackTuples", "2", "fallbackTupleSize", "2", "fallbackDigestAlgorithm", `"md5"`)), []string{"a", "b", "x/y", "x/z"}, "a:", "a_", "a?", "x", "x/y/extensions", "extensions", "..", "x//y", ""),
		mk("pairtree", baseExt(extCfg(extension.StorageLayoutPairTreeName, "uriBase", `""`, "storeDir", `"pairs"`, "shortyLength", "2", "digestAlgorithm", `"sha512"`)), []string{"ab", "cd", "efg1", "x"}, "", "a"),
	}
	// an occupied storage root
	occ := *r[0]
	occ.name = "occupied"
	occ.env = &Env{}
	*occ.env = *r[0].env
	occ.env.Name = "occupied"
	occ.prep = func(e *Env) Snap {
		d := NewDisk("root")
		must(e.Init(d.FS()))
		s := d.Snap()
		for i, w := range []*WObj{
			{ID: "old", Specs: []string{"1.0"}, Algs: []string{"sha256"}, States: []Tree{{"a": "A"}, {"b": "B"}}},
			{ID: "padded", Specs: []string{"1.1"}, Algs: []string{"sha512"}, Width: 3, States: []Tree{{"a": "A"}}},
			{ID: "else", Specs: []string{"1.1"}, Algs: []string{"sha512"}, States: []Tree{{"a": "A"}}},
		} {
			dir := []string{"old", "padded", "deep/er/somewhere"}[i]
			for k, v := range w.write() {
				s[dir+"/"+k] = v
			}
		}
		return FromSnap("root", s).Snap()
	}
	occ.odd = append(append([]string{}, occ.odd...), "old", "padded", "deep", "deep/er", "deep/er/somewhere")
	return append(r, &occ)
}

// rootState are the objects of a storage root.
type rootState struct {
	snap Snap
	objs map[string]Tree   // id -> newest state
	dirs map[string]string // id -> folder
	vers map[string]int
	ops  []rootOp
}

type rootOp struct {
	kind string // put, create
	id   string
	t    Tree
}

func (o rootOp) String() string { return fmt.Sprintf("%s %q %v", o.kind, o.id, o.t) }

func (cf *rootCfg) start() *rootState {
	var s Snap
	if cf.prep != nil {
		s = cf.prep(cf.env)
	} else {
		d := NewDisk("root")
		must(cf.env.Init(d.FS()))
		s = d.Snap()
	}
	st := &rootState{snap: s, objs: map[string]Tree{}, dirs: map[string]string{}, vers: map[string]int{}}
	for p, id := range findObjs(s) {
		st.dirs[id] = strings.TrimSuffix(p, "/")
		o := ReadObj(s.Sub(p))
		st.objs[id] = stateOf(o, o.Inv.Head)
		st.vers[id] = len(o.Vers)
	}
	return st
}

// stateOf is a version of an object as a tree.
func stateOf(o *RefObj, v string) Tree {
	t := Tree{}
	for d, ps := range o.Inv.Versions[v].State {
		for _, p := range ps {
			if cp := o.Paths[strings.ToLower(d)]; len(cp) > 0 {
				t[p] = o.Files[cp[0]]
			}
		}
	}
	return t
}

// apply performs an operation and returns the next state (nil after a refusal).
func (cf *rootCfg) apply(c *C, st *rootState, op rootOp, sr ocfl.StorageRoot, f *ocfl.ExtensionFactory, d *Disk, os bool) *rootState {
	what := fmt.Sprintf("%s: %v then %v", cf.name, st.ops, op)
	var err error
	_, exists := st.objs[op.id]
	if op.kind == "put" {
		_, err = cf.env.DoOn(sr, f, add1(op.id, op.t, mode{true, true}, ""))
	} else {
		err = guard(func() error {
			m, err := f.LoadExtensions(extDisk(cf.env.Obj), nil)
			if err != nil {
				return err
			}
			o, err := sr.CreateObject(op.id, sr.GetVersion(), sr.GetDigest(), cf.env.Fixity, m)
			if err != nil {
				return err
			}
			_, err = update(o, add1(op.id, op.t, mode{true, true}, ""))
			return err
		})
	}
	c.Step()
	s := d.Snap()
	if x := d.Escaped(); len(x) > 0 {
		c.Fail("written outside of the storage root", "%s: %q", what, x)
	}
	if isPanic(err) {
		c.Fail("panic", "%s: %s", what, short(err))
		return nil
	}
	must1 := false
	for _, x := range cf.ids {
		must1 = must1 || x == op.id && cf.hasIDPath(op.id, st)
	}
	if op.kind == "create" && exists {
		if err == nil {
			c.Fail("existing object created again", "%s", what)
			return nil
		}
		if x := st.snap.Diff(s); x != "" {
			c.Fail("refused creation has side effects", "%s: %s", what, x)
		}
		return nil
	}
	if err != nil {
		if must1 || exists && op.kind == "put" && cf.hasIDPath(op.id, st) {
			c.Fail("operation fails: "+short(err), "%s: %s", what, short(err))
		}
		// nothing of another object or of the storage root may change
		for p, v := range st.snap {
			if w, ok := s[p]; !ok || w != v {
				c.Fail("failed operation damages the storage root", "%s: %q", what, p)
				return nil
			}
		}
		for p := range s {
			if _, ok := st.snap[p]; !ok {
				for id, dir := range st.dirs {
					if strings.HasPrefix(p, dir+"/") {
						c.Fail("failed operation writes into another object", "%s: %q of %q", what, p, id)
						return nil
					}
				}
			}
		}
		return nil
	}
	// the new or updated object
	n := &rootState{snap: s, objs: map[string]Tree{}, dirs: map[string]string{}, vers: map[string]int{}, ops: append(append([]rootOp{}, st.ops...), op)}
	for k, v := range st.objs {
		n.objs[k], n.dirs[k], n.vers[k] = v, st.dirs[k], st.vers[k]
	}
	found := findObjs(s)
	dir := ""
	for p, id := range found {
		if id == op.id {
			dir = strings.TrimSuffix(p, "/")
		}
	}
	if dir == "" {
		c.Fail("object not stored", "%s: %v", what, found)
		return nil
	}
	if exists && dir != st.dirs[op.id] {
		c.Fail("object stored twice", "%s: %q and %q", what, dir, st.dirs[op.id])
		return nil
	}
	n.dirs[op.id] = dir
	o := ReadObj(s.Sub(dir + "/"))
	if bad := o.Invalid(); len(bad) > 0 {
		c.Fail("invalid object", "%s: %v", what, bad)
		return nil
	}
	if x := sameTree(op.t, stateOf(o, o.Inv.Head)); x != "" {
		c.Fail("wrong state of the object", "%s: %s", what, x)
		return nil
	}
	v := st.vers[op.id]
	if !exists || sameTree(st.objs[op.id], op.t) != "" {
		v++
	}
	if len(o.Vers) != v {
		c.Fail("wrong number of versions", "%s: %d instead of %d", what, len(o.Vers), v)
	}
	n.objs[op.id], n.vers[op.id] = op.t, len(o.Vers)
	// everything else
	for p, v := range st.snap {
		if !strings.HasPrefix(p, dir+"/") {
			if w, ok := s[p]; !ok || w != v {
				c.Fail("operation changes files of others", "%s: %q", what, p)
			}
		}
	}
	for p := range s {
		if _, ok := st.snap[p]; !ok && !strings.HasPrefix(p, dir+"/") && p != dir && !(strings.HasSuffix(p, "/") && strings.HasPrefix(dir+"/", p)) {
			c.Fail("operation creates files of others", "%s: %q", what, p)
		}
	}
	return n
}

// hasIDPath tells whether the object lies where its id is mapped to.
func (cf *rootCfg) hasIDPath(id string, st *rootState) bool {
	for _, x := range cf.odd {
		if _, has := st.objs[x]; has && x != "old" && x != "padded" {
			return false // may be in the way
		}
		if x == id {
			return false
		}
	}
	return true
}

// check compares everything the storage root tells with the model.
func (cf *rootCfg) check(c *C, n *rootState, sr ocfl.StorageRoot, d *Disk) {
	what := fmt.Sprintf("%s: %v", cf.name, n.ops)
	var folders []string
	err := guard(func() (err error) { folders, err = sr.GetObjectFolders(); return })
	var want []string
	for _, x := range n.dirs {
		want = append(want, x)
	}
	sort.Strings(want)
	sort.Strings(folders)
	if err != nil || strings.Join(want, "\n") != strings.Join(folders, "\n") {
		c.Fail("enumeration differs", "%s: %q instead of %q (%s)", what, folders, want, short(err))
		return
	}
	for _, dir := range folders {
		err := guard(func() error {
			o, err := sr.LoadObjectByFolder(dir)
			if err != nil {
				return err
			}
			if n.dirs[o.GetID()] != dir {
				return fmt.Errorf("contains %q", o.GetID())
			}
			return nil
		})
		if err != nil {
			c.Fail("object not loaded by its folder", "%s: %q: %s", what, dir, short(err))
		}
	}
	for _, id := range append(append([]string{}, cf.ids...), cf.odd...) {
		c.Step()
		tree, has := n.objs[id]
		ok := false
		err := guard(func() (err error) { ok, err = sr.ObjectExists(id); return })
		if isPanic(err) {
			c.Fail("panic", "%s: ObjectExists(%q): %s", what, id, short(err))
		}
		strict := cf.hasIDPath(id, n)
		if strict && (err != nil || ok != has) {
			c.Fail("wrong existence", "%s: ObjectExists(%q) is %v (%s)", what, id, ok, short(err))
		}
		if has && err == nil && !ok {
			c.Fail("wrong existence", "%s: ObjectExists(%q) is %v (%s)", what, id, ok, short(err))
		}
		err = guard(func() error {
			o, err := sr.LoadObjectByID(id)
			if err != nil {
				return err
			}
			if !has {
				c.Fail("object loaded which does not exist", "%s: %q is %q", what, id, o.GetID())
				return nil
			}
			if o.GetID() != id {
				c.Fail("other object loaded", "%s: %q is %q", what, id, o.GetID())
				return nil
			}
			if v := len(o.GetInventory().GetVersionStrings()); v != n.vers[id] {
				c.Fail("other content loaded", "%s: %q has %d versions instead of %d", what, id, v, n.vers[id])
			}
			got := map[string]bool{}
			alg := string(o.GetInventory().GetDigestAlgorithm())
			err = o.GetInventory().IterateStateFiles("", func(_, externals []string, digest string) error {
				for _, x := range externals {
					got[x+" "+digest] = true
				}
				return nil
			})
			for p, data := range tree {
				if !got[p+" "+refDigest(alg, data)] || len(got) != len(tree) {
					c.Fail("other content loaded", "%s: %q: %v", what, id, got)
				}
			}
			return err
		})
		if isPanic(err) {
			c.Fail("panic", "%s: LoadObjectByID(%q): %s", what, id, short(err))
		} else if err != nil && has && strict {
			c.Fail("object not loaded by its id", "%s: %q: %s", what, id, short(err))
		}
	}
	c.State(cf.name + canon(n.snap))
	c.Case(what)
}

func runC18(r *Run) {
	b := r.Batch()
	for _, cf := range rootCfgs() {
		var ops []rootOp
		t1, t2 := Tree{"x": "X"}, Tree{"x": "Y", "d/z": "X"}
		for i, id := range cf.ids {
			ops = append(ops, rootOp{"put", id, t1}, rootOp{"create", id, t2})
			if i < 2 || r.Thorough() {
				ops = append(ops, rootOp{"put", id, t2})
			}
		}
		for _, id := range cf.odd {
			ops = append(ops, rootOp{"put", id, t1})
			if r.Thorough() {
				ops = append(ops, rootOp{"create", id, t2})
			}
		}
		depth := Pick(r, 2, 3)
		for _, open := range []bool{false, true} {
			for _, first := range ops {
				b.Do(fmt.Sprintf("%s open=%v %v", cf.name, open, first), func(c *C) {
					if open {
						// one storage root for the whole sequence
						var rec func(seq []rootOp)
						rec = func(seq []rootOp) {
							st := cf.start()
							d := FromSnap("root", st.snap)
							sr, f, _, err := cf.env.Load(d.FS())
							must(err)
							for _, op := range seq {
								st.snap = d.Snap()
								n := cf.apply(c, st, op, sr, f, d, false)
								if n == nil {
									n = st
									if x := st.snap.Diff(d.Snap()); x != "" {
										return // a refused operation left something
									}
								}
								st = n
							}
							cf.check(c, st, sr, d)
							if len(seq) < depth {
								for _, op := range ops {
									rec(append(append([]rootOp{}, seq...), op))
								}
							}
						}
						rec([]rootOp{first})
						return
					}
					seen := map[uint64]bool{}
					var rec func(st *rootState, op rootOp, left int)
					rec = func(st *rootState, op rootOp, left int) {
						d := FromSnap("root", st.snap)
						sr, f, _, err := cf.env.Load(d.FS())
						must(err)
						n := cf.apply(c, st, op, sr, f, d, left == depth)
						if n == nil {
							return
						}
						key := hash64(canon(n.snap) + fmt.Sprint(left))
						if seen[key] {
							return
						}
						seen[key] = true
						sr, _, _, err = cf.env.Load(d.FS())
						must(err)
						cf.check(c, n, sr, d)
						if es, _, err := cf.env.Validate(d.FS()); err != nil || len(es) > 0 {
							c.Fail("validation reports errors", "%s: %v: %v %s", cf.name, n.ops, es, short(err))
						}
						if left == depth && op.kind == "put" {
							c.Trace()
							onOS(n.snap, func(fsys fs.FS, _ string) {
								sr, _, _, err := cf.env.Load(fsys)
								must(err)
								cf.check(c, n, sr, nil)
							})
						}
						if left > 1 {
							for _, op := range ops {
								rec(n, op, left-1)
							}
						}
					}
					rec(cf.start(), first, depth)
				})
			}
		}
	}
	b.Wait()
	r.Extra("configurations", len(rootCfgs()))
}

// loadErrors counts the errors which were reported while loading.
func loadErrors(ctx context.Context) (n int) {
	st, err := ocfl.GetValidationStatus(ctx)
	must(err)
	for _, x := range st.Errors {
		if strings.HasPrefix(string(x.Code), "E") {
			n++
		}
	}
	return
}

func runC19(r *Run) {
	b := r.Batch()
	// (a) initialisation
	type entry struct{ p, data string }
	ents := []entry{
		{"x", "X"}, {".hidden", ""}, {"d/", ""}, {"d/x", "X"}, {"0=ocfl_1.1", "ocfl_1.1\n"}, {"0=ocfl_1.0", "ocfl_1.0\n"}, {"extensions/", ""},
		{"extensions/initial/config.json", "{}"}, {"ocfl_layout.json", "{}"}, {"o/0=ocfl_object_1.1", "ocfl_object_1.1\n"}, {"logs/", ""}, {"\u00e9", ""},
	}
	for _, cf := range rootCfgs() {
		if cf.prep != nil {
			continue
		}
		for _, v := range []ocfl.OCFLVersion{"1.0", "1.1", "2.0"} {
			for _, digest := range []Alg{"sha512", "sha256"} {
				b.Do(fmt.Sprintf("init %s %s %s", cf.name, v, digest), func(c *C) {
					e := *cf.env
					e.Version, e.Digest = v, digest
					what := fmt.Sprintf("init %s %s", cf.name, v)
					check := func(fsys fs.FS, where string) {
						if err := e.Init(fsys); err != nil {
							c.Fail("initialisation of an empty location fails", "%s%s: %s", what, where, short(err))
							return
						}
						sr, _, ctx, err := e.Load(fsys)
						if err != nil {
							c.Fail("new storage root does not load", "%s%s: %s", what, where, short(err))
							return
						}
						if n := loadErrors(ctx); n > 0 {
							c.Fail("new storage root loads with errors", "%s%s: %d", what, where, n)
						}
						if sr.GetVersion() != v {
							c.Fail("new storage root has another version", "%s%s: %s", what, where, sr.GetVersion())
						}
						if es, _, err := e.Validate(fsys); err != nil || len(es) > 0 {
							c.Fail("new storage root does not validate", "%s%s: %v %s", what, where, es, short(err))
						}
						if f, err := sr.GetObjectFolders(); err != nil || len(f) > 0 {
							c.Fail("new storage root is not empty", "%s%s: %v %s", what, where, f, short(err))
						}
					}
					d := NewDisk("root")
					check(d.FS(), "")
					c.Step()
					c.State(what + canon(d.Snap()))
					c.Case(what)
					for p, x := range map[string]string{"0=ocfl_" + string(v): "ocfl_" + string(v) + "\n"} {
						if d.Snap()[p] != x {
							c.Fail("wrong declaration", "%s: %q", what, d.Snap()[p])
						}
					}
					if x := d.Escaped(); len(x) > 0 {
						c.Fail("written outside of the storage root", "%s: %q", what, x)
					}
					// a second time
					before := d.Snap()
					for _, v2 := range []ocfl.OCFLVersion{"1.0", "1.1"} {
						e2 := e
						e2.Version = v2
						if err := e2.Init(d.FS()); err == nil {
							c.Fail("storage root initialised twice", "%s as %s", what, v2)
						}
						if x := before.Diff(d.Snap()); x != "" {
							c.Fail("refused initialisation changes the location", "%s as %s: %s", what, v2, x)
						}
					}
					c.Trace()
					onOS(Snap{}, func(fsys fs.FS, _ string) { check(fsys, " on disk") })
				})
				if digest == "sha256" && !r.Thorough() {
					continue
				}
				b.Do(fmt.Sprintf("init occupied %s %s %s", cf.name, v, digest), func(c *C) {
					e := *cf.env
					e.Version, e.Digest = v, digest
					one := func(pick ...entry) {
						d := NewDisk("root")
						var names []string
						for _, x := range pick {
							if strings.HasSuffix(x.p, "/") {
								d.PutDir(strings.TrimSuffix(x.p, "/"))
							} else {
								d.Put(x.p, x.data)
							}
							names = append(names, x.p)
						}
						before := d.Snap()
						what := fmt.Sprintf("init %s %s in %q", cf.name, v, names)
						err := e.Init(d.FS())
						c.Step()
						c.State(what)
						c.Case(what)
						if err == nil {
							c.Fail("initialisation of a location which is not empty", "%s", what)
						} else if isPanic(err) {
							c.Fail("panic", "%s: %s", what, short(err))
						}
						if x := before.Diff(d.Snap()); x != "" {
							c.Fail("refused initialisation changes the location", "%s: %s", what, x)
						}
					}
					for i, x := range ents {
						one(x)
						for _, y := range ents[i+1:] {
							one(x, y)
						}
					}
				})
			}
		}
	}
	// (b) declarations
	type decl struct{ name, data string }
	var decls []decl
	for _, v := range []string{"1.0", "1.1"} {
		for _, x := range []string{"ocfl_" + v + "\n", "ocfl_" + v, "", "\n", "ocfl_1.0\n", "ocfl_1.1\n", "ocfl_2.0\n", "ocfl_" + v + "\n\n", " ocfl_" + v + "\n", "ocfl_" + v + " \n", "OCFL_" + v + "\n", "ocfl_object_" + v + "\n", "ocfl_" + v + "\nx", "x\nocfl_" + v + "\n", v + "\n", "ocfl_" + v + "\x00\n", "\ufeffocfl_" + v + "\n", "ocfl_" + v + "\r\n", "ocfl_" + v + "\r"} {
			dup := false
			for _, y := range decls {
				dup = dup || y == decl{"0=ocfl_" + v, x}
			}
			if !dup {
				decls = append(decls, decl{"0=ocfl_" + v, x})
			}
		}
	}
	others := []decl{{"0=ocfl_", "ocfl_\n"}, {"0=ocfl_3.7", "ocfl_3.7\n"}, {"0=ocfl_0.9", "ocfl_0.9\n"}, {"0=ocfl_1", "ocfl_1\n"}, {"0=ocfl_1.1.1", "ocfl_1.1.1\n"}, {"0=ocfl_1.10", "ocfl_1.10\n"}, {"0=ocfl_01.1", "ocfl_01.1\n"}, {"1=ocfl_1.1", "ocfl_1.1\n"}, {"0=OCFL_1.1", "OCFL_1.1\n"}, {"ocfl_1.1", "ocfl_1.1\n"}, {"0=ocfl_1.1 ", "ocfl_1.1\n"}, {"x0=ocfl_1.1", "ocfl_1.1\n"}, {"0=ocfl_object_1.1", "ocfl_object_1.1\n"}, {"0=ocfl_1.1/x", ""}, {"0=ocfl_1x1", "ocfl_1x1\n"}}
	decls = append(decls, others...)
	isDecl := func(d decl) (found, right, open bool) {
		if d.name != "0=ocfl_1.0" && d.name != "0=ocfl_1.1" {
			// a declaration of another version, or none at all
			return false, false, true
		}
		want := d.name[2:] + "\n"
		return true, d.data == want, d.data == d.name[2:]+"\r\n"
	}
	flat := rootCfgs()[0]
	for _, withObj := range []bool{false, true} {
		b.Do(fmt.Sprintf("declarations object=%v", withObj), func(c *C) {
			base := flat.start().snap
			if withObj {
				for k, v := range (&WObj{ID: "o", Specs: []string{"1.0"}, Algs: []string{"sha512"}, States: []Tree{{"a": "A"}}}).write() {
					base["o/"+k] = v
				}
			}
			base = FromSnap("root", base).Snap()
			delete(base, "0=ocfl_1.1")
			one := func(pick []decl, ext bool) {
				s := base.copy()
				if !ext {
					for k := range s {
						if strings.HasPrefix(k, "extensions/") || strings.HasSuffix(k, ".md") || k == "ocfl_layout.json" {
							delete(s, k)
						}
					}
				}
				n, open, right := 0, false, true
				names := ""
				ver := ""
				for _, x := range pick {
					if _, dup := s[x.name]; dup || x.name == "0=ocfl_1.1/x" && strings.Contains(names, " 0=ocfl_1.1:") {
						return
					}
					s[x.name] = x.data
					f, ok, op := isDecl(x)
					if f {
						n++
						right = right && ok
						ver = x.name[7:]
					}
					open = open || op
					names += fmt.Sprintf(" %s:%q", x.name, x.data)
				}
				what := fmt.Sprintf("declarations%s object=%v extensions=%v", names, withObj, ext)
				c.Step()
				c.State(what)
				c.Case(what)
				d := FromSnap("root", s)
				s = d.Snap()
				sr, _, ctx, err := flat.env.Load(d.FS())
				if isPanic(err) {
					c.Fail("panic", "%s: %s", what, short(err))
					return
				}
				lerrs := loadErrors(ctx)
				es, _, verr := flat.env.Validate(d.FS())
				if isPanic(verr) {
					c.Fail("panic", "%s: %s", what, short(verr))
					return
				}
				quiet := err == nil && lerrs == 0
				vquiet := verr == nil && len(es) == 0
				if x := s.Diff(d.Snap()); x != "" {
					c.Fail("loading changes the storage root", "%s: %s", what, x)
				}
				switch {
				case n != 1 || !right && !open:
					if quiet {
						c.Fail("bad declaration loaded without complaint", "%s", what)
					}
					if vquiet {
						c.Fail("bad declaration validated without complaint", "%s", what)
					}
				case right && !open:
					if !quiet {
						c.Fail("good declaration not loaded", "%s: %s %d", what, short(err), lerrs)
					} else if string(sr.GetVersion()) != ver {
						c.Fail("wrong version loaded", "%s: %s", what, sr.GetVersion())
					}
					if !vquiet && !(withObj && ver == "1.0" && false) {
						c.Fail("good declaration not validated", "%s: %v %s", what, es, short(verr))
					}
				}
			}
			for _, ext := range []bool{true, false} {
				one(nil, ext)
				for i, x := range decls {
					one([]decl{x}, ext)
					for j, y := range decls[i+1:] {
						one([]decl{x, y}, ext)
						if r.Thorough() {
							for _, z := range decls[i+1+j+1:] {
								one([]decl{x, y, z}, ext)
							}
						}
					}
				}
			}
		})
	}
	b.Wait()
}
