package main

// C24: deleting and renaming logical paths.

import (
	"fmt"
	"io/fs"
	"strings"

	"github.com/je4/gocfl/v2/pkg/ocfl"
)

func init() {
	register(&Check{Prop: "C24", Level: "model_checking", Run: runC24,
		Rule:   "every script of up to 2 (thorough 3) primitive operations (delete, rename, add, with matching, stale and senseless paths and digests) within one update, and every sequence of two updates with one operation each, on a set of start objects (own, foreign with other digests and padding); after the update the state, all earlier versions (by extraction) and the validity of the object are compared with a model",
		Assume: []string{"a rename onto an existing path or onto an invalid path is refused, as is different content for a path which has got content in the same update"}})
}

type prim struct {
	kind, p, q string
	d          string // content whose digest is given; "?" stands for no digest, "!" for a senseless one
}

func (o prim) String() string { return fmt.Sprintf("%s %q %q %q", o.kind, o.p, o.q, o.d) }

// model applies the operation; ok is false if it has to be refused. known is
// the content the object has, fresh maps paths stored by this update to their
// content: content which has been stored is never overwritten.
func (o prim) model(t Tree, known map[string]bool, fresh Tree) (n Tree, ok bool) {
	n = t.Clone()
	switch o.kind {
	case "add":
		if !fs.ValidPath(o.p) || o.p == "." {
			return t, false
		}
		n[o.p] = o.d
		if !known[o.d] {
			if d, has := fresh[o.p]; has && d != o.d {
				return t, false
			}
			fresh[o.p] = o.d
			known[o.d] = true
		}
	case "delete":
		if d, has := t[o.p]; has && d == o.d {
			delete(n, o.p)
		}
	case "rename":
		if d, has := t[o.p]; has && d == o.d && o.p != o.q {
			if _, busy := t[o.q]; busy {
				return t, false
			}
			if o.q == "" || !fs.ValidPath(o.q) || o.q == "." {
				return t, false
			}
			delete(n, o.p)
			n[o.q] = d
		}
	}
	return n, true
}

// rare operations are combined with others in the thorough run only
func (o prim) rare() bool {
	switch {
	case o.kind == "add":
		return !fs.ValidPath(o.p)
	case o.d == "?" || o.d == "!" || o.p == "" || o.q == "/abs" || o.q == "new/./x" || o.q == "../z" || o.q == "d" || o.p == "new" && o.q != "b":
		return true
	}
	return false
}

func (o prim) run(ob ocfl.Object) error {
	alg := string(ob.GetInventory().GetDigestAlgorithm())
	d := refDigest(alg, o.d)
	switch o.d {
	case "?":
		d = ""
	case "!":
		d = "senseless"
	}
	if up := ob.GetInventory().GetManifest(); len(up) > 0 { // digests as they are recorded
		for k := range up {
			if strings.EqualFold(k, d) {
				d = k
			}
		}
	}
	switch o.kind {
	case "add":
		return ob.AddData([]byte(o.d), o.p, true, "content", false, false)
	case "delete":
		return ob.DeleteFile(o.p, d)
	default:
		return ob.RenameFile(o.p, o.q, d)
	}
}

func runC24(r *Run) {
	e := env11("edit", fixAlgs("sha256"))
	var prims []prim
	paths := []string{"a", "b", "d/c"}
	for _, p := range append(append([]string{}, paths...), "new", "", "d") {
		for _, d := range []string{"X", "Y", "?", "!"} {
			if p != "a" && d == "!" || p == "" && d != "X" {
				continue
			}
			prims = append(prims, prim{kind: "delete", p: p, d: d})
		}
	}
	for _, p := range append(append([]string{}, paths...), "new") {
		for _, q := range []string{"a", "b", "new", "d/x", "a/y", "d", "../z", "", "/abs", "new/./x"} {
			for _, d := range []string{"X", "Y", "?"} {
				if d == "?" && q != "new" || p == "new" && d == "?" {
					continue
				}
				prims = append(prims, prim{kind: "rename", p: p, q: q, d: d})
			}
		}
	}
	for _, p := range []string{"a", "new"} {
		for _, d := range []string{"X", "Z"} {
			prims = append(prims, prim{kind: "add", p: p, d: d})
		}
	}
	for _, p := range []string{"../z", "d/../x", "../../inventory.json", "", "/abs", "./x", "new/./x", "new//x", ".."} {
		for _, d := range []string{"X", "Z"} {
			prims = append(prims, prim{kind: "add", p: p, d: d})
		}
	}
	type start struct {
		name string
		s    Snap
		vs   []Tree
	}
	var starts []start
	mk := func(name string, w *WObj) {
		initValRoot()
		s := rootWith(w.write())
		starts = append(starts, start{name, FromSnap("w", s).Snap(), w.States})
	}
	t1 := Tree{"a": "X", "b": "Y", "d/c": "X"}
	{
		d := NewDisk("root")
		must(e.Init(d.FS()))
		starts = append(starts, start{"new", d.Snap(), nil})
		_, err := e.Do(d.FS(), add1("o", t1, mode{true, false}, ""))
		must(err)
		starts = append(starts, start{"own", d.Snap(), []Tree{t1}})
		_, err = e.Do(d.FS(), add1("o", Tree{"a": "Y", "b": "Y"}, mode{true, true}, ""))
		must(err)
		starts = append(starts, start{"own two", d.Snap(), []Tree{t1, {"a": "Y", "b": "Y"}}})
	}
	mk("foreign sha256", &WObj{ID: "o", Specs: []string{"1.0"}, Algs: []string{"sha256"}, States: []Tree{t1}})
	mk("foreign padded", &WObj{ID: "o", Specs: []string{"1.1"}, Algs: []string{"sha512"}, Width: 4, States: []Tree{{"b": "X"}, t1}})
	mk("foreign upper", &WObj{ID: "o", Specs: []string{"1.1"}, Algs: []string{"sha512"}, Upper: true, States: []Tree{t1}})
	mk("foreign fixity", &WObj{ID: "o", Specs: []string{"1.1"}, Algs: []string{"sha256"}, Fix: []string{"md5"}, Upper: true, States: []Tree{{"a": "Y"}, t1}})
	b := r.Batch()
	ve := valEnv()
	for _, st := range starts {
		env := e
		if strings.HasPrefix(st.name, "foreign") {
			env = ve
		}
		// update performs a script and compares; it returns the new state
		update := func(c *C, s Snap, vs []Tree, script []prim, before string, deep bool) (Snap, []Tree) {
			what := fmt.Sprintf("%s%s %v", st.name, before, script)
			d := FromSnap("w", s)
			cur := Tree{}
			if len(vs) > 0 {
				cur = vs[len(vs)-1]
			}
			model, ok := cur.Clone(), true
			_, err := env.Do(d.FS(), Add{ID: "o", Msg: "m", User: "u", Addr: "x:y", Src: Tree{}.FS(), Body: func(o ocfl.Object) error {
				for _, p := range script {
					if err := p.run(o); err != nil {
						return err
					}
				}
				return nil
			}})
			known, fresh := map[string]bool{}, Tree{}
			for _, v := range vs {
				for _, d := range v {
					known[d] = true
				}
			}
			undone := false
			for _, p := range script {
				if ok {
					was := model
					model, ok = p.model(model, known, fresh)
					undone = undone || sameTree(was, model) != ""
				}
			}
			c.Step()
			c.Case(what)
			after := d.Snap()
			if isPanic(err) {
				c.Fail("panic", "%s: %s", what, short(err))
				return nil, nil
			}
			if x := d.Escaped(); len(x) > 0 {
				c.Fail("written outside of the storage root", "%s: %q", what, x)
			}
			immutable(c, s, after, what)
			if !ok || conflicts(model.names()) != "" {
				if err == nil {
					c.Fail("impossible operation accepted", "%s: %v", what, model)
				}
				return nil, nil
			}
			if err != nil {
				c.Fail("operation fails: "+short(err), "%s: %s", what, short(err))
				return nil, nil
			}
			o := ReadObj(after.Sub(objPrefix(after, "o")))
			if bad := o.Invalid(); len(bad) > 0 {
				c.Fail("invalid object", "%s: %v", what, bad)
				return nil, nil
			}
			nvs := vs
			if sameTree(cur, model) != "" || len(vs) == 0 {
				nvs = append(append([]Tree{}, vs...), model)
			}
			if len(o.Vers) == len(vs)+1 && len(nvs) == len(vs) {
				// changed and changed back within one update
				if !undone {
					c.Fail("request which matches nothing creates a version", "%s", what)
				}
				nvs = append(append([]Tree{}, vs...), model)
			}
			if len(o.Vers) != len(nvs) {
				c.Fail("wrong number of versions", "%s: %d instead of %d", what, len(o.Vers), len(nvs))
				return nil, nil
			}
			if len(nvs) == len(vs) {
				if x := s.OnlyFiles().Diff(after.OnlyFiles()); x != "" {
					c.Fail("request which matches nothing changes the object", "%s: %s", what, x)
				}
			}
			for i, want := range nvs {
				if x := sameTree(want, o.Version(o.Vers[i])); x != "" {
					c.Fail("wrong state", "%s: %s: %s", what, o.Vers[i], x)
				}
				if !deep {
					continue
				}
				t := NewDisk("t")
				if err := env.Extract(d.FS(), t.FS(), "", "o", o.Vers[i], false, ""); err != nil {
					c.Fail("extraction fails", "%s: %s: %s", what, o.Vers[i], short(err))
				} else if x := sameTree(want, Tree(t.Snap().OnlyFiles())); x != "" {
					c.Fail("wrong files extracted", "%s: %s: %s", what, o.Vers[i], x)
				}
				c.Step()
			}
			c.State(canon(after))
			return after, nvs
		}
		for i, p := range prims {
			b.Do(fmt.Sprintf("%s %03d", st.name, i), func(c *C) {
				s2, vs2 := update(c, st.s, st.vs, []prim{p}, "", true)
				if s2 != nil && len(vs2) > 0 {
					if es, _, err := env.Validate(FromSnap("w", s2).FS()); err != nil || len(es) > 0 {
						c.Fail("validation reports errors", "%s %v: %v %s", st.name, p, es, short(err))
					}
					c.Trace()
					onOS(s2, func(fsys fs.FS, _ string) {
						onOS(Snap{}, func(tgt fs.FS, dir string) {
							if err := env.Extract(fsys, tgt, "", "o", "", false, ""); err != nil {
								c.Fail("extraction fails on disk", "%s %v: %s", st.name, p, short(err))
							} else if x := sameTree(vs2[len(vs2)-1], Tree(osSnap(dir).OnlyFiles())); x != "" {
								c.Fail("wrong files extracted on disk", "%s %v: %s", st.name, p, x)
							}
						})
					})
				}
				if !r.Thorough() && (st.name == "own two" || st.name == "foreign sha256" || p.rare()) {
					return
				}
				for _, p2 := range prims {
					if !r.Thorough() && p2.rare() {
						continue
					}
					update(c, st.s, st.vs, []prim{p, p2}, "", r.Thorough())
					if s2 != nil && sameTree(Tree(s2), Tree(st.s)) != "" {
						update(c, s2, vs2, []prim{p2}, fmt.Sprintf(" after %v:", p), r.Thorough())
					}
					if r.Thorough() && (st.name == "own" || st.name == "own two") {
						if p.rare() || p2.rare() {
							continue
						}
						for _, p3 := range prims {
							if !p3.rare() {
								update(c, st.s, st.vs, []prim{p, p2, p3}, "", false)
							}
						}
					}
				}
			})
		}
	}
	b.Wait()
	r.Extra("primitive_operations", len(prims))
	r.Extra("start_objects", len(starts))
}
