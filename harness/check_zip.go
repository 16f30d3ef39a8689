package main

// C25: storage roots in ZIP containers.

import (
	"archive/zip"
	"bytes"
	"crypto/sha512"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"github.com/je4/filesystem/v3/pkg/writefs"
	"github.com/je4/filesystem/v3/pkg/zipfs"
	"github.com/je4/filesystem/v3/pkg/zipfsrw"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/utils/v2/pkg/checksum"
)

func init() {
	register(&Check{Prop: "C25", Level: "model_checking", Run: runC25,
		Rule:   "every sequence of up to 2 (thorough 3; quick: a third of the second operations) creations and updates (trees x modes x two objects) carried out in a directory and in a ZIP container (compressed, stored; reopened after every operation or kept open; root and first object created together or not; files taken from a directory or a ZIP); after every operation the files of the container are read with archive/zip and compared with the directory, and validation, reports and extraction of all versions through the read only container are compared",
		Assume: []string{"the names of folders and objects are no prefixes of each other (the library for ZIP containers mixes them up, known finding)", "files written in a session are not read in the same session (refused by the library for ZIP containers)"}})
}

var errHang = errors.New("does not end")

// within reports a call which does not end: a ZIP container allows only one
// open file, a file which is left open blocks.
func within(f func() error) error {
	ch := make(chan error, 1)
	go func() { ch <- guard(f) }()
	select {
	case err := <-ch:
		return err
	case <-time.After(45 * time.Second):
		return errHang
	}
}

func zipFactory(store, readOnly bool) *writefs.Factory {
	f, err := writefs.NewFactory()
	must(err)
	if readOnly {
		must(f.Register(zipfs.NewCreateFSFunc(logger), `\.zip$`, writefs.HighFS))
	} else {
		must(f.Register(zipfsrw.NewCreateFSChecksumFunc(store, []checksum.DigestAlgorithm{checksum.DigestSHA512}, logger), `\.zip$`, writefs.HighFS))
	}
	must(f.Register(osfsrw.NewCreateFSFunc(logger), "", writefs.LowFS))
	return f
}

// zipFiles reads a container.
func zipFiles(file string) (Snap, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}
	s := Snap{}
	for _, f := range zr.File {
		if _, ok := s[f.Name]; ok {
			return nil, fmt.Errorf("file %q is stored twice", f.Name)
		}
		if strings.HasSuffix(f.Name, "/") {
			continue
		}
		if !fs.ValidPath(f.Name) {
			return nil, fmt.Errorf("invalid name %q", f.Name)
		}
		r, err := f.Open()
		if err != nil {
			return nil, err
		}
		c, err := io.ReadAll(r)
		if err != nil {
			return nil, fmt.Errorf("%s: %w", f.Name, err)
		}
		s[f.Name] = string(c)
	}
	return s, nil
}

func zipTree(file string, t Tree) {
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	for _, n := range t.names() {
		if strings.HasSuffix(n, "/") {
			continue
		}
		x, err := w.Create(n)
		must(err)
		_, err = x.Write([]byte(t[n]))
		must(err)
	}
	must(w.Close())
	must(os.WriteFile(file, b.Bytes(), 0o644))
}

type zCfg struct {
	env    *Env
	store  bool
	keep   bool // one session for all operations
	create bool // the root is created together with the first object
	src    string
	tag    string // names in reports
}

func (z zCfg) String() string {
	return fmt.Sprintf("%s store=%v keep=%v create=%v src=%s", z.env.Name, z.store, z.keep, z.create, z.src)
}

type zOp struct {
	id   string
	tree int
	mode mode
	area string
}

func (o zOp) String() string { return fmt.Sprintf("%s<-%d%v%s", o.id, o.tree, o.mode, o.area) }

func zTrees() []Tree {
	return []Tree{
		{"a": "one", "d/b": "two"},
		{"a": "two", "c": "two", "e": ""},
		{"d/b": "three", "ä ~.txt": "one", "big": strings.Repeat("0123456789", 5000)},
	}
}

// run carries out the operations in a container; res are the results of the
// operations.
func (z zCfg) run(dir string, ops []zOp) (res []error, err error) {
	file := filepath.Join(dir, "x.zip")
	session := func(f func(fsys fs.FS) error) error {
		fsys, err := zipFactory(z.store, false).Get(file)
		if err != nil {
			return err
		}
		if err := f(fsys); err != nil {
			return err
		}
		return writefs.Close(fsys)
	}
	add := func(fsys fs.FS, k int) error {
		res = append(res, nil)
		src, done := z.source(dir, ops[k])
		defer done()
		_, err := z.env.Do(fsys, Add{ID: ops[k].id, Msg: "m", User: "u", Addr: "a", Src: src, Area: ops[k].area, Dedup: ops[k].mode.dedup, Echo: ops[k].mode.echo})
		res[k] = err
		return err
	}
	first := 0
	err = within(func() error {
		return session(func(fsys fs.FS) error {
			if z.create && len(ops) > 0 {
				first = 1
				// like "gocfl create": the new root is used without loading it
				return guard(func() error {
					f, err := z.env.Factory()
					if err != nil {
						return err
					}
					m, err := f.LoadExtensions(extDisk(z.env.Root), nil)
					if err != nil {
						return err
					}
					sr, err := ocfl.CreateStorageRoot(newCtx(), fsys, z.env.Version, f, m, z.env.Digest, logger)
					if err != nil {
						return err
					}
					src, done := z.source(dir, ops[0])
					defer done()
					_, err = z.env.DoOn(sr, f, Add{ID: ops[0].id, Msg: "m", User: "u", Addr: "a", Src: src, Area: ops[0].area, Dedup: ops[0].mode.dedup, Echo: ops[0].mode.echo})
					res = append(res, err)
					return err
				})
			}
			return z.env.Init(fsys)
		})
	})
	if err != nil {
		return
	}
	if z.keep {
		err = within(func() error {
			return session(func(fsys fs.FS) error {
				sr, f, _, err := z.env.Load(fsys)
				if err != nil {
					return err
				}
				for k := first; k < len(ops); k++ {
					src, done := z.source(dir, ops[k])
					_, err := z.env.DoOn(sr, f, Add{ID: ops[k].id, Msg: "m", User: "u", Addr: "a", Src: src, Area: ops[k].area, Dedup: ops[k].mode.dedup, Echo: ops[k].mode.echo})
					done()
					res = append(res, err)
					if err != nil {
						return err
					}
				}
				return nil
			})
		})
		return
	}
	for k := first; k < len(ops); k++ {
		if err = within(func() error { return session(func(fsys fs.FS) error { return add(fsys, k) }) }); err != nil {
			return
		}
	}
	return
}

func (z zCfg) source(dir string, op zOp) (fs.FS, func()) {
	t := zTrees()[op.tree]
	if z.src != "zip" {
		return t.FS(), func() {}
	}
	zipTree(filepath.Join(dir, "src.zip"), t)
	fsys, err := zipFactory(false, true).Get(filepath.Join(dir, "src.zip"))
	must(err)
	return fsys, func() { must(writefs.Close(fsys)) }
}

func runC25(r *Run) {
	var envs []*Env
	for _, x := range rootCfgs() {
		switch x.name {
		case "flat direct", "hashed", "direct clean", "pairtree":
			envs = append(envs, x.env)
		case "hash and id":
			x.env.Version = ocfl.Version1_0
			envs = append(envs, x.env)
		}
	}
	areas := env11("areas", []Alg{checksum.DigestMD5}, contentExt("content", "data", "meta", "docs"))
	areas.Digest = checksum.DigestSHA256
	envs = append(envs, areas)
	var ops []zOp
	for _, id := range []string{"o1", "p/2"} {
		for i := range zTrees() {
			for _, m := range allModes {
				ops = append(ops, zOp{id: id, tree: i, mode: m})
			}
		}
	}
	depth := Pick(r, 2, 3)
	b := r.Batch()
	n := 0
	for _, env := range envs {
		my := ops
		if env == areas {
			my = nil
			for _, o := range ops {
				for _, a := range []string{"content", "meta"} {
					if o.id == "o1" {
						o.area = a
						my = append(my, o)
					}
				}
			}
		}
		for k := 0; k < 16; k++ {
			z := zCfg{env: env, store: k&1 != 0, keep: k&2 != 0, create: k&4 != 0, src: []string{"", "zip"}[k>>3]}
			n++
			for _, first := range my {
				b.Do(z.String()+" "+first.String(), func(c *C) {
					var rec func(ops []zOp)
					rec = func(l []zOp) {
						z.check(c, l)
						if len(l) == depth {
							return
						}
						for i, o := range my {
							// a new object cannot be updated before the container is closed
							if z.keep && slices.ContainsFunc(l[btoi(z.create):], func(p zOp) bool { return p.id == o.id }) {
								continue
							}
							if !r.Thorough() && (i+len(l[0].String())+l[0].tree+k)%3 != 0 {
								continue
							}
							// the first operation of the sequence never changes another object first
							rec(append(append([]zOp{}, l...), o))
						}
					}
					if first.id != "p/2" || env == areas {
						rec([]zOp{first})
					}
				})
			}
		}
	}
	// names which are prefixes of each other
	flat := envs[0]
	for _, src := range []string{"", "zip"} {
		z := zCfg{env: flat, src: src}
		for _, ids := range [][]string{{"a", "ab"}, {"ab", "a"}, {"v1", "v10"}} {
			b.Do(fmt.Sprintf("%v objects %q", z, ids), func(c *C) {
				z.tag = fmt.Sprintf("objects %q: ", ids)
				z.check(c, []zOp{{id: ids[0], mode: mode{true, false}}, {id: ids[1], tree: 1, mode: mode{true, false}}})
			})
		}
		b.Do(fmt.Sprintf("%v ten versions", z), func(c *C) {
			z.tag = "ten versions: "
			var l []zOp
			for i := 0; i < 10; i++ {
				l = append(l, zOp{id: "o1", tree: i % 3, mode: mode{true, false}})
			}
			z.check(c, l)
		})
	}
	r.Extra("configurations", n)
	b.Wait()
}

func (z zCfg) check(c *C, ops []zOp) {
	what := fmt.Sprintf("%v %v", z, ops)
	c.Step()
	// directory
	d := NewDisk("root")
	must(z.env.Init(d.FS()))
	var want []error
	for _, op := range ops {
		_, err := z.env.Do(d.FS(), Add{ID: op.id, Msg: "m", User: "u", Addr: "a", Src: zTrees()[op.tree].FS(), Area: op.area, Dedup: op.mode.dedup, Echo: op.mode.echo})
		want = append(want, err)
		if err != nil {
			return // decided by other checks
		}
	}
	dir, cleanup := scratch()
	defer cleanup()
	if _, err := z.run(dir, ops); err != nil {
		c.Fail(z.tag+"fails in a ZIP: "+short(err), "%s: %v", what, err)
		return
	}
	file := filepath.Join(dir, "x.zip")
	got, err := zipFiles(file)
	if err != nil {
		c.Fail(z.tag+"damaged container", "%s: %v", what, err)
		return
	}
	ds := d.Snap().OnlyFiles()
	if x := sameTree(canonFiles(ds), canonFiles(got)); x != "" {
		c.Fail(z.tag+"files differ from the directory", "%s: %s", what, x)
		return
	}
	raw, err := os.ReadFile(file)
	must(err)
	side, err := os.ReadFile(file + ".sha512")
	if err != nil || string(side) != fmt.Sprintf("%x *x.zip", sha512.Sum512(raw)) {
		c.Fail(z.tag+"wrong sidecar of the container", "%s: %v %q", what, err, side)
	}
	zr, err := zip.NewReader(bytes.NewReader(raw), int64(len(raw)))
	must(err)
	for _, f := range zr.File {
		if (f.Method == zip.Store) != z.store {
			c.Fail(z.tag+"wrong compression", "%s: %s: %d", what, f.Name, f.Method)
			break
		}
	}
	c.State(canon(got))
	// reading
	ro := func(f func(fsys fs.FS) error) error {
		return within(func() error {
			fsys, err := zipFactory(false, true).Get(file)
			if err != nil {
				return err
			}
			if err := f(fsys); err != nil {
				return err
			}
			return writefs.Close(fsys)
		})
	}
	var zes, zws []string
	if err := ro(func(fsys fs.FS) (err error) { zes, zws, err = z.env.Validate(fsys); return }); err != nil {
		c.Fail(z.tag+"validation fails in a ZIP: "+short(err), "%s: %v", what, err)
	} else {
		des, dws, err := z.env.Validate(d.FS())
		if err != nil {
			return
		}
		if fmt.Sprint(zes) != fmt.Sprint(des) {
			c.Fail(z.tag+"validation differs in a ZIP", "%s: %q instead of %q", what, zes, des)
		}
		if codesOf(zws) != codesOf(dws) {
			c.Fail(z.tag+"warnings differ in a ZIP", "%s: %q instead of %q", what, zws, dws)
		}
	}
	ids := findObjs(got)
	for prefix, id := range ids {
		o := ReadObj(got.Sub(prefix))
		for _, v := range append([]string{"latest"}, o.Vers...) {
			t, u := NewDisk("t"), NewDisk("u")
			if err := ro(func(fsys fs.FS) error { return z.env.Extract(fsys, t.FS(), "", id, v, true, ops[0].area) }); err != nil {
				c.Fail(z.tag+"extraction fails in a ZIP: "+short(err), "%s: %s %s: %v", what, id, v, err)
				continue
			}
			if err := z.env.Extract(d.FS(), u.FS(), "", id, v, true, ops[0].area); err != nil {
				continue
			}
			if x := sameTree(sortLines(u.Snap().OnlyFiles()), sortLines(t.Snap().OnlyFiles())); x != "" {
				c.Fail(z.tag+"extraction differs in a ZIP", "%s: %s %s: %s", what, id, v, x)
			}
		}
	}
	var zm *metaRoot
	if err := ro(func(fsys fs.FS) (err error) { zm, err = z.env.Meta(fsys, "", ""); return }); err != nil {
		c.Fail(z.tag+"report fails in a ZIP: "+short(err), "%s: %v", what, err)
	} else if dm, err := z.env.Meta(d.FS(), "", ""); err == nil {
		if a, b := timeless(mustJSON(zm)), timeless(mustJSON(dm)); a != b {
			c.Fail(z.tag+"report differs in a ZIP", "%s: %s instead of %s", what, a, b)
		}
	}
	c.Trace()
	c.Case(what)
}

// sortLines sorts the lines of manifests.
func sortLines(s Snap) Tree {
	t := Tree{}
	for k, v := range s {
		if strings.HasPrefix(k, "manifest.") {
			l := strings.Split(v, "\n")
			sort.Strings(l)
			v = strings.Join(l, "\n")
		}
		t[k] = v
	}
	return t
}

var timeRe = regexp.MustCompile(`\d{4}-\d\d-\d\dT\d\d:[^"]*`)

func timeless(b []byte) string { return string(timeRe.ReplaceAll(b, []byte("T"))) }

// canonFiles are the files without times and digests of inventories.
func canonFiles(s Snap) Tree {
	t := Tree{}
	for k, v := range s {
		t[k] = canon(Snap{path.Base(k): v})
	}
	return t
}

func codesOf(l []string) string {
	var r []string
	for _, x := range l {
		r = append(r, strings.SplitN(x, ":", 2)[0])
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}
