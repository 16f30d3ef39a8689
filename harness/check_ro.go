package main

// C34: reading never changes the storage, and needs no more than reading.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"

	"github.com/je4/gocfl/v2/pkg/ocfl"
)

func init() {
	register(&Check{Prop: "C34", Level: "model_checking", Run: runC34,
		Rule:   "storage roots (layouts, names with reserved characters, areas, extensions with data, descriptive metadata, objects of other tools, every single corruption of objects and of the storage root, and everything reachable by short histories) x every reading operation and every pair of them in one session; every operation of the storage is observed, and everything is repeated on a file system which can only be read: the outcomes have to be the same (not for damaged objects)",
		Assume: []string{"only operations which cannot be undone by reading are looked at: access times are none of the file systems used here"}})
}

// roFS has nothing but Open.
type roFS struct{ f fs.FS }

func (r roFS) Open(name string) (fs.File, error) {
	name = path.Clean(name)
	fi, err := fs.Stat(r.f, name)
	if err != nil {
		return nil, err
	}
	if fi.IsDir() {
		es, err := fs.ReadDir(r.f, name)
		return &roDir{fi, es}, err
	}
	return r.f.Open(name)
}

type roDir struct {
	fi fs.FileInfo
	es []fs.DirEntry
}

func (d *roDir) Stat() (fs.FileInfo, error) { return d.fi, nil }
func (d *roDir) Close() error               { return nil }
func (d *roDir) Read([]byte) (int, error)   { return 0, fs.ErrInvalid }
func (d *roDir) ReadDir(n int) (r []fs.DirEntry, err error) {
	r = d.es
	if n > 0 && len(r) > n {
		r = r[:n]
	}
	d.es = d.es[len(r):]
	if n > 0 && len(r) == 0 {
		return nil, io.EOF
	}
	return r, nil
}

// roOp is a reading operation; out is what it delivers.
type roOp struct {
	name string
	run  func(w *vWorld, sr ocfl.StorageRoot, f *ocfl.ExtensionFactory) (out string, err error)
}

func roOps(w *vWorld) []roOp {
	js := func(x any, err error) (string, error) {
		if err != nil {
			return "", err
		}
		b, err := json.Marshal(x)
		return string(b), err
	}
	ops := []roOp{
		{"folders", func(w *vWorld, sr ocfl.StorageRoot, f *ocfl.ExtensionFactory) (string, error) {
			return js(sr.GetFolders())
		}},
		{"files", func(w *vWorld, sr ocfl.StorageRoot, f *ocfl.ExtensionFactory) (string, error) {
			return js(sr.GetFiles())
		}},
		{"objects", func(w *vWorld, sr ocfl.StorageRoot, f *ocfl.ExtensionFactory) (string, error) {
			return js(sr.GetObjectFolders())
		}},
		{"check", func(w *vWorld, sr ocfl.StorageRoot, f *ocfl.ExtensionFactory) (string, error) { return "", sr.Check() }},
		{"stat", func(w *vWorld, sr ocfl.StorageRoot, f *ocfl.ExtensionFactory) (string, error) {
			var b bytes.Buffer
			err := sr.Stat(&b, "", "", nil)
			return b.String(), err
		}},
		{"meta", func(w *vWorld, sr ocfl.StorageRoot, f *ocfl.ExtensionFactory) (string, error) {
			return js(sr.ExtractMeta("", ""))
		}},
		{"extract all", func(w *vWorld, sr ocfl.StorageRoot, f *ocfl.ExtensionFactory) (string, error) {
			d := NewDisk("target")
			err := sr.Extract(d.FS(), "", "", "latest", true, "")
			return mustString(d.Snap()), err
		}},
	}
	for _, id := range append(w.ids(), "no such object") {
		p := w.pre[id]
		if p == "" {
			p = "no such folder"
		}
		open := func(f func(o ocfl.Object) (string, error)) func(w *vWorld, sr ocfl.StorageRoot, fac *ocfl.ExtensionFactory) (string, error) {
			return func(w *vWorld, sr ocfl.StorageRoot, fac *ocfl.ExtensionFactory) (string, error) {
				o, err := sr.LoadObjectByFolder(p)
				if err != nil {
					return "", err
				}
				return f(o)
			}
		}
		ops = append(ops,
			roOp{"exists " + id, func(w *vWorld, sr ocfl.StorageRoot, f *ocfl.ExtensionFactory) (string, error) {
				return js(sr.ObjectExists(id))
			}},
			roOp{"by id " + id, func(w *vWorld, sr ocfl.StorageRoot, f *ocfl.ExtensionFactory) (string, error) {
				o, err := sr.LoadObjectByID(id)
				if err != nil {
					return "", err
				}
				return js(o.GetInventory(), o.Close())
			}},
			roOp{"open " + p, open(func(o ocfl.Object) (string, error) { return js(o.GetInventory(), o.Close()) })},
			roOp{"own report " + p, open(func(o ocfl.Object) (string, error) {
				x, err := o.GetMetadata()
				s, err := js(x, err)
				if err != nil {
					return "", err
				}
				return s, o.Close()
			})},
			roOp{"own check " + p, open(func(o ocfl.Object) (string, error) {
				if err := o.Check(); err != nil {
					return "", err
				}
				return "", o.Close()
			})},
			roOp{"check id " + id, func(w *vWorld, sr ocfl.StorageRoot, f *ocfl.ExtensionFactory) (string, error) {
				return "", sr.CheckObjectByID(id)
			}},
			roOp{"check folder " + p, func(w *vWorld, sr ocfl.StorageRoot, f *ocfl.ExtensionFactory) (string, error) {
				return "", sr.CheckObjectByFolder(p)
			}},
			roOp{"stat " + p, func(w *vWorld, sr ocfl.StorageRoot, f *ocfl.ExtensionFactory) (string, error) {
				var b bytes.Buffer
				err := sr.Stat(&b, p, "", nil)
				return b.String(), err
			}},
			roOp{"meta " + p, func(w *vWorld, sr ocfl.StorageRoot, f *ocfl.ExtensionFactory) (string, error) {
				return js(sr.ExtractMeta(p, ""))
			}},
		)
		vs := []string{"latest", "v1", "v9"}
		for _, v := range vs {
			ops = append(ops, roOp{"extract " + v + " " + p, func(w *vWorld, sr ocfl.StorageRoot, f *ocfl.ExtensionFactory) (string, error) {
				d := NewDisk("target")
				err := sr.Extract(d.FS(), p, "", v, true, "")
				return mustString(d.Snap()), err
			}})
		}
	}
	return ops
}

func mustString(s Snap) string {
	var b strings.Builder
	for _, p := range sortedKeys(s) {
		x := s[p]
		if strings.HasPrefix(path.Base(p), "manifest.") {
			// any order
			l := strings.Split(x, "\n")
			sort.Strings(l)
			x = strings.Join(l, "\n")
		}
		fmt.Fprintf(&b, "%q:%q\n", p, x)
	}
	return b.String()
}

// roRun executes operations in one session; the result describes everything
// that can be observed.
func (w *vWorld) roRun(fsys fs.FS, ops []roOp) (r []string) {
	sr, f, ctx, err := w.env.Load(fsys)
	if err != nil {
		if isPanic(err) {
			return []string{"panic " + short(err)}
		}
		return []string{"not loaded"}
	}
	for _, op := range ops {
		var out string
		err := guard(func() (err error) { out, err = op.run(w, sr, f); return })
		x := "ok"
		if isPanic(err) {
			x = "panic " + short(err)
		} else if err != nil {
			x = "error"
			out = "" // what was delivered before the error may differ in order
		}
		st, serr := ocfl.GetValidationStatus(ctx)
		must(serr)
		var codes []string
		for _, e := range st.Errors {
			codes = append(codes, string(e.Code))
		}
		sort.Strings(codes)
		r = append(r, fmt.Sprintf("%s %s %v", x, out, codes))
	}
	return
}

// roCheck executes operations on a file system that can be written, and on
// one which cannot.
func (w *vWorld) roCheck(c *C, ops ...roOp) {
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	what := fmt.Sprintf("%s: %q", w.name, names)
	c.Step()
	d := FromSnap("root", w.snap)
	before := d.Snap()
	var wrote []string
	d.Hook = func(o Op) (int, error) {
		if o.Mutates() {
			wrote = append(wrote, o.Kind+" "+o.Path)
		}
		return 1 << 30, nil
	}
	got := w.roRun(d.FS(), ops)
	d.Hook = nil
	for _, x := range wrote {
		c.Fail("reading: writes", "%s: %s", what, x)
	}
	if diff := before.Diff(d.Snap()); diff != "" {
		c.Fail("reading: changes the storage", "%s: %s", what, diff)
	}
	for _, p := range d.Escaped() {
		c.Fail("reading: writes outside", "%s: %s", what, p)
	}
	c.State(w.name + strings.Join(got, "\n"))
	c.Case(what)
	if w.damaged {
		return
	}
	r := w.roRun(roFS{FromSnap("root", w.snap).FS()}, ops)
	// the outcome may depend on the order of maps
	rw, ro := map[string]bool{}, map[string]bool{}
	for k := 0; k < 20; k++ {
		rw[strings.Join(got, "\n")], ro[strings.Join(r, "\n")] = true, true
		same := false
		for x := range rw {
			same = same || ro[x]
		}
		if same {
			r = got
			break
		}
		got = w.roRun(FromSnap("root", w.snap).FS(), ops)
		r = w.roRun(roFS{FromSnap("root", w.snap).FS()}, ops)
	}
	for i := range got {
		if i >= len(r) || r[i] != got[i] {
			x := ""
			if i < len(r) {
				x = r[i]
			}
			c.Fail("reading: different on a file system which can only be read", "%s: %.600q instead of %.600q", what, x, got[i])
			break
		}
	}
}

func runC34(r *Run) {
	worlds := vWorlds()
	b := r.Batch()
	for _, w := range worlds {
		ops := roOps(w)
		foreign := strings.HasPrefix(w.name, "foreign")
		b.Do(w.name, func(c *C) {
			for _, o := range ops {
				w.roCheck(c, o)
			}
			c.Sample("%s: %d operations", w.name, len(ops))
		})
		if foreign && !r.Thorough() {
			continue
		}
		for i := range ops {
			b.Do(fmt.Sprintf("%s pairs %d", w.name, i), func(c *C) {
				for j := range ops {
					if !r.Thorough() && len(ops) > 20 && (i+j)%10 != 0 {
						continue
					}
					w.roCheck(c, ops[i], ops[j])
				}
			})
		}
	}
	b.Wait()
	// corrupted objects and storage roots
	initValRoot()
	e := valEnv()
	for bi, base := range bases(r) {
		if !r.Thorough() && bi%6 != 0 {
			continue
		}
		s := base.write()
		run := func(name string, muts []mutation, mk func(m mutation) Snap, id string) {
			for pi, part := range chunk(muts, 50) {
				b.Do(fmt.Sprintf("%s %s %d", name, base.Name, pi), func(c *C) {
					for _, m := range part {
						snap := FromSnap("w", mk(m)).Snap()
						w := &vWorld{name: name + " " + base.Name + " " + m.name, env: e, snap: snap, damaged: true, objs: map[string]*RefObj{id: nil}, pre: map[string]string{id: "o"}}
						var all []roOp
						for _, o := range roOps(w) {
							if strings.Contains(o.name, "no such") {
								continue
							}
							if all = append(all, o); r.Thorough() {
								w.roCheck(c, o)
							}
						}
						w.roCheck(c, all...)
					}
				})
			}
		}
		om := objMutations(s)
		run("object", om, func(m mutation) Snap { return rootWith(m.f(s.copy())) }, base.ID)
		rs := rootWith(s)
		run("root", rootMutations(rs), func(m mutation) Snap { return m.f(rs.copy()) }, base.ID)
	}
	b.Wait()
	cfgs := histCfgs(r)
	if !r.Thorough() {
		for _, x := range cfgs {
			if x.Name == "long" {
				x.Depth = 4
			} else if x.Depth > 2 {
				x.Depth = 2
			}
		}
	}
	histories(r, cfgs, func(c *C, t *Trans) {
		if opErr(c, t) {
			return
		}
		w := newWorld(t.Cfg.Name, t.Cfg.Env, t.Disk.Snap())
		w.roCheck(c, roOps(w)...)
	})
}
