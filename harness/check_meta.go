package main

// C20: metadata report.

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"sort"
	"strings"
	"time"

	"github.com/je4/gocfl/v2/pkg/ocfl"
)

func init() {
	register(&Check{Prop: "C20", Level: "model_checking", Run: runC20,
		Rule:   histRule + " After every update the metadata report of the object and of the whole storage root is compared with the inventory read by an independent reader; likewise every valid object of the writer's space (combinations of features) alone and in pairs in one storage root.",
		Assume: histAssume})
}

// the report as it is written by the tool
type metaFile struct {
	Checksums    map[string]string
	InternalName []string
	VersionName  map[string][]string
	Extension    map[string]any
}
type metaObj struct {
	ID, DigestAlgorithm, Head string
	Versions                  map[string]*ocfl.VersionMetadata
	Files                     map[string]*metaFile
	Extension                 any
}
type metaRoot struct{ Objects map[string]*metaObj }

func (e *Env) Meta(fsys fs.FS, p, id string) (m *metaRoot, err error) {
	sr, _, _, err := e.Load(fsys)
	if err != nil {
		return nil, err
	}
	err = guard(func() error {
		x, err := sr.ExtractMeta(p, id)
		if err != nil {
			return err
		}
		// what the tool writes
		data, err := json.Marshal(x)
		if err != nil {
			return err
		}
		return json.Unmarshal(data, &m)
	})
	return
}

func sameStrings(a, b []string) bool {
	a, b = append([]string{}, a...), append([]string{}, b...)
	sort.Strings(a)
	sort.Strings(b)
	return fmt.Sprintf("%q", a) == fmt.Sprintf("%q", b)
}

// checkMeta compares a report with an inventory.
func checkMeta(c *C, what string, m *metaObj, o *RefObj) {
	if m == nil {
		c.Fail("object missing in the report", "%s", what)
		return
	}
	inv := o.Inv
	if m.ID != inv.ID || m.Head != inv.Head || m.DigestAlgorithm != inv.DigestAlgorithm {
		c.Fail("wrong object data", "%s: %q %q %q instead of %q %q %q", what, m.ID, m.Head, m.DigestAlgorithm, inv.ID, inv.Head, inv.DigestAlgorithm)
	}
	for v, x := range inv.Versions {
		y := m.Versions[v]
		if y == nil {
			c.Fail("version missing in the report", "%s: %s", what, v)
			continue
		}
		msg, name, addr := "", "", ""
		if x.Message != nil {
			msg = *x.Message
		}
		if x.User != nil {
			name, addr = x.User.Name, x.User.Address
		}
		if y.Message != msg || y.Name != name || y.Address != addr {
			c.Fail("wrong version data", "%s: %s: %q %q %q instead of %q %q %q", what, v, y.Message, y.Name, y.Address, msg, name, addr)
		}
		if t, err := time.Parse(time.RFC3339, x.Created); err != nil || !t.Equal(y.Created) {
			c.Fail("wrong creation time", "%s: %s: %v instead of %s", what, v, y.Created, x.Created)
		}
	}
	if len(m.Versions) != len(inv.Versions) {
		c.Fail("unknown version in the report", "%s: %d versions instead of %d", what, len(m.Versions), len(inv.Versions))
	}
	files := map[string]*metaFile{}
	for d, f := range m.Files {
		if files[strings.ToLower(d)] != nil {
			c.Fail("content reported twice", "%s: %s", what, d)
		}
		files[strings.ToLower(d)] = f
	}
	n := 0
	for d, ps := range inv.Manifest {
		if len(ps) == 0 {
			continue
		}
		n++
		f := files[strings.ToLower(d)]
		if f == nil {
			c.Fail("content missing in the report", "%s: %s %q", what, d, ps)
			continue
		}
		if !sameStrings(f.InternalName, ps) {
			c.Fail("wrong stored file names", "%s: %q instead of %q", what, f.InternalName, ps)
		}
		for v, x := range inv.Versions {
			var want []string
			for d2, names := range x.State {
				if strings.EqualFold(d, d2) {
					want = append(want, names...)
				}
			}
			if !sameStrings(f.VersionName[v], want) {
				c.Fail("wrong logical names", "%s: %s of %s: %q instead of %q", what, v, ps[0], f.VersionName[v], want)
			}
		}
		for v := range f.VersionName {
			if inv.Versions[v] == nil {
				c.Fail("wrong logical names", "%s: unknown version %q", what, v)
			}
		}
		want := map[string]string{}
		for a, m := range inv.Fixity {
			for fd, fps := range m {
				for _, fp := range fps {
					for _, p := range ps {
						if p == fp {
							want[a] = fd
						}
					}
				}
			}
		}
		got := map[string]string{}
		for a, v := range f.Checksums {
			got[a] = v
		}
		if fmt.Sprint(want) != fmt.Sprint(got) {
			c.Fail("wrong fixity values", "%s: %q: %v instead of %v", what, ps, got, want)
		}
	}
	if len(files) != n {
		c.Fail("unknown content in the report", "%s: %d instead of %d", what, len(files), n)
	}
}

// metaOfRoot compares all reports of a storage root.
func metaOfRoot(c *C, what string, e *Env, fsys fs.FS, s Snap, byID bool) {
	objs := map[string]string{}
	all := findObjs(s)
	for p, id := range all {
		nested := false
		for q := range all {
			nested = nested || q != p && strings.HasPrefix(p, q)
		}
		if !nested {
			objs[p] = id
		}
	}
	get := func(p, id string) *metaRoot {
		m, err := e.Meta(fsys, p, id)
		c.Step()
		if err != nil {
			c.Fail("no metadata report: "+short(err), "%s: path %q id %q: %v", what, p, id, short(err))
			return nil
		}
		return m
	}
	if m := get("", ""); m != nil {
		if len(m.Objects) != len(objs) {
			c.Fail("wrong objects in the report", "%s: %d instead of %d", what, len(m.Objects), len(objs))
		}
		for p, id := range objs {
			checkMeta(c, what+" whole storage root", m.Objects[id], ReadObj(s.Sub(p)))
		}
	}
	for p, id := range objs {
		o := ReadObj(s.Sub(p))
		if m := get(strings.TrimSuffix(p, "/"), ""); m != nil {
			if len(m.Objects) != 1 {
				c.Fail("wrong objects in the report", "%s: %d instead of 1", what, len(m.Objects))
			}
			checkMeta(c, what+" by path", m.Objects[id], o)
		}
		if byID {
			if m := get("", id); m != nil {
				if len(m.Objects) != 1 {
					c.Fail("wrong objects in the report", "%s: %d instead of 1", what, len(m.Objects))
				}
				checkMeta(c, what+" by id", m.Objects[id], o)
			}
		}
	}
	if _, err := e.Meta(fsys, "", "does-not-exist"); err == nil {
		c.Fail("report of an object which does not exist", "%s", what)
	} else if isPanic(err) {
		c.Fail("panic", "%s: %s", what, short(err))
	}
}

func runC20(r *Run) {
	histories(r, histCfgs(r), func(c *C, t *Trans) {
		if opErr(c, t) {
			return
		}
		s := t.Disk.Snap()
		metaOfRoot(c, fmt.Sprintf("%s after %v", t.Cfg.Env.Name, t.Op), t.Cfg.Env, t.Disk.FS(), s, true)
	})
	initValRoot()
	e := valEnv()
	dims := validDims()
	alts := make([]int, len(dims))
	for i, d := range dims {
		alts[i] = len(d.alts)
	}
	b := r.Batch()
	var pool []*WObj
	for _, h := range validHistories() {
		k := Pick(r, 1, 2)
		if len(h.h) > 20 {
			k = 0
		} else if h.name == "three" {
			k = Pick(r, 1, 3)
		}
		combos(alts, k, func(pick map[int]int) {
			w := &WObj{ID: "o", Specs: []string{"1.1"}, Algs: []string{"sha512"}, States: h.h}
			name := h.name
			for d := range dims {
				if a, ok := pick[d]; ok {
					dims[d].alts[a](w)
					name += fmt.Sprintf(" %s.%d", dims[d].name, a)
				}
			}
			if w.Width == 2 && len(h.h) > 9 || w.Width == 3 && len(h.h) > 99 {
				return
			}
			w.Name = name
			if len(pick) == 0 || len(pick) == 1 && h.name == "three" {
				pool = append(pool, w)
			}
			b.Do("valid "+name, func(c *C) {
				o := w.write()
				if k, _ := judgeRef(o); k != jValid {
					return
				}
				c.State(canon(o))
				c.Case(name)
				s := rootWith(o)
				metaOfRoot(c, name, e, FromSnap("w", s).FS(), s, w.ID == "o")
				if len(pick) == 0 && h.name != "deep" && h.name != "unicode" {
					c.Trace()
					onOS(s, func(fsys fs.FS, _ string) { metaOfRoot(c, name+" on disk", e, fsys, s, w.ID == "o") })
				}
				// fixity of some of the files only
				inv := parseJ(o["inventory.json"])
				fix, _ := inv["fixity"].(J)
				man := inv["manifest"].(J)
				for a, x := range fix {
					for d := range x.(J) {
						for mode := 0; mode < 2; mode++ {
							i2 := deepJ(inv).(J)
							fx := i2["fixity"].(J)[a].(J)
							l := fx[d].([]any)
							if mode == 0 {
								delete(fx, d)
							} else if len(l) > 1 {
								fx[d] = l[1:]
							} else {
								continue
							}
							o2 := o.copy()
							putInv(o2, "", i2)
							if _, ok := o2[w.vname(len(w.States))+"/inventory.json"]; ok {
								putInv(o2, w.vname(len(w.States))+"/", i2)
							}
							if k, _ := judgeRef(o2); k != jValid {
								continue
							}
							s := rootWith(o2)
							c.Case(fmt.Sprint(name, a, d, mode))
							metaOfRoot(c, fmt.Sprintf("%s fixity %s %.8s.%d", name, a, d, mode), e, FromSnap("w", s).FS(), s, false)
						}
					}
				}
				_ = man
			})
		})
	}
	b.Wait()
	b = r.Batch()
	for i, w1 := range pool {
		b.Do(fmt.Sprintf("pairs of %d", i), func(c *C) {
			for j, w2 := range pool {
				if !r.Thorough() && i != 0 && j != 0 && (i+j)%5 != 0 {
					continue
				}
				a1, a2 := *w1, *w2
				a1.ID, a2.ID = "p", "q"
				s := Snap{}
				for k, v := range valRoot {
					s[k] = v
				}
				for k, v := range a1.write() {
					s["p/"+k] = v
				}
				for k, v := range a2.write() {
					s["x/y/"+k] = v
				}
				what := fmt.Sprintf("%s and %s", w1.Name, w2.Name)
				c.State(what)
				c.Case(what)
				metaOfRoot(c, what, e, FromSnap("w", s).FS(), s, false)
			}
		})
	}
	b.Wait()
}
