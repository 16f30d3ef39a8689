package main

// Operation histories of one object: all sequences of updates over a finite
// alphabet of sources and modes, executed on the real code, each checked
// against a small reference model of what an update means.

import (
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"github.com/je4/gocfl/v2/pkg/extension"
)

// HOp is one update of the history.
type HOp struct {
	Name  string
	Src   Tree
	Dedup bool
	Echo  bool
	Area  string
}

func (o HOp) String() string {
	s := o.Src.String()
	if o.Dedup {
		s += "D"
	}
	if o.Echo {
		s += "E"
	}
	if o.Area != "" {
		s += "@" + o.Area
	}
	return s
}

// HCfg is one configuration of the exploration.
type HCfg struct {
	Name  string
	Env   *Env
	ID    string
	Ops   []HOp
	Depth int
	// Pre produces the initial storage (nil: a fresh storage root).
	Pre func() (*Disk, []Tree)
	// Extra are logical paths the object's extensions add by themselves.
	Extra func(p string) bool
	// Prefix maps an area to its path.
	Areas map[string]string
	// OS is the number of trailing levels also replayed on the operating
	// system's file system.
	OS int
	// Map maps a source name to its logical name.
	Map func(string) string
	// Mapped: extensions change the names of content files.
	Mapped bool
}

// HState is the data of a node.
type HState struct {
	Disk   *Disk
	Models []Tree // logical state per version
	Ops    []HOp
}

// Trans is one executed update, as seen by the oracles.
type Trans struct {
	Cfg      *HCfg
	Op       HOp
	Ops      []HOp
	Before   Snap
	After    Snap
	Models   []Tree // expected, including the new version if any
	Prev     []Tree
	Noop     bool
	Conflict bool // the resulting state would not be a valid set of paths
	Modified bool
	Err      error
	Disk     *Disk
	obj      *RefObj
	prefix   string
}

// findObjs returns the object roots of a storage root: prefix -> id.
func findObjs(s Snap) map[string]string {
	r := map[string]string{}
	for k := range s {
		b := path.Base(k)
		if strings.HasPrefix(b, "0=ocfl_object_") && !strings.HasSuffix(k, "/") {
			p := strings.TrimSuffix(k, b)
			id := "?"
			if i := parseInv(s[p+"inventory.json"], "", "1.1", func(string, ...any) {}); i != nil {
				id = i.ID
			}
			r[p] = id
		}
	}
	return r
}

func objPrefix(s Snap, id string) string {
	var l []string
	for p, i := range findObjs(s) {
		if i == id {
			l = append(l, p)
		}
	}
	if len(l) != 1 {
		return ""
	}
	return l[0]
}

// Obj reads the object after the transition with the reference reader.
func (t *Trans) Obj() *RefObj {
	if t.obj == nil {
		t.prefix = objPrefix(t.After, t.Cfg.ID)
		t.obj = ReadObj(t.After.Sub(t.prefix))
	}
	return t.obj
}

func (cfg *HCfg) logical(area, name string) string {
	if cfg.Map != nil {
		name = cfg.Map(name)
	}
	if a, ok := cfg.Areas[area]; ok && a != "" {
		return a + "/" + name
	}
	return name
}

// expect is the reference model of an update.
func (cfg *HCfg) expect(models []Tree, op HOp) (next []Tree, noop bool) {
	var old Tree
	if len(models) > 0 {
		old = models[len(models)-1]
	}
	n := Tree{}
	pre, hasArea := cfg.Areas[op.Area]
	for k, v := range old {
		in := true
		if hasArea && pre != "" {
			in = strings.HasPrefix(k, pre+"/")
		}
		if op.Echo && in {
			continue
		}
		n[k] = v
	}
	files := 0
	for k, v := range op.Src {
		if strings.HasSuffix(k, "/") {
			continue
		}
		files++
		n[cfg.logical(op.Area, k)] = v
	}
	if len(models) > 0 && sameTree(old, n) == "" && (op.Dedup || files == 0) {
		return models, true
	}
	return append(append([]Tree{}, models...), n), false
}

// user strips what extensions add by themselves.
func (cfg *HCfg) user(t Tree) Tree {
	if cfg.Extra == nil {
		return t
	}
	r := Tree{}
	for k, v := range t {
		if !cfg.Extra(k) {
			r[k] = v
		}
	}
	return r
}

func (cfg *HCfg) add(op HOp, n int) Add {
	return Add{ID: cfg.ID, Msg: fmt.Sprintf("message %d", n), User: fmt.Sprintf("user %d", n), Addr: fmt.Sprintf("mailto:u%d@example.org", n),
		Src: op.Src.FS(), Area: op.Area, Dedup: op.Dedup, Echo: op.Echo}
}

type Oracle func(c *C, t *Trans)

// histories explores all histories of every configuration.
func histories(r *Run, cfgs []*HCfg, oracle Oracle) {
	for _, cfg := range cfgs {
		cfg := cfg
		if r.Target != "" && !strings.HasPrefix(r.Target, cfg.Name+"|") {
			continue
		}
		init := &HState{}
		if cfg.Pre != nil {
			init.Disk, init.Models = cfg.Pre()
		} else {
			init.Disk = NewDisk("root")
			if err := cfg.Env.Init(init.Disk.FS()); err != nil {
				b := r.Batch()
				b.Do(cfg.Name+"|init", func(c *C) { c.Fail("init "+short(err), "cannot create storage root (%s): %v", cfg.Name, err) })
				b.Wait()
				continue
			}
		}
		r.BFS(cfg.Name, []*Node{{Trace: cfg.Name, Data: init}}, cfg.Depth, func(n *Node) []Succ {
			st := n.Data.(*HState)
			var out []Succ
			for _, op := range cfg.Ops {
				op := op
				out = append(out, Succ{Name: op.String(), Run: func(c *C) {
					if ns := cfg.step(c, st, op, oracle); ns != nil {
						nn := &Node{Key: c.State(cfg.Name + canon(ns.Disk.Snap())), Data: ns}
						if len(ns.Ops) >= cfg.Depth {
							ns.Disk = nil
						}
						c.out = nn
					}
				}})
			}
			return out
		})
	}
}

func (cfg *HCfg) step(c *C, st *HState, op HOp, oracle Oracle) *HState {
	d := st.Disk.Clone()
	t := &Trans{Cfg: cfg, Op: op, Before: st.Disk.Snap(), Prev: st.Models, Disk: d, Ops: append(append([]HOp{}, st.Ops...), op)}
	t.Models, t.Noop = cfg.expect(st.Models, op)
	t.Conflict = conflicts(t.Models[len(t.Models)-1].names()) != ""
	if t.Conflict {
		t.Models, t.Noop = st.Models, false
	}
	t.Modified, t.Err = cfg.Env.Do(d.FS(), cfg.add(op, len(t.Prev)+1))
	t.After = d.Snap()
	c.Step()
	if len(t.Ops) >= 2 {
		c.Sample("%s -> %d versions", c.Task, len(t.Models))
	}
	nv := len(c.viol)
	if esc := d.Escaped(); len(esc) > 0 {
		c.Fail("escape", "files outside the storage root: %q", esc)
	}
	oracle(c, t)
	if cfg.OS > 0 && len(t.Ops) <= cfg.OS {
		cfg.conform(c, t)
	}
	if len(c.viol) > nv || t.Err != nil {
		return nil
	}
	return &HState{Disk: d, Models: t.Models, Ops: t.Ops}
}

// conform replays the history on the operating system's file system and
// compares the resulting tree with the one of the in-memory file system.
func (cfg *HCfg) conform(c *C, t *Trans) {
	if cfg.Pre != nil {
		return
	}
	dir, cleanup := scratch()
	defer cleanup()
	fsys, err := osfsrw.NewFS(dir, logger)
	if err != nil {
		panic(err)
	}
	if err := cfg.Env.Init(fsys); err != nil {
		c.Fail("os init", "on the real file system: %v", err)
		return
	}
	var models []Tree
	for _, op := range t.Ops {
		if _, err = cfg.Env.Do(fsys, cfg.add(op, len(models)+1)); err != nil {
			break
		}
		models, _ = cfg.expect(models, op)
	}
	if (err != nil) != (t.Err != nil) {
		c.Fail("os result", "result on the real file system: %v, in memory: %v", err, t.Err)
		return
	}
	s := osSnap(dir)
	if canon(s) != canon(t.After) {
		c.Fail("os tree", "tree on the real file system differs from the one in memory: %s", t.After.Diff(s))
		return
	}
	c.Trace()
}

func scratch() (string, func()) {
	base := "/dev/shm"
	if fi, err := os.Stat(base); err != nil || !fi.IsDir() {
		base = ""
	}
	dir, err := os.MkdirTemp(base, "gocfl-verif-")
	if err != nil {
		dir, err = os.MkdirTemp("", "gocfl-verif-")
		if err != nil {
			panic(err)
		}
	}
	return dir, func() { os.RemoveAll(dir) }
}

// onOS materialises a tree on the operating system's file system.
func onOS(s Snap, f func(fsys fs.FS, dir string)) {
	dir, cleanup := scratch()
	defer cleanup()
	for k, v := range s {
		p := filepath.Join(dir, k)
		if strings.HasSuffix(k, "/") {
			must(os.MkdirAll(p, 0o755))
		} else {
			must(os.MkdirAll(filepath.Dir(p), 0o755))
			must(os.WriteFile(p, []byte(v), 0o644))
		}
	}
	fsys, err := osfsrw.NewFS(dir, logger)
	must(err)
	f(fsys, dir)
}

func osSnap(dir string) Snap {
	s := Snap{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel := filepath.ToSlash(p[len(dir)+1:])
		if fi.IsDir() {
			s[rel+"/"] = ""
		} else {
			b, _ := os.ReadFile(p)
			s[rel] = string(b)
		}
		return nil
	})
	return s
}

// short makes an error message stable enough for a signature.
// unrandom replaces what differs between executions.
func unrandom(s string) string { return randomRE.ReplaceAllString(s, "#") }

var randomRE = regexp.MustCompile(`/[^ '"]*gocfl-verif-\d+|127\.0\.0\.1:\d{4,}|gocfl_\d+`)

func short(err error) string {
	if err == nil {
		return "no error"
	}
	s := unrandom(err.Error())
	if isPanic(err) {
		var i int
		if i = strings.Index(s, "PANIC"); i > 0 {
			s = s[i:]
		}
		return s
	}
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}

func trees(names []string, contents []string) []Tree {
	out := []Tree{{}}
	for _, n := range names {
		var next []Tree
		for _, t := range out {
			next = append(next, t)
			for _, c := range contents {
				u := t.Clone()
				u[n] = c
				next = append(next, u)
			}
		}
		out = next
	}
	return out
}

type mode struct{ dedup, echo bool }

var allModes = []mode{{true, false}, {false, false}, {true, true}, {false, true}}

func ops(ts []Tree, ms []mode, areas ...string) []HOp {
	if len(areas) == 0 {
		areas = []string{""}
	}
	var r []HOp
	for _, a := range areas {
		for _, t := range ts {
			for _, m := range ms {
				r = append(r, HOp{Src: t, Dedup: m.dedup, Echo: m.echo, Area: a})
			}
		}
	}
	return r
}

func noConflict(ts []Tree) []Tree {
	var r []Tree
	for _, t := range ts {
		if conflicts(t.names()) == "" {
			r = append(r, t)
		}
	}
	return r
}

func fixAlgs(a ...Alg) []Alg { return a }

func env11(name string, fix []Alg, obj ...map[string]string) *Env {
	e := &Env{Name: name, Version: "1.1", Digest: sha512a, Fixity: fix, Root: baseExt(extCfg(extension.StorageLayoutFlatDirectName)), Obj: baseExt(obj...)}
	return e
}

func contentExt(paths ...string) map[string]string {
	s := "{"
	for i := 0; i+1 < len(paths); i += 2 {
		if i > 0 {
			s += ","
		}
		s += jstr(paths[i]) + `:{"path":` + jstr(paths[i+1]) + `,"description":"d"}`
	}
	return extCfg(extension.ContentSubPathName, "subPath", s+"}")
}

// digExt permits all fixity algorithms.
var digExt = extCfg(extension.DigestAlgorithmsName)

var big = strings.Repeat("0123456789abcdef", 4100) // > 64 KiB

// histCfgs are the configurations shared by the history properties.
func histCfgs(r *Run) []*HCfg {
	q := func(a, b int) int { return Pick(r, a, b) }
	two := trees([]string{"a", "d/b"}, []string{"X", "Y"})
	weird := trees([]string{"x y/ü.txt", ".h", "..a/b%20\"'=c"}, []string{"X", ""})
	pre := trees([]string{"a", "a.b", "a/b", "ab/c"}, []string{"X"})
	cfgs := []*HCfg{
		{Name: "v11-sha512", Env: env11("p", nil), ID: "o1", Ops: ops(two, allModes), Depth: q(3, 4), OS: 1},
		{Name: "v10-sha256-fixity", Env: &Env{Version: "1.0", Digest: sha256a, Fixity: fixAlgs("md5", "sha1", "sha512"),
			Root: baseExt(extCfg(extension.StorageLayoutFlatDirectName)), Obj: baseExt(digExt)}, ID: "info:o/1", Ops: ops(trees([]string{"a", "d/b"}, []string{"X", big}), allModes), Depth: q(2, 3), OS: 1},
		{Name: "prefix-names", Env: env11("p", nil), ID: "o1", Ops: ops(noConflict(pre), allModes[:3]), Depth: q(2, 3), OS: 1},
		{Name: "weird-names", Env: env11("p", nil), ID: "o1", Ops: ops(weird, allModes), Depth: q(2, 2), OS: 1},
		{Name: "abc", Env: env11("p", nil), ID: "o1", Ops: ops(trees([]string{"a", "b", "c"}, []string{"X"}), allModes), Depth: q(3, 4)},
		{Name: "long", Env: env11("p", nil), ID: "o1", Ops: []HOp{{Src: Tree{"a": "X"}, Dedup: true}, {Src: Tree{"a": "Y"}, Dedup: true}}, Depth: q(13, 24)},
		{Name: "subpath", Env: env11("p", nil, contentExt("content", "data", "meta", "metadata", "m2", "metadata2")), ID: "o1",
			Ops: ops(trees([]string{"a", "b"}, []string{"X"}), []mode{{true, false}, {true, true}}, "content", "meta", "m2"), Depth: q(2, 3), OS: 1,
			Areas: map[string]string{"content": "data", "meta": "metadata", "m2": "metadata2", "": "data"}, Extra: func(p string) bool { return p == "README.md" }},
		{Name: "padded", Env: env11("p", nil), ID: "o1", Ops: ops(trees([]string{"a", "b"}, []string{"X", "Y"}), allModes), Depth: q(2, 3), Pre: padded(4, "")},
		{Name: "padded2-dir", Env: env11("p", nil), ID: "o1", Ops: ops(trees([]string{"a"}, []string{"X", "Y"}), allModes), Depth: q(4, 6), Pre: padded(2, "inhalt")},
		{Name: "default-ext", Env: defaultEnv(nil), ID: "info:abc/d e", Ops: ops(trees([]string{"a b", "d/b"}, []string{"X", "Y"}), allModes), Depth: q(2, 2), OS: 1, Mapped: true},
	}
	return cfgs
}

// defaultEnv uses the extensions gocfl ships as defaults (without the indexer,
// which needs external programs).
func defaultEnv(fix []Alg) *Env {
	dc := func(enc string) map[string]string {
		return extCfg(extension.DirectCleanName, "maxPathnameLen", "32000", "maxPathSegmentLen", "127", "replacementString", `"_"`, "whitespaceReplacementString", `" "`, "utfEncode", enc)
	}
	rootMgr := extCfg(mgrName, "sort", `{"StorageRootPath":["NNNN-direct-clean-path-layout"]}`, "exclusion", `{"StorageRootPath":[["NNNN-direct-clean-path-layout","0003-hash-and-id-n-tuple-storage-layout","0004-hashed-n-tuple-storage-layout","0002-flat-direct-storage-layout","0006-flat-omit-prefix-storage-layout","NNNN-pairtree-storage-layout","NNNN-direct-path-layout"]]}`)
	objMgr := extCfg(mgrName, "sort", `{"ObjectContentPath":["NNNN-direct-clean-path-layout","NNNN-content-subpath"],"ObjectChange":["NNNN-indexer","NNNN-metafile"]}`, "exclusion", `{"ObjectContentPath":[["NNNN-direct-clean-path-layout","NNNN-direct-path-layout"]]}`)
	return &Env{Version: "1.1", Digest: sha512a, Fixity: fix,
		Root: baseExt(extCfg("0006-flat-omit-prefix-storage-layout", "delimiter", `":"`), dc("false"), extCfg("NNNN-direct-path-layout")).with(mgrName, rootMgr),
		Obj:  baseExt(digExt, dc("true"), extCfg(extension.FilesystemName, "folders", `""`, "storageType", `"extension"`, "storageName", `"metadata"`, "compress", `"gzip"`)).with(mgrName, objMgr)}
}

// padded rewrites a freshly created object to zero-padded version names (and
// another content directory), as a foreign tool would have written it.
func padded(width int, contentDir string) func() (*Disk, []Tree) {
	return func() (*Disk, []Tree) {
		e := env11("p", nil)
		d := NewDisk("root")
		must(e.Init(d.FS()))
		_, err := e.Do(d.FS(), Add{ID: "o1", Msg: "m", User: "u", Addr: "a", Src: Tree{"a": "X"}.FS(), Dedup: true})
		must(err)
		s := d.Snap()
		p := objPrefix(s, "o1")
		s = mapObj(s, p, func(o Snap) Snap { return padObj(o, width, contentDir) })
		return FromSnap("root", s), []Tree{{"a": "X"}}
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// mapObj replaces the object below prefix p.
func mapObj(s Snap, p string, f func(Snap) Snap) Snap {
	r := Snap{}
	for k, v := range s {
		if !strings.HasPrefix(k, p) || k == p {
			r[k] = v
		}
	}
	for k, v := range f(s.Sub(p)) {
		r[p+k] = v
	}
	return r
}

// padObj renames versions v1.. to zero-padded names with width digits and
// rewrites the content directory.
func padObj(o Snap, width int, contentDir string) Snap {
	ren := func(p string) string {
		seg := strings.SplitN(p, "/", 3)
		if n, w, ok := verNum(seg[0]); ok && w == 0 {
			if width > 0 {
				seg[0] = fmt.Sprintf("v%0*d", width, n)
			}
			if contentDir != "" && len(seg) > 1 && seg[1] == "content" {
				seg[1] = contentDir
			}
		}
		return strings.Join(seg, "/")
	}
	r := Snap{}
	for k, v := range o {
		r[ren(k)] = v
	}
	for k, v := range r {
		if path.Base(k) != "inventory.json" {
			continue
		}
		j := parseJ(v)
		j["head"] = ren(j["head"].(string))
		if contentDir != "" {
			j["contentDirectory"] = contentDir
		}
		renAll := func(m map[string]any) {
			for d, l := range m {
				var n []any
				for _, p := range l.([]any) {
					n = append(n, ren(p.(string)))
				}
				m[d] = n
			}
		}
		renAll(j["manifest"].(map[string]any))
		if fx, ok := j["fixity"].(map[string]any); ok {
			for _, m := range fx {
				renAll(m.(map[string]any))
			}
		}
		vs := map[string]any{}
		for n, x := range j["versions"].(map[string]any) {
			vs[ren(n)] = x
		}
		j["versions"] = vs
		putInv(r, strings.TrimSuffix(k, "inventory.json"), j)
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
