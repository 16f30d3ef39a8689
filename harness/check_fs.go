package main

// C26: metadata of the source file system (and of the indexer).

import (
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/andybalholm/brotli"
	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"github.com/je4/gocfl/v2/pkg/extension"
	ironmaiden "github.com/je4/indexer/v3/pkg/indexer"
)

func init() {
	register(&Check{Prop: "C26", Level: "model_checking", Run: runC26,
		Rule:   "every configuration (place of storage, name, compression, folder files, areas, direct clean names, indexer) x every sequence of updates up to a depth, the sources being real folders (with empty folders, links, modes and times); after each update the report of the live object and of the reloaded one and the stored lines are compared with a model and the stat data of the source",
		Assume: []string{"a file whose content is not stored (because the object has it already) gets no new entry", "access times may change while reading"}})
}

// fakeAction stands for a format recognition of the indexer.
type fakeAction struct {
	name string
	// pronom of a file
	pronom func(name, content string) string
	stop   bool // does not read everything
}

func (a *fakeAction) result(name string, data []byte) *ironmaiden.ResultV2 {
	r := ironmaiden.NewResultV2()
	h := sha256.Sum256(data)
	r.Metadata[a.name] = map[string]any{"sha": hex.EncodeToString(h[:])}
	r.Mimetype = "text/x-fake"
	r.Mimetypes = []string{"text/x-fake"}
	if a.pronom != nil {
		if p := a.pronom(name, string(data)); p != "" {
			if m, ok := strings.CutPrefix(p, "mime:"); ok {
				r.Mimetype, r.Mimetypes = m, []string{m}
			} else {
				r.Pronom, r.Pronoms = p, []string{p}
			}
		}
	}
	return r
}
func (a *fakeAction) Stream(ct string, r io.Reader, name string) (*ironmaiden.ResultV2, error) {
	data, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	return a.result(name, data), nil
}
func (a *fakeAction) DoV2(name string) (*ironmaiden.ResultV2, error) {
	data, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	return a.result(name, data), nil
}
func (a *fakeAction) CanHandle(ct, name string) bool { return true }
func (a *fakeAction) Do(*url.URL, string, *uint, *uint, *time.Duration, map[string]string) (any, []string, []string, error) {
	return nil, nil, nil, nil
}
func (a *fakeAction) GetName() string { return a.name }
func (a *fakeAction) GetCaps() ironmaiden.ActionCapability {
	return ironmaiden.ACTALL | ironmaiden.ACTSTREAM
}
func (a *fakeAction) GetWeight() uint { return 1 }

func fakeIndexer(pronom func(name, content string) string) *ironmaiden.ActionDispatcher {
	d := ironmaiden.NewActionDispatcher(nil)
	d.RegisterAction(&fakeAction{name: "siegfried", pronom: pronom})
	d.RegisterAction(&fakeAction{name: "xml"})
	return d
}

// srcDir is a real source folder.
type srcDir struct {
	dir   string
	tree  Tree
	order []string // as it is walked; folders end with "/"
}

func (s *srcDir) fs() fs.FS {
	x, err := osfsrw.NewFS(s.dir, logger)
	must(err)
	return x
}

// newSrcDir creates a source; names ending with "/" are folders, contents
// starting with "-> " links.
func newSrcDir(base string, i int, t Tree) *srcDir {
	s := &srcDir{dir: filepath.Join(base, fmt.Sprintf("src%d", i)), tree: Tree{}}
	must(os.MkdirAll(s.dir, 0o755))
	k := 0
	for _, n := range t.names() {
		p := filepath.Join(s.dir, n)
		if strings.HasSuffix(n, "/") {
			must(os.MkdirAll(p, 0o750))
			continue
		}
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		if l, ok := strings.CutPrefix(t[n], "-> "); ok {
			must(os.Symlink(l, p))
			s.tree[n] = t[path.Join(path.Dir(n), l)]
			continue
		}
		must(os.WriteFile(p, []byte(t[n]), []fs.FileMode{0o644, 0o600, 0o755}[k%3]))
		must(os.Chtimes(p, time.Unix(1e9+int64(k), 0), time.Unix(1e9+int64(k)*1000+int64(i), 123456789)))
		s.tree[n] = t[n]
		k++
	}
	must(fs.WalkDir(os.DirFS(s.dir), ".", func(p string, d fs.DirEntry, err error) error {
		if d.IsDir() {
			p += "/"
		}
		s.order = append(s.order, p)
		return err
	}))
	return s
}

type fsCfg struct {
	stype, sname, compress, folders string
	sub, clean, index               bool
	bad                             bool // has to be refused
}

func (f fsCfg) String() string {
	return fmt.Sprintf("%s/%q/%s/folders=%q/sub=%v/clean=%v/index=%v", f.stype, f.sname, f.compress, f.folders, f.sub, f.clean, f.index)
}

var fsAreas = map[string]string{"content": "data", "": "data", "meta": "data2"}

func (f fsCfg) env() *Env {
	x := []map[string]string{digExt, extCfg(extension.FilesystemName, "folders", jstr(f.folders), "storageType", jstr(f.stype), "storageName", jstr(f.sname), "compress", jstr(f.compress))}
	if f.sub {
		x = append(x, contentExt("content", "data", "meta", "data2"))
	}
	if f.clean {
		x = append(x, extCfg(extension.DirectCleanName, "maxPathnameLen", "32000", "maxPathSegmentLen", "127", "replacementString", `"_"`, "whitespaceReplacementString", `" "`, "utfEncode", "true"))
	}
	if f.index {
		x = append(x, extCfg(extension.IndexerName, "storageType", jstr(f.stype), "storageName", jstr(f.sname), "compress", jstr(f.compress), "actions", `["siegfried","xml"]`))
	}
	e := env11("fs", fixAlgs("md5"), x...)
	if f.clean && f.sub {
		e.Obj = e.Obj.with(mgrName, extCfg(mgrName, "sort", `{"ObjectContentPath":["NNNN-direct-clean-path-layout","NNNN-content-subpath"]}`, "exclusion", `{}`))
	}
	if f.index {
		e.Indexer = fakeIndexer(nil)
	}
	return e
}

type fsOp struct {
	parts []fsPart
	m     mode
}
type fsPart struct {
	area string
	src  *srcDir
}

func (o fsOp) String() string {
	s := fmt.Sprintf("%v", o.m)
	for _, p := range o.parts {
		s += fmt.Sprintf(" %q:%v", p.area, p.src.order)
	}
	return s
}

func (o fsOp) add() Add {
	a := Add{ID: "o1", Msg: "m", User: "u", Addr: "a", Src: o.parts[0].src.fs(), Area: o.parts[0].area, Dedup: o.m.dedup, Echo: o.m.echo}
	for _, p := range o.parts[1:] {
		a.Areas = append(a.Areas, AreaSrc{p.area, p.src.fs()})
	}
	return a
}

// fsEntry is an expected entry of the report.
type fsEntry struct {
	digest, version, path string
	file                  string // of the source
}

type fsState struct {
	snap    Snap
	entries []fsEntry
	user    Tree
	ops     []fsOp
	vers    int
}

func isOwn(p string) bool {
	b := path.Base(p)
	return p == "README.md" || strings.HasPrefix(b, "filesystem_v") || strings.HasPrefix(b, "indexer_v")
}

func sha512hex(s string) string { return refDigest("sha512", s) }

// fsNext is the model of an update.
func (f fsCfg) next(st *fsState, o *RefObj, op fsOp) (user Tree, es []fsEntry, modified bool) {
	head := Tree{}
	known := map[string]bool{}
	if o != nil {
		head = stateOf(o, o.Inv.Head)
		for d := range o.Inv.Manifest {
			known[d] = true
		}
	}
	v := fmt.Sprintf("v%d", st.vers+1)
	now := Tree{}
	for k, c := range head {
		now[k] = c
	}
	modified = o == nil
	touched := map[string]bool{}
	for _, part := range op.parts {
		pre := ""
		if f.sub {
			pre = fsAreas[part.area] + "/"
		}
		for _, n := range part.src.order {
			if d, ok := strings.CutSuffix(n, "/"); ok {
				if f.folders == "" {
					continue
				}
				p := path.Clean(pre + d + "/" + f.folders)
				touched[p] = true
				if c, ok := now[p]; !ok || c != "" {
					modified = true
					now[p] = ""
				}
				known[sha512hex("")] = true
				es = append(es, fsEntry{sha512hex(""), v, p, filepath.Join(part.src.dir, d)})
				continue
			}
			p, content := pre+n, part.src.tree[n]
			touched[p] = true
			dg := sha512hex(content)
			if op.m.dedup {
				if c, ok := now[p]; ok && c == content {
					continue
				}
				if known[dg] {
					now[p] = content
					modified = true
					continue
				}
			}
			modified = true
			known[dg] = true
			now[p] = content
			es = append(es, fsEntry{dg, v, p, filepath.Join(part.src.dir, n)})
		}
	}
	if op.m.echo {
		for p := range now {
			for _, part := range op.parts {
				if !touched[p] && (!f.sub || strings.HasPrefix(p, fsAreas[part.area]+"/")) {
					if _, ok := now[p]; ok {
						delete(now, p)
						modified = true
					}
				}
			}
		}
	}
	for p := range now {
		if isOwn(p) {
			delete(now, p)
		}
	}
	return now, es, modified
}

type fsLine struct {
	Path string
	Meta struct {
		ATime, MTime, CTime time.Time
		Attr, Symlink, OS   string
		SysStat             any
		StateVersion        string
		Size                uint64
	}
}

// fsReport is the part of the report the extension is responsible for.
func fsReport(m *metaObj) (lines map[string]map[string][]fsLine, raw string, err error) {
	x := map[string]any{}
	for d, f := range m.Files {
		if e, ok := f.Extension[extension.FilesystemName]; ok {
			x[d] = e
		}
	}
	// the order of the entries is not defined
	for _, e := range x {
		if vs, ok := e.(map[string]any); ok {
			for _, l := range vs {
				if l, ok := l.([]any); ok {
					sort.Slice(l, func(i, j int) bool { return string(mustJSON(l[i])) < string(mustJSON(l[j])) })
				}
			}
		}
	}
	raw = string(mustJSON(x))
	err = json.Unmarshal([]byte(raw), &lines)
	return
}

func (f fsCfg) stored(o *RefObj, name, v string) (string, bool, error) {
	ext := map[string]string{"none": "", "gzip": ".gz", "brotli": ".br"}[f.compress]
	file := fmt.Sprintf("%s_%s.jsonl%s", name, v, ext)
	var p string
	switch strings.ToLower(f.stype) {
	case "extension":
		p = path.Join("extensions", map[string]string{"filesystem": extension.FilesystemName, "indexer": extension.IndexerName}[name], f.sname, file)
	case "area":
		p = path.Join(v, "content", map[bool]string{true: fsAreas[f.sname]}[f.sub], file)
	case "path":
		p = path.Join(v, "content", map[bool]string{true: "data"}[f.sub], f.sname, file)
	}
	data, ok := o.Files[p]
	if !ok {
		return p, false, nil
	}
	var r io.Reader = strings.NewReader(data)
	var err error
	switch f.compress {
	case "gzip":
		if r, err = gzip.NewReader(r); err != nil {
			return p, true, err
		}
	case "brotli":
		r = brotli.NewReader(r)
	}
	var b bytes.Buffer
	if _, err := io.Copy(&b, r); err != nil {
		return p, true, err
	}
	return b.String(), true, nil
}

func (f fsCfg) judge(c *C, what, when string, m *metaObj, want []fsEntry) (raw string) {
	got, raw, err := fsReport(m)
	if err != nil {
		c.Fail("report cannot be interpreted", "%s %s: %v: %s", what, when, err, raw)
		return raw
	}
	key := func(e fsEntry) string { return e.digest + " " + e.version + " " + e.path }
	left := map[string]int{}
	by := map[string]fsEntry{}
	for _, e := range want {
		left[key(e)]++
		by[key(e)] = e
	}
	for d, vs := range got {
		for v, ls := range vs {
			for _, l := range ls {
				k := key(fsEntry{digest: d, version: v, path: l.Path})
				left[k]--
				e, ok := by[k]
				if !ok {
					c.Fail("entry nobody expects "+when, "%s: %s %s %q", what, v, d[:8], l.Path)
					continue
				}
				if left[k] < 0 {
					c.Fail("entry reported twice "+when, "%s: %s %s %q", what, v, d[:8], l.Path)
				}
				fi, err := os.Stat(e.file)
				must(err)
				li, err := os.Lstat(e.file)
				must(err)
				link := ""
				if li.Mode()&fs.ModeSymlink != 0 {
					link, _ = os.Readlink(e.file)
				}
				if l.Meta.Size != uint64(fi.Size()) || !l.Meta.MTime.Equal(fi.ModTime()) || l.Meta.Symlink != link || l.Meta.StateVersion != e.version || l.Meta.OS != "linux" || l.Meta.Attr != (li.Mode()&fs.ModePerm).String() {
					c.Fail("wrong data of a file "+when, "%s: %s %q: %+v", what, v, l.Path, l.Meta)
				}
			}
		}
	}
	for k, n := range left {
		if n > 0 {
			c.Fail("entry missing "+when, "%s: %s", what, k)
		}
	}
	return raw
}

// apply executes an update; nil if the state cannot be used any more.
func (f fsCfg) apply(c *C, e *Env, st *fsState, op fsOp) *fsState {
	what := fmt.Sprintf("%v: %v then %v", f, st.ops, op)
	d := FromSnap("root", st.snap)
	var o *RefObj
	if st.vers > 0 {
		o = ReadObj(d.Snap().Sub(objPrefix(d.Snap(), "o1")))
	}
	user, es, modified := f.next(st, o, op)
	var live *metaObj
	c.Step()
	sr, fac, _, err := e.Load(d.FS())
	must(err)
	err = guard(func() error {
		ob, err := e.Open(sr, fac, "o1")
		if err != nil {
			return err
		}
		if _, err := update(ob, op.add()); err != nil {
			return err
		}
		m, err := ob.GetMetadata()
		if err != nil {
			return fmt.Errorf("live report: %w", err)
		}
		b, err := json.Marshal(m)
		if err != nil {
			return err
		}
		return json.Unmarshal(b, &live)
	})
	if f.bad {
		if err == nil && len(es) > 0 {
			c.Fail("unusable configuration accepted", "%s", what)
		} else if isPanic(err) {
			c.Fail("panic", "%s: %v", what, err)
		}
		return nil
	}
	if err != nil {
		c.Fail("update fails: "+short(err), "%s: %v", what, err)
		return nil
	}
	s := d.Snap()
	n := &fsState{snap: s, user: user, ops: append(append([]fsOp{}, st.ops...), op), vers: st.vers, entries: st.entries}
	if modified {
		n.vers++
		n.entries = append(append([]fsEntry{}, st.entries...), es...)
	} else {
		if diff := st.snap.OnlyFiles().Diff(s.OnlyFiles()); diff != "" {
			c.Fail("update without a change leaves traces", "%s: %s", what, diff)
		}
	}
	no := ReadObj(s.Sub(objPrefix(s, "o1")))
	if x := no.Invalid(); len(x) > 0 {
		c.Fail("invalid object", "%s: %q", what, x)
		return nil
	}
	if len(no.Vers) != n.vers {
		c.Fail("wrong number of versions", "%s: %d instead of %d", what, len(no.Vers), n.vers)
		return nil
	}
	got := stateOf(no, no.Inv.Head)
	for p := range got {
		if isOwn(p) {
			delete(got, p)
		}
	}
	if x := sameTree(user, got); x != "" {
		c.Fail("wrong state", "%s: %s", what, x)
	}
	for _, e := range no.Vers[n.vers-1:] {
		cnt := 0
		for _, x := range n.entries {
			if x.version == e {
				cnt++
			}
		}
		text, ok, err := f.stored(no, "filesystem", e)
		if err != nil {
			c.Fail("stored lines cannot be read", "%s: %v", what, err)
		} else if !ok && cnt > 0 {
			c.Fail("stored lines missing", "%s: %s; files %q", what, text, Snap(no.Files).Files())
		} else if ok && strings.Count(text, "\n") != cnt {
			c.Fail("wrong number of stored lines", "%s: %d instead of %d", what, strings.Count(text, "\n"), cnt)
		}
	}
	r1 := f.judge(c, what, "(live)", live, n.entries)
	m, err := e.Meta(d.FS(), "", "o1")
	if err != nil {
		c.Fail("report fails: "+short(err), "%s: %v", what, err)
		return nil
	}
	mo := m.Objects["o1"]
	if mo == nil {
		c.Fail("no report", "%s", what)
		return nil
	}
	r2 := f.judge(c, what, "(reloaded)", mo, n.entries)
	if r1 != r2 {
		c.Fail("report changes by reloading", "%s: %s / %s", what, r1, r2)
	}
	if f.index {
		for d, ps := range no.Inv.Manifest {
			own := true
			for _, p := range ps {
				own = own && (path.Base(p) == "README.md" || strings.Contains(p, "filesystem_v") || strings.Contains(p, "indexer_v") || f.folders != "" && path.Base(p) == f.folders)
			}
			for when, r := range map[string]*metaObj{"live": live, "reloaded": mo} {
				var e struct {
					Size     uint64
					Metadata map[string]struct{ Sha string }
				}
				x, ok := r.Files[d].Extension[extension.IndexerName]
				if !ok {
					if !own {
						c.Fail("indexer entry missing ("+when+")", "%s: %q", what, ps)
					}
					continue
				}
				must(json.Unmarshal([]byte(string(mustJSON(x))), &e))
				if len(no.Files[ps[0]]) < 512 {
					continue
				}
				h := sha256.Sum256([]byte(no.Files[ps[0]]))
				for _, a := range []string{"siegfried", "xml"} {
					if e.Metadata[a].Sha != hex.EncodeToString(h[:]) || e.Size != uint64(len(no.Files[ps[0]])) {
						c.Fail("wrong indexer entry ("+when+")", "%s: %q: %s", what, ps, string(mustJSON(x)))
					}
				}
			}
		}
	}
	c.State(f.String() + canon(s))
	c.Case(what)
	return n
}

func fsLong(s string) string { return strings.Repeat(s, 700/len(s)) }

func runC26(r *Run) {
	base, cleanup := scratch()
	defer cleanup()
	var srcs []*srcDir
	for i, t := range []Tree{
		// the indexer library drops what is shorter than 512 bytes
		{"a": fsLong("X"), "d/b": fsLong("YY"), "e/": ""},
		{"a": fsLong("X"), "c d/ü": fsLong("X"), "c d/leer": ""},
		{"a": fsLong("Z"), "l": "-> a", "d/e/f/": ""},
		{"keep/": ""},
	} {
		srcs = append(srcs, newSrcDir(base, i, t))
	}
	var cfgs []fsCfg
	for _, st := range []struct{ t, n string }{{"extension", "metadata"}, {"extension", ""}, {"path", "metadata"}, {"path", ""}, {"area", "meta"}, {"area", "content"}, {"Extension", "q/b"}, {"Path", "q/b"}, {"Area", "meta"}, {"area", "none"}, {"nowhere", "x"}, {"", ""}} {
		for _, co := range []string{"none", "gzip", "brotli", "zip"} {
			for _, fo := range []string{"", ".keep", "x"} {
				for _, sub := range []bool{false, true} {
					for _, cl := range []bool{false, true} {
						for _, ix := range []bool{false, true} {
							f := fsCfg{stype: st.t, sname: st.n, compress: co, folders: fo, sub: sub, clean: cl, index: ix}
							lt := strings.ToLower(st.t)
							f.bad = co == "zip" || lt != "extension" && lt != "path" && lt != "area" || lt == "area" && sub && st.n == "none"
							if (cl || ix || fo == "x") && (st.t == "Extension" || st.t == "Path" || st.t == "Area" || f.bad) {
								continue
							}
							if !r.Thorough() {
								// at most two choices differ from the usual ones
								n := 0
								for _, x := range []bool{st.t != "extension" || st.n != "metadata", co != "gzip", fo != ".keep", !sub, cl, ix} {
									if x {
										n++
									}
								}
								if n > 2 {
									continue
								}
							}
							cfgs = append(cfgs, f)
						}
					}
				}
			}
		}
	}
	r.Extra("configurations", len(cfgs))
	b := r.Batch()
	var mu sync.Mutex
	inits := map[string]Snap{}
	for _, f := range cfgs {
		var all []fsOp
		for _, m := range allModes {
			for _, s := range srcs {
				all = append(all, fsOp{[]fsPart{{"", s}}, m})
				if f.sub {
					all = append(all, fsOp{[]fsPart{{"meta", s}}, m})
				}
			}
			if f.sub {
				all = append(all, fsOp{[]fsPart{{"content", srcs[0]}, {"meta", srcs[1]}}, m}, fsOp{[]fsPart{{"meta", srcs[2]}, {"content", srcs[2]}}, m})
			}
		}
		for i, op := range all {
			b.Do(fmt.Sprintf("%v first %d", f, i), func(c *C) {
				e := f.env()
				mu.Lock()
				s, ok := inits[""]
				if !ok {
					d := NewDisk("root")
					must(e.Init(d.FS()))
					s = d.Snap()
					inits[""] = s
				}
				mu.Unlock()
				st := f.apply(c, e, &fsState{snap: s}, op)
				if st == nil || f.bad {
					return
				}
				c.Sample("%v %v: %d entries", f, op, len(st.entries))
				depth := 2
				if r.Thorough() && f.compress == "gzip" {
					depth = 3
				}
				if !r.Thorough() && i%9 != 0 {
					return
				}
				var rec func(st *fsState, k int)
				rec = func(st *fsState, k int) {
					if k == depth {
						return
					}
					for j, op := range all {
						if k == 2 && j%3 != 0 {
							continue
						}
						if n := f.apply(c, e, st, op); n != nil {
							rec(n, k+1)
						}
					}
				}
				rec(st, 1)
			})
		}
	}
	b.Wait()
}
