package main

// C36: extensions used together.

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/je4/gocfl/v2/config"
	dataobject "github.com/je4/gocfl/v2/data/defaultextensions/object"
	dataroot "github.com/je4/gocfl/v2/data/defaultextensions/storageroot"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/gocfl/v2/pkg/subsystem/migration"
	"github.com/je4/gocfl/v2/pkg/subsystem/thumbnail"
	"github.com/je4/utils/v2/pkg/checksum"
	configutil "github.com/je4/utils/v2/pkg/config"
)

func init() {
	register(&Check{Prop: "C36", Level: "model_checking", Run: runC36,
		Rule:   "every selection of the eight extensions for objects (areas, cleaned names, indexer, migration, thumbnails, file system metadata, metadata document, METS) x every place of their files x every sequence of up to 2 (thorough 3) updates; every stored object is valid and extractable, and the states of all versions and what each extension reports about the user's files are those of the same updates with this extension (and the ones it needs) alone",
		Assume: []string{"extensions needed: indexer for migration and thumbnails; areas and cleaned names decide the names", "the stand-ins for the external programs are deterministic"}})
}

const (
	xSub = 1 << iota
	xClean
	xIndex
	xMigr
	xThumb
	xFS
	xMeta
	xMETS
	xAll = 1<<iota - 1
)

var coNames = []string{"areas", "clean", "indexer", "migration", "thumbnail", "filesystem", "metafile", "mets"}
var coExt = map[int]string{xIndex: extension.IndexerName, xMigr: extension.MigrationName, xThumb: extension.ThumbnailName, xFS: extension.FilesystemName, xMeta: extension.MetaFileName}

type coCfg struct {
	set   int
	stype string
	ship  string // name of a shipped configuration
}

func (t coCfg) String() string {
	s := t.ship + t.stype + ":"
	for i, n := range coNames {
		if t.set&(1<<i) != 0 {
			s += " " + n
		}
	}
	return s
}
func (t coCfg) has(x int) bool { return t.set&x != 0 }

// contents: the first word is the format.
func coFormat(content string) string {
	switch f, _, _ := strings.Cut(content, " "); f {
	case "OLD":
		return "fmt/1"
	case "MID", "IMG":
		return "fmt/2"
	}
	return "x-fmt/111"
}

func (t coCfg) env(src fs.FS, doc string) *Env {
	sname := "metadata"
	place := []string{"storageType", jstr(t.stype), "storageName", jstr(sname)}
	kv := func(x ...string) []string { return append(append([]string{}, place...), x...) }
	x := []map[string]string{digExt}
	if t.has(xSub) {
		x = append(x, contentExt("content", "data", "metadata", "metadata"))
	}
	if t.has(xClean) {
		x = append(x, extCfg(extension.DirectCleanName, "maxPathnameLen", "32000", "maxPathSegmentLen", "127", "replacementString", `"_"`, "whitespaceReplacementString", `" "`, "utfEncode", "true"))
	}
	if t.has(xIndex) {
		x = append(x, extCfg(extension.IndexerName, kv("compress", `"gzip"`, "actions", `["siegfried","xml"]`)...))
	}
	if t.has(xMigr) {
		x = append(x, extCfg(extension.MigrationName, kv("compress", `"gzip"`)...))
	}
	if t.has(xThumb) {
		x = append(x, extCfg(extension.ThumbnailName, kv("compress", `"gzip"`, "width", "7", "height", "300", "ext", `"PNG"`, "singleDirectory", "true")...))
	}
	if t.has(xFS) {
		x = append(x, extCfg(extension.FilesystemName, kv("compress", `"gzip"`, "folders", `""`)...))
	}
	if t.has(xMeta) {
		mf := extCfg(extension.MetaFileName, kv("schema", `"s.json"`, "schemaUrl", `"http://127.0.0.1:1/s.json"`, "name", `"info.json"`)...)
		mf["s.json"] = `{"$schema":"https://json-schema.org/draft/2020-12/schema"}`
		x = append(x, mf)
	}
	if t.has(xMETS) {
		x = append(x, extCfg(extension.METSName, kv("primaryDescriptiveMetadata", `""`, "metsFile", `"mets.xml"`, "premisFile", `"premis.xml"`)...))
	}
	e := env11("combo", []Alg{checksum.DigestMD5}, x...)
	// the order of the shipped configurations
	e.Obj = e.Obj.with(mgrName, extCfg(mgrName, "sort", `{"ObjectChange":["NNNN-indexer","NNNN-migration","NNNN-thumbnail"],"ObjectContentPath":["NNNN-direct-clean-path-layout","NNNN-content-subpath"]}`, "exclusion", `{"ObjectContentPath":[["NNNN-direct-clean-path-layout","NNNN-direct-path-layout"]]}`))
	if t.ship != "" {
		e.Root, e.Obj = shipped(t.ship, "storageroot"), shipped(t.ship, "object")
	}
	e.Params = map[string]string{}
	if t.has(xMeta) {
		e.Params["ext-"+extension.MetaFileName+"-source"] = doc
	}
	e.Indexer = fakeIndexer(func(name, content string) string { return coFormat(content) })
	for _, n := range []string{"ffprobe", "identify", "tika"} {
		e.Indexer.RegisterAction(&fakeAction{name: n})
	}
	conf := &config.GOCFLConfig{
		Migration: &config.Migration{Enabled: true, Function: map[string]*config.MigrationFunction{"one": {ID: "one", Title: "one", Command: convCmd, Strategy: "add", FilenameRegexp: `^(.*)\.old$`, FilenameReplacement: "${1}.mid", Timeout: configutil.Duration(time.Minute), Pronoms: []string{"fmt/1"}}}},
		Thumbnail: &config.Thumbnail{Enabled: true, Background: "red", Function: map[string]*config.ThumbnailFunction{"one": {ID: "one", Command: thCmd, Timeout: configutil.Duration(time.Minute), Pronoms: []string{"fmt/2"}}}},
	}
	mig, err := migration.GetMigrations(conf)
	must(err)
	mig.SetSourceFS(src)
	e.Migration = mig
	th, err := thumbnail.GetThumbnails(conf)
	must(err)
	th.SetSourceFS(src)
	e.Extra = map[string]func(fs.FS) (ocfl.Extension, error){
		extension.ThumbnailName: func(x fs.FS) (ocfl.Extension, error) { return extension.NewThumbnailFS(x, th, logger) },
	}
	return e
}

func (t coCfg) pre(area string) string {
	if !t.has(xSub) {
		return ""
	}
	if area == "metadata" {
		return "metadata"
	}
	return "data"
}

// shipped reads a configuration of the repository.
func shipped(set, kind string) Ext {
	root := os.Getenv("VERIF_REPO")
	if root == "" {
		root = "/repo"
	}
	e := Ext{}
	if set == "embedded" { // used by the program if there is no configuration
		var src fs.FS = dataroot.DefaultStorageRootExtensionFS
		if kind == "object" {
			src = dataobject.DefaultObjectExtensionFS
		}
		must(fs.WalkDir(src, ".", func(p string, d fs.DirEntry, err error) error {
			if err != nil || d.IsDir() {
				return err
			}
			b, err := fs.ReadFile(src, p)
			n, f, _ := strings.Cut(p, "/")
			if e[n] == nil {
				e[n] = map[string]string{}
			}
			e[n][f] = string(b)
			return err
		}))
		return e
	}
	base := filepath.Join(root, "data", set+"extensions", kind)
	ds, err := os.ReadDir(base)
	must(err)
	for _, d := range ds {
		if !d.IsDir() {
			continue
		}
		fs, err := os.ReadDir(filepath.Join(base, d.Name()))
		must(err)
		e[d.Name()] = map[string]string{}
		for _, f := range fs {
			b, err := os.ReadFile(filepath.Join(base, d.Name(), f.Name()))
			must(err)
			e[d.Name()][f.Name()] = string(b)
		}
	}
	return e
}

func shippedCfg(set string) coCfg {
	t := coCfg{ship: set, stype: "area"}
	if set == "default" || set == "embedded" {
		t.stype = "extension"
	}
	e := shipped(set, "object")
	for x, n := range map[int]string{xSub: extension.ContentSubPathName, xClean: extension.DirectCleanName, xIndex: extension.IndexerName, xMigr: extension.MigrationName, xThumb: extension.ThumbnailName, xFS: extension.FilesystemName, xMeta: extension.MetaFileName, xMETS: extension.METSName} {
		if _, ok := e[n]; ok {
			t.set |= x
		}
	}
	return t
}

// own reports whether an extension of the selection writes the logical path.
func (t coCfg) own(p string) bool {
	b := path.Base(p)
	for x, pat := range map[int]string{xIndex: "indexer_v*", xMigr: "migration_v*", xThumb: "thumbnail_v*", xFS: "filesystem_v*"} {
		if ok, _ := path.Match(pat+".jsonl*", b); ok && t.has(x) && t.stype != "extension" {
			return true
		}
	}
	if p == "README.md" {
		return t.has(xSub)
	}
	if t.stype == "extension" {
		return false
	}
	dir := t.pre("metadata")
	if t.stype == "path" {
		dir = path.Join(t.pre("content"), "metadata")
	}
	if t.has(xMeta) && p == path.Join(dir, "info.json") {
		return true
	}
	if t.has(xThumb) && strings.HasSuffix(b, ".png") {
		return true
	}
	return t.has(xMETS) && (p == path.Join(dir, "mets.xml") || p == path.Join(dir, "premis.xml") || strings.HasPrefix(b, "mets.") || strings.HasPrefix(b, "premis.") || b == "xlink.xsd")
}

type coOp struct {
	area string
	src  *srcDir
	m    mode
	meta *srcDir // also added, to the metadata area
}

func (o coOp) String() string {
	s := fmt.Sprintf("%q%v%v", o.area, o.src.order, o.m)
	if o.meta != nil {
		s += fmt.Sprintf(" metadata%v", o.meta.order)
	}
	return s
}

// files are the files of an update by their logical path.
func (o coOp) files(t coCfg) Tree {
	r := Tree{}
	for p, data := range o.src.tree {
		r[path.Join(t.pre(o.area), p)] = data
	}
	if o.meta != nil {
		for p, data := range o.meta.tree {
			r[path.Join(t.pre("metadata"), p)] = data
		}
	}
	return r
}

// coRes is the outcome of a sequence of updates.
type coRes struct {
	snap   Snap
	states []string
	user   map[string]bool              // digests of contents of the user
	report map[string]map[string]string // extension -> digest -> entry
	files  map[string]string            // digest -> checksums, names
	ok     bool
	n      int
}

type coRun struct {
	c    *C
	doc  string
	s0   map[string]Snap
	memo map[string]*coRes
}

func (x *coRun) get(t coCfg, ops []coOp) *coRes {
	key := fmt.Sprintf("%v|%v", t, ops)
	if r, ok := x.memo[key]; ok {
		return r
	}
	r := x.do(t, ops)
	x.memo[key] = r
	return r
}

func (x *coRun) do(t coCfg, ops []coOp) *coRes {
	c := x.c
	if len(ops) == 0 {
		d := NewDisk("root")
		must(t.env(nil, "").Init(d.FS()))
		return &coRes{snap: d.Snap(), ok: true, user: map[string]bool{}}
	}
	old := x.get(t, ops[:len(ops)-1])
	if !old.ok {
		return old
	}
	op := ops[len(ops)-1]
	what := fmt.Sprintf("%v: %v", t, ops)
	res := &coRes{user: map[string]bool{}, report: map[string]map[string]string{}, files: map[string]string{}}
	for d := range old.user {
		res.user[d] = true
	}
	for _, data := range op.files(t) {
		res.user[refDigest("sha512", data)] = true
	}
	e := t.env(op.src.fs(), x.doc)
	d := FromSnap("root", old.snap)
	c.Step()
	sr, fac, _, err := e.Load(d.FS())
	must(err)
	var live *metaObj
	err = guard(func() error {
		ob, err := e.Open(sr, fac, "o1")
		if err != nil {
			return err
		}
		a := Add{ID: "o1", Msg: "m", User: "u", Addr: "a", Src: op.src.fs(), Area: op.area, Dedup: op.m.dedup, Echo: op.m.echo}
		if op.meta != nil {
			a.Areas = []AreaSrc{{"metadata", op.meta.fs()}}
		}
		if _, err := update(ob, a); err != nil {
			return err
		}
		m, err := ob.GetMetadata()
		if err != nil {
			return fmt.Errorf("live report: %w", err)
		}
		b, err := json.Marshal(m)
		if err != nil {
			return err
		}
		return json.Unmarshal(b, &live)
	})
	if err != nil {
		c.Fail("combination: update fails: "+short(err), "%s: %v", what, err)
		return res
	}
	if p := d.Escaped(); len(p) > 0 {
		c.Fail("combination: escaped", "%s: %v", what, p)
	}
	res.snap = d.Snap()
	o := ReadObj(res.snap.Sub(objPrefix(res.snap, "o1")))
	if p := o.Invalid(); len(p) > 0 {
		c.Fail("combination: invalid object", "%s: %q", what, p)
		return res
	}
	if es, _, err := e.Validate(d.FS()); err != nil || len(es) > 0 {
		c.Fail("combination: object does not validate", "%s: %v %v", what, es, err)
		return res
	}
	if old.n > 0 {
		immutable(c, old.snap, res.snap, what)
	}
	res.n = len(o.Vers)
	for _, v := range o.Vers {
		st := stateOf(o, v)
		var l []string
		for p, data := range st {
			if !t.own(p) {
				l = append(l, fmt.Sprintf("%q=%.12s", p, refDigest("md5", data)))
			}
		}
		sort.Strings(l)
		res.states = append(res.states, strings.Join(l, " "))
	}
	// every user's file can be read
	want := Tree{}
	head := stateOf(o, o.Inv.Head)
	for p, data := range op.files(t) {
		if got, ok := head[p]; !ok || got != data {
			c.Fail("combination: file of the update not in the state", "%s: %q", what, p)
		}
	}
	for p, data := range head {
		if q, ok := strings.CutPrefix(p, t.pre("content")+"/"); ok && t.has(xSub) {
			want[q] = data
		} else if !t.has(xSub) {
			want[p] = data
		}
	}
	// an object knows its extensions
	var exts []string
	for p := range o.Files {
		if q := strings.Split(p, "/"); len(q) == 3 && q[0] == "extensions" && q[2] == "config.json" {
			exts = append(exts, q[1])
		}
	}
	sort.Strings(exts)
	var wx []string
	for n := range e.Obj {
		wx = append(wx, n)
	}
	sort.Strings(wx)
	if t.ship != "" { // the program adds the initial extension and its manager
		exts = slices.DeleteFunc(exts, func(n string) bool { return (n == mgrName || n == "initial") && !slices.Contains(wx, n) })
	}
	if fmt.Sprint(exts) != fmt.Sprint(wx) {
		c.Fail("combination: wrong extensions stored", "%s: %v instead of %v", what, exts, wx)
	}
	out := NewDisk("out")
	area := ""
	if t.has(xSub) {
		area = "content"
	}
	if err := e.Extract(d.FS(), out.FS(), "", "o1", "latest", false, area); err != nil {
		c.Fail("combination: extraction fails: "+short(err), "%s: %v", what, err)
	} else {
		got := Tree{}
		for p, data := range out.Snap().OnlyFiles() {
			got[p] = string(data)
		}
		if p := sameTree(want, got); p != "" {
			c.Fail("combination: wrong extraction", "%s: %s", what, p)
		}
	}
	m, err := e.Meta(d.FS(), "", "o1")
	if err != nil || m.Objects["o1"] == nil {
		c.Fail("combination: report fails", "%s: %v", what, err)
		return res
	}
	if a, b := string(mustJSON(live.Files)), string(mustJSON(m.Objects["o1"].Files)); a != b {
		for dg := range live.Files {
			if a, b := string(mustJSON(live.Files[dg])), string(mustJSON(m.Objects["o1"].Files[dg])); a != b {
				c.Fail("combination: report changes by reloading", "%s: %s / %s", what, a, b)
				break
			}
		}
	}
	for dg, f := range m.Objects["o1"].Files {
		for n, y := range f.Extension {
			if res.report[n] == nil {
				res.report[n] = map[string]string{}
			}
			res.report[n][dg] = string(mustJSON(y))
		}
		y := *f
		y.Extension = nil
		res.files[dg] = string(mustJSON(y))
	}
	if t.has(xMETS) {
		mc := metsCfg{stype: t.stype, sname: "metadata", digest: e.Digest, names: [2]string{"mets.xml", "premis.xml"}, meta: "metadata"}
		if t.has(xSub) {
			mc.sub = "data"
		}
		if t.ship != "" {
			mc.prim = "json:metadata:info.json"
		}
		for _, p := range mc.problems(o) {
			c.Fail("combination: METS: "+sigMets(p), "%s: %s", what, p)
		}
	}
	if t.has(xMeta) {
		b, _ := os.ReadFile(x.doc)
		a, _ := jsonValue(b)
		y, _ := json.Marshal(live.Extension)
		if !strings.Contains(string(y), extension.MetaFileName) {
			c.Fail("combination: document not in the report", "%s: %s", what, y)
		} else {
			var z map[string]json.RawMessage
			must(json.Unmarshal(y, &z))
			if g, err := jsonValue(z[extension.MetaFileName]); err != nil || g != a {
				c.Fail("combination: wrong document in the report", "%s: %s", what, y)
			}
		}
	}
	c.State(t.String() + canon(res.snap))
	c.Case(what)
	res.ok = true
	return res
}

// judge compares the selection with the extensions alone.
func (x *coRun) judge(t coCfg, ops []coOp) bool {
	r := x.get(t, ops)
	if !r.ok {
		return false
	}
	if t.ship != "" {
		return true
	}
	what := fmt.Sprintf("%v: %v", t, ops)
	b := x.get(coCfg{t.set & (xSub | xClean | xIndex | xMigr), t.stype, ""}, ops)
	// the files of the extensions can be the only change of a version
	if p, q := slices.Compact(slices.Clone(r.states)), slices.Compact(slices.Clone(b.states)); b.ok && !slices.Equal(p, q) {
		x.c.Fail("combination: other states", "%s: %q without the other extensions %q", what, p, q)
		return false
	}
	if b.ok && b.n == r.n {
		for dg := range r.user {
			if r.files[dg] != b.files[dg] {
				x.c.Fail("combination: other names or checksums", "%s: %s without the other extensions %s", what, r.files[dg], b.files[dg])
			}
		}
	}
	for _, y := range []int{xIndex, xMigr, xThumb, xFS} {
		if !t.has(y) {
			continue
		}
		s := t.set&(xSub|xClean) | y
		if y == xMigr || y == xThumb {
			s |= t.set & xIndex
		}
		a := x.get(coCfg{s, t.stype, ""}, ops)
		if !a.ok || a.n != r.n {
			continue
		}
		for dg := range r.user {
			if p, q := r.report[coExt[y]][dg], a.report[coExt[y]][dg]; p != q {
				x.c.Fail("combination: "+coExt[y]+" reports something else", "%s: %s; alone %s", what, p, q)
			}
		}
	}
	return true
}

func runC36(r *Run) {
	base, cleanup := scratch()
	defer cleanup()
	tmp := filepath.Join(base, "tmp")
	must(os.MkdirAll(tmp, 0o755))
	must(os.Setenv("TMPDIR", tmp))
	doc := filepath.Join(base, "doc.json")
	must(os.WriteFile(doc, []byte(`{"signature":"sig-1","organisation_id":"org","organisation":"Org","organisation_address":"o@b.c","title":"t","sets":["1","2"],"user":"u","address":"a@b.c","created":"2024-01-02T03:04:05Z","last_changed":"2024-01-02T03:04:05Z"}`), 0o644))
	trees := []Tree{
		{"a b.old": body("OLD", "1"), "img.dat": thBody("IMG", "i1", "x"), "d/x.txt": body("TXT", "2")},
		{"a b.old": body("OLD", "3"), "d/x.txt": body("TXT", "2"), "d/y.txt": body("TXT", "2")},
		{"m.old": body("OLD", "4"), "img.dat": thBody("IMG", "i2", "y"), "k~ö.txt": body("TXT", "5")},
		{"x*y.old": body("OLD", "6"), "d/x.txt": body("TXT", "7")},
		{"x*y.old": body("OLD", "8"), "x y": thBody("IMG", "i3", "z")},
		{"large": "TXT " + strings.Repeat("large file\n", 1<<17), "img.dat": thBody("IMG", "i1", "x")},
	}
	var srcs []*srcDir
	for i, t := range trees {
		srcs = append(srcs, newSrcDir(base, i, t))
	}
	ops := []coOp{{"", srcs[0], mode{true, false}, nil}, {"", srcs[1], mode{true, true}, nil}, {"metadata", srcs[2], mode{true, false}, nil}, {"", srcs[2], mode{false, false}, nil}, {"", srcs[3], mode{true, false}, srcs[4]}}
	big := coOp{"", srcs[5], mode{true, false}, nil}
	r.Extra("selections", 256)
	b := r.Batch()
	for _, stype := range []string{"area", "extension", "path"} {
		for hi := 0; hi < 16; hi++ {
			hs := hi&3 | hi>>2*xFS
			b.Do(fmt.Sprintf("%s %02x", stype, hs), func(c *C) {
				x := &coRun{c: c, doc: doc, memo: map[string]*coRes{}}
				for k := 0; k < 16; k++ {
					set := hs | (k&7)<<2 | k>>3*xMETS
					t := coCfg{set, stype, ""}
					c.Trace()
					var rec func(h []coOp)
					rec = func(h []coOp) {
						if len(h) == Pick(r, 2, 3) {
							return
						}
						for _, o := range ops {
							if (o.area != "" || o.meta != nil) && !t.has(xSub) || !r.Thorough() && len(h) > 0 && stype != "area" && o.area == "" && o.meta == nil && !o.m.echo {
								continue
							}
							h := append(append([]coOp{}, h...), o)
							if !x.judge(t, h) {
								continue
							}
							rec(h)
						}
					}
					rec(nil)
					if stype == "extension" && (r.Thorough() || !t.has(xMigr) && !t.has(xFS) && !t.has(xMeta)) {
						(&coRun{c: c, doc: doc, memo: map[string]*coRes{}}).do(t, []coOp{big})
					}
				}
			})
		}
	}
	for _, set := range []string{"embedded", "default", "full", "nomigration", "scicore"} {
		b.Do("shipped "+set, func(c *C) {
			x := &coRun{c: c, doc: doc, memo: map[string]*coRes{}}
			t := shippedCfg(set)
			var rec func(h []coOp)
			rec = func(h []coOp) {
				for _, o := range ops {
					h := append(append([]coOp{}, h...), o)
					if (o.area == "" && o.meta == nil || t.has(xSub)) && x.judge(t, h) && len(h) < Pick(r, 2, 3) {
						rec(h)
					}
				}
			}
			rec(nil)
		})
	}
	b.Wait()
}
