package main

// C32: thumbnails.

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/je4/gocfl/v2/config"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/gocfl/v2/pkg/subsystem/thumbnail"
	"github.com/je4/utils/v2/pkg/checksum"
	configutil "github.com/je4/utils/v2/pkg/config"
)

func init() {
	register(&Check{Prop: "C32", Level: "model_checking", Run: runC32,
		Rule:   "every configuration (place, folders, compression, areas, with and without functions at the first update, contents of the new version readable during the update or not) x every sequence of up to 2 (thorough 3) updates out of trees with contents of several formats (thumbnails that fail, are missing, empty, equal, time out); the report of the open and the reloaded object, the stored thumbnails, the states, earlier versions and the validity are compared with a model",
		Assume: []string{"content whose thumbnail was made (or failed) once is not processed again", "without access to the stored content during the update a thumbnail is only expected if the source of the update has the content"}})
}

type thCfg struct {
	stype, sname, compress string
	sub, single            bool
	late                   bool // no functions at the first update
	noread                 bool // contents written by the update cannot be read
	nofunc                 bool // no functions at all
	others                 bool
}

func (t thCfg) String() string {
	return fmt.Sprintf("%s/%s/%s sub=%v single=%v late=%v noread=%v nofunc=%v others=%v", t.stype, t.sname, t.compress, t.sub, t.single, t.late, t.noread, t.nofunc, t.others)
}

// contents: format, word, filling. The thumbnail depends on the word.
func thBody(format, word, fill string) string {
	return format + " " + word + " " + strings.Repeat(fill, 600/len(fill)) + "\n"
}

func thFormat(content string) string {
	switch f, _, _ := strings.Cut(content, " "); f {
	case "IMG", "FAIL", "MUTE", "EMPTY":
		return "fmt/1"
	case "SLOW":
		return "fmt/2"
	case "PIC":
		return "mime:image/x-pic"
	}
	return ""
}

func thPNG(word string) string { return "PNG 7x300 red " + word + "\n" }

// thumb is the thumbnail of a content and the id of its function ("" if there
// is none); ok is false if it fails.
func thumb(content string) (id, data string, ok bool) {
	w := strings.Split(content, " ")
	switch w[0] {
	case "IMG":
		return "one", thPNG(w[1]), true
	case "PIC":
		return "two", thPNG(w[1]), true
	case "EMPTY":
		return "one", "", true
	case "SLOW":
		return "slow", "", false
	case "FAIL", "MUTE":
		return "one", "", false
	}
	return "", "", false
}

const thCmd = `/bin/sh -c 'read f w r < "{source}"; case "$f" in IMG|PIC) echo PNG {width}x{height} {background} $w > "{destination}";; EMPTY) : > "{destination}";; MUTE) :;; SLOW) exec sleep 20;; *) echo part > "{destination}"; exit 1;; esac'`

func (t thCfg) env(funcs bool, src fs.FS) *Env {
	x := []map[string]string{digExt,
		extCfg(extension.IndexerName, "storageType", `"extension"`, "storageName", `"metadata"`, "compress", `"none"`, "actions", `["siegfried","xml"]`),
		extCfg(extension.ThumbnailName, "storageType", jstr(t.stype), "storageName", jstr(t.sname), "compress", jstr(t.compress), "singleDirectory", fmt.Sprint(t.single), "width", "7", "height", "300", "ext", `"PNG"`),
	}
	if t.sub {
		x = append(x, contentExt("content", "data", "meta", "data2"))
	}
	if t.others {
		x = append(x, extCfg(extension.FilesystemName, "folders", `""`, "storageType", `"extension"`, "storageName", `"metadata"`, "compress", `"gzip"`),
			extCfg(extension.METSName, "storageType", `"extension"`, "storageName", `"metadata"`, "primaryDescriptiveMetadata", `""`))
	}
	e := env11("thumb", []Alg{checksum.DigestMD5}, x...)
	e.Indexer = fakeIndexer(func(name, content string) string { return thFormat(content) })
	var th *thumbnail.Thumbnail
	if !t.nofunc {
		conf := &config.GOCFLConfig{Thumbnail: &config.Thumbnail{Enabled: true, Background: "red", Function: map[string]*config.ThumbnailFunction{}}}
		if funcs {
			conf.Thumbnail.Function["one"] = &config.ThumbnailFunction{ID: "one", Command: thCmd, Timeout: configutil.Duration(time.Minute), Pronoms: []string{" fmt/1", "x/1"}}
			conf.Thumbnail.Function["slow"] = &config.ThumbnailFunction{ID: "slow", Command: thCmd, Timeout: configutil.Duration(200 * time.Millisecond), Pronoms: []string{"fmt/2"}}
			conf.Thumbnail.Function["two"] = &config.ThumbnailFunction{ID: "two", Command: thCmd, Timeout: configutil.Duration(time.Minute), Mime: []string{"^video/.*", "^image/.*"}}
		}
		var err error
		th, err = thumbnail.GetThumbnails(conf)
		must(err)
		th.SetSourceFS(src)
	}
	e.Extra = map[string]func(fs.FS) (ocfl.Extension, error){
		extension.ThumbnailName: func(x fs.FS) (ocfl.Extension, error) { return extension.NewThumbnailFS(x, th, logger) },
	}
	return e
}

type thPart struct {
	area string
	src  *srcDir
}
type thOp struct {
	parts []thPart
	m     mode
}

func (o thOp) String() string {
	s := fmt.Sprint(o.m)
	for _, p := range o.parts {
		s += fmt.Sprintf(" %q:%v", p.area, p.src.order)
	}
	return s
}

type thSt struct {
	snap  Snap
	vers  int
	user  Tree
	known map[string]bool // contents stored
	done  map[string]bool // contents with a thumbnail or a failed one
	ops   []thOp
}

var thOwn = regexp.MustCompile(`^thumbnail_v\d+\.jsonl(\.gz|\.br)?$`)
var thNew = regexp.MustCompile(`/v\d+/content/`)

func (t thCfg) update(c *C, st *thSt, op thOp) *thSt {
	what := fmt.Sprintf("%v: %v then %v", t, st.ops, op)
	first := st.vers == 0
	funcs := !(t.late && first) && !t.nofunc
	e := t.env(funcs, op.parts[0].src.fs())
	d := FromSnap("root", st.snap)
	if t.noread {
		d.Hook = func(o Op) (int, error) {
			if _, old := st.snap[strings.TrimPrefix(o.Path, "/w/")]; !old && (o.Kind == "open" || o.Kind == "readfile") && thNew.MatchString("/"+o.Path) {
				return 0, fmt.Errorf("cannot be read now: %s", o.Path)
			}
			return 1 << 30, nil
		}
	}
	n := &thSt{user: st.user.Clone(), known: map[string]bool{}, done: map[string]bool{}, ops: append(append([]thOp{}, st.ops...), op)}
	for x := range st.known {
		n.known[x] = true
	}
	for x := range st.done {
		n.done[x] = true
	}
	pre := func(area string) string {
		if t.sub {
			return fsAreas[area]
		}
		return ""
	}
	if op.m.echo {
		for p := range n.user {
			for _, x := range op.parts {
				if strings.HasPrefix(p, pre(x.area)+"/") || !t.sub {
					delete(n.user, p)
				}
			}
		}
	}
	fromSrc := map[string]bool{}
	for i, x := range op.parts {
		for p, data := range x.src.tree {
			n.user[path.Join(pre(x.area), p)] = data
			n.known[data] = true
			if i == 0 && len(op.parts) == 1 && !t.sub {
				fromSrc[data] = true
			}
		}
	}
	if conflicts(n.user.names()) != "" {
		return nil
	}
	c.Step()
	sr, fac, _, err := e.Load(d.FS())
	must(err)
	var live *metaObj
	err = guard(func() error {
		ob, err := e.Open(sr, fac, "o1")
		if err != nil {
			return err
		}
		a := Add{ID: "o1", Msg: "m", User: "u", Addr: "a", Src: op.parts[0].src.fs(), Area: op.parts[0].area, Dedup: op.m.dedup, Echo: op.m.echo}
		for _, x := range op.parts[1:] {
			a.Areas = append(a.Areas, AreaSrc{x.area, x.src.fs()})
		}
		if _, err := update(ob, a); err != nil {
			return err
		}
		x, err := ob.GetMetadata()
		if err != nil {
			return fmt.Errorf("live report: %w", err)
		}
		b, err := json.Marshal(x)
		if err != nil {
			return err
		}
		return json.Unmarshal(b, &live)
	})
	d.Hook = nil
	if err != nil {
		c.Fail("thumbnail: update fails: "+short(err), "%s: %v", what, err)
		return nil
	}
	if x := d.Escaped(); len(x) > 0 {
		c.Fail("thumbnail: escaped", "%s: %v", what, x)
	}
	n.snap = d.Snap()
	s := n.snap.Sub(objPrefix(n.snap, "o1"))
	o := ReadObj(s)
	if x := o.Invalid(); len(x) > 0 {
		c.Fail("thumbnail: invalid object", "%s: %q", what, x)
		return nil
	}
	if es, _, err := e.Validate(d.FS()); err != nil || len(es) > 0 {
		c.Fail("thumbnail: object does not validate", "%s: %v %v", what, es, err)
	}
	n.vers = len(o.Vers)
	if !first {
		immutable(c, st.snap, n.snap, what)
	}
	if n.vers == st.vers {
		if df := st.snap.OnlyFiles().Diff(n.snap.OnlyFiles()); df != "" {
			c.Fail("thumbnail: update without a change leaves traces", "%s: %s", what, df)
		}
		if x := sameTree(st.user, n.user); x != "" {
			c.Fail("thumbnail: change not stored", "%s: %s", what, x)
		}
	}
	maybe := map[string]bool{}
	if funcs && n.vers > st.vers {
		for x := range n.known {
			if id, _, _ := thumb(x); id == "" || n.done[x] {
				continue
			}
			if t.noread && !st.known[x] && !fromSrc[x] || t.noread && st.known[x] && !op.m.dedup {
				maybe[x] = true
				continue
			}
			n.done[x] = true
		}
	}
	mm, err := e.Meta(d.FS(), "", "o1")
	if err != nil {
		c.Fail("thumbnail: report fails: "+short(err), "%s: %v", what, err)
		return nil
	}
	alg := string(e.Digest)
	names := map[string]bool{}
	for when, x := range map[string]*metaObj{"live": live, "reloaded": mm.Objects["o1"]} {
		if x == nil {
			c.Fail("thumbnail: no report", "%s", what)
			continue
		}
		entries := map[string]extension.ThumbnailResult{}
		for dg, f := range x.Files {
			if raw, ok := f.Extension[extension.ThumbnailName]; ok {
				var r extension.ThumbnailResult
				must(json.Unmarshal(mustJSON(raw), &r))
				entries[dg] = r
			}
		}
		byThumb := map[string]map[string]bool{} // digest of thumbnails -> digests of contents
		used := map[string]string{}
		for content := range n.known {
			id, data, good := thumb(content)
			dg := refDigest(alg, content)
			r, has := entries[dg]
			if id == "" || !n.done[content] && !maybe[content] {
				continue
			}
			if !has {
				if n.done[content] {
					c.Fail("thumbnail: missing in the report ("+when+")", "%s: %.20q", what, content)
				}
				continue
			}
			n.done[content] = true
			if r.ID != id || r.SourceDigest != dg || (r.Error == "") != good || r.StorageType != t.stype {
				c.Fail("thumbnail: wrong report ("+when+")", "%s: %.20q: %+v", what, content, r)
				continue
			}
			if !good {
				if r.Filename != "" || r.ThumbDigest != "" {
					c.Fail("thumbnail: file reported for a failed thumbnail ("+when+")", "%s: %.20q: %+v", what, content, r)
				}
				continue
			}
			if k, ok := used[r.Filename]; ok {
				c.Fail("thumbnail: one file for two contents ("+when+")", "%s: %.20q %.20q: %s", what, content, k, r.Filename)
			}
			used[r.Filename] = content
			if r.Ext != "png" || path.Ext(r.Filename) != ".png" {
				c.Fail("thumbnail: wrong suffix ("+when+")", "%s: %+v", what, r)
			}
			if t.stype == "extension" {
				got, ok := o.Files[path.Join("extensions", extension.ThumbnailName, r.Filename)]
				if !ok || got != data {
					c.Fail("thumbnail: wrong or no file ("+when+")", "%s: %.20q: %+v: %.40q instead of %q", what, content, r, got, data)
				}
				names[r.Filename] = true
				continue
			}
			if r.ThumbDigest != refDigest(alg, data) {
				c.Fail("thumbnail: wrong digest ("+when+")", "%s: %.20q: %+v instead of %q", what, content, r, data)
				continue
			}
			if byThumb[r.ThumbDigest] == nil {
				byThumb[r.ThumbDigest] = map[string]bool{}
			}
			byThumb[r.ThumbDigest][dg] = true
			found := false
			for _, v := range o.Vers {
				if got, ok := o.Version(v)[r.Filename]; ok && got == data {
					found = true
				}
			}
			if !found {
				c.Fail("thumbnail: name is not in any version ("+when+")", "%s: %+v", what, r)
			}
			want := path.Join(pre("content"), t.sname) + "/"
			if want == "/" {
				want = ""
			}
			if t.stype == "area" {
				want = pre(t.sname) + "/"
				if !t.sub {
					want = ""
				}
			}
			if !strings.HasPrefix(r.Filename, want) {
				c.Fail("thumbnail: wrong place ("+when+")", "%s: %+v", what, r)
			}
			names[r.Filename] = true
		}
		for dg, r := range entries {
			if dg == r.SourceDigest {
				if _, ok := x.Files[dg]; !ok {
					c.Fail("thumbnail: content unknown ("+when+")", "%s: %+v", what, r)
				}
				continue
			}
			if r.ThumbDigest != dg || !byThumb[dg][r.SourceDigest] {
				c.Fail("thumbnail: unexpected entry ("+when+")", "%s: %s: %+v", what, dg, r)
			}
		}
		for content := range n.known {
			if _, has := entries[refDigest(alg, content)]; has && !n.done[content] && byThumb[refDigest(alg, content)] == nil {
				c.Fail("thumbnail: entry for other content ("+when+")", "%s: %.20q", what, content)
			}
		}
		for dg := range byThumb {
			if _, ok := entries[dg]; !ok {
				c.Fail("thumbnail: no entry for the thumbnail itself ("+when+")", "%s: %s", what, dg)
			}
		}
	}
	user := Tree{}
	for p, x := range o.HeadTree() {
		if names[p] && t.stype != "extension" || thOwn.MatchString(path.Base(p)) && t.stype != "extension" || t.sub && p == "README.md" {
			continue
		}
		user[p] = x
	}
	if x := sameTree(n.user, user); x != "" {
		c.Fail("thumbnail: wrong files", "%s: %s", what, x)
	}
	for p := range o.Files {
		if x, ok := strings.CutPrefix(p, path.Join("extensions", extension.ThumbnailName)+"/"); ok && x != "config.json" && !names[x] && !thOwn.MatchString(path.Base(x)) {
			c.Fail("thumbnail: unknown file of the extension", "%s: %s", what, p)
		}
	}
	c.State(t.String() + canonThumb(n.snap))
	c.Case(what)
	return n
}

// canonThumb ignores the random folders.
func canonThumb(s Snap) string {
	return regexp.MustCompile(`/[0-9a-f]/[0-9a-f]/(\d{5})\.`).ReplaceAllString(canon(s), "/$1.")
}

func runC32(r *Run) {
	base, cleanup := scratch()
	defer cleanup()
	tmp := filepath.Join(base, "tmp")
	must(os.MkdirAll(tmp, 0o755))
	must(os.Setenv("TMPDIR", tmp))
	trees := []Tree{
		{"a.img": thBody("IMG", "w1", "1"), "d/b.txt": thBody("TXT", "w1", "2")},
		{"a.img": thBody("IMG", "w1", "1"), "d/c.img": thBody("IMG", "w1", "1"), "e.pic": thBody("PIC", "w2", "3"), "f": thBody("IMG", "w2", "3")},
		{"a.img": thBody("IMG", "w3", "4"), "t.png": thPNG("w1"), "g ö.img": thBody("IMG", "w4", "4")},
		{"a.img": thBody("FAIL", "w", "1"), "m.img": thBody("MUTE", "w", "1"), "x.img": thBody("EMPTY", "w", "1"), "y.img": thBody("EMPTY", "w", "2")},
		{"d/b.txt": thBody("TXT", "w1", "2")},
		{"s.img": thBody("SLOW", "w", "1"), "a.img": thBody("PIC", "w5", "1")},
	}
	var srcs []*srcDir
	for i, t := range trees {
		srcs = append(srcs, newSrcDir(base, i, t))
	}
	var cfgs []thCfg
	for _, p := range []struct{ t, n string }{{"extension", "data"}, {"extension", ""}, {"extension", "x/y"}, {"area", "meta"}, {"area", "content"}, {"path", "th"}, {"path", ""}} {
		for k := 0; k < 64; k++ {
			t := thCfg{stype: p.t, sname: p.n, sub: k&1 != 0, single: k&2 != 0, late: k&4 != 0, noread: k&8 != 0, nofunc: k&16 != 0, others: k&32 != 0, compress: []string{"gzip", "none", "brotli"}[k%3]}
			if t.nofunc && (t.late || t.noread || t.single) || !t.sub && p.t == "area" && p.n != "content" || t.others && (t.nofunc || t.noread && t.late) {
				continue
			}
			if !r.Thorough() && k>>1&(k>>1-1) != 0 {
				continue // one setting at a time
			}
			cfgs = append(cfgs, t)
		}
	}
	r.Extra("configurations", len(cfgs))
	d0 := NewDisk("root")
	must(thCfg{stype: "extension", compress: "none"}.env(true, nil).Init(d0.FS()))
	s0 := d0.Snap()
	b := r.Batch()
	for ci, t := range cfgs {
		var ops []thOp
		for i, s := range srcs {
			for j, m := range allModes {
				if !r.Thorough() && (i+j+ci)%3 != 0 && j > 0 || i == 5 && (j > 0 || !r.Thorough() && ci%8 != 0) {
					continue
				}
				ops = append(ops, thOp{[]thPart{{"", s}}, m})
				if t.sub {
					ops = append(ops, thOp{[]thPart{{"meta", s}}, m}, thOp{[]thPart{{"content", s}, {"meta", srcs[(i+2)%5]}}, m})
				}
			}
		}
		for i, op := range ops {
			if op.m != (mode{true, false}) {
				continue
			}
			b.Do(fmt.Sprintf("%v %v", t, op), func(c *C) {
				st := t.update(c, &thSt{snap: s0, user: Tree{}, known: map[string]bool{}, done: map[string]bool{}}, op)
				if st == nil {
					return
				}
				c.Sample("%v %v", t, op)
				var rec func(st *thSt, k int)
				rec = func(st *thSt, k int) {
					for j, o2 := range ops {
						if !r.Thorough() && (i+j+ci)%4 != 0 || k == 3 && (i+j)%3 != 0 {
							continue
						}
						n := t.update(c, st, o2)
						if n != nil && k < Pick(r, 2, 3) {
							rec(n, k+1)
						}
					}
				}
				rec(st, 2)
			})
		}
	}
	b.Wait()
	left := 0
	must(filepath.WalkDir(tmp, func(p string, d fs.DirEntry, err error) error {
		if !d.IsDir() && strings.Contains(d.Name(), "gocfl_") {
			left++
		}
		return err
	}))
	if left > 0 {
		b := r.Batch()
		b.Do("temporary files", func(c *C) { c.Fail("temporary files are left", "%d in the folder for temporary files", left) })
		b.Wait()
	}
}
