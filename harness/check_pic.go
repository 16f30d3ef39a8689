package main

// C35: pictures are shrunk while they are stored.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/je4/filesystem/v3/pkg/writefs"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/utils/v2/pkg/checksum"
	"golang.org/x/image/tiff"
)

func init() {
	register(&Check{Prop: "C35", Level: "model_checking", Run: runC35,
		Rule:   "every configuration (place, folders, image format, size, areas, cleaned names, other extensions) x every sequence of up to 2 (thorough 3) updates out of trees with pictures of several formats and shapes (also equal, cut and empty ones), into a directory and into a ZIP container; the report of the open and the reloaded object, the decoded thumbnails, the states, earlier versions and the validity are compared with a model",
		Assume: []string{"the program is built without imagick and vips", "pictures of one colour: the thumbnail is identified by its colour"}})
}

// picture is a plain picture; cut removes the end.
type picture struct {
	data string
	w, h int
	c    color.RGBA
}

var pictures = map[string]picture{} // by content

func pic(format string, w, h int, c color.RGBA, cut int) string {
	img := image.NewRGBA(image.Rect(0, 0, w, h))
	for x := 0; x < w; x++ {
		for y := 0; y < h; y++ {
			img.SetRGBA(x, y, c)
		}
	}
	var b bytes.Buffer
	switch format {
	case "png":
		must(png.Encode(&b, img))
	case "jpeg":
		must(jpeg.Encode(&b, img, nil))
	case "tiff":
		must(tiff.Encode(&b, img, nil))
	case "gif":
		p := image.NewPaletted(img.Rect, color.Palette{c, color.White})
		must(gif.Encode(&b, p, nil))
	case "bmp":
		row := (3*w + 3) / 4 * 4
		le := func(n int, v ...int) {
			for _, x := range v {
				for i := 0; i < n; i++ {
					b.WriteByte(byte(x >> (8 * i)))
				}
			}
		}
		b.WriteString("BM")
		le(4, 54+row*h, 0, 54, 40, w, h)
		le(2, 1, 24)
		le(4, 0, row*h, 0, 0, 0, 0)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				b.Write([]byte{c.B, c.G, c.R})
			}
			b.Write(make([]byte, row-3*w))
		}
	}
	s := b.String()
	if cut > 0 {
		return s[:len(s)-cut]
	}
	if w > 0 && h > 0 {
		pictures[s] = picture{s, w, h, c}
	}
	return s
}

type pcCfg struct {
	stype, sname, ext  string
	w, h               int
	sub, single, clean bool
	others             bool
	bare               bool // parameters with their documented default are left out
}

func (t pcCfg) String() string {
	if t.bare {
		t.bare = false
		return t.String() + " by default"
	}
	return fmt.Sprintf("%s/%s/%s %dx%d sub=%v single=%v clean=%v others=%v", t.stype, t.sname, t.ext, t.w, t.h, t.sub, t.single, t.clean, t.others)
}

// params is the configuration of the extension.
func (t pcCfg) params(kv ...string) map[string]string {
	defaults := map[string]string{"storageType": `"extension"`, "storageName": `"data"`, "singleDirectory": "false", "width": "256", "height": "256", "ext": `"png"`}
	var l []string
	for i := 0; i < len(kv); i += 2 {
		if d, ok := defaults[kv[i]]; !t.bare || !ok || d != kv[i+1] {
			l = append(l, kv[i], kv[i+1])
		}
	}
	return extCfg(extension.ThumbnailName, l...)
}

func (t pcCfg) env() *Env {
	x := []map[string]string{digExt,
		t.params("storageType", jstr(t.stype), "storageName", jstr(t.sname), "compress", `"none"`, "singleDirectory", fmt.Sprint(t.single), "width", fmt.Sprint(t.w), "height", fmt.Sprint(t.h), "ext", jstr(t.ext)),
	}
	if t.sub {
		x = append(x, contentExt("content", "data", "meta", "data2"))
	}
	if t.clean {
		x = append(x, extCfg(extension.DirectCleanName, "maxPathnameLen", "32000", "maxFilenameLen", "127", "replacementString", `"_"`, "whitespaceReplacementString", `"-"`, "utfEncode", "true"))
	}
	if t.others {
		x = append(x, extCfg(extension.FilesystemName, "folders", `""`, "storageType", `"extension"`, "storageName", `"metadata"`, "compress", `"gzip"`),
			extCfg(extension.METSName, "storageType", `"extension"`, "storageName", `"metadata"`, "primaryDescriptiveMetadata", `""`))
	}
	e := env11("pic", []Alg{checksum.DigestMD5}, x...)
	e.Extra = map[string]func(fs.FS) (ocfl.Extension, error){
		extension.ThumbnailName: func(x fs.FS) (ocfl.Extension, error) { return extension.NewThumbnailFS(x, nil, logger) },
	}
	return e
}

type pcOp struct {
	area string
	src  *srcDir
	m    mode
}

func (o pcOp) String() string { return fmt.Sprintf("%q %v%v", o.area, o.src.order, o.m) }

type pcSt struct {
	snap  Snap
	vers  int
	user  Tree
	known map[string]bool
	ops   []pcOp
}

func (t pcCfg) add(op pcOp) Add {
	return Add{ID: "o1", Msg: "m", User: "u", Addr: "a", Src: op.src.fs(), Area: op.area, Dedup: op.m.dedup, Echo: op.m.echo}
}

// next is the model of an update.
func (t pcCfg) next(st *pcSt, op pcOp) *pcSt {
	n := &pcSt{user: st.user.Clone(), known: map[string]bool{}, ops: append(append([]pcOp{}, st.ops...), op)}
	for x := range st.known {
		n.known[x] = true
	}
	pre := ""
	if t.sub {
		pre = fsAreas[op.area]
	}
	if op.m.echo {
		for p := range n.user {
			if strings.HasPrefix(p, pre+"/") || !t.sub {
				delete(n.user, p)
			}
		}
	}
	for p, data := range op.src.tree {
		n.user[path.Join(pre, p)] = data
		n.known[data] = true
	}
	if conflicts(n.user.names()) != "" {
		return nil
	}
	return n
}

func (t pcCfg) update(c *C, st *pcSt, op pcOp) *pcSt {
	what := fmt.Sprintf("%v: %v then %v", t, st.ops, op)
	n := t.next(st, op)
	if n == nil {
		return nil
	}
	e := t.env()
	d := FromSnap("root", st.snap)
	c.Step()
	sr, fac, _, err := e.Load(d.FS())
	must(err)
	var live *metaObj
	err = guard(func() error {
		ob, err := e.Open(sr, fac, "o1")
		if err != nil {
			return err
		}
		if _, err := update(ob, t.add(op)); err != nil {
			return err
		}
		x, err := ob.GetMetadata()
		if err != nil {
			return fmt.Errorf("live report: %w", err)
		}
		b, err := json.Marshal(x)
		if err != nil {
			return err
		}
		return json.Unmarshal(b, &live)
	})
	if err != nil {
		c.Fail("picture: update fails: "+short(err), "%s: %v", what, err)
		return nil
	}
	if x := d.Escaped(); len(x) > 0 {
		c.Fail("picture: escaped", "%s: %v", what, x)
	}
	n.snap = d.Snap()
	if !t.judge(c, what, st, n, live) {
		return nil
	}
	return n
}

// judge compares the storage with the model.
func (t pcCfg) judge(c *C, what string, st, n *pcSt, live *metaObj) bool {
	e := t.env()
	d := FromSnap("root", n.snap)
	o := ReadObj(n.snap.Sub(objPrefix(n.snap, "o1")))
	if x := o.Invalid(); len(x) > 0 {
		c.Fail("picture: invalid object", "%s: %q", what, x)
		return false
	}
	if es, _, err := e.Validate(d.FS()); err != nil || len(es) > 0 {
		c.Fail("picture: object does not validate", "%s: %v %v", what, es, err)
	}
	n.vers = len(o.Vers)
	if st.vers > 0 {
		immutable(c, st.snap, n.snap, what)
	}
	if n.vers == st.vers {
		if df := st.snap.OnlyFiles().Diff(n.snap.OnlyFiles()); df != "" {
			c.Fail("picture: update without a change leaves traces", "%s: %s", what, df)
		}
	}
	mm, err := e.Meta(d.FS(), "", "o1")
	if err != nil {
		c.Fail("picture: report fails: "+short(err), "%s: %v", what, err)
		return false
	}
	alg := string(e.Digest)
	names := map[string]bool{}
	reports := map[string]*metaObj{"reloaded": mm.Objects["o1"]}
	if live != nil {
		reports["live"] = live
	}
	for when, x := range reports {
		used := map[string]string{}
		expect := map[string]bool{}
		for content := range n.known {
			p, isPic := pictures[content]
			dg := refDigest(alg, content)
			raw, has := x.Files[dg].Extension[extension.ThumbnailName]
			if !isPic {
				if has {
					c.Fail("picture: thumbnail of something else ("+when+")", "%s: %.20q: %s", what, content, mustJSON(raw))
				}
				continue
			}
			name := fmt.Sprintf("%dx%d %v", p.w, p.h, p.c)
			if !has {
				c.Fail("picture: missing in the report ("+when+")", "%s: %s", what, name)
				continue
			}
			var r extension.ThumbnailResult
			must(json.Unmarshal(mustJSON(raw), &r))
			if r.ID != "internal" || r.SourceDigest != dg || r.Error != "" || r.StorageType != t.stype || !strings.EqualFold(r.Ext, t.ext) || path.Ext(r.Filename) != "."+strings.ToLower(t.ext) {
				c.Fail("picture: wrong report ("+when+")", "%s: %s: %+v", what, name, r)
				continue
			}
			if k, ok := used[r.Filename]; ok {
				c.Fail("picture: one file for two pictures ("+when+")", "%s: %s %s: %s", what, name, k, r.Filename)
			}
			used[r.Filename] = name
			names[r.Filename] = true
			data, found := "", false
			if t.stype == "extension" {
				data, found = o.Files[path.Join("extensions", extension.ThumbnailName, r.Filename)]
			} else {
				for _, v := range o.Vers {
					if got, ok := o.Version(v)[r.Filename]; ok && refDigest(alg, got) == r.ThumbDigest {
						data, found = got, true
					}
				}
				expect[r.ThumbDigest] = true
			}
			if !found {
				c.Fail("picture: no thumbnail ("+when+")", "%s: %s: %+v", what, name, r)
				continue
			}
			img, format, err := image.Decode(strings.NewReader(data))
			if err != nil || !strings.EqualFold(format, t.ext) {
				c.Fail("picture: thumbnail cannot be decoded ("+when+")", "%s: %s: %s %v", what, name, format, err)
				continue
			}
			w, h := img.Bounds().Dx(), img.Bounds().Dy()
			scale := min(float64(t.w)/float64(p.w), float64(t.h)/float64(p.h))
			near := func(got int, want float64) bool {
				return float64(got) >= want-1 && float64(got) <= want+1 || got == 1 && want < 1
			}
			if w > t.w || h > t.h || !near(w, float64(p.w)*scale) || !near(h, float64(p.h)*scale) {
				c.Fail("picture: wrong size of the thumbnail ("+when+")", "%s: %s: %dx%d", what, name, w, h)
			}
			r0, g0, b0, _ := img.At(img.Bounds().Min.X+w/2, img.Bounds().Min.Y+h/2).RGBA()
			for i, v := range []uint32{r0, g0, b0} {
				if x := int(v>>8) - int([]uint8{p.c.R, p.c.G, p.c.B}[i]); x < -6 || x > 6 {
					c.Fail("picture: thumbnail of another picture ("+when+")", "%s: %s: %v", what, name, img.At(w/2, h/2))
					break
				}
			}
		}
		for dg, f := range x.Files {
			if raw, has := f.Extension[extension.ThumbnailName]; has && !expect[dg] {
				known := false
				for content := range n.known {
					known = known || refDigest(alg, content) == dg
				}
				if !known {
					c.Fail("picture: unexpected entry ("+when+")", "%s: %s", what, mustJSON(raw))
				}
			}
		}
	}
	user := Tree{}
	for p, x := range o.HeadTree() {
		if t.stype != "extension" && (names[p] || thOwn.MatchString(path.Base(p))) || t.sub && p == "README.md" {
			continue
		}
		user[p] = x
	}
	if x := sameTree(n.user, user); x != "" {
		c.Fail("picture: wrong files", "%s: %s", what, x)
	}
	for p := range o.Files {
		if x, ok := strings.CutPrefix(p, path.Join("extensions", extension.ThumbnailName)+"/"); ok && x != "config.json" && !names[x] && !thOwn.MatchString(path.Base(x)) {
			c.Fail("picture: unknown file of the extension", "%s: %s", what, p)
		}
	}
	c.State(t.String() + canonThumb(n.snap))
	c.Case(what)
	return true
}

// zip carries out updates in a container.
func (t pcCfg) zip(c *C, ops []pcOp) {
	what := fmt.Sprintf("%v zip: %v", t, ops)
	dir, cleanup := scratch()
	defer cleanup()
	file := filepath.Join(dir, "x.zip")
	e := t.env()
	session := func(f func(fsys fs.FS) error) error {
		return within(func() error {
			fsys, err := zipFactory(false, false).Get(file)
			if err != nil {
				return err
			}
			if err := f(fsys); err != nil {
				return err
			}
			return writefs.Close(fsys)
		})
	}
	must(session(e.Init))
	st := &pcSt{user: Tree{}, known: map[string]bool{}}
	for _, op := range ops {
		n := t.next(st, op)
		if n == nil {
			return
		}
		c.Step()
		if err := session(func(fsys fs.FS) error { _, err := e.Do(fsys, t.add(op)); return err }); err != nil {
			if err == errHang {
				c.Fail("picture: update of a ZIP container does not end", "%s", what)
				return
			}
			c.Fail("picture: update of a ZIP container fails: "+short(err), "%s: %v", what, err)
			return
		}
		s, err := zipFiles(file)
		if err != nil {
			c.Fail("picture: damaged ZIP container", "%s: %v", what, err)
			return
		}
		n.snap = FromSnap("root", s).Snap()
		if !t.judge(c, what, st, n, nil) {
			return
		}
		st = n
	}
}

func runC35(r *Run) {
	base, cleanup := scratch()
	defer cleanup()
	tmp := filepath.Join(base, "tmp")
	must(os.MkdirAll(tmp, 0o755))
	must(os.Setenv("TMPDIR", tmp))
	rgb := func(r, g, b uint8) color.RGBA { return color.RGBA{r, g, b, 255} }
	p1, p2, p3 := pic("png", 30, 20, rgb(200, 10, 10), 0), pic("jpeg", 40, 48, rgb(10, 200, 10), 0), pic("png", 20, 30, rgb(10, 10, 200), 0)
	trees := []Tree{
		{"a.png": p1, "d/b.txt": "text", "big.bmp": pic("bmp", 600, 600, rgb(160, 30, 90), 0)},
		{"a.png": p1, "c/ä b.png": p1, "e.jpg": p2},
		{"a.png": p3, "long.bmp": pic("bmp", 2, 2000, rgb(100, 100, 0), 0), "wide: ~.png": pic("png", 2000, 1, rgb(0, 100, 100), 0)},
		{"cut.png": pic("png", 60, 60, rgb(1, 2, 3), 20), "cut.jpg": pic("jpeg", 60, 60, rgb(1, 2, 3), 100), "zero.bmp": pic("bmp", 0, 0, rgb(0, 0, 0), 0), "zero.1": pic("bmp", 4, 0, rgb(0, 0, 0), 0), "zero.2": pic("bmp", 0, 4, rgb(0, 0, 0), 0), "empty": "", "one.png": pic("png", 1, 1, rgb(250, 250, 1), 0)},
		{"d/b.txt": "text", "t.tif": pic("tiff", 7, 7, rgb(90, 160, 30), 0), "g.gif": pic("gif", 50, 5, rgb(30, 90, 160), 0)},
		{"a.png": p2, "e.jpg": p1, "x/a.png": pic("png", 300, 200, rgb(250, 1, 250), 0)},
	}
	var srcs []*srcDir
	for i, t := range trees {
		srcs = append(srcs, newSrcDir(base, i, t))
	}
	var cfgs []pcCfg
	for _, p := range []struct{ t, n string }{{"extension", "data"}, {"extension", ""}, {"area", "meta"}, {"area", "content"}, {"path", "th"}, {"path", ""}} {
		for k := 0; k < 16; k++ {
			for i, x := range []pcCfg{{ext: "png", w: 256, h: 256}, {ext: "jpeg", w: 64, h: 16}, {ext: "PNG", w: 5, h: 300}, {ext: "png", w: 32, h: 32}, {ext: "png", w: 256, h: 256, bare: true}} {
				t := pcCfg{bare: x.bare, stype: p.t, sname: p.n, ext: x.ext, w: x.w, h: x.h, sub: k&1 != 0, single: k&2 != 0, clean: k&4 != 0, others: k&8 != 0}
				if !t.sub && p.t == "area" && p.n != "content" {
					continue
				}
				if !r.Thorough() && (k>>1&(k>>1-1) != 0 || i > 0 && k>>1 > 0) {
					continue
				}
				cfgs = append(cfgs, t)
			}
		}
	}
	r.Extra("configurations", len(cfgs))
	d0 := NewDisk("root")
	must(pcCfg{stype: "extension", ext: "png", w: 1, h: 1}.env().Init(d0.FS()))
	s0 := d0.Snap()
	b := r.Batch()
	for ci, t := range cfgs {
		var ops []pcOp
		for i, s := range srcs {
			for j, m := range allModes {
				if !r.Thorough() && (i+j+ci)%3 != 0 && j > 0 {
					continue
				}
				ops = append(ops, pcOp{"", s, m})
				if t.sub {
					ops = append(ops, pcOp{"meta", s, m})
				}
			}
		}
		for i, op := range ops {
			if op.m != (mode{true, false}) {
				continue
			}
			b.Do(fmt.Sprintf("%v %v", t, op), func(c *C) {
				st := t.update(c, &pcSt{snap: s0, user: Tree{}, known: map[string]bool{}}, op)
				if st == nil {
					return
				}
				c.Sample("%v %v", t, op)
				var rec func(st *pcSt, k int)
				rec = func(st *pcSt, k int) {
					for j, o2 := range ops {
						if !r.Thorough() && (i+j+ci)%4 != 0 || k == 3 && (i+j)%5 != 0 {
							continue
						}
						n := t.update(c, st, o2)
						if n != nil && k < Pick(r, 2, 3) {
							rec(n, k+1)
						}
					}
				}
				rec(st, 2)
			})
		}
		if ci%4 == 0 || r.Thorough() {
			for i := range srcs {
				b.Do(fmt.Sprintf("zip %v %d", t, i), func(c *C) {
					t.zip(c, []pcOp{{"", srcs[i], mode{true, false}}, {"", srcs[(i+1)%len(srcs)], mode{true, i%2 == 0}}})
				})
			}
		}
	}
	b.Wait()
	left := 0
	must(filepath.WalkDir(tmp, func(p string, d fs.DirEntry, err error) error {
		if !d.IsDir() && strings.Contains(d.Name(), "gocfl") {
			left++
		}
		return err
	}))
	if left > 0 {
		b := r.Batch()
		b.Do("temporary files", func(c *C) { c.Fail("temporary files are left", "%d in the folder for temporary files", left) })
		b.Wait()
	}
}
