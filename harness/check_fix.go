package main

// C09: digests and fixity values.

import (
	"fmt"
	"io"
	"io/fs"
	"strings"

	"github.com/je4/gocfl/v2/pkg/ocfl"
)

func init() {
	register(&Check{Prop: "C09", Level: "model_checking", Run: runC09,
		Rule:   "every set of fixity algorithms of a bounded family, both digest algorithms, every script of update steps (all ways to add content) up to a length; every file size around the buffer sizes; every way a source delivers its bytes (all compositions of the content into reads, end of file with or after the data, seekable or not); every pair of algorithm names for the refusal",
		Assume: []string{"the fixity set of an object is kept in its fixity block and therefore persists as soon as content is stored"}})
}

var allAlgs = []Alg{"md5", "sha1", "sha256", "sha512", "blake2b-160", "blake2b-256", "blake2b-384", "blake2b-512"}

// checkFixity compares the digests of an object with its files.
func checkFixity(c *C, what string, o *RefObj, digest Alg, fix []Alg) {
	want := map[string]bool{}
	for _, a := range fix {
		if a != digest {
			want[string(a)] = true
		}
	}
	if o.Inv.DigestAlgorithm != string(digest) {
		c.Fail("wrong digest algorithm", "%s: %s", what, o.Inv.DigestAlgorithm)
	}
	content := map[string]string{}
	for p, d := range o.Files {
		if s := strings.SplitN(p, "/", 3); len(s) == 3 && s[1] == "content" {
			content[p] = d
		}
	}
	seen := map[string]string{}
	for d, ps := range o.Inv.Manifest {
		for _, p := range ps {
			if _, dup := seen[p]; dup {
				c.Fail("content path listed twice", "%s: %s", what, p)
			}
			seen[p] = d
		}
	}
	for p, data := range content {
		if seen[p] != refDigest(string(digest), data) {
			c.Fail("wrong or missing digest of a content file", "%s: %s %q", what, p, seen[p])
		}
	}
	for a := range want {
		vals := map[string]string{}
		for d, ps := range o.Inv.Fixity[a] {
			for _, p := range ps {
				if _, dup := vals[p]; dup {
					c.Fail("fixity of a file recorded twice", "%s: %s %s", what, a, p)
				}
				vals[p] = d
				if _, ok := content[p]; !ok {
					c.Fail("fixity of a file which does not exist", "%s: %s %s", what, a, p)
				}
			}
		}
		for p, data := range content {
			if v, ok := vals[p]; !ok {
				c.Fail("fixity value missing", "%s: %s %s", what, a, p)
			} else if v != refDigest(a, data) {
				c.Fail("fixity value wrong", "%s: %s %s is %s", what, a, p, v)
			}
		}
	}
	for a, m := range o.Inv.Fixity {
		if !want[a] && a != string(digest) {
			c.Fail("fixity of an algorithm which was not asked for", "%s: %s", what, a)
		}
		if a == string(digest) {
			for d, ps := range m {
				for _, p := range ps {
					if refDigest(a, content[p]) != d {
						c.Fail("fixity value wrong", "%s: %s %s is %s", what, a, p, d)
					}
				}
			}
		}
	}
}

// chunkFS delivers the only file "f" in the given pieces.
type chunkFS struct {
	data    string
	chunks  []int
	eof     bool // end of file together with the last bytes
	zero    bool // reads without data in between
	seek    bool
	opened  int
	ioError bool
}

type chunkFile struct {
	f    *chunkFS
	pos  int
	k    int
	z    bool
	info fs.FileInfo
}

func (x *chunkFS) Open(name string) (fs.File, error) {
	if name == "f" {
		x.opened++
		fi, err := fs.Stat(Tree{"f": x.data}.Disk().FS(), "f")
		must(err)
		cf := &chunkFile{f: x, info: fi}
		if x.seek {
			return &seekFile{cf}, nil
		}
		return cf, nil
	}
	return Tree{"f": x.data}.FS().Open(name)
}

func (x *chunkFS) ReadDir(n string) ([]fs.DirEntry, error) {
	return fs.ReadDir(Tree{"f": x.data}.Disk().FS(), n)
}
func (x *chunkFS) Stat(n string) (fs.FileInfo, error) {
	return fs.Stat(Tree{"f": x.data}.Disk().FS(), n)
}

func (f *chunkFile) Stat() (fs.FileInfo, error) { return f.info, nil }
func (f *chunkFile) Close() error               { return nil }
func (f *chunkFile) Read(b []byte) (int, error) {
	if f.f.zero && !f.z {
		f.z = true
		return 0, nil
	}
	f.z = false
	if f.pos >= len(f.f.data) {
		return 0, io.EOF
	}
	n := len(f.f.data) - f.pos
	if f.k < len(f.f.chunks) {
		n = min(n, f.f.chunks[f.k])
	}
	n = min(n, len(b))
	f.k++
	copy(b, f.f.data[f.pos:f.pos+n])
	f.pos += n
	if f.pos == len(f.f.data) && f.f.eof {
		return n, io.EOF
	}
	return n, nil
}

type seekFile struct{ *chunkFile }

func (f *seekFile) Seek(o int64, w int) (int64, error) {
	if o != 0 || w != 0 {
		return 0, fmt.Errorf("cannot seek")
	}
	f.pos, f.k, f.z = 0, 0, false
	return 0, nil
}

// compositions lists all ways to write n as a sum.
func compositions(n int, f func([]int)) {
	var rec func(left int, s []int)
	rec = func(left int, s []int) {
		if left == 0 {
			f(append([]int{}, s...))
			return
		}
		for k := 1; k <= left; k++ {
			rec(left-k, append(s, k))
		}
	}
	rec(n, nil)
}

func sized(n int) string {
	b := make([]byte, n)
	x := uint32(n)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return string(b)
}

func c09env(digest Alg, fix []Alg, ext bool) *Env {
	e := env11("fixity", fix)
	e.Digest = digest
	if ext {
		e.Obj = baseExt(digExt)
	}
	return e
}

// c09steps are all ways to add content.
func c09steps() []struct {
	name string
	add  Add
} {
	body := func(f func(o ocfl.Object) error) Add {
		return Add{ID: "o1", Msg: "m", User: "u", Addr: "a:b", Src: Tree{}.FS(), Body: f}
	}
	rd := func(s string) io.ReadCloser { return io.NopCloser(strings.NewReader(s)) }
	D, N, E := mode{true, false}, mode{false, false}, mode{true, true}
	return []struct {
		name string
		add  Add
	}{
		{"folder dedup", add1("o1", Tree{"a": "X", "d/b": "X", "c": ""}, D, "")},
		{"folder", add1("o1", Tree{"a": "X", "d/b": "X", "c": ""}, N, "")},
		{"folder echo", add1("o1", Tree{"a": "Y", "c": "X"}, E, "")},
		{"folder big", add1("o1", Tree{"a": "Y", "e": big}, N, "")},
		{"data", body(func(o ocfl.Object) error { return o.AddData([]byte("Z"), "f", false, "content", false, false) })},
		{"data dedup", body(func(o ocfl.Object) error { return o.AddData([]byte("X"), "f", true, "content", false, false) })},
		{"data quiet", body(func(o ocfl.Object) error { return o.AddData([]byte("W"), "q/f", true, "content", true, false) })},
		{"reader", body(func(o ocfl.Object) error {
			_, err := o.AddReader(rd("V"), []string{"g"}, "content", false, false)
			return err
		})},
		{"reader two names", body(func(o ocfl.Object) error {
			_, err := o.AddReader(rd("X"), []string{"h", "i"}, "content", false, false)
			return err
		})},
		{"file", body(func(o ocfl.Object) error {
			return o.AddFile(Tree{"a": "Z"}.FS(), nil, "a", true, "content", false, false)
		})},
		{"delete", body(func(o ocfl.Object) error {
			if err := o.DeleteFile("a", refDigest(string(o.GetInventory().GetDigestAlgorithm()), "X")); err != nil {
				return err
			}
			return o.AddData([]byte("T"), "t", false, "content", false, false)
		})},
	}
}

func runC09(r *Run) {
	b := r.Batch()
	// (a) algorithms x scripts
	var sets [][]Alg
	for m := 0; m < 1<<len(allAlgs); m++ {
		var s []Alg
		for i, a := range allAlgs {
			if m&(1<<i) != 0 {
				s = append(s, a)
			}
		}
		if len(s) <= 2 || len(s) >= 7 || r.Thorough() {
			sets = append(sets, s)
		}
	}
	steps := c09steps()
	depth := 2
	for _, digest := range []Alg{"sha512", "sha256"} {
		for _, set := range sets {
			for first := range steps {
				b.Do(fmt.Sprintf("%s %v %s", digest, set, steps[first].name), func(c *C) {
					e := c09env(digest, set, true)
					var rec func(root *Disk, script []int)
					rec = func(root *Disk, script []int) {
						st := steps[script[len(script)-1]]
						d := root.Clone()
						names := ""
						for _, k := range script {
							names += " / " + steps[k].name
						}
						what := fmt.Sprintf("%s %v%s", digest, set, names)
						_, err := e.Do(d.FS(), st.add)
						c.Step()
						if err != nil {
							c.Fail("update fails: "+short(err), "%s: %v", what, err)
							return
						}
						s := d.Snap()
						o := ReadObj(s.Sub(objPrefix(s, "o1")))
						if bad := o.Invalid(); len(bad) > 0 {
							c.Fail("invalid object", "%s: %v", what, bad)
							return
						}
						c.State(what + canon(s))
						c.Case(what)
						checkFixity(c, what, o, digest, set)
						if len(script) < depth || r.Thorough() && (len(set) <= 1 || len(set) == 8) && len(script) < 3 {
							for k := range steps {
								rec(d, append(append([]int{}, script...), k))
							}
						}
					}
					d := NewDisk("root")
					must(e.Init(d.FS()))
					rec(d, []int{first})
				})
			}
		}
	}
	// (b) sizes
	sizes := []int{0, 1, 2, 63, 64, 65, 127, 128, 129, 511, 512, 513, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 98304, 131072, 131073, 1 << 20, 1<<20 + 1}
	if r.Thorough() {
		for i := 3; i < 300; i++ {
			sizes = append(sizes, i)
		}
		for k := 1; k < 40; k++ {
			sizes = append(sizes, k*32768-1, k*32768, k*32768+1, k*1000)
		}
	}
	for _, digest := range []Alg{"sha512", "sha256"} {
		for _, n := range sizes {
			b.Do(fmt.Sprintf("%s size %d", digest, n), func(c *C) {
				e := c09env(digest, allAlgs, true)
				for _, m := range []mode{{true, false}, {false, false}} {
					d := NewDisk("root")
					must(e.Init(d.FS()))
					what := fmt.Sprintf("%s size %d %v", digest, n, m)
					data := sized(n)
					_, err := e.Do(d.FS(), add1("o1", Tree{"a": data, "b": data}, m, ""))
					c.Step()
					if err != nil {
						c.Fail("update fails: "+short(err), "%s: %v", what, err)
						continue
					}
					s := d.Snap()
					o := ReadObj(s.Sub(objPrefix(s, "o1")))
					c.State(what)
					c.Case(what)
					checkFixity(c, what, o, digest, allAlgs)
					if o.Files["v1/content/a"] != data {
						c.Fail("stored bytes differ", "%s", what)
					}
					if m.dedup && n < 1<<18 {
						c.Trace()
						onOS(Snap{}, func(fsys fs.FS, dir string) {
							must(e.Init(fsys))
							if _, err := e.Do(fsys, add1("o1", Tree{"a": data, "b": data}, m, "")); err != nil {
								c.Fail("update on disk fails: "+short(err), "%s: %v", what, err)
								return
							}
							s := osSnap(dir)
							checkFixity(c, what+" on disk", ReadObj(s.Sub(objPrefix(s, "o1"))), digest, allAlgs)
						})
					}
				}
			})
		}
	}
	// (c) the ways a source delivers its bytes
	data := "abcdefg"[:Pick(r, 5, 7)]
	for v := 0; v < 32; v++ {
		eof, zero, seek, dedup, viaReader := v&1 != 0, v&2 != 0, v&4 != 0, v&8 != 0, v&16 != 0
		b.Do(fmt.Sprintf("chunks %05b", v), func(c *C) {
			compositions(len(data), func(ch []int) {
				e := c09env("sha512", allAlgs, true)
				d := NewDisk("root")
				must(e.Init(d.FS()))
				src := &chunkFS{data: data, chunks: ch, eof: eof, zero: zero, seek: seek}
				what := fmt.Sprintf("read as %v eof=%v zero=%v seek=%v dedup=%v reader=%v", ch, eof, zero, seek, dedup, viaReader)
				a := Add{ID: "o1", Msg: "m", User: "u", Addr: "x:y", Src: src, Dedup: dedup}
				if viaReader {
					a.Src = Tree{}.FS()
					a.Body = func(o ocfl.Object) error {
						f, _ := src.Open("f")
						_, err := o.AddReader(f, []string{"f"}, "content", dedup, false)
						return err
					}
				}
				_, err := e.Do(d.FS(), a)
				c.Step()
				c.Case(what)
				if err != nil {
					c.Fail("update fails: "+short(err), "%s: %v", what, err)
					return
				}
				s := d.Snap()
				o := ReadObj(s.Sub(objPrefix(s, "o1")))
				c.State(what)
				if o.Files["v1/content/f"] != data {
					c.Fail("stored bytes differ", "%s: %q", what, o.Files["v1/content/f"])
				}
				checkFixity(c, what, o, "sha512", allAlgs)
			})
		})
	}
	// (d) which algorithms are refused
	names := append(append([]Alg{}, allAlgs...), "sha512/256", "SHA512", "", "crc32", "md5 ")
	for _, digest := range []Alg{"sha512", "sha256"} {
		for _, ext := range []bool{false, true} {
			b.Do(fmt.Sprintf("refusal %s %v", digest, ext), func(c *C) {
				var sets [][]Alg
				sets = append(sets, nil)
				for _, x := range names {
					sets = append(sets, []Alg{x})
					for _, y := range names {
						sets = append(sets, []Alg{x, y})
						if r.Thorough() {
							for _, z := range names {
								sets = append(sets, []Alg{x, y, z})
							}
						}
					}
				}
				for _, set := range sets {
					e := c09env(digest, set, ext)
					ok := true
					for _, a := range set {
						if refHash(string(a)) == nil || a == "sha512/256" || !ext && a != "sha512" && a != "sha256" {
							ok = false
						}
					}
					d := NewDisk("root")
					must(e.Init(d.FS()))
					before := d.Snap()
					what := fmt.Sprintf("%s extension=%v fixity %q", digest, ext, set)
					_, err := e.Do(d.FS(), add1("o1", Tree{"a": "X", "b": ""}, mode{true, false}, ""))
					c.Step()
					c.State(what)
					c.Case(what)
					if !ok {
						if err == nil {
							c.Fail("fixity algorithm accepted which is not permitted", "%s", what)
						}
						if isPanic(err) {
							c.Fail("panic", "%s: %s", what, short(err))
						}
						if x := before.Diff(d.Snap()); x != "" {
							c.Fail("refused object leaves files", "%s: %s", what, x)
						}
						continue
					}
					if err != nil {
						c.Fail("permitted fixity algorithms refused", "%s: %s", what, short(err))
						continue
					}
					s := d.Snap()
					checkFixity(c, what, ReadObj(s.Sub(objPrefix(s, "o1"))), digest, set)
				}
			})
		}
	}
	// (e) one list of algorithms for several objects
	b.Do("shared list", func(c *C) {
		for _, digest := range []Alg{"sha512", "sha256"} {
			for n := 0; n <= len(allAlgs); n++ {
				e := c09env(digest, nil, true)
				d := NewDisk("root")
				must(e.Init(d.FS()))
				shared := append(make([]Alg, 0, 16), allAlgs[:n]...)
				sr, f, _, err := e.Load(d.FS())
				must(err)
				for _, id := range []string{"o1", "o2", "o3"} {
					m, err := f.LoadExtensions(extDisk(e.Obj), nil)
					must(err)
					err = guard(func() error {
						o, err := sr.CreateObject(id, sr.GetVersion(), sr.GetDigest(), shared, m)
						if err != nil {
							return err
						}
						_, err = update(o, add1(id, Tree{"a": id, "b": "X"}, mode{true, false}, ""))
						return err
					})
					c.Step()
					if err != nil {
						c.Fail("update fails: "+short(err), "%s: %v", id, err)
					}
				}
				s := d.Snap()
				for _, id := range []string{"o1", "o2", "o3"} {
					checkFixity(c, fmt.Sprintf("shared list of %d, %s", n, id), ReadObj(s.Sub(objPrefix(s, id))), digest, allAlgs[:n])
				}
				c.State(canon(s))
				c.Case(fmt.Sprint(digest, n))
			}
		}
	})
	b.Wait()
	r.Extra("fixity_sets", len(sets))
	r.Extra("update_steps", len(steps))
}
