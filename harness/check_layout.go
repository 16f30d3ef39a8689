package main

// C15, C16, C27: storage layouts. Executable specifications of every layout,
// compared with the real code on every identifier of a bounded universe and
// every configuration; confinement and collision freedom of the paths a
// storage root computes.

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
)

func init() {
	register(&Check{Prop: "C15", Level: "model_checking", Run: runC15,
		Rule:   "every identifier of the universe (all token strings up to the length bound, plus strings around every length limit) under every configuration; distinct = (configuration, identifier) with a defined path",
		Assume: []string{"identifiers are valid UTF-8 except for the 0003/0004 layouts", "configuration values outside the specified ranges only have to be refused or handled without a crash"}})
	register(&Check{Prop: "C16", Level: "model_checking", Run: runC16,
		Rule: "every identifier of the universe under every layout: path computed by the storage root's extension manager, collisions and nesting over the whole universe; hostile identifiers are also created on a file system that records escapes"})
	register(&Check{Prop: "C27", Level: "model_checking", Run: runC27,
		Rule:   "every token string up to the length bound and every Unicode code point in four contexts, under every configuration; as storage path and as content path",
		Assume: []string{"replacement strings consist of clean characters", "no two adjacent invalid UTF-8 bytes, no '=u' followed by four letters which are not hex digits (documentation leaves both open)"}})
}

// ---- universes ---------------------------------------------------------

// strs returns all concatenations of at most n tokens.
func strs(tokens []string, n int) []string {
	r := []string{""}
	last := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range last {
			for _, t := range tokens {
				next = append(next, p+t)
			}
		}
		r = append(r, next...)
		last = next
	}
	seen := map[string]bool{}
	var u []string
	for _, s := range r {
		if !seen[s] {
			seen[s] = true
			u = append(u, s)
		}
	}
	return u
}

var idTokens = []string{"a", "A", "0", "c", "-", "_", ".", "/", ":", "%", "~", " ", "ä", "€", "😀", "^", "=", "+", ",", "\\", "\"", "*", "\x07", "\x7f", "edu/"}

func longIDs() []string {
	var r []string
	for _, n := range []int{31, 32, 33, 63, 64, 65, 98, 99, 100, 101, 102, 127, 128, 254, 255, 256, 1000} {
		r = append(r, strings.Repeat("x", n), strings.Repeat("x", n-1)+"ü", "ü"+strings.Repeat("x", n-1), strings.Repeat("x", n-1)+"/", strings.Repeat("x/", n/2))
	}
	// equal in the first hundred characters: they differ in the digest only
	for i := 0; i < 48; i++ {
		r = append(r, strings.Repeat("x", 100)+strconv.Itoa(i))
	}
	for n := 30; n <= 36; n++ {
		r = append(r, strings.Repeat("ü", n/2), strings.Repeat("😀", n/4), strings.Repeat(":", n), "x"+strings.Repeat(":", n))
	}
	return r
}

var realIDs = []string{"object-01", "..hor/rib:le-$id", "..Hor/rib:lè-$id", "info:fedora/object-01", "https://hdl.handle.net/XXXXX/test/bl ah", "ark:/13030/xt12t3",
	"urn:uuid:6e8bc430-9c3a-11d9-9669-0800200c9a66", "namespace:12887296", "https://institution.edu/3448793", "https://institution.edu/abc/edu/f8.05v", "info:namespace:12345", "EDU/x", "edu/f8.05v/",
	"what-the-*@?#!^!?", "extensions", "extensions/x", "extensions.", "0=ocfl_1.1", "ocfl_layout.json", "..", "../x", "a/../b", "a/./b", "/abs", "//", "a//b", "a/", "./a", "C:\\x", "con", "\xff", "a\xffb"}

// ---- specifications ----------------------------------------------------

type layout struct {
	name string
	cfg  J
	// path returns the specified path; ok=false: must be an error;
	// open=true: the specification says nothing.
	path func(id string) (p string, ok bool)
	// invalid configuration: must be refused, at the latest when used
	invalid bool
	// outside of the specification: only no crash
	open bool
}

func (l *layout) String() string { return strings.ReplaceAll(string(mustJSON(l.cfg)), "|", "/") }

func mustJSON(x any) []byte { b, _ := json.Marshal(x); return b }

func (l *layout) files() map[string]string {
	c := J{"extensionName": l.name}
	for k, v := range l.cfg {
		c[k] = v
	}
	return map[string]string{"config.json": string(mustJSON(c))}
}

// make builds the extension the way it is loaded from disk.
func (l *layout) make() (ext ocfl.ExtensionStorageRootPath, err error) {
	err = guard(func() error {
		e := &Env{}
		f, err := e.Factory()
		if err != nil {
			return err
		}
		x, err := f.Create(extDisk(Ext{"x": l.files()}).(interface {
			Sub(string) (fs.FS, error)
		}).(*MemFS).must("x"))
		if err != nil {
			return err
		}
		ext = x.(ocfl.ExtensionStorageRootPath)
		return nil
	})
	return
}

func (m *MemFS) must(d string) fs.FS {
	s, err := m.Sub(d)
	must(err)
	return s
}

func build(ext ocfl.ExtensionStorageRootPath, id string) (p string, err error) {
	err = guard(func() error { p, err = ext.BuildStorageRootPath(nil, id); return err })
	return
}

func cfgInt(j J, k string, def int) int {
	if v, ok := j[k]; ok {
		return v.(int)
	}
	return def
}
func cfgStr(j J, k, def string) string {
	if v, ok := j[k]; ok {
		return v.(string)
	}
	return def
}
func cfgBool(j J, k string) bool { v, _ := j[k].(bool); return v }

func tuples(d []rune, size, n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, string(d[i*size:(i+1)*size]))
	}
	return r
}

func hashLayout(name string, cfg J) *layout {
	l := &layout{name: name, cfg: cfg}
	alg := cfgStr(cfg, "digestAlgorithm", "sha256")
	size, n := cfgInt(cfg, "tupleSize", 3), cfgInt(cfg, "numberOfTuples", 3)
	if refHash(alg) == nil || size < 0 || n < 0 {
		l.invalid = true
		return l
	}
	if size > 32 || n > 32 || (size == 0) != (n == 0) {
		l.open = true
		return l
	}
	hexLen := len(refDigest(alg, ""))
	short := cfgBool(cfg, "shortObjectRoot") && name == extension.StorageLayoutHashedNTupleName
	if size*n > hexLen || (short && size*n == hexLen) {
		l.invalid = true
		return l
	}
	l.path = func(id string) (string, bool) {
		d := refDigest(alg, id)
		parts := tuples([]rune(d), size, n)
		if name == extension.StorageLayoutHashedNTupleName {
			if short {
				parts = append(parts, d[size*n:])
			} else {
				parts = append(parts, d)
			}
			return strings.Join(parts, "/"), true
		}
		var b strings.Builder
		for i := 0; i < len(id); i++ {
			c := id[i]
			if strings.IndexByte("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", c) >= 0 {
				b.WriteByte(c)
			} else {
				b.WriteString("%" + string("0123456789abcdef"[c>>4]) + string("0123456789abcdef"[c&15]))
			}
		}
		s := b.String()
		if len(s) > 100 {
			s = s[:100] + "-" + d
		}
		return strings.Join(append(parts, s), "/"), true
	}
	return l
}

func omit(delim, id string) (string, bool) {
	if i := strings.LastIndex(id, delim); i >= 0 {
		id = id[i+len(delim):]
	}
	return id, id != ""
}

func flatOmit(cfg J) *layout {
	l := &layout{name: extension.FlatOmitPrefixStorageLayoutName, cfg: cfg}
	d := cfgStr(cfg, "delimiter", ":")
	if d == "" {
		l.open = true
		return l
	}
	l.path = func(id string) (string, bool) { return omit(d, id) }
	return l
}

func tupleOmit(cfg J) *layout {
	l := &layout{name: extension.NTupleOmitPrefixStorageLayoutName, cfg: cfg}
	d := cfgStr(cfg, "delimiter", ":")
	size, n := cfgInt(cfg, "tupleSize", 3), cfgInt(cfg, "numberOfTuples", 3)
	pad := cfgStr(cfg, "zeroPadding", "left")
	if size < 1 || n < 1 || (pad != "left" && pad != "right") {
		l.invalid = true
		return l
	}
	if d == "" || size > 32 || n > 32 {
		l.open = true
		return l
	}
	l.path = func(id string) (string, bool) {
		id, ok := omit(d, id)
		if !ok {
			return "", false
		}
		s := []rune(id)
		for len(s) < size*n {
			if pad == "left" {
				s = append([]rune{'0'}, s...)
			} else {
				s = append(s, '0')
			}
		}
		if cfgBool(cfg, "reverseObjectRoot") {
			var t []rune
			for i := len(s) - 1; i >= 0; i-- {
				t = append(t, s[i])
			}
			s = t
		}
		return strings.Join(append(tuples(s, size, n), id), "/"), true
	}
	return l
}

func pairtree(cfg J) *layout {
	l := &layout{name: extension.StorageLayoutPairTreeName, cfg: cfg}
	n := cfgInt(cfg, "shortyLength", 2)
	if n < 1 {
		l.invalid = true
		return l
	}
	l.path = func(id string) (string, bool) {
		var b strings.Builder
		for i := 0; i < len(id); i++ {
			c := id[i]
			switch {
			case c < 0x21 || c > 0x7e || strings.IndexByte("\"*+,<=>?\\^|", c) >= 0:
				fmt.Fprintf(&b, "^%02x", c)
			case c == '/':
				b.WriteByte('=')
			case c == ':':
				b.WriteByte('+')
			case c == '.':
				b.WriteByte(',')
			default:
				b.WriteByte(c)
			}
		}
		s := b.String()
		var parts []string
		for len(s) > n {
			parts = append(parts, s[:n])
			s = s[n:]
		}
		if s != "" {
			parts = append(parts, s)
		}
		return strings.Join(parts, "/"), s != ""
	}
	return l
}

func flatDirect() *layout {
	return &layout{name: extension.StorageLayoutFlatDirectName, cfg: J{}, path: func(id string) (string, bool) { return id, true }}
}

const (
	hid = extension.StorageLayoutHashAndIdNTupleName
	hnt = extension.StorageLayoutHashedNTupleName
)

// coreLayouts are explored with the whole universe.
func coreLayouts(r *Run) []*layout {
	l := []*layout{flatDirect()}
	for _, n := range []string{hid, hnt} {
		l = append(l, hashLayout(n, J{}), hashLayout(n, J{"digestAlgorithm": "md5", "tupleSize": 2, "numberOfTuples": 15}), hashLayout(n, J{"digestAlgorithm": "sha512", "tupleSize": 0, "numberOfTuples": 0}), hashLayout(n, J{"digestAlgorithm": "sha1", "tupleSize": 1, "numberOfTuples": 1}))
	}
	l = append(l, hashLayout(hnt, J{"shortObjectRoot": true}))
	for _, d := range []string{":", "edu/", ".", "a", "::", "a0a"} {
		l = append(l, flatOmit(J{"delimiter": d}))
	}
	l = append(l, flatOmit(J{}), tupleOmit(J{}), tupleOmit(J{"delimiter": ":", "tupleSize": 4, "numberOfTuples": 2, "zeroPadding": "left", "reverseObjectRoot": true}),
		tupleOmit(J{"delimiter": "edu/", "tupleSize": 3, "numberOfTuples": 3, "zeroPadding": "right", "reverseObjectRoot": false}),
		tupleOmit(J{"delimiter": "a", "tupleSize": 1, "numberOfTuples": 2, "zeroPadding": "right", "reverseObjectRoot": true}),
		tupleOmit(J{"delimiter": "_", "tupleSize": 1, "numberOfTuples": 1}))
	l = append(l, pairtree(J{"digestAlgorithm": "sha256"}), pairtree(J{"digestAlgorithm": "sha256", "shortyLength": 1}), pairtree(J{"digestAlgorithm": "sha256", "shortyLength": 3}))
	return l
}

// allLayouts are all combinations of configuration values.
func allLayouts() []*layout {
	var l []*layout
	opt := func(j J, k string, v any) {
		if v != nil {
			j[k] = v
		}
	}
	ints := []any{nil, -1, 0, 1, 2, 3, 7, 31, 32, 33}
	bools := []any{nil, false, true}
	for _, a := range []any{nil, "md5", "sha1", "sha256", "sha512", "blake2b-160", "blake2b-256", "blake2b-384", "blake2b-512", "", "nope"} {
		for _, s := range ints {
			for _, n := range ints {
				j := J{}
				opt(j, "digestAlgorithm", a)
				opt(j, "tupleSize", s)
				opt(j, "numberOfTuples", n)
				l = append(l, hashLayout(hid, j))
				for _, b := range bools {
					k := J{}
					for x, y := range j {
						k[x] = y
					}
					opt(k, "shortObjectRoot", b)
					l = append(l, hashLayout(hnt, k))
				}
			}
		}
	}
	for _, d := range []any{nil, ":", "/", "edu/", "é", ""} {
		j := J{}
		opt(j, "delimiter", d)
		l = append(l, flatOmit(j))
		for _, s := range ints {
			for _, n := range ints {
				for _, z := range []any{nil, "left", "right", "none", "LEFT"} {
					for _, b := range bools {
						j := J{}
						opt(j, "delimiter", d)
						opt(j, "tupleSize", s)
						opt(j, "numberOfTuples", n)
						opt(j, "zeroPadding", z)
						opt(j, "reverseObjectRoot", b)
						l = append(l, tupleOmit(j))
					}
				}
			}
		}
	}
	for _, s := range []any{nil, -1, 0, 1, 2, 3, 4, 100} {
		j := J{"digestAlgorithm": "sha256"}
		opt(j, "shortyLength", s)
		l = append(l, pairtree(j))
	}
	return append(l, flatDirect())
}

// judge compares one computed path with the specification.
func (l *layout) judge(c *C, ext ocfl.ExtensionStorageRootPath, id string) string {
	got, err := build(ext, id)
	c.Step()
	if isPanic(err) {
		c.Fail(l.name+": panic", "%s id %q: %v", l, id, err)
		return ""
	}
	if l.open {
		return ""
	}
	if l.invalid {
		if err == nil {
			c.Fail(l.name+": invalid configuration accepted", "%s id %q: %q", l, id, got)
		}
		return ""
	}
	want, ok := l.path(id)
	if !ok || id == "" {
		// the storage root uses the identifier itself for an empty path
		if err == nil && got != "" && id != "" {
			c.Fail(l.name+": path for an excluded identifier", "%s id %q: %q", l, id, got)
		}
		if err == nil && id != "" && got == "" {
			c.Fail(l.name+": empty path without error", "%s id %q", l, id)
		}
		return ""
	}
	if err != nil {
		// paths which are not valid inside a storage root may be refused
		if fs.ValidPath(want) && want != "." && utf8.ValidString(want) {
			c.Fail(l.name+": refused", "%s id %q: %v, specification: %q", l, id, err, want)
		}
		return ""
	}
	if got != want {
		c.Fail(l.name+": wrong path", "%s id %q: %q, specification: %q", l, id, got, want)
		return ""
	}
	c.Case(l.String() + "\x00" + id)
	return got
}

func chunk[T any](l []T, n int) [][]T {
	var r [][]T
	for len(l) > n {
		r = append(r, l[:n])
		l = l[n:]
	}
	return append(r, l)
}

func universe(r *Run) []string {
	u := strs(idTokens, Pick(r, 3, 4))
	return append(append(u, longIDs()...), realIDs...)
}

func runC15(r *Run) {
	u := universe(r)
	b := r.Batch()
	for i, l := range coreLayouts(r) {
		for k, ids := range chunk(u, 8000) {
			b.Do(fmt.Sprintf("core%02d %s %s ids%d", i, l.name, l, k), func(c *C) {
				ext, err := l.make()
				if err != nil {
					c.Fail(l.name+": configuration refused", "%s: %v", l, err)
					return
				}
				var first []string
				for _, id := range ids {
					if !utf8.ValidString(id) && l.name == extension.StorageLayoutPairTreeName {
						continue
					}
					first = append(first, l.judge(c, ext, id))
					c.State(l.String() + "\x00" + id)
				}
				c.Sample("%s %s: %q -> %q", l.name, l, ids[len(ids)/2], first[len(first)/2])
			})
		}
	}
	small := append(append(strs([]string{"a", ":", "/", "ä", "."}, 2), longIDs()[:40]...), realIDs[:14]...)
	for i, ls := range chunk(allLayouts(), 100) {
		b.Do(fmt.Sprintf("configurations %d", i), func(c *C) {
			for _, l := range ls {
				ext, err := l.make()
				c.State("cfg " + l.name + l.String())
				if isPanic(err) {
					c.Fail(l.name+": configuration panics", "%s: %v", l, err)
					continue
				}
				if err != nil {
					if !l.invalid && !l.open {
						c.Fail(l.name+": configuration refused", "%s: %v", l, err)
					}
					continue
				}
				for _, id := range small {
					l.judge(c, ext, id)
				}
			}
		})
	}
	// the object is really stored there
	for i, l := range coreLayouts(r) {
		b.Do(fmt.Sprintf("stored %02d %s", i, l.name), func(c *C) {
			e := defaultEnv(nil)
			e.Root = baseExt().with(l.name, l.files())
			n := 0
			for _, id := range realIDs {
				want, ok := l.path(id)
				if !ok || !utf8.ValidString(id) || !fs.ValidPath(want) || want == "." || want == "extensions" || strings.HasPrefix(want, "extensions/") || strings.HasPrefix(want, "0=") || want == "ocfl_layout.json" || len(want) > 200 {
					continue
				}
				d := NewDisk("root")
				must(e.Init(d.FS()))
				_, err := e.Do(d.FS(), add1(id, Tree{"f": "x"}, mode{}, ""))
				c.Step()
				if err != nil {
					c.Fail(l.name+": object refused", "id %q: %v", id, err)
					continue
				}
				if got := objPrefix(d.Snap(), id); got != want+"/" {
					c.Fail(l.name+": object at another path", "id %q stored at %q, specification %q", id, got, want)
				}
				if n++; n <= 4 {
					e0 := &Env{Name: e.Name, Version: e.Version, Digest: e.Digest, Root: e.Root, Obj: e.Obj}
					onOS(Snap{}, func(fsys fs.FS, dir string) {
						must(e0.Init(fsys))
						if _, err := e0.Do(fsys, add1(id, Tree{"f": "x"}, mode{}, "")); err != nil {
							c.Fail(l.name+": object refused", "on the operating system: id %q: %v", id, err)
						} else if _, err := os.Stat(filepath.Join(dir, filepath.FromSlash(want), "inventory.json")); err != nil {
							c.Fail(l.name+": object at another path", "on the operating system: id %q: %v", id, err)
						}
						c.Trace()
					})
				}
			}
		})
	}
	b.Wait()
	r.Extra("identifiers", len(u))
}

// ---- C16 ---------------------------------------------------------------

func cleanExts() []*layout {
	dc := func(kv J) *layout { return &layout{name: extension.DirectCleanName, cfg: kv, open: true} }
	return []*layout{
		dc(J{"fallbackDigestAlgorithm": "md5"}), dc(J{"fallbackDigestAlgorithm": "sha512", "utfEncode": true}),
		dc(J{"fallbackDigestAlgorithm": "md5", "replacementString": "", "whitespaceReplacementString": ""}),
		dc(J{"fallbackDigestAlgorithm": "md5", "replacementString": ".", "maxPathSegmentLen": 8, "numberOfFallbackTuples": 2}),
		dc(J{"fallbackDigestAlgorithm": "md5", "encodeUTF": true, "maxPathnameLen": 5}),
		{name: extension.PathDirectName, cfg: J{}, open: true},
		flatOmit(J{"delimiter": ""}),
	}
}

func confined(p string) bool { return fs.ValidPath(p) && p != "." }

func runC16(r *Run) {
	u := universe(r)
	b := r.Batch()
	ls := append(coreLayouts(r), cleanExts()...)
	// chains of two layouts
	type chain struct {
		name string
		ls   []*layout
	}
	var chains []chain
	for i, l := range ls {
		chains = append(chains, chain{fmt.Sprintf("%02d %s %s", i, l.name, l), []*layout{l}})
	}
	chains = append(chains, chain{"no layout", nil}, chain{"0006 then 0002", []*layout{flatDirect(), flatOmit(J{"delimiter": ":"})}}, chain{"direct-clean then pairtree", []*layout{ls[len(ls)-7], pairtree(J{"digestAlgorithm": "md5"})}})
	for _, ch := range chains {
		b.Do("paths "+ch.name, func(c *C) {
			e := defaultEnv(nil)
			e.Root = baseExt()
			for _, l := range ch.ls {
				e.Root[l.name] = l.files()
			}
			f, err := e.Factory()
			must(err)
			m, err := f.LoadExtensions(extDisk(e.Root), nil)
			if err != nil {
				c.Fail("configuration refused", "%v", err)
				return
			}
			inj := len(ch.ls) == 1 && (ch.ls[0].name == hid || ch.ls[0].name == hnt || ch.ls[0].name == extension.StorageLayoutPairTreeName || ch.ls[0].name == extension.StorageLayoutFlatDirectName)
			flat := len(ch.ls) == 1 && (ch.ls[0].name == hid || ch.ls[0].name == hnt)
			utf := len(ch.ls) == 1 && ch.ls[0].name == extension.DirectCleanName && cfgBool(ch.ls[0].cfg, "utfEncode")
			by := map[string]string{}
			dirs := map[string]string{}
			for _, id := range u {
				var p string
				err := guard(func() error { var e error; p, e = m.BuildStorageRootPath(nil, id); return e })
				c.Step()
				c.State(ch.name + "\x00" + id)
				if isPanic(err) {
					c.Fail("panic "+ch.name, "id %q: %v", id, err)
					continue
				}
				if err != nil {
					continue
				}
				c.Case(ch.name + "\x00" + id)
				if !confined(p) {
					c.Fail("path not confined: "+ch.name, "id %q: %q", id, p)
					continue
				}
				if p == "extensions" || strings.HasPrefix(p, "extensions/") {
					c.Fail("path in the extensions folder: "+ch.name, "id %q: %q", id, p)
				}
				if !utf8.ValidString(id) && !flat {
					continue
				}
				if inj || (utf && !strings.Contains("/"+id+"/", "//")) {
					if o, ok := by[p]; ok && o != id {
						c.Fail("collision: "+ch.name, "ids %q and %q: %q", o, id, p)
					}
					by[p] = id
				}
				if flat {
					for d := path.Dir(p); d != "."; d = path.Dir(d) {
						dirs[d] = id
					}
				}
			}
			for p, id := range by {
				if o, ok := dirs[p]; ok {
					c.Fail("nested: "+ch.name, "object %q at %q lies inside of object %q", o, p, id)
				}
			}
			c.Sample("%s: %d identifiers, %d distinct paths", ch.name, len(u), len(by))
		})
	}
	// creating objects: never outside, never inside of another object
	hostile := append(append([]string{}, realIDs...), strs([]string{"a", "..", ".", "/", ":", "~", "\\"}, Pick(r, 3, 4))...)
	for _, ch := range chains {
		for k, ids := range chunk(hostile, 100) {
			b.Do(fmt.Sprintf("create %s %d", ch.name, k), func(c *C) {
				e := defaultEnv(nil)
				e.Root = baseExt()
				for _, l := range ch.ls {
					e.Root[l.name] = l.files()
				}
				d := NewDisk("root")
				if err := e.Init(d.FS()); err != nil {
					c.Fail("init refused", "%s: %v", ch.name, err)
					return
				}
				d0 := d
				before := d.Snap()
				for _, id := range ids {
					d := d0.Clone()
					_, err := e.Do(d.FS(), add1(id, Tree{"f": "x"}, mode{}, ""))
					c.Step()
					if isPanic(err) {
						c.Fail("panic in create "+ch.name, "id %q: %v", id, err)
						continue
					}
					after := d.Snap()
					if x := d.Escaped(); len(x) > 0 {
						c.Fail("write outside of the storage root: "+ch.name, "id %q: %v", id, x)
					}
					for p, v := range before {
						if after[p] != v {
							c.Fail("existing file changed: "+ch.name, "id %q: %s", id, p)
						}
					}
					if err != nil {
						continue
					}
					at := strings.TrimSuffix(objPrefix(after, id), "/")
					ok := at != ""
					if !ok {
						if utf8.ValidString(id) {
							c.Fail("object not found: "+ch.name, "id %q", id)
						}
						continue
					}
					c.State(ch.name + " at " + at)
					for p := range after {
						if _, old := before[p]; !old && !strings.HasPrefix(p, at+"/") && !strings.HasPrefix(at+"/", p) {
							c.Fail("file outside of the object: "+ch.name, "id %q at %q: %q", id, at, p)
						}
					}
				}
			})
		}
	}
	b.Wait()
	r.Extra("identifiers", len(u))
}

// ---- C27 ---------------------------------------------------------------

func isWS(r rune) bool {
	return r >= 0x09 && r <= 0x0d || r == 0x20 || r == 0x85 || r == 0xa0 || r == 0x1680 || r >= 0x2000 && r <= 0x200f || r == 0x2028 || r == 0x2029 || r == 0x202f || r == 0x205f || r == 0x3000
}
func isBad(r rune) bool {
	return r < 0x20 || r == 0x7f || strings.ContainsRune("*?:[]\"<>|(){}&'!;#@", r)
}

// cleanSpec is the documented procedure.
type cleanSpec struct {
	utf            bool
	repl, ws       string
	seg, total     int
	alg            string
	folder         string
	tuples, tupleN int
}

func (s *cleanSpec) cfg() J {
	return J{"utfEncode": s.utf, "replacementString": s.repl, "whitespaceReplacementString": s.ws, "maxPathSegmentLen": s.seg, "maxPathnameLen": s.total,
		"fallbackDigestAlgorithm": s.alg, "fallbackFolder": s.folder, "numberOfFallbackTuples": s.tuples, "fallbackTupleSize": s.tupleN}
}

func (s *cleanSpec) fallback(id string) (string, bool) {
	d := refDigest(s.alg, id)
	parts := []string{s.folder}
	for i := 0; i < s.tuples; i++ {
		parts = append(parts, d[i*s.tupleN:(i+1)*s.tupleN])
	}
	for len(d) > s.seg {
		parts = append(parts, d[:s.seg])
		d = d[s.seg:]
	}
	if d != "" {
		parts = append(parts, d)
	}
	p := strings.Join(parts, "/")
	return p, len(p) <= s.total
}

// path returns the documented path; ok=false: error; fb: a fallback instead
// is as good (nothing left of the name).
func (s *cleanSpec) path(id string) (p string, ok, fb bool) {
	var parts []string
	for _, n := range strings.Split(strings.ToValidUTF8(id, s.repl), "/") {
		if n == "" {
			continue
		}
		var b strings.Builder
		if s.utf {
			rs := []rune(n)
			dots := strings.Trim(n, ".") == ""
			for i, c := range rs {
				switch {
				case c == '=' && i+5 < len(rs) && rs[i+1] == 'u' && isHex(rs[i+2:i+6]):
					b.WriteString("=u003D")
				case isWS(c) || isBad(c) || (i == 0 && (c == '~' || dots)):
					fmt.Fprintf(&b, "=u%04X", c)
				default:
					b.WriteRune(c)
				}
			}
			n = b.String()
		} else {
			for _, c := range n {
				switch {
				case isWS(c):
					b.WriteString(s.ws)
				case isBad(c):
					b.WriteString(s.repl)
				default:
					b.WriteRune(c)
				}
			}
			n = strings.TrimLeftFunc(b.String(), func(c rune) bool { return isWS(c) || c == '-' || c == '~' })
			n = strings.TrimRightFunc(n, isWS)
			if n != "" && strings.Trim(n, ".") == "" {
				n = s.repl + n[1:]
			}
		}
		if n == "" {
			continue
		}
		if len(n) > s.seg {
			p, ok = s.fallback(id)
			return p, ok, false
		}
		if n == "." || n == ".." {
			return "", false, true
		}
		parts = append(parts, n)
	}
	p = strings.Join(parts, "/")
	if p == "" {
		return "", false, true
	}
	if len(p) > s.total {
		p, ok = s.fallback(id)
		return p, ok, false
	}
	return p, true, false
}

func isHex(rs []rune) bool {
	for _, c := range rs {
		if !strings.ContainsRune("0123456789abcdefABCDEF", c) {
			return false
		}
	}
	return true
}

// openClean: the documentation leaves the result open.
func openClean(id string) bool {
	for i := 0; i+1 < len(id); i++ {
		r, w := utf8.DecodeRuneInString(id[i:])
		r2, w2 := utf8.DecodeRuneInString(id[i+w:])
		if r == utf8.RuneError && w == 1 && r2 == utf8.RuneError && w2 == 1 {
			return true
		}
		i += w - 1
	}
	rs := []rune(id)
	for i := 0; i+5 < len(rs); i++ {
		if rs[i] == '=' && rs[i+1] == 'u' && !isHex(rs[i+2:i+6]) {
			a := true
			for _, c := range rs[i+2 : i+6] {
				if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
					a = false
				}
			}
			if a {
				return true
			}
		}
	}
	return false
}

func (s *cleanSpec) judge(c *C, ext ocfl.Extension, name, id string) {
	if id == "" || openClean(id) || openClean(strings.ToValidUTF8(id, s.repl)) {
		return
	}
	got, err := build(ext.(ocfl.ExtensionStorageRootPath), id)
	c.Step()
	if isPanic(err) {
		c.Fail("panic", "%s id %q: %v", name, id, err)
		return
	}
	if p2, err2 := ext.(ocfl.ExtensionObjectContentPath).BuildObjectManifestPath(nil, id, ""); p2 != got && err == nil || (err == nil) != (err2 == nil) {
		c.Fail("content path differs from storage path", "%s id %q: %q %v, %q %v", name, id, got, err, p2, err2)
	}
	want, ok, fb := s.path(id)
	if err != nil {
		if ok {
			c.Fail("refused", "%s id %q: %v, documentation: %q", name, id, err, want)
		}
		return
	}
	c.Case(name + "\x00" + id)
	if fb {
		want, ok = s.fallback(id)
	}
	if !ok {
		c.Fail("limit exceeded", "%s id %q: %q", name, id, got)
		return
	}
	if got != want {
		c.Fail("path differs from the documented one", "%s id %q: %q, documentation %q", name, id, got, want)
		return
	}
	// portability, stated independently of the procedure
	if !confined(got) || len(got) > s.total {
		c.Fail("not portable", "%s id %q: %q", name, id, got)
	}
	fbp := strings.HasPrefix(got, s.folder+"/")
	for _, seg := range strings.Split(got, "/") {
		if len(seg) > s.seg && !(fbp && seg == s.folder) {
			c.Fail("over-long segment", "%s id %q: %q", name, id, got)
		}
		for i, r := range seg {
			if isBad(r) || isWS(r) && (s.utf || r != ' ' || i == 0 || i == len(seg)-1) {
				c.Fail("forbidden character", "%s id %q: %q", name, id, got)
			}
		}
	}
}

func runC27(r *Run) {
	var specs []*cleanSpec
	for _, utf := range []bool{false, true} {
		for _, x := range [][2]string{{"_", " "}, {"", ""}, {"__", "_"}} {
			specs = append(specs, &cleanSpec{utf, x[0], x[1], 127, 32000, "md5", "fallback", 0, 1})
		}
		specs = append(specs, &cleanSpec{utf, "_", " ", 3, 32000, "md5", "fb", 2, 1}, &cleanSpec{utf, "_", " ", 20, 4, "sha256", "fallback", 3, 2},
			&cleanSpec{utf, "_", "", 8, 70, "md5", "fb", 2, 3}, &cleanSpec{utf, "_", " ", 5, 100, "md5", "fall", 5, 5})
	}
	tok := []string{"a", "-", "~", ".", " ", "\t", "\n", ":", "*", "=", "u", "0", "/", "\u0085", "\u00a0", "\u2003", "\u200f", "\u2010", "\u20a0", "\u2028", "\u3000", "ä", "\x00", "\x7f", "\xff", ";", "\\", "=u0020", "=uD83D", "=u00", "abcdefghi"}
	u := strs(tok, Pick(r, 3, 4))
	u = append(append(u, longIDs()...), realIDs...)
	b := r.Batch()
	mk := func(s *cleanSpec) (ocfl.Extension, error) {
		l := &layout{name: extension.DirectCleanName, cfg: s.cfg()}
		x, err := l.make()
		return x, err
	}
	for i, s := range specs {
		name := fmt.Sprintf("spec%02d %s", i, strings.ReplaceAll(string(mustJSON(s.cfg())), "|", "/"))
		for k, ids := range chunk(u, 10000) {
			b.Do(fmt.Sprintf("%s ids%d", name, k), func(c *C) {
				ext, err := mk(s)
				if err != nil {
					c.Fail("configuration refused", "%v", err)
					return
				}
				for _, id := range ids {
					s.judge(c, ext, name, id)
					c.State(name + id)
				}
				// repeated in another order: a function of the identifier
				for k := len(ids) - 1; k >= 0 && k > len(ids)-200; k-- {
					s.judge(c, ext, name, ids[k])
				}
			})
		}
	}
	// every code point
	top := Pick(r, 0x3100, 0x110000)
	for i, s := range []*cleanSpec{specs[0], specs[len(specs)/2]} {
		for lo := 0; lo < top; lo += 0x1000 {
			b.Do(fmt.Sprintf("code points %d %06x", i, lo), func(c *C) {
				ext, err := mk(s)
				must(err)
				for cp := lo; cp < lo+0x1000 && cp < top; cp++ {
					if cp >= 0xd800 && cp < 0xe000 {
						continue
					}
					x := string(rune(cp))
					for _, id := range []string{x, "a" + x, x + "a", "a" + x + "a", x + x, "b/" + x + "/c"} {
						s.judge(c, ext, fmt.Sprint("cp", i), id)
						c.State(fmt.Sprint(i, id))
					}
				}
			})
		}
	}
	// clean names stay as they are
	b.Do("clean names", func(c *C) {
		for _, s := range specs[:3] {
			ext, err := mk(s)
			must(err)
			for _, id := range strs([]string{"a", "Z", "9", "_", "ä", ".x", "b-", "c~", "/d", "=", "€", "–"}, Pick(r, 4, 5)) {
				if id == "" || id[0] == '/' || strings.Contains(id, "//") {
					continue
				}
				got, err := build(ext.(ocfl.ExtensionStorageRootPath), id)
				c.Step()
				if len(id) <= 127 && got != id || err != nil {
					c.Fail("clean name changed", "%q: %q %v", id, got, err)
				}
			}
		}
	})
	// invalid configurations
	b.Do("configurations", func(c *C) {
		for _, seg := range []int{-5, 0, 1, 2, 127} {
			for _, tot := range []int{-5, 0, 1, 40, 32000} {
				for _, n := range []int{-1, 0, 1, 4, 16, 32, 33, 100} {
					for _, z := range []int{-1, 0, 1, 2, 8, 33} {
						for _, alg := range []string{"md5", "sha512", "nope"} {
							l := &layout{name: extension.DirectCleanName, cfg: J{"maxPathSegmentLen": seg, "maxPathnameLen": tot, "numberOfFallbackTuples": n, "fallbackTupleSize": z, "fallbackDigestAlgorithm": alg, "fallbackFolder": "fb"}}
							ext, err := l.make()
							c.State("cfg" + l.String())
							if isPanic(err) {
								c.Fail("configuration panics", "%s: %v", l, err)
							}
							if err != nil {
								continue
							}
							for _, id := range []string{"a", "abcdefgh", strings.Repeat("x", 200), "a/b", strings.Repeat("x/", 40), "..", " "} {
								p, err := build(ext, id)
								c.Step()
								if isPanic(err) {
									c.Fail("panic", "%s %q: %v", l, id, err)
								} else if err == nil && !confined(p) {
									c.Fail("not portable", "%s %q: %q", l, id, p)
								} else if err == nil && tot > 0 && len(p) > tot {
									c.Fail("limit exceeded", "%s %q: %q", l, id, p)
								}
							}
						}
					}
				}
			}
		}
	})
	// documented examples, stored on the operating system
	b.Do("stored", func(c *C) {
		for _, s := range specs {
			for _, id := range []string{"..hor_rib:lé-$id", "info:fedora/object-01", "~ info:fedora/-obj#ec@t-\"01 ", "/test/ ~/.../blah", "object=u123a-01", strings.Repeat("abcdefghij", 26)} {
				want, ok, fb := s.path(id)
				if !ok || fb {
					continue
				}
				l := &layout{name: extension.DirectCleanName, cfg: s.cfg()}
				e := defaultEnv(nil)
				e.Root = baseExt().with(l.name, l.files())
				onOS(Snap{}, func(fsys fs.FS, dir string) {
					must(e.Init(fsys))
					if _, err := e.Do(fsys, add1(id, Tree{"f": "x"}, mode{}, "")); err != nil {
						c.Fail("object refused", "%s id %q: %v", l, id, err)
					} else if _, err := os.Stat(filepath.Join(dir, filepath.FromSlash(want), "inventory.json")); err != nil {
						c.Fail("object at another path", "%s id %q: %v", l, id, err)
					}
					c.Trace()
				})
			}
		}
	})
	b.Wait()
	r.Extra("identifiers", len(u))
}
