package main

// The space of valid objects (C05) and the damages of storage roots (C06).

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"path"
	"regexp"
	"strings"

	"github.com/je4/gocfl/v2/pkg/ocfl"
)

// validDims are the dimensions of the writer; the first value is the default.
func validDims() []struct {
	name string
	alts []func(*WObj)
} {
	type alt = func(*WObj)
	dims := []struct {
		name string
		alts []func(*WObj)
	}{
		{"spec", []alt{func(w *WObj) { w.Specs = []string{"1.0"} }, func(w *WObj) { w.Specs = []string{"1.0", "1.1"} }, func(w *WObj) { w.Specs = []string{"1.0", "1.0", "1.1"} }}},
		{"alg", []alt{func(w *WObj) { w.Algs = []string{"sha256"} }, func(w *WObj) { w.Algs = []string{"sha256", "sha512"} }, func(w *WObj) { w.Algs = []string{"sha512", "sha256"} }}},
		{"cd", []alt{func(w *WObj) { w.CD = sp("content") }, func(w *WObj) { w.CD = sp("data") }, func(w *WObj) { w.CD = sp("c d.é") }, func(w *WObj) { w.CD = sp("v1") }, func(w *WObj) { w.CD = sp("inventory") }, func(w *WObj) { w.CD = sp("...") }}},
		{"width", []alt{func(w *WObj) { w.Width = 2 }, func(w *WObj) { w.Width = 3 }, func(w *WObj) { w.Width = 7 }}},
		{"vinv", []alt{func(w *WObj) { w.NoVInv = 1 }, func(w *WObj) { w.NoVInv = 2 }, func(w *WObj) { w.NoVInv = 3 }}},
		{"meta", []alt{func(w *WObj) { w.Meta = 1 }, func(w *WObj) { w.Meta = 2 }, func(w *WObj) { w.Meta = 3 }, func(w *WObj) { w.Meta = 4 }}},
		{"upper", []alt{func(w *WObj) { w.Upper = true }}},
		{"dedup", []alt{func(w *WObj) { w.Dedup = true }}},
		{"fix", []alt{func(w *WObj) { w.Fix = []string{"md5"} }, func(w *WObj) { w.Fix = []string{"sha1", "sha256", "sha512", "blake2b-512"} }, func(w *WObj) { w.Fix = []string{"blake2b-160", "blake2b-256", "blake2b-384"} }, func(w *WObj) { w.Fix = []string{"crc32", "md5"} }, func(w *WObj) { w.Fix = []string{"sha512/256"} }, func(w *WObj) { w.Fix = []string{""} }}},
		{"sidecar", []alt{func(w *WObj) { w.End = "\n" }, func(w *WObj) { w.Sep = "\t" }, func(w *WObj) { w.Sep, w.End = "   ", "\n" }}},
		{"compact", []alt{func(w *WObj) { w.Compact = true }}},
		{"dirs", []alt{func(w *WObj) { w.Dirs = []string{"logs", "extensions"} }, func(w *WObj) {
			w.Extra = Snap{"logs/a/b.txt": "x", "logs/inventory.json": "{}", "extensions/foo/config.json": "no json", "extensions/bar/v1/content/x": ""}
		}}},
		{"created", []alt{func(w *WObj) { w.Created = "2021-01-02T03:04:05+05:30" }, func(w *WObj) { w.Created = "2021-01-02T03:04:05.123456789Z" }, func(w *WObj) { w.Created = "1999-12-31T23:59:59-00:00" }}},
		{"id", []alt{func(w *WObj) { w.ID = "https://example.org/a?b=c#d" }, func(w *WObj) { w.ID = "urn:uuid:01234567-89ab-cdef-0123-456789abcdef" }, func(w *WObj) { w.ID = " é%2F/../\u4e2d\\:" }, func(w *WObj) { w.ID = strings.Repeat("x", 5000) }}},
		{"texts", []alt{func(w *WObj) { w.Texts = 1 }, func(w *WObj) { w.Texts = 2 }}},
	}
	return dims
}

// validHistories are the histories of the valid objects.
func validHistories() []struct {
	name string
	h    []Tree
} {
	ten := []Tree{}
	for i := 0; i < 12; i++ {
		ten = append(ten, Tree{"a": fmt.Sprint(i), "b": "B"})
	}
	hundred := []Tree{}
	for i := 0; i < 101; i++ {
		hundred = append(hundred, Tree{"a": fmt.Sprint(i)})
	}
	deep := strings.TrimSuffix(strings.Repeat("d/", 40), "/")
	return []struct {
		name string
		h    []Tree
	}{
		{"three", []Tree{{"a": "A", "d/b": "B"}, {"a": "A2", "d/b": "B", "c": "A"}, {"c": "A", "e": "B", "f": ""}}},
		{"one", []Tree{{"a": "A"}}},
		{"hundred", hundred},
		{"twelve", ten},
		{"empty", []Tree{{}, {"a": "A"}, {}, {}}},
		{"swap", []Tree{{"a": "A", "b": "B"}, {"a": "B", "b": "A"}, {"a": "A", "b": "B"}}},
		{"names", []Tree{{"inventory.json": "1", "inventory.json.sha512": "2", "v1": "3", "v2/content/x": "4", "content": "5", "0=ocfl_object_1.1": "6", "extensions/a": "7", "logs/b": "8"}, {"inventory.json": "9", "0=ocfl_object_1.0/0=ocfl_1.1": "x"}}},
		{"unicode", []Tree{{"é": "1", "e\u0301": "2", "\u4e2d/\U0001f600": "3", "a b": "4", " c ": "5", "d\n": "6", "q\"\\": "7", "back\\slash": "8", "...": "9", ".hid": "10", "a.": "11", "..x/y": "12", "*?<>|": "13", "\u2028&<": "14"}, {"É": "1"}}},
		{"deep", []Tree{{deep: "x", strings.Repeat("n", 250): "y"}, {deep + "/e": "z"}}},
		{"same", []Tree{{"a": "", "b": "", "c/d": ""}, {"e": ""}, {"a": "", "b": "x"}}},
		{"case", []Tree{{"a": "1", "A": "2", "d/x": "1", "D/x": "3"}, {"a": "2", "A": "1"}}},
	}
}

// combos enumerates all choices of up to k dimensions and one alternative each.
func combos(alts []int, k int, f func(pick map[int]int)) {
	pick := map[int]int{}
	var rec func(from, left int)
	rec = func(from, left int) {
		f(pick)
		if left == 0 {
			return
		}
		for d := from; d < len(alts); d++ {
			for a := 0; a < alts[d]; a++ {
				pick[d] = a
				rec(d+1, left-1)
			}
			delete(pick, d)
		}
	}
	rec(0, k)
}

func runC05(r *Run) {
	valSpace(r, "", func(c *C, base, name, sig string, o Snap) {
		k, _ := judgeRef(o)
		if k != jValid {
			return
		}
		v := toolVerdict(FromSnap("w", rootWith(o)).FS())
		c.Step()
		c.Case(base + name)
		if v.bad() {
			c.Fail("rejected: "+sig, "%s: %s: %s", base, name, v)
		}
	})
	dims := validDims()
	alts := make([]int, len(dims))
	for i, d := range dims {
		alts[i] = len(d.alts)
	}
	k := Pick(r, 2, 3)
	b := r.Batch()
	for _, h := range validHistories() {
		var part []map[int]int
		flush := func() {
			if len(part) == 0 {
				return
			}
			l := part
			part = nil
			b.Do(fmt.Sprintf("valid %s %d %v", h.name, len(l), l[0]), func(c *C) {
				for i, pick := range l {
					w := &WObj{ID: "o", Specs: []string{"1.1"}, Algs: []string{"sha512"}, States: h.h}
					name := h.name
					for d := range dims {
						if a, ok := pick[d]; ok {
							dims[d].alts[a](w)
							name += fmt.Sprintf(" %s.%d", dims[d].name, a)
						}
					}
					if w.Width == 2 && len(h.h) > 9 || w.Width == 3 && len(h.h) > 99 {
						continue // v01 to v09 only
					}
					o := w.write()
					if k, why := judgeRef(o); k != jValid {
						if k == jInvalid {
							panic(fmt.Sprint(name, why))
						}
						continue
					}
					c.State(name)
					c.Case(name)
					c.Step()
					s := rootWith(o)
					if v := toolVerdict(FromSnap("w", s).FS()); v.bad() {
						c.Fail(fmt.Sprintf("valid object rejected %v", v.errs), "%s: %s", name, v)
					}
					if i == 0 && h.name != "deep" && h.name != "unicode" {
						c.Trace()
						onOS(s, func(fsys fs.FS, dir string) {
							if v := toolVerdict(fsys); v.bad() {
								c.Fail(fmt.Sprintf("valid object rejected on disk %v", v.errs), "%s: %s", name, v)
							}
						})
					}
				}
			})
		}
		k := k
		if len(h.h) > 20 { // expensive
			k--
		}
		combos(alts, k, func(pick map[int]int) {
			m := map[int]int{}
			for a, b := range pick {
				m[a] = b
			}
			part = append(part, m)
			if len(part) == 100 || len(h.h) > 20 {
				flush()
			}
		})
		flush()
	}
	b.Wait()
	// several objects below different layouts of folders
	b2 := r.Batch()
	objs := map[string]Snap{}
	for _, w := range bases(r) {
		objs[w.Name] = w.write()
	}
	names := sortedKeys(objs)
	places := [][]string{{"a", "b"}, {"a/x", "a/y"}, {"a/b/c/d/e", "f"}, {"ab", "a/b"}, {"0=x/y", "extension"}, {"a b", "é/%2F"}, {"v1", "content/v1"}, {"extensions2/a", "logs"}}
	for _, n1 := range names {
		for _, n2 := range names {
			b2.Do("two objects "+n1+" "+n2, func(c *C) {
				for _, pl := range places {
					for _, ext := range []bool{true, false} {
						s := Snap{}
						for k, v := range valRoot {
							if ext || !strings.HasPrefix(k, "extensions/") && k != "ocfl_layout.json" {
								s[k] = v
							}
						}
						for k, v := range objs[n1] {
							s[pl[0]+"/"+k] = v
						}
						for k, v := range objs[n2] {
							s[pl[1]+"/"+k] = v
						}
						name := fmt.Sprintf("%s %s %v %v", n1, n2, pl, ext)
						c.State(name)
						c.Case(name)
						c.Step()
						if v := toolVerdict(FromSnap("w", s).FS()); v.bad() {
							c.Fail(fmt.Sprintf("valid storage root rejected %v", v.errs), "%s: %s", name, v)
						}
					}
				}
			})
		}
	}
	b2.Wait()
	r.Extra("writer_dimensions", len(dims))
	r.Extra("deviations_from_the_default", k)
}

// ---- storage roots -------------------------------------------------------

var rootDecl = regexp.MustCompile(`^0=(ocfl_(\d+\.\d+))$`)

// judgeRoot returns the definite problems of the part of a storage root above the objects.
func judgeRoot(s Snap) []string {
	var bad []string
	add := func(f string, a ...any) { bad = append(bad, fmt.Sprintf(f, a...)) }
	decl, spec := 0, ""
	kids := map[string]map[string]bool{"": {}} // directory -> children, true for directories
	for k := range s {
		isDir := strings.HasSuffix(k, "/")
		p := strings.TrimSuffix(k, "/")
		for {
			d := path.Dir(p)
			if d == "." {
				d = ""
			}
			if kids[d] == nil {
				kids[d] = map[string]bool{}
			}
			kids[d][path.Base(p)] = kids[d][path.Base(p)] || isDir
			if isDir && kids[p] == nil {
				kids[p] = map[string]bool{}
			}
			if d == "" {
				break
			}
			p, isDir = d, true
		}
	}
	for f, dir := range kids[""] {
		if m := rootDecl.FindStringSubmatch(f); m != nil && !dir {
			decl++
			spec = m[2]
			if c := s[f]; c != m[1]+"\n" && c != m[1]+"\r\n" {
				add("content of %s", f)
			}
			if spec != "1.0" && spec != "1.1" && spec != "2.0" { // 2.0 is a draft

				add("unknown version %s", spec)
			}
		}
	}
	if decl != 1 {
		add("%d declarations", decl)
	}
	var walk func(d string)
	walk = func(d string) {
		objDecl, files := "", 0
		for f, dir := range kids[d] {
			if !dir {
				files++
				if strings.HasPrefix(f, "0=ocfl_object_") {
					objDecl = f[len("0=ocfl_object_"):]
				}
			}
		}
		switch {
		case objDecl != "":
			if spec == "1.0" && objDecl == "1.1" {
				add("object %s is newer than the storage root", d)
			}
			return
		case files > 0:
			add("files in %s, which is no object", d)
			return
		case len(kids[d]) == 0:
			add("empty directory %s", d)
		}
		for f := range kids[d] {
			walk(path.Join(d, f))
		}
	}
	for f, dir := range kids[""] {
		if dir && f != "extensions" {
			walk(f)
		}
	}
	for f, dir := range kids["extensions"] {
		if !dir {
			add("file %s in extensions", f)
		}
	}
	if kids[""]["ocfl_layout.json"] {
		add("ocfl_layout.json is a directory")
	}
	if l, ok := s["ocfl_layout.json"]; ok {
		j, err := parseJE(l)
		if err != nil {
			add("ocfl_layout.json: %v", err)
		} else {
			for _, k := range []string{"extension", "description"} {
				if x, ok := j[k].(string); !ok {
					add("ocfl_layout.json: key %s", k)
				} else if k == "extension" && x == "" {
					add("ocfl_layout.json: empty extension")
				}
			}
		}
	}
	return bad
}

func parseJE(s string) (j J, err error) {
	err = json.Unmarshal([]byte(s), &j)
	if err == nil && j == nil {
		err = fmt.Errorf("null")
	}
	return j, err
}

// rootMutations damages the storage root s, in which "o" and "p/q" are objects.
func rootMutations(s Snap) []mutation {
	var r []mutation
	add := func(name, sig string, f func(Snap) Snap) { r = append(r, mutation{name, sig, f}) }
	set := func(p, v string) func(Snap) Snap { return func(s Snap) Snap { s[p] = v; return s } }
	var decl string
	for f := range s {
		if rootDecl.MatchString(f) {
			decl = f
		}
	}
	ver := decl[len("0=ocfl_"):]
	add("no declaration", "declaration missing", func(s Snap) Snap { delete(s, decl); return s })
	for _, c := range []string{"", "x", "ocfl_" + ver, "ocfl_" + ver + " \n", "ocfl_" + ver + "\n\n", "ocfl_1.", "ocfl_object_" + ver + "\n", "OCFL_" + ver + "\n", " ocfl_" + ver + "\n", "\x00", "ocfl_9.9\n", "ocfl_" + ver + "\r\n"} {
		add(fmt.Sprintf("declaration content %q", c), "declaration content", set(decl, c))
	}
	for _, n := range []string{"0=ocfl_1.0", "0=ocfl_1.1", "0=ocfl_2.0", "0=ocfl_0.9", "0=ocfl_1", "0=ocfl_", "0=ocfl_1.1.1", "0=ocfl_1.1x", "x0=ocfl_1.1", "0=OCFL_1.1", "0=ocfl_x.y", "ocfl_1.1", "0=ocfl_object_1.1", "0=ocfl_object_1.0", "0=ocfl_99999999999999999999.1"} {
		if n == decl {
			continue
		}
		c := strings.TrimPrefix(n, "0=") + "\n"
		add("declaration renamed to "+n, "declaration renamed", func(s Snap) Snap { delete(s, decl); s[n] = c; return s })
		add("second declaration "+n, "second declaration", set(n, c))
		add("second declaration with wrong content "+n, "second declaration", set(n, "x"))
		add("declaration directory "+n, "declaration directory", set(n+"/", ""))
		add("declaration replaced by directory "+n, "declaration directory", func(s Snap) Snap { delete(s, decl); s[n+"/"] = ""; return s })
	}
	add("declaration is a directory", "declaration directory", func(s Snap) Snap { delete(s, decl); s[decl+"/"] = ""; return s })
	for _, p := range []string{"e", "p/e", "e/e/e", "p/q2/e/", "extensions/e", "logs", "v1", "content", "inventory.json"} {
		p = strings.TrimSuffix(p, "/")
		add("empty directory "+p, "empty directory", set(p+"/", ""))
		for _, f := range []string{"x", "inventory.json", "0=ocfl_object_1.1", "0=ocfl_object_1.0", "0=ocfl_object_0.9", "0=ocfl_object_", "0=ocfl_1.1", "config.json", ".x", "zz"} {
			add("file "+p+"/"+f, "file in a directory without object", set(p+"/"+f, strings.TrimPrefix(f, "0=")+"\n"))
			add("empty file "+p+"/"+f, "file in a directory without object", set(p+"/"+f, ""))
		}
	}
	for _, f := range []string{"p/x", "p/.x", "p/zz", "p/0", "p/inventory.json", "p/0=ocfl_object_1.1", "p/0=ocfl_1.1"} {
		add("file "+f, "file above an object", set(f, strings.TrimPrefix(path.Base(f), "0=")+"\n"))
	}
	for _, f := range []string{"README", "x.md", "inventory.json", "inventory.json.sha512", ".x", "0=x"} {
		add("file "+f, "file in the storage root", set(f, "x"))
	}
	for _, x := range []string{"", "x", "[]", "{}", "null", `"x"`, `{"extension":"x"}`, `{"description":"x"}`, `{"extension":1,"description":"x"}`, `{"extension":"x","description":null}`, `{"extension":"","description":""}`, `{"extension":"0002-flat-direct-storage-layout","description":"x"}`, `{"extension":"9999-unknown","description":"x"}`, `{"extension":"0002-flat-direct-storage-layout","description":"x","more":1}`, "\x00"} {
		add(fmt.Sprintf("ocfl_layout.json = %q", x), "ocfl_layout.json", set("ocfl_layout.json", x))
	}
	add("ocfl_layout.json directory", "ocfl_layout.json", func(s Snap) Snap { delete(s, "ocfl_layout.json"); s["ocfl_layout.json/"] = ""; return s })
	add("no ocfl_layout.json", "ocfl_layout.json", func(s Snap) Snap { delete(s, "ocfl_layout.json"); return s })
	add("no extensions", "extensions", func(s Snap) Snap {
		for k := range s {
			if strings.HasPrefix(k, "extensions/") {
				delete(s, k)
			}
		}
		return s
	})
	add("extensions is a file", "extensions is a file", func(s Snap) Snap {
		for k := range s {
			if strings.HasPrefix(k, "extensions/") {
				delete(s, k)
			}
		}
		s["extensions"] = "x"
		return s
	})
	add("file in extensions", "file in extensions", set("extensions/x", "x"))
	add("unknown extension", "extension", set("extensions/9999-unknown/config.json", `{"extensionName":"9999-unknown"}`))
	for _, k := range sortedKeys(s) {
		if !strings.HasPrefix(k, "extensions/") || !strings.HasSuffix(k, "/config.json") {
			continue
		}
		for _, x := range []string{"", "x", "[]", "{}", "null", `"x"`, "1", `{"extensionName":"x"}`, `{"extensionName":1}`, `{"extensionName":null}`, "\x00"} {
			add(fmt.Sprintf("%s = %q", k, x), "extension configuration", set(k, x))
		}
		add(k+" missing", "extension configuration", func(s Snap) Snap { delete(s, k); s[path.Dir(k)+"/"] = ""; return s })
		add(k+" directory", "extension configuration", func(s Snap) Snap { delete(s, k); s[k+"/"] = ""; return s })
		j, err := parseJE(s[k])
		if err != nil {
			continue
		}
		for _, key := range append(sortedKeys(j), "") {
			for _, v := range wrongTypes() {
				add(fmt.Sprintf("%s key %s = %s", k, key, mustJSON(v)), "extension configuration", func(s Snap) Snap {
					n := deepJ(j).(J)
					n[key] = v
					s[k] = dumpJ(n)
					return s
				})
			}
			if key != "" {
				add(fmt.Sprintf("%s without %s", k, key), "extension configuration", func(s Snap) Snap {
					n := deepJ(j).(J)
					delete(n, key)
					s[k] = dumpJ(n)
					return s
				})
			}
		}
	}
	// directories and files exchanged, all of the root removed
	for _, d := range []string{"o", "p", "p/q", "p/q/v1", "o/v1/content", "o/extensions"} {
		add("file "+d, "file instead of a directory", func(s Snap) Snap {
			for k := range s {
				if strings.HasPrefix(k, d+"/") {
					delete(s, k)
				}
			}
			s[d] = "x"
			return s
		})
	}
	add("empty root", "empty root", func(s Snap) Snap { return Snap{} })
	add("only objects", "only objects", func(s Snap) Snap {
		for k := range s {
			if !strings.HasPrefix(k, "o/") {
				delete(s, k)
			}
		}
		return s
	})
	add("object in an object", "object in an object", func(s Snap) Snap {
		for k, v := range s.copy() {
			if strings.HasPrefix(k, "p/q/") {
				s["o/"+k] = v
			}
		}
		return s
	})
	return r
}

func runC06(r *Run) {
	valSpace(r, "", func(c *C, base, name, sig string, o Snap) {
		s := FromSnap("w", rootWith(o))
		v := toolVerdict(s.FS())
		c.Step()
		c.Case(base + name)
		if c.panics(v, base+": "+name, sig) {
			return
		}
		// nothing which cannot be interpreted is accepted
		if !v.bad() {
			if why := uninterpretable(o); why != "" {
				c.Fail("success on uninterpretable input: "+why, "%s: %s", base, name)
			}
		}
		// one object alone, by its id and by its folder
		if !r.Thorough() && base != "three" {
			return
		}
		for _, f := range []func() ([]string, error){
			func() ([]string, error) { es, _, err := valEnv().ValidateID(s.FS(), "o"); return es, err },
			func() ([]string, error) { es, _, err := valEnv().ValidateFolder(s.FS(), "o"); return es, err },
		} {
			es, err := f()
			c.Step()
			v2 := verdict{es, err}
			if c.panics(v2, base+": "+name, sig) {
				return
			}
			if v.bad() != v2.bad() {
				c.Fail("validation of one object differs from that of the root: "+sig, "%s: %s: %s != %s", base, name, v, v2)
			}
		}
	})
	// storage roots
	ws := map[string]*WObj{}
	for _, w := range bases(r) {
		ws[w.Name] = w
	}
	roots := map[string]Snap{"flat": valRoot}
	for name, e := range map[string]*Env{
		"hashed": {Name: "hashed", Version: ocfl.Version1_1, Digest: "sha512", Root: Ext{"0004-hashed-n-tuple-storage-layout": extCfg("0004-hashed-n-tuple-storage-layout", "digestAlgorithm", `"sha256"`, "tupleSize", "3", "numberOfTuples", "3", "shortObjectRoot", "false")}},
		"old":    {Name: "old", Version: ocfl.Version1_0, Digest: "sha512"},
	} {
		d := NewDisk("root")
		must(e.Init(d.FS()))
		roots[name] = d.Snap()
	}
	b := r.Batch()
	for _, rn := range sortedKeys(roots) {
		base := roots[rn].copy()
		w1, w2 := ws["two"], ws["one"]
		if rn == "old" {
			w1, w2 = ws["old"], ws["old"]
		}
		for k, v := range w1.write() {
			base["o/"+k] = v
		}
		for k, v := range w2.write() {
			base["p/q/"+k] = v
		}
		if bad := judgeRoot(base); len(bad) > 0 {
			panic(fmt.Sprint(rn, bad))
		}
		ms := rootMutations(base)
		var pairs [][]mutation
		for _, m := range ms {
			pairs = append(pairs, []mutation{m})
		}
		if r.Thorough() {
			for i, m := range ms {
				for _, n := range ms[i+1:] {
					pairs = append(pairs, []mutation{m, n}, []mutation{n, m})
				}
			}
		}
		for i := 0; i < len(pairs); i += 100 {
			part := pairs[i:min(i+100, len(pairs))]
			b.Do(fmt.Sprintf("root %s %05d", rn, i), func(c *C) {
				for k, ms := range part {
					s := base.copy()
					name, sig := rn+":", ""
					for _, m := range ms {
						s = m.f(s)
						name += " " + m.name
						sig += " " + m.sig
					}
					if !consistentTree(s) {
						continue
					}
					c.State(name)
					c.Case(name)
					v := toolVerdict(FromSnap("w", s).FS())
					c.Step()
					if c.panics(v, name, sig) {
						continue
					}
					bad := judgeRoot(s)
					if len(bad) > 0 && !v.bad() {
						c.Fail("storage root damage not reported:"+sig, "%s: %v", name, bad)
					}
					if k == 0 {
						c.Trace()
						onOS(s, func(fsys fs.FS, dir string) {
							if v2 := toolVerdict(fsys); v2.bad() != v.bad() {
								c.Fail("verdict on disk differs", "%s: %s != %s", name, v, v2)
							}
						})
					}
				}
			})
		}
	}
	b.Wait()
}

// consistentTree: no path is a file and a directory.
func consistentTree(s Snap) bool {
	for k := range s {
		p := strings.TrimSuffix(k, "/")
		if p != k {
			if _, ok := s[p]; ok {
				return false
			}
		}
		for d := path.Dir(p); d != "."; d = path.Dir(d) {
			if _, ok := s[d]; ok {
				return false
			}
		}
	}
	return true
}

// uninterpretable says why an object cannot be interpreted at all.
func uninterpretable(o Snap) string {
	decl := ""
	for f := range o {
		if strings.HasPrefix(f, "0=ocfl_object_") && !strings.HasSuffix(f, "/") {
			decl = f
		}
	}
	if decl == "" {
		return "no declaration"
	}
	data, ok := o["inventory.json"]
	if !ok {
		return "no inventory"
	}
	j, err := parseJE(data)
	if err != nil {
		return "inventory is not JSON"
	}
	for _, k := range []string{"id", "type", "digestAlgorithm", "head"} {
		if _, ok := j[k].(string); !ok {
			return "inventory without " + k
		}
	}
	for _, k := range []string{"manifest", "versions"} {
		if _, ok := j[k].(J); !ok {
			return "inventory without " + k
		}
	}
	return ""
}
