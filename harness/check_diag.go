package main

import (
	"fmt"
	"os"
	"path"
	"regexp"
	"slices"
	"sort"
	"strings"

	"github.com/je4/gocfl/v2/data/specs"
	"github.com/je4/gocfl/v2/pkg/ocfl"
)

// C37: what validation reports can be acted on: the codes are those of the
// specification, the damaged object (and file) is named, no other object is
// blamed, and damage of one object does not hide damage of another one.

func init() {
	register(&Check{Prop: "C37", Level: "model-checked",
		Rule: "every single change of the files and inventories of the base objects, next to a healthy and a damaged object; every code of both versions; every sequence of errors up to the bound",
		Run:  runC37})
}

type diag struct{ code, desc, ref, text, ctx, version string }

func (d diag) String() string { return fmt.Sprintf("%s %q [%s]", d.code, d.text, d.ctx) }

func diagsOf(st *ocfl.ValidationStatus) (ds []diag) {
	for _, x := range st.Errors {
		if x == nil {
			ds = append(ds, diag{})
			continue
		}
		ds = append(ds, diag{string(x.Code), x.Description, x.Ref, x.Description2, x.Context, string(x.Version)})
	}
	return
}

func diagnose(s Snap) (ds []diag, st *ocfl.ValidationStatus, err error) {
	sr, _, ctx, err := valEnv().Load(FromSnap("w", s).FS())
	if err == nil {
		err = guard(func() error { return sr.Check() })
	}
	st, e := ocfl.GetValidationStatus(ctx)
	must(e)
	return diagsOf(st), st, err
}

var specID = regexp.MustCompile(`id="([EW][0-9]{3})"`)

// codeTables: every code of the specification is known.
func codeTables(r *Run, b *Batch) {
	b.Do("codes", func(c *C) {
		codes := map[string]bool{}
		for _, m := range specID.FindAllStringSubmatch(string(specs.OCFL1_1), -1) {
			codes[m[1]] = true
		}
		if len(codes) < 100 {
			panic("codes of the specification")
		}
		for _, v := range []string{"1.0", "1.1"} {
			for n := 1; n < 113; n++ {
				for _, k := range []string{fmt.Sprintf("E%03d", n), fmt.Sprintf("W%03d", n)} {
					if !codes[k] {
						continue
					}
					c.State(v + k)
					c.Case(v + k)
					c.Step()
					x := ocfl.GetValidationError(ocfl.OCFLVersion(v), ocfl.ValidationErrorCode(k))
					if x == nil {
						c.Fail("code without an error", "%s %s", v, k)
						continue
					}
					d := diagsOf(&ocfl.ValidationStatus{Errors: []*ocfl.ValidationError{x}})[0]
					if v == "1.0" && n > 102 && d.code != k {
						continue // not a code of 1.0
					}
					if v == "1.0" && k == "W016" {
						continue
					}
					if d.code != k {
						c.Fail("code of the specification unknown", "%s %s: %v", v, k, d)
					}
					c.codeOK(d, v, v+" "+k)
					// what is added to an error does not change the error
					y := x.AppendDescription("a %d", 1).AppendContext("c %s", "d").AppendDescription("b")
					e := diagsOf(&ocfl.ValidationStatus{Errors: []*ocfl.ValidationError{y}})[0]
					if want := (diag{d.code, d.desc, d.ref, "a 1 b", "c d", v}); e != want {
						c.Fail("error changed by its description", "%s %s: %+v != %+v", v, k, e, want)
					}
					if got := y.DetailString(); got != "ocfl"+strings.ReplaceAll(v, ".", "")+"."+k {
						c.Fail("detail of an error", "%s %s: %s", v, k, got)
					}
					if s := y.Error(); !strings.Contains(s, k) || !strings.Contains(s, "a 1 b") || !strings.Contains(s, "c d") || !strings.Contains(s, d.desc) {
						c.Fail("text of an error", "%s %s: %s", v, k, s)
					}
				}
			}
		}
	})
}

// codeOK: the error is one of the version of the specification.
func (c *C) codeOK(d diag, version, where string) {
	if d.code == "E000" && strings.Contains(d.text, "version declaration") || d.code == "W000" {
		return // not part of the specification
	}
	if len(d.code) != 4 || d.code == "E000" {
		c.Fail("unknown code "+d.code, "%s: %v %s", where, d, d.desc)
		return
	}
	if d.desc == "" || !strings.HasSuffix(d.ref, "#"+d.code) {
		c.Fail("code without description or reference "+d.code, "%s: %v %q %q", where, d, d.desc, d.ref)
	}
	if version != "" && (d.version != version || !strings.Contains(d.ref, "/"+version+"/")) {
		c.Fail("error of another version of the specification", "%s: %v: %s %s", where, d, d.version, d.ref)
	}
}

// compactSpace: the sequences of errors.
func compactSpace(r *Run, b *Batch) {
	letter := []*ocfl.ValidationError{}
	for i, x := range []struct{ code, ctx, text string }{
		{"E069", "storage root 'a'", "x"}, {"E001", "object 'a'", "x"}, {"E001", "object 'b'", "x"}, {"E003", "storage root 'a'", "x"}, {"W005", "object 'a'", "x"}, {"E001", "object 'a'", "y"},
	} {
		_ = i
		letter = append(letter, ocfl.GetValidationError(ocfl.Version1_1, ocfl.ValidationErrorCode(x.code)).AppendDescription("%s", x.text).AppendContext("%s", x.ctx))
	}
	check := func(c *C, w []int) {
		key := fmt.Sprint(w)
		c.State(key)
		c.Case(key)
		c.Step()
		st := &ocfl.ValidationStatus{}
		has := map[int]bool{}
		for _, l := range w {
			x := *letter[l]
			st.Errors = append(st.Errors, &x)
			has[l] = true
		}
		st.Compact()
		c.compacted(st, key)
		if len(st.Errors) != len(has) {
			c.Fail("compacted errors are not the different ones", "%s: %v", key, diagsOf(st))
		}
	}
	maxLen := Pick(r, 6, 8)
	var words [][]int
	var rec func(w []int, n, k int)
	rec = func(w []int, n, k int) {
		words = append(words, slices.Clone(w))
		if n == 0 {
			return
		}
		for l := 0; l < k; l++ {
			rec(append(w, l), n-1, k)
		}
	}
	rec(nil, maxLen, 4)
	short4 := Pick(r, 4, 5)
	var gen [][]int
	words, gen = nil, words
	rec(nil, short4, 6)
	for _, w := range words {
		if len(w) == 0 {
			continue
		}
		// long ones: repetition, and every letter repeated
		for _, n := range []int{13, 30, 60} {
			var p, q []int
			for i := 0; i < n; i++ {
				p = append(p, w[i%len(w)])
				q = append(q, w[i*len(w)/n])
			}
			gen = append(gen, p, q)
		}
	}
	for i := 0; i < len(gen); i += 2000 {
		part := gen[i:min(i+2000, len(gen))]
		b.Do(fmt.Sprintf("compact %06d", i), func(c *C) {
			for _, w := range part {
				check(c, w)
			}
		})
	}
}

// compacted: no error twice, those of the storage root first, one object after the other.
func (c *C) compacted(st *ocfl.ValidationStatus, where string) {
	seen := map[diag]bool{}
	ctxs := map[string]bool{}
	last := ""
	obj := false
	for _, d := range diagsOf(st) {
		k := d
		k.desc, k.ref, k.version = "", "", ""
		if seen[k] {
			c.Fail("error reported twice", "%s: %v", where, d)
		}
		seen[k] = true
		root := strings.HasPrefix(d.ctx, "storage root")
		if root && obj {
			c.Fail("errors of the storage root follow those of objects", "%s: %v", where, diagsOf(st))
		}
		obj = obj || !root
		if d.ctx != last {
			if ctxs[d.ctx] {
				c.Fail("errors of an object are not together", "%s: %v", where, diagsOf(st))
			}
			ctxs[d.ctx] = true
			last = d.ctx
		}
	}
}

// root with the object o between a healthy and a damaged one
func diagRoot(o Snap) Snap {
	s := Snap{}
	for k, v := range valRoot {
		s[k] = v
	}
	for k, v := range o {
		s["o/"+k] = v
	}
	w := &WObj{ID: "healthy-id", Specs: []string{"1.1"}, Algs: []string{"sha512"}, States: []Tree{{"a": "A"}}}
	for k, v := range w.write() {
		s["healthy/"+k] = v
	}
	w.ID = "damaged-id"
	for k, v := range w.write() {
		if path.Base(k) == "a" {
			v = "damage"
		}
		s["zdamaged/"+k] = v
	}
	return s
}

var nameO = regexp.MustCompile(`(^|[^A-Za-z0-9_])o([^A-Za-z0-9_]|$)`)

// whose says which objects an error is about ("" for the storage root).
func whose(d diag) string {
	for _, t := range []string{d.ctx, d.text} {
		switch {
		case strings.Contains(t, "healthy"):
			return "healthy"
		case strings.Contains(t, "damaged"):
			return "damaged"
		case nameO.MatchString(t):
			return "o"
		}
	}
	return ""
}

// expected codes of a change of one file: any of them; and what the text has to name.
func expectFile(base, o Snap) (codes []string, names []string) {
	var diff []string
	for k, v := range o {
		if w, ok := base[k]; !ok || v != w {
			diff = append(diff, k)
		}
	}
	for k := range base {
		if _, ok := o[k]; !ok {
			diff = append(diff, k)
		}
	}
	ro := ReadObj(base)
	if len(diff) == 2 && strings.HasSuffix(diff[0]+diff[1], "/") {
		// a directory became empty
		if strings.HasSuffix(diff[0], "/") {
			diff = diff[1:]
		} else {
			diff = diff[:1]
		}
	}
	if len(diff) != 1 {
		return
	}
	p := diff[0]
	was, had := base[p]
	is, has := o[p]
	if strings.HasSuffix(p, "/") {
		return
	}
	in := func(l ...string) []string { return l }
	sc := regexp.MustCompile(`^(v[0-9]+/)?inventory\.json\.[a-z0-9]+$`)
	content := map[string]bool{}
	for _, fs := range ro.Inv.Manifest {
		for _, f := range fs {
			content[f] = true
		}
	}
	first, rest, sub := strings.Cut(p, "/")
	cd := ro.Inv.ContentDirectory
	if cd == "" {
		cd = "content"
	}
	isVer := slices.Contains(ro.Vers, first)
	switch {
	case content[p] && had && has:
		return in("E092"), in(p)
	case content[p] && had:
		return in("E092", "E023"), in(p)
	case sc.MatchString(p) && had && has:
		f := strings.Fields(is)
		if len(f) == 2 && f[1] == "inventory.json" && is[0] != ' ' && regexp.MustCompile(`^[0-9a-fA-F]*$`).MatchString(f[0]) && !strings.EqualFold(f[0], strings.Fields(was)[0]) {
			return in("E060"), nil
		}
		if len(f) != 2 || f[1] != "inventory.json" {
			return in("E061"), nil
		}
	case sc.MatchString(p) && had:
		return in("E058"), nil
	case strings.HasPrefix(p, "0=") && had && has:
		if is != was && is != strings.TrimSuffix(was, "\n")+"\r\n" {
			return in("E007"), nil
		}
	case strings.HasPrefix(p, "0=") && had:
		return in("E003"), nil
	case p == "inventory.json" && had && has:
		if _, err := parseJE(is); err != nil {
			return in("E033", "E034"), nil
		}
		return in("E060", "E058"), nil
	case path.Base(p) == "inventory.json" && had && has && sub && isVer:
		if _, err := parseJE(is); err != nil {
			return in("E033", "E034"), nil
		}
		return in("E060", "E058"), nil
	case p == "inventory.json" && had:
		return in("E063", "E034"), nil
	case had:
	case !sub:
		if !sc.MatchString(p) && !strings.HasPrefix(p, "0=") {
			return in("E001"), in(p)
		}
		return in("E001", "E003"), nil
	case isVer && strings.HasPrefix(rest, cd+"/"):
		return in("E023"), in(p)
	case isVer && !strings.Contains(rest, "/") && !sc.MatchString(p) && rest != "inventory.json":
		return in("E015"), in(rest)
	case first == "extensions" && !strings.Contains(rest, "/"):
		return in("E067"), in(rest)
	case first != "logs" && first != "extensions" && !isVer:
		return in("E001"), in(first)
	}
	return nil, nil
}

func runC37(r *Run) {
	b := r.Batch()
	codeTables(r, b)
	compactSpace(r, b)
	b.Wait()
	initValRoot()
	var dump *os.File
	if p := os.Getenv("VH_DUMP"); p != "" {
		dump, _ = os.OpenFile(p, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	}
	rootDiagnoses(r, dump)
	w := map[string]Snap{}
	ref := map[string][]string{} // what is reported about the damaged and the healthy object
	for _, x := range append(bases(r), tenVersions()) {
		w[x.Name] = x.write()
		ds, _, err := diagnose(diagRoot(w[x.Name]))
		if err != nil {
			panic(err)
		}
		ref[x.Name] = neighbours(ds)
	}
	valSpace(r, Pick(r, "one two three old padded", ""), func(c *C, base, name, sig string, o Snap) {
		where := base + ": " + name
		s := diagRoot(o)
		ds, st, err := diagnose(s)
		c.Step()
		c.Case(where)
		if isPanic(err) {
			return // C06
		}
		// the neighbours
		want, ok := ref[base]
		if !ok {
			want = ref["one"]
		}
		if got := neighbours(ds); !slices.Equal(got, want) {
			c.Fail("validation of other objects differs", "%s (%v):\n%v\n%v", where, err, got, want)
		}
		mine := map[string]bool{}
		for _, d := range ds {
			c.codeOK(d, "", where)
			if whose(d) == "o" || whose(d) == "" {
				mine[d.code] = true
			}
			if whose(d) == "" && d.code[0] == 'E' && d.code != "E000" {
				c.Fail("error without its object", "%s: %v", where, d)
			}
		}
		if codes, names := expectFile(w[base], o); w[base] != nil && codes != nil {
			found := false
			for _, d := range ds {
				if slices.Contains(codes, d.code) && whose(d) == "o" {
					all := true
					for _, n := range names {
						all = all && strings.Contains(d.text, n)
					}
					found = found || all
				}
			}
			if !found {
				c.Fail("damage reported with another code: "+sig, "%s: want %v of %v, got %v %v", where, codes, names, sortedKeys(mine), short(err))
			}
		}
		if codes := expectInv(sig); codes != nil {
			found := false
			for _, k := range codes {
				found = found || mine[k]
			}
			if !found {
				c.Fail("damage of the inventory reported with another code: "+sig, "%s: want %v, got %v %v", where, codes, sortedKeys(mine), short(err))
			}
		}
		if dump != nil {
			fmt.Fprintf(dump, "SIG %s | %s | %s | %s\n", sig, base, strings.Join(sortedKeys(mine), ","), name)
		}
		n := len(st.Errors)
		st.Compact()
		c.compacted(st, where)
		st2 := &ocfl.ValidationStatus{}
		for i := 0; i < n; i++ {
			d := ds[n-1-i]
			st2.Errors = append(st2.Errors, &ocfl.ValidationError{Code: ocfl.ValidationErrorCode(d.code), Description: d.desc, Ref: d.ref, Description2: d.text, Context: d.ctx, Version: ocfl.OCFLVersion(d.version)})
		}
		st2.Compact()
		if a, b := fmt.Sprint(diagsOf(st)), fmt.Sprint(diagsOf(st2)); a != b {
			c.Fail("compacted errors depend on their order", "%s: %s\n%s", where, a, b)
		}
	})
}

func neighbours(ds []diag) []string {
	m := map[string]bool{}
	for _, d := range ds {
		if w := whose(d); w == "healthy" || w == "damaged" {
			m[d.String()] = true
		}
	}
	r := sortedKeys(m)
	sort.Strings(r)
	return r
}

// expectedInv: the codes of changes of an inventory (with matching sidecars): any of them.
var expectedInv = map[string]string{
	"added digest to fixity.ALG":           "E093",
	"added digest to manifest":             "E092 E107 E050 E023",
	"added digest to versions.V.state":     "E050",
	"added element to fixity.ALG.D":        "E093 E057",
	"added element to manifest.D":          "E092 E023 E099 E042",
	"added key to inventory":               "E102",
	"added key to versions":                "E046 E010",
	"added key to versions.V":              "E102",
	"added key to versions.V.state":        "E050",
	"added key to versions.V.user":         "E102",
	"copied element in manifest":           "E101",
	"copied element in versions.V.state":   "E095",
	"copied key contentDirectory":          "E102",
	"copied key digestAlgorithm":           "E102",
	"copied key fixity":                    "E102",
	"copied key head":                      "E102",
	"copied key id":                        "E102",
	"copied key manifest":                  "E102",
	"copied key manifest.D":                "E101",
	"copied key type":                      "E102",
	"copied key versions":                  "E102",
	"copied key versions.V.created":        "E102",
	"copied key versions.V.message":        "E102",
	"copied key versions.V.state":          "E102",
	"copied key versions.V.state.D":        "E095",
	"copied key versions.V.user":           "E102",
	"copied key versions.V.user.address":   "E102",
	"copied key versions.V.user.name":      "E102",
	"deleted digestAlgorithm":              "E036",
	"deleted head":                         "E036",
	"deleted id":                           "E036",
	"deleted manifest":                     "E041",
	"deleted manifest.D":                   "E050 E023",
	"deleted type":                         "E036",
	"deleted versions":                     "E043 E044",
	"deleted versions.V":                   "E046 E001 E010",
	"deleted versions.V.created":           "E048",
	"deleted versions.V.message":           "W007",
	"deleted versions.V.state":             "E048",
	"deleted versions.V.user":              "W007",
	"deleted versions.V.user.address":      "W008",
	"deleted versions.V.user.name":         "E054",
	"digestAlgorithm set to \"x\"":         "E025 E036",
	"digestAlgorithm set to null":          "E025 E036",
	"duplicated manifest.D.#":              "E101",
	"duplicated versions.V.state.D.#":      "E095",
	"fixity set to \"x\"":                  "E057 E111",
	"fixity.ALG.D.# set to \"x\"":          "E093 E057",
	"head changed":                         "E040",
	"head set to \"x\"":                    "E040",
	"head set to null":                     "E036 E040",
	"id set to null":                       "E036",
	"inventory text: array":                "E033 E034",
	"inventory text: comment":              "E033 E034",
	"inventory text: empty":                "E033 E034",
	"inventory text: empty object":         "E036",
	"inventory text: half":                 "E033 E034",
	"inventory text: key case":             "E036 E102",
	"inventory text: key case manifest":    "E041 E102",
	"inventory text: null":                 "E033 E034 E036",
	"inventory text: number":               "E033 E034",
	"inventory text: string":               "E033 E034",
	"inventory text: trailing comma":       "E033 E034",
	"inventory text: trailing garbage":     "E033 E034",
	"inventory text: truncated":            "E033 E034",
	"inventory text: two documents":        "E033 E034",
	"manifest set to \"x\"":                "E041 E106 E050",
	"manifest set to null":                 "E041 E106",
	"manifest.D.# changed":                 "E023 E092 E101 E099 E100",
	"moved element in manifest":            "E092",
	"removed manifest.D.#":                 "E023 E092 E050",
	"renamed key digestAlgorithm":          "E036",
	"renamed key head":                     "E036",
	"renamed key id":                       "E036",
	"renamed key manifest":                 "E041",
	"renamed key type":                     "E036",
	"renamed key versions":                 "E043 E044",
	"renamed key versions.V":               "E046 E001 E010",
	"renamed key versions.V.created":       "E048",
	"renamed key versions.V.state":         "E048",
	"renamed key versions.V.user.name":     "E054",
	"swapped values in manifest":           "E092",
	"type changed":                         "E038",
	"type set to \"x\"":                    "E038",
	"type set to null":                     "E036 E038",
	"versions set to \"x\"":                "E043 E044",
	"versions set to null":                 "E043 E044",
	"versions.V.created set to \"x\"":      "E049",
	"versions.V.created set to null":       "E048 E049",
	"versions.V.state set to null":         "E048 E050",
	"versions.V.user.address set to \"x\"": "W009",
	"versions.V.user.name set to null":     "E054",
}

func expectInv(sig string) []string {
	for _, t := range []string{"root and head: ", "root: "} {
		if s, ok := strings.CutPrefix(sig, t); ok && expectedInv[s] != "" {
			return strings.Fields(expectedInv[s])
		}
	}
	return nil
}

var expectedRoot = map[string]string{
	"declaration missing": "E003 E069 E076 E077",
	"declaration content": "E006 E007 E075 E076 E080",
	"file in extensions":  "E067 E086 E112",
	"empty directory":     "E073",
}

// rootDiagnoses: changes of the storage root.
func rootDiagnoses(r *Run, dump *os.File) {
	b := r.Batch()
	for _, ver := range []string{"1.1", "1.0"} {
		base := Snap{}
		if ver == "1.1" {
			base = valRoot.copy()
		} else {
			d := NewDisk("root")
			must((&Env{Name: "old", Version: ocfl.Version1_0, Digest: "sha512"}).Init(d.FS()))
			base = d.Snap()
		}
		add := func(id, dir, content string, damage string) {
			w := &WObj{ID: id, Specs: []string{ver}, Algs: []string{"sha512"}, States: []Tree{{"a": content}}}
			for k, v := range w.write() {
				if damage != "" && path.Base(k) == "a" {
					v = damage
				}
				base[dir+"/"+k] = v
			}
		}
		add("o", "o", "A", "")
		add("q", "p/q", "B", "")
		add("healthy-id", "healthy", "C", "")
		add("damaged-id", "zdamaged", "D", "damage")
		ds, _, err := diagnose(base)
		must(err)
		want := neighbours(ds)
		ms := rootMutations(base)
		for i := 0; i < len(ms); i += 50 {
			part := ms[i:min(i+50, len(ms))]
			b.Do(fmt.Sprintf("root %s %05d", ver, i), func(c *C) {
				for _, m := range part {
					s := m.f(base.copy())
					where := "root " + ver + ": " + m.name
					kept := consistentTree(s)
					for k, v := range base {
						if strings.HasPrefix(k, "healthy/") || strings.HasPrefix(k, "zdamaged/") {
							kept = kept && s[k] == v
						}
					}
					if !kept || m.sig == "extension configuration" {
						continue
					}
					c.State(where)
					c.Case(where)
					ds, st, err := diagnose(s)
					c.Step()
					if isPanic(err) {
						continue
					}
					has := map[string]bool{}
					for _, d := range ds {
						c.codeOK(d, "", where)
						has[d.code] = true
					}
					if got := neighbours(ds); err == nil && !slices.Equal(got, want) {
						c.Fail("damage of the storage root changes what is reported of an object: "+m.sig, "%s:\n%v\n%v", where, got, want)
					}
					codes := strings.Fields(expectedRoot[m.sig])
					for _, p := range judgeRoot(s) {
						if strings.HasPrefix(p, "ocfl_layout.json: ") {
							codes = append(codes, "E070")
						}
					}
					// a storage root which cannot be loaded at all is refused with the reason
					found := len(codes) == 0 || err != nil && len(ds) == 0 || len(judgeRoot(s)) == 0
					for _, k := range codes {
						found = found || has[k]
					}
					if !found {
						c.Fail("damage of the storage root reported with another code: "+m.sig, "%s: want %v, got %v %v", where, codes, sortedKeys(has), short(err))
					}
					if dump != nil {
						fmt.Fprintf(dump, "SIG %s | root | %s | %s %s\n", m.sig, strings.Join(sortedKeys(has), ","), m.name, short(err))
					}
					st.Compact()
					c.compacted(st, where)
				}
			})
		}
	}
	b.Wait()
}
