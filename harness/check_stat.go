package main

// C33: statistics of storage roots and objects.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"path"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/je4/gocfl/v2/pkg/ocfl"
)

func init() {
	register(&Check{Prop: "C33", Level: "model_checking", Run: runC33,
		Rule:   "storage roots (layouts, identifiers and names with reserved characters, areas, extensions, objects of other tools in every combination of up to 1 feature, and everything reachable by short histories of updates) x selections (whole root, every object by folder and by identifier, unknown ones) x subsets of the information flags; the text is parsed completely and compared with the inventories read by an independent reader; for some of them every single failure of a read and of a write of the text",
		Assume: []string{"the layout of the text (labels, one line per entry) is that of the current version", "whether an object in a folder other than that of the layout is found by its identifier is not judged"}})
}

var statInfos = []ocfl.StatInfo{ocfl.StatObjectFolders, ocfl.StatExtension, ocfl.StatExtensionConfigs, ocfl.StatObjects, ocfl.StatObjectVersions, ocfl.StatObjectVersionState, ocfl.StatObjectManifest, ocfl.StatObjectExtension, ocfl.StatObjectExtensionConfigs}

type statSel map[ocfl.StatInfo]bool

func (s statSel) list() []ocfl.StatInfo {
	r := []ocfl.StatInfo{}
	for _, i := range statInfos {
		if s[i] {
			r = append(r, i)
		}
	}
	return r
}

// has: no selection is everything.
func (s statSel) has(i ocfl.StatInfo) bool { return len(s) == 0 || s[i] }

func statOf(mask int) statSel {
	s := statSel{}
	for i, x := range statInfos {
		if mask&(1<<i) != 0 {
			s[x] = true
		}
	}
	return s
}

// limitWriter fails after some writes.
type limitWriter struct {
	bytes.Buffer
	left int // -1: no limit
	n    int
	hit  bool
}

var errFull = errors.New("no space left")

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.left >= 0 && l.n >= l.left {
		l.hit = true
		return 0, errFull
	}
	l.n++
	return l.Buffer.Write(p)
}

func (w *vWorld) stat(d *Disk, out *limitWriter, p, id string, sel statSel) error {
	return guard(func() error {
		sr, _, _, err := w.env.Load(d.FS())
		if err != nil {
			return err
		}
		return sr.Stat(out, p, id, sel.list())
	})
}

// statText is a text which is consumed from the beginning.
type statText struct {
	s   string
	bad func(sig, f string, a ...any)
	end bool // something is wrong, the rest cannot be judged
}

func (t *statText) fail(sig, want string) {
	if !t.end {
		t.bad(sig, "%s instead of %q", fmt.Sprintf("%.120q", t.s), want)
	}
	t.end = true
}

func (t *statText) want(x, sig string) {
	if t.end {
		return
	}
	if !strings.HasPrefix(t.s, x) {
		t.fail(sig, x)
		return
	}
	t.s = t.s[len(x):]
}

// line consumes the rest of the line.
func (t *statText) line() string {
	l, rest, _ := strings.Cut(t.s, "\n")
	t.s = rest
	return l
}

// each consumes all of the texts in any order, the longest first.
func (t *statText) each(xs []string, sig string, after func(x string)) {
	left := append([]string{}, xs...)
	for len(left) > 0 && !t.end {
		sort.Slice(left, func(i, j int) bool {
			return len(left[i]) > len(left[j]) || len(left[i]) == len(left[j]) && left[i] < left[j]
		})
		k := -1
		for i, x := range left {
			if strings.HasPrefix(t.s, x) {
				k = i
				break
			}
		}
		if k < 0 {
			t.fail(sig, strings.Join(left, "|"))
			return
		}
		x := left[k]
		left = append(left[:k], left[k+1:]...)
		t.s = t.s[len(x):]
		if after != nil {
			after(x)
		}
	}
}

var reStatLabel = regexp.MustCompile(`^[A-Za-z ]+: `)

// object consumes the section of an object.
func (t *statText) object(o *RefObj, sel statSel) {
	inv := o.Inv
	p := "[" + inv.ID + "] "
	t.want(p, "wrong object in the statistics")
	if l := reStatLabel.FindString(t.s); l == "" && !t.end {
		t.fail("wrong digest algorithm in the statistics", inv.DigestAlgorithm)
	} else if !t.end {
		t.s = t.s[len(l):]
	}
	t.want(inv.DigestAlgorithm+"\n", "wrong digest algorithm in the statistics")
	t.want(p+"Head: "+inv.Head+"\n", "wrong head in the statistics")
	t.want(p+"Fixity: ", "wrong fixity algorithms in the statistics")
	if t.end {
		return
	}
	var algs []string
	if l := t.line(); l != "" {
		algs = strings.Split(l, ", ")
	}
	if want := sortedKeys(inv.Fixity); !sameStrings(algs, want) {
		t.fail("wrong fixity algorithms in the statistics", strings.Join(want, ", "))
		return
	}
	n := 0
	for _, x := range inv.Manifest {
		n += len(x)
	}
	t.want(fmt.Sprintf("%sManifest: %d files (%d unique files)\n", p, n, len(inv.Manifest)), "wrong number of files in the statistics")
	if sel.has(ocfl.StatObjectVersions) {
		for _, v := range o.Vers {
			x := inv.Versions[v]
			t.want(p+"Version "+v+"\n", "wrong version in the statistics")
			t.want(p+"    User: ", "wrong user in the statistics")
			if t.end {
				return
			}
			if x.User != nil {
				t.want(fmt.Sprintf("%s (%s)\n", x.User.Name, x.User.Address), "wrong user in the statistics")
			} else {
				t.line()
			}
			t.want(p+"    Created: ", "wrong creation time in the statistics")
			if t.end {
				return
			}
			at := t.line()
			want, err := time.Parse(time.RFC3339, x.Created)
			got, err2 := time.Parse(time.RFC3339, at)
			if f := strings.Split(at, " "); err2 != nil && len(f) > 2 {
				got, err2 = time.Parse("2006-01-02 15:04:05.999999999 -0700", strings.Join(f[:3], " "))
			}
			if err == nil && (err2 != nil || !got.Equal(want)) {
				t.s = at
				t.fail("wrong creation time in the statistics", x.Created)
				return
			}
			t.want(p+"    Message: ", "wrong message in the statistics")
			if t.end {
				return
			}
			if x.Message != nil {
				t.want(*x.Message+"\n", "wrong message in the statistics")
			} else {
				t.line()
			}
			if sel.has(ocfl.StatObjectVersionState) {
				by := map[string][]string{}
				var lines []string
				for dg, names := range x.State {
					for _, name := range names {
						l := p + "       " + name + "\n"
						lines = append(lines, l)
						by[l] = o.Paths[strings.ToLower(dg)]
					}
				}
				t.each(lines, "wrong logical path in the statistics", func(l string) {
					if !sel.has(ocfl.StatObjectManifest) {
						return
					}
					var ps []string
					for _, x := range by[l] {
						ps = append(ps, p+"          "+x+"\n")
					}
					t.each(ps, "wrong content path in the statistics", nil)
				})
			}
		}
	}
	if sel.has(ocfl.StatObjectExtensionConfigs) {
		t.want(p+"Initial Extension:\n", "extensions missing in the statistics")
	}
}

func lowKeys(x any) any {
	switch y := x.(type) {
	case map[string]any:
		r := map[string]any{}
		for k, v := range y {
			r[strings.ToLower(k)] = lowKeys(v)
		}
		return r
	case []any:
		r := []any{}
		for _, v := range y {
			r = append(r, lowKeys(v))
		}
		return r
	}
	return x
}

// configs compares the configurations in a part of a text with the stored
// ones.
func (t *statText) configs(part string, files map[string]string, known map[string]bool) {
	found := map[string][]map[string]any{}
	for _, b := range strings.Split("\n"+part, "\n---\n") {
		var j any
		if json.Unmarshal([]byte(b), &j) != nil {
			continue
		}
		if m, ok := lowKeys(j).(map[string]any); ok {
			n, _ := m["extensionname"].(string)
			found[n] = append(found[n], m)
		}
	}
	for f, data := range files {
		name, ok := strings.CutPrefix(f, "extensions/")
		if !ok || path.Base(name) != "config.json" || strings.Count(name, "/") != 1 || !known[path.Dir(name)] || path.Dir(name) == "initial" {
			continue
		}
		var j any
		if json.Unmarshal([]byte(data), &j) != nil {
			continue
		}
		want, ok := lowKeys(j).(map[string]any)
		if !ok {
			continue
		}
		n, _ := want["extensionname"].(string)
		if len(found[n]) == 0 {
			t.bad("extension missing in the statistics", "%q", n)
			continue
		}
		for _, m := range found[n] {
			for k, v := range want {
				if x, ok := m[k]; !ok && v != nil || ok && !reflect.DeepEqual(x, v) {
					t.bad("wrong configuration in the statistics", "%s: %s is %v instead of %v", n, k, x, v)
				}
			}
		}
	}
}

func (w *vWorld) checkStat(c *C, what string, p, id string, sel statSel, out string, known map[string]bool) {
	t := &statText{s: out, bad: func(sig, f string, a ...any) {
		c.Fail("statistics: "+sig, "%s: %s", what, fmt.Sprintf(f, a...))
	}}
	t.want("Storage Root\n", "no storage root in the statistics")
	ver := "1.0"
	if _, ok := w.snap["0=ocfl_1.1"]; ok {
		ver = "1.1"
	}
	t.want("OCFL Version: "+ver+"\n", "wrong version of the storage root in the statistics")
	if t.end {
		return
	}
	tail := func(o *RefObj, id, rest string) {
		if sel.has(ocfl.StatObjectExtensionConfigs) {
			t.configs(rest, o.Files, known)
		} else if strings.TrimSpace(rest) != "" {
			t.bad("more than the object", "%.100q", rest)
		}
	}
	root := func(part string) {
		files := map[string]string{}
		for f, x := range w.snap {
			if strings.HasPrefix(f, "extensions/") {
				files[f] = x
			}
		}
		if sel.has(ocfl.StatExtensionConfigs) {
			t.configs(part, files, known)
		} else if strings.Contains(part, "---\n") {
			t.bad("configuration which was not selected", "%.200q", part)
		}
	}
	if p != "" || id != "" {
		k := "\nObject: " + p + id + "\n"
		i := strings.Index("\n"+t.s, k)
		if i < 0 {
			t.fail("no object in the statistics", k)
			return
		}
		root(t.s[:i])
		t.s = t.s[i+len(k)-1:]
		for oid, f := range w.pre {
			if id == oid || p != "" && f == p {
				t.object(w.objs[oid], sel)
				if !t.end {
					tail(w.objs[oid], oid, t.s)
				}
			}
		}
		return
	}
	at := map[string]string{} // first lines -> id
	for oid, f := range w.pre {
		at["\nObject: "+f+"\n["+oid+"] "] = oid
	}
	// next finds the next object
	next := func() (int, string) {
		best, which := -1, ""
		for k := range at {
			if i := strings.Index("\n"+t.s, k); i >= 0 && (best < 0 || i < best) {
				best, which = i, k
			}
		}
		return best, which
	}
	i, k := next()
	head := t.s
	if i >= 0 {
		head = t.s[:i]
	}
	if sel.has(ocfl.StatObjectFolders) {
		_, l, ok := strings.Cut("\n"+head, "\nObject Folders: ")
		l, _, _ = strings.Cut(l, "\n")
		var want []string
		for _, f := range w.pre {
			want = append(want, f)
		}
		if x := strings.Split(strings.Join(want, ", "), ", "); !ok || !sameStrings(strings.Split(l, ", "), x) {
			t.bad("wrong folders in the statistics", "%q instead of %q", l, want)
		}
	}
	root(head)
	if !sel.has(ocfl.StatObjects) {
		if i >= 0 {
			t.bad("object which was not selected", "%q", k)
		}
		return
	}
	for i >= 0 && !t.end {
		oid := at[k]
		delete(at, k)
		t.s = t.s[i+strings.LastIndex(k, "["+oid+"] ")-1:]
		t.object(w.objs[oid], sel)
		i, k = next()
		if t.end {
			return
		}
		rest := t.s
		if i >= 0 {
			rest = t.s[:i]
		}
		tail(w.objs[oid], oid, rest)
	}
	if !t.end && len(at) > 0 {
		t.bad("object missing in the statistics", "%q", sortedKeys(at))
	}
}

// statKnown are the extensions of the environment.
func (w *vWorld) statKnown() map[string]bool {
	r := map[string]bool{}
	for f := range w.snap {
		if x := path.Dir(f); path.Base(f) == "config.json" && path.Base(path.Dir(x)) == "extensions" {
			r[path.Base(x)] = true
		}
	}
	return r
}

func (w *vWorld) statOne(c *C, p, id string, sel statSel) {
	what := fmt.Sprintf("%s: folder %q id %q %v", w.name, p, id, sel.list())
	c.Step()
	d := FromSnap("root", w.snap)
	var wrote string
	d.Hook = func(o Op) (int, error) {
		if o.Mutates() {
			wrote = o.Kind + " " + o.Path
		}
		return 1 << 30, nil
	}
	out := &limitWriter{left: -1}
	err := w.stat(d, out, p, id, sel)
	if wrote != "" {
		c.Fail("statistics: changes the storage", "%s: %s", what, wrote)
	}
	known := p == "" && id == ""
	for oid, f := range w.pre {
		known = known || p != "" && f == p || id != "" && oid == id
	}
	if !known {
		if err == nil {
			c.Fail("statistics: no error for an unknown object", "%s: %q", what, out.String())
		}
		return
	}
	if err != nil {
		if !(w.loose || strings.HasPrefix(w.name, "foreign") && w.pre[id] != id) || id == "" {
			c.Fail("statistics: fail: "+short(err), "%s: %v", what, err)
		}
		return
	}
	w.checkStat(c, what, p, id, sel, out.String(), w.statKnown())
	again := &limitWriter{left: -1}
	if err := w.stat(d, again, p, id, sel); err != nil || again.String() != out.String() {
		c.Fail("statistics: not the same again", "%s: %v\n%s\n%s", what, err, out.String(), again.String())
	}
	c.State(w.name + out.String())
	c.Case(what)
}

// statFaults lets every write of the text and every operation of the storage
// fail.
func (w *vWorld) statFaults(c *C, p, id string, sel statSel) {
	what := fmt.Sprintf("%s: folder %q id %q %v", w.name, p, id, sel.list())
	ref := &limitWriter{left: -1}
	if err := w.stat(FromSnap("root", w.snap), ref, p, id, sel); err != nil {
		return
	}
	for i := 0; i < ref.n; i++ {
		c.Step()
		out := &limitWriter{left: i}
		if err := w.stat(FromSnap("root", w.snap), out, p, id, sel); err == nil && out.hit {
			c.Fail("statistics: incomplete text without an error", "%s: write %d of %d", what, i, ref.n)
		} else if isPanic(err) {
			c.Fail("statistics: panic", "%s: write %d: %v", what, i, err)
		}
		c.Case(fmt.Sprintf("%s w%d", what, i))
	}
	for i := 0; ; i++ {
		c.Step()
		d := FromSnap("root", w.snap)
		n, hit := 0, ""
		d.Hook = func(o Op) (int, error) {
			if o.Kind == "rclose" {
				return 1 << 30, nil
			}
			n++
			if n-1 == i {
				hit = o.Kind + " " + o.Path
				return 0, fmt.Errorf("injected failure")
			}
			return 1 << 30, nil
		}
		out := &limitWriter{left: -1}
		err := w.stat(d, out, p, id, sel)
		if hit == "" {
			break
		}
		if isPanic(err) {
			c.Fail("statistics: panic", "%s: %s fails: %v", what, hit, err)
		}
		if err == nil && out.String() != ref.String() {
			c.Fail("statistics: failure hidden", "%s: %s fails, but there is no error; %q instead of %q", what, hit, out.String(), ref.String())
		}
		c.Case(fmt.Sprintf("%s r%d", what, i))
	}
}

func (w *vWorld) statSels() (r [][2]string) {
	r = append(r, [2]string{"", ""}, [2]string{"no such folder", ""}, [2]string{"", "no such object"})
	for _, id := range w.ids() {
		r = append(r, [2]string{w.pre[id], ""}, [2]string{"", id})
	}
	return
}

func runC33(r *Run) {
	worlds := vWorlds()
	b := r.Batch()
	for wi, w := range worlds {
		foreign := strings.HasPrefix(w.name, "foreign")
		masks := []int{0}
		for i := range statInfos {
			masks = append(masks, 1<<i, 511&^(1<<i))
		}
		masks = append(masks, 16|32, 16|32|64, 8|16|32|64, 8|16, 8|256, 1|8)
		if r.Thorough() || wi < 2 {
			masks = nil
			for m := 0; m < 512; m++ {
				masks = append(masks, m)
			}
		} else if foreign {
			masks = []int{0, 8 | 16 | 32 | 64, 8}
		}
		for _, s := range w.statSels() {
			b.Do(fmt.Sprintf("%s %q", w.name, s), func(c *C) {
				for _, m := range masks {
					w.statOne(c, s[0], s[1], statOf(m))
				}
				c.Sample("%s %q: %d selections", w.name, s, len(masks))
			})
			if wi%4 == 0 || r.Thorough() {
				b.Do(fmt.Sprintf("faults %s %q", w.name, s), func(c *C) {
					for _, m := range []int{0, 8 | 16 | 32, 1 | 4 | 256} {
						w.statFaults(c, s[0], s[1], statOf(m))
					}
				})
			}
		}
	}
	b.Wait()
	cfgs := histCfgs(r)
	if !r.Thorough() {
		for _, x := range cfgs {
			if x.Name != "long" && x.Depth > 2 {
				x.Depth = 2
			}
		}
	}
	histories(r, cfgs, func(c *C, t *Trans) {
		if opErr(c, t) {
			return
		}
		w := newWorld(t.Cfg.Name, t.Cfg.Env, t.Disk.Snap())
		for _, s := range [][2]string{{"", ""}, {"", t.Cfg.ID}} {
			w.statOne(c, s[0], s[1], statOf(0))
		}
	})
}
