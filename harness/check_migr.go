package main

// C28: automatic versions with migrated files.

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/je4/gocfl/v2/config"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/subsystem/migration"
	"github.com/je4/utils/v2/pkg/checksum"
	configutil "github.com/je4/utils/v2/pkg/config"
)

func init() {
	register(&Check{Prop: "C28", Level: "model_checking", Run: runC28,
		Rule:   "every configuration (strategy, converter, naming, areas, place of the metadata, with and without rules at the first update) x every sequence of up to 2 (thorough 3) updates out of trees with matching, not matching, renamed, doubled, replaced, failing and colliding files; states of all versions, earlier versions, validity and the report compared with a model which executes the same conversion",
		Assume: []string{"content which has been converted (or could not be converted) once is not converted again", "a conversion never replaces other files: if there is a file with the name of the result, the conversion is an error"}})
}

// contents: the first word is the format
func fmtOf(content string) string {
	i := strings.IndexByte(content, ' ')
	if i < 0 {
		return ""
	}
	return map[string]string{"OLD": "fmt/1", "MID": "fmt/2", "FAIL": "fmt/1", "MUTE": "fmt/1", "EMPTY": "fmt/1"}[content[:i]]
}

func body(format, s string) string { return format + " " + strings.Repeat(s, 600/len(s)) + "\n" }

// convert is what the commands do.
func convert(content string) (string, bool) {
	switch i := strings.IndexByte(content, ' '); content[:i] {
	case "OLD":
		return "MID" + content[i:], true
	case "MID":
		return "NEW" + content[i:], true
	case "EMPTY":
		return "", true
	}
	return "", false
}

const convCmd = `/bin/sh -c 'read f r < "{source}"; case "$f" in OLD) sed s/^OLD/MID/ < "{source}" > "{destination}";; MID) sed s/^MID/NEW/ < "{source}" > "{destination}";; EMPTY) : > "{destination}";; MUTE) :;; *) exit 1;; esac'`

type migCfg struct {
	strategy     string
	re, rep      string
	sub          bool
	stype        string
	chain        bool // rule for results of the first conversion
	late         bool // no rules at the first update
	fsx, cleanX  bool
	noread       bool // contents of the new version cannot be read before the update is finished
	compressWith string
}

func (m migCfg) String() string {
	return fmt.Sprintf("%s %q->%q sub=%v/%s/%s chain=%v late=%v fs=%v clean=%v noread=%v", m.strategy, m.re, m.rep, m.sub, m.stype, m.compressWith, m.chain, m.late, m.fsx, m.cleanX, m.noread)
}

func (m migCfg) env(rules bool, src fs.FS) *Env {
	sname := "metadata"
	if m.stype == "area" {
		sname = "meta"
	}
	x := []map[string]string{digExt,
		extCfg(extension.IndexerName, "storageType", `"extension"`, "storageName", `"metadata"`, "compress", `"none"`, "actions", `["siegfried","xml"]`),
		extCfg(extension.MigrationName, "storageType", jstr(m.stype), "storageName", jstr(sname), "compress", jstr(m.compressWith)),
	}
	if m.sub {
		x = append(x, contentExt("content", "data", "meta", "data2"))
	}
	if m.fsx {
		x = append(x, extCfg(extension.FilesystemName, "folders", `""`, "storageType", `"extension"`, "storageName", `"metadata"`, "compress", `"gzip"`))
	}
	if m.cleanX {
		x = append(x, extCfg(extension.DirectCleanName, "maxPathnameLen", "32000", "maxPathSegmentLen", "127", "replacementString", `"_"`, "whitespaceReplacementString", `" "`, "utfEncode", "true"))
	}
	e := env11("mig", []Alg{checksum.DigestMD5}, x...)
	if m.cleanX && m.sub {
		e.Obj = e.Obj.with(mgrName, extCfg(mgrName, "sort", `{"ObjectContentPath":["NNNN-direct-clean-path-layout","NNNN-content-subpath"]}`, "exclusion", `{}`))
	}
	e.Indexer = fakeIndexer(func(name, content string) string { return fmtOf(content) })
	conf := &config.GOCFLConfig{Migration: &config.Migration{Enabled: true, Function: map[string]*config.MigrationFunction{}}}
	if rules {
		f := func(id, pronom string) {
			conf.Migration.Function[id] = &config.MigrationFunction{ID: id, Title: id, Command: convCmd, Strategy: m.strategy, FilenameRegexp: m.re, FilenameReplacement: m.rep, Timeout: configutil.Duration(time.Minute), Pronoms: []string{pronom, " x/" + id}}
		}
		f("one", "fmt/1")
		if m.chain {
			f("two", "fmt/2")
		}
	}
	mig, err := migration.GetMigrations(conf)
	must(err)
	mig.SetSourceFS(src)
	e.Migration = mig
	if !rules && m.chain {
		e.Migration = nil // as if there was no migration service at all
	}
	return e
}

type migSt struct {
	snap   Snap
	states []Tree            // of all versions
	done   map[string]string // content -> id of the rule (also if it failed)
	good   map[string]bool   // contents which have been converted
	target map[string]bool   // contents which are results of a migration
	ops    []string
}

func (m migCfg) rule(content string) string {
	switch fmtOf(content) {
	case "fmt/1":
		return "one"
	case "fmt/2":
		if m.chain {
			return "two"
		}
	}
	return ""
}

// dest is the name of the result.
func (m migCfg) dest(p, head string, result bool) string {
	d := regexp.MustCompile(m.re).ReplaceAllString(p, m.rep)
	if m.strategy == "folder" {
		if result {
			// v2.x.mid -> v3.x.mid
			_, rest, _ := strings.Cut(path.Base(p), ".")
			return path.Join(path.Dir(p), head+"."+rest)
		}
		return path.Join(p, head+"."+d)
	}
	return d
}

// migrate is the model of the automatic version; changed is false if there is
// none.
func (m migCfg) migrate(st *migSt, t Tree, head string, readable func(string) bool) (n Tree, changed bool) {
	n = t.Clone()
	results := map[string]bool{} // of former migrations
	for c := range st.target {
		results[c] = true
	}
	used := map[string]bool{}
	byContent := map[string][]string{}
	for _, p := range t.names() {
		byContent[t[p]] = append(byContent[t[p]], p)
	}
	contents := sortedKeys(byContent)
	sort.Slice(contents, func(i, j int) bool { return sha512hex(contents[i]) < sha512hex(contents[j]) })
	for _, content := range contents {
		id := m.rule(content)
		if id == "" {
			continue
		}
		if _, ok := st.done[content]; ok || !readable(content) {
			continue
		}
		st.done[content] = id
		names := byContent[content]
		conv, ok := convert(content)
		dest := map[string]string{}
		for _, p := range names {
			d := m.dest(p, head, results[content])
			dest[p] = d
			if c, busy := t[d]; used[d] || busy && c != content && !results[c] {
				ok = false
			}
		}
		if m.stype != "extension" {
			changed = true // the lines are content
		}
		if !ok {
			continue
		}
		for _, d := range dest {
			used[d] = true
		}
		changed = true
		st.target[conv] = true
		st.good[content] = true
		for _, p := range names {
			switch m.strategy {
			case "replace":
				if n[p] == content {
					delete(n, p)
				}
			case "folder":
				if dest[p] != p && !results[content] {
					delete(n, p)
					n[path.Join(p, path.Base(p))] = content
				}
			}
		}
		for _, p := range names {
			n[dest[p]] = conv
		}
	}
	return
}

func ownMigr(p string) bool {
	return p == "README.md" || strings.HasPrefix(path.Base(p), "migration_v")
}

func (m migCfg) update(c *C, st *migSt, src *srcDir, mo mode, area string) *migSt {
	what := fmt.Sprintf("%v: %q then %q %v %v", m, st.ops, area, src.order, mo)
	rules := !(m.late && len(st.states) == 0)
	e := m.env(rules, src.fs())
	d := FromSnap("root", st.snap)
	if m.noread {
		d.Hook = func(o Op) (int, error) {
			if _, old := st.snap[strings.TrimPrefix(o.Path, "/w/")]; !old && (o.Kind == "open" || o.Kind == "readfile") && thNew.MatchString("/"+o.Path) {
				return 0, fmt.Errorf("cannot be read now: %s", o.Path)
			}
			return 1 << 30, nil
		}
	}
	n := &migSt{done: map[string]string{}, good: map[string]bool{}, target: map[string]bool{}, ops: append(append([]string{}, st.ops...), fmt.Sprintf("%q %v %v", area, src.order, mo))}
	for k, v := range st.done {
		n.done[k] = v
	}
	for k := range st.good {
		n.good[k] = true
	}
	for k := range st.target {
		n.target[k] = true
	}
	n.states = append([]Tree{}, st.states...)
	// the update itself
	pre := ""
	if m.sub {
		pre = fsAreas[area] + "/"
	}
	t := Tree{}
	modified := len(st.states) == 0
	if !modified {
		old := st.states[len(st.states)-1]
		for p, x := range old {
			if _, ok := src.tree[strings.TrimPrefix(p, pre)]; mo.echo && strings.HasPrefix(p, pre) && !ok {
				modified = true
				continue
			}
			t[p] = x
		}
	}
	for p, x := range src.tree {
		if o, ok := t[pre+p]; !ok || o != x || !mo.dedup {
			modified = true
		}
		t[pre+p] = x
	}
	if conflicts(t.names()) != "" {
		return nil
	}
	if modified {
		n.states = append(n.states, t)
		if rules {
			head := fmt.Sprintf("v%d", len(n.states)+1)
			a, changed := m.migrate(n, t, head, func(content string) bool {
				if !m.noread {
					return true
				}
				for _, x := range st.states {
					for _, old := range x {
						if old == content {
							return true
						}
					}
				}
				// the source is known
				for _, x := range src.tree {
					if x == content && (area == "" || !m.sub) {
						return true
					}
				}
				return false
			})
			if changed {
				n.states = append(n.states, a)
			}
		}
	}
	c.Step()
	sr, fac, _, err := e.Load(d.FS())
	must(err)
	var live *metaObj
	err = guard(func() error {
		ob, err := e.Open(sr, fac, "o1")
		if err != nil {
			return err
		}
		if _, err := update(ob, Add{ID: "o1", Msg: "m", User: "u", Addr: "a", Src: src.fs(), Area: area, Dedup: mo.dedup, Echo: mo.echo}); err != nil {
			return err
		}
		x, err := ob.GetMetadata()
		if err != nil {
			return fmt.Errorf("live report: %w", err)
		}
		b, err := json.Marshal(x)
		if err != nil {
			return err
		}
		return json.Unmarshal(b, &live)
	})
	if err != nil {
		c.Fail("update fails: "+short(err), "%s: %v", what, err)
		return nil
	}
	d.Hook = nil
	s := d.Snap()
	n.snap = s
	if !modified {
		if diff := st.snap.OnlyFiles().Diff(s.OnlyFiles()); diff != "" {
			c.Fail("update without a change leaves traces", "%s: %s", what, diff)
		}
	}
	o := ReadObj(s.Sub(objPrefix(s, "o1")))
	if x := o.Invalid(); len(x) > 0 {
		c.Fail("invalid object", "%s: %q", what, x)
		return nil
	}
	if len(o.Vers) != len(n.states) {
		c.Fail("wrong number of versions", "%s: %d instead of %d", what, len(o.Vers), len(n.states))
		return nil
	}
	for i, v := range o.Vers {
		got := stateOf(o, v)
		for p := range got {
			if ownMigr(p) {
				delete(got, p)
			}
		}
		if x := sameTree(n.states[i], got); x != "" {
			c.Fail("wrong state", "%s: %s: %s", what, v, x)
		}
	}
	if st.states != nil {
		immutable(c, st.snap, s, what)
	}
	// report
	mm, err := e.Meta(d.FS(), "", "o1")
	if err != nil {
		c.Fail("report fails: "+short(err), "%s: %v", what, err)
		return nil
	}
	alg := string(e.Digest)
	for when, x := range map[string]*metaObj{"live": live, "reloaded": mm.Objects["o1"]} {
		if x == nil {
			c.Fail("no report", "%s", what)
			continue
		}
		want := map[string]map[string]bool{} // digest -> source digests and ids
		errs := map[string]bool{}
		for content, id := range n.done {
			k := refDigest(alg, content) + " " + id
			if n.good[content] {
				conv, _ := convert(content)
				if want[refDigest(alg, conv)] == nil {
					want[refDigest(alg, conv)] = map[string]bool{}
				}
				want[refDigest(alg, conv)][k] = true
			} else {
				errs[k] = true
			}
		}
		for dg, f := range x.Files {
			raw, ok := f.Extension[extension.MigrationName]
			if !ok {
				if len(want[dg]) > 0 {
					c.Fail("migration missing in the report ("+when+")", "%s: %v", what, f)
				}
				continue
			}
			var r extension.MigrationResult
			must(json.Unmarshal(mustJSON(raw), &r))
			k := r.Source + " " + r.ID
			if r.Error != "" {
				if !errs[k] {
					c.Fail("error reported for a successful migration ("+when+")", "%s: %+v", what, r)
				}
				continue
			}
			if !want[dg][k] {
				c.Fail("wrong migration in the report ("+when+")", "%s: %+v", what, r)
			}
		}
	}
	c.State(m.String() + canon(s))
	c.Case(what)
	return n
}

func runC28(r *Run) {
	base, cleanup := scratch()
	defer cleanup()
	tmp := filepath.Join(base, "tmp")
	must(os.MkdirAll(tmp, 0o755))
	must(os.Setenv("TMPDIR", tmp))
	trees := []Tree{
		{"a.old": body("OLD", "1"), "d/b.txt": body("TXT", "2")},
		{"a.old": body("OLD", "1"), "d/c.old": body("OLD", "1"), "e.old": body("OLD", "3")},
		{"a.old": body("OLD", "4"), "b.mid": body("MID", "5")},
		{"a.old": body("FAIL", "1"), "z.old": body("MUTE", "1"), "x.old": body("EMPTY", "1"), "y.old": body("EMPTY", "2")},
		{"a.old": body("OLD", "1"), "a.mid": body("TXT", "6")},
		{"d/b.txt": body("TXT", "2")},
		{"a.mid": body("MID", "1"), "k~ö.old": body("OLD", "7")},
	}
	var srcs []*srcDir
	for i, t := range trees {
		srcs = append(srcs, newSrcDir(base, i, t))
	}
	var cfgs []migCfg
	special := map[int]bool{} // combinations of settings: quick executes a part of the second updates
	for _, n := range []struct{ s, re, rep string }{
		{"add", `^(.*)\.old$`, "${1}.mid"},
		{"replace", `^(.*)\.old$`, "${1}.mid"},
		{"replace", `^(.+)$`, "${1}"},
		{"folder", `^(.+/)?([^/]+)$`, "${2}.mid"},
		{"folder", `^(.+/)?([^/]+)$`, "${2}"},
		{"add", `^(.+/)?([^/]+)$`, "${1}new_${2}"},
	} {
		for _, stype := range []string{"extension", "path", "area"} {
			for k := 0; k < 64; k++ {
				m := migCfg{noread: k&32 != 0, strategy: n.s, re: n.re, rep: n.rep, stype: stype, sub: k&1 != 0, chain: k&2 != 0, late: k&4 != 0, fsx: k&8 != 0, cleanX: k&16 != 0, compressWith: []string{"gzip", "none", "brotli"}[k%3]}
				if stype == "area" && !m.sub || m.noread && !r.Thorough() && (k&31&(k&31-1) != 0) {
					continue
				}
				if !r.Thorough() && (stype != "extension" && (m.fsx || m.cleanX || m.late) || m.fsx && m.cleanX) {
					continue
				}
				special[len(cfgs)] = k&31&(k&31-1) != 0 && stype != "extension" || k&7 != 0 && k&24 != 0 || m.fsx && m.cleanX
				cfgs = append(cfgs, m)
			}
		}
	}
	r.Extra("configurations", len(cfgs))
	b := r.Batch()
	d0 := NewDisk("root")
	must(migCfg{strategy: "add", stype: "extension", compressWith: "none"}.env(true, nil).Init(d0.FS()))
	s0 := d0.Snap()
	for ci, m := range cfgs {
		areas := []string{""}
		if m.sub {
			areas = append(areas, "meta")
		}
		for i, src := range srcs {
			for _, area := range areas {
				b.Do(fmt.Sprintf("%v %d %s", m, i, area), func(c *C) {
					st := m.update(c, &migSt{snap: s0}, src, mode{true, false}, area)
					if st == nil {
						return
					}
					c.Sample("%v %v: %d versions", m, src.order, len(st.states))
					var rec func(st *migSt, k int)
					rec = func(st *migSt, k int) {
						for j, s2 := range srcs {
							for _, a2 := range areas {
								for _, mo := range allModes {
									if !r.Thorough() && (special[ci] && (ci+i+j)%7 != 0 || !special[ci] && (ci+i+j)%2 != 0 && i != j || a2 != area || mo.echo && (i+j)%2 == 0 || !mo.dedup && (i+j)%3 != 0 || m.noread && (ci+i+j)%3 != 0) || k == 3 && j%3 != 0 {
										continue
									}
									n := m.update(c, st, s2, mo, a2)
									if n != nil && k < Pick(r, 2, 3) {
										rec(n, k+1)
									}
								}
							}
						}
					}
					rec(st, 2)
				})
			}
		}
	}
	b.Wait()
	left := 0
	must(filepath.WalkDir(tmp, func(p string, d fs.DirEntry, err error) error {
		if !d.IsDir() && strings.Contains(d.Name(), "gocfl_") {
			left++
		}
		return err
	}))
	if left > 0 {
		b := r.Batch()
		b.Do("temporary files", func(c *C) { c.Fail("temporary files are left", "%d in the folder for temporary files", left) })
		b.Wait()
	}
}
