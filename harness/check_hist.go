package main

import (
	"fmt"
	"strings"
	"time"
)

const histRule = "Breadth-first exploration of every history of updates over the alphabet source trees x {dedup, no dedup} x {contribute, echo} (x areas) up to the depth of each configuration, executed on the real code; states (canonicalised storage trees) are deduplicated. A transition is one complete load/update/close of the real storage root."

var histAssume = []string{
	"the file system behaves like the in-memory stand-in (bound to the operating system's file system by replaying histories on both, traces_validated_against_impl)",
	"small-scope: file names, contents and history length as enumerated; the indexer extension (external programs) is not registered",
}

func init() {
	register(&Check{Prop: "C01", Level: "model_checking", Rule: histRule + " After every update each version is extracted and compared with the model.", Assume: histAssume, Run: func(r *Run) { histories(r, histCfgs(r), oracleC01); sessions(r, histCfgs(r), false) }})
	register(&Check{Prop: "C02", Level: "model_checking", Rule: histRule + " After every update all files of earlier versions and their inventory entries are compared with before.", Assume: histAssume, Run: func(r *Run) { histories(r, histCfgs(r), oracleC02) }})
	register(&Check{Prop: "C03", Level: "model_checking", Rule: histRule + " After every update the object is read by an independent strict OCFL validator and validated by the tool itself.", Assume: histAssume, Run: func(r *Run) { histories(r, histCfgs(r), oracleC03) }})
	register(&Check{Prop: "C07", Level: "model_checking", Rule: histRule, Assume: histAssume, Run: func(r *Run) { histories(r, histCfgs(r), oracleC07) }})
	register(&Check{Prop: "C08", Level: "model_checking", Rule: histRule, Assume: histAssume, Run: func(r *Run) { histories(r, histCfgs(r), oracleC08) }})
	register(&Check{Prop: "C10", Level: "model_checking", Rule: histRule, Assume: histAssume, Run: func(r *Run) { histories(r, histCfgs(r), oracleC10); sessions(r, histCfgs(r), true) }})
}

// opErr reports an unexpected failure of an update.
func opErr(c *C, t *Trans) bool {
	if t.Conflict {
		if t.Err == nil {
			c.Fail("conflicting paths accepted", "%v", t.Op)
		}
		return true
	}
	if t.Err == nil {
		return false
	}
	c.Fail("update fails: "+short(t.Err), "update %v failed: %v", t.Op, t.Err)
	return true
}

func versionName(o *RefObj, k int) string {
	if k < len(o.Vers) {
		return o.Vers[k]
	}
	return fmt.Sprintf("v%d", k+1)
}

func oracleC01(c *C, t *Trans) {
	if opErr(c, t) {
		return
	}
	o := t.Obj()
	ex := func(ver string, want Tree) {
		tgt := NewDisk("t")
		c.Step()
		err := t.Cfg.Env.Extract(t.Disk.FS(), tgt.FS(), "", t.Cfg.ID, ver, false, "full")
		if err != nil {
			c.Fail("extract fails", "extract %q after %v: %v", ver, t.Op, err)
			return
		}
		got := t.Cfg.user(Tree(tgt.Snap().OnlyFiles()))
		if d := sameTree(want, got); d != "" {
			c.Fail("extracted tree differs", "version %q after %v: %s", ver, t.Op, d)
		}
	}
	for k, m := range t.Models {
		ex(versionName(o, k), m)
	}
	head := t.Models[len(t.Models)-1]
	ex("latest", head)
	ex("", head)
	if k := len(t.Models); o.Inv != nil && len(o.Vers) != k {
		c.Fail("number of versions", "%d versions expected, %d found after %v", k, len(o.Vers), t.Op)
	}
}

func metaOf(i *RefInv, v string) string {
	x := i.Versions[v]
	if x == nil {
		return "missing"
	}
	s := x.Created
	if x.Message != nil {
		s += "|m:" + *x.Message
	}
	if x.User != nil {
		s += "|u:" + x.User.Name + "|" + x.User.Address
	}
	return s
}

func oracleC02(c *C, t *Trans) {
	immutable(c, t.Before, t.After, fmt.Sprint(t.Op))
}

// immutable: every committed version of every object in before is unchanged in
// after.
func immutable(c *C, before, after Snap, what string) {
	for p := range findObjs(before) {
		bo, ao := ReadObj(before.Sub(p)), ReadObj(after.Sub(p))
		if bo.Inv == nil {
			continue
		}
		if ao.Inv == nil {
			c.Fail("root inventory lost", "object %s after %s", p, what)
			continue
		}
		for _, v := range bo.Vers {
			for f, data := range bo.Files {
				if strings.HasPrefix(f, v+"/") {
					if d, ok := ao.Files[f]; !ok {
						c.Fail("committed file removed", "%s%s after %s", p, f, what)
					} else if d != data {
						c.Fail("committed file changed", "%s%s after %s", p, f, what)
					}
				}
			}
			for f := range ao.Files {
				if strings.HasPrefix(f, v+"/") {
					if _, ok := bo.Files[f]; !ok {
						c.Fail("file added to a committed version", "%s%s after %s", p, f, what)
					}
				}
			}
			if d := sameTree(bo.Version(v), func() Tree {
				if ao.Inv.Versions[v] == nil {
					return Tree{}
				}
				return ao.Version(v)
			}()); d != "" {
				c.Fail("state of a committed version changed", "%s %s after %s: %s", p, v, what, d)
			}
			if a, b := metaOf(bo.Inv, v), metaOf(ao.Inv, v); a != b {
				c.Fail("metadata of a committed version changed", "%s %s after %s: %s -> %s", p, v, what, a, b)
			}
		}
	}
	// files outside of objects are not touched either
	objs := findObjs(before)
	for k, v := range before {
		in := false
		for p := range objs {
			in = in || strings.HasPrefix(k, p)
		}
		if !in && !strings.HasSuffix(k, "/") {
			if w, ok := after[k]; !ok || w != v {
				c.Fail("storage root file changed", "%s after %s", k, what)
			}
		}
	}
}

func oracleC03(c *C, t *Trans) {
	if opErr(c, t) {
		return
	}
	validObject(c, t.Cfg.Env, t.Disk, t.After, t.Cfg.ID, fmt.Sprint(t.Op))
	o := t.Obj()
	if o.Inv != nil {
		if o.Spec != string(t.Cfg.Env.Version) || o.Inv.ID != t.Cfg.ID || o.Inv.DigestAlgorithm != string(t.Cfg.Env.Digest) {
			c.Fail("identity", "object has version %s id %q digest %s", o.Spec, o.Inv.ID, o.Inv.DigestAlgorithm)
		}
		if !t.Noop {
			if o.Files["inventory.json"] != o.Files[o.Inv.Head+"/inventory.json"] {
				c.Fail("head inventory", "root inventory and %s/inventory.json are not identical copies", o.Inv.Head)
			}
			n := len(t.Models)
			m := metaOf(o.Inv, o.Inv.Head)
			if w := fmt.Sprintf("|m:message %d|u:user %d|mailto:u%d@example.org", n, n, n); !strings.HasSuffix(m, w) {
				c.Fail("version metadata", "want %s, got %s", w, m)
			}
		}
		last := ""
		var lt time.Time
		for _, v := range o.Vers {
			ct, err := time.Parse(time.RFC3339, o.Inv.Versions[v].Created)
			if err == nil && last != "" && ct.Before(lt) {
				c.Fail("creation times", "%s of %s is before the one of %s", ct, v, last)
			}
			if err == nil && (time.Since(ct) > time.Hour || time.Since(ct) < -5*time.Second) {
				c.Fail("creation time is not now", "%s: %s", v, ct)
			}
			last, lt = v, ct
		}
	}
}

func validObject(c *C, e *Env, d *Disk, s Snap, id, what string) {
	p := objPrefix(s, id)
	o := ReadObj(s.Sub(p))
	for _, b := range o.Problems {
		c.Fail("invalid object: "+sigOf(b), "after %s: %s", what, b)
	}
	c.Step()
	es, _, err := e.Validate(d.FS())
	if err != nil {
		c.Fail("validation fails", "after %s: %v", what, err)
	}
	for _, x := range es {
		c.Fail("tool reports "+x[:4], "after %s: %s", what, x)
	}
	if after := d.Snap(); after.Diff(s) != "" {
		c.Fail("validation changes files", "%s", after.Diff(s))
	}
}

// sigOf drops quoted parts and hex from a message.
func sigOf(s string) string {
	var b strings.Builder
	q := false
	for _, r := range s {
		if r == '"' {
			q = !q
			continue
		}
		if q || r >= '0' && r <= '9' {
			continue
		}
		b.WriteRune(r)
	}
	r := b.String()
	if len(r) > 80 {
		r = r[:80]
	}
	return r
}

func oracleC07(c *C, t *Trans) {
	if opErr(c, t) {
		return
	}
	o := t.Obj()
	if o.Inv == nil || o.Inv.Versions[o.Inv.Head] == nil {
		c.Fail("no inventory", "after %v", t.Op)
		return
	}
	head := o.Inv.Versions[o.Inv.Head]
	cnt := map[string]int{}
	for _, ps := range head.State {
		for _, p := range ps {
			cnt[p]++
		}
	}
	for p, n := range cnt {
		if n != 1 {
			c.Fail("path not exactly once", "%q occurs %d times in the state after %v", p, n, t.Op)
		}
	}
	want := t.Models[len(t.Models)-1]
	by := o.HeadTree()
	for k, v := range t.Op.Src {
		if strings.HasSuffix(k, "/") {
			continue
		}
		l := t.Cfg.logical(t.Op.Area, k)
		if g, ok := by[l]; !ok {
			c.Fail("added name lost", "%q missing after %v", l, t.Op)
		} else if g != v {
			c.Fail("added name has other content", "%q after %v", l, t.Op)
		}
	}
	_ = want
	// new content files
	newc := map[string]int{}
	for f, data := range o.Files {
		if strings.Contains(f, "/"+o.Inv.ContentDirectory+"/") && strings.HasPrefix(f, "v") {
			if _, ok := t.Before[t.prefix+f]; !ok {
				newc[data]++
			}
		}
	}
	if t.Op.Dedup {
		held := map[string]bool{}
		for f, data := range t.Before.Sub(t.prefix) {
			if seg := strings.SplitN(f, "/", 3); len(seg) == 3 && !strings.HasSuffix(f, "/") && strings.HasPrefix(f, "v") && seg[1] == o.Inv.ContentDirectory {
				held[data] = true
			}
		}
		for data, n := range newc {
			if n > 1 {
				c.Fail("content stored twice", "%.20q stored %d times by %v", data, n, t.Op)
			}
			if held[data] {
				c.Fail("held content stored again", "%.20q by %v", data, t.Op)
			}
		}
	} else {
		for k, v := range t.Op.Src {
			if strings.HasSuffix(k, "/") {
				continue
			}
			newc[v]--
			if newc[v] < 0 {
				c.Fail("file not stored in the new version", "content %.20q of %q by %v", v, k, t.Op)
			}
			if t.Cfg.Mapped {
				continue
			}
			f := o.Inv.Head + "/" + o.Inv.ContentDirectory + "/" + t.Cfg.logical(t.Op.Area, k)
			if g, ok := o.Files[f]; !ok || g != v {
				c.Fail("file not stored below the new version", "%q (%v) by %v", f, ok, t.Op)
			} else if _, old := t.Before[t.prefix+f]; old {
				c.Fail("file not stored below a new version", "%q by %v", f, t.Op)
			}
		}
	}
}

func oracleC08(c *C, t *Trans) {
	if opErr(c, t) {
		return
	}
	o := t.Obj()
	if o.Inv == nil || o.Inv.Versions[o.Inv.Head] == nil {
		c.Fail("no inventory", "after %v", t.Op)
		return
	}
	got := map[string]string{}
	for k := range t.Cfg.user(o.HeadTree()) {
		got[k] = ""
	}
	want := map[string]string{}
	for k := range t.Models[len(t.Models)-1] {
		want[k] = ""
	}
	if d := sameTree(want, got); d != "" {
		m := "contribute"
		if t.Op.Echo {
			m = "echo"
		}
		c.Fail(m+": wrong set of paths", "after %v: %s", t.Op, d)
	}
}

func oracleC10(c *C, t *Trans) {
	if opErr(c, t) {
		return
	}
	o := t.Obj()
	if t.Noop {
		if t.Modified {
			c.Fail("no-op reported as modification", "%v", t.Op)
		}
		if d := t.Before.Diff(t.After); d != "" {
			c.Fail("no-op changed files", "%v: %s", t.Op, d)
		}
		c.Step()
		es, _, err := t.Cfg.Env.Validate(t.Disk.FS())
		if err != nil || len(es) > 0 {
			c.Fail("not valid after a no-op", "%v: %v %v", t.Op, es, err)
		}
		if t.Disk.Snap().Diff(t.Before) != "" {
			c.Fail("validation changed files", "%v", t.Op)
		}
	} else {
		if !t.Modified {
			c.Fail("modification not reported", "%v", t.Op)
		}
		if o.Inv == nil || len(o.Vers) != len(t.Models) {
			c.Fail("a changing update creates exactly one version", "%v: %d versions, want %d", t.Op, len(o.Vers), len(t.Models))
		}
	}
}
