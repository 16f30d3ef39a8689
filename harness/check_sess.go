package main

// Several updates of one opened object: the result has to be the same as with
// opening the object for every update.

import (
	"fmt"

	"github.com/je4/gocfl/v2/pkg/ocfl"
)

// sessions executes every sequence of 2 (thorough 3) updates in one session
// (closing once or after each update), judged by judge against the storage the
// same sequence has with reopening.
func sessions(r *Run, cfgs []*HCfg, onlyNoop bool) {
	b := r.Batch()
	for _, cfg := range cfgs {
		if len(cfg.Ops) > 40 && !r.Thorough() {
			continue
		}
		base := NewDisk("root")
		var models []Tree
		if cfg.Pre != nil {
			base, models = cfg.Pre()
		} else {
			must(cfg.Env.Init(base.FS()))
		}
		depth := 2
		if r.Thorough() && len(cfg.Ops) <= 20 {
			depth = 3
		}
		for _, first := range cfg.Ops {
			b.Do(cfg.Name+"|session "+first.String(), func(c *C) {
				var rec func(ops []HOp, models []Tree, d *Disk)
				rec = func(ops []HOp, models []Tree, d *Disk) {
					for _, op := range cfg.Ops {
						if len(ops) == 0 {
							op = first
						}
						next, noop := cfg.expect(models, op)
						if conflicts(next[len(next)-1].names()) == "" {
							n := d.Clone()
							_, err := cfg.Env.Do(n.FS(), cfg.add(op, len(models)+1))
							if err != nil {
								return // other checks
							}
							all := append(append([]HOp{}, ops...), op)
							if len(all) > 1 && (noop || !onlyNoop) {
								cfg.session(c, base, all, n.Snap())
							}
							if len(all) < depth {
								rec(all, next, n)
							}
						}
						if len(ops) == 0 {
							return
						}
					}
				}
				rec(nil, models, base)
			})
		}
	}
	b.Wait()
}

func (cfg *HCfg) session(c *C, base *Disk, all []HOp, want Snap) {
	for _, close := range []bool{false, true} {
		what := fmt.Sprintf("%s: %v in one session (closing after each: %v)", cfg.Name, all, close)
		d := base.Clone()
		c.Step()
		err := guard(func() error {
			sr, f, _, err := cfg.Env.Load(d.FS())
			if err != nil {
				return err
			}
			o, err := cfg.Env.Open(sr, f, cfg.ID)
			if err != nil {
				return err
			}
			for i, op := range all {
				if err := session1(o, cfg.add(op, i+1)); err != nil {
					return err
				}
				if close {
					if err := o.Close(); err != nil {
						return err
					}
				}
			}
			return o.Close()
		})
		if err != nil {
			c.Fail("session fails", "%s: %v", what, err)
			continue
		}
		got := d.Snap()
		c.State(cfg.Name + canon(got))
		a, b := ReadObj(got.Sub(objPrefix(got, cfg.ID))), ReadObj(want.Sub(objPrefix(want, cfg.ID)))
		if x := a.Invalid(); len(x) > 0 {
			c.Fail("invalid object after a session", "%s: %q", what, x)
			continue
		}
		if len(a.Vers) != len(b.Vers) {
			c.Fail("wrong number of versions after a session", "%s: %d instead of %d", what, len(a.Vers), len(b.Vers))
			continue
		}
		for _, v := range b.Vers {
			if x := sameTree(stateOf(b, v), stateOf(a, v)); x != "" {
				c.Fail("wrong state after a session", "%s: %s: %s", what, v, x)
			}
		}
		gf, wf := got.OnlyFiles(), want.OnlyFiles()
		if x := sameTree(namesOnly(wf), namesOnly(gf)); x != "" {
			c.Fail("wrong files after a session", "%s: %s", what, x)
		}
		c.Case(what)
	}
}

func namesOnly(s Snap) Tree {
	t := Tree{}
	for k := range s {
		t[k] = ""
	}
	return t
}

func session1(o ocfl.Object, a Add) error {
	vfs, err := o.StartUpdate(a.Src, a.Msg, a.User, a.Addr, a.Echo)
	if err != nil {
		return err
	}
	if err := o.AddFolder(a.Src, vfs, a.Dedup, a.Area); err != nil {
		return err
	}
	return o.EndUpdate()
}
