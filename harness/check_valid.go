package main

// C04, C05, C06: validation.
//
// A writer of its own produces valid objects in every form the specification
// permits. Every object of a base set is changed in every way of a mutation
// catalogue (every file, every node of every inventory); the reference
// validator decides which results are invalid (C04: the tool must report an
// error), which are valid (C05: it must not) and which are open. C06 runs on
// all of them and on wilder ones: no panic, no hang, no silent success.

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
)

func init() {
	asm := []string{"validation is run through the storage root, as the validate command does", "the reference validator (refval.go) is a correct reading of OCFL 1.0 and 1.1; where the specification can be read in two ways only termination is checked"}
	register(&Check{Prop: "C04", Level: "model_checking", Run: runC04, Rule: "every change of the catalogue (each file, each node of each inventory, pairs in thorough) applied to every base object; every result that is invalid by the reference validator must be reported", Assume: asm})
	register(&Check{Prop: "C05", Level: "model_checking", Run: runC05, Rule: "every object of the product of writer options and histories, and every change of the catalogue which leaves the object valid, must be accepted without an error", Assume: asm})
	register(&Check{Prop: "C06", Level: "model_checking", Run: runC06, Rule: "every change of the catalogue, every pair in the bound and every damage of a storage root: validation returns, without panic, and reports something if the object cannot be interpreted", Assume: asm})
}

// WObj describes an object for the writer.
type WObj struct {
	Name    string
	ID      string
	Specs   []string // per version
	Algs    []string // per version
	CD      *string
	Width   int
	States  []Tree
	Fix     []string
	Upper   bool // hex digests in upper case
	NoVInv  int  // 0: all inventories, 1: none, 2: not the first, 3: only the head
	Dedup   bool
	Meta    int    // 0: all, 1: no message, 2: no user, 3: user without address, 4: nothing
	Sep     string // separator and end of the sidecars
	End     string
	Compact bool // JSON without white space
	Dirs    []string
	Extra   Snap
	Created string
	Texts   int // 1: unusual message and user, 2: empty message, address without scheme
}

func (w *WObj) vname(n int) string {
	if w.Width == 0 {
		return fmt.Sprintf("v%d", n)
	}
	return fmt.Sprintf("v%0*d", w.Width, n)
}

func (w *WObj) write() Snap {
	s := Snap{}
	cd := "content"
	if w.CD != nil {
		cd = *w.CD
	}
	hx := func(alg, data string) string {
		d := refDigest(alg, data)
		if w.Upper {
			d = strings.ToUpper(d)
		}
		return d
	}
	files := map[string]string{} // content path -> content
	byContent := map[string][]string{}
	last := w.States[len(w.States)-1]
	_ = last
	var spec string
	for k := range w.States {
		v := w.vname(k + 1)
		spec = w.Specs[min(k, len(w.Specs)-1)]
		alg := w.Algs[min(k, len(w.Algs)-1)]
		var prev Tree
		if k > 0 {
			prev = w.States[k-1]
		}
		for _, p := range sortedKeys(w.States[k]) {
			c := w.States[k][p]
			if pc, ok := prev[p]; ok && pc == c {
				continue
			}
			if len(byContent[c]) > 0 && w.Dedup {
				continue
			}
			cp := v + "/" + cd + "/" + p
			files[cp] = c
			byContent[c] = append(byContent[c], cp)
			s[cp] = c
		}
		inv := J{"id": w.ID, "type": "https://ocfl.io/" + spec + "/spec/#inventory", "digestAlgorithm": alg, "head": v}
		if w.CD != nil {
			inv["contentDirectory"] = cd
		}
		man := J{}
		add := func(m J, d, p string) {
			l, _ := m[d].([]any)
			m[d] = append(l, p)
		}
		for _, p := range sortedKeys(files) {
			add(man, hx(alg, files[p]), p)
		}
		inv["manifest"] = man
		vers := J{}
		for j := 0; j <= k; j++ {
			st := J{}
			for _, p := range sortedKeys(w.States[j]) {
				add(st, hx(alg, w.States[j][p]), p)
			}
			cr := w.Created
			if cr == "" {
				cr = fmt.Sprintf("20%02d-%02d-02T03:04:05Z", 21+j/12, j%12+1)
			}
			vb := J{"created": cr, "state": st}
			if w.Meta != 1 && w.Meta != 4 {
				vb["message"] = fmt.Sprintf("message %d", j+1)
			}
			switch w.Meta {
			case 2, 4:
			case 3:
				vb["user"] = J{"name": "A"}
			default:
				vb["user"] = J{"name": "A", "address": "mailto:a@b.c"}
			}
			if m, ok := vb["message"]; ok && w.Texts > 0 {
				vb["message"] = []string{"", fmt.Sprint(m, "\n\u00e9\u4e2d\"<>&\u2028"), ""}[w.Texts]
			}
			if u, ok := vb["user"].(J); ok && w.Texts > 0 {
				u["name"] = []string{"", "\u00c9mile \"X\" <x>", " "}[w.Texts]
				if u["address"] != nil {
					u["address"] = []string{"", "https://orcid.org/0000-0000-0000-0000", "somewhere %zz"}[w.Texts]
				}
			}
			vers[w.vname(j+1)] = vb
		}
		inv["versions"] = vers
		if len(w.Fix) > 0 {
			fx := J{}
			for _, a := range w.Fix {
				if a == "" {
					continue
				}
				m := J{}
				for _, p := range sortedKeys(files) {
					d := hx(a, files[p])
					if refHash(a) == nil {
						d = "0123"
					}
					add(m, d, p)
				}
				fx[a] = m
			}
			inv["fixity"] = fx
		}
		data := dumpJ(inv)
		if w.Compact {
			b, _ := json.Marshal(inv)
			data = string(b)
		}
		sep, end := w.Sep, w.End
		if sep == "" {
			sep = " "
		}
		head := k == len(w.States)-1
		put := func(dir string) {
			s[dir+"inventory.json"] = data
			s[dir+"inventory.json."+alg] = hx(alg, data) + sep + "inventory.json" + end
		}
		if w.NoVInv == 0 || w.NoVInv == 2 && k > 0 || w.NoVInv == 3 && head {
			put(v + "/")
		} else {
			has := false
			for f := range s {
				has = has || strings.HasPrefix(f, v+"/")
			}
			if !has {
				s[v+"/"] = ""
			}
		}
		if head {
			put("")
		}
	}
	s["0=ocfl_object_"+spec] = "ocfl_object_" + spec + "\n"
	for _, d := range w.Dirs {
		s[d+"/"] = ""
	}
	for k, v := range w.Extra {
		s[k] = v
	}
	return s
}

// the storage root around the object
var valRoot Snap

func valEnv() *Env {
	e := env11("valid", nil)
	return e
}

func rootWith(o Snap) Snap {
	s := Snap{}
	for k, v := range valRoot {
		s[k] = v
	}
	for k, v := range o {
		s["o/"+k] = v
	}
	return s
}

func initValRoot() {
	d := NewDisk("root")
	must(valEnv().Init(d.FS()))
	valRoot = d.Snap()
}

// verdict of the tool on a storage root.
type verdict struct {
	errs []string
	err  error
}

func (v verdict) bad() bool { return v.err != nil || len(v.errs) > 0 }
func (v verdict) String() string {
	if v.err != nil {
		return fmt.Sprintf("%v / %s", v.errs, short(v.err))
	}
	return fmt.Sprintf("%v", v.errs)
}

func toolVerdict(fsys fs.FS) verdict {
	es, _, err := valEnv().Validate(fsys)
	return verdict{es, err}
}

// judgement of one object
const (
	jValid = iota
	jOpen
	jInvalid
)

func judgeRef(o Snap) (int, []string) {
	ro := ReadObj(o)
	if inv := ro.Invalid(); len(inv) > 0 {
		return jInvalid, inv
	}
	if len(ro.Problems) > 0 {
		return jOpen, ro.Problems
	}
	return jValid, nil
}

type mutation struct {
	name string // full description
	sig  string // class, for signatures
	f    func(Snap) Snap
}

func (s Snap) copy() Snap {
	r := make(Snap, len(s))
	for k, v := range s {
		r[k] = v
	}
	return r
}

// kindOf names the role of a file of an object.
func kindOf(p string) string {
	d, b := path.Split(p)
	switch {
	case strings.HasPrefix(b, "0="):
		return "declaration"
	case d == "" && b == "inventory.json":
		return "root inventory"
	case d == "" && strings.HasPrefix(b, "inventory.json."):
		return "root sidecar"
	case strings.Count(p, "/") == 1 && b == "inventory.json":
		return "version inventory"
	case strings.Count(p, "/") == 1 && strings.HasPrefix(b, "inventory.json."):
		return "version sidecar"
	case strings.HasPrefix(p, "extensions/"):
		return "extension file"
	}
	return "content"
}

// fileMutations changes single files and directories.
func fileMutations(o Snap) []mutation {
	var r []mutation
	add := func(name, sig string, f func(Snap) Snap) { r = append(r, mutation{name, sig, f}) }
	var files, dirs []string
	seen := map[string]bool{}
	for _, k := range sortedKeys(o) {
		if !strings.HasSuffix(k, "/") {
			files = append(files, k)
		}
		for d := path.Dir(strings.TrimSuffix(k, "/")); d != "."; d = path.Dir(d) {
			if !seen[d] {
				seen[d] = true
				dirs = append(dirs, d)
			}
		}
	}
	sort.Strings(dirs)
	set := func(p, v string) func(Snap) Snap {
		return func(s Snap) Snap { s[p] = v; return s }
	}
	for _, p := range files {
		k := kindOf(p)
		c := o[p]
		n := len(c)
		flip := func(i int) string { return c[:i] + string(c[i]^1) + c[i+1:] }
		if n > 0 {
			for _, i := range uniq([]int{0, 1, n / 4, n / 2, 3 * n / 4, n - 2, n - 1}) {
				if i >= 0 && i < n {
					add(fmt.Sprintf("flip bit of byte %d of %s", i, p), "changed "+k, set(p, flip(i)))
				}
			}
			for _, i := range uniq([]int{0, 1, n / 2, n - 1}) {
				if i >= 0 && i < n {
					add(fmt.Sprintf("truncate %s to %d", p, i), "truncated "+k, set(p, c[:i]))
				}
			}
		}
		for _, x := range []string{"\n", " ", "x", "\x00", "\xff"} {
			add(fmt.Sprintf("append %q to %s", x, p), "changed "+k, set(p, c+x))
			add(fmt.Sprintf("prepend %q to %s", x, p), "changed "+k, set(p, x+c))
		}
		add("remove "+p, "removed "+k, func(s Snap) Snap {
			delete(s, p)
			for d := path.Dir(p); d != "."; d = path.Dir(d) {
				s[d+"/"] = ""
			}
			return s
		})
		add("remove "+p+" with its empty folders", "removed "+k, func(s Snap) Snap { delete(s, p); return s })
		for _, q := range []string{p + "x", path.Join(path.Dir(p), "x"), path.Join(path.Dir(p), strings.ToUpper(path.Base(p)))} {
			if _, ok := o[q]; ok || q == p {
				continue
			}
			add("rename "+p+" to "+q, "renamed "+k, func(s Snap) Snap { s[q] = s[p]; delete(s, p); return s })
			add("copy "+p+" to "+q, "copied "+k, func(s Snap) Snap { s[q] = s[p]; return s })
		}
		add("replace "+p+" by a directory", "directory instead of "+k, func(s Snap) Snap { delete(s, p); s[p+"/"] = ""; return s })
		for _, q := range files {
			if q != p && o[q] != c {
				add("content of "+q+" in "+p, "changed "+k, set(p, o[q]))
				if q > p && kindOf(q) == k {
					add("swap "+p+" and "+q, "swapped "+k, func(s Snap) Snap { s[p], s[q] = o[q], o[p]; return s })
				}
			}
		}
	}
	for _, d := range append([]string{""}, dirs...) {
		pre := d
		if d != "" {
			pre += "/"
		}
		where := "in " + kindDir(d)
		for _, f := range []string{"extra.txt", "inventory.json.md5", "inventory.json.sha1", "inventory.json.sha256", "inventory.json.sha384", "inventory.json.sha512", "inventory.json", "0=ocfl_object_1.0", "0=ocfl_object_1.1", "0=ocfl_object_2.0", "0=ocfl_1.1", "0=", ".hidden"} {
			if _, ok := o[pre+f]; !ok {
				sg := f
				if strings.HasPrefix(f, "inventory.json.") {
					sg = "sidecar"
				}
				if strings.HasPrefix(f, "0=ocfl_o") {
					sg = "declaration"
				}
				add("add "+pre+f, "added "+sg+" "+where, set(pre+f, "x"))
				if strings.HasPrefix(f, "0=") {
					add("add filled "+pre+f, "added "+sg+" "+where, set(pre+f, strings.TrimPrefix(f, "0=")+"\n"))
				}
			}
		}
		for _, f := range []string{"extra", "content", "logs", "extensions", "v1", "v2", "v9", "v02", "v0", "v", "v1x"} {
			if !seen[pre+f] {
				if _, ok := o[pre+f+"/"]; !ok {
					sg := f
					if f[0] == 'v' {
						sg = "version directory"
					}
					add("add empty directory "+pre+f, "added empty "+sg+" "+where, set(pre+f+"/", ""))
					add("add directory with a file "+pre+f, "added "+sg+" with a file "+where, set(pre+f+"/f", "x"))
					add("add file "+pre+f, "added file "+sg+" "+where, set(pre+f, "x"))
				}
			}
		}
		if d == "" {
			continue
		}
		add("remove directory "+d, "removed "+kindDir(d), func(s Snap) Snap {
			for k := range s {
				if strings.HasPrefix(k, pre) {
					delete(s, k)
				}
			}
			return s
		})
		add("rename directory "+d, "renamed "+kindDir(d), func(s Snap) Snap {
			for k, v := range s {
				if strings.HasPrefix(k, pre) {
					delete(s, k)
					s[d+"x/"+k[len(pre):]] = v
				}
			}
			return s
		})
		add("replace directory "+d+" by a file", "file instead of "+kindDir(d), func(s Snap) Snap {
			for k := range s {
				if strings.HasPrefix(k, pre) {
					delete(s, k)
				}
			}
			s[d] = "x"
			return s
		})
	}
	return r
}

func kindDir(d string) string {
	switch strings.Count(d, "/") {
	case 0:
		if d == "" {
			return "object root"
		}
		if d[0] == 'v' {
			return "version directory"
		}
		return d
	case 1:
		if d[0] == 'v' {
			return "content directory"
		}
	}
	if d[0] == 'v' {
		return "content sub-directory"
	}
	return "sub-directory of " + strings.SplitN(d, "/", 2)[0]
}

func uniq(l []int) []int {
	m := map[int]bool{}
	var r []int
	for _, x := range l {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	return r
}

// ---- inventory mutations -------------------------------------------------

// jmut is one change of a JSON tree.
type jmut struct {
	name, sig string
	f         func(root J)
}

// nodeSig generalises a JSON path.
func nodeSig(p []string) string {
	var r []string
	for i, s := range p {
		switch {
		case i == 1 && p[0] == "versions":
			s = "V"
		case i >= 1 && len(s) >= 4 && isDigestKey(s):
			s = "D"
		case i == 1 && p[0] == "fixity":
			s = "ALG"
		}
		if strings.HasPrefix(s, "#") {
			s = "#"
		}
		r = append(r, s)
	}
	return strings.Join(r, ".")
}

func isDigestKey(s string) bool {
	return len(s) >= 32 && strings.Trim(strings.ToLower(s), "0123456789abcdef") == ""
}

func wrongTypes() []any {
	return []any{nil, true, 0.0, -1.5, "", "x", " ", []any{}, J{}, []any{""}, []any{"x"}, []any{[]any{}}, []any{nil}, []any{1.0}, J{"x": "y"}, J{"x": []any{"y"}}, J{"": []any{}}, J{"x": nil}, J{"x": J{}}, "\u0000", strings.Repeat("a", 300)}
}

// invMutations enumerates changes of the inventory inv.
func invMutations(inv J, full bool) []jmut {
	var r []jmut
	vers := sortedKeys(inv["versions"].(J))
	add := func(name, sig string, f func(root J)) { r = append(r, jmut{name, sig, f}) }
	var walk func(n any, p []string)
	// parent returns the container of path p in root.
	parent := func(root J, p []string) any {
		var n any = root
		for _, s := range p[:len(p)-1] {
			switch x := n.(type) {
			case J:
				n = x[s]
			case []any:
				var i int
				fmt.Sscanf(s, "#%d", &i)
				n = x[i]
			}
		}
		return n
	}
	setAt := func(p []string, v any) func(J) {
		return func(root J) {
			switch x := parent(root, p).(type) {
			case J:
				x[p[len(p)-1]] = deepJ(v)
			case []any:
				var i int
				fmt.Sscanf(p[len(p)-1], "#%d", &i)
				x[i] = deepJ(v)
			}
		}
	}
	walk = func(n any, p []string) {
		name := strings.Join(p, ".")
		sig := nodeSig(p)
		if len(p) > 0 {
			last := p[len(p)-1]
			inArr := strings.HasPrefix(last, "#")
			if !inArr {
				add("delete "+name, "deleted "+sig, func(root J) {
					delete(parent(root, p).(J), last)
				})
			} else {
				// element of an array: remove, duplicate
				pp := p[:len(p)-1]
				add("remove element "+name, "removed "+sig, func(root J) {
					l := parent(root, p).([]any)
					var i int
					fmt.Sscanf(last, "#%d", &i)
					setAt(pp, append(append([]any{}, l[:i]...), l[i+1:]...))(root)
				})
				add("duplicate element "+name, "duplicated "+sig, func(root J) {
					l := parent(root, p).([]any)
					var i int
					fmt.Sscanf(last, "#%d", &i)
					setAt(pp, append(append([]any{}, l...), l[i]))(root)
				})
			}
			for _, w := range wrongTypes() {
				if jsonEq(w, n) {
					continue
				}
				add(fmt.Sprintf("%s = %s", name, mustJSON(w)), fmt.Sprintf("%s set to %.20s", sig, mustJSON(w)), setAt(p, w))
			}
			if s, ok := n.(string); ok {
				var alt []string
				switch {
				case sig == "head":
					alt = append(alt, vers...)
					alt = append(alt, "v0", "v9", "1", "v", "V1", "v01", "v001", "v1 ", " v1", "v1.0", "v-1", "v+1", "v1x", "latest")
				case sig == "type":
					alt = []string{"https://ocfl.io/1.0/spec/#inventory", "https://ocfl.io/1.1/spec/#inventory", "https://ocfl.io/2.0/spec/#inventory", "https://ocfl.io/1.1/spec/", "http://ocfl.io/1.1/spec/#inventory", s + " "}
				case sig == "digestAlgorithm":
					alt = []string{"md5", "sha1", "sha256", "sha512", "SHA512", "sha-512", "sha512 ", "blake2b-512", "sha512/256"}
				case sig == "id":
					alt = []string{s + "x", strings.ToUpper(s), s + " "}
				case sig == "contentDirectory":
					alt = []string{".", "..", "a/b", "/", "content", "cont", "content/", s + "x", "data", "inventory.json"}
				case strings.HasSuffix(sig, ".created"):
					alt = []string{"2021", "2021-01-02", "2021-01-02T03:04:05", "2021-13-02T03:04:05Z", "2021-02-30T03:04:05Z", "2021-01-02 03:04:05Z", "2021-01-02T03:04:05+01:00", "2021-01-02T03:04:05.123456Z", "2021-01-02T03:04Z", "2021-01-02T25:04:05Z", "Thu, 02 Jan 2021 03:04:05 GMT", "2021-01-02T03:04:05Zx"}
				case inArrSig(sig):
					alt = []string{".", "..", "/", "//", "/" + s, s + "/", "./" + s, "../" + s, "x/../" + s, "x//" + s, s + "/x", s + "x", s + " ", strings.ToUpper(s), path.Dir(s), "x", "v1/content/zz", "v9/content/a", "v1", "a\\b", s + "/.", s + "/.."}
					if i := strings.LastIndex(s, "/"); i > 0 {
						alt = append(alt, s[:i]+"/."+s[i:], s[:i]+"/.."+s[i:], s[:i]+"/"+s[i:])
					}
					for _, q := range allPaths(inv, p[0]) {
						if q != s {
							alt = append(alt, q)
						}
					}
				default:
					alt = []string{s + "x", strings.ToUpper(s)}
				}
				done := map[string]bool{s: true}
				for _, a := range alt {
					if !done[a] {
						done[a] = true
						add(fmt.Sprintf("%s = %q", name, a), sig+" changed", setAt(p, a))
					}
				}
			}
		}
		switch x := n.(type) {
		case J:
			for _, k := range sortedKeys(x) {
				kp := append(append([]string{}, p...), k)
				// rename the key
				var alt []string
				alt = append(alt, "", " ", "x", k+"x", strings.ToUpper(k), strings.ToLower(k), " "+k)
				if isDigestKey(k) {
					i := len(k) / 2
					c := "0"
					if k[i] == '0' {
						c = "1"
					}
					alt = append(alt, k[:i]+c+k[i+1:], k[:len(k)-1], k+"0", k[:1], "g"+k[1:], mixCase(k))
				}
				if len(p) == 1 && p[0] == "versions" {
					alt = append(alt, "v0", "v9", "1", "v", "V1", "v01", "v001", "v0"+k[1:], "v00"+k[1:], "v1 ", "v1.0", "v-1", "v+1", "v1x", "v1/", "vv1", "0v1", "v10", "v100", "v99999999999999999999")
				}
				if len(p) == 1 && p[0] == "fixity" {
					alt = append(alt, "md5", "sha1", "sha256", "sha512", "blake2b-160", "blake2b-512", "crc32", "MD5", "sha512/256")
				}
				done := map[string]bool{}
				for _, a := range alt {
					if done[a] {
						continue
					}
					done[a] = true
					if _, ok := x[a]; ok {
						continue
					}
					add(fmt.Sprintf("rename key %s to %q", strings.Join(kp, "."), a), "renamed key "+nodeSig(kp), func(root J) {
						m := parent(root, kp).(J)
						m[a] = m[k]
						delete(m, k)
					})
					add(fmt.Sprintf("copy key %s to %q", strings.Join(kp, "."), a), "copied key "+nodeSig(kp), func(root J) {
						m := parent(root, kp).(J)
						m[a] = deepJ(m[k])
					})
				}
				// swap the values of two keys, move elements
				for _, k2 := range sortedKeys(x) {
					if k2 != k {
						if k2 > k {
							add(fmt.Sprintf("swap %s and %s", strings.Join(kp, "."), k2), "swapped values in "+sig, func(root J) {
								m := parent(root, kp).(J)
								m[k], m[k2] = m[k2], m[k]
							})
						}
						a, ok1 := x[k].([]any)
						b, ok2 := x[k2].([]any)
						if ok1 && ok2 && len(a) > 0 {
							add(fmt.Sprintf("move element of %s to %s", strings.Join(kp, "."), k2), "moved element in "+sig, func(root J) {
								m := parent(root, kp).(J)
								m[k2] = append(append([]any{}, b...), a[0])
								m[k] = a[1:]
								if len(a) == 1 {
									delete(m, k)
								}
							})
							add(fmt.Sprintf("copy element of %s to %s", strings.Join(kp, "."), k2), "copied element in "+sig, func(root J) {
								m := parent(root, kp).(J)
								m[k2] = append(append([]any{}, b...), a[0])
							})
						}
					}
				}
				walk(x[k], kp)
			}
			// additional keys
			nsig := sig
			if nsig == "" {
				nsig = "inventory"
			}
			for _, k := range []string{"zz", ""} {
				for _, v := range []any{"x", []any{"x"}, J{}} {
					add(fmt.Sprintf("add key %q=%s to %s", k, mustJSON(v), name), "added key to "+nsig, func(root J) {
						if len(p) == 0 {
							root[k] = deepJ(v)
						} else {
							parent(root, append(append([]string{}, p...), "x")).(J)[k] = deepJ(v)
						}
					})
				}
			}
			if isDM(p) {
				for _, d := range []string{refDigest("sha512", "new"), refDigest("sha256", "new"), "zz"} {
					for _, v := range [][]any{{}, {"v1/content/new"}, {"new"}} {
						add(fmt.Sprintf("add digest %.8s=%s to %s", d, mustJSON(v), name), "added digest to "+nsig, func(root J) {
							parent(root, append(append([]string{}, p...), "x")).(J)[d] = deepJ(v)
						})
					}
				}
			}
			if len(p) == 1 && p[0] == "versions" {
				for _, v := range []string{"v0", w0(vers), "v99", "x"} {
					add("add version "+v, "added version", func(root J) {
						m := root["versions"].(J)
						m[v] = deepJ(m[vers[0]])
					})
				}
			}
		case []any:
			for i := range x {
				walk(x[i], append(append([]string{}, p...), fmt.Sprintf("#%d", i)))
			}
			for _, v := range []any{"new", "", nil, "v1/content/new"} {
				add(fmt.Sprintf("append %v to %s", v, name), "added element to "+sig, func(root J) {
					l := append([]any{}, n.([]any)...)
					setAt(p, append(l, v))(root)
				})
			}
		}
	}
	walk(inv, nil)
	if _, ok := inv["contentDirectory"]; !ok {
		for _, v := range []string{"content", "cont", ".", "..", "a/b", ""} {
			add("add contentDirectory "+v, "added contentDirectory", func(root J) { root["contentDirectory"] = v })
		}
	}
	if _, ok := inv["fixity"]; !ok {
		for _, v := range wrongTypes() {
			add(fmt.Sprintf("add fixity %s", mustJSON(v)), fmt.Sprintf("added fixity %.20s", mustJSON(v)), func(root J) { root["fixity"] = v })
			add(fmt.Sprintf("add fixity md5 %s", mustJSON(v)), fmt.Sprintf("added fixity md5 %.20s", mustJSON(v)), func(root J) { root["fixity"] = J{"md5": v} })
		}
	}
	return r
}

func w0(vers []string) string { return vers[len(vers)-1] + "1" }

func mixCase(s string) string {
	for i, c := range s {
		if c >= 'a' && c <= 'f' {
			return s[:i] + strings.ToUpper(s[i:i+1]) + s[i+1:]
		}
		if c >= 'A' && c <= 'F' {
			return s[:i] + strings.ToLower(s[i:i+1]) + s[i+1:]
		}
	}
	return s
}

func jsonEq(a, b any) bool { return string(mustJSON(a)) == string(mustJSON(b)) }

func isDM(p []string) bool {
	return len(p) == 1 && p[0] == "manifest" || len(p) == 2 && p[0] == "fixity" || len(p) == 3 && p[2] == "state"
}
func inArrSig(s string) bool { return strings.HasSuffix(s, ".#") }

func allPaths(inv J, block string) []string {
	var r []string
	m, _ := inv["manifest"].(J)
	if block == "versions" {
		for _, v := range inv["versions"].(J) {
			if st, ok := v.(J)["state"].(J); ok {
				for _, l := range st {
					for _, p := range l.([]any) {
						r = append(r, p.(string))
					}
				}
			}
		}
	} else {
		for _, l := range m {
			for _, p := range l.([]any) {
				r = append(r, p.(string))
			}
		}
	}
	sort.Strings(r)
	return r
}

// rawMutations changes the text of an inventory.
func rawMutations(data string) []mutation {
	var r []mutation
	add := func(n string, d string) {
		r = append(r, mutation{n, "inventory text: " + n, func(Snap) Snap { return Snap{"": d} }})
	}
	add("empty", "")
	add("null", "null")
	add("array", "[]")
	add("array of inventory", "["+data+"]")
	add("empty object", "{}")
	add("string", `"x"`)
	add("number", "1")
	add("two documents", data+data)
	add("trailing garbage", data+"x")
	add("trailing brace", data+"}")
	add("truncated", data[:len(data)-1])
	add("half", data[:len(data)/2])
	add("byte order mark", "\xef\xbb\xbf"+data)
	add("utf16", "\xff\xfe"+data)
	add("invalid utf8", strings.Replace(data, `"id": "`, "\"id\": \"\xff", 1))
	add("comment", "// x\n"+data)
	add("trailing comma", strings.Replace(data, "\n}", ",\n}", 1))
	add("duplicate head", strings.Replace(data, "{", `{"head":"v1",`, 1))
	add("duplicate manifest", strings.Replace(data, "{", `{"manifest":{},`, 1))
	add("key case", strings.Replace(data, `"id"`, `"ID"`, 1))
	add("key case manifest", strings.Replace(data, `"manifest"`, `"Manifest"`, 1))
	add("deep", strings.Replace(data, "{", `{"x":`+strings.Repeat("[", 2000)+strings.Repeat("]", 2000)+`,`, 1))
	add("too deep", strings.Repeat("[", 20000)+strings.Repeat("]", 20000))
	add("huge number", strings.Replace(data, "{", `{"x":1e999999,`, 1))
	add("nul", data+"\x00")
	return r
}

// invTargets names the places a changed inventory is written to.
type target struct {
	name string
	dirs []string // of the object: "" root, "v1/" ...
	side bool
}

func objMutations(o Snap) []mutation {
	r := fileMutations(o)
	ro := ReadObj(o)
	head := ro.Inv.Head
	var ts []target
	hasHead := o[head+"/inventory.json"] != ""
	if hasHead {
		ts = append(ts, target{"root and head", []string{"", head + "/"}, true})
	} else {
		ts = append(ts, target{"root", []string{""}, true})
	}
	for _, v := range ro.Vers {
		if v != head && o[v+"/inventory.json"] != "" {
			ts = append(ts, target{"version inventory", []string{v + "/"}, true})
		}
	}
	if hasHead {
		ts = append(ts, target{"root only", []string{""}, true}, target{"head only", []string{head + "/"}, true})
	}
	for _, t := range ts {
		dir := t.dirs[0]
		data := o[dir+"inventory.json"]
		inv := parseJ(data)
		for _, m := range invMutations(inv, true) {
			r = append(r, mutation{t.name + " " + t.dirs[0] + ": " + m.name, t.name + ": " + m.sig, func(s Snap) Snap {
				j, err := parseJE(s[dir+"inventory.json"]) // that of the base or of the first change
				if err != nil || guard(func() error { m.f(j); return nil }) != nil {
					return nil
				}
				for _, d := range t.dirs {
					old, _ := inv["digestAlgorithm"].(string)
					delete(s, d+"inventory.json."+old)
					putInv(s, d, j)
				}
				return s
			}})
		}
		for _, m := range rawMutations(data) {
			alg, _ := inv["digestAlgorithm"].(string)
			r = append(r, mutation{t.name + " " + t.dirs[0] + ": " + m.name, t.name + ": " + m.sig, func(s Snap) Snap {
				nd := m.f(nil)[""]
				for _, d := range t.dirs {
					putInvRaw(s, d, nd, alg)
				}
				return s
			}})
		}
	}
	// sidecars
	for _, f := range sortedKeys(o) {
		if k := kindOf(f); k != "root sidecar" && k != "version sidecar" {
			continue
		}
		k := kindOf(f)
		d := strings.Fields(o[f])[0]
		for _, x := range []string{"", d, d + " ", d + "inventory.json", d + "  inventory.json", d + "\tinventory.json\n", d + " \t inventory.json \r\n", " " + d + " inventory.json", d + " inventory.jsonx", d + " *inventory.json", d + " ./inventory.json", d + " inventory_json", d + " x/inventory.json", "inventory.json " + d, strings.ToUpper(d) + " inventory.json", strings.ToLower(d) + " inventory.json", d[1:] + " inventory.json", d + "0 inventory.json", "0" + d[1:] + " inventory.json", "g" + d[1:] + " inventory.json", d + " inventory.json\nx", d + " inventory.json\n" + d + " inventory.json", refDigest("md5", o[path.Dir(f)+"/inventory.json"]) + " inventory.json"} {
			if x == o[f] {
				continue
			}
			r = append(r, mutation{fmt.Sprintf("%s = %q", f, x), k + " changed", func(s Snap) Snap { s[f] = x; return s }})
		}
		for _, a := range []string{"md5", "sha1", "sha256", "sha512", "sha384", "SHA512", ""} {
			g := f[:strings.LastIndex(f, ".")+1] + a
			if g == f {
				continue
			}
			r = append(r, mutation{"sidecar " + f + " as " + g, k + " of another algorithm", func(s Snap) Snap {
				delete(s, f)
				inv := path.Join(path.Dir(f), "inventory.json")
				s[g] = refDigest(a, s[inv]) + " inventory.json"
				return s
			}})
		}
	}
	return r
}

// ---- base objects --------------------------------------------------------

func sp(s string) *string { return &s }

// bases are the objects the mutations start from.
func bases(r *Run) []*WObj {
	t1 := Tree{"a": "A", "d/b": "B"}
	t2 := Tree{"a": "A2", "d/b": "B", "c": "A"}
	t3 := Tree{"c": "A", "e": "B", "f": ""}
	l := []*WObj{
		{Name: "one", ID: "o", Specs: []string{"1.1"}, Algs: []string{"sha512"}, States: []Tree{t1}},
		{Name: "two", ID: "o", Specs: []string{"1.1"}, Algs: []string{"sha512"}, States: []Tree{t1, t2}, Dedup: true},
		{Name: "three", ID: "o", Specs: []string{"1.1"}, Algs: []string{"sha512"}, States: []Tree{t1, t2, t3}, Dedup: true, Fix: []string{"md5"}, CD: sp("data")},
		{Name: "old", ID: "o", Specs: []string{"1.0"}, Algs: []string{"sha256"}, States: []Tree{t1, t2}, Fix: []string{"sha1", "md5"}},
		{Name: "padded", ID: "o", Specs: []string{"1.1"}, Algs: []string{"sha512"}, States: []Tree{t1, t2}, Width: 3, Dirs: []string{"extensions/foo", "logs"}},
		{Name: "upgraded", ID: "o", Specs: []string{"1.0", "1.1"}, Algs: []string{"sha256", "sha512"}, States: []Tree{t1, t2}, Meta: 4},
		{Name: "bare", ID: "o", Specs: []string{"1.1"}, Algs: []string{"sha512"}, States: []Tree{t1, t2}, NoVInv: 1, Upper: true},
		{Name: "empty", ID: "o", Specs: []string{"1.1"}, Algs: []string{"sha512"}, States: []Tree{{}, {"a": "A"}, {}}, Dedup: true},
	}
	return l
}

// tenVersions is an object with more than nine versions.
func tenVersions() *WObj {
	w := &WObj{Name: "ten", ID: "o", Specs: []string{"1.1"}, Algs: []string{"sha512"}, Dedup: true}
	for i := 0; i < 11; i++ {
		w.States = append(w.States, Tree{"a": fmt.Sprint(i), "b": "B"})
	}
	return w
}

func applyM(base Snap, m mutation) Snap { return m.f(base.copy()) }

// valSpace runs f on every mutated object of the space.
// only lists the base objects which are changed (all if empty).
func valSpace(r *Run, only string, f func(c *C, base string, name, sig string, o Snap)) {
	initValRoot()
	b := r.Batch()
	for _, w := range append(bases(r), tenVersions()) {
		if only != "" && !strings.Contains(" "+only+" ", " "+w.Name+" ") {
			continue
		}
		base := w.write()
		if k, p := judgeRef(base); k != jValid {
			panic(fmt.Sprint("base ", w.Name, p))
		}
		var ms []mutation
		if w.Name == "ten" {
			ms = fileMutations(base)
		} else {
			ms = objMutations(base)
		}
		for i := 0; i < len(ms); i += 100 {
			part := ms[i:min(i+100, len(ms))]
			b.Do(fmt.Sprintf("%s mutations %05d", w.Name, i), func(c *C) {
				for _, m := range part {
					o := applyM(base, m)
					c.State(w.Name + m.name)
					f(c, w.Name, m.name, m.sig, o)
				}
			})
		}
	}
	if r.Thorough() {
		// all pairs of changes of small objects
		for _, w := range []*WObj{
			{Name: "tiny", ID: "o", Specs: []string{"1.1"}, Algs: []string{"sha512"}, States: []Tree{{"a": "A"}}},
		} {
			base := w.write()
			var ms []mutation
			for _, m := range objMutations(base) {
				// the deeply nested ones are slow
				if !strings.Contains(m.name, "deep") && !strings.HasPrefix(m.name, "root only") && !strings.HasPrefix(m.name, "head only") {
					ms = append(ms, m)
				}
			}
			for i, m1 := range ms {
				b.Do(fmt.Sprintf("%s pairs %05d", w.Name, i), func(c *C) {
					for _, m2 := range ms[i+1:] {
						o := m1.f(base.copy())
						if o == nil {
							return
						}
						if o = m2.f(o); o == nil || !consistentTree(o) {
							continue
						}
						f(c, w.Name, m1.name+" and "+m2.name, m1.sig+" and "+m2.sig, o)
						c.State(w.Name + m1.name + m2.name)
					}
				})
			}
		}
	}
	b.Wait()
}

func (c *C) panics(v verdict, name, sig string) bool {
	if isPanic(v.err) {
		_, at, _ := strings.Cut(v.err.Error(), " at ")
		c.Fail("panic at "+at, "%s: %s", name, short(v.err))
		return true
	}
	return false
}

func runC04(r *Run) {
	valSpace(r, "", func(c *C, base, name, sig string, o Snap) {
		k, why := judgeRef(o)
		if k != jInvalid {
			return
		}
		v := toolVerdict(FromSnap("w", rootWith(o)).FS())
		c.Step()
		c.Case(base + name)
		if c.panics(v, base+": "+name, sig) {
			return
		}
		if !v.bad() {
			c.Fail("not reported: "+sig, "%s: %s: %v", base, name, why)
		}
	})
}
