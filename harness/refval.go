package main

// An independent, strict reader of OCFL objects (OCFL 1.0 and 1.1), written
// from the specification. It shares no code with the code under test; it is
// the oracle of most properties.

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash"
	"path"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/crypto/blake2b"
)

func refHash(alg string) func() hash.Hash {
	b2 := func(n int) func() hash.Hash {
		return func() hash.Hash { h, _ := blake2b.New(n, nil); return h }
	}
	switch alg {
	case "md5":
		return md5.New
	case "sha1":
		return sha1.New
	case "sha256":
		return sha256.New
	case "sha512":
		return sha512.New
	case "sha512/256":
		return sha512.New512_256
	case "blake2b-160":
		return b2(20)
	case "blake2b-256":
		return b2(32)
	case "blake2b-384":
		return b2(48)
	case "blake2b-512":
		return b2(64)
	}
	return nil
}

func refDigest(alg, data string) string {
	f := refHash(alg)
	if f == nil {
		return ""
	}
	h := f()
	h.Write([]byte(data))
	return hex.EncodeToString(h.Sum(nil))
}

type RefUser struct{ Name, Address string }
type RefVersion struct {
	Created string
	Message *string
	User    *RefUser
	State   map[string][]string
}
type RefInv struct {
	ID, Type, DigestAlgorithm, Head, ContentDirectory string
	Manifest                                          map[string][]string
	Versions                                          map[string]*RefVersion
	Fixity                                            map[string]map[string][]string
	raw                                               map[string]any
}

// RefObj is what the reader found.
type RefObj struct {
	Spec     string // "1.0", "1.1"
	Inv      *RefInv
	Vers     []string            // v1..head in order
	VInv     map[string]*RefInv  // inventories of version directories
	Files    map[string]string   // all files of the object, relative
	Problems []string            // violations of the specification; "? ..." where it is open to interpretation
	Paths    map[string][]string // digest (lower case) -> content paths
}

// Invalid returns the problems which definitely violate the specification.
func (o *RefObj) Invalid() []string {
	var r []string
	for _, p := range o.Problems {
		if !strings.HasPrefix(p, "? ") {
			r = append(r, p)
		}
	}
	return r
}

func (o *RefObj) bad(f string, a ...any) { o.Problems = append(o.Problems, fmt.Sprintf(f, a...)) }

// dupJSON returns object keys that occur twice (encoding/json hides them).
func dupJSON(b []byte) string {
	d := json.NewDecoder(bytes.NewReader(b))
	type lvl struct {
		obj  bool
		keys map[string]bool
		want bool // next string is a key
	}
	var st []lvl
	for {
		t, err := d.Token()
		if err != nil {
			return ""
		}
		top := func() *lvl {
			if len(st) == 0 {
				return nil
			}
			return &st[len(st)-1]
		}
		switch x := t.(type) {
		case json.Delim:
			switch x {
			case '{':
				if l := top(); l != nil && l.obj {
					l.want = true
				}
				st = append(st, lvl{obj: true, keys: map[string]bool{}, want: true})
			case '[':
				if l := top(); l != nil && l.obj {
					l.want = true
				}
				st = append(st, lvl{})
			default:
				st = st[:len(st)-1]
			}
		case string:
			if l := top(); l != nil && l.obj {
				if l.want {
					if l.keys[x] {
						return x
					}
					l.keys[x] = true
					l.want = false
				} else {
					l.want = true
				}
			}
		default:
			if l := top(); l != nil && l.obj {
				l.want = true
			}
		}
	}
}

var verRe = regexp.MustCompile(`^v(0*)([1-9][0-9]*)$`)

// verNum returns the number and the width (0 = unpadded) of a version name.
func verNum(v string) (n, width int, ok bool) {
	m := verRe.FindStringSubmatch(v)
	if m == nil {
		return 0, 0, false
	}
	n, err := strconv.Atoi(m[2])
	if err != nil {
		return 0, 0, false
	}
	if m[1] != "" {
		width = len(v) - 1
	}
	return n, width, true
}

func pathProblem(p string) string {
	if p == "" {
		return "is empty"
	}
	if strings.HasPrefix(p, "/") || strings.HasSuffix(p, "/") {
		return "begins or ends with a slash"
	}
	for _, s := range strings.Split(p, "/") {
		if s == "" || s == "." || s == ".." {
			return "has an empty, . or .. segment"
		}
	}
	return ""
}

// conflicts reports paths occurring twice or being the initial part of
// another path.
func conflicts(ps []string) string {
	seen := map[string]bool{}
	for _, p := range ps {
		if seen[p] {
			return fmt.Sprintf("%q occurs twice", p)
		}
		seen[p] = true
	}
	for _, p := range ps {
		for d := path.Dir(p); d != "." && d != "/"; d = path.Dir(d) {
			if seen[d] {
				return fmt.Sprintf("%q is the initial part of %q", d, p)
			}
		}
	}
	return ""
}

func isHexDigest(alg, d string) bool {
	f := refHash(alg)
	if f == nil {
		return true
	}
	if len(d) != 2*f().Size() {
		return false
	}
	_, err := hex.DecodeString(d)
	return err == nil
}

// stateByPath flattens a state; problems with duplicates are reported by the
// caller.
func (v *RefVersion) byPath() map[string]string {
	r := map[string]string{}
	for d, ps := range v.State {
		for _, p := range ps {
			r[p] = strings.ToLower(d)
		}
	}
	return r
}

func parseStrMap(raw any) (map[string][]string, string) {
	m, ok := raw.(map[string]any)
	if !ok {
		return nil, "is not an object"
	}
	r := map[string][]string{}
	for k, v := range m {
		l, ok := v.([]any)
		if !ok {
			return nil, "value is not an array"
		}
		r[k] = []string{}
		for _, x := range l {
			s, ok := x.(string)
			if !ok {
				return nil, "array element is not a string"
			}
			r[k] = append(r[k], s)
		}
	}
	return r, ""
}

// parseInv parses one inventory strictly; bad is called for each problem.
func parseInv(data string, where string, spec string, bad func(f string, a ...any)) *RefInv {
	if d := dupJSON([]byte(data)); d != "" {
		bad("? %s: duplicate key %q", where, d)
	}
	var raw map[string]any
	if err := json.Unmarshal([]byte(data), &raw); err != nil || raw == nil {
		bad("%s: not a JSON object: %v", where, err)
		return nil
	}
	i := &RefInv{raw: raw, Versions: map[string]*RefVersion{}, Fixity: map[string]map[string][]string{}, Manifest: map[string][]string{}}
	for k := range raw {
		switch k {
		case "id", "type", "digestAlgorithm", "head", "contentDirectory", "manifest", "versions", "fixity":
		default:
			bad("%s: unknown key %q", where, k)
		}
	}
	str := func(k string, must bool) string {
		v, ok := raw[k]
		if !ok {
			if must {
				bad("%s: %s missing", where, k)
			}
			return ""
		}
		if v == nil && !must {
			bad("? %s: %s is null", where, k)
			return ""
		}
		s, ok := v.(string)
		if !ok {
			bad("%s: %s is not a string", where, k)
			return ""
		}
		if must && s == "" {
			bad("? %s: %s is empty", where, k)
		}
		return s
	}
	i.ID = str("id", true)
	i.Type = str("type", true)
	i.DigestAlgorithm = str("digestAlgorithm", true)
	i.Head = str("head", true)
	i.ContentDirectory = str("contentDirectory", false)
	if x, ok := raw["contentDirectory"]; ok && x != nil && i.ContentDirectory == "" {
		bad("? %s: contentDirectory is empty", where)
	}
	if _, ok := raw["contentDirectory"]; ok && (i.ContentDirectory == "." || i.ContentDirectory == ".." || strings.Contains(i.ContentDirectory, "/")) {
		bad("%s: invalid contentDirectory %q", where, i.ContentDirectory)
	}
	if i.ContentDirectory == "" {
		i.ContentDirectory = "content"
	}
	if i.DigestAlgorithm != "sha512" && i.DigestAlgorithm != "sha256" {
		bad("%s: digestAlgorithm %q", where, i.DigestAlgorithm)
	}
	m := regexp.MustCompile(`^https://ocfl\.io/(1\.[01])/spec/#inventory$`).FindStringSubmatch(i.Type)
	if m == nil {
		bad("%s: type %q", where, i.Type)
	} else if m[1] > spec {
		bad("%s: type %q in an object of version %s", where, i.Type, spec)
	}
	digestsOK := func(what, alg string, m map[string][]string) {
		lc := map[string]bool{}
		for d, ps := range m {
			l := strings.ToLower(d)
			if lc[l] {
				q := ""
				if strings.HasPrefix(what, "state") {
					q = "? "
				}
				bad(q+"%s: %s has digest %.16s twice", where, what, l)
			}
			lc[l] = true
			if !isHexDigest(alg, d) {
				bad("? %s: %s key %.20q is not a %s digest", where, what, d, alg)
			}
			for _, p := range ps {
				if x := pathProblem(p); x != "" {
					bad("%s: %s path %q %s", where, what, p, x)
				}
			}
		}
	}
	flat := func(m map[string][]string) []string {
		var l []string
		for _, ps := range m {
			l = append(l, ps...)
		}
		return l
	}
	if v, ok := raw["manifest"]; !ok {
		bad("%s: manifest missing", where)
	} else if mm, e := parseStrMap(v); e != "" {
		bad("%s: manifest %s", where, e)
	} else {
		i.Manifest = mm
		digestsOK("manifest", i.DigestAlgorithm, mm)
		if x := conflicts(flat(mm)); x != "" {
			bad("%s: manifest path %s", where, x)
		}
		for d, ps := range mm {
			if len(ps) == 0 {
				bad("? %s: manifest digest %.16s has no path", where, d)
			}
		}
	}
	lcMan := map[string]bool{}
	exact := map[string]bool{}
	for d := range i.Manifest {
		exact[d] = true
		lcMan[strings.ToLower(d)] = true
	}
	used := map[string]bool{}
	vs, ok := raw["versions"].(map[string]any)
	if !ok || len(vs) == 0 {
		bad("%s: versions missing, empty or not an object", where)
	}
	for vn, v := range vs {
		rv := &RefVersion{State: map[string][]string{}}
		i.Versions[vn] = rv
		vm, ok := v.(map[string]any)
		if !ok {
			bad("%s: version %s is not an object", where, vn)
			continue
		}
		for k := range vm {
			switch k {
			case "created", "message", "user", "state":
			default:
				bad("%s: version %s: unknown key %q", where, vn, k)
			}
		}
		if s, ok := vm["created"].(string); !ok {
			bad("%s: version %s: created missing or not a string", where, vn)
		} else if _, err := time.Parse(time.RFC3339, s); err != nil {
			bad("%s: version %s: created %q", where, vn, s)
		} else {
			rv.Created = s
		}
		if x, ok := vm["message"]; ok {
			if s, ok := x.(string); ok {
				rv.Message = &s
			} else {
				bad(nullQ(x)+"%s: version %s: message is not a string", where, vn)
			}
		}
		if x, ok := vm["user"]; ok {
			um, ok := x.(map[string]any)
			if !ok {
				bad(nullQ(x)+"%s: version %s: user is not an object", where, vn)
			} else {
				n, ok := um["name"].(string)
				if !ok {
					bad("%s: version %s: user without name", where, vn)
				} else if n == "" {
					bad("? %s: version %s: empty user name", where, vn)
				}
				a, has := um["address"]
				as, ok := a.(string)
				if has && !ok {
					bad(nullQ(a)+"%s: version %s: user address is not a string", where, vn)
				}
				rv.User = &RefUser{n, as}
				for k := range um {
					if k != "name" && k != "address" {
						bad("%s: version %s: unknown user key %q", where, vn, k)
					}
				}
			}
		}
		if x, ok := vm["state"]; !ok {
			bad("%s: version %s: state missing", where, vn)
		} else if sm, e := parseStrMap(x); e != "" {
			bad("%s: version %s: state %s", where, vn, e)
		} else {
			rv.State = sm
			digestsOK("state of "+vn, i.DigestAlgorithm, sm)
			if x := conflicts(flat(sm)); x != "" {
				bad("%s: version %s: logical path %s", where, vn, x)
			}
			for d := range sm {
				used[strings.ToLower(d)] = true
				if lcMan[strings.ToLower(d)] && !exact[d] {
					bad("? %s: version %s: state digest %.16s differs in case from the manifest", where, vn, d)
				}
				if !lcMan[strings.ToLower(d)] {
					bad("%s: version %s: state digest %.16s not in manifest", where, vn, d)
				}
			}
		}
	}
	for d := range lcMan {
		if !used[d] {
			q := "" // not part of OCFL 1.0
			if i.Type != "https://ocfl.io/1.1/spec/#inventory" {
				q = "? "
			}
			bad(q+"%s: manifest digest %.16s is used in no version", where, d)
		}
	}
	if x, ok := raw["fixity"]; ok {
		fm, ok := x.(map[string]any)
		if !ok {
			bad(nullQ(x)+"%s: fixity is not an object", where)
		}
		man := map[string]bool{}
		for _, p := range flat(i.Manifest) {
			man[p] = true
		}
		for alg, v := range fm {
			mm, e := parseStrMap(v)
			if e != "" {
				bad("%s: fixity %s %s", where, alg, e)
				continue
			}
			i.Fixity[alg] = mm
			digestsOK("fixity "+alg, alg, mm)
			seen := map[string]bool{}
			for _, p := range flat(mm) {
				if !man[p] {
					bad("? %s: fixity %s: path %q not in manifest", where, alg, p)
				}
				if seen[p] {
					bad("? %s: fixity %s: path %q twice", where, alg, p)
				}
				seen[p] = true
			}
		}
	}
	// version numbering
	if len(i.Versions) > 0 {
		width := -1
		max := 0
		for vn := range i.Versions {
			n, w, ok := verNum(vn)
			if !ok {
				bad("%s: version name %q", where, vn)
				return i
			}
			if width == -1 {
				width = w
			}
			if w != width {
				bad("%s: inconsistent version padding", where)
				return i
			}
			if n > max {
				max = n
			}
		}
		if max != len(i.Versions) {
			bad("%s: versions are not contiguous", where)
		}
		if n, _, ok := verNum(i.Head); !ok || n != max || i.Versions[i.Head] == nil {
			bad("%s: head %q is not the newest version", where, i.Head)
		}
	}
	return i
}

// nullQ marks null values of optional keys as open to interpretation.
func nullQ(x any) string {
	if x == nil {
		return "? "
	}
	return ""
}

// vname formats version n like head.
func vname(head string, n int) string {
	_, w, _ := verNum(head)
	if w == 0 {
		return fmt.Sprintf("v%d", n)
	}
	return fmt.Sprintf("v%0*d", w, n)
}

// ReadObj reads the object stored in s (keys relative to the object root).
func ReadObj(s Snap) *RefObj {
	o := &RefObj{Files: map[string]string{}, VInv: map[string]*RefInv{}, Paths: map[string][]string{}}
	dirs := map[string]bool{}
	nonEmpty := map[string]bool{}
	for k, v := range s {
		if strings.HasSuffix(k, "/") {
			dirs[strings.TrimSuffix(k, "/")] = true
		} else {
			o.Files[k] = v
		}
		for d := path.Dir(strings.TrimSuffix(k, "/")); d != "."; d = path.Dir(d) {
			nonEmpty[d] = true
			dirs[d] = true
		}
	}
	// declaration
	var decl []string
	for f := range o.Files {
		if strings.HasPrefix(f, "0=") {
			decl = append(decl, f)
		}
	}
	if len(decl) != 1 {
		o.bad("declaration files: %q", decl)
	}
	if len(decl) > 0 {
		sort.Strings(decl)
		m := regexp.MustCompile(`^0=ocfl_object_(1\.[01])$`).FindStringSubmatch(decl[0])
		if m == nil {
			o.bad("declaration %q", decl[0])
		} else {
			o.Spec = m[1]
			if c := o.Files[decl[0]]; c != decl[0][2:]+"\n" {
				q := ""
				if c == decl[0][2:]+"\r\n" {
					q = "? "
				}
				o.bad(q+"declaration content %q", c)
			}
		}
	}
	if o.Spec == "" {
		o.Spec = "1.1"
	}
	data, ok := o.Files["inventory.json"]
	if !ok {
		o.bad("root inventory missing")
		return o
	}
	o.Inv = parseInv(data, "inventory", o.Spec, o.bad)
	if o.Inv == nil {
		return o
	}
	side := func(dir string, alg string) {
		data := o.Files[path.Join(dir, "inventory.json")]
		n := path.Join(dir, "inventory.json."+alg)
		sc, ok := o.Files[n]
		if !ok {
			o.bad("sidecar %s missing", n)
			return
		}
		m := regexp.MustCompile(`^([0-9a-fA-F]+)[ \t]+inventory\.json\s*$`).FindStringSubmatch(sc)
		if m == nil {
			o.bad("sidecar %s malformed: %.60q", n, sc)
		} else if !strings.EqualFold(m[1], refDigest(alg, data)) {
			o.bad("sidecar %s does not match", n)
		}
	}
	side("", o.Inv.DigestAlgorithm)
	spec := regexp.MustCompile(`1\.[01]`).FindString(o.Inv.Type)
	if spec != "" && spec != o.Spec {
		o.bad("inventory type %q does not match declaration %s", o.Inv.Type, o.Spec)
	}
	hn, _, ok := verNum(o.Inv.Head)
	if !ok || len(o.Inv.Versions) != hn {
		return o
	}
	for n := 1; n <= hn; n++ {
		o.Vers = append(o.Vers, vname(o.Inv.Head, n))
	}
	// version directories
	known := map[string]bool{"inventory.json": true, "inventory.json." + o.Inv.DigestAlgorithm: true}
	if len(decl) > 0 {
		known[decl[0]] = true
	}
	for f := range o.Files {
		if !strings.Contains(f, "/") && !known[f] {
			o.bad("unexpected file %q in the object root", f)
		}
	}
	isV := map[string]bool{}
	for _, v := range o.Vers {
		isV[v] = true
		if !dirs[v] {
			o.bad("version directory %s missing", v)
		}
	}
	for d := range dirs {
		if strings.Contains(d, "/") {
			continue
		}
		if !isV[d] && d != "extensions" && d != "logs" {
			o.bad("unexpected directory %q in the object root", d)
		}
	}
	for f := range o.Files {
		ps := strings.Split(f, "/")
		if ps[0] == "extensions" && len(ps) == 2 {
			o.bad("file %q in extensions", f)
		}
		if len(ps) == 2 && isV[ps[0]] && ps[1] != "inventory.json" && !strings.HasPrefix(ps[1], "inventory.json.") {
			o.bad("unexpected file %q in version directory", f)
		}
	}
	cd := o.Inv.ContentDirectory
	// version inventories
	specOf := map[string]string{}
	for k, v := range o.Vers {
		data, ok := o.Files[v+"/inventory.json"]
		if !ok {
			for f := range o.Files {
				if strings.HasPrefix(f, v+"/inventory.json.") {
					o.bad("? sidecar %s without inventory", f)
				}
			}
			continue
		}
		vi := parseInv(data, v, o.Spec, o.bad)
		if vi == nil {
			continue
		}
		o.VInv[v] = vi
		for f := range o.Files {
			if strings.HasPrefix(f, v+"/inventory.json.") && f != v+"/inventory.json."+vi.DigestAlgorithm {
				o.bad("unexpected sidecar %s", f)
			}
		}
		side(v, vi.DigestAlgorithm)
		specOf[v] = regexp.MustCompile(`1\.[01]`).FindString(vi.Type)
		if v == o.Inv.Head {
			if data != o.Files["inventory.json"] {
				o.bad("inventory of head %s differs from the root inventory", v)
			}
			continue
		}
		if vi.ID != o.Inv.ID {
			o.bad("%s: id %q", v, vi.ID)
		}
		if vi.ContentDirectory != cd {
			o.bad("%s: contentDirectory %q", v, vi.ContentDirectory)
		} else if _, a := vi.raw["contentDirectory"]; true {
			if _, b := o.Inv.raw["contentDirectory"]; a != b {
				o.bad("? %s: contentDirectory %v", v, vi.raw["contentDirectory"])
			}
		}
		if vi.Head != v {
			o.bad("%s: head %q", v, vi.Head)
			continue
		}
		// every earlier version block must describe the same content
		for _, w := range o.Vers[:k+1] {
			a, b := vi.Versions[w], o.Inv.Versions[w]
			if a == nil || b == nil {
				o.bad("%s: version %s missing", v, w)
				continue
			}
			if vi.DigestAlgorithm == o.Inv.DigestAlgorithm {
				if !reflect.DeepEqual(a.byPath(), b.byPath()) {
					o.bad("%s: state of %s differs from the root inventory", v, w)
				}
			} else {
				// digests differ: compare by content of the files
				ca, cb := o.contentByPath(vi, w), o.contentByPath(o.Inv, w)
				if !reflect.DeepEqual(ca, cb) {
					o.bad("%s: state of %s differs from the root inventory", v, w)
				}
			}
		}
		// manifest: every path must exist (checked below against the root)
		for d, ps := range vi.Manifest {
			for _, p := range ps {
				c, ok := o.Files[p]
				if !ok {
					o.bad("%s: manifest path %q does not exist", v, p)
				} else if !strings.EqualFold(refDigest(vi.DigestAlgorithm, c), d) {
					o.bad("%s: manifest digest of %q is wrong", v, p)
				}
				if seg := strings.SplitN(p, "/", 3); len(seg) == 3 {
					if n, _, ok := verNum(seg[0]); ok && n > k+1 {
						o.bad("? %s: manifest path %q of a later version", v, p)
					}
				}
			}
		}
		o.fixity(v, vi)
		in := map[string]bool{}
		for _, ps := range vi.Manifest {
			for _, p := range ps {
				in[p] = true
			}
		}
		for f := range o.Files {
			seg := strings.SplitN(f, "/", 3)
			if len(seg) == 3 && isV[seg[0]] && seg[1] == cd && !in[f] {
				if n, _, _ := verNum(seg[0]); n <= k+1 {
					o.bad("? %s: content file %q is not in the manifest", v, f)
				}
			}
		}
	}
	last := ""
	for _, v := range o.Vers {
		if s := specOf[v]; s != "" {
			if s < last {
				o.bad("%s: inventory of a lower specification version than its predecessor", v)
			}
			last = s
		}
	}
	// manifest <-> files
	inMan := map[string]bool{}
	for d, ps := range o.Inv.Manifest {
		for _, p := range ps {
			inMan[p] = true
			o.Paths[strings.ToLower(d)] = append(o.Paths[strings.ToLower(d)], p)
			seg := strings.SplitN(p, "/", 3)
			if len(seg) != 3 || !isV[seg[0]] || seg[1] != cd {
				o.bad("? manifest path %q is not below a version's content directory", p)
			}
			c, ok := o.Files[p]
			if !ok {
				o.bad("manifest path %q does not exist", p)
			} else if !strings.EqualFold(refDigest(o.Inv.DigestAlgorithm, c), d) {
				o.bad("manifest digest of %q is wrong", p)
			}
		}
	}
	for f := range o.Files {
		seg := strings.SplitN(f, "/", 3)
		if len(seg) == 3 && isV[seg[0]] && seg[1] == cd && !inMan[f] {
			o.bad("content file %q is not in the manifest", f)
		}
	}
	for d := range dirs {
		seg := strings.SplitN(d, "/", 3)
		if len(seg) >= 2 && isV[seg[0]] && seg[1] == cd && !nonEmpty[d] && len(seg) == 3 {
			o.bad("empty directory %q in content", d)
		}
	}
	o.fixity("inventory", o.Inv)
	return o
}

func (o *RefObj) fixity(where string, i *RefInv) {
	for alg, m := range i.Fixity {
		if refHash(alg) == nil {
			continue
		}
		for d, ps := range m {
			for _, p := range ps {
				if c, ok := o.Files[p]; ok && !strings.EqualFold(refDigest(alg, c), d) {
					// not in the table of the specification, an extension only
					q := ""
					if alg == "sha512/256" {
						q = "? "
					}
					o.bad(q+"%s: fixity %s of %q is wrong", where, alg, p)
				}
			}
		}
	}
}

func (o *RefObj) contentByPath(i *RefInv, v string) map[string]string {
	r := map[string]string{}
	lc := map[string][]string{}
	for d, ps := range i.Manifest {
		lc[strings.ToLower(d)] = ps
	}
	for d, ps := range i.Versions[v].State {
		for _, p := range ps {
			c := "?"
			if m := lc[strings.ToLower(d)]; len(m) > 0 {
				if x, ok := o.Files[m[0]]; ok {
					c = x
				}
			}
			r[p] = c
		}
	}
	return r
}

// Version returns the logical files of version v.
func (o *RefObj) Version(v string) Tree {
	t := Tree{}
	for p, c := range o.contentByPath(o.Inv, v) {
		t[p] = c
	}
	return t
}

// Head returns the logical files of the head version.
func (o *RefObj) HeadTree() Tree { return o.Version(o.Inv.Head) }

// canon is a canonical form of a storage tree: creation times (and what
// depends on them, the sidecars) are normalised.
var createdRe = regexp.MustCompile(`"created":\s*"[^"]*"`)

func canon(s Snap) string {
	ks := make([]string, 0, len(s))
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k)
		b.WriteByte(0)
		base := path.Base(k)
		switch {
		case base == "inventory.json":
			b.WriteString(createdRe.ReplaceAllString(s[k], "C"))
		case strings.HasPrefix(base, "inventory.json."):
			b.WriteString("S")
		default:
			v := s[k]
			if len(v) > 200 {
				v = fmt.Sprintf("%d:%x", len(v), hash64(v))
			}
			b.WriteString(v)
		}
		b.WriteByte(0)
	}
	return b.String()
}
