package main

// C29: METS and PREMIS files describe the object.

import (
	"encoding/xml"
	"fmt"
	"path"
	"regexp"
	"slices"
	"sort"
	"strings"

	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/utils/v2/pkg/checksum"
)

func init() {
	register(&Check{Prop: "C29", Level: "model_checking", Run: runC29,
		Rule:   "every configuration (place of the METS file, areas, digest algorithm, other extensions, descriptive metadata) x every sequence of up to 2 (thorough 3) updates (trees with awkward names, equal contents, schemas; modes; areas); after every update the METS and PREMIS files are parsed and compared with the inventory, the object is validated and the user's files compared with a model",
		Assume: []string{"the METS file of a version need not describe itself and what is written together with it (PREMIS file, schemas, README.md)", "the location of the PREMIS file is relative to the object, the content folder of the version or the METS file"}})
}

// xel is an XML element.
type xel struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Kids    []*xel     `xml:",any"`
	Text    string     `xml:",chardata"`
}

func (e *xel) attr(n string) string {
	for _, a := range e.Attrs {
		if a.Name.Local == n {
			return a.Value
		}
	}
	return ""
}
func (e *xel) all(n string) (r []*xel) {
	for _, k := range e.Kids {
		if k.XMLName.Local == n {
			r = append(r, k)
		}
		r = append(r, k.all(n)...)
	}
	return
}
func (e *xel) one(n string) *xel {
	for _, k := range e.Kids {
		if k.XMLName.Local == n {
			return k
		}
	}
	return &xel{}
}

type metsCfg struct {
	stype, sname, sub string // sub: "" or the path of the content area
	meta              string // path of the metadata area
	digest            Alg
	names             [2]string
	prim              string
	others            bool // indexer, file system metadata, digest algorithms
}

func (m metsCfg) String() string {
	return fmt.Sprintf("%s/%s sub=%s,%s %s %v primary=%q others=%v", m.stype, m.sname, m.sub, m.meta, m.digest, m.names, m.prim, m.others)
}

func (m metsCfg) env() *Env {
	x := []map[string]string{digExt,
		extCfg(extension.METSName, "storageType", jstr(m.stype), "storageName", jstr(m.sname), "metsFile", jstr(m.names[0]), "premisFile", jstr(m.names[1]), "primaryDescriptiveMetadata", jstr(m.prim)),
	}
	if m.sub != "" {
		x = append(x, contentExt("content", m.sub, "metadata", m.meta))
	}
	if m.others {
		x = append(x, extCfg(extension.IndexerName, "storageType", `"extension"`, "storageName", `"metadata"`, "compress", `"none"`, "actions", `["siegfried","xml"]`),
			extCfg(extension.FilesystemName, "folders", `""`, "storageType", `"extension"`, "storageName", `"metadata"`, "compress", `"gzip"`))
	}
	e := env11("mets", []Alg{checksum.DigestMD5}, x...)
	e.Digest = m.digest
	if m.others {
		e.Indexer = fakeIndexer(func(name, content string) string { return "x-fmt/111" })
	}
	return e
}

// prefix of an area
func (m metsCfg) prefix(area string) string {
	if m.sub == "" {
		return ""
	}
	if area == "metadata" {
		return m.meta
	}
	return m.sub
}

// primary is the logical path of the descriptive metadata: type:path (in the
// content area) or type:area:path.
func (m metsCfg) primary() string {
	parts := strings.Split(m.prim, ":")
	area := "content"
	if len(parts) == 3 {
		area = parts[1]
	}
	return path.Join(m.prefix(area), parts[len(parts)-1])
}

// file is where a METS or PREMIS file is expected: the logical path, or a
// file below extensions.
func (m metsCfg) file(n, head string) (logical, ext string) {
	switch m.stype {
	case "area":
		return path.Join(m.prefix("metadata"), n), ""
	case "path":
		return path.Join(m.prefix("content"), m.sname, n), ""
	}
	return "", path.Join("extensions", extension.METSName, m.sname, strings.ReplaceAll(n, "%s", head))
}

// own reports whether the extensions write the logical path.
func (m metsCfg) own(p string) bool {
	area := "content"
	if m.stype == "area" {
		area = "metadata"
	}
	for _, n := range []string{"schemas/mets.xsd", "schemas/premis.xsd", "schemas/xlink.xsd"} {
		if m.stype != "extension" && p == path.Join(m.prefix(area), n) {
			return true
		}
	}
	for _, n := range m.names {
		if l, _ := m.file(n, ""); l == p {
			return true
		}
	}
	return m.sub != "" && p == "README.md"
}

type metsOp struct {
	src  Tree
	area string
	m    mode
}

func (o metsOp) String() string { return fmt.Sprintf("%q%v%v", o.area, o.src, o.m) }

type metsSt struct {
	snap Snap
	user Tree
	ops  []metsOp
}

var checksumTypes = map[string]string{"sha512": "SHA-512", "sha256": "SHA-256", "md5": "MD5", "sha1": "SHA-1"}

func (m metsCfg) update(c *C, st *metsSt, op metsOp) *metsSt {
	what := fmt.Sprintf("%v: %v then %v", m, st.ops, op)
	e := m.env()
	d := FromSnap("m", st.snap)
	c.Step()
	modified, err := e.Do(d.FS(), Add{ID: "o&1", Msg: "a <message> & \"more\"", User: "u <x>", Addr: "mailto:u&v@x", Src: op.src.FS(), Area: op.area, Dedup: op.m.dedup, Echo: op.m.echo})
	// model
	pre := m.prefix(op.area)
	user := st.user.Clone()
	if op.m.echo {
		for p := range user {
			if pre == "" || strings.HasPrefix(p, pre+"/") {
				delete(user, p)
			}
		}
	}
	for p, x := range op.src {
		user[path.Join(pre, p)] = x
	}
	if m.prim != "" {
		if _, ok := user[m.primary()]; !ok {
			if modified && err == nil && sameTree(user, st.user) != "" {
				c.Fail("primary", "%s: no error though the descriptive metadata are missing", what)
			}
			return nil
		}
	}
	if err != nil {
		c.Fail("update "+short(err), "%s: %v", what, err)
		return nil
	}
	if es := d.Escaped(); len(es) > 0 {
		c.Fail("escaped", "%s: %v", what, es)
		return nil
	}
	snap := d.Snap()
	pf := objPrefix(snap, "o&1")
	if pf == "" {
		c.Fail("object", "%s: no object", what)
		return nil
	}
	o := ReadObj(snap.Sub(pf))
	if p := o.Invalid(); len(p) > 0 {
		c.Fail("invalid", "%s: %v", what, p)
		return nil
	}
	if es, _, err := e.Validate(FromSnap("m", snap).FS()); err != nil || len(es) > 0 {
		c.Fail("validation", "%s: %v %v", what, es, err)
	}
	got := Tree{}
	for p, x := range o.HeadTree() {
		if !m.own(p) {
			got[p] = x
		}
	}
	if df := sameTree(user, got); df != "" {
		c.Fail("files", "%s: %s", what, df)
		return nil
	}
	if modified {
		for _, p := range m.problems(o) {
			c.Fail(sigMets(p), "%s: %s", what, p)
		}
	} else if canon(snap) != canon(st.snap) {
		c.Fail("no-op", "%s: storage differs though the object is not modified", what)
	}
	c.Case(what)
	c.State(canon(snap))
	c.Sample(what)
	return &metsSt{snap, user, append(append([]metsOp{}, st.ops...), op)}
}

var metsSig = regexp.MustCompile(`^[a-z ]+`)

func sigMets(p string) string { return metsSig.FindString(p) }

func (m metsCfg) problems(o *RefObj) (r []string) {
	bad := func(f string, a ...any) { r = append(r, fmt.Sprintf(f, a...)) }
	head := o.Inv.Head
	state := o.Inv.Versions[head].byPath()
	alg := string(m.digest)
	read := func(n string) (string, *xel) {
		l, x := m.file(n, head)
		if l != "" {
			dg, ok := state[l]
			if !ok {
				bad("missing: no file %q in the state", l)
				return "", nil
			}
			// a file of this version, not an old one
			x = ""
			for _, p := range o.Paths[dg] {
				if strings.HasPrefix(p, head+"/") {
					x = p
				}
			}
			if x == "" {
				bad("old: %q is stored in %v", l, o.Paths[dg])
				return "", nil
			}
		}
		data, ok := o.Files[x]
		if !ok {
			bad("missing: no file %q", x)
			return "", nil
		}
		e := &xel{}
		if err := xml.Unmarshal([]byte(data), e); err != nil {
			bad("xml: %q cannot be parsed: %v", x, err)
			return "", nil
		}
		return data, e
	}
	_, mets := read(m.names[0])
	premisData, premis := read(m.names[1])
	if mets == nil || premis == nil {
		return
	}
	if mets.XMLName.Local != "mets" || premis.XMLName.Local != "premis" {
		bad("root element: %v, %v", mets.XMLName, premis.XMLName)
		return
	}
	if mets.attr("OBJID") != o.Inv.ID {
		bad("objid: OBJID %q", mets.attr("OBJID"))
	}
	if l := mets.attr("LABEL"); !strings.Contains(l, "version "+head+" ") || !strings.Contains(l, *o.Inv.Versions[head].Message) {
		bad("label: LABEL %q", l)
	}

	// ids
	ids := map[string]int{}
	var walk func(e *xel)
	walk = func(e *xel) {
		if id := e.attr("ID"); id != "" {
			ids[id]++
		}
		for _, k := range e.Kids {
			walk(k)
		}
	}
	walk(mets)
	for id, n := range ids {
		if n > 1 {
			bad("duplicate id: ID %q is used %d times", regexp.MustCompile(`[0-9a-f]{8}-[0-9a-f-]+`).ReplaceAllString(id, "…"), n)
		}
	}
	for _, f := range mets.all("fptr") {
		if ids[f.attr("FILEID")] == 0 {
			bad("dangling: FILEID of the structure refers to nothing")
		}
	}

	// references
	type entry struct {
		el       *xel
		internal []string
		external []string
	}
	loc := func(en *entry, l *xel, what string) {
		h := l.attr("href")
		switch {
		case l.attr("LOCTYPE") == "URL":
			en.external = append(en.external, h)
		case l.attr("LOCTYPE") == "OTHER" && l.attr("OTHERLOCTYPE") == "URL:internal":
			en.internal = append(en.internal, h)
		default:
			bad("location: type %q %q in %s", l.attr("LOCTYPE"), l.attr("OTHERLOCTYPE"), what)
		}
	}
	sum := func(el *xel, dg, p string) {
		if !strings.EqualFold(el.attr("CHECKSUM"), dg) {
			bad("checksum: %q of %q instead of %q", el.attr("CHECKSUM"), p, dg)
		}
		if el.attr("CHECKSUMTYPE") != checksumTypes[alg] {
			bad("checksum type: %q of %q", el.attr("CHECKSUMTYPE"), p)
		}
		if s := el.attr("SIZE"); s != "" && s != "0" {
			if c := o.HeadTree()[p]; s != fmt.Sprint(len(c)) {
				bad("size: %s of %q", s, p)
			}
		}
	}
	seen := map[string]int{}
	internals := func(in []string, p string) {
		want := o.Paths[state[p]]
		in = slices.Clone(in)
		want = slices.Clone(want)
		sort.Strings(in)
		sort.Strings(want)
		if !slices.Equal(in, want) {
			bad("internal: locations %q of %q instead of %q", in, p, want)
		}
	}
	fileIDs := map[string]string{}
	for _, f := range mets.one("fileSec").all("file") {
		en := &entry{el: f}
		for _, l := range f.all("FLocat") {
			loc(en, l, "fileSec")
		}
		if old := true; len(en.external) == 0 && len(en.internal) > 0 {
			// an old version of a file of the extension
			for _, p := range en.internal {
				old = old && slices.Contains(o.Paths[strings.ToLower(f.attr("CHECKSUM"))], p)
			}
			if old {
				fileIDs[f.attr("ID")] = ""
				continue
			}
		}
		if len(en.external) != 1 {
			bad("file: external locations %q", en.external)
			continue
		}
		p := en.external[0]
		seen[p]++
		fileIDs[f.attr("ID")] = p
		if _, ok := state[p]; !ok {
			bad("unknown: %q is not in the state", p)
			continue
		}
		sum(f, state[p], p)
		internals(en.internal, p)
	}
	mdInt := map[string]bool{}
	primary := map[string]bool{}
	for _, s := range mets.Kids {
		if s.XMLName.Local != "dmdSec" {
			continue
		}
		ref := s.one("mdRef")
		en := &entry{}
		loc(en, ref, "dmdSec")
		prim := s.attr("GROUPID") == "primary-metadata"
		for _, p := range en.external {
			if prim {
				primary[p] = true
			} else {
				seen[p]++
			}
			if _, ok := state[p]; !ok {
				bad("unknown: %q is not in the state", p)
				continue
			}
			sum(ref, state[p], p)
		}
		for _, p := range en.internal {
			mdInt[p] = true
			dg := ref.attr("CHECKSUM")
			if !slices.Contains(o.Paths[strings.ToLower(dg)], p) {
				bad("internal: %q has not the digest %q", p, dg)
			}
		}
	}
	for p, dg := range state {
		if m.own(p) {
			continue
		}
		if n := seen[p]; n != 1 && !(n == 0 && primary[p]) {
			bad("listed: %q is listed %d times", p, seen[p])
		}
		isFile := false
		for _, x := range fileIDs {
			isFile = isFile || x == p
		}
		if !isFile {
			some := false
			for _, x := range o.Paths[dg] {
				some = some || mdInt[x]
			}
			if !some {
				bad("internal: no location of %q", p)
			}
		}
	}
	for p, n := range seen {
		if n > 1 && m.own(p) {
			bad("listed: %q is listed %d times", p, n)
		}
	}
	if m.prim != "" {
		if p := m.primary(); !primary[p] || len(primary) != 1 {
			bad("primary: descriptive metadata %v instead of %q", primary, p)
		}
	} else if len(primary) > 0 {
		bad("primary: descriptive metadata %v", primary)
	}

	// PREMIS file
	pl, px := m.file(m.names[1], head)
	ext := 0
	for _, s := range mets.one("amdSec").all("mdRef") {
		if s.attr("MDTYPE") != "PREMIS" {
			continue
		}
		if s.attr("CHECKSUM") != refDigest("sha512", premisData) || s.attr("CHECKSUMTYPE") != "SHA-512" {
			bad("premis checksum: %q %q", s.attr("CHECKSUMTYPE"), s.attr("CHECKSUM"))
		}
		if s.attr("SIZE") != fmt.Sprint(len(premisData)) {
			bad("premis size: %s", s.attr("SIZE"))
		}
		h := s.attr("href")
		if s.attr("LOCTYPE") == "URL" {
			ext++
			if m.stype != "extension" && h != pl {
				bad("premis location: %q", h)
			}
			continue
		}
		ok := h == m.names[1]
		for _, x := range append(slices.Clone(o.Paths[state[pl]]), px) {
			ok = ok || x != "" && (h == x || x == head+"/content/"+h || px != "" && strings.HasSuffix(px, "/"+h))
		}
		if !ok {
			bad("premis location: %q", h)
		}
	}
	if ext != 1 {
		bad("premis location: %d references", ext)
	}
	objs := map[string]bool{}
	for _, x := range premis.Kids {
		if x.XMLName.Local == "object" {
			id := x.one("objectIdentifier").one("objectIdentifierValue").Text
			if objs[id] {
				bad("premis object: used twice")
			}
			objs[id] = true
			for _, fx := range x.all("fixity") {
				p, ok := fileIDs[id]
				a := fx.one("messageDigestAlgorithm").Text
				if p == "" || !ok || refHash(strings.ToLower(a)) == nil {
					continue
				}
				if dg := fx.one("messageDigest").Text; dg != refDigest(strings.ToLower(a), o.HeadTree()[p]) {
					bad("premis fixity: %s of %q", a, p)
				}
			}
		}
	}
	for id, p := range fileIDs {
		if !objs[id] {
			bad("premis object: none for %q", p)
		}
	}
	for id := range objs {
		if _, ok := fileIDs[id]; !ok {
			bad("premis object: unknown")
		}
	}
	for _, l := range premis.all("linkingObjectIdentifierValue") {
		if !objs[l.Text] {
			bad("premis event: refers to an unknown object")
			break
		}
	}
	return
}

func runC29(r *Run) {
	names := [2]string{"mets.xml", "premis.xml"}
	cfgs := []metsCfg{
		{"area", "metadata", "data", "meta", "sha512", names, "", false},
		{"area", "metadata", "data", "metadata", "sha256", names, "EAD:metadata:a.xml", true},
		{"area", "metadata", "", "", "sha512", names, "", false},
		{"area", "metadata", "", "", "sha512", names, "ead:a.xml", false},
		{"path", "x", "data", "meta", "sha512", names, "", true},
		{"path", "", "", "", "sha256", [2]string{"x/m.xml", "p.xml"}, "", false},
		{"extension", "sub", "data", "meta", "sha512", names, "", false},
		{"extension", "sub", "", "", "sha512", [2]string{"mets_%s.xml", "premis_%s.xml"}, "", false},
		{"extension", "sub", "data", "meta", "sha256", names, "other:content:a.xml", true},
	}
	trees := []Tree{
		{"a.xml": "<a/>"},
		{"a.xml": "<b/>", "d&<e>/f \"x\" 'ü'.txt": "<a/>", "g": ""},
		{"d/schemas/s.xsd": "s", "schemas/t.xsd": "t", "a.xml": "<a/>"},
		{"metadata/x": "<b/>", "meta/schemas/y": "y", "d/a.xml": "<a/>", "b.xml": "<a/>"},
	}
	var ops []metsOp
	for _, t := range trees {
		for _, area := range []string{"content", "metadata"} {
			for _, mo := range []mode{{false, false}, {true, false}, {true, true}} {
				ops = append(ops, metsOp{t, area, mo})
			}
		}
	}
	depth := Pick(r, 2, 3)
	b := r.Batch()
	for _, m := range cfgs {
		for i, op := range ops {
			if m.sub == "" && op.area == "metadata" {
				continue
			}
			b.Do(fmt.Sprintf("%v|%d", m, i), func(c *C) {
				e := m.env()
				d := NewDisk("m")
				must(e.Init(d.FS()))
				var rec func(st *metsSt, op metsOp)
				rec = func(st *metsSt, op metsOp) {
					n := m.update(c, st, op)
					if n == nil {
						return
					}
					if len(n.ops) < depth {
						for _, x := range ops {
							// files of the area of the METS file itself are removed
							if m.sub == "" && x.area == "metadata" {
								continue
							}
							rec(n, x)
						}
					}
				}
				rec(&metsSt{d.Snap(), Tree{}, nil}, op)
			})
		}
	}
	b.Wait()
}
