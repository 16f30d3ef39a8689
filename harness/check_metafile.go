package main

// C31: descriptive metadata given with an update (metafile extension).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	mbig "math/big"
	"net/http"
	"net/http/httptest"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"

	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
)

func init() {
	register(&Check{Prop: "C31", Level: "model_checking", Run: runC31,
		Rule:   "every configuration (place of the document, areas, schema, other extensions) x every sequence of up to 2 (thorough 3; for a part of the documents 3 in both) updates (documents in JSON, YAML and TOML, valid and refused, none; contents; modes); after each update the stored document, the report (of the open object and after loading), the state, earlier versions and the validity are compared with a model",
		Assume: []string{"the user's files do not have the name of the document", "what is reported after the user's own update removed the document from the state is not judged"}})
}

// mfDoc is a document; want is its value as JSON, "" if it has to be refused.
type mfDoc struct {
	name, data, want string
	url              string // with DIR for the folder; default: file://DIR/name
	loose            bool   // not refused by every schema
}

const mfID = "o 1%2"

var mfDocs = []mfDoc{
	{},                   // no parameter
	{name: "", url: "-"}, // empty parameter
	{name: "a.json", data: `{"title":"A"}`, want: `{"title":"A"}`},
	{name: "b.json", data: `{"title":"B & <c>","n":9007199254740993,"x":[{"y":null,"z":[1.5,true,-1e2]}],"k":{"ü":"\ud83d\ude00"}}`, want: `{"title":"B & <c>","n":9007199254740993,"x":[{"y":null,"z":[1.5,true,-100]}],"k":{"ü":"😀"}}`, url: "DIR/b.json"},
	{name: "a.yaml", data: "title: A\n", want: `{"title":"A"}`},
	{name: mfID + ".yaml", data: "title: C\nl:\n- k: {m: [1, 2.5, on]}\n- 2020-01-02\nbig: 9007199254740993\n", want: `{"title":"C","l":[{"k":{"m":[1,2.5,true]}},"2020-01-02"],"big":9007199254740993}`, url: "file://DIR/$ID.yaml"},
	{name: "a.toml", data: "title = \"A\"\n", want: `{"title":"A"}`},
	{name: "d.toml", data: "title = \"D\"\nd = 2020-01-02T03:04:05Z\n[k]\nn = 9007199254740993\n[[t]]\nx = 1\n[[t]]\nx = [[2],[\"3\"]]\n", want: `{"title":"D","d":"2020-01-02T03:04:05Z","k":{"n":9007199254740993},"t":[{"x":1},{"x":[[2],["3"]]}]}`},
	{name: "S.JSON", data: `{"title":"S"}`, want: `{"title":"S"}`},
	{name: "i/" + mfID + "/" + mfID + ".json", data: `{"title":"I"}`, want: `{"title":"I"}`, url: "DIR/i/$ID/$ID.json"},
	{name: "schema.json", data: `{"title":1}`, loose: true},
	{name: "schema.yaml", data: "titel: x\n", loose: true},
	{name: "cut.json", data: `{"title":"A"`},
	{name: "more.json", data: `{"title":"A"} {"title":"B"}`},
	{name: "more.yaml", data: "title: A\n---\ntitle: B\n"},
	{name: "bad.yaml", data: "title: [A\n"},
	{name: "bad.toml", data: "title = A\n"},
	{name: "list.json", data: `["A"]`},
	{name: "null.json", data: `null`},
	{name: "empty.json", data: ``},
	{name: "empty.yaml", data: ``},
	{name: "a.txt", data: `{"title":"A"}`},
	{name: "", url: "file://DIR/missing.json"},
	{name: "", url: "ftp://DIR/a.json"},
	{url: "HTTP/h/$ID.yaml?k=$ID", want: `{"title":"H"}`},
	{url: "HTTP/gone.json"}, // an error whose text is a document
	{url: "http://127.0.0.1:1/a.json"},
}

func (m mfDoc) given() bool { return m.name != "" || m.url != "" && m.url != "-" }

func (m mfDoc) param(dir string) (string, bool) {
	switch {
	case m.url == "-":
		return "", true
	case m.url != "":
		return strings.NewReplacer("DIR", dir, "HTTP", mfServer()).Replace(m.url), true
	case m.name != "":
		return "file://" + dir + "/" + m.name, true
	}
	return "", false
}

// tasks whose schema can be loaded from the server
var mfServed sync.Map

func mfKey(c *C) string { return refDigest("md5", c.Task) }

// mfServer is the address of a server with documents.
var mfServer = sync.OnceValue(func() string {
	return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/h/"+mfID+".yaml" && r.URL.Query().Get("k") == mfID {
			fmt.Fprint(w, "title: H\n")
			return
		}
		if _, ok := mfServed.Load(strings.TrimPrefix(r.URL.Path, "/s/")); ok {
			fmt.Fprint(w, mfSchema)
			return
		}
		w.WriteHeader(http.StatusNotFound)
		if strings.HasPrefix(r.URL.Path, "/s/") {
			fmt.Fprint(w, mfSchema)
			return
		}
		fmt.Fprint(w, `{"title":"gone"}`)
	})).URL
})

// jsonValue is a canonical form: numbers by value, objects sorted.
func jsonValue(data []byte) (string, error) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var x any
	if err := d.Decode(&x); err != nil {
		return "", err
	}
	if _, err := d.Token(); err != io.EOF {
		return "", fmt.Errorf("more than one value")
	}
	var f func(x any) any
	f = func(x any) any {
		switch y := x.(type) {
		case json.Number:
			r, ok := new(mbig.Rat).SetString(y.String())
			if !ok {
				return y
			}
			return "\x00number " + r.RatString()
		case []any:
			for i := range y {
				y[i] = f(y[i])
			}
		case map[string]any:
			for k := range y {
				y[k] = f(y[k])
			}
		}
		return x
	}
	b, err := json.Marshal(f(x))
	return string(b), err
}

type mfCfg struct {
	stype, sname, fname string // fname: "" for the default
	sub                 bool   // areas
	schema              bool   // requires a title
	others              bool
	web                 bool // schema is given by its address only
}

func (m mfCfg) String() string {
	return fmt.Sprintf("%s/%s/%s areas=%v schema=%v others=%v web=%v", m.stype, m.sname, m.fname, m.sub, m.schema, m.others, m.web)
}

func (m mfCfg) file() string {
	if m.fname == "" {
		return "info.json"
	}
	return m.fname
}

const mfSchema = `{"$schema":"https://json-schema.org/draft/2020-12/schema","type":"object","required":["title"],"properties":{"title":{"type":"string"},"big":{"type":"integer"},"n":{"type":"integer"},"d":{"type":"string"}}}`

func (m mfCfg) env(c *C) *Env {
	kv := []string{"storageType", jstr(m.stype), "storageName", jstr(m.sname)}
	if m.web {
		kv = append(kv, "schemaUrl", jstr(mfServer()+"/s/"+mfKey(c)))
	} else {
		kv = append(kv, "schema", `"s.json"`, "schemaUrl", `"http://127.0.0.1:1/s.json"`)
	}
	if m.fname != "" {
		kv = append(kv, "name", jstr(m.fname))
	}
	mf := extCfg(extension.MetaFileName, kv...)
	if !m.web {
		mf["s.json"] = `{"$schema":"https://json-schema.org/draft/2020-12/schema"}`
		if m.schema {
			mf["s.json"] = mfSchema
		}
	}
	x := []map[string]string{digExt, mf}
	if m.sub {
		x = append(x, contentExt("content", "data", "metadata", "meta"))
	}
	if m.others {
		x = append(x, extCfg(extension.FilesystemName, "folders", `""`, "storageType", `"extension"`, "storageName", `"metadata"`, "compress", `"gzip"`),
			extCfg(extension.METSName, "storageType", `"extension"`, "storageName", `"metadata"`, "primaryDescriptiveMetadata", `""`))
	}
	return env11("metafile", nil, x...)
}

// place is the logical path of the document, or its file below the object.
func (m mfCfg) place() (logical, ext string) {
	pre := map[string]string{}
	if m.sub {
		pre = map[string]string{"content": "data", "metadata": "meta"}
	}
	switch m.stype {
	case "area":
		return path.Join(pre[m.sname], m.file()), ""
	case "path":
		return path.Join(pre["content"], m.sname, m.file()), ""
	}
	return "", path.Join("extensions", extension.MetaFileName, m.sname, m.file())
}

type mfOp struct {
	doc  int
	src  Tree
	area string
	m    mode
}

func (o mfOp) String() string {
	d := mfDocs[o.doc]
	if d.given() {
		return fmt.Sprintf("%s%s %q%v%v", d.name, d.url, o.area, o.src, o.m)
	}
	return fmt.Sprintf("none%s %q%v%v", d.url, o.area, o.src, o.m)
}

type mfState struct {
	snap Snap
	user Tree
	doc  string // value of the newest document
	in   bool   // the state of the head has it
	ops  []mfOp
}

func (m mfCfg) update(c *C, dir string, st *mfState, op mfOp) *mfState {
	e := m.env(c)
	if m.web && len(st.ops) == 0 {
		// needed to create the object, which keeps it
		mfServed.Store(mfKey(c), true)
		defer mfServed.Delete(mfKey(c))
	}
	doc := mfDocs[op.doc]
	e.Params = map[string]string{}
	if p, ok := doc.param(dir); ok {
		e.Params["ext-"+extension.MetaFileName+"-source"] = p
	}
	what := fmt.Sprintf("%v: %v then %v", m, st.ops, op)
	d := FromSnap("m", st.snap)
	var live *ocfl.ObjectMetadata
	var modified bool
	var metaErr error
	sr, f, _, err := e.Load(d.FS())
	must(err)
	err = guard(func() error {
		o, err := e.Open(sr, f, mfID)
		if err != nil {
			return err
		}
		a := add1(mfID, op.src, op.m, op.area)
		if modified, err = update(o, a); err != nil {
			return err
		}
		live, metaErr = o.GetMetadata()
		return nil
	})
	c.Step()
	if isPanic(err) {
		c.Fail("metafile: panic", "%s: %v", what, err)
		return nil
	}
	first := len(st.ops) == 0
	refused := doc.given() && doc.want == "" && (!doc.loose || m.schema) ||
		first && !doc.given() && doc.url != "-" && err != nil // no document at all
	if refused {
		if err == nil {
			c.Fail("metafile: wrong document accepted", "%s: no error", what)
			return nil
		}
		now := d.Snap()
		if first {
			if p := objPrefix(now, mfID); p != "" {
				c.Fail("metafile: refused update leaves an object", "%s: %v", what, now.Files())
			}
		} else if df := st.snap.OnlyFiles().Diff(now.OnlyFiles()); df != "" {
			c.Fail("metafile: refused update leaves traces", "%s: %s", what, df)
		}
		return nil
	}
	if err != nil {
		c.Fail("metafile: update fails: "+short(err), "%s: %v", what, err)
		return nil
	}
	if es := d.Escaped(); len(es) > 0 {
		c.Fail("metafile: escaped", "%s: %v", what, es)
	}
	logical, ext := m.place()
	n := &mfState{user: st.user.Clone(), doc: st.doc, in: st.in, ops: append(append([]mfOp{}, st.ops...), op)}
	pre := ""
	if m.sub {
		pre = map[string]string{"content": "data", "metadata": "meta"}[op.area]
	}
	if op.m.echo {
		for p := range n.user {
			if pre == "" || strings.HasPrefix(p, pre+"/") {
				delete(n.user, p)
			}
		}
		if pre == "" || strings.HasPrefix(logical, pre+"/") {
			n.in = false
		}
	}
	for p, x := range op.src {
		n.user[path.Join(pre, p)] = x
	}
	if doc.given() {
		want := doc.want
		if want == "" {
			want = loose(doc)
		}
		n.doc, err = jsonValue([]byte(want))
		must(err)
		n.in = true
	}
	n.snap = d.Snap()
	o := ReadObj(n.snap.Sub(objPrefix(n.snap, mfID)))
	if x := o.Invalid(); len(x) > 0 {
		c.Fail("metafile: invalid object", "%s: %q", what, x)
		return nil
	}
	if es, _, err := e.Validate(d.FS()); err != nil || len(es) > 0 {
		c.Fail("metafile: object does not validate", "%s: %v %v", what, es, err)
	}
	if !first {
		immutable(c, st.snap, n.snap, what)
	}
	state := Tree{}
	stored, has := "", false
	for p, x := range o.HeadTree() {
		switch {
		case p == logical && logical != "":
			stored, has = x, true
		case m.sub && p == "README.md":
		default:
			state[p] = x
		}
	}
	if x := sameTree(n.user, state); x != "" {
		c.Fail("metafile: wrong files", "%s: %s", what, x)
	}
	if logical != "" && has != n.in {
		c.Fail("metafile: document missing or not removed", "%s: in the state: %v, expected %v", what, has, n.in)
		return n
	}
	if ext != "" {
		stored, has = o.Files[ext]
		if has != (n.doc != "") {
			c.Fail("metafile: document missing", "%s: stored: %v", what, has)
			return n
		}
	}
	if has {
		if got, err := jsonValue([]byte(stored)); err != nil || got != n.doc {
			c.Fail("metafile: other document stored", "%s: %q (%v) instead of %s", what, stored, err, n.doc)
		}
	}
	// the report
	judge := func(kind string, x any, err error) {
		if err != nil {
			c.Fail("metafile: no report: "+short(err), "%s: %s: %v", what, kind, err)
			return
		}
		m, _ := x.(map[string]any)
		v, ok := m[extension.MetaFileName]
		if !ok {
			if n.doc != "" && (n.in || ext != "") {
				c.Fail("metafile: document not reported", "%s: %s: %v", what, kind, x)
			}
			return
		}
		got, err := jsonValue(mustJSON(v))
		if err != nil || got != n.doc {
			c.Fail("metafile: other document reported", "%s: %s: %s instead of %s", what, kind, mustJSON(v), n.doc)
		}
	}
	if live != nil {
		judge("open object", live.Extension, metaErr)
	} else {
		judge("open object", nil, metaErr)
	}
	mfServed.Delete(mfKey(c))
	le := *e
	le.Params = nil
	var x any
	sr, _, _, err = le.Load(d.FS())
	must(err)
	err = guard(func() error {
		o, err := sr.LoadObjectByID(mfID)
		if err != nil {
			return err
		}
		md, err := o.GetMetadata()
		if err == nil {
			x = md.Extension
		}
		return err
	})
	judge("after loading", x, err)
	if !modified && n.doc == st.doc && sameTree(n.user, st.user) == "" && n.in == st.in && !first {
		if df := st.snap.OnlyFiles().Diff(n.snap.OnlyFiles()); df != "" {
			c.Fail("metafile: update without a change leaves traces", "%s: %s", what, df)
		}
	}
	c.Case(what)
	c.State(canon(n.snap))
	c.Sample("%s", what)
	return n
}

// loose is the value of a document only a schema refuses.
func loose(d mfDoc) string {
	if strings.HasSuffix(d.name, ".json") {
		return d.data
	}
	return `{"titel":"x"}`
}

// mfNames: the document must not take the place of any other file.
func mfNames(c *C, dir string, m mfCfg) {
	e := m.env(c)
	d := NewDisk("m")
	c.Step()
	c.Case(m.String())
	if err := guard(func() error { return e.Init(d.FS()) }); err != nil {
		if isPanic(err) {
			c.Fail("metafile: panic", "%v: %v", m, err)
		}
		return
	}
	var before Snap
	for i, doc := range []string{"a.json", "S.JSON"} {
		what := fmt.Sprintf("%v %q %q: update %d", m, m.sname, m.fname, i+1)
		e.Params = map[string]string{"ext-" + extension.MetaFileName + "-source": "file://" + dir + "/" + doc}
		_, err := e.Do(d.FS(), add1(mfID, Tree{"a": fmt.Sprint(i)}, mode{true, false}, ""))
		if err != nil {
			if isPanic(err) {
				c.Fail("metafile: panic", "%s: %v", what, err)
			} else if i > 0 {
				c.Fail("metafile: update fails: "+short(err), "%s: %v", what, err)
			}
			return
		}
		s := d.Snap()
		if es := d.Escaped(); len(es) > 0 {
			c.Fail("metafile: escaped", "%s: %v", what, es)
		}
		if es, _, err := e.Validate(d.FS()); err != nil || len(es) > 0 {
			c.Fail("metafile: object does not validate", "%s: %v %v", what, es, err)
		}
		mm, err := e.Meta(d.FS(), "", mfID)
		if err != nil {
			c.Fail("metafile: report fails: "+short(err), "%s: %v", what, err)
			return
		}
		want, _ := jsonValue([]byte([]string{`{"title":"A"}`, `{"title":"S"}`}[i]))
		x, _ := mm.Objects[mfID].Extension.(map[string]any)
		if got, err := jsonValue(mustJSON(x[extension.MetaFileName])); err != nil || got != want {
			c.Fail("metafile: wrong document in the report", "%s: %s instead of %s", what, got, want)
		}
		pre := objPrefix(s, mfID) + "extensions/"
		conf := Snap{}
		for f, data := range s.OnlyFiles() {
			if strings.HasPrefix(f, pre) && (path.Base(f) == "config.json" || path.Base(f) == "s.json") && (m.stype != "extension" || f != path.Join(pre, extension.MetaFileName, m.sname, m.fname)) {
				conf[f] = data
			}
		}
		if before != nil {
			if df := before.Diff(conf); df != "" {
				c.Fail("metafile: replaces another file", "%s: %s", what, df)
			}
		}
		before = conf
		c.State(m.String() + canon(s))
	}
}

func runC31(r *Run) {
	cfgs := []mfCfg{
		{"area", "metadata", "info.json", true, true, false, false},
		{"area", "metadata", "", true, false, true, false},
		{"area", "content", "info.json", false, true, false, false},
		{"path", "x", "i.json", true, true, false, false},
		{"path", "", "info.json", false, true, true, false},
		{"extension", "metadata", "info.json", true, true, false, false},
		{"extension", "", "", false, false, true, false},
		{"area", "content", "info.json", false, true, false, true},
		{"extension", "m/n", "info.json", false, true, false, true},
	}
	indent := func(s string) string {
		var b bytes.Buffer
		must(json.Indent(&b, []byte(s), "", "  "))
		return b.String()
	}
	type body struct {
		src  Tree
		area string
		m    mode
	}
	bodies := []body{
		{Tree{"a": "1"}, "content", mode{true, false}},
		// the content of a document is there already
		{Tree{"a": "2", "d/x": indent(`{"title":"A"}`)}, "content", mode{true, false}},
		{Tree{"b": "1"}, "content", mode{false, true}},
		{Tree{}, "content", mode{true, false}},
		{Tree{"z": "3"}, "metadata", mode{true, true}},
	}
	quick := map[int]bool{0: true, 1: true}                          // bodies
	few := map[int]bool{0: true, 1: true, 2: true, 3: true, 4: true} // documents for the longer sequences
	depth := Pick(r, 2, 3)
	files := func(dir string) {
		for _, d := range mfDocs {
			if d.name != "" {
				must(os.MkdirAll(filepath.Dir(filepath.Join(dir, d.name)), 0o755))
				must(os.WriteFile(filepath.Join(dir, d.name), []byte(d.data), 0o644))
			}
		}
	}
	b := r.Batch()
	// names of other files
	for _, st := range []string{"extension", "path", "area"} {
		for _, sn := range []string{"", "x", "content", "config.json", ".", "../NNNN-metafile", "x/.."} {
			for _, fn := range []string{"config.json", "s.json", "./config.json", "./s.json", "x/../config.json", "../config.json", "../inventory.json", "../../inventory.json", "../../../../0=ocfl_1.1", "/config.json", "i.json"} {
				if st == "area" && sn != "content" {
					continue
				}
				b.Do(fmt.Sprintf("names %s %q %q", st, sn, fn), func(c *C) {
					dir, cleanup := scratch()
					defer cleanup()
					files(dir)
					mfNames(c, dir, mfCfg{stype: st, sname: sn, fname: fn, schema: true})
				})
			}
		}
	}
	// schemas from the web which cannot be loaded
	for _, m := range cfgs {
		if m.web {
			b.Do(fmt.Sprintf("no schema %v", m), func(c *C) {
				d := NewDisk("m")
				e := m.env(c) // its schema is not served, but an error whose text is a schema
				err := e.Init(d.FS())
				if err == nil {
					_, err = e.Do(d.FS(), add1(mfID, Tree{"a": "1"}, mode{true, false}, "content"))
				}
				c.Step()
				if err == nil || isPanic(err) {
					c.Fail("metafile: schema which cannot be loaded", "%v: %v", m, err)
				}
				c.Case(fmt.Sprint("no schema ", m))
			})
		}
	}
	// more than nine versions
	for _, m := range cfgs {
		for i, docs := range [][]int{{2, 3, 0}, {3, 0, 2, 4}, {2, 0, 0, 0, 0, 0, 0, 0, 3}} {
			b.Do(fmt.Sprintf("%v|long%d", m, i), func(c *C) {
				dir, cleanup := scratch()
				defer cleanup()
				files(dir)
				d := NewDisk("m")
				must(m.env(c).Init(d.FS()))
				st := &mfState{snap: d.Snap(), user: Tree{}}
				for k := 0; k < 12 && st != nil; k++ {
					st = m.update(c, dir, st, mfOp{docs[k%len(docs)], Tree{"a": fmt.Sprint(k)}, "content", mode{true, false}})
				}
			})
		}
	}
	for _, m := range cfgs {
		for i := range mfDocs {
			for k := range bodies {
				if !m.sub && bodies[k].area == "metadata" {
					continue
				}
				b.Do(fmt.Sprintf("%v|%d|%d", m, i, k), func(c *C) {
					dir, cleanup := scratch()
					defer cleanup()
					files(dir)
					d := NewDisk("m")
					must(m.env(c).Init(d.FS()))
					var rec func(st *mfState, op mfOp, all bool)
					rec = func(st *mfState, op mfOp, all bool) {
						n := m.update(c, dir, st, op)
						all = all && few[op.doc] && op.m != mode{false, true}
						if n == nil || len(n.ops) >= depth && !(all && len(n.ops) < 3) {
							return
						}
						for i := range mfDocs {
							for j, x := range bodies {
								if !m.sub && x.area == "metadata" || len(n.ops) >= depth && (!few[i] || x.m.echo) ||
									!r.Thorough() && (!quick[k] || len(n.ops) > 1 || !quick[j]) && !(few[i] && (quick[j] || k == 4 && j == 2 && len(n.ops) == 1)) {
									continue
								}
								rec(n, mfOp{i, x.src, x.area, x.m}, all)
							}
						}
					}
					x := bodies[k]
					rec(&mfState{snap: d.Snap(), user: Tree{}}, mfOp{i, x.src, x.area, x.m}, true)
				})
			}
		}
	}
	b.Wait()
}
