package main

// C17: extension configurations survive storing and reloading.
// C22: ordering and exclusion of extensions.

import (
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"path"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
)

func init() {
	register(&Check{Prop: "C17", Level: "model_checking", Run: runC17,
		Rule: "every configuration of every extension (all combinations of the values of the layouts, all subsets of the object extensions): created, stored, reloaded by a tool with other defaults, and used again"})
	register(&Check{Prop: "C22", Level: "model_checking", Run: runC22,
		Rule:   "every set, registration order, sort list and exclusion list of up to four extensions implementing different hooks; observed calls of every hook of the extension manager",
		Assume: []string{"names in a sort list or exclusion group are unique, exclusion groups are disjoint", "the order among extensions without a position is only required to be independent of the registration order"}})
}

func asJ(x any) J {
	var j J
	b, err := json.Marshal(x)
	must(err)
	must(json.Unmarshal(b, &j))
	return j
}

// subset: every value of a is in b with the same value; "" if so. Keys with an
// alias in alias are looked up there.
func lost(a, b J) string {
	var r []string
	for k, v := range a {
		if !reflect.DeepEqual(deepJ(v), deepJ(b[k])) {
			r = append(r, fmt.Sprintf("%s: %v became %v", k, v, b[k]))
		}
	}
	sort.Strings(r)
	return strings.Join(r, ", ")
}

type extConf struct {
	name  string
	cfg   J
	files map[string]string // further files
	alias map[string]string // configuration key -> stored key
}

func (x *extConf) all() map[string]string {
	c := J{"extensionName": x.name}
	for k, v := range x.cfg {
		c[k] = v
	}
	r := map[string]string{"config.json": string(mustJSON(c))}
	for k, v := range x.files {
		r[k] = v
	}
	return r
}
func (x *extConf) String() string {
	return x.name + strings.ReplaceAll(string(mustJSON(x.cfg)), "|", "/")
}

const anySchema = `{"$schema":"https://json-schema.org/draft/2020-12/schema","type":"object"}`

func objExtConfs() []*extConf {
	r := []*extConf{
		{name: extension.DigestAlgorithmsName, cfg: J{}},
		{name: extension.PathDirectName, cfg: J{}},
		{name: extension.ContentSubPathName, cfg: J{"subPath": J{"content": J{"path": "data", "description": "x"}}}},
		{name: extension.ContentSubPathName, cfg: J{"subPath": J{"content": J{"path": "a/b", "description": ""}, "metadata": J{"path": "m", "description": "é \"q\""}, "x": J{"path": "xx", "description": "z"}}}},
		{name: extension.MetaFileName, cfg: J{"storageType": "area", "storageName": "metadata", "name": "info.json", "schema": "s.json", "schemaUrl": "http://x/s.json"}, files: map[string]string{"s.json": anySchema}},
		{name: extension.MetaFileName, cfg: J{"storageType": "extension", "storageName": "meta", "name": "n.json", "schema": "other.json", "schemaUrl": "http://x/t.json"}, files: map[string]string{"other.json": `{"type":"object","required":["a"]}`}},
		{name: extension.METSName, cfg: J{}},
		{name: extension.METSName, cfg: J{"storageType": "extension", "storageName": "", "primaryDescriptiveMetadata": ""}},
		{name: extension.METSName, cfg: J{"storageType": "path", "storageName": "q", "primaryDescriptiveMetadata": "ead:m:e.xml", "metsFile": "a.xml", "premisFile": "b.xml"}},
		{name: extension.MigrationName, cfg: J{"storageType": "area", "storageName": "metadata", "compress": "gzip"}, alias: map[string]string{"storageType": "StorageType", "storageName": "StorageName", "compress": "Compress"}},
		{name: extension.MigrationName, cfg: J{"storageType": "extension", "storageName": "data", "compress": "none"}, alias: map[string]string{"storageType": "StorageType", "storageName": "StorageName", "compress": "Compress"}},
		{name: extension.IndexerName, cfg: J{"storageType": "area", "storageName": "metadata", "actions": []string{"siegfried", "xml"}, "compress": "gzip"}, alias: map[string]string{"storageType": "StorageType", "storageName": "StorageName", "compress": "Compress", "actions": "Actions"}},
		{name: extension.IndexerName, cfg: J{"storageType": "extension", "storageName": "m", "actions": []string{}, "compress": "brotli"}, alias: map[string]string{"storageType": "StorageType", "storageName": "StorageName", "compress": "Compress", "actions": "Actions"}},
		{name: extension.ThumbnailName, cfg: J{"storageType": "area", "storageName": "metadata", "compress": "gzip", "width": 256, "height": 100, "singleDirectory": true, "ext": "png", "shortFilename": true}},
		{name: extension.ThumbnailName, cfg: J{"storageType": "path", "storageName": "x", "compress": "none", "width": 1, "height": 2, "singleDirectory": false, "ext": "jpeg", "shortFilename": false}},
	}
	for _, st := range []string{"area", "path", "extension"} {
		for _, co := range []string{"none", "gzip", "brotli"} {
			for _, fo := range []string{"", ".keep"} {
				r = append(r, &extConf{name: extension.FilesystemName, cfg: J{"storageType": st, "storageName": "metadata", "folders": fo, "compress": co}})
			}
		}
	}
	for _, utf := range []bool{false, true} {
		for _, s := range []string{"_", ""} {
			for _, n := range []int{0, 2} {
				r = append(r, &extConf{name: extension.DirectCleanName, cfg: J{"utfEncode": utf, "replacementString": s, "whitespaceReplacementString": " ", "maxPathSegmentLen": 50 + n, "maxPathnameLen": 500, "fallbackDigestAlgorithm": "sha256", "fallbackFolder": "fb", "numberOfFallbackTuples": n, "fallbackTupleSize": 2}})
			}
		}
	}
	r = append(r, &extConf{name: extension.DirectCleanName, cfg: J{"encodeUTF": true, "fallbackDigestAlgorithm": "md5"}, alias: map[string]string{"encodeUTF": "utfEncode"}})
	r = append(r, &extConf{name: extension.DirectCleanName, cfg: J{"maxFilenameLen": 77, "fallbackSubdirs": 3, "fallbackDigestAlgorithm": "md5"}, alias: map[string]string{"maxFilenameLen": "maxPathnameLen", "fallbackSubdirs": "numberOfFallbackTuples"}})
	return r
}

// extFactory knows every extension.
func extFactory() *ocfl.ExtensionFactory {
	f, err := (&Env{}).Factory()
	must(err)
	f.AddCreator(extension.IndexerName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewIndexerFS(x, "", nil, false, logger) })
	f.AddCreator(extension.ThumbnailName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewThumbnailFS(x, nil, logger) })
	return f
}

// storeReload loads the extensions from e, stores them on a new disk and loads
// them again from there.
func storeReload(c *C, what string, e Ext) (m1, m2 ocfl.ExtensionManager, d *Disk) {
	f := extFactory()
	m1, err := f.LoadExtensions(extDisk(e), nil)
	if err != nil {
		c.Fail(what+": not loaded", "%v", err)
		return nil, nil, nil
	}
	d = NewDisk("ext")
	err = guard(func() error { m1.SetFS(d.FS(), true); return m1.WriteConfig() })
	c.Step()
	if err != nil {
		c.Fail(what+": not stored", "%v", err)
		return nil, nil, nil
	}
	m2, err = extFactory().LoadExtensions(d.FS(), nil)
	c.Step()
	if err != nil {
		c.Fail(what+": not reloaded", "%v", err)
		return nil, nil, nil
	}
	return
}

func extNames(m ocfl.ExtensionManager) string {
	var r []string
	for _, x := range m.GetExtensions() {
		r = append(r, x.GetName())
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func sameManagers(c *C, what string, m1, m2 ocfl.ExtensionManager) {
	if a, b := extNames(m1), extNames(m2); a != b {
		c.Fail(what+": set of extensions changed", "%s became %s", a, b)
		return
	}
	for _, x := range m1.GetExtensions() {
		a, err1 := m1.GetConfigName(x.GetName())
		b, err2 := m2.GetConfigName(x.GetName())
		if err1 != nil || err2 != nil {
			c.Fail(what+": no configuration", "%v %v", err1, err2)
			continue
		}
		if s := lost(asJ(a), asJ(b)); s != "" {
			c.Fail("configuration of "+x.GetName()+" changed by a reload", "%s: %s", what, s)
		}
	}
	if s := lost(asJ(m1.GetConfig()), asJ(m2.GetConfig())); s != "" {
		c.Fail("configuration of the manager changed by a reload", "%s: %s", what, s)
	}
}

func runC17(r *Run) {
	b := r.Batch()
	confs := objExtConfs()
	mgrs := []map[string]string{extCfg(mgrName),
		extCfg(mgrName, "sort", `{"ObjectContentPath":["NNNN-direct-clean-path-layout","NNNN-content-subpath"],"ObjectChange":["NNNN-indexer","NNNN-migration"]}`, "exclusion", `{"ObjectContentPath":[["NNNN-direct-clean-path-layout","NNNN-direct-path-layout"]],"StorageRootPath":[["a","b","c"],["d","e"]]}`)}
	// every extension alone
	for i, x := range confs {
		b.Do(fmt.Sprintf("single %02d %s", i, x), func(c *C) {
			for _, mg := range mgrs {
				e := baseExt().with(mgrName, mg).with(x.name, x.all())
				m1, m2, d := storeReload(c, x.String(), e)
				if m1 == nil {
					continue
				}
				sameManagers(c, x.String(), m1, m2)
				c.State(canon(d.Snap()))
				want := J{}
				for k, v := range x.cfg {
					if a, ok := x.alias[k]; ok {
						k = a
					}
					want[k] = v
				}
				got, err := m2.GetConfigName(x.name)
				if err != nil {
					c.Fail("extension lost", "%s: %v", x, err)
					continue
				}
				if s := lost(asJ(want), asJ(got)); s != "" {
					c.Fail("configuration of "+x.name+" lost", "%s: %s", x, s)
				}
				for fn, data := range x.files {
					if d.Snap()[x.name+"/"+fn] != data {
						c.Fail("file of "+x.name+" lost", "%s: %s", x, fn)
					}
				}
				c.Case(x.String())
			}
		})
	}
	// subsets of different extensions
	byName := map[string]*extConf{}
	var names []string
	for _, x := range confs {
		if byName[x.name] == nil {
			names = append(names, x.name)
		}
		byName[x.name] = x
	}
	for k := 0; k < 1<<len(names); k++ {
		if !r.Thorough() && k%3 != 1 && k < 1<<len(names)-8 {
			continue
		}
		b.Do(fmt.Sprintf("subset %03x", k), func(c *C) {
			e := baseExt().with(mgrName, mgrs[1])
			for i, n := range names {
				if k>>i&1 == 1 {
					e[n] = byName[n].all()
				}
			}
			m1, m2, d := storeReload(c, "subset", e)
			if m1 != nil {
				sameManagers(c, "subset", m1, m2)
				c.State(canon(d.Snap()))
				for i, n := range names {
					if _, err := m2.GetConfigName(n); (err == nil) != (k>>i&1 == 1) {
						c.Fail("extension lost or added", "%s: %v", n, err)
					}
				}
			}
			c.Case(fmt.Sprint("subset", k))
		})
	}
	// storage roots: layouts
	ids := append(append([]string{}, realIDs[:14]...), "a", "a:b", "ü:é", strings.Repeat("x", 120), "a/b")
	other := defaultEnv(nil) // the tool that reloads has other defaults
	other.Root = baseExt(extCfg(extension.StorageLayoutFlatDirectName))
	for i, ls := range chunk(allLayouts(), 60) {
		b.Do(fmt.Sprintf("layouts %d", i), func(c *C) {
			for _, l := range ls {
				if l.invalid || l.open {
					continue
				}
				c.Case(l.name + l.String())
				e := defaultEnv(nil)
				e.Root = baseExt().with(l.name, l.files())
				d := NewDisk("root")
				if err := e.Init(d.FS()); err != nil {
					c.Fail("init: "+l.name, "%s: %v", l, err)
					continue
				}
				c.Step()
				layoutFile(c, d.Snap(), l.name)
				m1, err := extFactory().LoadExtensions(extDisk(e.Root), nil)
				must(err)
				sub, err := fs.Sub(d.FS(), "extensions")
				must(err)
				m2, err := extFactory().LoadExtensions(sub, nil)
				if err != nil {
					c.Fail("reload: "+l.name, "%s: %v", l, err)
					continue
				}
				sameManagers(c, l.name+l.String(), m1, m2)
				c.State(canon(d.Snap()))
				for _, id := range ids {
					p1, e1 := m1.BuildStorageRootPath(nil, id)
					p2, e2 := m2.BuildStorageRootPath(nil, id)
					if p1 != p2 || (e1 == nil) != (e2 == nil) {
						c.Fail("path changed by a reload: "+l.name, "%s id %q: %q %v, %q %v", l, id, p1, e1, p2, e2)
					}
				}
			}
		})
	}
	// histories: objects created before a reload are found and updated after it
	objs := []struct {
		name string
		obj  []map[string]string
		fix  []Alg
	}{
		{"plain", nil, nil},
		{"areas", []map[string]string{contentExt("content", "data", "metadata", "meta")}, nil},
		{"areas+fixity", []map[string]string{contentExt("content", "data"), extCfg(extension.DigestAlgorithmsName)}, []Alg{"md5", "sha1", "blake2b-160"}},
		{"clean+areas", []map[string]string{contentExt("content", "da ta", "metadata", "meta"), extCfg(extension.DirectCleanName, "utfEncode", "true", "fallbackDigestAlgorithm", `"md5"`, "replacementString", `"_"`)}, []Alg{"sha256"}},
	}
	layouts := append(coreLayouts(r), cleanExts()[:2]...)
	for i, l := range layouts {
		for _, o := range objs {
			b.Do(fmt.Sprintf("history %02d %s %s", i, l.name, o.name), func(c *C) {
				e := env11(o.name, o.fix, o.obj...)
				e.Root = baseExt().with(l.name, l.files())
				d := NewDisk("root")
				must(e.Init(d.FS()))
				var in []string
				for _, id := range []string{"object-01", "a:b0", "urn:x_y:12345678901234", "edu/f8"} {
					src := Tree{"x y.txt": "one" + id, "d/z": "zz"}
					if _, err := e.Do(d.FS(), add1(id, src, mode{}, "content")); err != nil {
						continue // not possible with this layout
					}
					in = append(in, id)
					c.Step()
				}
				snap := d.Snap()
				e2 := *other
				e2.Fixity = nil
				for _, id := range in {
					p := objPrefix(snap, id)
					if _, err := e2.Do(d.FS(), add1(id, Tree{"n w.txt": "two" + id}, mode{}, "content")); err != nil {
						c.Fail("update after reload", "id %q: %v", id, err)
						continue
					}
					c.Step()
					after := d.Snap()
					c.State(canon(after))
					if q := objPrefix(after, id); q != p {
						c.Fail("object not found after reload: "+l.name, "id %q was at %q, now at %q", id, p, q)
						continue
					}
					ro := ReadObj(after.Sub(p))
					if len(ro.Problems) > 0 {
						c.Fail("invalid after reload", "%v", ro.Problems)
						continue
					}
					// the new file lies where the old ones lie
					var dirs = map[string]bool{}
					var cps []string
					for _, ps := range ro.Paths {
						cps = append(cps, ps...)
					}
					for _, cp := range cps {
						if strings.HasSuffix(cp, "x y.txt") || strings.HasSuffix(cp, "n w.txt") || strings.HasSuffix(cp, ".txt") {
							dirs[strings.Join(strings.Split(path.Dir(cp), "/")[1:], "/")] = true
						}
					}
					if len(dirs) != 1 {
						c.Fail("area path changed by a reload", "id %q: %v", id, dirs)
					}
					for _, alg := range o.fix {
						n := 0
						for _, ps := range ro.Inv.Fixity[string(alg)] {
							n += len(ps)
						}
						if n != len(cps) {
							c.Fail("fixity lost by a reload", "id %q %s: %d values for %d files", id, alg, n, len(cps))
						}
					}
					// configurations stay as they were
					for k, v := range snap.Sub(p) {
						if strings.HasPrefix(k, "extensions/") && after.Sub(p)[k] != v {
							c.Fail("configuration changed by an update", "%s: %s", id, k)
						}
					}
				}
				if s := snap.Sub("extensions/").Diff(d.Snap().Sub("extensions/")); s != "" {
					c.Fail("configuration of the root changed by updates", "%s", s)
				}
				if i < 3 {
					onOS(d.Snap(), func(fsys fs.FS, _ string) {
						for _, id := range in {
							if _, ws, err := e2.ValidateID(fsys, id); err != nil {
								c.Fail("not found on the operating system", "%s: %v %v", id, err, ws)
							}
						}
						c.Trace()
					})
				}
			})
		}
	}
	b.Wait()
}

func layoutFile(c *C, s Snap, name string) {
	var j struct{ Extension, Description string }
	if err := json.Unmarshal([]byte(s["ocfl_layout.json"]), &j); err != nil {
		c.Fail("no ocfl_layout.json: "+name, "%v", err)
		return
	}
	if j.Extension != name || j.Description == "" {
		c.Fail("ocfl_layout.json names another layout: "+name, "%+v", j)
	}
}

// ---- C22 ---------------------------------------------------------------

type callLog struct {
	sync.Mutex
	l []string
}

func (l *callLog) add(s string) { l.Lock(); l.l = append(l.l, s); l.Unlock() }
func (l *callLog) take() []string {
	l.Lock()
	defer l.Unlock()
	r := l.l
	l.l = nil
	return r
}

type hBase struct {
	name string
	log  *callLog
}

func (h *hBase) GetName() string                   { return h.name }
func (h *hBase) SetFS(fs.FS, bool)                 {}
func (h *hBase) GetFS() fs.FS                      { return nil }
func (h *hBase) SetParams(map[string]string) error { return nil }
func (h *hBase) WriteConfig() error                { return nil }
func (h *hBase) GetConfig() any                    { return nil }
func (h *hBase) IsRegistered() bool                { return false }
func (h *hBase) Terminate() error                  { return nil }

type hRoot struct{ *hBase }

func (h hRoot) WriteLayout(fs.FS) error { h.log.add(h.name); return nil }
func (h hRoot) BuildStorageRootPath(_ ocfl.StorageRoot, id string) (string, error) {
	h.log.add(h.name)
	return id + h.name, nil
}

type hContent struct{ *hBase }

func (h hContent) BuildObjectManifestPath(_ ocfl.Object, p, _ string) (string, error) {
	h.log.add(h.name)
	return p + h.name, nil
}

type hState struct{ *hBase }

func (h hState) BuildObjectStatePath(_ ocfl.Object, p, _ string) (string, error) {
	h.log.add(h.name)
	return p + h.name, nil
}

type hExtract struct{ *hBase }

func (h hExtract) BuildObjectExtractPath(_ ocfl.Object, p, _ string) (string, error) {
	h.log.add(h.name)
	return p + h.name, nil
}

type hArea struct{ *hBase }

func (h hArea) GetAreaPath(_ ocfl.Object, a string) (string, error) {
	h.log.add(h.name)
	return h.name, nil
}

type hStream struct{ *hBase }

func (h hStream) StreamObject(_ ocfl.Object, r io.Reader, _ []string, _ string) error {
	b, _ := io.ReadAll(r)
	h.log.add(h.name + string(b))
	return nil
}

type hChange struct{ *hBase }

func (h hChange) AddFileBefore(ocfl.Object, fs.FS, string, string, string, bool) error {
	h.log.add(h.name)
	return nil
}
func (h hChange) UpdateFileBefore(ocfl.Object, fs.FS, string, string, string, bool) error {
	h.log.add(h.name)
	return nil
}
func (h hChange) DeleteFileBefore(ocfl.Object, string, string) error { h.log.add(h.name); return nil }
func (h hChange) AddFileAfter(ocfl.Object, fs.FS, []string, string, string, string, bool) error {
	h.log.add(h.name)
	return nil
}
func (h hChange) UpdateFileAfter(ocfl.Object, fs.FS, string, string, string, bool) error {
	h.log.add(h.name)
	return nil
}
func (h hChange) DeleteFileAfter(ocfl.Object, string, string) error { h.log.add(h.name); return nil }

type hObject struct{ *hBase }

func (h hObject) UpdateObjectBefore(ocfl.Object) error { h.log.add(h.name); return nil }
func (h hObject) UpdateObjectAfter(ocfl.Object) error  { h.log.add(h.name); return nil }

type hFixity struct{ *hBase }

func (h hFixity) GetFixityDigests() []Alg { h.log.add(h.name); return []Alg{Alg("alg" + h.name)} }

type hMeta struct{ *hBase }

func (h hMeta) GetMetadata(ocfl.Object) (map[string]any, error) {
	h.log.add(h.name)
	return map[string]any{"": h.name}, nil
}

type hVersion struct{ *hBase }

func (h hVersion) NeedNewVersion(ocfl.Object) (bool, error) { h.log.add(h.name); return false, nil }
func (h hVersion) DoNewVersion(ocfl.Object) error           { h.log.add(h.name); return nil }

// kinds of extensions: everything, and two halves
type hAll struct {
	*hBase
	hRoot
	hContent
	hState
	hExtract
	hArea
	hStream
	hChange
	hObject
	hFixity
	hMeta
	hVersion
}
type hHalf1 struct {
	*hBase
	hRoot
	hState
	hArea
	hChange
	hFixity
	hVersion
}
type hHalf2 struct {
	*hBase
	hContent
	hExtract
	hStream
	hObject
	hMeta
}

// every embedded struct has the methods of *hBase at depth 2, the kinds have
// them at depth 1: no ambiguity.
func newH(kind int, name string, log *callLog) ocfl.Extension {
	b := &hBase{name, log}
	switch kind {
	case 1:
		return &hHalf1{b, hRoot{b}, hState{b}, hArea{b}, hChange{b}, hFixity{b}, hVersion{b}}
	case 2:
		return &hHalf2{b, hContent{b}, hExtract{b}, hStream{b}, hObject{b}, hMeta{b}}
	}
	return &hAll{b, hRoot{b}, hContent{b}, hState{b}, hExtract{b}, hArea{b}, hStream{b}, hChange{b}, hObject{b}, hFixity{b}, hMeta{b}, hVersion{b}}
}

// hooks: name of the hook in the configuration, kinds that implement it, the
// calls of the manager.
type hookDef struct {
	name  string
	kinds [3]bool
	call  func(m ocfl.ExtensionManager) (string, error)
	want  func(names []string) string // result, nil: none
	first bool                        // only the first is called
	set   bool                        // concurrent: order is not defined
}

func cat(n []string) string { return "p" + strings.Join(n, "") }

var hooks = []hookDef{
	{name: ocfl.ExtensionStorageRootPathName, kinds: [3]bool{true, true, false}, call: func(m ocfl.ExtensionManager) (string, error) { return m.BuildStorageRootPath(nil, "p") }, want: cat},
	{name: ocfl.ExtensionObjectContentPathName, kinds: [3]bool{true, false, true}, call: func(m ocfl.ExtensionManager) (string, error) { return m.BuildObjectManifestPath(nil, "p", "") }, want: cat},
	{name: ocfl.ExtensionObjectExternalPathName, kinds: [3]bool{true, true, false}, call: func(m ocfl.ExtensionManager) (string, error) { return m.BuildObjectStatePath(nil, "p", "") }, want: cat},
	{name: ocfl.ExtensionObjectExtractPathName, kinds: [3]bool{true, false, true}, call: func(m ocfl.ExtensionManager) (string, error) { return m.BuildObjectExtractPath(nil, "p", "") }, want: cat},
	{name: ocfl.ExtensionAreaName, kinds: [3]bool{true, true, false}, first: true, call: func(m ocfl.ExtensionManager) (string, error) { return m.GetAreaPath(nil, "a") }, want: func(n []string) string {
		if len(n) == 0 {
			return ""
		}
		return n[0]
	}},
	{name: ocfl.ExtensionStreamName, kinds: [3]bool{true, false, true}, set: true, call: func(m ocfl.ExtensionManager) (string, error) {
		return "", m.StreamObject(nil, strings.NewReader(""), nil, "")
	}},
	{name: ocfl.ExtensionContentChangeName, kinds: [3]bool{true, true, false}, call: func(m ocfl.ExtensionManager) (string, error) { return "", m.AddFileBefore(nil, nil, "", "", "", false) }},
	{name: ocfl.ExtensionContentChangeName, kinds: [3]bool{true, true, false}, call: func(m ocfl.ExtensionManager) (string, error) {
		return "", m.UpdateFileBefore(nil, nil, "", "", "", false)
	}},
	{name: ocfl.ExtensionContentChangeName, kinds: [3]bool{true, true, false}, call: func(m ocfl.ExtensionManager) (string, error) { return "", m.DeleteFileBefore(nil, "", "") }},
	{name: ocfl.ExtensionContentChangeName, kinds: [3]bool{true, true, false}, call: func(m ocfl.ExtensionManager) (string, error) {
		return "", m.AddFileAfter(nil, nil, nil, "", "", "", false)
	}},
	{name: ocfl.ExtensionContentChangeName, kinds: [3]bool{true, true, false}, call: func(m ocfl.ExtensionManager) (string, error) {
		return "", m.UpdateFileAfter(nil, nil, "", "", "", false)
	}},
	{name: ocfl.ExtensionContentChangeName, kinds: [3]bool{true, true, false}, call: func(m ocfl.ExtensionManager) (string, error) { return "", m.DeleteFileAfter(nil, "", "") }},
	{name: ocfl.ExtensionObjectChangeName, kinds: [3]bool{true, false, true}, call: func(m ocfl.ExtensionManager) (string, error) { return "", m.UpdateObjectBefore(nil) }},
	{name: ocfl.ExtensionObjectChangeName, kinds: [3]bool{true, false, true}, call: func(m ocfl.ExtensionManager) (string, error) { return "", m.UpdateObjectAfter(nil) }},
	{name: ocfl.ExtensionFixityDigestName, kinds: [3]bool{true, true, false}, call: func(m ocfl.ExtensionManager) (string, error) { return fmt.Sprint(m.GetFixityDigests()), nil }, want: func(n []string) string {
		s := append([]string{}, n...)
		sort.Strings(s)
		for i := range s {
			s[i] = "alg" + s[i]
		}
		return fmt.Sprint(s)
	}},
	{name: ocfl.ExtensionMetadataName, kinds: [3]bool{true, false, true}, call: func(m ocfl.ExtensionManager) (string, error) {
		x, err := m.GetMetadata(nil)
		return string(mustJSON(x)), err
	}, want: func(n []string) string {
		r := map[string]any{}
		if len(n) > 0 {
			s := map[string]any{}
			for _, k := range n {
				s[k] = k
			}
			r[""] = s
		}
		return string(mustJSON(r))
	}},
	{name: ocfl.ExtensionNewVersionName, kinds: [3]bool{true, true, false}, call: func(m ocfl.ExtensionManager) (string, error) { _, err := m.NeedNewVersion(nil); return "", err }},
	{name: ocfl.ExtensionNewVersionName, kinds: [3]bool{true, true, false}, call: func(m ocfl.ExtensionManager) (string, error) { return "", m.DoNewVersion(nil) }},
}

// arrangements returns all sequences without repetition of lo..hi elements.
func arrangements(l []string, lo, hi int) [][]string {
	var r [][]string
	var rec func(cur []string)
	rec = func(cur []string) {
		if len(cur) >= lo {
			r = append(r, append([]string{}, cur...))
		}
		if len(cur) == hi {
			return
		}
		for _, x := range l {
			dup := false
			for _, y := range cur {
				dup = dup || x == y
			}
			if !dup {
				rec(append(cur, x))
			}
		}
	}
	rec(nil)
	return r
}

// active is the specification: who is called, in which order; unlisted ones
// are returned separately.
func active(present []string, srt []string, ex [][]string) (listed, rest []string) {
	out := map[string]bool{}
	in := map[string]bool{}
	for _, p := range present {
		in[p] = true
	}
	for _, g := range ex {
		first := true
		for _, n := range g {
			if in[n] {
				if !first {
					out[n] = true
				}
				first = false
			}
		}
	}
	pos := map[string]bool{}
	for _, s := range srt {
		pos[s] = true
		if in[s] && !out[s] {
			listed = append(listed, s)
		}
	}
	for _, p := range present {
		if !out[p] && !pos[p] {
			rest = append(rest, p)
		}
	}
	sort.Strings(rest)
	return
}

func runC22(r *Run) {
	b := r.Batch()
	names := []string{"B", "A", "C"}
	if r.Thorough() {
		names = []string{"B", "A", "C", "D"}
	}
	all := append(append([]string{}, names...), "X")
	sorts := arrangements(all, 0, len(names))
	exs := [][][]string{nil}
	for _, g := range arrangements(all, 2, 3) {
		exs = append(exs, [][]string{g})
	}
	for _, g := range arrangements(all, 4, 4) {
		exs = append(exs, [][]string{g[:2], g[2:]})
	}
	// which kind every extension is
	kindSets := [][]int{{0, 0, 0, 0}, {0, 1, 2, 0}, {1, 2, 0, 1}}
	orders := arrangements(names, 1, len(names))
	for ki, kinds := range kindSets {
		for si, srt := range sorts {
			b.Do(fmt.Sprintf("kinds %d sort %03d %v", ki, si, srt), func(c *C) {
				for _, ex := range exs {
					if len(srt) == 4 && (len(ex) == 2 || ki > 0 && ex != nil) {
						continue
					}
					// per hook: the calls must not depend on the order
					seen := map[string]string{}
					for _, order := range orders {
						log := &callLog{}
						cfg := &ocfl.ExtensionManagerConfig{ExtensionConfig: &ocfl.ExtensionConfig{ExtensionName: mgrName}, Sort: map[string][]string{}, Exclusion: map[string][][]string{}}
						for _, h := range hooks {
							if len(srt) > 0 {
								cfg.Sort[h.name] = srt
							}
							if ex != nil {
								cfg.Exclusion[h.name] = ex
							}
						}
						c.hookCalls(cfg, order, kinds, names, log, func(string) ([]string, [][]string) { return srt, ex }, seen)
					}
				}
			})
		}
	}
	// configuration of one hook does not influence the others
	for hi := range hooks {
		h := hooks[hi]
		b.Do(fmt.Sprintf("only %s %d", h.name, hi), func(c *C) {
			for _, srt := range sorts {
				for _, ex := range exs {
					if len(srt) > 2 && ex != nil {
						continue
					}
					cfg := &ocfl.ExtensionManagerConfig{ExtensionConfig: &ocfl.ExtensionConfig{ExtensionName: mgrName}, Sort: map[string][]string{h.name: srt}, Exclusion: map[string][][]string{h.name: ex}}
					c.hookCalls(cfg, names, []int{0, 0, 0, 0}, names, &callLog{}, func(n string) ([]string, [][]string) {
						if n == h.name {
							return srt, ex
						}
						return nil, nil
					}, map[string]string{})
				}
			}
		})
	}
	// the same through the extension factory and stored configurations
	b.Do("factory", func(c *C) {
		for _, srt := range sorts {
			for _, ex := range exs {
				if len(srt) > 2 && ex != nil && !r.Thorough() {
					continue
				}
				log := &callLog{}
				e := &Env{Extra: map[string]func(fs.FS) (ocfl.Extension, error){}}
				x := baseExt()
				sj, xj := J{}, J{}
				for _, h := range hooks {
					sj[h.name] = srt
					xj[h.name] = ex
				}
				x[mgrName] = extCfg(mgrName, "sort", string(mustJSON(sj)), "exclusion", string(mustJSON(xj)))
				for _, n := range names {
					e.Extra[n] = func(fs.FS) (ocfl.Extension, error) { return newH(0, n, log), nil }
					x[n] = extCfg(n)
				}
				f, err := e.Factory()
				must(err)
				m, err := f.LoadExtensions(extDisk(x), nil)
				if err != nil {
					c.Fail("not loaded", "%v", err)
					return
				}
				c.judgeHooks(m, names, []int{0, 0, 0, 0}, names, log, func(string) ([]string, [][]string) { return srt, ex }, map[string]string{}, fmt.Sprintf("factory sort %v exclusion %v", srt, ex))
				c.Trace()
			}
		}
	})
	b.Wait()
}

func (c *C) hookCalls(cfg *ocfl.ExtensionManagerConfig, order []string, kinds []int, names []string, log *callLog, of func(string) ([]string, [][]string), seen map[string]string) {
	m, err := extension.NewGOCFLExtensionManager(cfg)
	must(err)
	for _, n := range order {
		must(m.Add(newH(kinds[indexOf(names, n)], n, log)))
	}
	m.Finalize()
	c.judgeHooks(m, order, kinds, names, log, of, seen, fmt.Sprintf("order %v kinds %v sort %v exclusion %v", order, kinds, cfg.Sort, cfg.Exclusion))
}

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

func (c *C) judgeHooks(m ocfl.ExtensionManager, order []string, kinds []int, names []string, log *callLog, of func(string) ([]string, [][]string), seen map[string]string, what string) {
	for hi, h := range hooks {
		var present []string
		for _, n := range order {
			if h.kinds[kinds[indexOf(names, n)]] {
				present = append(present, n)
			}
		}
		srt, ex := of(h.name)
		listed, rest := active(present, srt, ex)
		log.take()
		var res string
		err := guard(func() error { var e error; res, e = h.call(m); return e })
		got := log.take()
		c.Step()
		key := fmt.Sprintf("%s#%d", h.name, hi)
		if err != nil {
			c.Fail("error: "+key, "%s: %v", what, err)
			continue
		}
		want := append(append([]string{}, listed...), rest...)
		if h.first && len(want) > 0 {
			want = want[:1]
		}
		cmp := append([]string{}, got...)
		if h.set {
			sort.Strings(cmp)
			sort.Strings(want)
		} else if len(got) > len(listed) && !h.first {
			// unlisted ones: as a set, after the listed ones
			sort.Strings(cmp[len(listed):])
		} else if h.first && len(listed) == 0 && len(got) == 1 && indexOf(rest, got[0]) >= 0 {
			want = got
		}
		if !reflect.DeepEqual(cmp, want) && len(cmp)+len(want) > 0 {
			c.Fail("wrong calls: "+key, "%s: called %v, want %v then %v in any order", what, got, listed, rest)
			continue
		}
		if h.want != nil {
			if w := h.want(got); res != w {
				c.Fail("wrong result: "+key, "%s: %q, want %q", what, res, w)
			}
		}
		set := append([]string{}, order...)
		sort.Strings(set)
		k := fmt.Sprint(key, set)
		v := fmt.Sprint(got)
		if h.set {
			v = fmt.Sprint(cmp)
		}
		if o, ok := seen[k]; ok && o != v {
			c.Fail("depends on the order of registration: "+key, "%s: called %v, in another order %v", what, got, o)
		}
		seen[k] = v
		c.State(fmt.Sprint(key, listed, rest, got))
		c.Case(key + what)
	}
}
