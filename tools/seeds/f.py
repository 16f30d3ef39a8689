F="pkg/extension/NNNN-metafile.go"
META='''
package main

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"

	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
)

// schema is the address of a schema which permits everything.
func schema() string {
	return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		fmt.Fprint(w, `{"$schema":"https://json-schema.org/draft/2020-12/schema"}`)
	})).URL + "/s.json"
}

func metaKit() *kit {
	k := newKit("root")
	k.obj["NNNN-metafile"] = `"storageType":"area","storageName":"metadata","name":"info.json","schemaUrl":"` + schema() + `"`
	k.obj["NNNN-content-subpath"] = `"subPath":{"content":{"path":"data","description":"d"},"metadata":{"path":"meta","description":"m"}}`
	k.params = map[string]string{}
	k.extra = map[string]func(fs.FS) (ocfl.Extension, error){"NNNN-metafile": func(x fs.FS) (ocfl.Extension, error) { return extension.NewMetaFileFS(x) }}
	return k.init()
}

func (k *kit) source1(name, data string) string {
	p := filepath.Join(k.dir, "..", "src-"+filepath.Base(k.dir), name)
	ck(os.MkdirAll(filepath.Dir(p), 0o755))
	ck(os.WriteFile(p, []byte(data), 0o644))
	return p
}

// report is the metadata reported for the object.
func (k *kit) report(id string) string {
	o, err := k.open(id)
	ck(err)
	m, err := o.GetMetadata()
	ck(err)
	x, _ := m.Extension.(map[string]any)
	b, err := json.Marshal(x["NNNN-metafile"])
	ck(err)
	return string(b)
}

var _ = fmt.Sprint
'''
seeds=[
dict(id="f01-metafile-order",prop="C31",needs="an object with ten versions or more whose document was replaced in the tenth",breaks="the report gives the document of the ninth version",
 edits={F:[('''	slices.Reverse(versions)
''','''	slices.SortFunc(versions, func(a, b string) int { return strings.Compare(b, a) })
''')]},
 main=META+'''
func main() {
	k := metaKit()
	for i := 1; i <= 10; i++ {
		k.params["ext-NNNN-metafile-source"] = "file://" + k.source1("a.json", fmt.Sprintf(`{"n":%d}`, i))
		ck(k.add("a", files{"x": fmt.Sprint(i)}, mode{}))
	}
	if got := k.report("a"); got != `{"n":10}` {
		fail("report: %s", got)
	}
}
'''),
dict(id="f02-metafile-id-once",prop="C31",needs="a source path with the identifier in a folder and in the file name",breaks="only the first occurrence of $ID is replaced, the document is not found",
 edits={F:[('''	case "":
		fname = strings.Replace(sl.metadataSource.Path, "$ID", object.GetID(), -1)
''','''	case "":
		fname = strings.Replace(sl.metadataSource.Path, "$ID", object.GetID(), 1)
''')]},
 main=META+'''
func main() {
	k := metaKit()
	p := k.source1("a/a.json", `{"n":1}`)
	k.params["ext-NNNN-metafile-source"] = filepath.Join(filepath.Dir(filepath.Dir(p)), "$ID", "$ID.json")
	ck(k.add("a", files{"x": "1"}, mode{}))
	if got := k.report("a"); got != `{"n":1}` {
		fail("report: %s", got)
	}
}
'''),
dict(id="f03-metafile-shared",prop="C31",needs="two objects handled by the same process, the second without a new document",breaks="the documents stored by this process are remembered for all objects by version: the report of an object gives the document of another one",
 edits={F:[('''		info:           map[string][]byte{},
''','''		info:           storedInfo,
'''),('''type MetaFileConfig struct {''','''// documents stored by this process
var storedInfo = map[string][]byte{}

type MetaFileConfig struct {''')]},
 main=META+'''
func main() {
	k := metaKit()
	for _, id := range []string{"a", "b"} {
		k.params["ext-NNNN-metafile-source"] = "file://" + k.source1("a.json", fmt.Sprintf(`{"id":"%s"}`, id))
		ck(k.add(id, files{"x": id}, mode{}))
	}
	if got := k.report("a"); got != `{"id":"a"}` {
		fail("report: %s", got)
	}
}
'''),
]
T="pkg/extension/NNNN-thumbnail.go"
THUMB='''
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/je4/gocfl/v2/config"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/gocfl/v2/pkg/subsystem/thumbnail"
	ironmaiden "github.com/je4/indexer/v3/pkg/indexer"
	configutil "github.com/je4/utils/v2/pkg/config"
)

// image recognizes contents starting with IMG
type image struct{}

func (image) Stream(ct string, r io.Reader, name string) (*ironmaiden.ResultV2, error) {
	data, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	x := ironmaiden.NewResultV2()
	x.Mimetype = "text/plain"
	x.Metadata["siegfried"] = map[string]any{}
	if strings.HasPrefix(string(data), "IMG") {
		x.Pronom, x.Pronoms = "fmt/1", []string{"fmt/1"}
	}
	return x, nil
}
func (image) DoV2(name string) (*ironmaiden.ResultV2, error) { return nil, fmt.Errorf("no") }
func (image) CanHandle(ct, name string) bool                 { return true }
func (image) Do(*url.URL, string, *uint, *uint, *time.Duration, map[string]string) (any, []string, []string, error) {
	return nil, nil, nil, nil
}
func (image) GetName() string { return "siegfried" }
func (image) GetCaps() ironmaiden.ActionCapability {
	return ironmaiden.ACTALL | ironmaiden.ACTSTREAM
}
func (image) GetWeight() uint { return 1 }

func thumbKit(cfg string) *kit {
	k := newKit("root")
	k.obj["NNNN-indexer"] = `"storageType":"extension","storageName":"metadata","compress":"none","actions":["siegfried"]`
	k.obj["NNNN-thumbnail"] = cfg
	d := ironmaiden.NewActionDispatcher(nil)
	d.RegisterAction(image{})
	conf := &config.GOCFLConfig{Thumbnail: &config.Thumbnail{Enabled: true, Function: map[string]*config.ThumbnailFunction{
		"one": {ID: "one", Timeout: configutil.Duration(time.Minute), Pronoms: []string{"fmt/1"}, Command: `/bin/sh -c 'read f w < "{source}"; case "$w" in bad*) exit 1;; esac; echo thumb $w > "{destination}"'`}}}}
	th, err := thumbnail.GetThumbnails(conf)
	ck(err)
	k.extra = map[string]func(fs.FS) (ocfl.Extension, error){
		"NNNN-indexer":   func(x fs.FS) (ocfl.Extension, error) { return extension.NewIndexerFS(x, "", d, false, logger) },
		"NNNN-thumbnail": func(x fs.FS) (ocfl.Extension, error) { return extension.NewThumbnailFS(x, th, logger) },
		"NNNN-content-subpath": func(x fs.FS) (ocfl.Extension, error) { return extension.NewContentSubPathFS(x) },
	}
	ck(os.MkdirAll(filepath.Join(k.dir, "../tmp"), 0o755))
	ck(os.Setenv("TMPDIR", filepath.Join(k.dir, "../tmp")))
	return k.init()
}

// thumbs gives the reported thumbnails by the name of the file in the state.
func (k *kit) thumbs(id string) map[string]extension.ThumbnailResult {
	o, err := k.open(id)
	ck(err)
	m, err := o.GetMetadata()
	ck(err)
	t := map[string]extension.ThumbnailResult{}
	for dg, f := range m.Files {
		x, ok := f.Extension["NNNN-thumbnail"]
		if !ok {
			continue
		}
		var r extension.ThumbnailResult
		b, err := json.Marshal(x)
		ck(err)
		ck(json.Unmarshal(b, &r))
		for _, names := range f.VersionName {
			for _, n := range names {
				if r.SourceDigest == dg {
					t[n] = r
				}
			}
		}
	}
	return t
}

func img(s string) string { return "IMG " + s + "\\n" + strings.Repeat("x", 600) }
'''
seeds+=[
dict(id="f04-thumb-directory",prop="C32",needs="singleDirectory, storage in the extension's folder, thumbnails in two versions",breaks="thumbnails of a later version replace those of an earlier one, the report names the picture of another file",
 edits={T:[('''		targetName = fmt.Sprintf("%s/%s/%05d.%s", subfolder, head, thumb.counter[head], ''','''		targetName = fmt.Sprintf("%s/%05d.%s", subfolder, thumb.counter[head], ''')]},
 main=THUMB+'''
func main() {
	k := thumbKit(`"storageType":"extension","storageName":"data","compress":"none","singleDirectory":true`)
	for _, n := range []string{"a", "b"} {
		ck(k.add("o", files{n: img(n)}, mode{}))
	}
	t := k.thumbs("o")
	for _, n := range []string{"a", "b"} {
		got, err := os.ReadFile(filepath.Join(k.dir, "o/extensions/NNNN-thumbnail", t[n].Filename))
		if err != nil || string(got) != "thumb "+n+"\\n" {
			fail("thumbnail of %s: %q %v %+v", n, got, err, t[n])
		}
	}
}
'''),
dict(id="f05-thumb-no-lines",prop="C32",needs="storage in an area or path, two versions without new pictures (whose equal lists are stored once)",breaks="no report and no further update: the list of the second version is not found",
 edits={T:[('''				continue
				// return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
''','''				return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
''')]},
 main=THUMB+'''
func main() {
	k := thumbKit(`"storageType":"path","storageName":"thumbs","compress":"none"`)
	ck(k.add("o", files{"a": img("a")}, mode{}))
	ck(k.add("o", files{"t": "text"}, mode{}))
	ck(k.add("o", files{"u": "other"}, mode{}))
	if t := k.thumbs("o"); t["a"].ThumbDigest == "" {
		fail("report: %+v", t)
	}
}
'''),
dict(id="f06-thumb-reused-record",prop="C32",needs="a picture whose thumbnail fails and others in the same version",breaks="fields of the record read before (the error) are taken over: an error is reported for thumbnails which are there",
 edits={T:[('''		for r.Scan() {
			line := r.Text()
			var meta = ThumbnailResult{}
			if err := json.Unmarshal([]byte(line), &meta); err != nil {
''','''		var record = &ThumbnailResult{}
		for r.Scan() {
			line := r.Text()
			record.SourceName = nil
			err := json.Unmarshal([]byte(line), record)
			var meta = *record
			if err != nil {
''')]},
 main=THUMB+'''
func main() {
	k := thumbKit(`"storageType":"extension","storageName":"data","compress":"none"`)
	f := files{"x1": img("bad1"), "x2": img("bad2"), "x3": img("bad3")}
	for i := 0; i < 30; i++ {
		f[fmt.Sprint(i)] = img(fmt.Sprint("n", i))
	}
	ck(k.add("o", f, mode{}))
	for n, r := range k.thumbs("o") {
		if (r.Error != "") != (n[0] == 'x') {
			fail("%s: %+v", n, r)
		}
	}
}
'''),
]
