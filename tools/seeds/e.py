S="gocfl/cmd/display/server.go"; M="pkg/extension/NNNN-mets.go"
VIEW='''
package main

import (
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/gin-gonic/gin"
	"github.com/je4/gocfl/v2/data/displaydata"
	"github.com/je4/gocfl/v2/gocfl/cmd/display"
)

var _ = fmt.Sprint
var _ = sort.Strings
var _ = strings.Split
var _ sync.Mutex
var _ time.Time

// viewer returns the handler of the viewer for the storage root of k.
func viewer(k *kit) http.Handler {
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
	sr, _, _, err := k.load()
	ck(err)
	u, _ := url.Parse("http://viewer.test")
	tpl, err := fs.Sub(displaydata.TemplateRoot, "templates")
	ck(err)
	s, err := display.NewServer(sr, "gocfl", "127.0.0.1:-1", u, displaydata.WebRoot, tpl, logger, io.Discard)
	ck(err)
	s.ListenAndServe("", "") // no such port
	x := reflect.ValueOf(s).Elem()
	for i := 0; i < x.NumField(); i++ {
		if f := x.Field(i); f.Type() == reflect.TypeOf((*http.Server)(nil)) && !f.IsNil() {
			return (*http.Server)(unsafe.Pointer(f.Pointer())).Handler
		}
	}
	fail("no handler")
	return nil
}

func get(h http.Handler, target string) (int, string) {
	u, err := url.ParseRequestURI(target)
	ck(err)
	r := httptest.NewRequest("GET", "/", nil)
	r.URL, r.RequestURI = u, target
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	return w.Code, w.Body.String()
}

func sum(s string) string { return fmt.Sprintf("%x", sha512.Sum512([]byte(s))) }
'''.replace('import (\n','import (\n\t"crypto/sha512"\n',1)
METS='''
package main

import (
	"encoding/xml"
	"io/fs"
	"os"
	"path/filepath"
	"strings"

	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
)

var _ = filepath.Join
var _ = os.ReadFile
var _ = strings.Split

func metsKit(cfg string) *kit {
	k := newKit("root")
	k.extra = map[string]func(fs.FS) (ocfl.Extension, error){extension.METSName: func(f fs.FS) (ocfl.Extension, error) { return extension.NewMetsFS(f, logger) }}
	k.obj[extension.METSName] = cfg
	return k.init()
}

type node struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Kids    []node     `xml:",any"`
}

func (n *node) walk(f func(*node)) {
	f(n)
	for i := range n.Kids {
		n.Kids[i].walk(f)
	}
}

func (n *node) attr(name string) string {
	for _, a := range n.Attrs {
		if a.Name.Local == name {
			return a.Value
		}
	}
	return ""
}

func readXML(name string) *node {
	b, err := os.ReadFile(name)
	ck(err)
	n := &node{}
	ck(xml.Unmarshal(b, n))
	return n
}
'''
seeds=[
dict(id="e01-download-plus",prop="C30",needs="an identifier with a plus sign",breaks="downloads take the identifier for a query value: the plus sign becomes a blank and the object is not found, or another object's file is delivered",
 edits={S:[('''func (s *Server) download(c *gin.Context) {
	var err error
	type idParam struct {
		ID       string `uri:"id" binding:"required"`
		Checksum string `uri:"checksum" binding:"required"`
	}
	var iop idParam
	if err = c.ShouldBindUri(&iop); err != nil {
		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
		return
	}
	iop.ID, err = url.PathUnescape(iop.ID)
''','''func (s *Server) download(c *gin.Context) {
	var err error
	type idParam struct {
		ID       string `uri:"id" binding:"required"`
		Checksum string `uri:"checksum" binding:"required"`
	}
	var iop idParam
	if err = c.ShouldBindUri(&iop); err != nil {
		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
		return
	}
	iop.ID, err = url.QueryUnescape(iop.ID)
''')]},
 main=VIEW+'''
func main() {
	k := newKit("root").init()
	ck(k.add("a+b", files{"x": "text of a+b"}, mode{}))
	h := viewer(k)
	if c, b := get(h, "/object/id/a+b/download/"+sum("text of a+b")+"/x"); c != 200 || b != "text of a+b" {
		fail("download: %d %q", c, b)
	}
}
'''),
dict(id="e02-shared-map",prop="C30",needs="two requests for version pages at the same time",breaks="the map of the files of a version page is reused for the next request; requests at the same time get names of each other",
 edits={S:[('''	var files = map[string]*fEntry{}
	var filenames = []string{}

	for checksum, file := range metadata.Files {
		extMigrationAny, _ := file.Extension[extension.MigrationName]
		var extMigration *extension.MigrationResult
		if extMigrationAny != nil {
			extMigration = extMigrationAny.(*extension.MigrationResult)
		}
		extIndexerAny, _ := file.Extension[extension.IndexerName]
		var extIndexer *indexer.ResultV2
		if extIndexerAny != nil {
			extIndexer, _ = extIndexerAny.(*indexer.ResultV2)
		}
		extFilesystemAny''','''	files, ok := s.versionFiles.(map[string]*fEntry)
	if !ok {
		files = map[string]*fEntry{}
		s.versionFiles = files
	}
	clear(files)
	var filenames = []string{}

	for checksum, file := range metadata.Files {
		extMigrationAny, _ := file.Extension[extension.MigrationName]
		var extMigration *extension.MigrationResult
		if extMigrationAny != nil {
			extMigration = extMigrationAny.(*extension.MigrationResult)
		}
		extIndexerAny, _ := file.Extension[extension.IndexerName]
		var extIndexer *indexer.ResultV2
		if extIndexerAny != nil {
			extIndexer, _ = extIndexerAny.(*indexer.ResultV2)
		}
		extFilesystemAny'''),('''type Server struct {
''','''type Server struct {
	versionFiles   any // the map of the last version page, used again
''')]},
 main=VIEW+'''
func main() {
	k := newKit("root").init()
	for _, id := range []string{"a", "b"} {
		f := files{}
		for i := 0; i < 40; i++ {
			f[fmt.Sprintf("name-%s-%d", id, i)] = fmt.Sprint(id, i)
		}
		ck(k.add(id, f, mode{}))
	}
	h := viewer(k)
	stop := time.Now().Add(20 * time.Second)
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	for i := 0; i < 8; i++ {
		id := []string{"a", "b"}[i%2]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 3000 && time.Now().Before(stop); n++ {
				c, b := get(h, "/object/id/"+id+"/version/v1")
				m := ""
				if c != 200 {
					m = fmt.Sprint("status ", c)
				}
				for j := 0; j < 40; j++ {
					if !strings.Contains(b, fmt.Sprintf("name-%s-%d", id, j)) {
						m = fmt.Sprintf("page of %s without name-%s-%d", id, id, j)
					}
				}
				mu.Lock()
				if m != "" {
					bad = m
				}
				end := bad != ""
				mu.Unlock()
				if end {
					return
				}
			}
		}()
	}
	wg.Wait()
	if bad != "" {
		fail("%s", bad)
	}
}
'''),
dict(id="e03-manifest-first-copy",prop="C30",needs="the same content stored twice (ingested without deduplication)",breaks="the manifest page lists only the first of the storage locations of a content",
 edits={S:[('''		for _, name := range file.InternalName {
			fe := &fEntry{''','''		for _, name := range file.InternalName[:1] {
			fe := &fEntry{''')]},
 main=VIEW+'''
func main() {
	k := newKit("root").init()
	ck(k.add("a", files{"x": "text", "y": "text"}, mode{}))
	_, b := get(viewer(k), "/object/id/a/manifest")
	for _, n := range []string{"v1/content/x", "v1/content/y"} {
		if !strings.Contains(b, n) {
			fail("manifest page without %s", n)
		}
	}
}
'''),
dict(id="e04-report-renames",prop="C30",needs="the short report requested before a page of the same object",breaks="the short report cuts the names of the files in the metadata which the following requests use",
 edits={S:[('''			for _, filename := range files {
				filenames = append(filenames, filename)
				parts := strings.Split(filename, "/")
				if !full {
					parts = parts[0 : len(parts)-1]
				}
''','''			for i, filename := range files {
				filenames = append(filenames, filename)
				if !full {
					files[i] = filename[:strings.LastIndex(filename, "/")+1]
				}
				parts := strings.Split(strings.TrimSuffix(files[i], "/"), "/")
''')]},
 main=VIEW+'''
func main() {
	k := newKit("root").init()
	ck(k.add("a", files{"d/x": "text"}, mode{}))
	h := viewer(k)
	get(h, "/object/id/a/report")
	if _, b := get(h, "/object/id/a/version/v1"); !strings.Contains(b, "d/x") {
		fail("version page without d/x")
	}
}
'''),
dict(id="e05-mets-equal-contents",prop="C29",needs="two files with equal contents in the same version",breaks="files with equal contents get the same identifier in the METS file",
 edits={M:[('''			for _, extPath := range extNames {

				val := metsInternalFiledata{
					uuid: "uuid-" + uuid.NewString(),
					cs:   cs,
				}
''','''			val := metsInternalFiledata{
				uuid: "uuid-" + uuid.NewString(),
				cs:   cs,
			}
			for _, extPath := range extNames {
''')]},
 main=METS+'''
func main() {
	k := metsKit(`"storageType":"area","storageName":"metadata","primaryDescriptiveMetadata":""`)
	ck(k.add("a", files{"x": "text", "y": "text"}, mode{dedup: true}))
	seen := map[string]bool{}
	readXML(filepath.Join(k.dir, "a/v1/content/mets.xml")).walk(func(n *node) {
		if id := n.attr("ID"); id != "" {
			if seen[id] {
				fail("identifier %s is used twice", id)
			}
			seen[id] = true
		}
	})
}
'''),
dict(id="e06-mets-primary-suffix",prop="C29",needs="a file in a folder with the name of the configured descriptive metadata, which is missing itself",breaks="instead of an error any file with this name in any folder is taken for the descriptive metadata",
 edits={M:[('''				for _, name := range ver {
					if name == metaFilename {''','''				for _, name := range ver {
					if strings.HasSuffix("/"+name, "/"+metaFilename) {''')]},
 main=METS+'''
func main() {
	k := metsKit(`"storageType":"area","storageName":"metadata","primaryDescriptiveMetadata":"ead:a.xml"`)
	if err := k.add("a", files{"d/a.xml": "<other/>"}, mode{}); err == nil {
		fail("no error for missing descriptive metadata a.xml")
	}
}
'''),
]
