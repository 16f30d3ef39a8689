X="pkg/extension/"; O="pkg/ocfl/objectbase.go"
MGR=X+"NNNN-gocfl-extension-manager.go"
STREAMX='''
package main

import (
	"errors"
	"io"
	"io/fs"
	"strings"
	"time"

	"github.com/je4/gocfl/v2/pkg/ocfl"
)

// stream is an extension which reads up to n bytes and returns err.
type stream struct {
	name string
	fsys fs.FS
	n    int64
	err  error
	got  []string
}

func (s *stream) GetName() string                   { return s.name }
func (s *stream) SetFS(fsys fs.FS, create bool)     { s.fsys = fsys }
func (s *stream) GetFS() fs.FS                      { return s.fsys }
func (s *stream) SetParams(map[string]string) error { return nil }
func (s *stream) WriteConfig() error                { return nil }
func (s *stream) GetConfig() any                    { return map[string]string{"extensionName": s.name} }
func (s *stream) IsRegistered() bool                { return false }
func (s *stream) Terminate() error                  { return nil }
func (s *stream) StreamObject(_ ocfl.Object, r io.Reader, files []string, dest string) error {
	b, err := io.ReadAll(io.LimitReader(r, s.n))
	if err != nil {
		return err
	}
	s.got = append(s.got, string(b))
	return s.err
}

func kitWith(ss ...*stream) *kit {
	k := newKit("root")
	k.extra = map[string]func(fs.FS) (ocfl.Extension, error){}
	for _, s := range ss {
		k.obj[s.name] = ""
		k.extra[s.name] = func(x fs.FS) (ocfl.Extension, error) { s.fsys = x; return s, nil }
	}
	return k.init()
}

var errTest = errors.New("test")
var data = strings.Repeat("0123456789", 300000)

func timed(f func() error) error {
	ch := make(chan error, 1)
	go func() { ch <- f() }()
	select {
	case err := <-ch:
		return err
	case <-time.After(30 * time.Second):
		fail("does not end")
	}
	return nil
}

'''
CONC='''
package main

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
)

type builder interface {
	BuildStorageRootPath(ocfl.StorageRoot, string) (string, error)
}

func stress(b builder) {
	var ids, want []string
	for i := range 16 {
		id := strings.Repeat(fmt.Sprintf("urn:x:%d/", i), 1+3*(i%4))
		p, err := b.BuildStorageRootPath(nil, id)
		ck(err)
		ids, want = append(ids, id), append(want, p)
	}
	var wg sync.WaitGroup
	end := time.Now().Add(10 * time.Second)
	for g := range 16 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; time.Now().Before(end); i++ {
				p, err := b.BuildStorageRootPath(nil, ids[i%16])
				ck(err)
				if p != want[i%16] {
					fail("%q: %q instead of %q", ids[i%16], p, want[i%16])
				}
			}
		}()
	}
	wg.Wait()
}

'''
MIG='''
package main

import (
	"io"
	"io/fs"
	"net/url"
	"os"
	"strings"
	"time"

	"github.com/je4/gocfl/v2/config"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/gocfl/v2/pkg/subsystem/migration"
	ironmaiden "github.com/je4/indexer/v3/pkg/indexer"
	configutil "github.com/je4/utils/v2/pkg/config"
)

type action string

func (a action) result(data []byte) *ironmaiden.ResultV2 {
	r := ironmaiden.NewResultV2()
	r.Mimetype, r.Mimetypes = "text/x", []string{"text/x"}
	if a == "siegfried" && strings.HasPrefix(string(data), "OLD") {
		r.Pronom, r.Pronoms = "fmt/1", []string{"fmt/1"}
	}
	return r
}
func (a action) Stream(ct string, r io.Reader, name string) (*ironmaiden.ResultV2, error) {
	data, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	return a.result(data), nil
}
func (a action) DoV2(name string) (*ironmaiden.ResultV2, error) {
	data, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	return a.result(data), nil
}
func (a action) CanHandle(ct, name string) bool { return true }
func (a action) Do(*url.URL, string, *uint, *uint, *time.Duration, map[string]string) (any, []string, []string, error) {
	return nil, nil, nil, nil
}
func (a action) GetName() string                      { return string(a) }
func (a action) GetCaps() ironmaiden.ActionCapability { return ironmaiden.ACTALL | ironmaiden.ACTSTREAM }
func (a action) GetWeight() uint                      { return 1 }

func migKit(strategy migration.Strategy) *kit {
	k := newKit("root")
	k.obj = exts{
		extension.IndexerName:   `"storageType":"extension","storageName":"metadata","compress":"none","actions":["siegfried","xml"]`,
		extension.MigrationName: `"storageType":"extension","storageName":"metadata","compress":"none"`,
	}
	d := ironmaiden.NewActionDispatcher(nil)
	d.RegisterAction(action("siegfried"))
	d.RegisterAction(action("xml"))
	conf := &config.GOCFLConfig{Migration: &config.Migration{Enabled: true, Function: map[string]*config.MigrationFunction{
		"one": {ID: "one", Title: "one", Command: `/bin/sh -c 'sed s/^OLD/NEW/ < "{source}" > "{destination}"'`, Strategy: string(strategy), FilenameRegexp: "[.]old$", FilenameReplacement: ".new", Timeout: configutil.Duration(time.Minute), Pronoms: []string{"fmt/1"}},
	}}}
	mig, err := migration.GetMigrations(conf)
	ck(err)
	k.extra = map[string]func(fs.FS) (ocfl.Extension, error){
		extension.IndexerName:   func(x fs.FS) (ocfl.Extension, error) { return extension.NewIndexerFS(x, "", d, false, logger) },
		extension.MigrationName: func(x fs.FS) (ocfl.Extension, error) { return extension.NewMigrationFS(x, mig, logger) },
	}
	return k.init()
}

func body(s string) string { return s + strings.Repeat("x", 600) }

'''
seeds=[
dict(id="d01-error-channel",prop="C13",needs="two stream extensions which fail for the same file",breaks="the channel of the errors has room for one error only: the update never ends",
 edits={MGR:[("	extErrors := make(chan error, len(manager.stream))\n","	extErrors := make(chan error, 1)\n")]},
 main=STREAMX+'''
func main() {
	k := kitWith(&stream{name: "NNNN-a", n: 10, err: errTest}, &stream{name: "NNNN-b", n: 1 << 30, err: errTest})
	if err := timed(func() error { return k.add("o", files{"a": data}, mode{}) }); err == nil {
		fail("no error")
	}
}
'''),
dict(id="d02-failed-not-drained",prop="C13",needs="a stream extension which fails before the end of a file larger than the buffer",breaks="nobody reads the rest of the stream of an extension which failed: the update never ends",
 edits={MGR:[('''extension.GetName(), object.GetID())
			}
			// discard remaining data
			_, _ = io.Copy(io.Discard, r)
''','''extension.GetName(), object.GetID())
			} else {
				// discard remaining data
				_, _ = io.Copy(io.Discard, r)
			}
''')]},
 main=STREAMX+'''
func main() {
	k := kitWith(&stream{name: "NNNN-a", n: 10, err: errTest})
	if err := timed(func() error { return k.add("o", files{"a": data}, mode{}) }); err == nil {
		fail("no error")
	}
}
'''),
dict(id="d03-early-close",prop="C13",needs="an extension which does not read the whole stream of a file larger than the buffer, together with another one",breaks="the pipe of an extension which stops reading is closed, which ends the stream of the others and the update",
 edits={MGR:[('''			_, _ = io.Copy(io.Discard, r)
		}(pr, ext)
''','''			if c, ok := r.(io.Closer); ok {
				_ = c.Close()
			}
		}(pr, ext)
''')]},
 main=STREAMX+'''
func main() {
	a, b := &stream{name: "NNNN-a", n: 10}, &stream{name: "NNNN-b", n: 1 << 30}
	k := kitWith(a, b)
	ck(timed(func() error { return k.add("o", files{"a": data}, mode{}) }))
	if len(b.got) != 1 || b.got[0] != data {
		fail("the second extension has not got the content")
	}
}
'''),
dict(id="d04-escape-buffer",prop="C23",needs="two concurrent calls of BuildStorageRootPath of layout 0003",breaks="the escaped id is built in a buffer shared by all goroutines",
 edits={X+"0003-hash-and-id-n-tuple-storage-layout.go":[('''func escape(str string) string {
	var result = []byte{}
''','''// escapeBuffer avoids allocations for ids of common length
var escapeBuffer [256]byte

func escape(str string) string {
	var result = escapeBuffer[:0]
''')]},
 main=CONC+'''
func main() {
	c := &extension.StorageLayoutHashAndIdNTupleConfig{ExtensionConfig: &ocfl.ExtensionConfig{ExtensionName: extension.StorageLayoutHashAndIdNTupleName}, DigestAlgorithm: "sha256", TupleSize: 3, NumberOfTuples: 3}
	l, err := extension.NewStorageLayoutHashAndIdNTuple(c)
	ck(err)
	stress(l)
}
'''),
dict(id="d05-reset-unlocked",prop="C23",needs="two concurrent calls of BuildStorageRootPath of layout 0004",breaks="the shared hash is reset before the lock is taken",
 edits={X+"0004-hashed-n-tuple-storage-layout.go":[('''	sl.hashMutex.Lock()
	defer sl.hashMutex.Unlock()
	sl.hash.Reset()
	if _, err := sl.hash.Write([]byte(id)); err != nil {
		return "", errors.Wrapf(err, "cannot hash %s", id)
	}
	digestBytes''','''	sl.hash.Reset()
	sl.hashMutex.Lock()
	defer sl.hashMutex.Unlock()
	if _, err := sl.hash.Write([]byte(id)); err != nil {
		return "", errors.Wrapf(err, "cannot hash %s", id)
	}
	digestBytes''')]},
 main=CONC+'''
func main() {
	c := &extension.StorageLayoutHashedNTupleConfig{ExtensionConfig: &ocfl.ExtensionConfig{ExtensionName: extension.StorageLayoutHashedNTupleName}, DigestAlgorithm: "sha256", TupleSize: 3, NumberOfTuples: 3}
	l, err := extension.NewStorageLayoutHashedNTuple(c)
	ck(err)
	stress(l)
}
'''),
dict(id="d06-fs-default-area",prop="C26",needs="file system metadata of files of an area which is not the default one",breaks="the entries of the file system metadata name the files as if they were in the default area",
 edits={X+"NNNN-filesystem.go":[('''		newSrc, err := object.GetExtensionManager().BuildObjectStatePath(object, src, area)
''','''		newSrc, err := object.GetExtensionManager().BuildObjectStatePath(object, src, "")
''')]},
 main='''
package main

import (
	"strings"

	"github.com/je4/gocfl/v2/pkg/extension"
)

func main() {
	k := newKit("root")
	k.obj = exts{
		extension.ContentSubPathName: `"subPath":{"content":{"path":"data","description":"x"},"other":{"path":"meta","description":"x"}}`,
		extension.FilesystemName:     `"folders":"","storageType":"extension","storageName":"metadata","compress":"none"`,
	}
	k.init()
	ck(k.add("o", files{"a": "x"}, mode{area: "other"}))
	for n, c := range tree(k.dir) {
		if strings.Contains(n, "NNNN-filesystem") && strings.Contains(n, "v1") {
			if p := parse(c)["path"]; p != "meta/a" {
				fail("entry of %v instead of meta/a", p)
			}
			return
		}
	}
	fail("no entries")
}
'''),
dict(id="d07-replace-first-name",prop="C28",needs="strategy replace and a file to convert which has two names",breaks="only one name of the original is replaced",
 edits={X+"NNNN-migration.go":[("				for _, n := range stateFiles {\n					if slices.Contains(targetNames, n) {\n						continue\n					}\n					if err := object.DeleteFile(n, cs); err != nil {","				if n := stateFiles[0]; !slices.Contains(targetNames, n) {\n					if err := object.DeleteFile(n, cs); err != nil {")]},
 main=MIG+'''
func main() {
	k := migKit(migration.StrategyReplace)
	ck(k.add("o", files{"a.old": body("OLD"), "b.old": body("OLD")}, mode{}))
	got, err := k.extract("o", "", "", false)
	ck(err)
	same("migrated files", files{"a.new": body("NEW"), "b.new": body("NEW")}, got)
}
'''),
dict(id="d08-first-version-names",prop="C28",needs="a file to convert which is not part of the first version (or has another name there)",breaks="the names of the files to convert are those of the first version",
 edits={X+"NNNN-migration.go":[("		stateFiles, err := inventory.GetStateFiles(versions[len(versions)-2], cs)\n","		stateFiles, err := inventory.GetStateFiles(versions[0], cs)\n")]},
 main=MIG+'''
func main() {
	k := migKit(migration.StrategyAdd)
	ck(k.add("o", files{"a": "x"}, mode{}))
	ck(k.add("o", files{"b.old": body("OLD")}, mode{}))
	got, err := k.extract("o", "", "", false)
	ck(err)
	same("migrated files", files{"a": "x", "b.old": body("OLD"), "b.new": body("NEW")}, got)
}
'''),
dict(id="d09-keeps-files-open",prop="C25",needs="the validation of an object with two files in a ZIP container, which allows one open file only",breaks="the files of an object stay open until all of them have been read",
 edits={O:[('''	result := map[checksum.DigestAlgorithm]map[string][]string{}
	versions := object.i.GetVersionStrings()
''','''	result := map[checksum.DigestAlgorithm]map[string][]string{}
	opened := []io.Closer{}
	defer func() {
		for _, c := range opened {
			_ = c.Close()
		}
	}()
	versions := object.i.GetVersionStrings()
'''),('''				defer fp.Close()
				css, err := checksum.Copy(digestAlgorithms, fp, &checksum.NullWriter{})
''','''				opened = append(opened, fp)
				css, err := checksum.Copy(digestAlgorithms, fp, &checksum.NullWriter{})
''')]},
 main='''
package main

import (
	"archive/zip"
	"io/fs"
	"os"
	"path/filepath"
	"time"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"github.com/je4/filesystem/v3/pkg/writefs"
	"github.com/je4/filesystem/v3/pkg/zipfs"
)

func main() {
	k := newKit("root").init()
	ck(k.add("x1", files{"a": "x", "b": "y"}, mode{}))
	zf := filepath.Join(os.Args[1], "x.zip")
	f, err := os.Create(zf)
	ck(err)
	w := zip.NewWriter(f)
	for n, c := range tree(k.dir) {
		x, err := w.Create(n)
		ck(err)
		_, err = x.Write([]byte(c))
		ck(err)
	}
	ck(w.Close())
	ck(f.Close())
	k.wrap = func(fs.FS) fs.FS {
		f, err := writefs.NewFactory()
		ck(err)
		ck(f.Register(zipfs.NewCreateFSFunc(logger), `\\.zip$`, writefs.HighFS))
		ck(f.Register(osfsrw.NewCreateFSFunc(logger), "", writefs.LowFS))
		z, err := f.Get(zf)
		ck(err)
		return z
	}
	done := make(chan []string, 1)
	go func() { done <- k.errors() }()
	select {
	case e := <-done:
		if len(e) > 0 {
			fail("validation: %v", e)
		}
	case <-time.After(30 * time.Second):
		fail("the validation does not end")
	}
}
'''),
]
