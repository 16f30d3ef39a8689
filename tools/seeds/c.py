O="pkg/ocfl/objectbase.go"; I="pkg/ocfl/inventorybase.go"; H="pkg/ocfl/helper.go"; S="pkg/ocfl/storagerootbase.go"
X="pkg/extension/"
seeds=[
dict(id="c01-fixity-first-only",prop="C09",needs="two content files with the same fixity digest (ingest without deduplication)",breaks="the fixity block lists only the first content file of each digest",
 edits={I:[('''		if !slices.Contains(i.Fixity[alg][fixityDigest], manifestFilename) {''','''		if len(i.Fixity[alg][fixityDigest]) == 0 {''')]},
 main='''
package main

import "github.com/je4/utils/v2/pkg/checksum"

func main() {
	k := newKit("root")
	k.fixity = []checksum.DigestAlgorithm{"sha256"}
	k.init()
	ck(k.add("o", files{"a": "x", "b": "x", "c": "y"}, mode{}))
	inv := parse(tree(k.dir)["o/inventory.json"])
	n := 0
	for _, l := range inv["fixity"].(map[string]any)["sha256"].(map[string]any) {
		n += len(l.([]any))
	}
	if n != 3 {
		fail("%d content files with a fixity digest instead of 3", n)
	}
}
'''),
dict(id="c02-manifest-once",prop="C14",needs="a version in which a content has several names, extracted with manifest",breaks="the manifest of an extraction lists only one name of each content",
 edits={O:[('''			if withManifest {
				manifest.WriteString(''','''			// every digest is listed once
			if withManifest && !strings.Contains(manifest.String(), digest+" ") {
				manifest.WriteString(''')]},
 main='''
package main

import "strings"

func main() {
	k := newKit("root").init()
	ck(k.add("o", files{"a": "x", "b": "x", "c": "y"}, mode{dedup: true}))
	got, err := k.extract("o", "", "", true)
	ck(err)
	m := got["manifest.sha512"]
	for _, n := range []string{" a\\n", " b\\n", " c\\n"} {
		if !strings.Contains(m, n) {
			fail("%q missing in the manifest", n)
		}
	}
}
'''),
dict(id="c03-hidden-folders",prop="C18",needs="an object whose folder starts with a period",breaks="objects in hidden folders are not enumerated",
 edits={S:[('''			if !dir.IsDir() || dir.Name() == "." || dir.Name() == ".." {'''[1:],'''			if !dir.IsDir() || dir.Name()[0] == '.' {'''[1:])]},
 main='''
package main

import "fmt"

func main() {
	k := newKit("root").init()
	ck(k.add("o", files{"a": "x"}, mode{}))
	ck(k.add(".hidden", files{"a": "x"}, mode{}))
	sr, _, _, err := k.load()
	ck(err)
	l, err := sr.GetObjectFolders()
	ck(err)
	if fmt.Sprint(l) != "[.hidden o]" {
		fail("%v", l)
	}
}
'''),
dict(id="c04-declaration-prefix",prop="C19",needs="a root declaration whose content goes on after the version",breaks="declarations with additional content are accepted",
 edits={H:[('''			if string(cnt) != t+"\\n" && string(cnt) != t+"\\r\\n" {''','''			if !strings.HasPrefix(string(cnt), t+"\\n") && !strings.HasPrefix(string(cnt), t+"\\r\\n") {''')]},
 main='''
package main

import (
	"os"
	"path/filepath"
)

func main() {
	k := newKit("root").init()
	ck(k.add("o", files{"a": "x"}, mode{}))
	if e := k.errors(); len(e) > 0 {
		fail("%v", e)
	}
	ck(os.WriteFile(filepath.Join(k.dir, "0=ocfl_1.1"), []byte("ocfl_1.1\\n1.0\\n"), 0644))
	if e := k.errors(); len(e) == 0 {
		fail("wrong declaration not reported")
	}
}
'''),
dict(id="c05-metadata-one-name",prop="C20",needs="a content with several names in one version",breaks="the metadata has only one logical name of each content and version",
 edits={O:[('''					fm.VersionName[v] = append(fm.VersionName[v], fnames...)''','''					if len(fnames) > 0 && !slices.Contains(fm.VersionName[v], fnames[0]) {
						fm.VersionName[v] = append(fm.VersionName[v], fnames[0])
					}''')]},
 main='''
package main

func main() {
	k := newKit("root").init()
	ck(k.add("o", files{"a": "x", "b": "x", "c": "y"}, mode{dedup: true}))
	sr, _, _, err := k.load()
	ck(err)
	m, err := sr.ExtractMeta("", "o")
	ck(err)
	n := 0
	for _, f := range m.Objects["o"].Files {
		n += len(f.VersionName["v1"])
	}
	if n != 3 {
		fail("%d logical names instead of 3", n)
	}
}
'''),
dict(id="c06-default-area-content",prop="C21",needs="a file of the default area whose path equals the content path of a file of another area",breaks="content of the default area is stored without the path of the area and collides with other areas",
 edits={X+"NNNN-content-subpath.go":[('''func (sl *ContentSubPath) BuildObjectManifestPath(object ocfl.Object, originalPath string, area string) (string, error) {
	if area == "" {
		area = sl.area
	}
''','''func (sl *ContentSubPath) BuildObjectManifestPath(object ocfl.Object, originalPath string, area string) (string, error) {
	if area == "" || area == sl.area {
		return originalPath, nil
	}
''')]},
 main='''
package main

import "github.com/je4/gocfl/v2/pkg/extension"

func main() {
	k := newKit("root")
	k.obj[extension.ContentSubPathName] = `"subPath":{"content":{"path":"payload","description":"p"},"meta":{"path":"metadata","description":"m"}}`
	k.params["ext-NNNN-content-subpath-area"] = "content"
	k.init()
	ck(k.add("o", files{"a": "x", "metadata/a": "y"}, mode{}))
	ck(k.add("o", files{"a": "z"}, mode{area: "meta"}))
	o, err := k.open("o")
	ck(err)
	src := k.source(files{"metadata/b": "1"})
	src2 := k.source(files{"b": "2"})
	v, err := o.StartUpdate(src, "m", "u", "a:b", false)
	ck(err)
	ck(o.AddFolder(src, v, false, "content"))
	ck(o.AddFolder(src2, v, false, "meta"))
	ck(o.EndUpdate())
	ck(o.Close())
	got, err := k.extract("o", "", "meta", false)
	ck(err)
	same("meta", files{"a": "z", "b": "2"}, got)
	got, err = k.extract("o", "", "content", false)
	ck(err)
	same("content", files{"a": "x", "metadata/a": "y", "metadata/b": "1"}, got)
}
'''),
dict(id="c07-delete-in-place",prop="C24",needs="deletion of a path of a content which has several names; the copy of the state and the deletion share memory",breaks="deleting a path changes the state of the previous version in the new inventory",
 edits={H:[('''		dest[key] = make([]string, len(val))
		copy(dest[key], val)
''','''		dest[key] = slices.Clip(val)
''')],I:[('''		newState[key] = []string{}
		for _, val := range state {
			if val == stateFilename {
				found = true
			} else {
				newState[key] = append(newState[key], val)
			}
		}
	}
	i.Versions.Versions[i.GetHead()].State.State = newState
	if found {
		i.modified = found
		i.logger.Info().Msgf("[%s] removing''','''		if num := slices.Index(state, stateFilename); num >= 0 {
			found = true
			state = slices.Delete(state, num, num+1)
		}
		newState[key] = state
	}
	i.Versions.Versions[i.GetHead()].State.State = newState
	if found {
		i.modified = found
		i.logger.Info().Msgf("[%s] removing''')]},
 main='''
package main

func main() {
	k := newKit("root").init()
	ck(k.add("o", files{"a": "x", "b": "x", "c": "x"}, mode{dedup: true}))
	o, err := k.open("o")
	ck(err)
	_, err = o.StartUpdate(k.source(nil), "m", "u", "a:b", false)
	ck(err)
	var d string
	for d = range o.GetInventory().GetManifest() {
	}
	ck(o.DeleteFile("a", d))
	ck(o.EndUpdate())
	ck(o.Close())
	got, err := k.extract("o", "v2", "", false)
	ck(err)
	same("v2", files{"b": "x", "c": "x"}, got)
	got, err = k.extract("o", "v1", "", false)
	ck(err)
	same("v1", files{"a": "x", "b": "x", "c": "x"}, got)
}
'''),
dict(id="c08-sidecar-close",prop="C11",needs="closing the sidecar file of a version inventory fails",breaks="the error of closing the sidecar of the version inventory is lost",
 edits={O:[('''		if _, err := iCSWriter.Write([]byte(checksumString)); err != nil {
			iCSWriter.Close()
			return errors.Wrapf(err, "cannot write to '%s'", csFileName)
		}
		if err := iCSWriter.Close(); err != nil {
			return errors.Wrapf(err, "cannot close '%v/%s'", object.fsys, csFileName)
		}
''','''		defer iCSWriter.Close()
		if _, err := iCSWriter.Write([]byte(checksumString)); err != nil {
			return errors.Wrapf(err, "cannot write to '%s'", csFileName)
		}
''')]},
 main='''
package main

import (
	"errors"
	"io/fs"
	"strings"

	"github.com/je4/filesystem/v3/pkg/writefs"
)

// failFS buffers the sidecar of a version until it is closed, and fails then.
type failFS struct {
	fs.FS
	dir string
}

type failFile struct{ writefs.FileWrite }

func (f failFile) Write(p []byte) (int, error) { return len(p), nil }
func (f failFile) Close() error                { f.FileWrite.Close(); return errors.New("disk full") }

func (f failFS) Create(p string) (writefs.FileWrite, error) {
	w, err := writefs.Create(f.FS, p)
	if err == nil && strings.HasSuffix(f.dir+p, "v1/inventory.json.sha512") {
		return failFile{w}, nil
	}
	return w, err
}
func (f failFS) MkDir(p string) error                       { return writefs.MkDir(f.FS, p) }
func (f failFS) ReadDir(p string) ([]fs.DirEntry, error)    { return fs.ReadDir(f.FS, p) }
func (f failFS) ReadFile(p string) ([]byte, error)          { return fs.ReadFile(f.FS, p) }
func (f failFS) Stat(p string) (fs.FileInfo, error)         { return fs.Stat(f.FS, p) }
func (f failFS) WriteFile(p string, d []byte) (int, error)  { return writefs.WriteFile(f.FS, p, d) }
func (f failFS) Sub(p string) (fs.FS, error) {
	s, err := fs.Sub(f.FS, p)
	if err != nil {
		return nil, err
	}
	return failFS{s, f.dir + p + "/"}, nil
}

func main() {
	k := newKit("root").init()
	k.wrap = func(f fs.FS) fs.FS { return failFS{f, ""} }
	if err := k.add("o", files{"a": "x"}, mode{}); err == nil {
		fail("lost sidecar not reported")
	}
}
'''),
dict(id="c09-unfinished-version",prop="C12",needs="a crash after content of a new version was written and before its inventory",breaks="validation does not report a version folder which is not part of the inventory if it has no inventory itself",
 edits={O:[('''			if !slices.Contains(allowedDirs, entry.Name()) {
				object.addValidationError(E001''','''			unfinished := false
			if vRegexp.MatchString(entry.Name()) {
				// unfinished versions are replaced by the next update
				_, err := fs.Stat(object.fsys, entry.Name()+"/inventory.json")
				unfinished = errors.Is(err, fs.ErrNotExist)
			}
			if !slices.Contains(allowedDirs, entry.Name()) && !unfinished {
				object.addValidationError(E001''')]},
 main='''
package main

import (
	"os"
	"path/filepath"
)

func main() {
	k := newKit("root").init()
	ck(k.add("o", files{"a": "x"}, mode{}))
	if e := k.errors(); len(e) > 0 {
		fail("%v", e)
	}
	// the files of an interrupted update
	ck(os.MkdirAll(filepath.Join(k.dir, "o/v2/content"), 0755))
	ck(os.WriteFile(filepath.Join(k.dir, "o/v2/content/b"), []byte("trunca"), 0644))
	if e := k.errors(); len(e) == 0 {
		fail("interrupted update not reported")
	}
}
'''),
dict(id="c10-echo-walk-order",prop="C10",needs="an identical update with echo and names whose walk order is not their lexical order ('a.b' and 'a/b')",breaks="unchanged files are deleted by an echo update",
 edits={O:[('''	slices.Sort(object.updateFiles)
	object.updateFiles = slices.Compact(object.updateFiles)
	basePath''','''	// WalkDir is in lexical order
	object.updateFiles = slices.Compact(object.updateFiles)
	basePath''')]},
 main='''
package main

func main() {
	k := newKit("root").init()
	fl := files{"a.b": "1", "a/b": "2", "a-c": "3", "a/c/d": "4", "a/c.d": "5"}
	ck(k.add("o", fl, mode{dedup: true, echo: true}))
	before := tree(k.dir)
	ck(k.add("o", fl, mode{dedup: true, echo: true}))
	same("identical update", before, tree(k.dir))
}
'''),
dict(id="c11-limit-100",prop="C15",needs="an id whose escaped form has exactly 100 characters",breaks="escaped ids of exactly 100 characters get a digest suffix",
 edits={X+"0003-hash-and-id-n-tuple-storage-layout.go":[("if len(path) > 100 {","if len(path) >= 100 {")]},
 main='''
package main

import (
	"strings"

	"github.com/je4/gocfl/v2/pkg/extension"
)

func main() {
	k := newKit("root")
	k.root = exts{extension.StorageLayoutHashAndIdNTupleName: `"digestAlgorithm":"sha256","tupleSize":0,"numberOfTuples":0`}
	k.init()
	for _, n := range []int{99, 100} {
		id := strings.Repeat("a", n)
		ck(k.add(id, files{"a": "x"}, mode{}))
		if _, ok := tree(k.dir)[id+"/inventory.json"]; !ok {
			fail("object of length %d is not in its folder", n)
		}
	}
}
'''),
dict(id="c12-long-ids",prop="C16",needs="two ids of more than 100 characters which differ behind the first 100 and share their tuples",breaks="the digest suffix of long ids is omitted if there are tuples, different ids get the same folder",
 edits={X+"0003-hash-and-id-n-tuple-storage-layout.go":[('''		path += "-" + digest
''','''		if rest := digest[sl.NumberOfTuples*sl.TupleSize:]; len(rest) == len(digest) {
			path += "-" + rest
		}
''')]},
 main='''
package main

import (
	"fmt"
	"strings"

	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
)

func main() {
	l, err := extension.NewStorageLayoutHashAndIdNTuple(&extension.StorageLayoutHashAndIdNTupleConfig{
		ExtensionConfig: &ocfl.ExtensionConfig{ExtensionName: extension.StorageLayoutHashAndIdNTupleName},
		DigestAlgorithm: "sha256", TupleSize: 1, NumberOfTuples: 1,
	})
	ck(err)
	seen := map[string]string{}
	for i := 0; i < 200; i++ {
		id := strings.Repeat("a", 100) + fmt.Sprint(i)
		p, err := l.BuildStorageRootPath(nil, id)
		ck(err)
		if o, ok := seen[p]; ok {
			fail("%s and %s have the same folder %s", o, id, p)
		}
		seen[p] = id
	}
}
'''),
dict(id="c13-empty-replacement",prop="C17",needs="a configuration with an explicitly empty replacement string",breaks="an empty replacement string is not written and comes back as the default",
 edits={X+"NNNN-direct-clean-path-layout.go":[('''`json:"replacementString"`''','''`json:"replacementString,omitempty"`''')]},
 main='''
package main

import "github.com/je4/gocfl/v2/pkg/extension"

func main() {
	k := newKit("root")
	k.root = exts{extension.DirectCleanName: `"maxPathSegmentLen":127,"maxPathnameLen":32000,"replacementString":"","whitespaceReplacementString":"","utfEncode":false`}
	k.init()
	ck(k.add("a:b", files{"a": "x"}, mode{}))
	if _, ok := tree(k.dir)["ab/inventory.json"]; !ok {
		fail("object is not in its folder: %v", tree(k.dir))
	}
	ck(k.add("a:b", files{"a": "y"}, mode{}))
	if _, ok := tree(k.dir)["ab/v2/inventory.json"]; !ok {
		fail("update went elsewhere")
	}
}
'''),
dict(id="c14-exclusion-two",prop="C22",needs="an exclusion group of which at least three extensions are active",breaks="only one of the superfluous extensions of an exclusion group is removed",
 edits={X+"NNNN-gocfl-extension-manager.go":[('''	for i := len(remove) - 1; i >= 0; i-- {
		list = slices.Delete(list, remove[i], remove[i]+1)
	}
''','''	if len(remove) > 0 {
		list = slices.Delete(list, remove[0], remove[0]+1)
	}
''')]},
 main='''
package main

import "github.com/je4/gocfl/v2/pkg/extension"

func main() {
	k := newKit("root")
	k.root = exts{
		extension.StorageLayoutFlatDirectName:      "",
		extension.StorageLayoutHashedNTupleName:    `"digestAlgorithm":"sha256","tupleSize":3,"numberOfTuples":3,"shortObjectRoot":false`,
		extension.FlatOmitPrefixStorageLayoutName:  `"delimiter":":"`,
		extension.GOCFLExtensionManagerName:        `"sort":{},"exclusion":{"StorageRootPath":[["` + extension.StorageLayoutFlatDirectName + `","` + extension.FlatOmitPrefixStorageLayoutName + `","` + extension.StorageLayoutHashedNTupleName + `"]]}`,
	}
	k.init()
	ck(k.add("x:o", files{"a": "x"}, mode{}))
	if _, ok := tree(k.dir)["x:o/inventory.json"]; !ok {
		fail("object is not where the first layout of the group puts it")
	}
}
'''),
dict(id="c15-segment-runes",prop="C27",needs="a path segment of non-ASCII characters which is too long in bytes but not in characters",breaks="the length of path segments is measured in characters",
 edits={X+"NNNN-direct-clean-path-layout.go":[("		lenN := len(n)\n","		lenN := len([]rune(n))\n")]},
 main='''
package main

import (
	"path"
	"strings"

	"github.com/je4/gocfl/v2/pkg/extension"
)

func main() {
	k := newKit("root")
	k.root = exts{extension.DirectCleanName: `"maxPathSegmentLen":127,"maxPathnameLen":32000,"replacementString":"_","whitespaceReplacementString":" ","utfEncode":false`}
	k.init()
	ck(k.add(strings.Repeat("ä", 100), files{"a": "x"}, mode{}))
	for n := range tree(k.dir) {
		for _, s := range strings.Split(path.Dir(n), "/") {
			if len(s) > 127 {
				fail("path segment of %d bytes", len(s))
			}
		}
	}
}
'''),
dict(id="c16-empty-files",prop="C01",needs="an empty file in the source",breaks="empty files are not ingested",
 edits={O:[('''		if err := object.AddFile(fsys, versionFS, path, checkDuplicate, area, false, info.IsDir()); err != nil {''','''		if fi, err := info.Info(); err == nil && fi.Mode().IsRegular() && fi.Size() == 0 {
			object.logger.Debug().Msgf("ignoring placeholder '%s'", path)
		} else if err := object.AddFile(fsys, versionFS, path, checkDuplicate, area, false, info.IsDir()); err != nil {''')]},
 main='''
package main

func main() {
	k := newKit("root").init()
	fl := files{"a": "x", "d/empty": ""}
	ck(k.add("o", fl, mode{}))
	got, err := k.extract("o", "", "", false)
	ck(err)
	same("files", fl, got)
}
'''),
]
