O="pkg/ocfl/objectbase.go"
S="pkg/ocfl/storagerootbase.go"
STAT='''
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/je4/gocfl/v2/pkg/ocfl"
)

func (k *kit) stat(id string, infos ...ocfl.StatInfo) (string, error) {
	sr, _, _, err := k.load()
	ck(err)
	var b bytes.Buffer
	err = sr.Stat(&b, "", id, infos)
	return b.String(), err
}

var _ = fmt.Sprint
var _ = os.Remove
var _ = filepath.Join
var _ = strings.Contains
'''
RO='''
package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
)

// opener offers nothing but Open.
type opener struct{ fs.FS }

func (o opener) Open(n string) (fs.File, error) { return o.FS.Open(filepath.Clean(n)) }

// entries are all files and folders.
func (k *kit) entries() files {
	r := files{}
	ck(filepath.Walk(k.dir, func(p string, fi os.FileInfo, err error) error {
		ck(err)
		r[p] = fmt.Sprint(fi.Mode(), fi.ModTime().UnixNano())
		if !fi.IsDir() {
			b, err := os.ReadFile(p)
			ck(err)
			r[p] += string(b)
		}
		return nil
	}))
	return r
}
'''
seeds=[
dict(id="g01-stat-copies",prop="C33",needs="content that is stored more than once (no deduplication) and has logical paths of different names",breaks="the statistics name only a part of the content paths of a logical path",
 edits={O:[('''								for _, m := range ms {
									fmt.Fprintf(w, "[%s]           %s\\n", object.GetID(), m)
''','''								for _, m := range ms {
									// the copy which belongs to this path
									if len(ms) == 1 || strings.HasSuffix(m, s) {
										fmt.Fprintf(w, "[%s]           %s\\n", object.GetID(), m)
									}
''')]},
 main=STAT+'''
func main() {
	k := newKit("root").init()
	ck(k.add("o", files{"a": "X", "b": "X", "c": "Y"}, mode{area: "content"}))
	ck(k.add("o", files{"a": "X", "d": "X", "c": "Y"}, mode{area: "content", echo: true, dedup: true}))
	t, err := k.stat("o")
	ck(err)
	for _, p := range []string{"v1/content/a", "v1/content/b"} {
		if n := strings.Count(t, p+"\\n"); n != 4 {
			fail("%d times %s in\\n%s", n, p, t)
		}
	}
}
'''),
dict(id="g02-stat-skips-objects",prop="C33",needs="an object of the storage root that cannot be loaded while the statistics of the whole storage root are made",breaks="the object is left out without an error",
 edits={S:[('''				o, err := osr.LoadObjectByFolder(oFolder)
				if err != nil {
					return errors.Wrapf(err, "cannot open object in folder '%s'", oFolder)
				}
				if _, err := fmt''','''				o, err := osr.LoadObjectByFolder(oFolder)
				if err != nil {
					// the others can be shown nevertheless
					osr.logger.Error().Err(err).Msgf("cannot open object in folder '%s'", oFolder)
					continue
				}
				if _, err := fmt''')]},
 main=STAT+'''
func main() {
	k := newKit("root").init()
	for _, id := range []string{"o", "p"} {
		ck(k.add(id, files{"a": id}, mode{area: "content"}))
	}
	if t, err := k.stat(""); err != nil || !strings.Contains(t, "[p] Head: v1") {
		fail("%v %s", err, t)
	}
	ck(os.Remove(filepath.Join(k.dir, "p/inventory.json")))
	if t, err := k.stat(""); err == nil && !strings.Contains(t, "[p] Head: v1") {
		fail("no error, but the object is missing: %s", t)
	}
}
'''),
dict(id="g03-exists-creates",prop="C34",needs="asking for an object that does not exist in a storage root with a flat layout",breaks="the question creates an empty folder in the storage root",
 edits={S:[('''	subFS, err := fs.Sub(osr.fsys, folder)
	if errors.Is(err, fs.ErrNotExist) {
		return false, nil
	}
''','''	subFS, err := writefs.SubFSCreate(osr.fsys, folder)
	if errors.Is(err, fs.ErrNotExist) {
		return false, nil
	}
''')]},
 main=RO+'''
func main() {
	k := newKit("root").init()
	ck(k.add("o", files{"a": "X"}, mode{area: "content"}))
	before := k.entries()
	sr, _, _, err := k.load()
	ck(err)
	for id, want := range map[string]bool{"o": true, "p": false} {
		if ok, err := sr.ObjectExists(id); err != nil || ok != want {
			fail("%s: %v %v", id, ok, err)
		}
	}
	same("after asking", before, k.entries())
}
'''),
dict(id="g04-load-creates-folder",prop="C34",needs="a storage root on a file system that can only be read",breaks="no object can be loaded",
 edits={S:[('''	subfs, err := fs.Sub(osr.fsys, folder)
	if err != nil {
		return nil, errors.Wrapf(err, "cannot create subfs of '%v' for '%s'", osr.fsys, folder)
	}
''','''	subfs, err := writefs.SubFSCreate(osr.fsys, folder)
	if err != nil {
		return nil, errors.Wrapf(err, "cannot create subfs of '%v' for '%s'", osr.fsys, folder)
	}
''')]},
 main=RO+'''
func main() {
	k := newKit("root").init()
	ck(k.add("o", files{"a": "X"}, mode{area: "content"}))
	k.wrap = func(f fs.FS) fs.FS { return opener{f} }
	sr, _, _, err := k.load()
	ck(err)
	o, err := sr.LoadObjectByID("o")
	ck(err)
	if o.GetID() != "o" {
		fail("wrong object")
	}
}
'''),
dict(id="g05-sidecar-repair",prop="C34",needs="loading an object whose inventory has no sidecar",breaks="reading writes into the storage",
 edits={O:[('''	if err != nil {
		if errors.Is(err, fs.ErrNotExist) {
			object.addValidationError(E058, "sidecar '%v/%s' does not exist", object.fsys, sidecarPath)
''','''	if err != nil {
		if errors.Is(err, fs.ErrNotExist) {
			object.addValidationError(E058, "sidecar '%v/%s' was not there", object.fsys, sidecarPath)
			// make it available for the next time
			if sum, err := checksum.Checksum(bytes.NewReader(inventoryBytes), digest); err == nil {
				_, _ = writefs.WriteFile(object.fsys, sidecarPath, []byte(fmt.Sprintf("%s inventory.json", sum)))
			}
''')]},
 main=RO+'''
func main() {
	k := newKit("root").init()
	ck(k.add("o", files{"a": "X"}, mode{area: "content"}))
	ck(os.Remove(filepath.Join(k.dir, "o/inventory.json.sha512")))
	before := k.entries()
	if len(k.errors()) == 0 {
		fail("not noticed")
	}
	same("after the check", before, k.entries())
}
'''),
]
