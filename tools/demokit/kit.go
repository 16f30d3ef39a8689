package main

import (
	"context"
	"crypto/sha512"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"testing/fstest"

	"github.com/je4/filesystem/v3/pkg/osfsrw"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/utils/v2/pkg/checksum"
	"github.com/je4/utils/v2/pkg/zLogger"
	"github.com/rs/zerolog"
)

var nop = zerolog.Nop()
var logger zLogger.ZLogger = &nop

type files map[string]string

// exts: extension name -> config.json (merged with its name)
type exts map[string]string

type kit struct {
	dir     string
	version ocfl.OCFLVersion
	digest  checksum.DigestAlgorithm
	fixity  []checksum.DigestAlgorithm
	root    exts
	obj     exts
	params  map[string]string
	extra   map[string]func(fs.FS) (ocfl.Extension, error)
	src     string
	wrap    func(fs.FS) fs.FS // file system seen by the tool
}

func newKit(name string) *kit {
	k := &kit{dir: filepath.Join(os.Args[1], name), version: "1.1", digest: checksum.DigestSHA512, root: exts{extension.StorageLayoutFlatDirectName: ""}, obj: exts{}, params: map[string]string{}}
	ck(os.MkdirAll(k.dir, 0755))
	return k
}

func ck(err error) {
	if err != nil {
		fail("unexpected error: %v", err)
	}
}

func fail(f string, a ...any) {
	fmt.Printf("FAIL: "+f+"\n", a...)
	os.Exit(1)
}

func (e exts) fs() fs.FS {
	m := fstest.MapFS{}
	put := func(n, kv string) {
		if kv != "" {
			kv = "," + kv
		}
		m[n+"/config.json"] = &fstest.MapFile{Data: []byte(`{"extensionName":"` + n + `"` + kv + `}`), Mode: 0644}
	}
	put("initial", `"extension":"NNNN-gocfl-extension-manager"`)
	put("NNNN-gocfl-extension-manager", "")
	for n, kv := range e {
		put(n, kv)
	}
	return m
}

func (k *kit) factory() *ocfl.ExtensionFactory {
	f, err := ocfl.NewExtensionFactory(k.params, logger)
	ck(err)
	add := func(n string, c func(fs.FS) (ocfl.Extension, error)) { f.AddCreator(n, c) }
	add(extension.InitialName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewInitialFS(x) })
	add(extension.GOCFLExtensionManagerName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewGOCFLExtensionManagerFS(x) })
	add(extension.DigestAlgorithmsName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewDigestAlgorithmsFS(x) })
	add(extension.StorageLayoutFlatDirectName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewStorageLayoutFlatDirectFS(x) })
	add(extension.StorageLayoutHashAndIdNTupleName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewStorageLayoutHashAndIdNTupleFS(x) })
	add(extension.StorageLayoutHashedNTupleName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewStorageLayoutHashedNTupleFS(x) })
	add(extension.FlatOmitPrefixStorageLayoutName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewFlatOmitPrefixStorageLayoutFS(x) })
	add(extension.NTupleOmitPrefixStorageLayoutName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewNTupleOmitPrefixStorageLayoutFS(x) })
	add(extension.DirectCleanName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewDirectCleanFS(x) })
	add(extension.PathDirectName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewPathDirectFS(x) })
	add(extension.StorageLayoutPairTreeName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewStorageLayoutPairTreeFS(x) })
	add(extension.ContentSubPathName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewContentSubPathFS(x) })
	add(extension.FilesystemName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewFilesystemFS(x, logger) })
	for n, c := range k.extra {
		add(n, c)
	}
	return f
}

func (k *kit) fs() fs.FS {
	f, err := osfsrw.NewFS(k.dir, logger)
	ck(err)
	if k.wrap != nil {
		return k.wrap(f)
	}
	return f
}

func (k *kit) init() *kit {
	f := k.factory()
	m, err := f.LoadExtensions(k.root.fs(), nil)
	ck(err)
	_, err = ocfl.CreateStorageRoot(ocfl.NewContextValidation(context.Background()), k.fs(), k.version, f, m, k.digest, logger)
	ck(err)
	return k
}

func (k *kit) load() (ocfl.StorageRoot, *ocfl.ExtensionFactory, context.Context, error) {
	ctx := ocfl.NewContextValidation(context.Background())
	f := k.factory()
	sr, err := ocfl.LoadStorageRoot(ctx, k.fs(), f, logger)
	if err == nil && sr.GetDigest() == "" {
		sr.SetDigest(k.digest)
	}
	return sr, f, ctx, err
}

func (k *kit) open(id string) (ocfl.Object, error) {
	sr, f, _, err := k.load()
	if err != nil {
		return nil, err
	}
	ok, err := sr.ObjectExists(id)
	if err != nil {
		return nil, err
	}
	if ok {
		return sr.LoadObjectByID(id)
	}
	m, err := f.LoadExtensions(k.obj.fs(), nil)
	if err != nil {
		return nil, err
	}
	return sr.CreateObject(id, sr.GetVersion(), sr.GetDigest(), append([]checksum.DigestAlgorithm{}, k.fixity...), m)
}

var srcNum int

// source writes the files to a scratch folder.
func (k *kit) source(fl files) fs.FS {
	srcNum++
	dir := filepath.Join(os.Args[1], fmt.Sprintf("src%d", srcNum))
	ck(os.MkdirAll(dir, 0755))
	for n, c := range fl {
		ck(os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0755))
		ck(os.WriteFile(filepath.Join(dir, n), []byte(c), 0644))
	}
	f, err := osfsrw.NewFS(dir, logger)
	ck(err)
	return f
}

type mode struct {
	dedup, echo bool
	area        string
}

// add is "gocfl add" / "gocfl update".
func (k *kit) add(id string, fl files, m mode) error {
	return k.addFS(id, k.source(fl), m)
}

func (k *kit) addFS(id string, src fs.FS, m mode) error {
	o, err := k.open(id)
	if err != nil {
		return err
	}
	v, err := o.StartUpdate(src, "message", "user", "mailto:user@example.org", m.echo)
	if err != nil {
		return err
	}
	if err := o.AddFolder(src, v, m.dedup, m.area); err != nil {
		return err
	}
	if err := o.EndUpdate(); err != nil {
		return err
	}
	return o.Close()
}

// extract returns the extracted files.
func (k *kit) extract(id, version, area string, manifest bool) (files, error) {
	srcNum++
	dir := filepath.Join(os.Args[1], fmt.Sprintf("out%d", srcNum))
	ck(os.MkdirAll(dir, 0755))
	t, err := osfsrw.NewFS(dir, logger)
	ck(err)
	sr, _, _, err := k.load()
	if err != nil {
		return nil, err
	}
	err = sr.Extract(t, "", id, version, manifest, area)
	return tree(dir), err
}

// errors returns the validation errors (E-codes).
func (k *kit) errors() []string {
	sr, _, ctx, err := k.load()
	var r []string
	if err == nil {
		err = sr.Check()
	}
	if err != nil {
		r = append(r, err.Error())
	}
	st, err := ocfl.GetValidationStatus(ctx)
	ck(err)
	for _, x := range st.Errors {
		if strings.HasPrefix(string(x.Code), "E") {
			r = append(r, string(x.Code)+" "+x.Description2)
		}
	}
	return r
}

func tree(dir string) files {
	r := files{}
	ck(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, err := os.ReadFile(p)
			ck(err)
			r[filepath.ToSlash(p[len(dir)+1:])] = string(b)
		}
		return err
	}))
	return r
}

func (a files) diff(b files) string {
	var r []string
	for n, c := range a {
		if d, ok := b[n]; !ok {
			r = append(r, "missing "+n)
		} else if c != d {
			r = append(r, "different "+n)
		}
	}
	for n := range b {
		if _, ok := a[n]; !ok {
			r = append(r, "unexpected "+n)
		}
	}
	return strings.Join(r, ", ")
}

func same(what string, want, got files) {
	if d := want.diff(got); d != "" {
		fail("%s: %s", what, d)
	}
}

func parse(data string) map[string]any {
	m := map[string]any{}
	ck(json.Unmarshal([]byte(data), &m))
	return m
}

// putInventory writes an inventory and its sidecar below folder (ending in "/").
func (k *kit) putInventory(folder string, inv any) {
	data, err := json.MarshalIndent(inv, "", "  ")
	ck(err)
	ck(os.WriteFile(filepath.Join(k.dir, folder, "inventory.json"), data, 0644))
	ck(os.WriteFile(filepath.Join(k.dir, folder, "inventory.json.sha512"), []byte(fmt.Sprintf("%x inventory.json", sha512.Sum512(data))), 0644))
}
