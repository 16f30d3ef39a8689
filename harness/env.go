package main

// Environment: everything the command line tool does around pkg/ocfl
// (extension factory, storage root, add/update/validate/extract), driven
// through the exported API only.

import (
	"context"
	"fmt"
	"io/fs"
	"path"
	"runtime/debug"
	"sort"
	"strings"

	"emperror.dev/errors"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/gocfl/v2/pkg/subsystem/migration"
	ironmaiden "github.com/je4/indexer/v3/pkg/indexer"
	"github.com/je4/utils/v2/pkg/checksum"
	"github.com/je4/utils/v2/pkg/zLogger"
	"github.com/rs/zerolog"
)

var nop = zerolog.Nop()
var logger zLogger.ZLogger = &nop

type Alg = checksum.DigestAlgorithm

const (
	sha512a = checksum.DigestSHA512
	sha256a = checksum.DigestSHA256
)

// Ext maps an extension folder name to the files inside it.
type Ext map[string]map[string]string

func extCfg(name string, kv ...string) map[string]string {
	s := `{"extensionName":` + jstr(name)
	for i := 0; i+1 < len(kv); i += 2 {
		s += "," + jstr(kv[i]) + ":" + kv[i+1]
	}
	return map[string]string{"config.json": s + "}"}
}

const mgrName = extension.GOCFLExtensionManagerName

// baseExt returns initial + manager (+ the given extensions).
func baseExt(exts ...map[string]string) Ext {
	e := Ext{
		"initial": extCfg("initial", "extension", jstr(mgrName)),
		mgrName:   extCfg(mgrName),
	}
	for _, x := range exts {
		e[extNameOf(x)] = x
	}
	return e
}

func (e Ext) clone() Ext {
	r := Ext{}
	for k, v := range e {
		r[k] = v
	}
	return r
}

func (e Ext) with(name string, files map[string]string) Ext {
	r := e.clone()
	r[name] = files
	return r
}

func extNameOf(x map[string]string) string {
	s := x["config.json"]
	i := strings.Index(s, `:"`) + 2
	return s[i : i+strings.Index(s[i:], `"`)]
}

// Env is one configuration of the tool.
type Env struct {
	Name    string
	Version ocfl.OCFLVersion
	Digest  Alg
	Fixity  []Alg
	Root    Ext
	Obj     Ext
	Params  map[string]string
	// ExtraCreators are additional (harness) extensions.
	Extra     map[string]func(fs.FS) (ocfl.Extension, error)
	Migration *migration.Migration
	Indexer   *ironmaiden.ActionDispatcher
}

func extDisk(e Ext) fs.FS {
	d := NewDisk("ext")
	for n, files := range e {
		d.PutDir(n)
		for f, c := range files {
			d.Put(n+"/"+f, c)
		}
	}
	return d.FS()
}

func (e *Env) Factory() (*ocfl.ExtensionFactory, error) {
	p := e.Params
	if p == nil {
		p = map[string]string{}
	}
	f, err := ocfl.NewExtensionFactory(p, logger)
	if err != nil {
		return nil, err
	}
	add := func(n string, c func(fs.FS) (ocfl.Extension, error)) { f.AddCreator(n, c) }
	add(extension.InitialName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewInitialFS(x) })
	add(extension.GOCFLExtensionManagerName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewGOCFLExtensionManagerFS(x) })
	add(extension.DigestAlgorithmsName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewDigestAlgorithmsFS(x) })
	add(extension.StorageLayoutFlatDirectName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewStorageLayoutFlatDirectFS(x) })
	add(extension.StorageLayoutHashAndIdNTupleName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewStorageLayoutHashAndIdNTupleFS(x) })
	add(extension.StorageLayoutHashedNTupleName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewStorageLayoutHashedNTupleFS(x) })
	add(extension.FlatOmitPrefixStorageLayoutName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewFlatOmitPrefixStorageLayoutFS(x) })
	add(extension.NTupleOmitPrefixStorageLayoutName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewNTupleOmitPrefixStorageLayoutFS(x) })
	add(extension.DirectCleanName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewDirectCleanFS(x) })
	add(extension.PathDirectName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewPathDirectFS(x) })
	add(extension.StorageLayoutPairTreeName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewStorageLayoutPairTreeFS(x) })
	add(extension.ContentSubPathName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewContentSubPathFS(x) })
	add(extension.MetaFileName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewMetaFileFS(x) })
	add(extension.FilesystemName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewFilesystemFS(x, logger) })
	add(extension.METSName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewMetsFS(x, logger) })
	add(extension.MigrationName, func(x fs.FS) (ocfl.Extension, error) { return extension.NewMigrationFS(x, e.Migration, logger) })
	if e.Indexer != nil {
		add(extension.IndexerName, func(x fs.FS) (ocfl.Extension, error) {
			return extension.NewIndexerFS(x, "", e.Indexer, false, logger)
		})
	}
	for n, c := range e.Extra {
		add(n, c)
	}
	return f, nil
}

// guard turns a panic into an error.
func guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = &PanicError{V: r, Stack: string(debug.Stack())}
		}
	}()
	return f()
}

type PanicError struct {
	V     any
	Stack string
}

func (p *PanicError) Error() string {
	at := ""
	for _, l := range strings.Split(p.Stack, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "/pkg/ocfl/") || strings.Contains(l, "/pkg/extension/") {
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			at = path.Base(path.Dir(l)) + "/" + path.Base(l)
			break
		}
	}
	return fmt.Sprintf("PANIC %v at %s", p.V, at)
}

func isPanic(err error) bool {
	var p *PanicError
	return errors.As(err, &p)
}

func newCtx() context.Context { return ocfl.NewContextValidation(context.Background()) }

// Init creates a storage root in fsys.
func (e *Env) Init(fsys fs.FS) error {
	return guard(func() error {
		f, err := e.Factory()
		if err != nil {
			return err
		}
		m, err := f.LoadExtensions(extDisk(e.Root), nil)
		if err != nil {
			return err
		}
		_, err = ocfl.CreateStorageRoot(newCtx(), fsys, e.Version, f, m, e.Digest, logger)
		return err
	})
}

// Load opens the storage root.
func (e *Env) Load(fsys fs.FS) (sr ocfl.StorageRoot, f *ocfl.ExtensionFactory, ctx context.Context, err error) {
	ctx = newCtx()
	err = guard(func() error {
		f, err = e.Factory()
		if err != nil {
			return err
		}
		sr, err = ocfl.LoadStorageRoot(ctx, fsys, f, logger)
		if err == nil && sr.GetDigest() == "" {
			sr.SetDigest(e.Digest)
		}
		return err
	})
	return
}

// Add is one invocation of "gocfl add/update".
type Add struct {
	ID    string
	Msg   string
	User  string
	Addr  string
	Src   fs.FS
	Area  string
	Areas []AreaSrc // further areas
	Dedup bool
	Echo  bool
	// Body replaces AddFolder when set.
	Body func(o ocfl.Object) error
}
type AreaSrc struct {
	Area string
	FS   fs.FS
}

// Do performs one create-or-update on a freshly loaded storage root.
func (e *Env) Do(fsys fs.FS, a Add) (modified bool, err error) {
	sr, f, _, err := e.Load(fsys)
	if err != nil {
		return false, err
	}
	return e.DoOn(sr, f, a)
}

func (e *Env) DoOn(sr ocfl.StorageRoot, f *ocfl.ExtensionFactory, a Add) (modified bool, err error) {
	err = guard(func() error {
		o, err := e.Open(sr, f, a.ID)
		if err != nil {
			return err
		}
		modified, err = update(o, a)
		return err
	})
	return
}

// Open loads the object if it exists, otherwise creates it.
func (e *Env) Open(sr ocfl.StorageRoot, f *ocfl.ExtensionFactory, id string) (ocfl.Object, error) {
	exists, err := sr.ObjectExists(id)
	if err != nil {
		return nil, err
	}
	if exists {
		return sr.LoadObjectByID(id)
	}
	m, err := f.LoadExtensions(extDisk(e.Obj), nil)
	if err != nil {
		return nil, err
	}
	fx := append([]Alg{}, e.Fixity...)
	return sr.CreateObject(id, sr.GetVersion(), sr.GetDigest(), fx, m)
}

func update(o ocfl.Object, a Add) (bool, error) {
	vfs, err := o.StartUpdate(a.Src, a.Msg, a.User, a.Addr, a.Echo)
	if err != nil {
		return false, err
	}
	if a.Body != nil {
		if err := a.Body(o); err != nil {
			return false, err
		}
	} else {
		if err := o.AddFolder(a.Src, vfs, a.Dedup, a.Area); err != nil {
			return false, err
		}
		for _, x := range a.Areas {
			if err := o.AddFolder(x.FS, vfs, a.Dedup, x.Area); err != nil {
				return false, err
			}
		}
	}
	if err := o.EndUpdate(); err != nil {
		return false, err
	}
	if err := o.Close(); err != nil {
		return false, err
	}
	return o.IsModified(), nil
}

// Validate runs the tool's validation; returns E-codes and other codes.
func (e *Env) Validate(fsys fs.FS) (es, ws []string, err error) {
	return e.validate(fsys, func(sr ocfl.StorageRoot) error { return sr.Check() })
}
func (e *Env) ValidateID(fsys fs.FS, id string) (es, ws []string, err error) {
	return e.validate(fsys, func(sr ocfl.StorageRoot) error { return sr.CheckObjectByID(id) })
}
func (e *Env) ValidateFolder(fsys fs.FS, dir string) (es, ws []string, err error) {
	return e.validate(fsys, func(sr ocfl.StorageRoot) error { return sr.CheckObjectByFolder(dir) })
}

func (e *Env) validate(fsys fs.FS, check func(sr ocfl.StorageRoot) error) (es, ws []string, err error) {
	sr, _, ctx, err := e.Load(fsys)
	if err == nil {
		err = guard(func() error { return check(sr) })
	}
	st, serr := ocfl.GetValidationStatus(ctx)
	if serr != nil {
		panic(serr)
	}
	for _, x := range st.Errors {
		s := string(x.Code) + ": " + x.Description2
		if strings.HasPrefix(s, "E") {
			es = append(es, s)
		} else {
			ws = append(ws, s)
		}
	}
	sort.Strings(es)
	sort.Strings(ws)
	return
}

func (e *Env) Extract(fsys, target fs.FS, p, id, version string, manifest bool, area string) error {
	sr, _, _, err := e.Load(fsys)
	if err != nil {
		return err
	}
	return guard(func() error { return sr.Extract(target, p, id, version, manifest, area) })
}

// Tree is a set of files: name -> content ("name/" for an empty directory).
type Tree map[string]string

// FS is a plain source file system (no path of the operating system).
func (t Tree) FS() fs.FS { return srcFS{t.Disk().FS()} }

type srcFS struct{ fs.FS }

func (s srcFS) ReadDir(n string) ([]fs.DirEntry, error) { return fs.ReadDir(s.FS, n) }
func (s srcFS) Stat(n string) (fs.FileInfo, error)      { return fs.Stat(s.FS, n) }

func (t Tree) Disk() *Disk {
	d := NewDisk("src")
	for k, v := range t {
		if strings.HasSuffix(k, "/") {
			d.PutDir(k)
		} else {
			d.Put(k, v)
		}
	}
	return d
}
func (t Tree) names() []string {
	var r []string
	for k := range t {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
func (t Tree) String() string {
	var r []string
	for _, k := range t.names() {
		v := t[k]
		if len(v) > 12 {
			v = fmt.Sprintf("%s..(%d)", v[:6], len(v))
		}
		r = append(r, fmt.Sprintf("%s=%q", k, v))
	}
	return "{" + strings.Join(r, " ") + "}"
}
func (t Tree) Clone() Tree {
	r := Tree{}
	for k, v := range t {
		r[k] = v
	}
	return r
}
func sameTree(a, b map[string]string) string {
	var r []string
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			r = append(r, fmt.Sprintf("missing %q", k))
		} else if w != v {
			r = append(r, fmt.Sprintf("different content of %q", k))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			r = append(r, fmt.Sprintf("unexpected %q", k))
		}
	}
	sort.Strings(r)
	if len(r) > 6 {
		r = append(r[:6], "...")
	}
	return strings.Join(r, ", ")
}
