package main

// In-memory file system with the observable behaviour of
// github.com/je4/filesystem/v3/pkg/osfsrw (same interfaces, same error
// shapes), plus an operation hook for fault injection and crash logging.
// Every path lives in a virtual name space below "/w", so an escape ("..")
// can be observed and reaches nothing real.

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"emperror.dev/errors"
	"github.com/je4/filesystem/v3/pkg/writefs"
)

type node struct {
	dir  bool
	data []byte
	ch   map[string]*node
}

func (n *node) clone() *node {
	c := &node{dir: n.dir, data: n.data}
	if n.dir {
		c.ch = make(map[string]*node, len(n.ch))
		for k, v := range n.ch {
			c.ch[k] = v.clone()
		}
	}
	return c
}

// Op is one file system operation as seen by the hook.
type Op struct {
	Kind string // open read readfile readdir stat sub create write wclose mkdir rclose remove rename
	Path string
	Size int
	FS   string // name of the disk
}

func (o Op) String() string { return fmt.Sprintf("%s:%s %s(%d)", o.FS, o.Kind, o.Path, o.Size) }
func (o Op) Mutates() bool {
	switch o.Kind {
	case "create", "write", "wclose", "mkdir", "remove", "rename":
		return true
	}
	return false
}

// Disk is the shared state of one in-memory file system.
type Disk struct {
	mu   sync.Mutex
	name string
	root *node
	// Hook is called before an operation takes effect. For writes n is the
	// number of bytes that still reach the file when err != nil.
	Hook func(op Op) (n int, err error)
	Log  *[]LogEntry
}

// LogEntry records the effect of one mutating operation (for crash states).
type LogEntry struct {
	Kind string
	Path string
	Data []byte
}

func NewDisk(name string) *Disk {
	d := &Disk{name: name, root: &node{dir: true, ch: map[string]*node{}}}
	d.mkdirAll("/w")
	return d
}

func (d *Disk) Clone() *Disk {
	d.mu.Lock()
	defer d.mu.Unlock()
	return &Disk{name: d.name, root: d.root.clone()}
}

func (d *Disk) FS() *MemFS { return &MemFS{d: d, dir: "/w"} }

func split(p string) []string {
	p = path.Clean("/" + p)
	if p == "/" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

func (d *Disk) lookup(p string) (*node, error) {
	n := d.root
	for _, s := range split(p) {
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		c, ok := n.ch[s]
		if !ok {
			return nil, syscall.ENOENT
		}
		n = c
	}
	return n, nil
}

func validSegs(p string) error {
	for _, s := range split(p) {
		if len(s) > 255 {
			return syscall.ENAMETOOLONG
		}
		if strings.IndexByte(s, 0) >= 0 {
			return syscall.EINVAL
		}
	}
	return nil
}

func (d *Disk) mkdirAll(p string) error {
	if err := validSegs(p); err != nil {
		return err
	}
	n := d.root
	for _, s := range split(p) {
		if !n.dir {
			return syscall.ENOTDIR
		}
		c, ok := n.ch[s]
		if !ok {
			c = &node{dir: true, ch: map[string]*node{}}
			n.ch[s] = c
		}
		n = c
	}
	if !n.dir {
		return syscall.ENOTDIR
	}
	return nil
}

func (d *Disk) hook(kind, p string, size int) (int, error) {
	d.mu.Lock()
	h := d.Hook
	d.mu.Unlock()
	if h == nil {
		return size, nil
	}
	n, err := h(Op{Kind: kind, Path: p, Size: size, FS: d.name})
	if err != nil {
		return n, &fs.PathError{Op: kind, Path: p, Err: err}
	}
	return size, nil
}

func (d *Disk) log(kind, p string, data []byte) {
	if d.Log != nil {
		*d.Log = append(*d.Log, LogEntry{kind, p, data})
	}
}

// Apply replays a log entry onto the disk; torn<0 means completely, otherwise
// only the first torn bytes of a write are applied.
func (d *Disk) Apply(e LogEntry, torn int) {
	switch e.Kind {
	case "mkdir":
		d.mkdirAll(e.Path)
	case "create":
		d.mkdirAll(path.Dir(e.Path))
		n, _ := d.lookup(path.Dir(e.Path))
		n.ch[path.Base(e.Path)] = &node{}
	case "write":
		n, err := d.lookup(e.Path)
		if err != nil {
			return
		}
		b := e.Data
		if torn >= 0 && torn < len(b) {
			b = b[:torn]
		}
		n.data = append(append([]byte{}, n.data...), b...)
	case "truncate":
		if n, err := d.lookup(e.Path); err == nil && len(e.Data) <= len(n.data) {
			n.data = append([]byte{}, n.data[:len(e.Data)]...)
		}
	case "remove":
		n, err := d.lookup(path.Dir(e.Path))
		if err == nil {
			delete(n.ch, path.Base(e.Path))
		}
	case "rename":
		i := strings.Index(e.Path, "\x00")
		a, b := e.Path[:i], e.Path[i+1:]
		na, err := d.lookup(path.Dir(a))
		if err != nil {
			return
		}
		nb, err := d.lookup(path.Dir(b))
		if err != nil {
			return
		}
		nb.ch[path.Base(b)] = na.ch[path.Base(a)]
		delete(na.ch, path.Base(a))
	}
}

// Snap is a flat picture of a tree: file path -> content, directory path+"/" -> "".
type Snap map[string]string

func (d *Disk) SnapAt(p string) Snap {
	d.mu.Lock()
	defer d.mu.Unlock()
	s := Snap{}
	n, err := d.lookup(p)
	if err != nil {
		return s
	}
	var rec func(n *node, pre string)
	rec = func(n *node, pre string) {
		for k, c := range n.ch {
			if c.dir {
				s[pre+k+"/"] = ""
				rec(c, pre+k+"/")
			} else {
				s[pre+k] = string(c.data)
			}
		}
	}
	rec(n, "")
	return s
}

// Snap of the storage root (everything below /w).
func (d *Disk) Snap() Snap { return d.SnapAt("/w") }

// Escaped lists everything outside /w.
func (d *Disk) Escaped() []string {
	var r []string
	for k := range d.SnapAt("/") {
		if !strings.HasPrefix(k, "w/") {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

func (s Snap) Sub(prefix string) Snap {
	r := Snap{}
	for k, v := range s {
		if strings.HasPrefix(k, prefix) && k != prefix {
			r[k[len(prefix):]] = v
		}
	}
	return r
}
func (s Snap) Files() []string {
	var r []string
	for k := range s {
		if !strings.HasSuffix(k, "/") {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}
func (s Snap) OnlyFiles() Snap {
	r := Snap{}
	for k, v := range s {
		if !strings.HasSuffix(k, "/") {
			r[k] = v
		}
	}
	return r
}
func (s Snap) Diff(t Snap) string {
	var r []string
	for k, v := range s {
		w, ok := t[k]
		if !ok {
			r = append(r, "-"+k)
		} else if w != v {
			r = append(r, fmt.Sprintf("~%s", k))
		}
	}
	for k := range t {
		if _, ok := s[k]; !ok {
			r = append(r, "+"+k)
		}
	}
	sort.Strings(r)
	if len(r) > 12 {
		r = append(r[:12], "...")
	}
	return strings.Join(r, " ")
}

// Put writes a file directly (no hook).
func (d *Disk) Put(p, data string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	full := path.Join("/w", p)
	if err := d.mkdirAll(path.Dir(full)); err != nil {
		panic(err)
	}
	n, err := d.lookup(path.Dir(full))
	if err != nil {
		panic(err)
	}
	n.ch[path.Base(full)] = &node{data: []byte(data)}
}
func (d *Disk) PutDir(p string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if err := d.mkdirAll(path.Join("/w", p)); err != nil {
		panic(err)
	}
}
func (d *Disk) Del(p string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	full := path.Join("/w", p)
	n, err := d.lookup(path.Dir(full))
	if err == nil {
		delete(n.ch, path.Base(full))
	}
}

// FromSnap builds a disk holding exactly the snapshot.
func FromSnap(name string, s Snap) *Disk {
	d := NewDisk(name)
	for k, v := range s {
		if strings.HasSuffix(k, "/") {
			d.PutDir(k)
		} else {
			d.Put(k, v)
		}
	}
	return d
}

// ---------------------------------------------------------------- MemFS

type MemFS struct {
	d   *Disk
	dir string
}

func (m *MemFS) p(name string) string { return path.Join(m.dir, name) }

func perr(op, p string, err error) error {
	return &fs.PathError{Op: op, Path: p, Err: err}
}

func (m *MemFS) String() string { return "osFSRW(" + m.dir + ")" }

func (m *MemFS) Fullpath(name string) (string, error) { return m.p(name), nil }

func (m *MemFS) Sub(dir string) (fs.FS, error) {
	p := m.p(dir)
	if _, err := m.d.hook("sub", p, 0); err != nil {
		return nil, errors.Wrapf(err, "cannot stat directory '%s'", p)
	}
	m.d.mu.Lock()
	defer m.d.mu.Unlock()
	n, err := m.d.lookup(p)
	if err != nil {
		return nil, errors.Wrapf(perr("stat", p, err), "cannot stat directory '%s'", p)
	}
	if !n.dir {
		return nil, errors.Errorf("not a directory: %s", p)
	}
	return &MemFS{d: m.d, dir: p}, nil
}

func (m *MemFS) Remove(name string) error {
	p := m.p(name)
	if _, err := m.d.hook("remove", p, 0); err != nil {
		return errors.WithStack(err)
	}
	m.d.mu.Lock()
	defer m.d.mu.Unlock()
	n, err := m.d.lookup(path.Dir(p))
	if err != nil {
		return errors.WithStack(perr("remove", p, err))
	}
	c, ok := n.ch[path.Base(p)]
	if !ok {
		return errors.WithStack(perr("remove", p, syscall.ENOENT))
	}
	if c.dir && len(c.ch) > 0 {
		return errors.WithStack(perr("remove", p, syscall.ENOTEMPTY))
	}
	delete(n.ch, path.Base(p))
	m.d.log("remove", p, nil)
	return nil
}

func (m *MemFS) Rename(a, b string) error {
	pa, pb := m.p(a), m.p(b)
	if _, err := m.d.hook("rename", pa, 0); err != nil {
		return errors.WithStack(err)
	}
	m.d.mu.Lock()
	defer m.d.mu.Unlock()
	na, err := m.d.lookup(path.Dir(pa))
	if err != nil {
		return errors.WithStack(perr("rename", pa, err))
	}
	c, ok := na.ch[path.Base(pa)]
	if !ok {
		return errors.WithStack(perr("rename", pa, syscall.ENOENT))
	}
	nb, err := m.d.lookup(path.Dir(pb))
	if err != nil {
		return errors.WithStack(perr("rename", pb, err))
	}
	nb.ch[path.Base(pb)] = c
	delete(na.ch, path.Base(pa))
	m.d.log("rename", pa+"\x00"+pb, nil)
	return nil
}

func (m *MemFS) MkDir(name string) error {
	p := m.p(name)
	if _, err := m.d.hook("mkdir", p, 0); err != nil {
		return errors.WithStack(err)
	}
	m.d.mu.Lock()
	defer m.d.mu.Unlock()
	if err := validSegs(p); err != nil {
		return errors.WithStack(perr("mkdir", p, err))
	}
	n, err := m.d.lookup(path.Dir(p))
	if err != nil {
		return errors.WithStack(perr("mkdir", p, err))
	}
	if !n.dir {
		return errors.WithStack(perr("mkdir", p, syscall.ENOTDIR))
	}
	if _, ok := n.ch[path.Base(p)]; ok || p == "/" {
		return errors.WithStack(perr("mkdir", p, syscall.EEXIST))
	}
	n.ch[path.Base(p)] = &node{dir: true, ch: map[string]*node{}}
	m.d.log("mkdir", p, nil)
	return nil
}

func (m *MemFS) Create(name string) (writefs.FileWrite, error) {
	p := m.p(name)
	if _, err := m.d.hook("create", p, 0); err != nil {
		return nil, errors.Wrapf(err, "cannot create file '%s'", p)
	}
	m.d.mu.Lock()
	defer m.d.mu.Unlock()
	if err := m.d.mkdirAll(path.Dir(p)); err != nil {
		return nil, errors.Wrapf(perr("mkdir", path.Dir(p), err), "cannot create directory '%s'", path.Dir(p))
	}
	if err := validSegs(p); err != nil {
		return nil, errors.Wrapf(perr("open", p, err), "cannot create file '%s'", p)
	}
	n, _ := m.d.lookup(path.Dir(p))
	b := path.Base(p)
	if c, ok := n.ch[b]; ok && c.dir || p == "/" {
		return nil, errors.Wrapf(perr("open", p, syscall.EISDIR), "cannot create file '%s'", p)
	}
	f := &node{}
	n.ch[b] = f
	m.d.log("create", p, nil)
	return &memWriter{m: m, p: p, n: f}, nil
}

type memWriter struct {
	m      *MemFS
	p      string
	n      *node
	closed bool
}

func (w *memWriter) Write(b []byte) (int, error) {
	k, err := w.m.d.hook("write", w.p, len(b))
	w.m.d.mu.Lock()
	defer w.m.d.mu.Unlock()
	if w.closed {
		return 0, perr("write", w.p, fs.ErrClosed)
	}
	nb := len(b)
	if err != nil {
		nb = k
	}
	c := append([]byte{}, b[:nb]...)
	w.n.data = append(w.n.data[:len(w.n.data):len(w.n.data)], c...)
	w.m.d.log("write", w.p, c)
	if err != nil {
		return nb, err
	}
	return nb, nil
}

func (w *memWriter) Close() error {
	w.m.d.mu.Lock()
	size := len(w.n.data)
	w.m.d.mu.Unlock()
	k, err := w.m.d.hook("wclose", w.p, size)
	w.m.d.mu.Lock()
	defer w.m.d.mu.Unlock()
	if w.closed {
		return perr("close", w.p, fs.ErrClosed)
	}
	w.closed = true
	if err != nil && k < len(w.n.data) { // buffered data is lost
		w.n.data = w.n.data[:k:k]
		w.m.d.log("truncate", w.p, make([]byte, k))
	}
	return err
}

type memInfo struct {
	name string
	n    *node
}

func (i memInfo) Name() string { return i.name }
func (i memInfo) Size() int64  { return int64(len(i.n.data)) }
func (i memInfo) Mode() fs.FileMode {
	if i.n.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i memInfo) ModTime() time.Time         { return time.Unix(1700000000, 0) }
func (i memInfo) IsDir() bool                { return i.n.dir }
func (i memInfo) Sys() any                   { return nil }
func (i memInfo) Type() fs.FileMode          { return i.Mode().Type() }
func (i memInfo) Info() (fs.FileInfo, error) { return i, nil }

func (m *MemFS) Stat(name string) (fs.FileInfo, error) {
	p := m.p(name)
	if _, err := m.d.hook("stat", p, 0); err != nil {
		return nil, errors.WithStack(err)
	}
	m.d.mu.Lock()
	defer m.d.mu.Unlock()
	n, err := m.d.lookup(p)
	if err != nil {
		if err == syscall.ENOENT {
			return nil, errors.WithStack(fs.ErrNotExist)
		}
		return nil, errors.WithStack(perr("stat", p, err))
	}
	return memInfo{path.Base(p), &node{dir: n.dir, data: n.data}}, nil
}

func (m *MemFS) ReadDir(name string) ([]fs.DirEntry, error) {
	p := m.p(name)
	if _, err := m.d.hook("readdir", p, 0); err != nil {
		return nil, errors.WithStack(err)
	}
	m.d.mu.Lock()
	defer m.d.mu.Unlock()
	n, err := m.d.lookup(p)
	if err == syscall.ENOENT {
		return nil, fs.ErrNotExist
	}
	if err == nil && !n.dir {
		err = syscall.ENOTDIR
	}
	if err != nil {
		return nil, errors.WithStack(perr("open", p, err))
	}
	var names []string
	for k := range n.ch {
		names = append(names, k)
	}
	sort.Strings(names)
	r := make([]fs.DirEntry, 0, len(names))
	for _, k := range names {
		c := n.ch[k]
		r = append(r, memInfo{k, &node{dir: c.dir, data: c.data}})
	}
	return r, nil
}

func (m *MemFS) ReadFile(name string) ([]byte, error) {
	p := m.p(name)
	if _, err := m.d.hook("readfile", p, 0); err != nil {
		return nil, errors.WithStack(err)
	}
	m.d.mu.Lock()
	defer m.d.mu.Unlock()
	n, err := m.d.lookup(p)
	if err == nil && n.dir {
		err = syscall.EISDIR
	}
	if err != nil {
		return nil, errors.WithStack(perr("open", p, err))
	}
	return append([]byte{}, n.data...), nil
}

func (m *MemFS) Open(name string) (fs.File, error) {
	p := m.p(name)
	if _, err := m.d.hook("open", p, 0); err != nil {
		return nil, errors.WithStack(err)
	}
	m.d.mu.Lock()
	defer m.d.mu.Unlock()
	n, err := m.d.lookup(p)
	if err != nil {
		return nil, errors.WithStack(perr("open", p, err))
	}
	return &memFile{m: m, p: p, n: n, r: bytes.NewReader(n.data)}, nil
}

type memFile struct {
	m      *MemFS
	p      string
	n      *node
	r      *bytes.Reader
	closed bool
}

func (f *memFile) Stat() (fs.FileInfo, error) {
	return memInfo{path.Base(f.p), &node{dir: f.n.dir, data: f.n.data}}, nil
}
func (f *memFile) Read(b []byte) (int, error) {
	if f.n.dir {
		return 0, perr("read", f.p, syscall.EISDIR)
	}
	if f.closed {
		return 0, perr("read", f.p, fs.ErrClosed)
	}
	if _, err := f.m.d.hook("read", f.p, len(b)); err != nil {
		return 0, err
	}
	return f.r.Read(b)
}
func (f *memFile) Seek(o int64, w int) (int64, error) { return f.r.Seek(o, w) }
func (f *memFile) Close() error {
	if f.closed {
		return perr("close", f.p, fs.ErrClosed)
	}
	f.closed = true
	_, err := f.m.d.hook("rclose", f.p, 0)
	return err
}

var (
	_ writefs.CreateFS   = &MemFS{}
	_ writefs.MkDirFS    = &MemFS{}
	_ writefs.RenameFS   = &MemFS{}
	_ writefs.RemoveFS   = &MemFS{}
	_ writefs.FullpathFS = &MemFS{}
	_ fs.ReadDirFS       = &MemFS{}
	_ fs.ReadFileFS      = &MemFS{}
	_ fs.StatFS          = &MemFS{}
	_ fs.SubFS           = &MemFS{}
	_ io.Seeker          = &memFile{}
)
