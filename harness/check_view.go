package main

// C30: the viewer shows what is stored. The requests are served by the real
// handlers (router, templates, storage access); they are instrumented for the
// schedules of concurrent requests.

import (
	"fmt"
	"html"
	"io"
	"io/fs"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"unsafe"

	"github.com/dustin/go-humanize"
	"github.com/gin-gonic/gin"
	"github.com/je4/gocfl/v2/data/displaydata"
	"github.com/je4/gocfl/v2/gocfl/cmd/display"
	"github.com/je4/gocfl/v2/pkg/extension"
	"github.com/je4/gocfl/v2/zz_verif/vsync"
	"github.com/je4/utils/v2/pkg/checksum"
)

func init() {
	register(&Check{Prop: "C30", Level: "model_checking", Run: runC30,
		Rule:   "storage roots (layouts, identifiers and file names with reserved characters, extensions, foreign objects) x (a) every page reachable by the links from the start page, (b) every sequence of up to 2 (thorough 3) requests of an alphabet with valid, unknown and escaping requests, (c) every schedule of two concurrent requests within a preemption bound at the statements of the viewer and its storage operations; a state is an answer in its context; every answer is compared with the inventory and the files read by an independent reader",
		Assume: []string{"the storage root is not changed while the viewer runs", "in the schedules, the calls into other packages between two storage operations are atomic"}})
}

// vWorld is a storage root and what is in it.
type vWorld struct {
	name    string
	env     *Env
	snap    Snap
	objs    map[string]*RefObj // by id
	pre     map[string]string  // folder by id
	sizes   map[string]int     // id -> sum of the sizes of the different contents; nil: no size data
	info    map[string]string  // id -> title of the info of the newest version
	noInfo  bool
	damaged bool
	loose   bool   // the folders of the objects are not those of the layout: an object is found after its folder was opened
	outside string // a text that must never be delivered
}

func newWorld(name string, e *Env, s Snap) *vWorld {
	w := &vWorld{name: name, env: e, snap: s, objs: map[string]*RefObj{}, pre: map[string]string{}}
	for p, id := range findObjs(s) {
		w.objs[id] = ReadObj(s.Sub(p))
		w.pre[id] = strings.TrimSuffix(p, "/")
	}
	return w
}

func (w *vWorld) ids() []string { return sortedKeys(w.objs) }

// vServer is a running viewer.
type vServer struct {
	h   http.Handler
	w   *vWorld
	ops struct {
		sync.Mutex
		open, closed int
		bad          []string
	}
	yield bool
}

var (
	ginOnce   sync.Once
	startLock sync.Mutex
)

// newServer starts a viewer: its handler without the network.
func newServer(w *vWorld, fsys fs.FS) (*vServer, error) {
	ginOnce.Do(func() { gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard })
	v := &vServer{w: w}
	if fsys == nil {
		d := FromSnap("root", w.snap)
		d.Hook = func(op Op) (int, error) {
			// where the threads can be exchanged within the other packages
			if v.yield && (op.Kind == "open" || op.Kind == "readfile") && (strings.HasSuffix(op.Path, "/inventory.json") || strings.Contains(op.Path, "/content/")) {
				vsync.P()
			}
			v.ops.Lock()
			defer v.ops.Unlock()
			switch op.Kind {
			case "open":
				if _, file := w.snap[strings.TrimPrefix(op.Path, "/w/")]; file {
					v.ops.open++
				}
			case "rclose":
				if _, file := w.snap[strings.TrimPrefix(op.Path, "/w/")]; file {
					v.ops.closed++
				}
			}
			if op.Mutates() || op.Path != "/w" && !strings.HasPrefix(op.Path, "/w/") {
				v.ops.bad = append(v.ops.bad, op.Kind+" "+op.Path)
			}
			return 0, nil
		}
		fsys = d.FS()
	}
	sr, _, _, err := w.env.Load(fsys)
	if err != nil {
		return nil, err
	}
	u, _ := url.Parse("http://viewer.test")
	tpl, err := fs.Sub(displaydata.TemplateRoot, "templates")
	if err != nil {
		return nil, err
	}
	// no such port: the server is set up, but does not listen
	startLock.Lock() // the mode of the router is a global variable
	defer startLock.Unlock()
	s, err := display.NewServer(sr, "gocfl", "127.0.0.1:-1", u, displaydata.WebRoot, tpl, logger, io.Discard)
	if err != nil {
		return nil, err
	}
	lerr := s.ListenAndServe("", "")
	x := reflect.ValueOf(s).Elem()
	for i := 0; i < x.NumField(); i++ {
		f := x.Field(i)
		if f.Type() == reflect.TypeOf((*http.Server)(nil)) && !f.IsNil() {
			v.h = (*http.Server)(unsafe.Pointer(f.Pointer())).Handler
		}
	}
	if v.h == nil {
		return nil, fmt.Errorf("viewer does not start: %v", lerr)
	}
	return v, nil
}

type vAnswer struct {
	req  string
	code int
	loc  string
	body string
	err  error
	new  bool // the object's folder was not opened before
}

func (v *vServer) get(target string) (a *vAnswer) {
	a = &vAnswer{req: target}
	a.err = guard(func() error {
		u, err := url.ParseRequestURI(target)
		if err != nil {
			return fmt.Errorf("no request: %w", err)
		}
		r := httptest.NewRequest("GET", "/", nil)
		r.URL = u
		r.RequestURI = target
		rec := httptest.NewRecorder()
		v.h.ServeHTTP(rec, r)
		a.code, a.loc, a.body = rec.Code, rec.Header().Get("Location"), rec.Body.String()
		if cl := rec.Header().Get("Content-Length"); cl != "" && cl != fmt.Sprint(len(a.body)) {
			a.err = fmt.Errorf("content length %s, %d bytes", cl, len(a.body))
		}
		return a.err
	})
	return
}

// done checks what the requests left behind.
func (v *vServer) done(c *C, what string) {
	v.ops.Lock()
	defer v.ops.Unlock()
	if len(v.ops.bad) > 0 {
		c.Fail("viewer: access outside of the storage root or write access", "%s: %s: %q", v.w.name, what, v.ops.bad)
	}
	if v.ops.open != v.ops.closed {
		c.Fail("viewer: file not closed", "%s: %s: %d opened, %d closed", v.w.name, what, v.ops.open, v.ops.closed)
	}
	v.ops.bad, v.ops.open, v.ops.closed = nil, 0, 0
}

var (
	reH1     = regexp.MustCompile(`(?s)<h1>\s*(.*?)\s*</h1>`)
	reRow    = regexp.MustCompile(`(?s)data-bs-id="([^"]*)"\s+data-bs-checksum="([^"]*)">\s*(.*?)\s*</button>`)
	reHref   = regexp.MustCompile(`(?:href|src)="([^"]*)"`)
	reExt    = regexp.MustCompile(`(?s)<td>\s*([^<>\s]+)\s*</td>\s*<td>\s*<a [^>]*?href="([^"]*)"[^>]*>\s*(.*?)\s*</a>`)
	reFix    = regexp.MustCompile(`(?s)<td class="table-active text-end">(?:<strong>)?\s*(.*?)\s*(?:</strong>)?</td>\s*<td>\s*(.*?)\s*</td>`)
	reTD     = regexp.MustCompile(`(?s)<td>\s*(.*?)\s*</td>`)
	reRepID  = regexp.MustCompile(`(?s)id="title">\s*<span[^>]*>\s*(.*?)\s*</span>`)
	reRepVer = regexp.MustCompile(`(?s)OCFL Object Version\s+(v\d+)\s*<.*?<td>Name</td>\s*<td>(.*?)</td>.*?<td>Address</td>\s*<td>(.*?)</td>.*?<td>Message</td>\s*<td>(.*?)</td>`)
	reCard   = regexp.MustCompile(`(?s)<h4 class="my-0 fw-normal">\s*(v\d+): (.*?)</h4>.*?<p>.*?</p>\s*<p>(.*?)</p>\s*<p>(.*?)</p>`)
	reNum    = regexp.MustCompile(`Number of Files: (\d+)`)
	reDiff   = regexp.MustCompile(`Number of different Files: (\d+)`)
	reSize   = regexp.MustCompile(`Size of Data: (.*?)</p>`)
	reRepNum = regexp.MustCompile(`(?s)<td>Number of Files</td>\s*<td>(\d+)</td>`)
	reRepSz  = regexp.MustCompile(`(?s)<td>Total Size of all files</td>\s*<td>(.*?)</td>`)
	reInfo   = regexp.MustCompile(`(?s)<h1 class="center">\s*(.*?)\s*</h1>`)
	reFolder = regexp.MustCompile(`(?s)<a href="(/object/folder/[^"]*)".*?<strong[^>]*>\s*(.*?)\s*</strong>`)
	reFName  = regexp.MustCompile(`(?s)class="head">Filename</td>\s*<td[^>]*>(.*?)</td>`)
)

func un(s string) string { return html.UnescapeString(s) }

// segs splits the path of a request: its segments unescaped.
func segs(target string) (r []string, query string) {
	u, err := url.ParseRequestURI(target)
	if err != nil {
		return nil, ""
	}
	for _, x := range strings.Split(strings.TrimPrefix(u.EscapedPath(), "/"), "/") {
		y, err := url.PathUnescape(x)
		if err != nil {
			y = x
		}
		r = append(r, y)
	}
	return r, u.RawQuery
}

// judge compares an answer with the storage; it returns the links of the page.
func (w *vWorld) judge(c *C, what string, a *vAnswer) (links []string) {
	s, query := segs(a.req)
	bad := func(sig, f string, args ...any) {
		c.Fail("viewer: "+sig, "%s: %s GET %s: %s", w.name, what, a.req, fmt.Sprintf(f, args...))
	}
	if a.err != nil {
		if isPanic(a.err) {
			bad("panic", "%v", short(a.err))
		} else {
			bad("answer not complete", "%v", a.err)
		}
		return
	}
	if a.code >= 500 {
		bad("server error", "status %d: %.200s", a.code, a.body)
		return
	}
	if w.outside != "" && strings.Contains(a.body, w.outside) {
		bad("delivers what is outside of the storage root", "%.100s", a.body)
		return
	}
	ok := a.code >= 200 && a.code < 300
	refused := func(why string) {
		if a.code < 400 {
			bad("unknown "+why+" not refused", "status %d %s %.100s", a.code, a.loc, a.body)
		}
	}
	need := func() bool {
		if !ok {
			bad("page refused", "status %d: %.300s", a.code, a.body)
		}
		return ok
	}
	base, _ := url.ParseRequestURI(a.req)
	resolve := func(h string) string {
		u, err := base.Parse(un(h))
		if err != nil {
			bad("broken link", "%q: %v", h, err)
			return ""
		}
		if u.Host != "" || u.Scheme != "" {
			return ""
		}
		t := u.EscapedPath()
		if u.RawQuery != "" || u.ForceQuery {
			t += "?" + u.RawQuery
		}
		return t
	}
	page := func(skip func(h string) bool) {
		for _, m := range reHref.FindAllStringSubmatch(a.body, -1) {
			if h := m[1]; h != "" && !strings.HasPrefix(h, "#") && !strings.HasPrefix(h, "data:") && (skip == nil || !skip(h)) {
				if t := resolve(h); t != "" {
					links = append(links, t)
				}
			}
		}
	}
	switch {
	case len(s) == 1 && s[0] == "":
		if !need() {
			return
		}
		var got, want []string
		for _, m := range reFolder.FindAllStringSubmatch(a.body, -1) {
			got = append(got, un(m[2]))
			// the link leads to the object
			ls, _ := segs(resolve(m[1]))
			if len(ls) < 2 || strings.Join(ls[2:], "/") != un(m[2]) {
				bad("link to another object", "folder %q: %q", un(m[2]), m[1])
			}
		}
		for _, p := range w.pre {
			want = append(want, p)
		}
		if !sameStrings(got, want) {
			bad("wrong list of objects", "%q instead of %q", got, want)
		}
		page(nil)
		return
	case s[0] == "ping" || s[0] == "static":
		if s[0] == "static" {
			if data, err := displaydata.WebRoot.ReadFile(strings.Join(s[1:], "/")); err == nil && need() && string(data) != a.body {
				bad("wrong static file", "%d bytes", len(a.body))
			}
		}
		return
	case len(s) > 2 && s[0] == "object" && s[1] == "folder":
		folder := strings.Trim(strings.Join(s[2:], "/"), "/")
		for id, p := range w.pre {
			if p == folder {
				want := "http://viewer.test/object/id/" + url.PathEscape(id)
				if a.code < 300 || a.code > 399 {
					bad("page refused", "status %d: %.300s", a.code, a.body)
				} else if a.loc != want {
					bad("redirect to another object", "%q instead of %q", a.loc, want)
				} else {
					links = append(links, strings.TrimPrefix(a.loc, "http://viewer.test"))
				}
				return
			}
		}
		refused("folder")
		return
	case len(s) < 3 || s[0] != "object" || s[1] != "id":
		refused("page")
		return
	}
	id := s[2]
	o := w.objs[id]
	if o == nil {
		refused("object")
		return
	}
	if w.loose && a.new && a.code >= 400 {
		return
	}
	title := func() bool {
		m := reH1.FindStringSubmatch(a.body)
		if m == nil || strings.TrimSpace(un(m[1])) != strings.TrimSpace(id) {
			bad("page of another object", "%q instead of %q", m, id)
			return false
		}
		return true
	}
	// rows of a page with files
	rows := func(want map[string]string) {
		got := map[string]string{}
		for _, m := range reRow.FindAllStringSubmatch(a.body, -1) {
			n := un(m[3])
			if _, twice := got[n]; twice {
				bad("file listed twice", "%q", n)
			}
			got[n] = strings.ToLower(m[2])
			if x, err := url.PathUnescape(un(m[1])); err != nil || x != id {
				bad("link to another object", "%q instead of %q", un(m[1]), id)
			}
			links = append(links, "/object/id/"+un(m[1])+"/detail/"+m[2])
		}
		if d := sameTree(want, got); d != "" {
			bad("wrong list of files", "%s", d)
		}
	}
	manifest := map[string]string{}
	contents := map[string][]string{}
	for d, ps := range o.Inv.Manifest {
		for _, p := range ps {
			manifest[p] = strings.ToLower(d)
		}
		contents[strings.ToLower(d)] = ps
	}
	data := func(dig string) string { return o.Files[contents[dig][0]] }
	verdata := func(re *regexp.Regexp) {
		got := map[string]string{}
		for _, m := range re.FindAllStringSubmatch(a.body, -1) {
			got[m[1]] = fmt.Sprintf("%q %q %q", un(m[2]), un(m[3]), un(m[4]))
		}
		want := map[string]string{}
		for v, x := range o.Inv.Versions {
			n, ad, msg := "", "", ""
			if x.User != nil {
				n, ad = x.User.Name, x.User.Address
			}
			if x.Message != nil {
				msg = *x.Message
			}
			want[v] = fmt.Sprintf("%q %q %q", n, ad, msg)
		}
		if d := sameTree(want, got); d != "" {
			bad("wrong data of the versions", "%s", d)
		}
	}
	size := func(re *regexp.Regexp) {
		total, known := w.sizes[id]
		if !known {
			return
		}
		m := re.FindStringSubmatch(a.body)
		if m == nil || m[1] != humanize.Bytes(uint64(total)) {
			bad("wrong total size", "%q instead of %s", m, humanize.Bytes(uint64(total)))
		}
	}
	number := func(re *regexp.Regexp, want int) {
		m := re.FindStringSubmatch(a.body)
		if m == nil || m[1] != fmt.Sprint(want) {
			bad("wrong number of files", "%q instead of %d", m, want)
		}
	}
	nc := 0
	for _, ps := range contents {
		if len(ps) > 0 {
			nc++
		}
	}
	switch {
	case len(s) == 3:
		if !need() || !title() {
			return
		}
		verdata(reCard)
		number(reNum, len(manifest))
		number(reDiff, nc)
		size(reSize)
		page(nil)
	case s[3] == "manifest" && len(s) == 4:
		if !need() || !title() {
			return
		}
		rows(manifest)
		page(nil)
	case s[3] == "version" && len(s) == 5:
		v := o.Inv.Versions[s[4]]
		if v == nil {
			if ok && (len(reRow.FindAllString(a.body, -1)) > 0 || !title()) {
				bad("unknown version shows files", "%.0s", a.body)
			}
			return
		}
		if !need() || !title() {
			return
		}
		rows(v.byPath())
		page(nil)
	case s[3] == "report" && len(s) == 4:
		if !need() {
			return
		}
		if m := reRepID.FindStringSubmatch(a.body); m == nil || strings.TrimSpace(un(m[1])) != strings.TrimSpace(id) {
			bad("page of another object", "%q instead of %q", m, id)
			return
		}
		verdata(reRepVer)
		number(reRepNum, len(manifest))
		size(reRepSz)
		var got string
		if m := reInfo.FindStringSubmatch(a.body); m != nil {
			got = un(m[1])
		}
		if got != w.info[id] {
			bad("wrong descriptive metadata", "title %q instead of %q", got, w.info[id])
		}
		if _, full := func() (string, bool) { q, _ := url.ParseQuery(query); x, ok := q["full"]; return fmt.Sprint(x), ok }(); full {
			var names, want []string
			for _, m := range reFName.FindAllStringSubmatch(a.body, -1) {
				names = append(names, un(m[1]))
			}
			for p := range o.Inv.Versions[o.Inv.Head].byPath() {
				want = append(want, p)
			}
			if !sameStrings(names, want) {
				bad("wrong list of files", "%q instead of %q", names, want)
			}
		}
		page(nil)
	case s[3] == "detail" && len(s) == 5:
		dig := strings.ToLower(s[4])
		if contents[dig] == nil {
			refused("checksum")
			return
		}
		if !need() {
			return
		}
		head, rest, ok1 := strings.Cut(a.body, "Internal Names")
		in, ext, ok2 := strings.Cut(rest, "External Names")
		if !ok1 || !ok2 {
			bad("incomplete page", "%.300s", a.body)
			return
		}
		fix := map[string]string{}
		for _, m := range reFix.FindAllStringSubmatch(head, -1) {
			fix[un(m[1])] = un(m[2])
		}
		want := map[string]string{o.Inv.DigestAlgorithm: s[4]}
		for al, m := range o.Inv.Fixity {
			for fd, ps := range m {
				for _, p := range ps {
					if manifest[p] == dig {
						want[al] = fd
					}
				}
			}
		}
		if d := sameTree(want, fix); d != "" {
			bad("wrong checksums", "%s", d)
		}
		var inames []string
		for _, m := range reTD.FindAllStringSubmatch(in, -1) {
			inames = append(inames, un(m[1]))
		}
		if !sameStrings(inames, contents[dig]) {
			bad("wrong stored names", "%q instead of %q", inames, contents[dig])
		}
		var enames, ewant []string
		for _, m := range reExt.FindAllStringSubmatch(ext, -1) {
			enames = append(enames, m[1]+" "+un(m[3]))
			t := resolve(m[2])
			links = append(links, t)
			if ls, _ := segs(t); len(ls) < 6 || ls[2] != id || ls[3] != "download" || !strings.EqualFold(ls[4], dig) {
				bad("link to another file", "%q: %q", un(m[3]), m[2])
			}
		}
		for v, x := range o.Inv.Versions {
			for p, d := range x.byPath() {
				if d == dig {
					ewant = append(ewant, v+" "+p)
				}
			}
		}
		if !sameStrings(enames, ewant) {
			bad("wrong logical names", "%q instead of %q", enames, ewant)
		}
		page(nil)
	case s[3] == "download" && len(s) == 6:
		dig := strings.ToLower(s[4])
		if contents[dig] == nil {
			refused("checksum")
			return
		}
		if need() && a.body != data(dig) {
			bad("wrong content delivered", "%.60q instead of %.60q", a.body, data(dig))
		}
	case s[3] == "extension" && len(s) > 6 && s[5] == "download":
		dir := "extensions/" + s[4]
		sub := strings.Join(s[6:], "/")
		p := path.Join(dir, sub)
		want, exists := o.Files[p]
		odd := !fs.ValidPath(sub) || !fs.ValidPath(s[4]) || strings.Contains(s[4], "/") || s[4] == "."
		switch {
		case odd && ok && (!exists || !strings.HasPrefix(p, dir+"/") || path.Dir(dir) != "extensions" || a.body != want):
			bad("delivers what is outside of the extension", "%q", a.body)
		case odd:
		case !exists:
			refused("file of an extension")
		default:
			if need() && a.body != want {
				bad("wrong content delivered", "%.60q instead of %.60q", a.body, want)
			}
		}
	default:
		refused("page")
	}
	return
}

// crawl follows all links from the start page and the given requests.
func (w *vWorld) crawl(c *C, what string, v *vServer, more ...string) {
	todo := []string{"/"}
	seen := map[string]bool{}
	for len(todo) > 0 || more != nil {
		if len(todo) == 0 {
			todo, more = more, nil
			continue
		}
		t := todo[0]
		todo = todo[1:]
		if seen[t] {
			continue
		}
		seen[t] = true
		a := v.get(t)
		c.Step()
		c.Case(w.name + t)
		c.State(w.name + t + fmt.Sprint(a.code) + a.body)
		todo = append(todo, w.judge(c, what, a)...)
		v.done(c, what+" GET "+t)
	}
	// every page of every object was reached
	for id, o := range w.objs {
		n := "/object/id/" + url.PathEscape(id)
		want := []string{n, n + "/manifest", n + "/report", n + "/report?full"}
		for ver := range o.Inv.Versions {
			want = append(want, n+"/version/"+ver)
		}
		for _, t := range want {
			if !seen[t] && !seen[strings.ReplaceAll(t, "?full", "?full=")] {
				c.Fail("viewer: page not reachable", "%s: %s: %s", w.name, what, t)
			}
		}
	}
	c.Sample("%s: %d pages", w.name, len(seen))
}

// alphabet of requests: valid ones, unknown and escaping ones.
func (w *vWorld) alphabet(all bool) (r []string) {
	ids := w.ids()
	if !all && len(ids) > 2 {
		ids = ids[:2]
	}
	for _, id := range ids {
		o := w.objs[id]
		n := "/object/id/" + url.PathEscape(id)
		var digs []string
		for d := range o.Inv.Manifest {
			digs = append(digs, d)
		}
		sort.Strings(digs)
		r = append(r, n, n+"/manifest", n+"/version/"+o.Inv.Head, n+"/detail/"+digs[0], n+"/download/"+digs[0]+"/x", n+"/report",
			"/object/folder/"+url.PathEscape(w.pre[id]))
		r = append(r, n+"/detail/0", n+"/download/0/x", n+"/version/v99",
			n+"/extension/initial/download/nothing")
		for f := range o.Files {
			if rest, ok := strings.CutPrefix(f, "extensions/"); ok {
				if e, sub, ok := strings.Cut(rest, "/"); ok {
					r = append(r, n+"/extension/"+url.PathEscape(e)+"/download/"+url.PathEscape(sub))
					if all {
						for _, esc := range []string{"../" + e + "/" + sub, "../../inventory.json", "../../../" + "0=ocfl_1.0", "../../../../secret", "/w/x", "", "."} {
							r = append(r, n+"/extension/"+url.PathEscape(e)+"/download/"+url.PathEscape(esc), n+"/extension/"+url.PathEscape(e)+"/download/"+esc)
						}
					}
				}
			}
		}
		if all {
			for _, e := range []string{"..", ".", "../..", "../../../secret", ""} {
				for _, sub := range []string{"inventory.json", "secret", "../secret", "../../secret"} {
					r = append(r, n+"/extension/"+strings.ReplaceAll(strings.ReplaceAll(e, "/", "%2F"), ".", "%2e")+"/download/"+sub)
				}
			}
		}
	}
	sort.Strings(r)
	r = append(r, "/", "/object/id/none", "/object/id/none/manifest", "/object/folder/none")
	if all {
		r = append(r, "/object/folder/..%2Fother", "/object/folder/../other", "/object/folder/%2e%2e/other", "/object/folder/"+"extensions", "/object/folder/.", "/object/folder/%2e%2e", "/object/folder/", "/none", "/ping")
		for _, p := range w.pre {
			r = append(r, "/object/folder/"+url.PathEscape(p)+"/../", "/object/folder/./"+url.PathEscape(p)+"/v1")
		}
	}
	return
}

func vAdd(e *Env, fs fs.FS, id string, trees ...Tree) {
	for i, t := range trees {
		_, err := e.Do(fs, Add{ID: id, Msg: fmt.Sprintf("<m%d> & %s", i, id), User: "u'" + id, Addr: "mailto:\"a\"", Src: t.FS(), Dedup: true, Echo: true})
		must(err)
	}
}

var vDup = Tree{"a": "A", "copy/a": "A", "empty": "", "big": big + strings.Repeat("0123456789", 200)}

func vTwo(e *Env, f fs.FS, ids ...string) {
	for i, id := range ids {
		if i%2 == 0 {
			vAdd(e, f, id, Tree{"a": "A of " + id, "d/b": "same"}, Tree{"a": "A2 of " + id, "d/b": "same", "c": "C"})
		} else {
			vAdd(e, f, id, vDup, Tree{"copy/a": "A"})
		}
	}
}

// reserved characters
func idsWorld() *vWorld {
	names := Tree{}
	for i, n := range []string{"a", "d/b", "x y/ü.txt", "q?.txt", "?", "h#.txt", "#", "p%41.txt", "%2e%2e", "<b>.txt", "it's", "a:b", "100%", "a+b", "&amp;", "d/\"q\"", "%2Fx"} {
		names[n] = fmt.Sprintf("content %d", i)
	}
	e := env11("ids", []Alg{checksum.DigestMD5}, digExt)
	e.Root = baseExt(extCfg(extension.StorageLayoutHashedNTupleName))
	d := NewDisk("root")
	must(e.Init(d.FS()))
	vTwo(e, d.FS(), "a", "b", "a%41b", "x/y z", "q?#r", "ü", "a+b", "<i>&\"'</i>", "..x", "a%2Fb", "100%", "info:f/x%20y")
	vAdd(e, d.FS(), "names", names)
	return newWorld("ids", e, d.Snap())
}

func directWorld() *vWorld {
	e := env11("direct", nil, digExt)
	e.Version = "1.0"
	d := NewDisk("root")
	must(e.Init(d.FS()))
	vTwo(e, d.FS(), "a", "b c", "x%41y", "x%20y", "h#q?", "d;e", "ü", "t%C3%BCr")
	return newWorld("direct", e, d.Snap())
}

func areasWorld() *vWorld {
	e := env11("areas", nil, digExt, contentExt("content", "data", "metadata", "meta data"))
	d := NewDisk("root")
	must(e.Init(d.FS()))
	for _, id := range []string{"a", "b"} {
		for i := 1; i < 3; i++ {
			_, err := e.Do(d.FS(), Add{ID: id, Msg: "m", User: "u", Addr: "a", Src: Tree{"a": "A" + id, "b": fmt.Sprint(i)}.FS(), Area: "content", Dedup: true,
				Areas: []AreaSrc{{"metadata", Tree{"info.json": fmt.Sprintf(`{"title":"T%d%s"}`, i%2, id)}.FS()}}})
			must(err)
		}
	}
	w := newWorld("areas", e, d.Snap())
	w.info = map[string]string{"a": "T0a", "b": "T0b"}
	return w
}

// folders which are not those of the layout
func otherWorld() *vWorld {
	u := directWorld()
	s := Snap{}
	for k, v := range u.snap {
		for from, to := range map[string]string{"a/": "x y/1/", "b c/": "x y/2/", "h#q?/": "a/"} {
			if rest, ok := strings.CutPrefix(k, from); ok {
				s[to+rest] = v
			}
		}
		if !strings.Contains(k, "/") {
			s[k] = v
		}
	}
	un := newWorld("other folders", u.env, FromSnap("w", s).Snap())
	un.loose = true
	return un
}

// vWorlds are the storage roots.
func vWorlds() (r []*vWorld) {
	r = append(r, idsWorld())
	// folders with escaped characters
	e := env11("folders", nil, digExt)
	e.Digest = sha256a
	e.Root = baseExt(extCfg(hid))
	d := NewDisk("root")
	must(e.Init(d.FS()))
	vTwo(e, d.FS(), "..hor/rib:le-$id", "plain", "a b%", "ü/ö")
	r = append(r, newWorld("folders", e, d.Snap()))
	r = append(r, directWorld())
	// extensions with data
	e = env11("extensions", []Alg{checksum.DigestSHA1, checksum.DigestMD5}, digExt,
		extCfg(extension.IndexerName, "storageType", `"extension"`, "storageName", `"metadata"`, "compress", `"none"`, "actions", `["siegfried","xml"]`))
	e.Indexer = fakeIndexer(func(name, content string) string { return "x-fmt/111" })
	d = NewDisk("root")
	must(e.Init(d.FS()))
	vTwo(e, d.FS(), "a", "b")
	r = append(r, newWorld("extensions", e, d.Snap()))
	// areas
	r = append(r, areasWorld())
	e = env11("one area", nil, digExt, contentExt("content", "data"))
	d = NewDisk("root")
	must(e.Init(d.FS()))
	vTwo(e, d.FS(), "a", "b")
	r = append(r, newWorld("one area", e, d.Snap()))
	// descriptive metadata; the third version has the one of the first again
	dir, cleanup := scratch()
	defer cleanup()
	for _, st := range []string{"area", "path", "extension"} {
		for _, sub := range []bool{true, false} {
			if st == "area" && !sub {
				continue
			}
			mf := extCfg(extension.MetaFileName, "storageType", jstr(st), "storageName", `"metadata"`, "name", `"info.json"`, "schema", `"s.json"`, "schemaUrl", `"http://127.0.0.1:1/s.json"`)
			mf["s.json"] = anySchema
			x := []map[string]string{digExt, mf}
			if sub {
				x = append(x, contentExt("content", "data", "metadata", "meta"))
			}
			e = env11("metafile", nil, x...)
			d = NewDisk("root")
			must(e.Init(d.FS()))
			w := &vWorld{info: map[string]string{}}
			for _, id := range []string{"a", "b"} {
				for i := 0; i < 3; i++ {
					f := filepath.Join(dir, "info.json")
					w.info[id] = fmt.Sprintf("<T%d>%s", i%2, id)
					must(os.WriteFile(f, mustJSON(J{"title": w.info[id]}), 0o644))
					ue := *e
					ue.Params = map[string]string{"ext-" + extension.MetaFileName + "-source": "file://" + f}
					_, err := ue.Do(d.FS(), Add{ID: id, Msg: "m", User: "u", Addr: "a", Src: Tree{"a": fmt.Sprint(i)}.FS(), Dedup: true})
					must(err)
				}
			}
			s := d.Snap()
			if st == "extension" {
				// an object without a document
				w.info["b"] = ""
				doc := path.Join(objPrefix(s, "b"), "extensions", extension.MetaFileName, "metadata/info.json")
				if _, ok := s[doc]; !ok {
					panic(doc)
				}
				delete(s, doc)
			}
			n := newWorld(fmt.Sprintf("metafile %s %v", st, sub), e, s)
			n.info = w.info
			r = append(r, n)
		}
	}
	// sizes known from the file system
	for _, idx := range []bool{false, true} {
		x := []map[string]string{digExt, extCfg(extension.FilesystemName, "folders", `""`, "storageType", `"extension"`, "storageName", `"metadata"`, "compress", `"gzip"`)}
		if idx {
			x = append(x, extCfg(extension.IndexerName, "storageType", `"extension"`, "storageName", `"metadata"`, "compress", `"none"`, "actions", `["siegfried","xml"]`))
		}
		e = env11("filesystem", nil, x...)
		if idx {
			e.Indexer = fakeIndexer(func(name, content string) string { return "x-fmt/111" })
		}
		d = NewDisk("root")
		must(e.Init(d.FS()))
		for i, t := range []Tree{{"a": "A", "d/b": "BB", "copy": "A"}, {"a": "A", "c": strings.Repeat("C", 3000)}} {
			src := newSrcDir(filepath.Join(dir, fmt.Sprint(idx)), i, t)
			_, err := e.Do(d.FS(), Add{ID: "a", Msg: "m", User: "u", Addr: "a", Src: src.fs(), Dedup: true, Echo: true})
			must(err)
		}
		w := newWorld(fmt.Sprintf("filesystem %v", idx), e, d.Snap())
		w.sizes = map[string]int{"a": 1 + 2 + 3000}
		r = append(r, w)
	}
	r = append(r, otherWorld())
	// objects of other tools
	initValRoot()
	dims := validDims()
	for _, h := range validHistories() {
		if h.name != "three" && h.name != "empty" {
			continue
		}
		for di := -1; di < len(dims); di++ {
			n := 1
			if di >= 0 {
				n = len(dims[di].alts)
			}
			for ai := 0; ai < n; ai++ {
				o := &WObj{ID: "o", Specs: []string{"1.1"}, Algs: []string{"sha512"}, States: h.h}
				name := "foreign " + h.name
				if di >= 0 {
					dims[di].alts[ai](o)
					name += fmt.Sprintf(" %s.%d", dims[di].name, ai)
				}
				if o.Width == 2 && len(h.h) > 9 || o.Width == 3 && len(h.h) > 99 {
					continue
				}
				s := o.write()
				if k, _ := judgeRef(s); k != jValid {
					continue
				}
				r = append(r, newWorld(name, valEnv(), FromSnap("w", rootWith(s)).Snap()))
			}
		}
	}
	return
}

func runC30(r *Run) {
	sb := r.Batch()
	sb.isolated = true
	for _, w := range []*vWorld{idsWorld(), areasWorld(), otherWorld()} {
		w.concurrent(r, sb)
	}
	sb.Wait()
	if r.worker {
		return
	}
	b := r.Batch()
	for _, w := range vWorlds() {
		b.Do("crawl "+w.name, func(c *C) {
			v, err := newServer(w, nil)
			must(err)
			w.crawl(c, "crawl", v, w.alphabet(true)...)
		})
		foreign := strings.HasPrefix(w.name, "foreign")
		if !foreign || r.Thorough() {
			b.Do("disk "+w.name, func(c *C) {
				onOS(w.snap, func(fsys fs.FS, dir string) {
					v, err := newServer(w, fsys)
					must(err)
					w.crawl(c, "on disk", v)
					c.Trace()
					if d := osSnap(dir).Diff(w.snap); d != "" {
						c.Fail("viewer: storage modified", "%s: %s", w.name, d)
					}
				})
			})
		}
		if foreign {
			continue
		}
		// the answer does not depend on what was requested before
		al := w.alphabet(false)
		for _, first := range al {
			b.Do(fmt.Sprintf("sequences %s %q", w.name, first), func(c *C) { w.sequences(c, first, al, Pick(r, 2, 3)) })
		}
	}
	b.Wait()
}

// sequences executes every sequence of n requests which begins with first,
// one after the other in one viewer.
func (w *vWorld) sequences(c *C, first string, al []string, n int) {
	v, err := newServer(w, nil)
	must(err)
	opened := map[string]bool{}
	var rec func(pre []string)
	rec = func(pre []string) {
		if len(pre) < n {
			for _, t := range al {
				rec(append(pre[:len(pre):len(pre)], t))
			}
			return
		}
		for i, t := range pre {
			a := v.get(t)
			w.opened(a, opened)
			c.Step()
			w.judge(c, fmt.Sprintf("after %q:", pre[:i]), a)
			if i == n-1 {
				c.State(w.name + fmt.Sprint(pre, a.code) + a.body)
			}
		}
		c.Case(w.name + fmt.Sprint(pre))
		v.done(c, fmt.Sprintf("%q", pre))
	}
	rec([]string{first})
}

func (w *vWorld) opened(a *vAnswer, opened map[string]bool) {
	if s, _ := segs(a.req); len(s) > 2 {
		a.new = !opened[s[2]]
		if s[1] == "folder" && a.code < 400 {
			ls, _ := segs(strings.TrimPrefix(a.loc, "http://viewer.test"))
			opened[ls[len(ls)-1]] = true
		}
	}
}

// concurrent executes all schedules of two requests at the same time.
func (w *vWorld) concurrent(r *Run, b *Batch) {
	ids := w.ids()
	reqs := func(id string) []string {
		o := w.objs[id]
		n := "/object/id/" + url.PathEscape(id)
		var digs []string
		for d := range o.Inv.Manifest {
			digs = append(digs, d)
		}
		sort.Strings(digs)
		return []string{n, n + "/manifest", n + "/version/" + o.Inv.Head, n + "/detail/" + digs[0], n + "/download/" + digs[0] + "/x", n + "/report", n + "/extension/0001-digest-algorithms/download/config.json",
			"/object/folder/" + url.PathEscape(w.pre[id])}
	}
	ra, rb := reqs(ids[0]), reqs(ids[1])
	first := []string{"/object/folder/" + url.PathEscape(w.pre[ids[0]]), "/object/folder/" + url.PathEscape(w.pre[ids[1]])}
	for i, ta := range ra {
		b.Do(fmt.Sprintf("schedules %s %q", w.name, ta), func(c *C) {
			for _, tb := range append(append([]string{}, rb...), ra[i], "/", "/object/id/none") {
				// the object shown last is the second, the first, none
				for warm, pre := range [][]string{rb[:1], ra[:1], nil} {
					if !r.Thorough() && warm > 0 && w.name != "ids" {
						continue
					}
					bound := Pick(r, 2, 3)
					if pre == nil { // a new viewer for each schedule
						bound = 2
					}
					w.schedules(c, first, pre, []string{ta, tb}, bound, false)
					if w.name == "ids" && pre != nil && (r.Thorough() || warm == 0 && tb == rb[i]) {
						w.schedules(c, first, pre, []string{ta, tb}, 1, true)
					}
				}
			}
		})
	}
}

// schedules executes the requests reqs with every schedule of at most bound
// preemptions. Every execution begins after the requests first and pre;
// without pre it begins with a new viewer. fine: preemptions before every
// statement of the viewer, otherwise at operations of locks and of the storage.
func (w *vWorld) schedules(c *C, first, pre, reqs []string, bound int, fine bool) {
	start := func() *vServer {
		v, err := newServer(w, nil)
		must(err)
		if w.loose || pre != nil {
			for _, t := range first {
				v.get(t)
			}
		}
		return v
	}
	v := start()
	at := "locks and storage operations"
	if fine {
		at = "statements"
	}
	vsync.Coarse = !fine
	judged := map[string]bool{}
	maxSteps := 0
	n, div := schedules(bound, nil, func(choose func(en []int, last int) int) bool {
		if pre == nil {
			v = start()
		}
		for _, t := range pre {
			v.get(t)
		}
		v.done(c, fmt.Sprint(pre))
		races := vsync.Races()
		got := make([]*vAnswer, len(reqs))
		var fs []func()
		for i, t := range reqs {
			fs = append(fs, func() { got[i] = v.get(t) })
		}
		var tr []byte
		v.yield = true
		dead, steps, panics := vsync.Run(fs, func(en []int, last int) int {
			x := choose(en, last)
			tr = append(tr, byte('0'+x))
			return x
		})
		v.yield = false
		maxSteps = max(maxSteps, steps)
		c.Step()
		c.Case(fmt.Sprint(w.name, reqs, pre, string(tr)))
		what := fmt.Sprintf("%q after %q, schedule %s:", reqs, pre, tr)
		if dead {
			c.Fail("viewer: deadlock", "%s: %s", w.name, what)
			return false
		}
		for i, p := range panics {
			if p != nil {
				c.Fail("viewer: panic", "%s: %s request %d: %v", w.name, what, i, p)
				return false
			}
		}
		if vsync.Races() > races {
			c.Fail("viewer: data race", "%s: %s accesses without synchronisation (report of the race detector on stderr)", w.name, what)
			return false
		}
		before := len(c.viol)
		for _, a := range got {
			k := w.name + a.req + fmt.Sprint(a.code, a.loc, a.err) + a.body
			if !judged[k] {
				judged[k] = true
				w.judge(c, what, a)
				c.State(k)
			}
		}
		v.done(c, what)
		return len(c.viol) == before
	})
	c.Sample("%s: %q: %d schedules of up to %d steps with at most %d preemptions at %s (%d could not be repeated)", w.name, reqs, n, maxSteps, bound, at, div)
}
