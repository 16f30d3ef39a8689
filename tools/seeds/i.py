V="pkg/ocfl/validationerror.go"
DIAG='''
package main

import (
	"context"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/je4/gocfl/v2/pkg/ocfl"
)

// diags validates the storage root
func (k *kit) diags() *ocfl.ValidationStatus {
	sr, _, ctx, err := k.load()
	ck(err)
	_ = sr.Check()
	return status(ctx)
}

func status(ctx context.Context) *ocfl.ValidationStatus {
	st, err := ocfl.GetValidationStatus(ctx)
	ck(err)
	return st
}

// of gives the errors with the code whose context contains what, as texts
func of(st *ocfl.ValidationStatus, code, what string) (r []string) {
	for _, x := range st.Errors {
		if string(x.Code) == code && strings.Contains(x.Context, what) {
			r = append(r, x.Description2)
		}
	}
	sort.Strings(r)
	return
}

func damage(dir, pattern string) int {
	n := 0
	ck(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && filepath.Base(p) == pattern {
			n++
			return os.WriteFile(p, []byte("damage"), 0o644)
		}
		return err
	}))
	return n
}
'''
seeds=[
 dict(id='i01-compact-by-code',prop='C37',needs='an object with several errors of the same code which differ in their text (two damaged files)',breaks='of several damaged files of an object only the first one is reported',
  edits={V:[('		return E1.Context == E2.Context && E1.Code == E2.Code && E1.Description2 == E2.Description2\n	})\n	/*','		return E1.Context == E2.Context && E1.Code == E2.Code && E1.Description == E2.Description\n	})\n	/*')]},
  main=DIAG+'''
func main() {
	k := newKit("root").init()
	ck(k.add("one", files{"a": "A", "b": "B", "c": "C"}, mode{}))
	damage(k.dir, "a")
	damage(k.dir, "b")
	st := k.diags()
	st.Compact()
	all := strings.Join(of(st, "E092", "one"), " ")
	if !strings.Contains(all, "/a") || !strings.Contains(all, "/b") {
		fail("damaged files a and b, reported: %s", all)
	}
}
'''),
 dict(id='i02-description-in-place',prop='C37',needs='two errors with the same code in one process (two damaged objects)',breaks='the text of an error contains the texts of all earlier errors of the same code, also those of other objects',
  edits={V:[('''func (ve *ValidationError) AppendDescription(format string, a ...any) *ValidationError {
	return &ValidationError{''','''func (ve *ValidationError) AppendDescription(format string, a ...any) *ValidationError {
	ve.Description2 = strings.TrimSpace(ve.Description2 + " " + fmt.Sprintf(format, a...))
	return &ValidationError{'''),('''		Description2: strings.TrimSpace(ve.Description2 + " " + fmt.Sprintf(format, a...)),
''','''		Description2: ve.Description2,
''')]},
  main=DIAG+'''
func main() {
	k := newKit("root").init()
	ck(k.add("one", files{"first": "A"}, mode{}))
	ck(k.add("two", files{"second": "B"}, mode{}))
	if damage(k.dir, "first") != 1 || damage(k.dir, "second") != 1 {
		fail("content not found")
	}
	st := k.diags()
	for _, id := range []string{"one", "two"} {
		l := of(st, "E092", id)
		if len(l) == 0 {
			fail("damage of %s not reported", id)
		}
		for _, t := range l {
			if strings.Contains(t, "first") != (id == "one") || strings.Contains(t, "second") != (id == "two") {
				fail("error of object %s: %s", id, t)
			}
		}
	}
}
'''),
 dict(id='i03-mapping-not-used',prop='C37',needs='an object of version 1.0 with a version whose name is no version (a code that only exists in 1.1)',breaks='errors whose code does not exist in version 1.0 are reported as unknown error',
  edits={V:[('''		errno = errnomap
		err, ok = errlist[errno]
		if ok {
			return err
		}
	}
	return err
''','''		if err, ok = errlist[errno]; ok {
			return err
		}
		errno = errnomap
	}
	if err == nil {
		err = errlist[E000]
	}
	return err
''')]},
  main=DIAG+'''
func main() {
	k := newKit("root")
	k.version = "1.0"
	k.init()
	ck(k.add("one", files{"a": "A"}, mode{}))
	// a version of another name in the inventory
	for _, p := range []string{"", "v1/"} {
		p = "one/" + p
		b, err := os.ReadFile(filepath.Join(k.dir, p, "inventory.json"))
		ck(err)
		inv := parse(string(b))
		vs := inv["versions"].(map[string]any)
		vs["version2"] = vs["v1"]
		k.putInventory(p, inv)
	}
	st := k.diags()
	if len(st.Errors) == 0 {
		fail("nothing reported")
	}
	for _, x := range st.Errors {
		if x.Code == "E000" {
			fail("unknown error: %v", x)
		}
	}
}
'''),
]
