O="pkg/ocfl/objectbase.go"; I="pkg/ocfl/inventorybase.go"
seeds=[
dict(id="b05-fixity-any",prop="C04",needs="two files with the same fixity digest, one of them corrupted or exchanged",breaks="a fixity entry counts as verified as soon as one of its files has the digest",
 edits={I:[('''			for _, file := range files {
				if !slices.Contains(csFilenames, file) {
					i.addValidationError(E093, "invalid fixity digest for file '%s'", file)
				}
			}
''','''			if !slices.ContainsFunc(files, func(file string) bool { return slices.Contains(csFilenames, file) }) {
				i.addValidationError(E093, "invalid fixity digest for files %v", files)
			}
''')]},
 main='''
package main

import (
	"strings"

	"github.com/je4/utils/v2/pkg/checksum"
)

func main() {
	k := newKit("root")
	k.fixity = []checksum.DigestAlgorithm{"sha256"}
	k.init()
	ck(k.add("o", files{"a": "x", "b": "x", "c": "y"}, mode{}))
	t := tree(k.dir)
	// the digest of "c" moves to the entry of "a" and "b"
	inv := parse(t["o/inventory.json"])
	fix := inv["fixity"].(map[string]any)["sha256"].(map[string]any)
	var two, one string
	for d, l := range fix {
		if len(l.([]any)) == 2 {
			two = d
		} else {
			one = d
		}
	}
	fix[two] = append(fix[two].([]any), fix[one].([]any)...)
	delete(fix, one)
	for _, d := range []string{"o/", "o/v1/"} {
		k.putInventory(d, inv)
	}
	errs := k.errors()
	if len(errs) == 0 {
		fail("wrong fixity digest not reported")
	}
	if !strings.Contains(strings.Join(errs, " "), "E093") {
		fail("%v", errs)
	}
}
'''),
dict(id="b06-hundred-versions",prop="C05",needs="an object with at least 100 versions",breaks="version names of three digits are rejected by the validation",
 edits={I:[('"^v[1-9][0-9]*$"','"^v[1-9][0-9]?$"')]},
 main='''
package main

import "fmt"

func main() {
	k := newKit("root").init()
	for i := 1; i <= 101; i++ {
		ck(k.add("o", files{"a": fmt.Sprint("content ", i)}, mode{dedup: true}))
	}
	if errs := k.errors(); len(errs) > 0 {
		fail("%v", errs)
	}
}
'''),
dict(id="b07-type-assertion",prop="C06",needs="an inventory whose type is no string",breaks="validation panics on an inventory whose type is a number",
 edits={O:[('''	sStr, ok := t.(string)
	if !ok {
		return nil, errors.Errorf("type not a string in inventory - '%v'", t)
	}
	switch sStr {''','''	switch t.(string) {''')]},
 main='''
package main

func main() {
	k := newKit("root").init()
	ck(k.add("o", files{"a": "x"}, mode{}))
	t := tree(k.dir)
	inv := parse(t["o/inventory.json"])
	inv["type"] = 11
	for _, d := range []string{"o/", "o/v1/"} {
		k.putInventory(d, inv)
	}
	if errs := k.errors(); len(errs) == 0 {
		fail("inventory with a numeric type accepted")
	}
}
'''),
]
