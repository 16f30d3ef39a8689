O="pkg/ocfl/objectbase.go"; I="pkg/ocfl/inventorybase.go"
seeds=[
dict(id="b01-head-number-trim",prop="C02",needs="an object with at least ten versions",breaks="after v10 the next version number is computed as 2, committed versions are overwritten",
 edits={I:[('vStr := strings.TrimLeft(strings.ToLower(i.Head.string), "v0")','vStr := strings.Trim(strings.ToLower(i.Head.string), "v0")')]},
 main='''
package main

import "fmt"

func main() {
	k := newKit("root").init()
	for i := 1; i <= 11; i++ {
		ck(k.add("o", files{"a": fmt.Sprint("content ", i)}, mode{dedup: true}))
	}
	for i := 1; i <= 11; i++ {
		got, err := k.extract("o", fmt.Sprint("v", i), "", false)
		if err != nil {
			fail("v%d: %v", i, err)
		}
		same(fmt.Sprint("version ", i), files{"a": fmt.Sprint("content ", i)}, got)
	}
}
'''),
dict(id="b02-inventory-before-hook",prop="C03",needs="an extension that adds content at the end of an update (content-subpath)",breaks="the inventory copy of the version directory is written before the extension adds its file and differs from the root inventory",
 edits={O:[('''	if err := object.i.Clean(); err != nil {
		return errors.Wrap(err, "cannot clean inventory")
	}
	if err := object.StoreInventory(true, false); err != nil {
		return errors.Wrap(err, "cannot store inventory")
	}
	object.stored = true

	if needVersion''','''	object.stored = true

	if needVersion'''),
 ('''	if err := object.extensionManager.UpdateObjectAfter(object); err != nil {
		return errors.Wrapf(err, "cannot execute ext.UpdateObjectAfter()")
	}
''','''	if err := object.i.Clean(); err != nil {
		return errors.Wrap(err, "cannot clean inventory")
	}
	if err := object.StoreInventory(true, false); err != nil {
		return errors.Wrap(err, "cannot store inventory")
	}
	if err := object.extensionManager.UpdateObjectAfter(object); err != nil {
		return errors.Wrapf(err, "cannot execute ext.UpdateObjectAfter()")
	}
''')]},
 main='''
package main

func main() {
	k := newKit("root")
	k.obj = exts{"NNNN-content-subpath": `"subPath":{"content":{"path":"data","description":"d"}}`}
	k.init()
	ck(k.add("o", files{"a": "x"}, mode{dedup: true, area: "content"}))
	t := tree(k.dir)
	if t["o/inventory.json"] == "" || t["o/inventory.json"] != t["o/v1/inventory.json"] {
		fail("root and version inventory differ")
	}
}
'''),
dict(id="b03-echo-forgets-copies",prop="C08",needs="an echo update with deduplication in which a file appears under a new name (content already known)",breaks="the new name of known content is not remembered as part of the update and removed again by echo",
 edits={O:[('''		object.updateFiles = append(object.updateFiles, newPath)

		if checkDuplicate {
			// do the checksum
			digest, err = checksum.Checksum(file''','''		if checkDuplicate {
			// do the checksum
			digest, err = checksum.Checksum(file'''),
 ('''				object.logger.Info().Msgf("[%s] '%s' already exists. ignoring", object.GetID(), newPath)
				return nil
			}
			// file''','''				object.logger.Info().Msgf("[%s] '%s' already exists. ignoring", object.GetID(), newPath)
				object.updateFiles = append(object.updateFiles, newPath)
				return nil
			}
			// file''')]},
 main='''
package main

func main() {
	k := newKit("root").init()
	ck(k.add("o", files{"a": "x", "b": "y"}, mode{dedup: true}))
	ck(k.add("o", files{"a": "x", "c": "y", "d": "z"}, mode{dedup: true, echo: true}))
	got, err := k.extract("o", "latest", "", false)
	ck(err)
	same("echo update", files{"a": "x", "c": "y", "d": "z"}, got)
}
'''),
dict(id="b04-dedup-head-only",prop="C07",needs="content that is only held by an older version directory",breaks="deduplication ignores content stored below older version directories and stores it again",
 edits={I:[('''		if strings.EqualFold(cs, checksum) {
			return files
		}''','''		if strings.EqualFold(cs, checksum) {
			last := i.getLastVersion()
			return slices.DeleteFunc(slices.Clone(files), func(f string) bool { return !strings.HasPrefix(f, last+"/") && len(i.Versions.Versions) > 2 })
		}''')]},
 main='''
package main

import "strings"

func main() {
	k := newKit("root").init()
	ck(k.add("o", files{"a": "x"}, mode{dedup: true}))
	ck(k.add("o", files{"a": "y"}, mode{dedup: true}))
	ck(k.add("o", files{"b": "x"}, mode{dedup: true}))
	n := 0
	for f, c := range tree(k.dir) {
		if strings.Contains(f, "/content/") && c == "x" {
			n++
		}
	}
	if n != 1 {
		fail("content stored %d times", n)
	}
}
'''),
]
