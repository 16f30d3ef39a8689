From 1c901269e420ca20763196f9a14b79c59187d517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 001/110] fix: loading a storage root with an unsupported
 extension must not panic

LoadStorageRoot calls CreateExtensions without a validation receiver; an
extension folder that cannot be instantiated then dereferenced nil.
---
 pkg/ocfl/extensionFactory.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/extensionFactory.go b/pkg/ocfl/extensionFactory.go
index 8ecca6e..a0243f7 100644
--- a/pkg/ocfl/extensionFactory.go
+++ b/pkg/ocfl/extensionFactory.go
@@ -94,7 +94,9 @@ func (f *ExtensionFactory) CreateExtensions(fsys fs.FS, validation Validation) (
 		ext, err := f.Create(sub)
 		if err != nil {
 			//errs = append(errs, errors.Wrapf(err, "cannot create extension %s", file.Name()))
-			validation.addValidationWarning(W000, "extension %s not supported by gocfl %s", file.Name(), version.VERSION)
+			if validation != nil {
+				validation.addValidationWarning(W000, "extension %s not supported by gocfl %s", file.Name(), version.VERSION)
+			}
 		} else {
 			if !ext.IsRegistered() {
 				if validation != nil {
-- 
2.43.0


From 19422b4a8a98b90f5381707f5a8db4897046fc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 002/110] fix: always store the extension manager configuration

An extension manager without sort and exclusion entries created its folder
but wrote no config.json, so a storage root or object using it could not be
loaded again.
---
 pkg/extension/NNNN-gocfl-extension-manager.go | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index fddb639..8f486b8 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -294,17 +294,15 @@ func (manager *GOCFLExtensionManager) WriteConfig() error {
 		}
 	}
 
-	if len(manager.Exclusion) != 0 || len(manager.Sort) != 0 {
-		configWriter, err := writefs.Create(manager.fsys, "config.json")
-		if err != nil {
-			return errors.Wrap(err, "cannot open config.json")
-		}
-		defer configWriter.Close()
-		jenc := json.NewEncoder(configWriter)
-		jenc.SetIndent("", "   ")
-		if err := jenc.Encode(manager.ExtensionManagerConfig); err != nil {
-			return errors.Wrapf(err, "cannot encode config to file")
-		}
+	configWriter, err := writefs.Create(manager.fsys, "config.json")
+	if err != nil {
+		return errors.Wrap(err, "cannot open config.json")
+	}
+	defer configWriter.Close()
+	jenc := json.NewEncoder(configWriter)
+	jenc.SetIndent("", "   ")
+	if err := jenc.Encode(manager.ExtensionManagerConfig); err != nil {
+		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
 }
-- 
2.43.0


From baa29cdf8d44a003985b10fd035af815c4cee750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 003/110] fix: compare a logical path with the head version
 when adding files

AlreadyExists and IsUpdate looked at the last version in which the path
occurred. A file which was deleted and added again with its old content was
lost, and zero-padded version names always failed.
---
 pkg/ocfl/inventorybase.go | 112 +++++++-------------------------------
 1 file changed, 21 insertions(+), 91 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index a2e0784..058981f 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -788,106 +788,36 @@ func (i *InventoryBase) GetDuplicates(checksum string) []string {
 	}
 	return nil
 }
-func (i *InventoryBase) AlreadyExists(stateFilename, checksum string) (bool, error) {
-	i.logger.Debug().Msgf("'%s' [%s]", stateFilename, checksum)
-	if checksum == "" {
-		i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, false)
-		return false, nil
+// headDigest returns the digest of a logical path in the head version, "" if the path is not part of it
+func (i *InventoryBase) headDigest(stateFilename string) string {
+	version, ok := i.Versions.Versions[i.GetHead()]
+	if !ok {
+		return ""
 	}
-
-	// first get checksum of last version of a file
-	css := map[string]string{}
-	for ver, version := range i.Versions.Versions {
-		for cs, filenames := range version.State.State {
-			found := false
-			for _, filename := range filenames {
-				if filename == stateFilename {
-					css[ver] = cs
-					found = true
-				}
-			}
-			if found {
-				break
-			}
+	for cs, filenames := range version.State.State {
+		if slices.Contains(filenames, stateFilename) {
+			return cs
 		}
 	}
-	if len(css) == 0 {
-		i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, false)
-		return false, nil
-	}
-	versions := []int{}
+	return ""
+}
 
-	for ver := range css {
-		matches := vRegexp.FindStringSubmatch(ver)
-		if matches == nil {
-			return false, errors.New(fmt.Sprintf("invalid version in inventory - '%s'", ver))
-		}
-		versionInt, err := strconv.Atoi(matches[1])
-		if err != nil {
-			return false, errors.Wrapf(err, "cannot convert version number to int - '%s'", matches[1])
-		}
-		versions = append(versions, versionInt)
-	}
-	// sort versions ascending
-	sort.Ints(versions)
-	lastVersion := versions[len(versions)-1]
-	lastChecksum, ok := css[fmt.Sprintf("v%d", lastVersion)]
-	if !ok {
-		return false, errors.New(fmt.Sprintf("could not get checksum for v%d", lastVersion))
-	}
-	i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, lastChecksum == checksum)
-	return lastChecksum == checksum, nil
+func (i *InventoryBase) AlreadyExists(stateFilename, checksum string) (bool, error) {
+	i.logger.Debug().Msgf("'%s' [%s]", stateFilename, checksum)
+	dup := checksum != "" && i.headDigest(stateFilename) == checksum
+	i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, dup)
+	return dup, nil
 }
 
 func (i *InventoryBase) IsUpdate(virtualFilename, checksum string) (bool, error) {
 	i.logger.Debug().Msgf("'%s' [%s]", virtualFilename, checksum)
-	if checksum == "" {
-		i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, false)
-		return false, nil
-	}
-
-	// first get checksum of last version of a file
-	css := map[string]string{}
-	for ver, version := range i.Versions.Versions {
-		for cs, filenames := range version.State.State {
-			found := false
-			for _, filename := range filenames {
-				if filename == virtualFilename {
-					css[ver] = cs
-					found = true
-				}
-			}
-			if found {
-				break
-			}
-		}
-	}
-	if len(css) == 0 {
-		i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, false)
-		return false, nil
-	}
-	versions := []int{}
-
-	for ver := range css {
-		matches := vRegexp.FindStringSubmatch(ver)
-		if matches == nil {
-			return false, errors.New(fmt.Sprintf("invalid version in inventory - '%s'", ver))
-		}
-		versionInt, err := strconv.Atoi(matches[1])
-		if err != nil {
-			return false, errors.Wrapf(err, "cannot convert version number to int - '%s'", matches[1])
-		}
-		versions = append(versions, versionInt)
-	}
-	// sort versions ascending
-	sort.Ints(versions)
-	lastVersion := versions[len(versions)-1]
-	lastChecksum, ok := css[fmt.Sprintf("v%d", lastVersion)]
-	if !ok {
-		return false, errors.New(fmt.Sprintf("could not get checksum for v%d", lastVersion))
+	var upd bool
+	if checksum != "" {
+		headDigest := i.headDigest(virtualFilename)
+		upd = headDigest != "" && headDigest != checksum
 	}
-	i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, lastChecksum != checksum)
-	return lastChecksum != checksum, nil
+	i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, upd)
+	return upd, nil
 }
 
 func (i *InventoryBase) echoDelete(existing []string, pathPrefix string) error {
-- 
2.43.0


From d0cfa760f6d76ed595293a256fb01aa85db11da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 004/110] fix: storing a content file modifies the inventory

Adding an unchanged file without deduplication wrote it to the content
directory of a new version, but the new version was never stored.
---
 pkg/ocfl/inventorybase.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 058981f..0880574 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -950,6 +950,7 @@ func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string
 				i.Manifest.Manifest[digest] = []string{}
 			}
 			i.Manifest.Manifest[digest] = append(i.Manifest.Manifest[digest], manifestFilename)
+			i.modified = true
 		}
 
 		if _, ok := i.Versions.Versions[i.Head.string].State.State[digest]; !ok {
-- 
2.43.0


From 13f3b41df719a1f532debbf76924b00387183fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 005/110] fix: a virtual copy replaces the previous content of
 its logical path

Changing a file to content which the object already holds listed the path
with its old and its new digest.
---
 pkg/ocfl/inventorybase.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 0880574..79b705a 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -903,6 +903,10 @@ func (i *InventoryBase) CopyFile(dest string, digest string) error {
 	if slices.Contains(i.Versions.Versions[i.Head.string].State.State[digest], dest) {
 		return nil
 	}
+	// a logical path has only one digest per version
+	if err := i.DeleteFile(dest); err != nil {
+		return errors.Wrapf(err, "cannot delete old version of '%s' [%s]", dest, digest)
+	}
 	i.Versions.Versions[i.Head.string].State.State[digest] = append(i.Versions.Versions[i.Head.string].State.State[digest], dest)
 	i.modified = true
 	return nil
-- 
2.43.0


From b2ed09133711c98c10cf778d494ade9cae6d2d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 006/110] fix: echo updates remove missing files of exactly the
 updated areas

Deletions were skipped if nothing else changed, always affected the default
area, and areas whose path starts with the path of another one were mixed up.
---
 pkg/ocfl/inventorybase.go |  4 +++
 pkg/ocfl/objectbase.go    | 51 +++++++++++++++++++++++++++++++++------
 2 files changed, 47 insertions(+), 8 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 79b705a..d696515 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -826,6 +826,10 @@ func (i *InventoryBase) echoDelete(existing []string, pathPrefix string) error {
 	if !ok {
 		return errors.Errorf("cannot get version '%s'", i.Head.string)
 	}
+	if pathPrefix != "" {
+		// areas with a common name prefix are different areas
+		pathPrefix = strings.TrimRight(pathPrefix, "/") + "/"
+	}
 	statefiles := []string{}
 	for _, state := range version.State.State {
 		for _, filename := range state {
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 9269f88..d6d9d72 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -39,6 +39,8 @@ type ObjectBase struct {
 	digest             checksum.DigestAlgorithm
 	echo               bool
 	updateFiles        []string
+	updateAreas        []string // areas which get files by the current update
+	areaDone           bool     // some area of the current update is already ended
 	area               string
 }
 
@@ -506,10 +508,18 @@ func (object *ObjectBase) GetDigestAlgorithm() checksum.DigestAlgorithm {
 	return object.i.GetDigestAlgorithm()
 }
 
-func (object *ObjectBase) echoDelete() error {
+// setUpdateArea remembers, that the current update affects an area
+func (object *ObjectBase) setUpdateArea(area string) {
+	if !slices.Contains(object.updateAreas, area) {
+		object.updateAreas = append(object.updateAreas, area)
+	}
+}
+
+// echoDelete removes all files from the area, which are not part of the current update
+func (object *ObjectBase) echoDelete(area string) error {
 	slices.Sort(object.updateFiles)
 	object.updateFiles = slices.Compact(object.updateFiles)
-	basePath, err := object.extensionManager.BuildObjectStatePath(object, ".", "")
+	basePath, err := object.extensionManager.BuildObjectStatePath(object, ".", area)
 	if err != nil {
 		return errors.Wrap(err, "cannot build external path for '.'")
 	}
@@ -547,6 +557,9 @@ func (object *ObjectBase) Close() error {
 func (object *ObjectBase) StartUpdate(sourceFS fs.FS, msg string, UserName string, UserAddress string, echo bool) (fs.FS, error) {
 	object.logger.Debug().Msgf("'%s' / '%s' / '%s'", msg, UserName, UserAddress)
 	object.echo = echo
+	object.updateFiles = []string{}
+	object.updateAreas = []string{}
+	object.areaDone = false
 
 	subfs, err := writefs.SubFSCreate(object.fsys, "extensions")
 	if err != nil {
@@ -570,16 +583,23 @@ func (object *ObjectBase) EndUpdate() error {
 		object.logger.Warn().Msgf(fmt.Sprintf("object '%s' not writeable", object.GetID()))
 		return nil
 	}
+	// deletions only are a modification too
+	if object.echo {
+		areas := object.updateAreas
+		if len(areas) == 0 && !object.areaDone {
+			areas = []string{""}
+		}
+		for _, area := range areas {
+			if err := object.echoDelete(area); err != nil {
+				return errors.Wrap(err, "cannot delete files")
+			}
+		}
+	}
 	if !(object.i.IsModified()) {
 		object.logger.Info().Msgf(fmt.Sprintf("object '%s' not modified", object.GetID()))
 		return nil
 	}
 
-	if object.echo {
-		if err := object.echoDelete(); err != nil {
-			return errors.Wrap(err, "cannot delete files")
-		}
-	}
 	if err := object.extensionManager.UpdateObjectAfter(object); err != nil {
 		return errors.Wrapf(err, "cannot execute ext.UpdateObjectAfter()")
 	}
@@ -615,21 +635,25 @@ func (object *ObjectBase) EndUpdate() error {
 func (object *ObjectBase) BeginArea(area string) {
 	object.area = area
 	object.updateFiles = []string{}
+	object.updateAreas = []string{}
 }
 
 func (object *ObjectBase) EndArea() error {
 	if object.echo {
-		if err := object.echoDelete(); err != nil {
+		if err := object.echoDelete(object.area); err != nil {
 			return errors.Wrap(err, "cannot remove files")
 		}
 	}
 	object.updateFiles = []string{}
+	object.updateAreas = []string{}
+	object.areaDone = true
 	object.area = ""
 	return nil
 }
 
 func (object *ObjectBase) AddFolder(fsys fs.FS, versionFS fs.FS, checkDuplicate bool, area string) error {
 	object.logger.Debug().Msgf("walking '%v'", fsys)
+	object.setUpdateArea(area)
 	if err := fs.WalkDir(fsys, ".", func(path string, info fs.DirEntry, err error) error {
 		path = filepath.ToSlash(path)
 		if err := object.AddFile(fsys, versionFS, path, checkDuplicate, area, false, info.IsDir()); err != nil {
@@ -740,6 +764,9 @@ func (object *ObjectBase) AddReader(r io.ReadCloser, files []string, area string
 	if !object.i.IsWriteable() {
 		return "", errors.New("object not writeable")
 	}
+	if !noExtensionHook {
+		object.setUpdateArea(area)
+	}
 	path := files[0]
 	names, err := object.BuildNames(files, area)
 
@@ -775,6 +802,10 @@ func (object *ObjectBase) AddData(data []byte, path string, checkDuplicate bool,
 		return errors.New("object not writeable")
 	}
 
+	if !noExtensionHook {
+		object.setUpdateArea(area)
+	}
+
 	digestAlgorithms := object.i.GetFixityDigestAlgorithm()
 	var digest string
 
@@ -859,6 +890,10 @@ func (object *ObjectBase) AddFile(fsys fs.FS, versionFS fs.FS, path string, chec
 		return errors.New("object not writeable")
 	}
 
+	if !noExtensionHook {
+		object.setUpdateArea(area)
+	}
+
 	names, err := object.BuildNames([]string{path}, area)
 	if err != nil {
 		return errors.Wrapf(err, "cannot create virtual filename for '%s'", path)
-- 
2.43.0


From 55242848b63839b56c3305ec94be00356f562744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 007/110] fix: the first version of an object is stored even if
 it is empty

---
 pkg/ocfl/inventorybase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index d696515..ed07a5c 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -745,6 +745,9 @@ func (i *InventoryBase) NewVersion(msg, UserName, UserAddress string) error {
 	// copy last state...
 	if lastHead != "" {
 		copyMapStringSlice(i.Versions.Versions[i.Head.string].State.State, i.Versions.Versions[lastHead].State.State)
+	} else {
+		// the first version must be stored, even if it contains no file
+		i.modified = true
 	}
 	i.writeable = true
 	return nil
-- 
2.43.0


From 8eef067c8f4247145740e7cdda30f9b1547dd97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 008/110] fix: content-subpath writes its README.md in a fixed
 order

---
 pkg/extension/NNNN-content-subpath.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-content-subpath.go b/pkg/extension/NNNN-content-subpath.go
index 00387bc..61f18fb 100644
--- a/pkg/extension/NNNN-content-subpath.go
+++ b/pkg/extension/NNNN-content-subpath.go
@@ -7,6 +7,8 @@ import (
 	"github.com/atsushinee/go-markdown-generator/doc"
 	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
+	"golang.org/x/exp/maps"
+	"golang.org/x/exp/slices"
 	"io"
 	"io/fs"
 	"path/filepath"
@@ -147,7 +149,11 @@ func (sl *ContentSubPath) UpdateObjectAfter(object ocfl.Object) error {
 	readme.WriteTitle("Description of folders", doc.LevelTitle).
 		WriteLines(2)
 	var row int
-	for _, entry := range sl.Paths {
+	// map order is random - the content must not change without a reason
+	areas := maps.Keys(sl.Paths)
+	slices.Sort(areas)
+	for _, area := range areas {
+		entry := sl.Paths[area]
 		readme.WriteTitle(entry.Path, doc.LevelNormal)
 		readme.Write(entry.Description)
 		readme.Write("\n\n")
-- 
2.43.0


From 89f0f70a417d81d7e328b43507803cd328c06334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 009/110] fix: extracting an area must not contain files of
 areas with the same name prefix

---
 pkg/extension/NNNN-content-subpath.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/extension/NNNN-content-subpath.go b/pkg/extension/NNNN-content-subpath.go
index 61f18fb..fbbbe10 100644
--- a/pkg/extension/NNNN-content-subpath.go
+++ b/pkg/extension/NNNN-content-subpath.go
@@ -195,17 +195,21 @@ func (sl *ContentSubPath) BuildObjectExtractPath(object ocfl.Object, originalPat
 		return "", errors.Errorf("invalid area '%s'", area)
 	}
 	originalPath = strings.TrimLeft(originalPath, "/")
-	if !strings.HasPrefix(originalPath, subpath.Path) {
+	// same normalization as in BuildObjectStatePath(). areas with a common name prefix are different areas
+	areaPath := strings.Trim(filepath.ToSlash(filepath.Clean(subpath.Path)), "/")
+	if areaPath == "." || areaPath == "" {
+		return originalPath, nil
+	}
+	if !strings.HasPrefix(originalPath, areaPath+"/") {
 		return "", errors.Wrapf(ocfl.ExtensionObjectExtractPathWrongAreaError, "'%s' does not belong to area '%s'", originalPath, area)
 	}
-	originalPath = strings.TrimLeft(strings.TrimPrefix(originalPath, subpath.Path), "/")
-	return originalPath, nil
+	return strings.TrimPrefix(originalPath, areaPath+"/"), nil
 }
 
 func (sl *ContentSubPath) GetAreaPath(object ocfl.Object, area string) (string, error) {
 	subpath, ok := sl.Paths[area]
 	if !ok {
-		return "", errors.Errorf("invalid area '%s'", sl.area)
+		return "", errors.Errorf("invalid area '%s'", area)
 	}
 	return subpath.Path, nil
 }
-- 
2.43.0


From d115fe2a005b086cc4ce1ad7c19b2325ea2bbea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 010/110] fix: an object is never stored outside of the storage
 root

---
 pkg/extension/NNNN-gocfl-extension-manager.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index 8f486b8..a847657 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -12,6 +12,7 @@ import (
 	"golang.org/x/exp/slices"
 	"io"
 	"io/fs"
+	"strings"
 	"sync"
 )
 
@@ -328,7 +329,14 @@ func (manager *GOCFLExtensionManager) BuildStorageRootPath(storageRoot ocfl.Stor
 			id = p
 		}
 	}
-	return id, errors.Combine(errs...)
+	if err := errors.Combine(errs...); err != nil {
+		return "", err
+	}
+	// never leave the storage root or use a reserved folder
+	if !fs.ValidPath(id) || id == "." || id == "extensions" || strings.HasPrefix(id, "extensions/") {
+		return "", errors.Errorf("invalid storage root path '%s'", id)
+	}
+	return id, nil
 }
 func (manager *GOCFLExtensionManager) WriteLayout(fsys fs.FS) error {
 	if len(manager.storageRootPath) == 0 {
-- 
2.43.0


From ab70ee5da0ddc0cf944607add29b41358eb32e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 011/110] fix: create the folder hierarchy of a new object,
 never inside of another object

---
 pkg/ocfl/storagerootbase.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 988c00e..0923346 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -390,6 +390,20 @@ func (osr *StorageRootBase) LoadObjectByID(id string) (object Object, err error)
 
 func (osr *StorageRootBase) CreateObject(id string, version OCFLVersion, digest checksum.DigestAlgorithm, fixity []checksum.DigestAlgorithm, manager ExtensionManager) (Object, error) {
 	folder, err := osr.extensionManager.BuildStorageRootPath(osr, id)
+	if err != nil {
+		return nil, errors.Wrapf(err, "cannot create folder from id '%s'", id)
+	}
+	// create the folder hierarchy. an object must not be stored inside of another object
+	parts := strings.Split(folder, "/")
+	for i := 1; i < len(parts); i++ {
+		parent := strings.Join(parts[:i], "/")
+		if _, err := getVersion(osr.ctx, osr.fsys, parent, "ocfl_object_"); err == nil || err == errVersionMultiple || err == errInvalidContent {
+			return nil, errors.Errorf("cannot create object '%s' in '%s': '%s' is an object", id, folder, parent)
+		}
+		if err := writefs.MkDir(osr.fsys, parent); err != nil && !errors.Is(err, fs.ErrExist) {
+			return nil, errors.Wrapf(err, "cannot create folder '%s' in %v", parent, osr.fsys)
+		}
+	}
 	subfs, err := writefs.SubFSCreate(osr.fsys, folder)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create sub fs of %v for '%s'", osr.fsys, folder)
-- 
2.43.0


From d82d981f829b8f50ad45f27ab33290cf14ab4b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 012/110] fix: refuse a version, in which a logical path is a
 folder of another one

---
 pkg/ocfl/inventory.go     |  1 +
 pkg/ocfl/inventorybase.go | 27 +++++++++++++++++++++++++++
 pkg/ocfl/objectbase.go    |  3 +++
 3 files changed, 31 insertions(+)

diff --git a/pkg/ocfl/inventory.go b/pkg/ocfl/inventory.go
index e572747..0b74c63 100644
--- a/pkg/ocfl/inventory.go
+++ b/pkg/ocfl/inventory.go
@@ -51,6 +51,7 @@ type Inventory interface {
 	Clean() error
 
 	VersionLessOrEqual(v1, v2 string) bool
+	checkLogicalPaths() error
 	echoDelete(existing []string, pathprefix string) error
 }
 
diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index ed07a5c..7cea07a 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -791,6 +791,7 @@ func (i *InventoryBase) GetDuplicates(checksum string) []string {
 	}
 	return nil
 }
+
 // headDigest returns the digest of a logical path in the head version, "" if the path is not part of it
 func (i *InventoryBase) headDigest(stateFilename string) string {
 	version, ok := i.Versions.Versions[i.GetHead()]
@@ -857,6 +858,32 @@ func (i *InventoryBase) echoDelete(existing []string, pathPrefix string) error {
 	return nil
 }
 
+// checkLogicalPaths checks, that no logical path of the head version is used as folder of another one
+func (i *InventoryBase) checkLogicalPaths() error {
+	version, ok := i.Versions.Versions[i.GetHead()]
+	if !ok {
+		return errors.Errorf("cannot get version '%s'", i.Head.string)
+	}
+	folders := map[string]string{}
+	for _, filenames := range version.State.State {
+		for _, filename := range filenames {
+			for pos, c := range filename {
+				if c == '/' {
+					folders[filename[:pos]] = filename
+				}
+			}
+		}
+	}
+	for _, filenames := range version.State.State {
+		for _, filename := range filenames {
+			if other, ok := folders[filename]; ok {
+				return errors.Errorf("logical path '%s' conflicts with '%s'", filename, other)
+			}
+		}
+	}
+	return nil
+}
+
 func (i *InventoryBase) DeleteFile(stateFilename string) error {
 	var newState = map[string][]string{}
 	var found = false
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index d6d9d72..2b91fde 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -603,6 +603,9 @@ func (object *ObjectBase) EndUpdate() error {
 	if err := object.extensionManager.UpdateObjectAfter(object); err != nil {
 		return errors.Wrapf(err, "cannot execute ext.UpdateObjectAfter()")
 	}
+	if err := object.i.checkLogicalPaths(); err != nil {
+		return errors.Wrapf(err, "invalid state of object '%s'", object.GetID())
+	}
 
 	if err := object.i.Clean(); err != nil {
 		return errors.Wrap(err, "cannot clean inventory")
-- 
2.43.0


From ad29cc61c255fafdac212745379dad1b10f43d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 013/110] fix: report errors while closing written files and
 creating objects

---
 pkg/extension/0001-digest-algorithms.go       |  4 ++--
 .../0002-flat-direct-storage-layout.go        |  8 +++----
 ...0003-hash-and-id-n-tuple-storage-layout.go |  8 +++----
 .../0004-hashed-n-tuple-storage-layout.go     |  8 +++----
 .../0006-flat-omit-prefix-storage-layout.go   |  8 +++----
 ...0007-n-tuple-omit-prefix-storage-layout.go |  8 +++----
 pkg/extension/NNNN-content-subpath.go         |  4 ++--
 .../NNNN-direct-clean-path-layout.go          |  8 +++----
 pkg/extension/NNNN-filesystem.go              |  4 ++--
 pkg/extension/NNNN-gocfl-extension-manager.go |  8 +++----
 pkg/extension/NNNN-indexer.go                 |  4 ++--
 pkg/extension/NNNN-metafile.go                |  4 ++--
 pkg/extension/NNNN-mets.go                    |  4 ++--
 pkg/extension/NNNN-pairtree-storage-layout.go |  8 +++----
 pkg/extension/NNNN-thumbnail.go               |  4 ++--
 pkg/extension/config.go                       | 12 +++++++++-
 pkg/extension/initial.go                      |  4 ++--
 pkg/extension/pathdirect.go                   |  8 +++----
 pkg/ocfl/objectbase.go                        | 24 ++++++++++++++++---
 pkg/ocfl/storagerootbase.go                   | 15 ++++++++----
 20 files changed, 94 insertions(+), 61 deletions(-)

diff --git a/pkg/extension/0001-digest-algorithms.go b/pkg/extension/0001-digest-algorithms.go
index 5fbcd1b..4258379 100644
--- a/pkg/extension/0001-digest-algorithms.go
+++ b/pkg/extension/0001-digest-algorithms.go
@@ -88,7 +88,7 @@ func (sl *DigestAlgorithms) SetParams(params map[string]string) error {
 }
 
 func (sl *DigestAlgorithms) GetName() string { return DigestAlgorithmsName }
-func (sl *DigestAlgorithms) WriteConfig() error {
+func (sl *DigestAlgorithms) WriteConfig() (err error) {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
@@ -96,7 +96,7 @@ func (sl *DigestAlgorithms) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
diff --git a/pkg/extension/0002-flat-direct-storage-layout.go b/pkg/extension/0002-flat-direct-storage-layout.go
index bd6b470..0264d28 100644
--- a/pkg/extension/0002-flat-direct-storage-layout.go
+++ b/pkg/extension/0002-flat-direct-storage-layout.go
@@ -75,7 +75,7 @@ func (sl *StorageLayoutFlatDirect) SetParams(params map[string]string) error {
 }
 
 func (sl *StorageLayoutFlatDirect) GetName() string { return StorageLayoutFlatDirectName }
-func (sl *StorageLayoutFlatDirect) WriteConfig() error {
+func (sl *StorageLayoutFlatDirect) WriteConfig() (err error) {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
@@ -83,7 +83,7 @@ func (sl *StorageLayoutFlatDirect) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
@@ -92,12 +92,12 @@ func (sl *StorageLayoutFlatDirect) WriteConfig() error {
 	return nil
 }
 
-func (sl *StorageLayoutFlatDirect) WriteLayout(fsys fs.FS) error {
+func (sl *StorageLayoutFlatDirect) WriteLayout(fsys fs.FS) (err error) {
 	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index 30f8dc5..75adb6f 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -97,7 +97,7 @@ func (sl *StorageLayoutHashAndIdNTuple) SetParams(params map[string]string) erro
 	return nil
 }
 
-func (sl *StorageLayoutHashAndIdNTuple) WriteConfig() error {
+func (sl *StorageLayoutHashAndIdNTuple) WriteConfig() (err error) {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
@@ -105,7 +105,7 @@ func (sl *StorageLayoutHashAndIdNTuple) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
@@ -158,12 +158,12 @@ func (sl *StorageLayoutHashAndIdNTuple) BuildStorageRootPath(storageRoot ocfl.St
 	return strings.Join(dirparts, "/"), nil
 }
 
-func (sl *StorageLayoutHashAndIdNTuple) WriteLayout(fsys fs.FS) error {
+func (sl *StorageLayoutHashAndIdNTuple) WriteLayout(fsys fs.FS) (err error) {
 	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
diff --git a/pkg/extension/0004-hashed-n-tuple-storage-layout.go b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
index 135b62d..9bf1732 100644
--- a/pkg/extension/0004-hashed-n-tuple-storage-layout.go
+++ b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
@@ -96,7 +96,7 @@ func (sl *StorageLayoutHashedNTuple) SetParams(params map[string]string) error {
 	return nil
 }
 
-func (sl *StorageLayoutHashedNTuple) WriteConfig() error {
+func (sl *StorageLayoutHashedNTuple) WriteConfig() (err error) {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
@@ -104,7 +104,7 @@ func (sl *StorageLayoutHashedNTuple) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
@@ -135,12 +135,12 @@ func (sl *StorageLayoutHashedNTuple) BuildStorageRootPath(storageRoot ocfl.Stora
 	return strings.Join(dirparts, "/"), nil
 }
 
-func (sl *StorageLayoutHashedNTuple) WriteLayout(fsys fs.FS) error {
+func (sl *StorageLayoutHashedNTuple) WriteLayout(fsys fs.FS) (err error) {
 	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
diff --git a/pkg/extension/0006-flat-omit-prefix-storage-layout.go b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
index 72b359e..d0362d1 100644
--- a/pkg/extension/0006-flat-omit-prefix-storage-layout.go
+++ b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
@@ -77,7 +77,7 @@ func (sl *FlatOmitPrefixStorageLayout) SetParams(params map[string]string) error
 }
 
 func (sl *FlatOmitPrefixStorageLayout) GetName() string { return FlatOmitPrefixStorageLayoutName }
-func (sl *FlatOmitPrefixStorageLayout) WriteConfig() error {
+func (sl *FlatOmitPrefixStorageLayout) WriteConfig() (err error) {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
@@ -85,7 +85,7 @@ func (sl *FlatOmitPrefixStorageLayout) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
@@ -94,12 +94,12 @@ func (sl *FlatOmitPrefixStorageLayout) WriteConfig() error {
 	return nil
 }
 
-func (sl *FlatOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
+func (sl *FlatOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) (err error) {
 	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index 108a854..6ac0d87 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -97,7 +97,7 @@ func (sl *NTupleOmitPrefixStorageLayout) SetParams(params map[string]string) err
 }
 
 func (sl *NTupleOmitPrefixStorageLayout) GetName() string { return NTupleOmitPrefixStorageLayoutName }
-func (sl *NTupleOmitPrefixStorageLayout) WriteConfig() error {
+func (sl *NTupleOmitPrefixStorageLayout) WriteConfig() (err error) {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
@@ -105,7 +105,7 @@ func (sl *NTupleOmitPrefixStorageLayout) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
@@ -114,12 +114,12 @@ func (sl *NTupleOmitPrefixStorageLayout) WriteConfig() error {
 	return nil
 }
 
-func (sl *NTupleOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
+func (sl *NTupleOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) (err error) {
 	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
diff --git a/pkg/extension/NNNN-content-subpath.go b/pkg/extension/NNNN-content-subpath.go
index fbbbe10..49f03c7 100644
--- a/pkg/extension/NNNN-content-subpath.go
+++ b/pkg/extension/NNNN-content-subpath.go
@@ -107,7 +107,7 @@ func (sl *ContentSubPath) SetParams(params map[string]string) error {
 
 func (sl *ContentSubPath) GetName() string { return ContentSubPathName }
 
-func (sl *ContentSubPath) WriteConfig() error {
+func (sl *ContentSubPath) WriteConfig() (err error) {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
@@ -115,7 +115,7 @@ func (sl *ContentSubPath) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.ContentSubPathConfig); err != nil {
diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index 6df6262..8f97f87 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -154,7 +154,7 @@ func (sl *DirectClean) SetParams(params map[string]string) error {
 	return nil
 }
 
-func (sl *DirectClean) WriteConfig() error {
+func (sl *DirectClean) WriteConfig() (err error) {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
@@ -162,7 +162,7 @@ func (sl *DirectClean) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.DirectCleanConfig); err != nil {
@@ -171,12 +171,12 @@ func (sl *DirectClean) WriteConfig() error {
 	return nil
 }
 
-func (sl *DirectClean) WriteLayout(fsys fs.FS) error {
+func (sl *DirectClean) WriteLayout(fsys fs.FS) (err error) {
 	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index f1db651..21b5208 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -327,7 +327,7 @@ func (extFS *Filesystem) SetParams(params map[string]string) error {
 	return nil
 }
 
-func (extFS *Filesystem) WriteConfig() error {
+func (extFS *Filesystem) WriteConfig() (err error) {
 	if extFS.fsys == nil {
 		return errors.New("no filesystem set")
 	}
@@ -335,7 +335,7 @@ func (extFS *Filesystem) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(extFS.FilesystemConfig); err != nil {
diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index a847657..be4524c 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -288,7 +288,7 @@ func (manager *GOCFLExtensionManager) IsRegistered() bool {
 func (manager *GOCFLExtensionManager) GetName() string {
 	return GOCFLExtensionManagerName
 }
-func (manager *GOCFLExtensionManager) WriteConfig() error {
+func (manager *GOCFLExtensionManager) WriteConfig() (err error) {
 	for _, ext := range append(manager.extensions, manager.initial) {
 		if err := ext.WriteConfig(); err != nil {
 			return errors.Wrapf(err, "cannot store '%s'", ext.GetName())
@@ -299,7 +299,7 @@ func (manager *GOCFLExtensionManager) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(manager.ExtensionManagerConfig); err != nil {
@@ -338,7 +338,7 @@ func (manager *GOCFLExtensionManager) BuildStorageRootPath(storageRoot ocfl.Stor
 	}
 	return id, nil
 }
-func (manager *GOCFLExtensionManager) WriteLayout(fsys fs.FS) error {
+func (manager *GOCFLExtensionManager) WriteLayout(fsys fs.FS) (err error) {
 	if len(manager.storageRootPath) == 0 {
 		return nil
 	}
@@ -349,7 +349,7 @@ func (manager *GOCFLExtensionManager) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
diff --git a/pkg/extension/NNNN-indexer.go b/pkg/extension/NNNN-indexer.go
index 856f2c6..052e711 100644
--- a/pkg/extension/NNNN-indexer.go
+++ b/pkg/extension/NNNN-indexer.go
@@ -202,7 +202,7 @@ func (sl *Indexer) post(data any) ([]byte, int, error) {
 	return result, resp.StatusCode, nil
 }
 
-func (sl *Indexer) WriteConfig() error {
+func (sl *Indexer) WriteConfig() (err error) {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
@@ -210,7 +210,7 @@ func (sl *Indexer) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.IndexerConfig); err != nil {
diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 32629f0..3ba79c2 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -151,7 +151,7 @@ func (sl *MetaFile) SetFS(fsys fs.FS, create bool) {
 
 func (sl *MetaFile) GetName() string { return MetaFileName }
 
-func (sl *MetaFile) WriteConfig() error {
+func (sl *MetaFile) WriteConfig() (err error) {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
@@ -162,7 +162,7 @@ func (sl *MetaFile) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.MetaFileConfig); err != nil {
diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index a98494b..cb67465 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -151,7 +151,7 @@ func (me *Mets) SetFS(fsys fs.FS, create bool) {
 
 func (me *Mets) GetName() string { return METSName }
 
-func (me *Mets) WriteConfig() error {
+func (me *Mets) WriteConfig() (err error) {
 	if me.fsys == nil {
 		return errors.New("no filesystem set")
 	}
@@ -159,7 +159,7 @@ func (me *Mets) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot create config.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(me.MetsConfig); err != nil {
diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index 611db44..a070f43 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -50,12 +50,12 @@ func (sl *StorageLayoutPairTree) IsRegistered() bool {
 	return false
 }
 
-func (sl *StorageLayoutPairTree) WriteLayout(fsys fs.FS) error {
+func (sl *StorageLayoutPairTree) WriteLayout(fsys fs.FS) (err error) {
 	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -120,7 +120,7 @@ func (sl *StorageLayoutPairTree) SetParams(params map[string]string) error {
 	return nil
 }
 
-func (sl *StorageLayoutPairTree) WriteConfig() error {
+func (sl *StorageLayoutPairTree) WriteConfig() (err error) {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
@@ -128,7 +128,7 @@ func (sl *StorageLayoutPairTree) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index b86a0c0..cd677cc 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -160,7 +160,7 @@ func (thumb *Thumbnail) SetParams(map[string]string) error {
 	return nil
 }
 
-func (thumb *Thumbnail) WriteConfig() error {
+func (thumb *Thumbnail) WriteConfig() (err error) {
 	if thumb.fsys == nil {
 		return errors.New("no filesystem set")
 	}
@@ -168,7 +168,7 @@ func (thumb *Thumbnail) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(thumb.ThumbnailConfig); err != nil {
diff --git a/pkg/extension/config.go b/pkg/extension/config.go
index 27f4f92..ce63ad3 100644
--- a/pkg/extension/config.go
+++ b/pkg/extension/config.go
@@ -1,9 +1,19 @@
 package extension
 
-import "emperror.dev/errors"
+import (
+	"emperror.dev/errors"
+	"io"
+)
 
 var ErrNotSupported = errors.New("extension not supported")
 
 type Config struct {
 	ExtensionName string `json:"extensionName"`
 }
+
+// closeConfig closes a written file. If nothing else failed, the error is reported
+func closeConfig(w io.Closer, err *error) {
+	if cerr := w.Close(); cerr != nil && *err == nil {
+		*err = errors.Wrap(cerr, "cannot close config file")
+	}
+}
diff --git a/pkg/extension/initial.go b/pkg/extension/initial.go
index 4bd7c64..93e6ab8 100644
--- a/pkg/extension/initial.go
+++ b/pkg/extension/initial.go
@@ -110,7 +110,7 @@ func (sl *Initial) SetParams(params map[string]string) error {
 
 func (sl *Initial) GetName() string { return InitialName }
 
-func (sl *Initial) WriteConfig() error {
+func (sl *Initial) WriteConfig() (err error) {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
@@ -118,7 +118,7 @@ func (sl *Initial) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.InitialConfig); err != nil {
diff --git a/pkg/extension/pathdirect.go b/pkg/extension/pathdirect.go
index 4e245c5..9f30b68 100644
--- a/pkg/extension/pathdirect.go
+++ b/pkg/extension/pathdirect.go
@@ -72,12 +72,12 @@ func (sl *PathDirect) SetParams(params map[string]string) error {
 
 func (sl *PathDirect) GetName() string { return PathDirectName }
 
-func (sl *PathDirect) WriteLayout(fsys fs.FS) error {
+func (sl *PathDirect) WriteLayout(fsys fs.FS) (err error) {
 	configWriter, err := writefs.Create(fsys, "ocfl_layout.json")
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -92,7 +92,7 @@ func (sl *PathDirect) WriteLayout(fsys fs.FS) error {
 	return nil
 }
 
-func (sl *PathDirect) WriteConfig() error {
+func (sl *PathDirect) WriteConfig() (err error) {
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
@@ -100,7 +100,7 @@ func (sl *PathDirect) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
+	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.PathDirectConfig); err != nil {
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 2b91fde..c733148 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -365,10 +365,10 @@ func (object *ObjectBase) StoreInventory(version bool, objectRoot bool) error {
 	if objectRoot {
 		iWriter, err := writefs.Create(object.fsys, iFileName)
 		if err != nil {
-			iWriter.Close()
 			return errors.Wrap(err, "cannot create inventory.json")
 		}
 		if _, err := iWriter.Write(jsonBytes); err != nil {
+			iWriter.Close()
 			return errors.Wrap(err, "cannot write to inventory.json")
 		}
 		if err := iWriter.Close(); err != nil {
@@ -479,7 +479,9 @@ func (object *ObjectBase) Init(id string, digest checksum.DigestAlgorithm, fixit
 		return errors.Errorf("forbidden digest algorithm for fixity %v. Supported algorithms are %v. (to fix try to use extension 0001-digest-algorithms)", fixity, algs)
 	}
 
-	object.i, err = object.CreateInventory(id, digest, fixity)
+	if object.i, err = object.CreateInventory(id, digest, fixity); err != nil {
+		return errors.Wrapf(err, "cannot create inventory of '%s'", id)
+	}
 	return nil
 }
 
@@ -659,6 +661,9 @@ func (object *ObjectBase) AddFolder(fsys fs.FS, versionFS fs.FS, checkDuplicate
 	object.setUpdateArea(area)
 	if err := fs.WalkDir(fsys, ".", func(path string, info fs.DirEntry, err error) error {
 		path = filepath.ToSlash(path)
+		if err != nil {
+			return errors.Wrapf(err, "cannot walk '%v/%s'", fsys, path)
+		}
 		if err := object.AddFile(fsys, versionFS, path, checkDuplicate, area, false, info.IsDir()); err != nil {
 			return errors.Wrapf(err, "cannot add file '%s'", path)
 		}
@@ -686,7 +691,12 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 	if err != nil {
 		return "", errors.Wrapf(err, "cannot create '%s'", names.ManifestPath)
 	}
-	defer writer.Close()
+	closed := false
+	defer func() {
+		if !closed {
+			writer.Close()
+		}
+	}()
 
 	var checksums map[checksum.DigestAlgorithm]string
 	if noExtensionHook {
@@ -721,6 +731,11 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 		}
 	}
 
+	closed = true
+	if err := writer.Close(); err != nil {
+		return "", errors.Wrapf(err, "cannot close '%s'", names.ManifestPath)
+	}
+
 	if digest == "" {
 		var ok bool
 		digest, ok = checksums[object.i.GetDigestAlgorithm()]
@@ -772,6 +787,9 @@ func (object *ObjectBase) AddReader(r io.ReadCloser, files []string, area string
 	}
 	path := files[0]
 	names, err := object.BuildNames(files, area)
+	if err != nil {
+		return "", errors.Wrapf(err, "cannot build names for %v", files)
+	}
 
 	object.logger.Info().Msgf("adding file %s:%v", area, files)
 
diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 0923346..5178917 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -130,11 +130,12 @@ func (osr *StorageRootBase) Init(version OCFLVersion, digest checksum.DigestAlgo
 	}
 
 	subfs, err := writefs.SubFSCreate(osr.fsys, "extensions")
-	if err == nil {
-		osr.extensionManager.SetFS(subfs, true)
-		if err := osr.extensionManager.WriteConfig(); err != nil {
-			return errors.Wrap(err, "cannot store extension configs")
-		}
+	if err != nil {
+		return errors.Wrapf(err, "cannot create subfs of '%v' for '%s'", osr.fsys, "extensions")
+	}
+	osr.extensionManager.SetFS(subfs, true)
+	if err := osr.extensionManager.WriteConfig(); err != nil {
+		return errors.Wrap(err, "cannot store extension configs")
 	}
 	if err := osr.extensionManager.StoreRootLayout(osr.fsys); err != nil {
 		return errors.Wrap(err, "cannot store ocfl layout")
@@ -218,8 +219,12 @@ func (osr *StorageRootBase) StoreExtensionConfig(name string, config any) error
 		return errors.Wrapf(err, "cannot create file %s", extConfig)
 	}
 	if _, err := w.Write(cfgJson); err != nil {
+		w.Close()
 		return errors.Wrapf(err, "cannot write file %s - %s", extConfig, string(cfgJson))
 	}
+	if err := w.Close(); err != nil {
+		return errors.Wrapf(err, "cannot close file %s", extConfig)
+	}
 	return nil
 }
 
-- 
2.43.0


From 3462e3af9a3705e2e884d4d1b482e91eb10f20cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 014/110] fix: failing writes or stream extensions must not
 block an ingest

---
 pkg/extension/NNNN-gocfl-extension-manager.go | 18 +++++-----
 pkg/ocfl/objectbase.go                        | 35 ++++++++++++++++---
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index be4524c..3ae0aad 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -8,7 +8,6 @@ import (
 	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/utils/v2/pkg/checksum"
-	iou "github.com/je4/utils/v2/pkg/io"
 	"golang.org/x/exp/slices"
 	"io"
 	"io/fs"
@@ -580,12 +579,12 @@ func (manager *GOCFLExtensionManager) StreamObject(object ocfl.Object, reader io
 		return nil
 	}
 	var wg = sync.WaitGroup{}
-	writer := []*iou.WriteIgnoreCloser{}
+	writer := []*io.PipeWriter{}
 	extErrors := make(chan error, len(manager.stream))
 	for _, ext := range manager.stream {
 		wg.Add(1)
 		pr, pw := io.Pipe()
-		writer = append(writer, iou.NewWriteIgnoreCloser(pw))
+		writer = append(writer, pw)
 		go func(r io.Reader, extension ocfl.ExtensionStream) {
 			defer wg.Done()
 			if err := extension.StreamObject(object, r, stateFiles, dest); err != nil {
@@ -603,19 +602,20 @@ func (manager *GOCFLExtensionManager) StreamObject(object ocfl.Object, reader io
 	_, err := io.Copy(multiWriter, reader)
 	for _, w := range ws {
 		// it's sure that w is a bufio.Writer
-		if err := w.(*bufio.Writer).Flush(); err != nil {
-			return errors.Wrap(err, "cannot flush buffer")
+		if ferr := w.(*bufio.Writer).Flush(); ferr != nil && err == nil {
+			err = errors.Wrap(ferr, "cannot flush buffer")
 		}
 	}
+	// an incomplete stream must not look like a complete one
 	for _, w := range writer {
-		w.ForceClose()
-	}
-	if err != nil {
-		return errors.Wrap(err, "cannot copy stream to actions")
+		_ = w.CloseWithError(err)
 	}
 	// wait for all actions to finish
 	wg.Wait()
 	close(extErrors)
+	if err != nil {
+		return errors.Wrap(err, "cannot copy stream to actions")
+	}
 	var errs = []error{}
 	for err := range extErrors {
 		errs = append(errs, err)
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index c733148..d9d14f5 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -675,6 +675,23 @@ func (object *ObjectBase) AddFolder(fsys fs.FS, versionFS fs.FS, checkDuplicate
 	return nil
 }
 
+// errorWriter remembers the first error and discards everything after it
+type errorWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (ew *errorWriter) Write(p []byte) (int, error) {
+	if ew.err == nil {
+		var n int
+		n, ew.err = ew.w.Write(p)
+		if ew.err == nil && n < len(p) {
+			ew.err = io.ErrShortWrite
+		}
+	}
+	return len(p), nil
+}
+
 func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *NamesStruct, noExtensionHook bool) (string, error) {
 
 	digestAlgorithms := object.i.GetFixityDigestAlgorithm()
@@ -699,8 +716,13 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 	}()
 
 	var checksums map[checksum.DigestAlgorithm]string
+	// the copy must not stop reading if the target cannot be written
+	target := &errorWriter{w: writer}
 	if noExtensionHook {
-		checksums, err = checksum.Copy(digestAlgorithms, r, writer)
+		checksums, err = checksum.Copy(digestAlgorithms, r, target)
+		if err == nil {
+			err = target.err
+		}
 		if err != nil {
 			return "", errors.Wrapf(err, "cannot copy '%v' -> '%s'", names.ExternalPaths, names.ManifestPath)
 		}
@@ -714,13 +736,18 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 			if err := object.extensionManager.StreamObject(object, pr, names.ExternalPaths, names.InternalPath); err != nil {
 				extErrors <- err
 			}
+			// discard remaining data
+			_, _ = io.Copy(io.Discard, pr)
 		}()
-		checksums, err = checksum.Copy(digestAlgorithms, r, writer, pw)
-		_ = pw.Close()
+		checksums, err = checksum.Copy(digestAlgorithms, r, target, pw)
+		if err == nil {
+			err = target.err
+		}
+		_ = pw.CloseWithError(err)
+		wg.Wait()
 		if err != nil {
 			return "", errors.Wrapf(err, "cannot copy '%s' -> '%s'", names.ExternalPaths, names.ManifestPath)
 		}
-		wg.Wait()
 		close(extErrors)
 		select {
 		case err, ok := <-extErrors:
-- 
2.43.0


From c89eb0c3d6ef7e6e298b5ca37c5e15814a21ed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 015/110] fix: an unreadable inventory is not an empty
 inventory

---
 pkg/ocfl/objectbase.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index d9d14f5..8633dc7 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -289,10 +289,7 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 	filename := filepath.ToSlash(filepath.Join(folder, "inventory.json"))
 	inventoryBytes, err := fs.ReadFile(object.fsys, filename)
 	if err != nil {
-		if errors.Cause(err) == fs.ErrNotExist {
-			return nil, err
-		}
-		return newInventory(object.ctx, object, folder, object.version, object.logger)
+		return nil, errors.Wrapf(err, "cannot read '%v/%s'", object.fsys, filename)
 	}
 	inventory, err := object.loadInventory(inventoryBytes, folder)
 	if err != nil {
@@ -501,6 +498,10 @@ func (object *ObjectBase) Load() (err error) {
 
 	// load the inventory
 	if object.i, err = object.LoadInventory("."); err != nil {
+		object.i = nil
+		if errors.Is(err, fs.ErrNotExist) {
+			object.addValidationError(E063, "no inventory.json in object root")
+		}
 		return errors.Wrap(err, "cannot load inventory.json of root")
 	}
 	return nil
@@ -1477,7 +1478,7 @@ func (object *ObjectBase) getVersionInventories() (map[string]Inventory, error)
 	for _, ver := range versionStrings {
 		vi, err := object.LoadInventory(ver)
 		if err != nil {
-			if errors.Cause(err) == fs.ErrNotExist {
+			if errors.Is(err, fs.ErrNotExist) {
 				object.addValidationWarning(W010, "no inventory for version '%s'", ver)
 				continue
 			}
-- 
2.43.0


From dbf4bb707827c6381a0a7870612d0d327dc0e7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 016/110] fix: an inaccessible extension folder must not panic

---
 pkg/extension/NNNN-gocfl-extension-manager.go | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index 3ae0aad..99a3991 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -73,6 +73,7 @@ type GOCFLExtensionManager struct {
 	stream             []ocfl.ExtensionStream
 	newVersion         []ocfl.ExtensionNewVersion
 	fsys               fs.FS
+	fsErr              error // folder of an extension is not accessible
 	initial            ocfl.ExtensionInitial
 }
 
@@ -158,6 +159,7 @@ func (manager *GOCFLExtensionManager) SetFS(fsys fs.FS, create bool) {
 	if fsys == nil {
 		return
 	}
+	manager.fsErr = nil
 	for _, ext := range append(manager.extensions, manager.initial) {
 		if ext == nil {
 			continue
@@ -168,7 +170,10 @@ func (manager *GOCFLExtensionManager) SetFS(fsys fs.FS, create bool) {
 				extFS, err = writefs.SubFSCreate(fsys, ext.GetName())
 			}
 			if err != nil {
-				panic(err)
+				if create || !errors.Is(err, fs.ErrNotExist) {
+					manager.fsErr = errors.Wrapf(err, "cannot access folder of extension '%s' in '%v'", ext.GetName(), fsys)
+				}
+				continue
 			}
 		}
 		ext.SetFS(extFS, create)
@@ -180,7 +185,10 @@ func (manager *GOCFLExtensionManager) SetFS(fsys fs.FS, create bool) {
 			manager.fsys, err = writefs.SubFSCreate(fsys, manager.GetName())
 		}
 		if err != nil {
-			panic(err)
+			manager.fsys = nil
+			if create || !errors.Is(err, fs.ErrNotExist) {
+				manager.fsErr = errors.Wrapf(err, "cannot access folder of extension '%s' in '%v'", manager.GetName(), fsys)
+			}
 		}
 	}
 }
@@ -288,6 +296,9 @@ func (manager *GOCFLExtensionManager) GetName() string {
 	return GOCFLExtensionManagerName
 }
 func (manager *GOCFLExtensionManager) WriteConfig() (err error) {
+	if manager.fsErr != nil {
+		return manager.fsErr
+	}
 	for _, ext := range append(manager.extensions, manager.initial) {
 		if err := ext.WriteConfig(); err != nil {
 			return errors.Wrapf(err, "cannot store '%s'", ext.GetName())
@@ -470,6 +481,9 @@ func (manager *GOCFLExtensionManager) DeleteFileAfter(object ocfl.Object, dest s
 
 // ObjectChange
 func (manager *GOCFLExtensionManager) UpdateObjectBefore(object ocfl.Object) error {
+	if manager.fsErr != nil {
+		return manager.fsErr
+	}
 	var errs = []error{}
 	for _, ocp := range manager.objectChange {
 		if err := ocp.UpdateObjectBefore(object); err != nil {
@@ -513,6 +527,9 @@ func (manager *GOCFLExtensionManager) BuildObjectExtractPath(object ocfl.Object,
 }
 
 func (manager *GOCFLExtensionManager) GetMetadata(object ocfl.Object) (map[string]any, error) {
+	if manager.fsErr != nil {
+		return nil, manager.fsErr
+	}
 	var metaResult = map[string]map[string]any{}
 	for _, ext := range manager.metadata {
 		meta, err := ext.GetMetadata(object)
-- 
2.43.0


From 7c40e9fc300bacb8f45a0bad10f38c91019dbae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 017/110] fix: an extension which cannot be read must not be
 ignored

---
 pkg/ocfl/extensionFactory.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/ocfl/extensionFactory.go b/pkg/ocfl/extensionFactory.go
index a0243f7..2fb2036 100644
--- a/pkg/ocfl/extensionFactory.go
+++ b/pkg/ocfl/extensionFactory.go
@@ -93,6 +93,11 @@ func (f *ExtensionFactory) CreateExtensions(fsys fs.FS, validation Validation) (
 
 		ext, err := f.Create(sub)
 		if err != nil {
+			// an extension which cannot be read must not be ignored
+			var pathErr *fs.PathError
+			if errors.As(err, &pathErr) && !errors.Is(err, fs.ErrNotExist) {
+				return nil, errors.Wrapf(err, "cannot load extension %s", fName)
+			}
 			//errs = append(errs, errors.Wrapf(err, "cannot create extension %s", file.Name()))
 			if validation != nil {
 				validation.addValidationWarning(W000, "extension %s not supported by gocfl %s", file.Name(), version.VERSION)
-- 
2.43.0


From 5564d1692ea04a591dd5dd169c28e3ca28f002ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 018/110] fix: a damaged configuration of a known extension
 must not be ignored

---
 pkg/ocfl/extensionFactory.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/extensionFactory.go b/pkg/ocfl/extensionFactory.go
index 2fb2036..00d9e9c 100644
--- a/pkg/ocfl/extensionFactory.go
+++ b/pkg/ocfl/extensionFactory.go
@@ -95,7 +95,9 @@ func (f *ExtensionFactory) CreateExtensions(fsys fs.FS, validation Validation) (
 		if err != nil {
 			// an extension which cannot be read must not be ignored
 			var pathErr *fs.PathError
-			if errors.As(err, &pathErr) && !errors.Is(err, fs.ErrNotExist) {
+			var syntaxErr *json.SyntaxError
+			_, known := f.creators[fName]
+			if (errors.As(err, &pathErr) && !errors.Is(err, fs.ErrNotExist)) || (known && errors.As(err, &syntaxErr)) {
 				return nil, errors.Wrapf(err, "cannot load extension %s", fName)
 			}
 			//errs = append(errs, errors.Wrapf(err, "cannot create extension %s", file.Name()))
-- 
2.43.0


From 5543630b595a5da0d7c6285532d40ac9975230c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 019/110] fix: store the extensions of an object before its
 inventory

---
 pkg/ocfl/objectbase.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 8633dc7..bd65459 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -548,12 +548,13 @@ func (object *ObjectBase) Close() error {
 	if err := object.i.Clean(); err != nil {
 		return errors.Wrap(err, "cannot clean inventory")
 	}
-	if err := object.StoreInventory(false, true); err != nil {
-		return errors.Wrap(err, "cannot store inventory")
-	}
+	// the object is complete as soon as its inventory is stored
 	if err := object.StoreExtensions(); err != nil {
 		return errors.Wrap(err, "cannot store extensions")
 	}
+	if err := object.StoreInventory(false, true); err != nil {
+		return errors.Wrap(err, "cannot store inventory")
+	}
 	return nil
 }
 
-- 
2.43.0


From 22d3b50b209fc76739844e88a6b14b429a9374e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 020/110] fix: report empty directories in the storage
 hierarchy

---
 pkg/ocfl/storagerootbase.go | 44 +++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 5178917..298b2b3 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -443,6 +443,9 @@ func (osr *StorageRootBase) Check() error {
 	} else {
 		osr.logger.Info().Msgf("StorageRoot with version '%s' found", osr.version)
 	}
+	if err := osr.CheckEmptyFolders(); err != nil {
+		return errors.WithStack(err)
+	}
 	if err := osr.CheckObjects(); err != nil {
 		return errors.WithStack(err)
 	}
@@ -450,6 +453,47 @@ func (osr *StorageRootBase) Check() error {
 	return nil
 }
 
+// CheckEmptyFolders checks for empty directories in the hierarchy above the objects
+func (osr *StorageRootBase) CheckEmptyFolders() error {
+	var recurse func(base string) error
+	recurse = func(base string) error {
+		des, err := fs.ReadDir(osr.fsys, base)
+		if err != nil {
+			return errors.Wrapf(err, "cannot read content of %s", base)
+		}
+		if len(des) == 0 {
+			if err := osr.addValidationError(E073, "empty directory '%s'", base); err != nil {
+				return errors.Wrapf(err, "cannot add validation error %s", E073)
+			}
+		}
+		// directories containing a file are objects
+		for _, de := range des {
+			if !de.IsDir() {
+				return nil
+			}
+		}
+		for _, de := range des {
+			if err := recurse(filepath.ToSlash(filepath.Join(base, de.Name()))); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
+	folders, err := osr.GetFolders()
+	if err != nil {
+		return errors.WithStack(err)
+	}
+	for _, folder := range folders {
+		if folder == "extensions" {
+			continue
+		}
+		if err := recurse(folder); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (osr *StorageRootBase) CheckDirectory() (err error) {
 	// An OCFL Storage Root must contain a Root Conformance Declaration identifying it as such.
 	files, err := fs.ReadDir(osr.fsys, ".")
-- 
2.43.0


From 02a2616976dfc3ffeb2867b896b05803169b251c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 021/110] fix: store the complete configuration of the storage
 layouts

---
 pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go | 2 +-
 pkg/extension/0004-hashed-n-tuple-storage-layout.go      | 2 +-
 pkg/extension/0006-flat-omit-prefix-storage-layout.go    | 2 +-
 pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go | 2 +-
 pkg/extension/NNNN-pairtree-storage-layout.go            | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index 75adb6f..0f721cd 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -108,7 +108,7 @@ func (sl *StorageLayoutHashAndIdNTuple) WriteConfig() (err error) {
 	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+	if err := jenc.Encode(sl.StorageLayoutHashAndIdNTupleConfig); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
diff --git a/pkg/extension/0004-hashed-n-tuple-storage-layout.go b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
index 9bf1732..e759426 100644
--- a/pkg/extension/0004-hashed-n-tuple-storage-layout.go
+++ b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
@@ -107,7 +107,7 @@ func (sl *StorageLayoutHashedNTuple) WriteConfig() (err error) {
 	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+	if err := jenc.Encode(sl.StorageLayoutHashedNTupleConfig); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
diff --git a/pkg/extension/0006-flat-omit-prefix-storage-layout.go b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
index d0362d1..6a133e9 100644
--- a/pkg/extension/0006-flat-omit-prefix-storage-layout.go
+++ b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
@@ -88,7 +88,7 @@ func (sl *FlatOmitPrefixStorageLayout) WriteConfig() (err error) {
 	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+	if err := jenc.Encode(sl.FlatOmitPrefixStorageLayoutConfig); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index 6ac0d87..a3f7786 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -108,7 +108,7 @@ func (sl *NTupleOmitPrefixStorageLayout) WriteConfig() (err error) {
 	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+	if err := jenc.Encode(sl.NTupleOmitPrefixStorageLayoutConfig); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index a070f43..d65df06 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -131,7 +131,7 @@ func (sl *StorageLayoutPairTree) WriteConfig() (err error) {
 	defer closeConfig(configWriter, &err)
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+	if err := jenc.Encode(sl.StorageLayoutPairTreeConfig); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
-- 
2.43.0


From 25586e01225a55b7600163bb3aef4227952c87fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 022/110] fix: percent encoding needs two hex digits

---
 pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index 0f721cd..408734b 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -130,7 +130,7 @@ func escape(str string) string {
 			continue
 		}
 		result = append(result, '%')
-		result = append(result, fmt.Sprintf("%x", c)...)
+		result = append(result, fmt.Sprintf("%02x", c)...)
 	}
 	return string(result)
 }
-- 
2.43.0


From 5052aae05b821fe4e78a3824dc21b7852c8ec1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 023/110] fix: default values for the configuration of the
 storage layouts

---
 pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go | 7 ++++++-
 pkg/extension/0004-hashed-n-tuple-storage-layout.go      | 7 ++++++-
 pkg/extension/0006-flat-omit-prefix-storage-layout.go    | 5 ++++-
 pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go | 8 +++++++-
 4 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index 408734b..6cd28b4 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -26,7 +26,12 @@ func NewStorageLayoutHashAndIdNTupleFS(fsys fs.FS) (*StorageLayoutHashAndIdNTupl
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot read config.json")
 	}
-	var config = &StorageLayoutHashAndIdNTupleConfig{}
+	// defaults of the specification
+	var config = &StorageLayoutHashAndIdNTupleConfig{
+		DigestAlgorithm: string(checksum.DigestSHA256),
+		TupleSize:       3,
+		NumberOfTuples:  3,
+	}
 	if err := json.Unmarshal(data, config); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
diff --git a/pkg/extension/0004-hashed-n-tuple-storage-layout.go b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
index e759426..d497b9e 100644
--- a/pkg/extension/0004-hashed-n-tuple-storage-layout.go
+++ b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
@@ -26,7 +26,12 @@ func NewStorageLayoutHashedNTupleFS(fsys fs.FS) (*StorageLayoutHashedNTuple, err
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot read config.json")
 	}
-	var config = &StorageLayoutHashedNTupleConfig{}
+	// defaults of the specification
+	var config = &StorageLayoutHashedNTupleConfig{
+		DigestAlgorithm: string(checksum.DigestSHA256),
+		TupleSize:       3,
+		NumberOfTuples:  3,
+	}
 	if err := json.Unmarshal(data, config); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
diff --git a/pkg/extension/0006-flat-omit-prefix-storage-layout.go b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
index 6a133e9..d663b9d 100644
--- a/pkg/extension/0006-flat-omit-prefix-storage-layout.go
+++ b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
@@ -25,7 +25,10 @@ func NewFlatOmitPrefixStorageLayoutFS(fsys fs.FS) (*FlatOmitPrefixStorageLayout,
 		return nil, errors.Wrap(err, "cannot read config.json")
 	}
 
-	var config = &FlatOmitPrefixStorageLayoutConfig{}
+	// defaults of the specification
+	var config = &FlatOmitPrefixStorageLayoutConfig{
+		Delimiter: ":",
+	}
 	if err := json.Unmarshal(data, config); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index a3f7786..14cb7dd 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -40,7 +40,13 @@ func NewNTupleOmitPrefixStorageLayoutFS(fsys fs.FS) (*NTupleOmitPrefixStorageLay
 		return nil, errors.Wrap(err, "cannot read config.json")
 	}
 
-	var config = &NTupleOmitPrefixStorageLayoutConfig{}
+	// defaults of the specification
+	var config = &NTupleOmitPrefixStorageLayoutConfig{
+		Delimiter:      ":",
+		TupleSize:      3,
+		NumberOfTuples: 3,
+		ZeroPadding:    "left",
+	}
 	if err := json.Unmarshal(data, config); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
-- 
2.43.0


From b0f15b619f2ad5e5cc5e3489981ad47f11810966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 024/110] fix: refuse invalid configurations of n-tuple layouts

---
 pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go | 3 +++
 pkg/extension/0004-hashed-n-tuple-storage-layout.go      | 6 ++++++
 pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go | 6 ++++++
 3 files changed, 15 insertions(+)

diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index 6cd28b4..2057a85 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -46,6 +46,9 @@ func NewStorageLayoutHashAndIdNTuple(config *StorageLayoutHashAndIdNTupleConfig)
 	if config.TupleSize > 32 {
 		config.TupleSize = 32
 	}
+	if config.TupleSize < 0 || config.NumberOfTuples < 0 {
+		return nil, errors.Errorf("invalid tuples - %d tuples of size %d", config.NumberOfTuples, config.TupleSize)
+	}
 	if config.TupleSize == 0 || config.NumberOfTuples == 0 {
 		config.NumberOfTuples = 0
 		config.TupleSize = 0
diff --git a/pkg/extension/0004-hashed-n-tuple-storage-layout.go b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
index d497b9e..78f3ab7 100644
--- a/pkg/extension/0004-hashed-n-tuple-storage-layout.go
+++ b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
@@ -46,6 +46,9 @@ func NewStorageLayoutHashedNTuple(config *StorageLayoutHashedNTupleConfig) (*Sto
 	if config.TupleSize > 32 {
 		config.TupleSize = 32
 	}
+	if config.TupleSize < 0 || config.NumberOfTuples < 0 {
+		return nil, errors.Errorf("invalid tuples - %d tuples of size %d", config.NumberOfTuples, config.TupleSize)
+	}
 	if config.TupleSize == 0 || config.NumberOfTuples == 0 {
 		config.NumberOfTuples = 0
 		config.TupleSize = 0
@@ -133,6 +136,9 @@ func (sl *StorageLayoutHashedNTuple) BuildStorageRootPath(storageRoot ocfl.Stora
 		dirparts = append(dirparts, digest[i*sl.TupleSize:(i+1)*sl.TupleSize])
 	}
 	if sl.ShortObjectRoot {
+		if len(digest) == sl.TupleSize*sl.NumberOfTuples {
+			return "", errors.Errorf("nothing left of digest %s for a short object root", sl.DigestAlgorithm)
+		}
 		dirparts = append(dirparts, digest[sl.NumberOfTuples*sl.TupleSize:])
 	} else {
 		dirparts = append(dirparts, digest)
diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index 14cb7dd..6e3b56e 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -57,6 +57,12 @@ func NewNTupleOmitPrefixStorageLayout(config *NTupleOmitPrefixStorageLayoutConfi
 	if config.ExtensionName != sl.GetName() {
 		return nil, errors.New(fmt.Sprintf("invalid extension name'%s'for extension %s", config.ExtensionName, sl.GetName()))
 	}
+	if config.TupleSize < 1 || config.NumberOfTuples < 1 {
+		return nil, errors.Errorf("invalid tuples - %d tuples of size %d", config.NumberOfTuples, config.TupleSize)
+	}
+	if config.ZeroPadding != "left" && config.ZeroPadding != "right" {
+		return nil, errors.Errorf("invalid zero padding '%s'", config.ZeroPadding)
+	}
 	return sl, nil
 }
 
-- 
2.43.0


From b6a01409bd299e214e22e1492369e8682d2f1fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 025/110] fix: an id without anything after the prefix is an
 error

---
 pkg/extension/0006-flat-omit-prefix-storage-layout.go    | 6 ++++++
 pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/pkg/extension/0006-flat-omit-prefix-storage-layout.go b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
index d663b9d..593ef39 100644
--- a/pkg/extension/0006-flat-omit-prefix-storage-layout.go
+++ b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
@@ -118,10 +118,16 @@ func (sl *FlatOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) (err error) {
 }
 
 func (sl *FlatOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
+	if sl.Delimiter == "" {
+		return id, nil
+	}
 	last := strings.LastIndex(id, sl.Delimiter)
 	if last < 0 {
 		return id, nil
 	}
+	if last+len(sl.Delimiter) == len(id) {
+		return "", errors.Errorf("delimiter '%s' at the end of id '%s'", sl.Delimiter, id)
+	}
 	return id[last+len(sl.Delimiter):], nil
 }
 
diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index 6e3b56e..3d45929 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -153,6 +153,9 @@ func (sl *NTupleOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.S
 	if sl.Delimiter != "" {
 		last := strings.LastIndex(id, sl.Delimiter)
 		if last >= 0 {
+			if last+len(sl.Delimiter) == len(id) {
+				return "", errors.Errorf("delimiter '%s' at the end of id '%s'", sl.Delimiter, id)
+			}
 			id = id[last+len(sl.Delimiter):]
 		}
 	}
-- 
2.43.0


From cbab85370a627f7f8ee10617de77f30b3e12339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 026/110] fix: tuples consist of characters not bytes

---
 pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index 3d45929..0e47ade 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"io/fs"
 	"strings"
+	"unicode/utf8"
 )
 
 const NTupleOmitPrefixStorageLayoutName = "0007-n-tuple-omit-prefix-storage-layout"
@@ -170,7 +171,7 @@ func (sl *NTupleOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.S
 	*/
 	var str = strings.Builder{}
 	str.Grow(max(targetLength, len(id)))
-	l := len(id)
+	l := utf8.RuneCountInString(id)
 	if sl.ZeroPadding == "right" {
 		str.WriteString(id)
 	}
@@ -192,8 +193,9 @@ func (sl *NTupleOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.S
 		4) Starting at the leftmost character of the resulting id and working right, divide the id into numberOfTuples each containing tupleSize characters.
 	*/
 	var pathComponents = []string{}
+	var characters = []rune(base)
 	for i := 0; i < targetLength/sl.TupleSize; i++ {
-		pathComponents = append(pathComponents, base[i*sl.TupleSize:(i+1)*sl.TupleSize])
+		pathComponents = append(pathComponents, string(characters[i*sl.TupleSize:(i+1)*sl.TupleSize]))
 	}
 	/*
 		5) Create the start of the object root path by joining the tuples, in order, using the filesystem path separator.
-- 
2.43.0


From a80cbadb20acb1faddb800fb9622d9dbe7f4cdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 027/110] fix: concurrent path building must not share the
 state of a hash

---
 pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go | 8 ++++++--
 pkg/extension/0004-hashed-n-tuple-storage-layout.go      | 8 ++++++--
 pkg/extension/NNNN-direct-clean-path-layout.go           | 2 +-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index 2057a85..6bcb8f3 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"io/fs"
 	"strings"
+	"sync"
 )
 
 const StorageLayoutHashAndIdNTupleName = "0003-hash-and-id-n-tuple-storage-layout"
@@ -73,8 +74,9 @@ type StorageLayoutHashAndIdNTupleConfig struct {
 
 type StorageLayoutHashAndIdNTuple struct {
 	*StorageLayoutHashAndIdNTupleConfig
-	hash hash.Hash
-	fsys fs.FS
+	hash      hash.Hash
+	hashMutex sync.Mutex // hash is used by concurrent calls
+	fsys      fs.FS
 }
 
 func (sl *StorageLayoutHashAndIdNTuple) Terminate() error {
@@ -145,6 +147,8 @@ func escape(str string) string {
 
 func (sl *StorageLayoutHashAndIdNTuple) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
 	path := escape(id)
+	sl.hashMutex.Lock()
+	defer sl.hashMutex.Unlock()
 	sl.hash.Reset()
 	if _, err := sl.hash.Write([]byte(id)); err != nil {
 		return "", errors.Wrapf(err, "cannot hash %s", id)
diff --git a/pkg/extension/0004-hashed-n-tuple-storage-layout.go b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
index 78f3ab7..8788a6a 100644
--- a/pkg/extension/0004-hashed-n-tuple-storage-layout.go
+++ b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"io/fs"
 	"strings"
+	"sync"
 )
 
 const StorageLayoutHashedNTupleName = "0004-hashed-n-tuple-storage-layout"
@@ -74,8 +75,9 @@ type StorageLayoutHashedNTupleConfig struct {
 
 type StorageLayoutHashedNTuple struct {
 	*StorageLayoutHashedNTupleConfig
-	hash hash.Hash
-	fsys fs.FS
+	hash      hash.Hash
+	hashMutex sync.Mutex // hash is used by concurrent calls
+	fsys      fs.FS
 }
 
 func (sl *StorageLayoutHashedNTuple) Terminate() error {
@@ -122,6 +124,8 @@ func (sl *StorageLayoutHashedNTuple) WriteConfig() (err error) {
 }
 
 func (sl *StorageLayoutHashedNTuple) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
+	sl.hashMutex.Lock()
+	defer sl.hashMutex.Unlock()
 	sl.hash.Reset()
 	if _, err := sl.hash.Write([]byte(id)); err != nil {
 		return "", errors.Wrapf(err, "cannot hash %s", id)
diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index 8f97f87..f7a09ab 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -211,10 +211,10 @@ func (sl *DirectClean) fallback(fname string) (string, error) {
 		sl.hashMutex.Unlock()
 		return "", errors.Wrapf(err, "cannot hash path '%s'", fname)
 	}
-	sl.hashMutex.Unlock()
 
 	// get digest and encode it
 	digestString := hex.EncodeToString(sl.hash.Sum(nil))
+	sl.hashMutex.Unlock()
 
 	// check whether digest fits in filename length
 	parts := len(digestString) / sl.MaxPathSegmentLen
-- 
2.43.0


From fb18eb78e0333d0be81ba93ff20a7b2771e1949c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 028/110] fix: character encoding of the pairtree layout

---
 pkg/extension/NNNN-pairtree-storage-layout.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index d65df06..cd0e98f 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -20,7 +20,7 @@ const StorageLayoutPairTreeName = "NNNN-pairtree-storage-layout"
 	https://pythonhosted.org/Pairtree/pairtree.pairtree_client.PairtreeStorageClient-class.html
 */
 
-var rareChars = []rune{'"', '*', '+', 'c', '<', '=', '>', '?', '^', '|'}
+var rareChars = []rune{'"', '*', '+', ',', '<', '=', '>', '?', '\\', '^', '|'}
 
 var convert = map[rune]rune{
 	'/': '=',
@@ -167,8 +167,9 @@ func (sl *StorageLayoutPairTree) idEncode(str string) string {
 		if isVisible {
 			result = append(result, c)
 		} else {
-			result = append(result, '^')
-			result = append(result, []rune(fmt.Sprintf("%x", c))...)
+			for _, b := range []byte(string(c)) {
+				result = append(result, []rune(fmt.Sprintf("^%02x", b))...)
+			}
 		}
 	}
 	str = string(result)
-- 
2.43.0


From d0b07525d85b46bbc16202cca410981aae620eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 029/110] fix: the pairtree layout needs a shorty length

---
 pkg/extension/NNNN-pairtree-storage-layout.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index cd0e98f..cab4282 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -92,7 +92,7 @@ func NewStorageLayoutPairTreeFS(fsys fs.FS) (*StorageLayoutPairTree, error) {
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot read config.json")
 	}
-	var config = &StorageLayoutPairTreeConfig{}
+	var config = &StorageLayoutPairTreeConfig{ShortyLength: 2}
 	if err := json.Unmarshal(data, config); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
@@ -108,6 +108,9 @@ func NewStorageLayoutPairTree(config *StorageLayoutPairTreeConfig) (*StorageLayo
 	if config.ExtensionName != sl.GetName() {
 		return nil, errors.New(fmt.Sprintf("invalid extension name'%s'for extension %s", config.ExtensionName, sl.GetName()))
 	}
+	if config.ShortyLength < 1 {
+		return nil, errors.Errorf("invalid shorty length %d", config.ShortyLength)
+	}
 
 	return sl, nil
 }
-- 
2.43.0


From 1c8289a6f79b317b4cc8447071b5d98ce13bd61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 030/110] fix: the storage layout file names the layout in use

---
 pkg/extension/NNNN-direct-clean-path-layout.go | 2 +-
 pkg/extension/NNNN-gocfl-extension-manager.go  | 6 ++----
 pkg/extension/NNNN-pairtree-storage-layout.go  | 5 +++--
 pkg/extension/pathdirect.go                    | 5 +++--
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index f7a09ab..d8ef08f 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -183,7 +183,7 @@ func (sl *DirectClean) WriteLayout(fsys fs.FS) (err error) {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
-		Extension:   PathDirectName,
+		Extension:   DirectCleanName,
 		Description: DirectCleanDescription,
 	}); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index 99a3991..23dadaa 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -320,10 +320,8 @@ func (manager *GOCFLExtensionManager) WriteConfig() (err error) {
 
 // StorageRootPath
 func (manager *GOCFLExtensionManager) StoreRootLayout(fsys fs.FS) error {
-	for _, ext := range manager.storageRootPath {
-		if err := ext.WriteLayout(fsys); err != nil {
-			return errors.Wrapf(err, "cannot store '%v'", ext)
-		}
+	if err := manager.WriteLayout(fsys); err != nil {
+		return errors.Wrapf(err, "cannot store layout of '%s'", manager.GetName())
 	}
 	return nil
 }
diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index cab4282..1e6e280 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -15,6 +15,7 @@ import (
 )
 
 const StorageLayoutPairTreeName = "NNNN-pairtree-storage-layout"
+const StorageLayoutPairTreeDescription = "Pairtree-like hierarchy of the encoded object identifier"
 
 /*
 	https://pythonhosted.org/Pairtree/pairtree.pairtree_client.PairtreeStorageClient-class.html
@@ -62,8 +63,8 @@ func (sl *StorageLayoutPairTree) WriteLayout(fsys fs.FS) (err error) {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
-		Extension:   StorageLayoutFlatDirectName,
-		Description: StorageLayoutFlatDirectDescription,
+		Extension:   StorageLayoutPairTreeName,
+		Description: StorageLayoutPairTreeDescription,
 	}); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
diff --git a/pkg/extension/pathdirect.go b/pkg/extension/pathdirect.go
index 9f30b68..f2ce389 100644
--- a/pkg/extension/pathdirect.go
+++ b/pkg/extension/pathdirect.go
@@ -11,6 +11,7 @@ import (
 )
 
 const PathDirectName = "NNNN-direct-path-layout"
+const PathDirectDescription = "one to one mapping of identifiers and logical paths without changes"
 
 func NewPathDirectFS(fsys fs.FS) (ocfl.Extension, error) {
 	fp, err := fsys.Open("config.json")
@@ -84,8 +85,8 @@ func (sl *PathDirect) WriteLayout(fsys fs.FS) (err error) {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
-		Extension:   StorageLayoutFlatDirectName,
-		Description: StorageLayoutFlatDirectDescription,
+		Extension:   PathDirectName,
+		Description: PathDirectDescription,
 	}); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-- 
2.43.0


From 695291093ab03105b28558cc1ee2304f3b801aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 031/110] fix: setting the extension manager must not rename
 the initial extension

---
 pkg/extension/initial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/initial.go b/pkg/extension/initial.go
index 93e6ab8..0a6fab9 100644
--- a/pkg/extension/initial.go
+++ b/pkg/extension/initial.go
@@ -77,7 +77,7 @@ func (sl *Initial) Terminate() error {
 }
 
 func (sl *Initial) SetExtension(ext string) {
-	sl.ExtensionName = ext
+	sl.InitialConfig.Extension = ext
 }
 
 func (sl *Initial) GetExtension() string {
-- 
2.43.0


From b0f5a9352aacde2de3d3477e59b5141527aee1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 032/110] fix: order and exclusion of extensions which are not
 listed

---
 pkg/extension/NNNN-gocfl-extension-manager.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index 23dadaa..a77c455 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -206,7 +206,8 @@ func sortExtensions[E ocfl.Extension](list []E, sortName []string) {
 	sortFunc := func(aExt, bExt E) int {
 		aName := aExt.GetName()
 		bName := bExt.GetName()
-		var aNum, bNum int
+		// extensions which are not listed come last
+		aNum, bNum := len(sortName), len(sortName)
 		for num, name := range sortName {
 			if name == aName {
 				aNum = num
@@ -215,6 +216,9 @@ func sortExtensions[E ocfl.Extension](list []E, sortName []string) {
 				bNum = num
 			}
 		}
+		if aNum == bNum {
+			return cmp.Compare(aName, bName)
+		}
 		return cmp.Compare(aNum, bNum)
 	}
 	slices.SortFunc(list, sortFunc)
@@ -224,7 +228,8 @@ func excludeExtensions[E ocfl.Extension](list []E, exclusionSort []string) []E {
 	sortFunc := func(aExt, bExt E) int {
 		aName := aExt.GetName()
 		bName := bExt.GetName()
-		var aNum, bNum int
+		// extensions which are not listed come last
+		aNum, bNum := len(exclusionSort), len(exclusionSort)
 		for num, name := range exclusionSort {
 			if name == aName {
 				aNum = num
@@ -233,6 +238,9 @@ func excludeExtensions[E ocfl.Extension](list []E, exclusionSort []string) []E {
 				bNum = num
 			}
 		}
+		if aNum == bNum {
+			return cmp.Compare(aName, bName)
+		}
 		return cmp.Compare(aNum, bNum)
 	}
 	// first sort list
@@ -268,9 +276,8 @@ func organize[E ocfl.Extension](manager *GOCFLExtensionManager, list []E, name s
 			list = excludeExtensions(list, exclude)
 		}
 	}
-	if sort, ok := manager.Sort[name]; ok {
-		sortExtensions(list, sort)
-	}
+	// without any configuration the order depends only on the names
+	sortExtensions(list, manager.Sort[name])
 	return list
 }
 
-- 
2.43.0


From ebcad54070819912564360640ab9269a6ce8f1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 033/110] fix: an invalid configuration of a known extension
 must not be ignored

---
 pkg/ocfl/extensionFactory.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/ocfl/extensionFactory.go b/pkg/ocfl/extensionFactory.go
index 00d9e9c..8313b0d 100644
--- a/pkg/ocfl/extensionFactory.go
+++ b/pkg/ocfl/extensionFactory.go
@@ -95,9 +95,8 @@ func (f *ExtensionFactory) CreateExtensions(fsys fs.FS, validation Validation) (
 		if err != nil {
 			// an extension which cannot be read must not be ignored
 			var pathErr *fs.PathError
-			var syntaxErr *json.SyntaxError
 			_, known := f.creators[fName]
-			if (errors.As(err, &pathErr) && !errors.Is(err, fs.ErrNotExist)) || (known && errors.As(err, &syntaxErr)) {
+			if (known || errors.As(err, &pathErr)) && !errors.Is(err, fs.ErrNotExist) {
 				return nil, errors.Wrapf(err, "cannot load extension %s", fName)
 			}
 			//errs = append(errs, errors.Wrapf(err, "cannot create extension %s", file.Name()))
-- 
2.43.0


From 73c45d65f137aaea71a476021317a9502ad2c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 034/110] fix: direct clean paths lose only trailing spaces

---
 pkg/extension/NNNN-direct-clean-path-layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index d8ef08f..ded4a3e 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -25,7 +25,7 @@ var directCleanRuleAll = regexp.MustCompile("[\u0000-\u001f\u007f\u0020\u0085\u0
 var directCleanRuleWhitespace = regexp.MustCompile("[\u0009\u000a-\u000d\u0020\u0085\u00a0\u1680\u2000-\u200f\u2028\u2029\u202f\u205f\u3000]")
 var directCleanRuleEqual = regexp.MustCompile("=(u[a-zA-Z0-9]{4})")
 var directCleanRule_1_5 = regexp.MustCompile("[\u0000-\u001F\u007F\n\r\t*?:\\[\\]\"<>|(){}&'!\\;#@]")
-var directCleanRule_2_4_6 = regexp.MustCompile("^[\\-~\u0009\u000a-\u000d\u0020\u0085\u00a0\u1680\u2000-\u200f\u2028\u2029\u202f\u205f\u3000]*(.*?)[\u0009\u000a-\u000d\u0020\u0085\u00a0\u1680\u2000-\u20a0\u2028\u2029\u202f\u205f\u3000]*$")
+var directCleanRule_2_4_6 = regexp.MustCompile("^[\\-~\u0009\u000a-\u000d\u0020\u0085\u00a0\u1680\u2000-\u200f\u2028\u2029\u202f\u205f\u3000]*(.*?)[\u0009\u000a-\u000d\u0020\u0085\u00a0\u1680\u2000-\u200f\u2028\u2029\u202f\u205f\u3000]*$")
 var directCleanRulePeriods = regexp.MustCompile("^\\.+$")
 
 var directCleanErrFilenameTooLong = errors.New("filename too long")
-- 
2.43.0


From b3fcd3e0415bcce629a6b7e7911598ef0fe1db13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 035/110] fix: direct clean configuration as documented

---
 pkg/extension/NNNN-direct-clean-path-layout.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index ded4a3e..9004594 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -55,7 +55,11 @@ func NewDirectCleanFS(fsys fs.FS) (ocfl.Extension, error) {
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot read config.json")
 	}
-	var config = &DirectCleanConfig{}
+	// defaults of the specification
+	var config = &DirectCleanConfig{
+		ReplacementString:           "_",
+		WhitespaceReplacementString: " ",
+	}
 	if err := json.Unmarshal(data, config); err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal DirectCleanConfig '%s'", string(data))
 	}
@@ -64,6 +68,10 @@ func NewDirectCleanFS(fsys fs.FS) (ocfl.Extension, error) {
 		config.MaxPathnameLen = config.MaxFilenameLen
 		config.MaxFilenameLen = 0
 	}
+	if config.EncodeUTF {
+		config.UTFEncode = true
+		config.EncodeUTF = false
+	}
 	if config.FallbackSubFolders > 0 && config.NumberOfFallbackTuples == 0 {
 		config.NumberOfFallbackTuples = config.FallbackSubFolders
 		config.FallbackSubFolders = 0
@@ -114,6 +122,9 @@ type DirectCleanConfig struct {
 	NumberOfFallbackTuples      int                      `json:"numberOfFallbackTuples"`
 	FallbackTupleSize           int                      `json:"fallbackTupleSize"`
 
+	// name of utfEncode in the specification
+	EncodeUTF bool `json:"encodeUTF,omitempty"`
+
 	// compatibility with old config
 	MaxFilenameLen     int `json:"maxFilenameLen,omitempty"`
 	FallbackSubFolders int `json:"fallbackSubdirs,omitempty"`
-- 
2.43.0


From 48091cc82e1604196fa97a80530433d752c1016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 036/110] fix: fallback tuples of the direct clean layout

---
 pkg/extension/NNNN-direct-clean-path-layout.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index 9004594..ad885e2 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -102,6 +102,12 @@ func NewDirectClean(config *DirectCleanConfig) (ocfl.Extension, error) {
 	if sl.hash, err = checksum.GetHash(config.FallbackDigestAlgorithm); err != nil {
 		return nil, errors.Wrapf(err, "hash %s not supported", config.FallbackDigestAlgorithm)
 	}
+	if config.MaxPathnameLen < 0 || config.MaxPathSegmentLen < 0 || config.NumberOfFallbackTuples < 0 || config.FallbackTupleSize < 0 {
+		return nil, errors.New("negative length in configuration")
+	}
+	if config.NumberOfFallbackTuples*max(config.FallbackTupleSize, 1) > 2*sl.hash.Size() {
+		return nil, errors.Errorf("digest %s too short for %d tuples of size %d", config.FallbackDigestAlgorithm, config.NumberOfFallbackTuples, config.FallbackTupleSize)
+	}
 
 	return sl, nil
 }
@@ -240,9 +246,9 @@ func (sl *DirectClean) fallback(fname string) (string, error) {
 	}
 
 	// add all necessary subfolders
-	for i := 0; i < sl.NumberOfFallbackTuples; i++ {
-		// paranoia, but safe
-		result = filepath.Join(string(([]rune(digestString))[sl.NumberOfFallbackTuples-i-1:sl.NumberOfFallbackTuples-i-1+sl.FallbackTupleSize]), result)
+	tupleSize := max(sl.FallbackTupleSize, 1)
+	for i := sl.NumberOfFallbackTuples - 1; i >= 0; i-- {
+		result = filepath.Join(digestString[i*tupleSize:(i+1)*tupleSize], result)
 	}
 	result = strings.TrimLeft(filepath.ToSlash(filepath.Clean(filepath.Join(sl.FallbackFolder, result))), "/")
 	if len(result) > sl.MaxPathnameLen {
-- 
2.43.0


From dc14c21a763c6d7da216253fbaba2aee123d3d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:34 +0000
Subject: [PATCH 037/110] fix: the fallback digest is built from the initial
 name

---
 pkg/extension/NNNN-direct-clean-path-layout.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index ad885e2..9a99030 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -259,6 +259,8 @@ func (sl *DirectClean) fallback(fname string) (string, error) {
 
 func (sl *DirectClean) build(fname string) (string, error) {
 
+	// the fallback is built from the initial name
+	initial := fname
 	fname = strings.ToValidUTF8(fname, sl.ReplacementString)
 
 	names := strings.Split(fname, "/")
@@ -285,7 +287,7 @@ func (sl *DirectClean) build(fname string) (string, error) {
 
 		lenN := len(n)
 		if lenN > sl.MaxPathSegmentLen {
-			return sl.fallback(fname)
+			return sl.fallback(initial)
 			//return "", errors.Wrapf(directCleanErrFilenameTooLong, "filename: %s", n)
 		}
 
@@ -297,7 +299,7 @@ func (sl *DirectClean) build(fname string) (string, error) {
 	fname = strings.Join(result, "/")
 
 	if len(fname) > sl.MaxPathnameLen {
-		return sl.fallback(fname)
+		return sl.fallback(initial)
 		//return "", errors.Wrapf(directCleanErrPathnameTooLong, "pathname: %s", fname)
 	}
 
-- 
2.43.0


From 688e9c0e0fac9557141260a766447b497037fabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 038/110] fix: direct clean paths are never empty and never
 contain dot segments

---
 pkg/extension/NNNN-direct-clean-path-layout.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index 9a99030..534ec83 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -291,6 +291,11 @@ func (sl *DirectClean) build(fname string) (string, error) {
 			//return "", errors.Wrapf(directCleanErrFilenameTooLong, "filename: %s", n)
 		}
 
+		// the replacement string does not make a valid name of it
+		if n == "." || n == ".." {
+			return sl.fallback(initial)
+		}
+
 		if lenN > 0 {
 			result = append(result, n)
 		}
@@ -298,7 +303,8 @@ func (sl *DirectClean) build(fname string) (string, error) {
 
 	fname = strings.Join(result, "/")
 
-	if len(fname) > sl.MaxPathnameLen {
+	// nothing left
+	if fname == "" || len(fname) > sl.MaxPathnameLen {
 		return sl.fallback(initial)
 		//return "", errors.Wrapf(directCleanErrPathnameTooLong, "pathname: %s", fname)
 	}
-- 
2.43.0


From 0ae4759d3303073d2f8c36265be993b256ebb51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 039/110] fix: objects and storage roots need no extensions
 folder

---
 pkg/ocfl/extensionFactory.go | 11 ++++++++---
 pkg/ocfl/helper.go           | 12 ++++++++++++
 pkg/ocfl/objectbase.go       |  2 +-
 pkg/ocfl/storageroot.go      |  4 ++--
 pkg/ocfl/storagerootbase.go  |  4 ++--
 5 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/pkg/ocfl/extensionFactory.go b/pkg/ocfl/extensionFactory.go
index 8313b0d..f8c7e01 100644
--- a/pkg/ocfl/extensionFactory.go
+++ b/pkg/ocfl/extensionFactory.go
@@ -76,9 +76,14 @@ func (f *ExtensionFactory) create(fsys fs.FS, data []byte) (Extension, error) {
 
 func (f *ExtensionFactory) CreateExtensions(fsys fs.FS, validation Validation) (ExtensionManager, error) {
 	var errs = []error{}
-	files, err := fs.ReadDir(fsys, ".")
-	if err != nil {
-		return nil, errors.Wrap(err, "cannot read folder storageroot")
+	var files []fs.DirEntry
+	// the extension folder is optional
+	if fsys != nil {
+		var err error
+		files, err = fs.ReadDir(fsys, ".")
+		if err != nil && !errors.Is(err, fs.ErrNotExist) {
+			return nil, errors.Wrap(err, "cannot read folder storageroot")
+		}
 	}
 	var result = []Extension{}
 	for _, file := range files {
diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 5ebe2ad..c2bbf06 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -208,6 +208,18 @@ func validVersion(ctx context.Context, fsys fs.FS, version OCFLVersion, folder,
 	return v == version
 }
 
+// extensionsFS returns the extensions folder of an object or a storage root, nil if there is none
+func extensionsFS(fsys fs.FS) (fs.FS, error) {
+	extFS, err := fs.Sub(fsys, "extensions")
+	if err != nil {
+		if errors.Is(err, fs.ErrNotExist) {
+			return nil, nil
+		}
+		return nil, errors.WithStack(err)
+	}
+	return extFS, nil
+}
+
 // Contains reports whether vs is present in s
 func sliceContains[E comparable](s []E, vs []E) bool {
 	for _, v := range vs {
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index bd65459..bcb3472 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -483,7 +483,7 @@ func (object *ObjectBase) Init(id string, digest checksum.DigestAlgorithm, fixit
 }
 
 func (object *ObjectBase) Load() (err error) {
-	extFolder, err := fs.Sub(object.fsys, "extensions")
+	extFolder, err := extensionsFS(object.fsys)
 	if err != nil {
 		return errors.Wrapf(err, "cannot create subfs of %v for folder '%s'", object.fsys, "extensions")
 	}
diff --git a/pkg/ocfl/storageroot.go b/pkg/ocfl/storageroot.go
index 085e8ee..7480228 100644
--- a/pkg/ocfl/storageroot.go
+++ b/pkg/ocfl/storageroot.go
@@ -109,7 +109,7 @@ func LoadStorageRoot(ctx context.Context, fsys fs.FS, extensionFactory *Extensio
 		}
 		version = Version1_1
 	}
-	extFSys, err := fs.Sub(fsys, "extensions")
+	extFSys, err := extensionsFS(fsys)
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot create sub filesystem 'extensions'")
 	}
@@ -145,7 +145,7 @@ func LoadStorageRootRO(ctx context.Context, fsys fs.FS, extensionFactory *Extens
 		}
 		version = Version1_1
 	}
-	extFSys, err := fs.Sub(fsys, "extensions")
+	extFSys, err := extensionsFS(fsys)
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot create sub filesystem 'extensions'")
 	}
diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 298b2b3..2330ee3 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -175,7 +175,7 @@ func (osr *StorageRootBase) Load() error {
 		osr.version = Version1_0
 	}
 
-	extFSys, err := fs.Sub(osr.fsys, "extensions")
+	extFSys, err := extensionsFS(osr.fsys)
 	if err != nil {
 		return errors.Wrapf(err, "cannot create subfs of %v for extensions", osr.fsys)
 	}
@@ -345,7 +345,7 @@ func (osr *StorageRootBase) LoadObjectByFolder(folder string) (Object, error) {
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create subfs of '%v' for '%s'", osr.fsys, folder)
 	}
-	extFSys, err := fs.Sub(subfs, "extensions")
+	extFSys, err := extensionsFS(subfs)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create subfs of '%v' for '%s'", subfs, "extensions")
 	}
-- 
2.43.0


From e0e9f7e4535d1401d3b5e548bb29812e2786b4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:33 +0000
Subject: [PATCH 040/110] fix: validation does not panic on incomplete
 inventories

---
 pkg/ocfl/inventorybase.go | 57 +++++++++++++++++++++++----------------
 pkg/ocfl/objectbase.go    | 32 ++++++++++++++++++----
 2 files changed, 61 insertions(+), 28 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 7cea07a..0c91cf1 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -130,14 +130,25 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 		i.Versions = &OCFLVersions{Versions: map[string]*Version{}}
 	}
 
+	if i.Head == nil {
+		i.Head = NewOCFLString("")
+	}
+
 	i.versionValue = map[string]uint{}
 	for ver, version := range i.Versions.Versions {
-		vInt, err := strconv.Atoi(strings.TrimLeft(ver, "v0"))
-		if err != nil {
-			i.addValidationError(E104, "invalid version format '%s'", ver)
-			continue
+		if version == nil {
+			version = &Version{}
+			i.Versions.Versions[ver] = version
+		}
+		if version.Created == nil {
+			version.Created = &OCFLTime{err: errors.Errorf("no created key in version '%s'", ver)}
+		}
+		if version.State == nil {
+			version.State = &OCFLState{
+				State: map[string][]string{},
+				err:   errors.Errorf("no state key in version '%s'", ver),
+			}
 		}
-		i.versionValue[ver] = uint(vInt)
 		if version.User == nil {
 			i.addValidationWarning(W007, "no user key in version '%s'", ver)
 			version.User = NewOCFLUser("", "")
@@ -147,12 +158,12 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 			i.addValidationWarning(W007, "no message key in version '%s'", ver)
 			version.Message = NewOCFLString("")
 		}
-		if version.State == nil {
-			version.State = &OCFLState{
-				State: map[string][]string{},
-				err:   nil,
-			}
+		vInt, err := strconv.Atoi(strings.TrimLeft(ver, "v0"))
+		if err != nil {
+			i.addValidationError(E104, "invalid version format '%s'", ver)
+			continue
 		}
+		i.versionValue[ver] = uint(vInt)
 	}
 	for alg := range i.Fixity {
 		if !slices.Contains(i.fixityDigestAlgorithms, alg) {
@@ -367,11 +378,12 @@ func (i *InventoryBase) checkManifest() error {
 		for _, path := range paths {
 			//allPaths = sliceInsertSorted(allPaths, path)
 			allPaths = append(allPaths, path)
-			if path[0] == '/' || path[len(path)-1] == '/' {
-				i.addValidationError(E100, "invalid path '%s' in manifest", path)
-			}
 			if path == "" {
 				i.addValidationError(E099, "empty path in manifest")
+				continue
+			}
+			if path[0] == '/' || path[len(path)-1] == '/' {
+				i.addValidationError(E100, "invalid path '%s' in manifest", path)
 			}
 			path2 := path
 			if path[0] == '/' {
@@ -413,11 +425,12 @@ func (i *InventoryBase) checkFixity() error {
 			}
 			// check content paths
 			for _, path := range paths {
-				if path[0] == '/' || path[len(path)-1] == '/' {
-					i.addValidationError(E100, "invalid path '%s' in fixity", path)
-				}
 				if path == "" {
 					i.addValidationError(E099, "empty path in fixity")
+					continue
+				}
+				if path[0] == '/' || path[len(path)-1] == '/' {
+					i.addValidationError(E100, "invalid path '%s' in fixity", path)
 				}
 				path2 := path
 				if path[0] == '/' {
@@ -531,11 +544,12 @@ func (i *InventoryBase) checkVersions() error {
 				}
 			}
 			for _, path := range paths {
-				if path[0] == '/' || path[len(path)-1] == '/' {
-					i.addValidationError(E053, "invalid path '%s' in state for version '%s'", path, ver)
-				}
 				if path == "" {
 					i.addValidationError(E051, "empty path in state for version '%s'", ver)
+					continue
+				}
+				if path[0] == '/' || path[len(path)-1] == '/' {
+					i.addValidationError(E053, "invalid path '%s' in state for version '%s'", path, ver)
 				}
 				path2 := path
 				if path[0] == '/' {
@@ -658,13 +672,10 @@ func (i *InventoryBase) GetFiles() map[string][]string {
 			parts := strings.Split(filename, "/")
 			if len(parts) < 3 {
 				i.addValidationError(E000, "invalid filepath in manifest '%s'", filename)
+				continue
 			}
 			version := parts[0]
 			//fn := parts[2]
-			if parts[1] != i.GetContentDir() {
-				//i.addValidationError(E015, "extra file/directory '%s' in manifest", parts[1])
-				//i.addValidationError(E019, "invalid content directory '%s' in '%s'", parts[1], filename)
-			}
 			if _, ok := result[version]; !ok {
 				versions = append(versions, version)
 				result[version] = []string{}
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index bcb3472..ea8077f 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1143,10 +1143,17 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 		if _, ok := objectContentFiles[ver]; !ok {
 			objectContentFiles[ver] = []string{}
 		}
-		fs.WalkDir(
+		if err := fs.WalkDir(
 			object.fsys,
 			ver,
 			func(path string, d fs.DirEntry, err error) error {
+				if err != nil {
+					// missing version folders are reported by the caller
+					if errors.Is(err, fs.ErrNotExist) {
+						return nil
+					}
+					return errors.Wrapf(err, "cannot read '%v/%s'", object.fsys, path)
+				}
 				path = filepath.ToSlash(path)
 				if d.IsDir() {
 					if !strings.HasPrefix(path, versionContent) && path != ver && !strings.HasPrefix(ver+"/"+object.i.GetContentDir(), path) {
@@ -1167,11 +1174,13 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 				}
 				return nil
 			},
-		)
+		); err != nil {
+			return errors.Wrapf(err, "cannot walk version folder '%s'", ver)
+		}
 		if len(objectContentFiles[ver]) == 0 {
 			fi, err := fs.Stat(object.fsys, versionContent)
 			if err != nil {
-				if errors.Cause(err) != fs.ErrNotExist {
+				if !errors.Is(err, fs.ErrNotExist) {
 					return errors.Wrapf(err, "cannot stat '%s'", versionContent)
 				}
 			} else {
@@ -1195,9 +1204,14 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 		return errors.Wrap(err, "cannot check file digests for object root")
 	}
 
-	contentDir := ""
+	contentDir := object.i.GetRealContentDir()
 	if len(versionStrings) > 0 {
-		contentDir = versionInventories[versionStrings[0]].GetRealContentDir()
+		if inv, ok := versionInventories[versionStrings[0]]; ok {
+			contentDir = inv.GetRealContentDir()
+			if contentDir != object.i.GetRealContentDir() {
+				object.addValidationError(E019, "content directory '%s' not the same as '%s' in version '%s'", object.i.GetRealContentDir(), contentDir, versionStrings[0])
+			}
+		}
 	}
 	for _, ver := range versionStrings {
 		inv := versionInventories[ver]
@@ -1280,6 +1294,7 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 			testV, ok := versions[verVer]
 			if !ok {
 				object.addValidationError(E066, "version '%s' in version folder '%s' not in object root manifest", ver, verVer)
+				continue
 			}
 			if !testV.EqualState(verVersion) {
 				object.addValidationError(E066, "version '%s' in version folder '%s' not equal to version in object root manifest", ver, verVer)
@@ -1421,6 +1436,13 @@ func (object *ObjectBase) createContentManifest() (map[checksum.DigestAlgorithm]
 			//fmt.Sprintf("%s/%s", version, object.i.GetContentDir()),
 			version,
 			func(path string, d fs.DirEntry, err error) error {
+				if err != nil {
+					// missing version folders are reported by the caller
+					if errors.Is(err, fs.ErrNotExist) {
+						return nil
+					}
+					return errors.Wrapf(err, "cannot read '%v/%s'", object.fsys, path)
+				}
 				//object.logger.Debug(path)
 				if d.IsDir() {
 					return nil
-- 
2.43.0


From e4b77511d3c16a1a75ee217cda88a1273a806f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 041/110] fix: fixity of unsupported algorithms is ignored, the
 root inventory is checked too

---
 pkg/ocfl/fixity.go        | 19 +++++++++++++++++++
 pkg/ocfl/inventorybase.go | 26 +++++++++++++++-----------
 pkg/ocfl/objectbase.go    | 15 +++++++++++----
 3 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/pkg/ocfl/fixity.go b/pkg/ocfl/fixity.go
index e1ee07f..ac40d6e 100644
--- a/pkg/ocfl/fixity.go
+++ b/pkg/ocfl/fixity.go
@@ -1,11 +1,30 @@
 package ocfl
 
 import (
+	"emperror.dev/errors"
+	"encoding/json"
 	"github.com/je4/utils/v2/pkg/checksum"
 )
 
 type Fixity map[checksum.DigestAlgorithm]map[string][]string
 
+// UnmarshalJSON accepts unsupported digest algorithms, which have to be ignored (E028)
+func (f *Fixity) UnmarshalJSON(data []byte) error {
+	algs := map[string]map[string][]string{}
+	if err := json.Unmarshal(data, &algs); err != nil {
+		return errors.Wrapf(err, "cannot unmarshal fixity '%s'", string(data))
+	}
+	if algs == nil {
+		*f = nil
+		return nil
+	}
+	*f = Fixity{}
+	for alg, digests := range algs {
+		(*f)[checksum.DigestAlgorithm(alg)] = digests
+	}
+	return nil
+}
+
 func (f Fixity) Checksums(filename string) map[checksum.DigestAlgorithm]string {
 	result := map[checksum.DigestAlgorithm]string{}
 	for da, dfs := range f {
diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 0c91cf1..2b37e6e 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -26,14 +26,14 @@ type InventoryBase struct {
 	paddingLength          int
 	versionValue           map[string]uint
 	fixityDigestAlgorithms []checksum.DigestAlgorithm
-	Id                     string                                           `json:"id"`
-	Type                   InventorySpec                                    `json:"type"`
-	DigestAlgorithm        checksum.DigestAlgorithm                         `json:"digestAlgorithm"`
-	Head                   *OCFLString                                      `json:"head"`
-	ContentDirectory       string                                           `json:"contentDirectory,omitempty"`
-	Manifest               *OCFLManifest                                    `json:"manifest,omitempty"`
-	Versions               *OCFLVersions                                    `json:"versions"`
-	Fixity                 map[checksum.DigestAlgorithm]map[string][]string `json:"fixity,omitempty"`
+	Id                     string                   `json:"id"`
+	Type                   InventorySpec            `json:"type"`
+	DigestAlgorithm        checksum.DigestAlgorithm `json:"digestAlgorithm"`
+	Head                   *OCFLString              `json:"head"`
+	ContentDirectory       string                   `json:"contentDirectory,omitempty"`
+	Manifest               *OCFLManifest            `json:"manifest,omitempty"`
+	Versions               *OCFLVersions            `json:"versions"`
+	Fixity                 Fixity                   `json:"fixity,omitempty"`
 	logger                 zLogger.ZLogger
 }
 
@@ -166,7 +166,7 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 		i.versionValue[ver] = uint(vInt)
 	}
 	for alg := range i.Fixity {
-		if !slices.Contains(i.fixityDigestAlgorithms, alg) {
+		if checksum.HashExists(alg) && !slices.Contains(i.fixityDigestAlgorithms, alg) {
 			i.fixityDigestAlgorithms = append(i.fixityDigestAlgorithms, alg)
 		}
 	}
@@ -640,6 +640,10 @@ func (i *InventoryBase) CheckFiles(fileManifest map[checksum.DigestAlgorithm]map
 	}
 	//check fixity
 	for digestAlg, fixity := range i.GetFixity() {
+		// unsupported algorithms must be ignored
+		if !checksum.HashExists(digestAlg) {
+			continue
+		}
 		csFiles, ok = fileManifest[digestAlg]
 		if !ok {
 			return errors.Errorf("checksum for '%s' not created", digestAlg)
@@ -697,7 +701,7 @@ func (i *InventoryBase) GetManifest() map[string][]string {
 
 func (i *InventoryBase) GetFixity() Fixity {
 	if i.Fixity == nil {
-		return map[checksum.DigestAlgorithm]map[string][]string{}
+		return Fixity{}
 	}
 	return i.Fixity
 }
@@ -970,7 +974,7 @@ func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string
 			continue
 		}
 		if i.Fixity == nil {
-			i.Fixity = map[checksum.DigestAlgorithm]map[string][]string{}
+			i.Fixity = Fixity{}
 		}
 		if _, ok := i.Fixity[alg]; !ok {
 			i.Fixity[alg] = map[string][]string{}
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index ea8077f..4b3c3c5 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1518,11 +1518,18 @@ func (object *ObjectBase) getAllDigests() ([]checksum.DigestAlgorithm, error) {
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot get version inventories")
 	}
-	allDigestAlgs := []checksum.DigestAlgorithm{object.i.GetDigestAlgorithm()}
+	inventories := []Inventory{object.i}
 	for _, vi := range versionInventories {
-		allDigestAlgs = append(allDigestAlgs, vi.GetDigestAlgorithm())
-		for digestAlg, _ := range vi.GetFixity() {
-			allDigestAlgs = append(allDigestAlgs, digestAlg)
+		inventories = append(inventories, vi)
+	}
+	allDigestAlgs := []checksum.DigestAlgorithm{}
+	for _, inventory := range inventories {
+		allDigestAlgs = append(allDigestAlgs, inventory.GetDigestAlgorithm())
+		for digestAlg := range inventory.GetFixity() {
+			// unsupported algorithms must be ignored
+			if checksum.HashExists(digestAlg) {
+				allDigestAlgs = append(allDigestAlgs, digestAlg)
+			}
 		}
 	}
 	slices.Sort(allDigestAlgs)
-- 
2.43.0


From 7fc80e0f4c2566b8c07cd61634d3e5991e937423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 042/110] fix: format and hex case of inventory sidecars

---
 pkg/ocfl/objectbase.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 4b3c3c5..59921be 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -281,7 +281,7 @@ func (object *ObjectBase) loadInventory(data []byte, folder string) (Inventory,
 	return inventory, inventory.Finalize(false)
 }
 
-var inventorySideCarFormat = regexp.MustCompile(`^([a-fA-F0-9]+)\s+inventory.json$`)
+var inventorySideCarFormat = regexp.MustCompile(`^([a-fA-F0-9]+)[ \t]+inventory\.json\s*$`)
 
 // loadInventory loads inventory from existing Object
 func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
@@ -301,14 +301,14 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 	sidecarPath := fmt.Sprintf("%s.%s", filename, digest)
 	sidecarBytes, err := fs.ReadFile(object.fsys, sidecarPath)
 	if err != nil {
-		if errors.Cause(err) == fs.ErrNotExist {
+		if errors.Is(err, fs.ErrNotExist) {
 			object.addValidationError(E058, "sidecar '%v/%s' does not exist", object.fsys, sidecarPath)
 		} else {
 			object.addValidationError(E060, "cannot read sidecar '%v/%s': %v", object.fsys, sidecarPath, err.Error())
 		}
 		//		object.addValidationError(E058, "cannot read '%s': %v", sidecarPath, err)
 	} else {
-		digestString := strings.TrimSpace(string(sidecarBytes))
+		digestString := string(sidecarBytes)
 		//if !strings.HasSuffix(digestString, " inventory.json") {
 		matches := inventorySideCarFormat.FindStringSubmatch(digestString)
 		if /* matches == nil || */ len(matches) == 0 {
@@ -324,7 +324,7 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 			h.Write(inventoryBytes)
 			sumBytes := h.Sum(nil)
 			inventoryDigestString := fmt.Sprintf("%x", sumBytes)
-			if digestString != inventoryDigestString {
+			if !strings.EqualFold(digestString, inventoryDigestString) {
 				object.addValidationError(E060, "'%s' != '%s'", digestString, inventoryDigestString)
 			}
 		}
-- 
2.43.0


From 264e8708b8b4be1a521fa1c50125705389d61041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 043/110] fix: missing, unknown and wrongly typed inventory
 keys are reported

---
 pkg/ocfl/inventory.go          |   1 +
 pkg/ocfl/inventorystructure.go | 118 +++++++++++++++++++++++++++++++++
 pkg/ocfl/objectbase.go         |   2 +
 3 files changed, 121 insertions(+)
 create mode 100644 pkg/ocfl/inventorystructure.go

diff --git a/pkg/ocfl/inventory.go b/pkg/ocfl/inventory.go
index 0b74c63..6e6ccef 100644
--- a/pkg/ocfl/inventory.go
+++ b/pkg/ocfl/inventory.go
@@ -52,6 +52,7 @@ type Inventory interface {
 
 	VersionLessOrEqual(v1, v2 string) bool
 	checkLogicalPaths() error
+	checkStructure(raw map[string]any)
 	echoDelete(existing []string, pathprefix string) error
 }
 
diff --git a/pkg/ocfl/inventorystructure.go b/pkg/ocfl/inventorystructure.go
new file mode 100644
index 0000000..17c98a3
--- /dev/null
+++ b/pkg/ocfl/inventorystructure.go
@@ -0,0 +1,118 @@
+package ocfl
+
+import (
+	"golang.org/x/exp/slices"
+)
+
+// checkStructure reports all keys of an inventory, which are missing, unknown or do not have the required type
+func (i *InventoryBase) checkStructure(raw map[string]any) {
+	i.checkKeys(raw, "inventory", "id", "type", "digestAlgorithm", "head", "contentDirectory", "manifest", "versions", "fixity")
+	for key, code := range map[string]ValidationErrorCode{"id": E036, "type": E036, "digestAlgorithm": E036, "head": E040} {
+		if val, ok := raw[key]; !ok {
+			i.addValidationError(E036, "no key '%s' in inventory", key)
+		} else if _, ok := val.(string); !ok {
+			i.addValidationError(code, "'%s' is not a string in inventory", key)
+		}
+	}
+	if val := raw["contentDirectory"]; val != nil {
+		if _, ok := val.(string); !ok {
+			i.addValidationError(E017, "'contentDirectory' is not a string in inventory")
+		}
+	}
+	if val, ok := raw["manifest"]; !ok {
+		i.addValidationError(E041, "no manifest in inventory")
+	} else if !isDigestMap(val) {
+		i.addValidationError(E092, "manifest is not an object with arrays of content paths")
+	}
+	if val, ok := raw["versions"]; !ok {
+		i.addValidationError(E043, "no versions in inventory")
+	} else if versions, ok := val.(map[string]any); !ok {
+		i.addValidationError(E044, "versions is not an object")
+	} else {
+		for ver, val := range versions {
+			version, ok := val.(map[string]any)
+			if !ok {
+				i.addValidationError(E047, "version '%s' is not an object", ver)
+				continue
+			}
+			i.checkVersionStructure(ver, version)
+		}
+	}
+	if val := raw["fixity"]; val != nil {
+		fixity, ok := val.(map[string]any)
+		if !ok {
+			i.addValidationError(E057, "fixity is not an object")
+		}
+		for alg, digests := range fixity {
+			if !isDigestMap(digests) {
+				i.addValidationError(E057, "fixity '%s' is not an object with arrays of content paths", alg)
+			}
+		}
+	}
+}
+
+func (i *InventoryBase) checkVersionStructure(ver string, version map[string]any) {
+	i.checkKeys(version, "version '"+ver+"'", "created", "state", "message", "user")
+	for _, key := range []string{"created", "state"} {
+		if _, ok := version[key]; !ok {
+			i.addValidationError(E048, "no key '%s' in version '%s'", key, ver)
+		}
+	}
+	if val, ok := version["created"]; ok {
+		if _, ok := val.(string); !ok {
+			i.addValidationError(E049, "'created' is not a string in version '%s'", ver)
+		}
+	}
+	if val, ok := version["state"]; ok && !isDigestMap(val) {
+		i.addValidationError(E050, "state of version '%s' is not an object with arrays of logical paths", ver)
+	}
+	if val := version["message"]; val != nil {
+		if _, ok := val.(string); !ok {
+			i.addValidationError(E094, "'message' is not a string in version '%s'", ver)
+		}
+	}
+	if val := version["user"]; val != nil {
+		user, ok := val.(map[string]any)
+		if !ok {
+			i.addValidationError(E054, "'user' is not an object in version '%s'", ver)
+			return
+		}
+		i.checkKeys(user, "user of version '"+ver+"'", "name", "address")
+		if _, ok := user["name"].(string); !ok {
+			i.addValidationError(E054, "no user name in version '%s'", ver)
+		}
+		if val := user["address"]; val != nil {
+			if _, ok := val.(string); !ok {
+				i.addValidationError(E054, "user address is not a string in version '%s'", ver)
+			}
+		}
+	}
+}
+
+func (i *InventoryBase) checkKeys(obj map[string]any, name string, allowed ...string) {
+	for key := range obj {
+		if !slices.Contains(allowed, key) {
+			i.addValidationError(E102, "unknown key '%s' in %s", key, name)
+		}
+	}
+}
+
+// isDigestMap checks for the structure of manifest, state and fixity blocks
+func isDigestMap(val any) bool {
+	digests, ok := val.(map[string]any)
+	if !ok {
+		return false
+	}
+	for _, val := range digests {
+		paths, ok := val.([]any)
+		if !ok {
+			return false
+		}
+		for _, path := range paths {
+			if _, ok := path.(string); !ok {
+				return false
+			}
+		}
+	}
+	return true
+}
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 59921be..515965a 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -278,6 +278,8 @@ func (object *ObjectBase) loadInventory(data []byte, folder string) (Inventory,
 		//return nil, errors.Wrapf(err, "cannot marshal data - '%s'", string(data))
 	}
 
+	inventory.checkStructure(anyMap)
+
 	return inventory, inventory.Finalize(false)
 }
 
-- 
2.43.0


From 532410c1fda60b7bcc6009daf69b23ef693f04ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:16 +0000
Subject: [PATCH 044/110] fix: states of prior inventories and the head
 inventory are really compared

---
 pkg/ocfl/objectbase.go | 51 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 515965a..5f0d947 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -10,6 +10,7 @@ import (
 	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/utils/v2/pkg/checksum"
 	"github.com/je4/utils/v2/pkg/zLogger"
+	"golang.org/x/exp/maps"
 	"golang.org/x/exp/slices"
 	"io"
 	"io/fs"
@@ -1269,8 +1270,16 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 
 	if len(versionStrings) > 0 {
 		lastVersion := versionStrings[len(versionStrings)-1]
-		if lastInv, ok := versionInventories[lastVersion]; ok {
-			if !lastInv.IsEqual(object.i) {
+		if _, ok := versionInventories[lastVersion]; ok {
+			rootData, err := fs.ReadFile(object.fsys, "inventory.json")
+			if err != nil {
+				return errors.Wrapf(err, "cannot read '%v/inventory.json'", object.fsys)
+			}
+			lastData, err := fs.ReadFile(object.fsys, lastVersion+"/inventory.json")
+			if err != nil {
+				return errors.Wrapf(err, "cannot read '%v/%s/inventory.json'", object.fsys, lastVersion)
+			}
+			if !bytes.Equal(rootData, lastData) {
 				object.addValidationError(E064, "root inventory not equal to inventory version '%s'", lastVersion)
 			}
 		}
@@ -1298,7 +1307,7 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 				object.addValidationError(E066, "version '%s' in version folder '%s' not in object root manifest", ver, verVer)
 				continue
 			}
-			if !testV.EqualState(verVersion) {
+			if !object.isSameState(verInventory, testV, verVersion) {
 				object.addValidationError(E066, "version '%s' in version folder '%s' not equal to version in object root manifest", ver, verVer)
 			}
 			if !testV.EqualMeta(verVersion) {
@@ -1366,6 +1375,42 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 	return nil
 }
 
+// isSameState checks, whether a version of a prior inventory has the same logical state as in the root inventory
+func (object *ObjectBase) isSameState(prior Inventory, rootVersion, priorVersion *Version) bool {
+	rootState := map[string]string{}
+	for digest, paths := range rootVersion.State.State {
+		for _, path := range paths {
+			rootState[path] = strings.ToLower(digest)
+		}
+	}
+	// with another digest algorithm the digests of the root manifest are needed
+	translate := map[string]string{}
+	if prior.GetDigestAlgorithm() != object.i.GetDigestAlgorithm() {
+		rootDigests := map[string]string{}
+		for digest, paths := range object.i.GetManifest() {
+			for _, path := range paths {
+				rootDigests[path] = strings.ToLower(digest)
+			}
+		}
+		for digest, paths := range prior.GetManifest() {
+			for _, path := range paths {
+				translate[strings.ToLower(digest)] = rootDigests[path]
+			}
+		}
+	}
+	priorState := map[string]string{}
+	for digest, paths := range priorVersion.State.State {
+		digest = strings.ToLower(digest)
+		if prior.GetDigestAlgorithm() != object.i.GetDigestAlgorithm() {
+			digest = translate[digest]
+		}
+		for _, path := range paths {
+			priorState[path] = digest
+		}
+	}
+	return maps.Equal(rootState, priorState)
+}
+
 func (object *ObjectBase) Check() error {
 	// https://ocfl.io/1.0/spec/#object-structure
 	//object.fs
-- 
2.43.0


From 39a3f9467d2811fa344fe6ddc5f027be6c7abd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 045/110] fix: conflicting and duplicate paths are reported

---
 pkg/ocfl/helper.go        | 22 ++++++++++++++++++++++
 pkg/ocfl/inventorybase.go | 22 +++++++++-------------
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index c2bbf06..286f57d 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -220,6 +220,28 @@ func extensionsFS(fsys fs.FS) (fs.FS, error) {
 	return extFS, nil
 }
 
+// pathConflicts returns the paths, which occur more than once or are used as folder by another path
+func pathConflicts(paths []string) []string {
+	folders := map[string]bool{}
+	count := map[string]int{}
+	for _, path := range paths {
+		count[path]++
+		for pos, c := range path {
+			if c == '/' {
+				folders[path[:pos]] = true
+			}
+		}
+	}
+	result := []string{}
+	for path, num := range count {
+		if num > 1 || folders[path] {
+			result = append(result, path)
+		}
+	}
+	slices.Sort(result)
+	return result
+}
+
 // Contains reports whether vs is present in s
 func sliceContains[E comparable](s []E, vs []E) bool {
 	for _, v := range vs {
diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 2b37e6e..cb06a8b 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -360,12 +360,16 @@ func (i *InventoryBase) checkManifest() error {
 			versionDigests = append(versionDigests, digest)
 		}
 	}
+	// digests are not case sensitive
+	for j, digest := range versionDigests {
+		versionDigests[j] = strings.ToLower(digest)
+	}
 	slices.Sort(versionDigests)
 
 	digests := []string{}
 	allPaths := []string{}
 	for digest, paths := range i.Manifest.Manifest {
-		//		digest = strings.ToLower(digest)
+		digest = strings.ToLower(digest)
 		if slices.Contains(digests, digest) {
 			i.addValidationError(E096, "manifest digest '%s' is duplicate", digest)
 		} else {
@@ -400,12 +404,8 @@ func (i *InventoryBase) checkManifest() error {
 
 	}
 	i.logger.Debug().Msgf("[%s] checkManifest prefix", i.GetID())
-	slices.Sort(allPaths)
-	for j := 0; j < len(allPaths)-1; j++ {
-		prefix := strings.TrimRight(allPaths[j+1], "/") + "/"
-		if strings.HasPrefix(allPaths[j], prefix) {
-			i.addValidationError(E101, "content path '%s' is prefix or equal to '%s' in manifest", allPaths[j], prefix)
-		}
+	for _, conflict := range pathConflicts(allPaths) {
+		i.addValidationError(E101, "content path '%s' is used twice or as folder in manifest", conflict)
 	}
 	return nil
 }
@@ -604,12 +604,8 @@ func (i *InventoryBase) checkVersions() error {
 		for _, paths := range version.State.State {
 			logPaths = append(logPaths, paths...)
 		}
-		slices.Sort(logPaths)
-		for j := 0; j < len(logPaths)-1; j++ {
-			prefix := strings.TrimSuffix(logPaths[j], "/") + "/"
-			if strings.HasPrefix(logPaths[j+1], prefix) {
-				i.addValidationError(E095, "logical path '%s' is prefix of '%s'", logPaths[j], logPaths[j+1])
-			}
+		for _, conflict := range pathConflicts(logPaths) {
+			i.addValidationError(E095, "logical path '%s' is used twice or as folder", conflict)
 		}
 	}
 
-- 
2.43.0


From 89bc9884b00494e5715d161b77b811489cee0a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 046/110] fix: unexpected files, empty content folders and
 wrong inventory types are reported

---
 pkg/ocfl/objectbase.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 5f0d947..b776e9c 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1096,7 +1096,7 @@ func (object *ObjectBase) GetVersion() OCFLVersion {
 	return object.version
 }
 
-var allowedFilesRegexp = regexp.MustCompile("^(inventory.json(\\.sha512|\\.sha384|\\.sha256|\\.sha1|\\.md5)?|0=ocfl_object_[0-9]+\\.[0-9]+)$")
+var allowedFilesRegexp = regexp.MustCompile("^inventory\\.json(\\.sha512|\\.sha256)?$")
 
 func (object *ObjectBase) checkVersionFolder(version string) error {
 	versionEntries, err := fs.ReadDir(object.fsys, version)
@@ -1159,12 +1159,21 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 				}
 				path = filepath.ToSlash(path)
 				if d.IsDir() {
+					if strings.HasPrefix(path, versionContent+"/") {
+						entries, err := fs.ReadDir(object.fsys, path)
+						if err != nil {
+							return errors.Wrapf(err, "cannot read '%v/%s'", object.fsys, path)
+						}
+						if len(entries) == 0 {
+							object.addValidationError(E024, "empty directory '%s' in content", path)
+						}
+					}
 					if !strings.HasPrefix(path, versionContent) && path != ver && !strings.HasPrefix(ver+"/"+object.i.GetContentDir(), path) {
 						object.addValidationWarning(W002, "extra dir '%s' in version '%s'", path, ver)
 					}
 				} else {
 					objectFilesFlat = append(objectFilesFlat, path)
-					if strings.HasPrefix(path, versionContent) {
+					if strings.HasPrefix(path, versionContent+"/") {
 						objectContentFiles[ver] = append(objectContentFiles[ver], path)
 						objectContentFilesFlat = append(objectContentFilesFlat, path)
 					} else {
@@ -1448,7 +1457,12 @@ func (object *ObjectBase) Check() error {
 				versionCounter++
 			}
 		} else {
-			if !allowedFilesRegexp.MatchString(entry.Name()) {
+			allowedFiles := []string{
+				"0=ocfl_object_" + string(object.version),
+				"inventory.json",
+				"inventory.json." + string(object.i.GetDigestAlgorithm()),
+			}
+			if !slices.Contains(allowedFiles, entry.Name()) {
 				object.addValidationError(E001, "invalid file '%s' found", entry.Name())
 			}
 		}
@@ -1458,6 +1472,22 @@ func (object *ObjectBase) Check() error {
 		object.addValidationError(E010, "number of versions in inventory (%v) does not fit versions in filesystem (%v)", versionCounter, len(versions))
 	}
 
+	// the extensions folder contains extension folders only
+	extEntries, err := fs.ReadDir(object.fsys, "extensions")
+	if err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return errors.Wrap(err, "cannot read extensions folder")
+	}
+	for _, entry := range extEntries {
+		if !entry.IsDir() {
+			object.addValidationError(E067, "invalid file '%s' in extensions folder", entry.Name())
+		}
+	}
+
+	// type of the inventory has to match the declaration of the object
+	if spec := fmt.Sprintf("https://ocfl.io/%s/spec/#inventory", object.version); string(object.i.GetSpec()) != spec {
+		object.addValidationError(E038, "inventory type '%s' does not match object version '%s'", object.i.GetSpec(), object.version)
+	}
+
 	if err := object.checkFilesAndVersions(); err != nil {
 		return errors.WithStack(err)
 	}
-- 
2.43.0


From a230125ab59b2f527d93375582720aa5d0ffa9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:31 +0000
Subject: [PATCH 047/110] fix: unknown types of version inventories are
 reported

---
 pkg/ocfl/objectbase.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index b776e9c..457af11 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1258,18 +1258,20 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 		}
 	}
 
-	for key := 0; key < len(versionStrings)-1; key++ {
-		v1 := versionStrings[key]
-		vi1, ok := versionInventories[v1]
+	v1 := ""
+	for _, v2 := range versionStrings {
+		vi2, ok := versionInventories[v2]
 		if !ok {
-			object.addValidationWarning(W010, "no inventory for version '%s'", versionStrings[key])
+			// missing inventories are reported already
 			continue
-			// return errors.Errorf("no inventory for version '%s'", versionStrings[key])
 		}
-		v2 := versionStrings[key+1]
-		vi2, ok := versionInventories[v2]
+		if !slices.Contains([]InventorySpec{InventorySpec1_0, InventorySpec1_1}, vi2.GetSpec()) {
+			object.addValidationError(E038, "unknown inventory type '%s' in version '%s'", vi2.GetSpec(), v2)
+			continue
+		}
+		vi1, ok := versionInventories[v1]
+		v1 = v2
 		if !ok {
-			object.addValidationWarning(W000, "no inventory for version '%s'", versionStrings[key+1])
 			continue
 		}
 		if !SpecIsLessOrEqual(vi1.GetSpec(), vi2.GetSpec()) {
-- 
2.43.0


From a725a3d5d78df24cd06c36546cf48c95966377b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 048/110] fix: only complete declaration file names are
 declarations

---
 pkg/ocfl/helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 286f57d..9e3e0ca 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -166,7 +166,7 @@ func GetErrorStacktrace(err error) errors.StackTrace {
 }
 
 func getVersion(ctx context.Context, fsys fs.FS, folder, prefix string) (version OCFLVersion, err error) {
-	rString := fmt.Sprintf("0=%s([0-9]+\\.[0-9]+)", prefix)
+	rString := fmt.Sprintf("^0=%s([0-9]+\\.[0-9]+)$", prefix)
 	r, err := regexp.Compile(rString)
 	if err != nil {
 		return "", errors.Wrapf(err, "cannot compile %s", rString)
-- 
2.43.0


From bc6d8a8a8d95f55f1aff1dccba6e6ca639c04fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 049/110] fix: unreadable ocfl_layout.json and files in the
 extensions folder of the storage root are reported

---
 pkg/ocfl/storagerootbase.go | 41 +++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 2330ee3..e8e29d1 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -531,6 +531,47 @@ func (osr *StorageRootBase) CheckDirectory() (err error) {
 	} else {
 		osr.version = version
 	}
+	if err := osr.checkLayout(); err != nil {
+		return errors.WithStack(err)
+	}
+	// the extensions folder contains extension folders only
+	extEntries, err := fs.ReadDir(osr.fsys, "extensions")
+	if err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return errors.Wrap(err, "cannot read extensions folder")
+	}
+	for _, entry := range extEntries {
+		if !entry.IsDir() {
+			if err := osr.addValidationError(E086, "invalid file '%s' in extensions folder", entry.Name()); err != nil {
+				return errors.Wrapf(err, "cannot add validation error %s", E086)
+			}
+		}
+	}
+	return nil
+}
+
+// checkLayout checks the optional description of the storage layout
+func (osr *StorageRootBase) checkLayout() error {
+	data, err := fs.ReadFile(osr.fsys, "ocfl_layout.json")
+	if err != nil {
+		if errors.Is(err, fs.ErrNotExist) {
+			return nil
+		}
+		return errors.Wrap(err, "cannot read ocfl_layout.json")
+	}
+	layout := map[string]any{}
+	if err := json.Unmarshal(data, &layout); err != nil {
+		if err := osr.addValidationError(E070, "cannot unmarshal ocfl_layout.json: %v", err); err != nil {
+			return errors.Wrapf(err, "cannot add validation error %s", E070)
+		}
+		return nil
+	}
+	for _, key := range []string{"extension", "description"} {
+		if val, ok := layout[key].(string); !ok || (key == "extension" && val == "") {
+			if err := osr.addValidationError(E070, "no valid key '%s' in ocfl_layout.json", key); err != nil {
+				return errors.Wrapf(err, "cannot add validation error %s", E070)
+			}
+		}
+	}
 	return nil
 }
 func (osr *StorageRootBase) CheckObjectByFolder(objectFolder string) error {
-- 
2.43.0


From 9ad2467c0bf12cbd2244658ce2472e38d0d8d8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:07 +0000
Subject: [PATCH 050/110] fix: files of an area with the same content as files
 of other areas are extracted

---
 pkg/ocfl/objectbase.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 457af11..70fea18 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1624,9 +1624,9 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 		for _, external := range externals {
 			external, err = object.extensionManager.BuildObjectExtractPath(object, external, area)
 			if err != nil {
-				errCause := errors.Cause(err)
-				if errors.Is(errCause, ExtensionObjectExtractPathWrongAreaError) {
-					return nil
+				// other names of the same content may belong to the area
+				if errors.Is(err, ExtensionObjectExtractPathWrongAreaError) {
+					continue
 				}
 				return errors.Wrapf(err, "cannot map path '%s'", external)
 			}
-- 
2.43.0


From a134bd70a3742f8dd00996f4bd845e3dc21a9251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:13 +0000
Subject: [PATCH 051/110] fix: extraction does not write outside of the target
 or overwrite extracted files with the manifest

---
 pkg/ocfl/objectbase.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 70fea18..d0c31b8 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1620,6 +1620,7 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 	var manifest strings.Builder
 	var err error
 	var digestAlg = object.i.GetDigestAlgorithm()
+	var manifestName = fmt.Sprintf("manifest.%s", digestAlg)
 	if err := object.i.IterateStateFiles(version, func(internals, externals []string, digest string) error {
 		for _, external := range externals {
 			external, err = object.extensionManager.BuildObjectExtractPath(object, external, area)
@@ -1630,6 +1631,13 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 				}
 				return errors.Wrapf(err, "cannot map path '%s'", external)
 			}
+			// never write outside of the target
+			if !fs.ValidPath(external) || !filepath.IsLocal(filepath.FromSlash(external)) {
+				return errors.Errorf("invalid path '%s' in version '%s'", external, version)
+			}
+			if withManifest && external == manifestName {
+				return errors.Errorf("file '%s' has the name of the manifest", external)
+			}
 			if err := func() error {
 				if len(internals) == 0 {
 					return errors.Errorf("no internal paths for '%v'", externals)
@@ -1670,7 +1678,6 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 		return errors.Wrap(err, "cannot iterate external files")
 	}
 	if withManifest {
-		manifestName := fmt.Sprintf("manifest.%s", digestAlg)
 		fp, err := writefs.Create(fsys, manifestName)
 		if err != nil {
 			return errors.Wrapf(err, "cannot crate manifest file %v/%s", fsys, manifestName)
-- 
2.43.0


From d61b71fb209dd419bfb125f19440e007b4311c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:20 +0000
Subject: [PATCH 052/110] fix: objects with upper case digests can be extracted

---
 pkg/ocfl/objectbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index d0c31b8..c3378db 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1662,7 +1662,7 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 				if !ok {
 					return errors.Errorf("no digest '%s' generatied", digestAlg)
 				}
-				if copyDigest != digest {
+				if !strings.EqualFold(copyDigest, digest) {
 					return errors.Errorf("invalid digest for '%s' - [%s] != [%s]", internal, copyDigests, digest)
 				}
 				return nil
-- 
2.43.0


From 96a64a7a8bb5d7af9cfb46d2e154ad460e9992be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:56 +0000
Subject: [PATCH 053/110] fix: all objects of a storage root can be extracted
 at once

---
 pkg/ocfl/helper.go          | 13 +++++++++++++
 pkg/ocfl/storagerootbase.go |  4 ++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 9e3e0ca..834260e 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -220,6 +220,19 @@ func extensionsFS(fsys fs.FS) (fs.FS, error) {
 	return extFS, nil
 }
 
+// subFSCreateAll creates a folder with all its parents
+func subFSCreateAll(fsys fs.FS, folder string) (fs.FS, error) {
+	parts := strings.Split(folder, "/")
+	for i := 1; i < len(parts); i++ {
+		parent := strings.Join(parts[:i], "/")
+		if err := writefs.MkDir(fsys, parent); err != nil && !errors.Is(err, fs.ErrExist) {
+			return nil, errors.Wrapf(err, "cannot create folder '%s' in %v", parent, fsys)
+		}
+	}
+	subFS, err := writefs.SubFSCreate(fsys, folder)
+	return subFS, errors.WithStack(err)
+}
+
 // pathConflicts returns the paths, which occur more than once or are used as folder by another path
 func pathConflicts(paths []string) []string {
 	folders := map[string]bool{}
diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index e8e29d1..a3c0d74 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -769,11 +769,11 @@ func (osr *StorageRootBase) Extract(fsys fs.FS, path, id, version string, withMa
 			if err != nil {
 				return errors.Wrapf(err, "cannot open object in folder '%s'", oFolder)
 			}
-			subFS, err := fs.Sub(fsys, oFolder)
+			subFS, err := subFSCreateAll(fsys, oFolder)
 			if err != nil {
 				return errors.Wrapf(err, "cannot create subfolder '%s' of '%v'", oFolder, fsys)
 			}
-			if err := o.Extract(subFS, version, withManifest, ""); err != nil {
+			if err := o.Extract(subFS, version, withManifest, area); err != nil {
 				return errors.Wrapf(err, "cannot extract object in folder '%s'", oFolder)
 			}
 		}
-- 
2.43.0


From 1f0bfbd5abad99eecdd4685b998c61c4f09702da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:09 +0000
Subject: [PATCH 054/110] fix: errors while writing and closing extracted files
 are reported

---
 pkg/ocfl/objectbase.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index c3378db..b66ee62 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1648,13 +1648,23 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 					return errors.Wrapf(err, "cannot open '%v/%s'", object.fsys, internal)
 				}
 				defer src.Close()
-				target, err := writefs.Create(fsys, external)
+				writer, err := writefs.Create(fsys, external)
 				if err != nil {
 					return errors.Wrapf(err, "cannot create '%v/%s'", fsys, external)
 				}
-				defer target.Close()
+				writerOpen := true
+				defer func() {
+					if writerOpen {
+						writer.Close()
+					}
+				}()
+				// checksum.Copy() does not end, if one of the writers fails
+				target := &errorWriter{w: writer}
 				object.logger.Debug().Msgf("writing '%v/%s' -> '%v/%s'", object.fsys, internal, fsys, external)
 				copyDigests, err := checksum.Copy([]checksum.DigestAlgorithm{digestAlg}, src, target)
+				if err == nil {
+					err = target.err
+				}
 				if err != nil {
 					return errors.Wrapf(err, "error copying '%v/%s' -> '%v/%s'", object.fsys, internal, fsys, external)
 				}
@@ -1665,6 +1675,10 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 				if !strings.EqualFold(copyDigest, digest) {
 					return errors.Errorf("invalid digest for '%s' - [%s] != [%s]", internal, copyDigests, digest)
 				}
+				writerOpen = false
+				if err := writer.Close(); err != nil {
+					return errors.Wrapf(err, "cannot close '%v/%s'", fsys, external)
+				}
 				return nil
 			}(); err != nil {
 				return err
@@ -1683,9 +1697,12 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 			return errors.Wrapf(err, "cannot crate manifest file %v/%s", fsys, manifestName)
 		}
 		if _, err := io.WriteString(fp, manifest.String()); err != nil {
+			fp.Close()
 			return errors.Wrapf(err, "cannot write manifest file %v/%s", fsys, manifestName)
 		}
-		defer fp.Close()
+		if err := fp.Close(); err != nil {
+			return errors.Wrapf(err, "cannot close manifest file %v/%s", fsys, manifestName)
+		}
 	}
 	object.logger.Debug().Msgf("object '%s' extracted", object.GetID())
 	return nil
-- 
2.43.0


From ce4f032b37a4f6bcc15435bc2deb03b49a819192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 055/110] fix: files with several names are listed once in the
 manifest

---
 pkg/ocfl/inventorybase.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index cb06a8b..dc71971 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -998,8 +998,11 @@ func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string
 			if _, ok := i.Manifest.Manifest[digest]; !ok {
 				i.Manifest.Manifest[digest] = []string{}
 			}
-			i.Manifest.Manifest[digest] = append(i.Manifest.Manifest[digest], manifestFilename)
-			i.modified = true
+			// one file may have several names
+			if !slices.Contains(i.Manifest.Manifest[digest], manifestFilename) {
+				i.Manifest.Manifest[digest] = append(i.Manifest.Manifest[digest], manifestFilename)
+				i.modified = true
+			}
 		}
 
 		if _, ok := i.Versions.Versions[i.Head.string].State.State[digest]; !ok {
-- 
2.43.0


From 97a029757af41b2b6542bc9820fb20922448601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:39 +0000
Subject: [PATCH 056/110] fix: refused fixity algorithms do not leave an
 unusable object

---
 pkg/ocfl/helper.go          | 16 ++++++++++++++++
 pkg/ocfl/objectbase.go      | 16 ++++------------
 pkg/ocfl/storagerootbase.go |  4 ++++
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 834260e..c516fa0 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"github.com/andybalholm/brotli"
 	"github.com/je4/filesystem/v3/pkg/writefs"
+	"github.com/je4/utils/v2/pkg/checksum"
 	"github.com/je4/utils/v2/pkg/errorDetails"
 	"github.com/je4/utils/v2/pkg/zLogger"
 	"golang.org/x/exp/constraints"
@@ -220,6 +221,21 @@ func extensionsFS(fsys fs.FS) (fs.FS, error) {
 	return extFS, nil
 }
 
+// checkFixityDigests returns an error if fixity contains algorithms, which are not permitted
+func checkFixityDigests(manager ExtensionManager, fixity []checksum.DigestAlgorithm) error {
+	algs := []checksum.DigestAlgorithm{
+		checksum.DigestSHA512,
+		checksum.DigestSHA256,
+	}
+	algs = append(algs, manager.GetFixityDigests()...)
+	slices.Sort(algs)
+	algs = slices.Compact(algs)
+	if !sliceContains(algs, fixity) {
+		return errors.Errorf("forbidden digest algorithm for fixity %v. Supported algorithms are %v. (to fix try to use extension 0001-digest-algorithms)", fixity, algs)
+	}
+	return nil
+}
+
 // subFSCreateAll creates a folder with all its parents
 func subFSCreateAll(fsys fs.FS, folder string) (fs.FS, error) {
 	parts := strings.Split(folder, "/")
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index b66ee62..ca9698c 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -433,6 +433,10 @@ func (object *ObjectBase) Init(id string, digest checksum.DigestAlgorithm, fixit
 
 	object.extensionManager = extensionManager
 
+	if err := checkFixityDigests(extensionManager, fixity); err != nil {
+		return errors.WithStack(err)
+	}
+
 	// first check whether object is not empty
 	fp, err := object.fsys.Open(objectConformanceDeclarationFile)
 	if err == nil {
@@ -467,18 +471,6 @@ func (object *ObjectBase) Init(id string, digest checksum.DigestAlgorithm, fixit
 	}
 	object.extensionManager.SetFS(subfs, true)
 
-	// check fixity here
-	algs := []checksum.DigestAlgorithm{
-		checksum.DigestSHA512,
-		checksum.DigestSHA256,
-	}
-	algs = append(algs, object.extensionManager.GetFixityDigests()...)
-	slices.Sort(algs)
-	algs = slices.Compact(algs)
-	if !sliceContains(algs, fixity) {
-		return errors.Errorf("forbidden digest algorithm for fixity %v. Supported algorithms are %v. (to fix try to use extension 0001-digest-algorithms)", fixity, algs)
-	}
-
 	if object.i, err = object.CreateInventory(id, digest, fixity); err != nil {
 		return errors.Wrapf(err, "cannot create inventory of '%s'", id)
 	}
diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index a3c0d74..aab9b21 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -394,6 +394,10 @@ func (osr *StorageRootBase) LoadObjectByID(id string) (object Object, err error)
 }
 
 func (osr *StorageRootBase) CreateObject(id string, version OCFLVersion, digest checksum.DigestAlgorithm, fixity []checksum.DigestAlgorithm, manager ExtensionManager) (Object, error) {
+	// check before anything is written
+	if err := checkFixityDigests(manager, fixity); err != nil {
+		return nil, errors.Wrapf(err, "cannot create object '%s'", id)
+	}
 	folder, err := osr.extensionManager.BuildStorageRootPath(osr, id)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create folder from id '%s'", id)
-- 
2.43.0


From 51040f808c10f9331e48df193958558d8120fba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:02 +0000
Subject: [PATCH 057/110] fix: an object with another id in the same folder is
 not loaded

---
 pkg/ocfl/storagerootbase.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index aab9b21..cf88f44 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -390,7 +390,15 @@ func (osr *StorageRootBase) LoadObjectByID(id string) (object Object, err error)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create folder from id '%s'", id)
 	}
-	return osr.LoadObjectByFolder(folder)
+	object, err = osr.LoadObjectByFolder(folder)
+	if err != nil {
+		return nil, err
+	}
+	// several ids may be mapped to the same folder
+	if object.GetID() != id {
+		return nil, errors.Errorf("folder '%s' of object '%s' contains object '%s'", folder, id, object.GetID())
+	}
+	return object, nil
 }
 
 func (osr *StorageRootBase) CreateObject(id string, version OCFLVersion, digest checksum.DigestAlgorithm, fixity []checksum.DigestAlgorithm, manager ExtensionManager) (Object, error) {
-- 
2.43.0


From 0f31c0cddcac9ceb700d880e4713f38481381483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:13 +0000
Subject: [PATCH 058/110] fix: objects without id are not created

---
 pkg/ocfl/storagerootbase.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index cf88f44..a334545 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -403,6 +403,9 @@ func (osr *StorageRootBase) LoadObjectByID(id string) (object Object, err error)
 
 func (osr *StorageRootBase) CreateObject(id string, version OCFLVersion, digest checksum.DigestAlgorithm, fixity []checksum.DigestAlgorithm, manager ExtensionManager) (Object, error) {
 	// check before anything is written
+	if id == "" {
+		return nil, errors.New("cannot create object without id")
+	}
 	if err := checkFixityDigests(manager, fixity); err != nil {
 		return nil, errors.Wrapf(err, "cannot create object '%s'", id)
 	}
@@ -436,7 +439,7 @@ func (osr *StorageRootBase) CreateObject(id string, version OCFLVersion, digest
 		return nil, errors.Wrap(err, "cannot initialize object")
 	}
 
-	if id != "" && object.GetID() != id {
+	if object.GetID() != id {
 		return nil, fmt.Errorf("id mismatch. '%s' != '%s'", id, object.GetID())
 	}
 
-- 
2.43.0


From 72f16184428ab172240a810285a4e90ca8b47e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:34 +0000
Subject: [PATCH 059/110] fix: fixity values of all files with the same content
 are part of the metadata

---
 pkg/ocfl/objectbase.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index ca9698c..8412423 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -139,7 +139,12 @@ func (object *ObjectBase) GetMetadata() (*ObjectMetadata, error) {
 			VersionName:  map[string][]string{},
 			Extension:    map[string]any{},
 		}
-		fm.Checksums = fixity.Checksums(fnames[0])
+		// fixity values may be known for some of the files only
+		for _, fname := range fnames {
+			for alg, cs := range fixity.Checksums(fname) {
+				fm.Checksums[alg] = cs
+			}
+		}
 		for v, version := range versions {
 			for d, fnames := range version.State.State {
 				if digest == d {
-- 
2.43.0


From a371a063aee73d0e08e86d6a03194ec82e17ca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:25 +0000
Subject: [PATCH 060/110] fix: files are not renamed to existing or invalid
 logical paths

---
 pkg/extension/NNNN-migration.go |  7 ++++---
 pkg/ocfl/inventorybase.go       | 10 ++++++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index 34cbe4f..d299e2b 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -362,10 +362,11 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 					if slices.Contains(targetNames, src) {
 						continue
 					}
-					var dest string
-					if !isMigrated {
-						dest = filepath.ToSlash(filepath.Join(filepath.Dir(src), filepath.Base(src), filepath.Base(src)))
+					// results of former migrations are in their folder already
+					if isMigrated {
+						continue
 					}
+					dest := filepath.ToSlash(filepath.Join(filepath.Dir(src), filepath.Base(src), filepath.Base(src)))
 					if err := object.RenameFile(src, dest, cs); err != nil {
 						return errors.Wrapf(err, "cannot delete file '%s' in object '%s'", src, object.GetID())
 					}
diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index dc71971..2446d03 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -8,6 +8,7 @@ import (
 	"github.com/je4/utils/v2/pkg/uri"
 	"github.com/je4/utils/v2/pkg/zLogger"
 	"golang.org/x/exp/slices"
+	"io/fs"
 	"net/url"
 	"path/filepath"
 	"regexp"
@@ -917,6 +918,15 @@ func (i *InventoryBase) DeleteFile(stateFilename string) error {
 }
 
 func (i *InventoryBase) RenameFile(stateSource, stateDest string) error {
+	if stateSource == stateDest {
+		return nil
+	}
+	if stateDest == "." || !fs.ValidPath(stateDest) {
+		return errors.Errorf("invalid logical path '%s'", stateDest)
+	}
+	if i.headDigest(stateDest) != "" {
+		return errors.Errorf("cannot rename '%s': logical path '%s' already exists", stateSource, stateDest)
+	}
 	var newState = map[string][]string{}
 	var found = false
 	for key, state := range i.Versions.Versions[i.GetHead()].State.State {
-- 
2.43.0


From fd3e9e646fbfc31ac68fd87ae4a0a3e47bbd5e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:31 +0000
Subject: [PATCH 061/110] fix: content added in an update is not overwritten by
 other content

---
 pkg/ocfl/objectbase.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 8412423..d8fb50d 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -694,6 +694,12 @@ func (ew *errorWriter) Write(p []byte) (int, error) {
 	return len(p), nil
 }
 
+type discardCloser struct {
+	io.Writer
+}
+
+func (discardCloser) Close() error { return nil }
+
 func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *NamesStruct, noExtensionHook bool) (string, error) {
 
 	digestAlgorithms := object.i.GetFixityDigestAlgorithm()
@@ -706,9 +712,22 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 		digestAlgorithms = append(digestAlgorithms, object.i.GetDigestAlgorithm())
 	}
 
-	writer, err := writefs.Create(object.fsys, names.ManifestPath)
-	if err != nil {
-		return "", errors.Wrapf(err, "cannot create '%s'", names.ManifestPath)
+	// content, which is part of the manifest, must not be overwritten
+	var manifestDigest string
+	for cs, paths := range object.i.GetManifest() {
+		if slices.Contains(paths, names.ManifestPath) {
+			manifestDigest = cs
+		}
+	}
+	var writer io.WriteCloser
+	var err error
+	if manifestDigest != "" {
+		writer = discardCloser{io.Discard}
+	} else {
+		writer, err = writefs.Create(object.fsys, names.ManifestPath)
+		if err != nil {
+			return "", errors.Wrapf(err, "cannot create '%s'", names.ManifestPath)
+		}
 	}
 	closed := false
 	defer func() {
@@ -774,6 +793,9 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 	} else {
 		checksums[object.i.GetDigestAlgorithm()] = digest
 	}
+	if manifestDigest != "" && manifestDigest != digest {
+		return "", errors.Errorf("'%s' already exists with other content", names.ManifestPath)
+	}
 	if err := object.i.AddFile(names.ExternalPaths, names.ManifestPath, checksums); err != nil {
 		return "", errors.Wrapf(err, "cannot append '%v'/'%s' to inventory", names.ExternalPaths, names.InternalPath)
 	}
-- 
2.43.0


From 9696244c52e644d946a9678f6373aff33a8e41ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 062/110] fix: digests of existing content are not case
 sensitive

---
 pkg/ocfl/inventorybase.go | 23 +++++++++++++++++++----
 pkg/ocfl/objectbase.go    |  2 +-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 2446d03..fea7585 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -797,13 +797,26 @@ func (i *InventoryBase) GetDuplicates(checksum string) []string {
 		return nil
 	}
 	for cs, files := range i.Manifest.Manifest {
-		if cs == checksum {
+		if strings.EqualFold(cs, checksum) {
 			return files
 		}
 	}
 	return nil
 }
 
+// recordedDigest returns the digest as it is written in the manifest, since digests are not case sensitive
+func recordedDigest(digests map[string][]string, digest string) string {
+	if _, ok := digests[digest]; ok {
+		return digest
+	}
+	for cs := range digests {
+		if strings.EqualFold(cs, digest) {
+			return cs
+		}
+	}
+	return digest
+}
+
 // headDigest returns the digest of a logical path in the head version, "" if the path is not part of it
 func (i *InventoryBase) headDigest(stateFilename string) string {
 	version, ok := i.Versions.Versions[i.GetHead()]
@@ -820,7 +833,7 @@ func (i *InventoryBase) headDigest(stateFilename string) string {
 
 func (i *InventoryBase) AlreadyExists(stateFilename, checksum string) (bool, error) {
 	i.logger.Debug().Msgf("'%s' [%s]", stateFilename, checksum)
-	dup := checksum != "" && i.headDigest(stateFilename) == checksum
+	dup := checksum != "" && strings.EqualFold(i.headDigest(stateFilename), checksum)
 	i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, dup)
 	return dup, nil
 }
@@ -830,7 +843,7 @@ func (i *InventoryBase) IsUpdate(virtualFilename, checksum string) (bool, error)
 	var upd bool
 	if checksum != "" {
 		headDigest := i.headDigest(virtualFilename)
-		upd = headDigest != "" && headDigest != checksum
+		upd = headDigest != "" && !strings.EqualFold(headDigest, checksum)
 	}
 	i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, upd)
 	return upd, nil
@@ -951,6 +964,7 @@ func (i *InventoryBase) RenameFile(stateSource, stateDest string) error {
 func (i *InventoryBase) CopyFile(dest string, digest string) error {
 	i.logger.Info().Msgf("[%s] copying '%s' -> '%s'", i.GetID(), digest, dest)
 
+	digest = recordedDigest(i.Manifest.Manifest, digest)
 	if _, ok := i.Manifest.Manifest[digest]; !ok {
 		return errors.Errorf("cannot find file with digest '%s'", digest)
 	}
@@ -973,7 +987,7 @@ func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string
 	if !ok {
 		return errors.Errorf("no digest for '%s' in checksums", i.GetDigestAlgorithm())
 	}
-	digest = strings.ToLower(digest) // paranoia
+	digest = recordedDigest(i.Manifest.Manifest, strings.ToLower(digest)) // paranoia
 
 	for alg, fixityDigest := range checksums {
 		if alg == i.GetDigestAlgorithm() {
@@ -985,6 +999,7 @@ func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string
 		if _, ok := i.Fixity[alg]; !ok {
 			i.Fixity[alg] = map[string][]string{}
 		}
+		fixityDigest = recordedDigest(i.Fixity[alg], fixityDigest)
 		if _, ok := i.Fixity[alg][fixityDigest]; !ok {
 			i.Fixity[alg][fixityDigest] = []string{}
 		}
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index d8fb50d..f98c094 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -793,7 +793,7 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 	} else {
 		checksums[object.i.GetDigestAlgorithm()] = digest
 	}
-	if manifestDigest != "" && manifestDigest != digest {
+	if manifestDigest != "" && !strings.EqualFold(manifestDigest, digest) {
 		return "", errors.Errorf("'%s' already exists with other content", names.ManifestPath)
 	}
 	if err := object.i.AddFile(names.ExternalPaths, names.ManifestPath, checksums); err != nil {
-- 
2.43.0


From fd4e9964b3c89648189826ad542d53bb5b822397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 063/110] fix: a failure to close metadata files of extensions
 is reported

---
 pkg/ocfl/helper.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index c516fa0..5676637 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -551,10 +551,13 @@ func WriteJsonL(object Object, name string, brotliData []byte, compress, storage
 		if err != nil {
 			return errors.Wrapf(err, "cannot create '%v/%s'", fsys, targetname)
 		}
-		defer fp.Close()
 		if _, err := io.Copy(fp, reader); err != nil {
+			fp.Close()
 			return errors.Wrapf(err, "cannot write '%v/%s'", fsys, targetname)
 		}
+		if err := fp.Close(); err != nil {
+			return errors.Wrapf(err, "cannot close '%v/%s'", fsys, targetname)
+		}
 	default:
 		return errors.Errorf("unsupported storage type '%s'", storageType)
 	}
-- 
2.43.0


From 244d5701560f4388595f5a847733f0b381202506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:13 +0000
Subject: [PATCH 064/110] fix: folder entries of the filesystem extension have
 the path of their file, which is not removed by echo

---
 pkg/extension/NNNN-filesystem.go | 39 ++++++--------------------------
 1 file changed, 7 insertions(+), 32 deletions(-)

diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index 21b5208..7a0c127 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -9,7 +9,6 @@ import (
 	"github.com/andybalholm/brotli"
 	"github.com/je4/filesystem/v3/pkg/writefs"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
-	"github.com/je4/utils/v2/pkg/checksum"
 	"github.com/je4/utils/v2/pkg/zLogger"
 	"golang.org/x/exp/slices"
 	"io"
@@ -115,18 +114,6 @@ func (extFS *Filesystem) AddFileAfter(object ocfl.Object, sourceFS fs.FS, source
 
 	inventory := object.GetInventory()
 
-	var err error
-	var emptyChecksum string
-	var emptyExists bool
-	if isDir && extFS.Folders != "" {
-		emptyChecksum, err = checksum.Checksum(bytes.NewReader([]byte{}), inventory.GetDigestAlgorithm())
-		if err != nil {
-			return errors.Wrap(err, "cannot calculate checksum for empty file")
-		}
-		manifest := inventory.GetManifest()
-		_, emptyExists = manifest[emptyChecksum]
-	}
-
 	head := inventory.GetHead()
 	if _, ok := extFS.buffer[head]; !ok {
 		extFS.buffer[head] = &bytes.Buffer{}
@@ -159,27 +146,15 @@ func (extFS *Filesystem) AddFileAfter(object ocfl.Object, sourceFS fs.FS, source
 		}
 
 		if isDir {
+			// folders are represented by an empty file
 			newEmptyFile := filepath.ToSlash(filepath.Join(src, extFS.Folders))
-			if !emptyExists {
-				if _, err := object.AddReader(io.NopCloser(bytes.NewReader([]byte{})), []string{newEmptyFile}, area, true, false); err != nil {
-					return errors.Wrapf(err, "cannot add empty file '%s'", newEmptyFile)
-				}
-				emptyExists = true
-			} else {
-				// todo: make it more elegant
-				names, err := object.BuildNames([]string{newEmptyFile}, area)
-				if err != nil {
-					return errors.Wrapf(err, "cannot build names for '%s'", newEmptyFile)
-				}
-				if len(names.ExternalPaths) == 0 {
-					return errors.Errorf("cannot build external names for '%s'", newEmptyFile)
-				}
-				newEmptyFile = names.ExternalPaths[0]
-				if err := inventory.CopyFile(names.ExternalPaths[0], emptyChecksum); err != nil {
-					return errors.Wrapf(err, "cannot copy empty file to '%s'", newEmptyFile)
-				}
+			if err := object.AddData([]byte{}, newEmptyFile, true, area, true, false); err != nil {
+				return errors.Wrapf(err, "cannot add empty file '%s'", newEmptyFile)
+			}
+			newSrc, err = object.GetExtensionManager().BuildObjectStatePath(object, newEmptyFile, area)
+			if err != nil {
+				return errors.Wrapf(err, "cannot build object state path for '%s'", newEmptyFile)
 			}
-			newSrc = newEmptyFile
 		}
 
 		fsLine := &FileSystemLine{
-- 
2.43.0


From 3e2e0fa6960b12d99b9e9d7292014c6d8950b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:16 +0000
Subject: [PATCH 065/110] fix: metadata of the indexer is available for objects
 with versions without new content

---
 pkg/extension/NNNN-indexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/extension/NNNN-indexer.go b/pkg/extension/NNNN-indexer.go
index 052e711..38a722d 100644
--- a/pkg/extension/NNNN-indexer.go
+++ b/pkg/extension/NNNN-indexer.go
@@ -286,6 +286,10 @@ func (sl *Indexer) GetMetadata(object ocfl.Object) (map[string]any, error) {
 		} else {
 			data, err = ocfl.ReadJsonL(object, "indexer", v, sl.IndexerConfig.Compress, sl.StorageType, sl.StorageName, sl.fsys)
 			if err != nil {
+				// versions without new content have no indexer file
+				if errors.Is(err, fs.ErrNotExist) {
+					continue
+				}
 				return nil, errors.Wrapf(err, "cannot read jsonl for '%s' version '%s'", object.GetID(), v)
 			}
 		}
-- 
2.43.0


From e76ea005772128371211321b6aeb51345330790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:54 +0000
Subject: [PATCH 066/110] fix: metadata files with storage type path are stored
 where they are read (once below the content area)

---
 pkg/extension/NNNN-metafile.go |  9 ++--
 pkg/ocfl/helper.go             | 80 +++++++++++++---------------------
 2 files changed, 33 insertions(+), 56 deletions(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 3ba79c2..0e8f37d 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -316,14 +316,11 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot write '%s'", targetname)
 		}
 	case "path":
-		path, err := object.GetAreaPath("content")
-		if err != nil {
-			return errors.Wrapf(err, "cannot get area path for '%s'", "content")
-		}
-		targetname := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, sl.StorageName, sl.MetaName)), "/")
+		// the prefix of the area is added by AddReader()
+		targetname := strings.TrimLeft(filepath.ToSlash(filepath.Join(sl.StorageName, sl.MetaName)), "/")
 
 		//targetname := fmt.Sprintf("%s/%s_%s.jsonl%s", name, storageName, head, ext)
-		if _, err := object.AddReader(io.NopCloser(bytes.NewBuffer(infoData)), []string{targetname}, "", true, false); err != nil {
+		if _, err := object.AddReader(io.NopCloser(bytes.NewBuffer(infoData)), []string{targetname}, "content", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", targetname)
 		}
 	case "extension":
diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 5676637..5c82f04 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -17,6 +17,7 @@ import (
 	"io"
 	"io/fs"
 	"os"
+	"path"
 	"path/filepath"
 	"regexp"
 	"runtime"
@@ -401,29 +402,33 @@ func CleanPath(fname string, MaxFilenameLength, MaxPathnameLength int) (string,
 	return fname, nil
 }
 
-func ReadFile(object Object, name, version, storageType, storageName string, fsys fs.FS) ([]byte, error) {
-	var targetname string
-	switch storageType {
+// storageTarget returns the place of a file which is stored according to storage type and name
+func storageTarget(object Object, filename, version, storageType, storageName string, fsys fs.FS) (fs.FS, string, error) {
+	var area string
+	switch strings.ToLower(storageType) {
 	case "area":
-		path, err := object.GetAreaPath(storageName)
-		if err != nil {
-			return nil, errors.Wrapf(err, "cannot get area path for '%s'", storageName)
-		}
-		targetname = object.GetInventory().BuildManifestNameVersion(fmt.Sprintf("%s/%s", path, name), version)
-		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", version, path, version, ext)
-		fsys = object.GetFS()
+		area = storageName
 	case "path":
-		path, err := object.GetAreaPath("content")
-		if err != nil {
-			return nil, errors.Wrapf(err, "cannot get area path for '%s'", "content")
-		}
-		targetname = object.GetInventory().BuildManifestNameVersion(fmt.Sprintf("%s/%s/%s", path, storageName, name), version)
-		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", v, sl.IndexerConfig.StorageName, v, ext)
-		fsys = object.GetFS()
+		area = "content"
+		filename = path.Join(storageName, filename)
 	case "extension":
-		targetname = strings.TrimLeft(fmt.Sprintf("%s/%s", storageName, name), "/")
+		return fsys, strings.TrimLeft(path.Join(storageName, filename), "/"), nil
 	default:
-		return nil, errors.Errorf("unsupported storage type '%s'", storageType)
+		return nil, "", errors.Errorf("unsupported storage type '%s'", storageType)
+	}
+	filename = strings.TrimLeft(filename, "/")
+	// same path as in BuildNames()
+	internal, err := object.GetExtensionManager().BuildObjectManifestPath(object, filename, area)
+	if err != nil {
+		return nil, "", errors.Wrapf(err, "cannot create manifest path for '%s'", filename)
+	}
+	return object.GetFS(), object.GetInventory().BuildManifestNameVersion(internal, version), nil
+}
+
+func ReadFile(object Object, name, version, storageType, storageName string, fsys fs.FS) ([]byte, error) {
+	fsys, targetname, err := storageTarget(object, name, version, storageType, storageName, fsys)
+	if err != nil {
+		return nil, err
 	}
 
 	return fs.ReadFile(fsys, targetname)
@@ -443,28 +448,9 @@ func ReadJsonL(object Object, name, version, compress, storageType, storageName
 	default:
 		return nil, errors.Errorf("invalid compression '%s'", compress)
 	}
-	var targetname string
-	switch storageType {
-	case "area":
-		path, err := object.GetAreaPath(storageName)
-		if err != nil {
-			return nil, errors.Wrapf(err, "cannot get area path for '%s'", storageName)
-		}
-		targetname = object.GetInventory().BuildManifestNameVersion(fmt.Sprintf("%s/%s_%s.jsonl%s", path, name, version, ext), version)
-		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", version, path, version, ext)
-		fsys = object.GetFS()
-	case "path":
-		path, err := object.GetAreaPath("content")
-		if err != nil {
-			return nil, errors.Wrapf(err, "cannot get area path for '%s'", "content")
-		}
-		targetname = object.GetInventory().BuildManifestNameVersion(fmt.Sprintf("%s/%s/%s_%s.jsonl%s", path, storageName, name, version, ext), version)
-		//targetname = fmt.Sprintf("%s/content/%s/indexer_%s.jsonl%s", v, sl.IndexerConfig.StorageName, v, ext)
-		fsys = object.GetFS()
-	case "extension":
-		targetname = strings.TrimLeft(fmt.Sprintf("%s/%s_%s.jsonl%s", storageName, name, version, ext), "/")
-	default:
-		return nil, errors.Errorf("unsupported storage type '%s'", storageType)
+	fsys, targetname, err := storageTarget(object, fmt.Sprintf("%s_%s.jsonl%s", name, version, ext), version, storageType, storageName, fsys)
+	if err != nil {
+		return nil, err
 	}
 
 	var reader io.Reader
@@ -535,18 +521,12 @@ func WriteJsonL(object Object, name string, brotliData []byte, compress, storage
 			return errors.Wrapf(err, "cannot write '%s'", targetname)
 		}
 	case "path":
-		path, err := object.GetAreaPath("content")
-		if err != nil {
-			return errors.Wrapf(err, "cannot get area path for '%s'", "content")
-		}
-		targetname := fmt.Sprintf("%s/%s/%s_%s.jsonl%s", path, storageName, name, head, ext)
-
-		//targetname := fmt.Sprintf("%s/%s_%s.jsonl%s", name, storageName, head, ext)
-		if _, err := object.AddReader(io.NopCloser(reader), []string{targetname}, "", true, false); err != nil {
+		targetname := strings.TrimLeft(path.Join(storageName, fmt.Sprintf("%s_%s.jsonl%s", name, head, ext)), "/")
+		if _, err := object.AddReader(io.NopCloser(reader), []string{targetname}, "content", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", targetname)
 		}
 	case "extension":
-		targetname := strings.TrimLeft(fmt.Sprintf("%s/%s_%s.jsonl%s", storageName, name, head, ext), "/")
+		targetname := strings.TrimLeft(path.Join(storageName, fmt.Sprintf("%s_%s.jsonl%s", name, head, ext)), "/")
 		fp, err := writefs.Create(fsys, targetname)
 		if err != nil {
 			return errors.Wrapf(err, "cannot create '%v/%s'", fsys, targetname)
-- 
2.43.0


From bdd2717c4c3e33ee0bf05bdf1de6195a973988a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:52 +0000
Subject: [PATCH 067/110] fix: updates without changes do not store a version
 when following another update in the same session

---
 pkg/ocfl/inventorybase.go |  6 +++++-
 pkg/ocfl/objectbase.go    | 14 +++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index fea7585..4e8f24d 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -757,6 +757,8 @@ func (i *InventoryBase) NewVersion(msg, UserName, UserAddress string) error {
 	// copy last state...
 	if lastHead != "" {
 		copyMapStringSlice(i.Versions.Versions[i.Head.string].State.State, i.Versions.Versions[lastHead].State.State)
+		// equal to the last version
+		i.modified = false
 	} else {
 		// the first version must be stored, even if it contains no file
 		i.modified = true
@@ -1059,7 +1061,7 @@ func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string
 func (i *InventoryBase) Clean() error {
 	i.logger.Debug()
 	// read only means nothing to do
-	if i.IsModified() {
+	if i.IsModified() || !i.IsWriteable() {
 		return nil
 	}
 	// only one version. could be empty
@@ -1074,5 +1076,7 @@ func (i *InventoryBase) Clean() error {
 	}
 	i.Head.string = lastVersion
 	i.Head.err = nil
+	// there is no version to write to any more
+	i.writeable = false
 	return nil
 }
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index f98c094..338481a 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -43,6 +43,7 @@ type ObjectBase struct {
 	updateAreas        []string // areas which get files by the current update
 	areaDone           bool     // some area of the current update is already ended
 	area               string
+	stored             bool // versions have been stored since the object was opened
 }
 
 // newObjectBase creates an empty ObjectBase structure
@@ -347,7 +348,7 @@ func (object *ObjectBase) StoreInventory(version bool, objectRoot bool) error {
 	object.logger.Debug()
 
 	// check whether object filesystem is writeable
-	if !object.i.IsWriteable() {
+	if !object.i.IsWriteable() && !object.stored {
 		return errors.New("inventory not writeable - not updated")
 	}
 
@@ -537,11 +538,8 @@ func (object *ObjectBase) echoDelete(area string) error {
 
 func (object *ObjectBase) Close() error {
 	object.logger.Info().Msgf(fmt.Sprintf("Closing object '%s'", object.GetID()))
-	if !(object.i.IsWriteable()) {
-		return nil
-	}
-
-	if !object.i.IsModified() {
+	// stored versions need the inventory of the object, even if there was an update without changes afterwards
+	if !object.stored && !(object.i.IsWriteable() && object.i.IsModified()) {
 		return nil
 	}
 	object.storageRoot.setModified()
@@ -601,7 +599,8 @@ func (object *ObjectBase) EndUpdate() error {
 	}
 	if !(object.i.IsModified()) {
 		object.logger.Info().Msgf(fmt.Sprintf("object '%s' not modified", object.GetID()))
-		return nil
+		// the version is not stored
+		return errors.Wrap(object.i.Clean(), "cannot clean inventory")
 	}
 
 	if err := object.extensionManager.UpdateObjectAfter(object); err != nil {
@@ -617,6 +616,7 @@ func (object *ObjectBase) EndUpdate() error {
 	if err := object.StoreInventory(true, false); err != nil {
 		return errors.Wrap(err, "cannot store inventory")
 	}
+	object.stored = true
 
 	if needVersion, err := object.extensionManager.NeedNewVersion(object); err != nil {
 		return errors.Wrapf(err, "cannot execute ext.NeedNewVersion()")
-- 
2.43.0


From 1ae3179f7ae1e6a426c7f0c4844a201636cd1b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 068/110] fix: filesystem and indexer extension start every
 version with an empty buffer

---
 pkg/extension/NNNN-filesystem.go | 4 ++++
 pkg/extension/NNNN-indexer.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index 7a0c127..1cb3de7 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -259,6 +259,10 @@ func (extFS *Filesystem) GetMetadata(object ocfl.Object) (map[string]any, error)
 }
 
 func (extFS *Filesystem) UpdateObjectBefore(object ocfl.Object) error {
+	// every version starts with an empty buffer
+	delete(extFS.buffer, object.GetInventory().GetHead())
+	extFS.currentHead = ""
+	extFS.writer = nil
 	return nil
 }
 
diff --git a/pkg/extension/NNNN-indexer.go b/pkg/extension/NNNN-indexer.go
index 38a722d..9a5a192 100644
--- a/pkg/extension/NNNN-indexer.go
+++ b/pkg/extension/NNNN-indexer.go
@@ -220,6 +220,10 @@ func (sl *Indexer) WriteConfig() (err error) {
 }
 
 func (sl *Indexer) UpdateObjectBefore(object ocfl.Object) error {
+	// every version starts with an empty buffer
+	delete(sl.buffer, object.GetInventory().GetHead())
+	sl.currentHead = ""
+	sl.writer = nil
 	return nil
 }
 
-- 
2.43.0


From b995808f6be539aacb9aa58336f636691f112c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 069/110] fix: migration keeps areas, does not replace other
 files and ignores content which is not in the head version

---
 pkg/extension/NNNN-migration.go   | 72 ++++++++++++++++++++++---------
 pkg/subsystem/migration/helper.go |  2 +-
 2 files changed, 52 insertions(+), 22 deletions(-)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index d299e2b..e527c73 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -46,6 +46,7 @@ func NewMigration(config *MigrationConfig, mig *migration.Migration) (*Migration
 		buffer:          map[string]*bytes.Buffer{},
 		migrationFiles:  map[string]*migration.Function{},
 		migratedFiles:   map[string]map[string]string{},
+		sources:         map[string]bool{},
 	}
 	//	sl.writer = brotli.NewWriter(sl.buffer)
 	if config.ExtensionName != sl.GetName() {
@@ -99,6 +100,7 @@ type Migration struct {
 	writer         *brotli.Writer
 	migrationFiles map[string]*migration.Function
 	migratedFiles  map[string]map[string]string
+	sources        map[string]bool // checksums of all migrated files
 	sourceFS       fs.FS
 	currentHead    string
 	done           bool
@@ -142,6 +144,10 @@ func (mi *Migration) UpdateObjectBefore(ocfl.Object) error {
 }
 
 func (mi *Migration) alreadyMigrated(cs string) bool {
+	// different files may have the same result
+	if mi.sources[cs] {
+		return true
+	}
 	for _, mf := range mi.migratedFiles {
 		if _, ok := mf[cs]; ok {
 			return true
@@ -194,6 +200,10 @@ func (mi *Migration) UpdateObjectAfter(object ocfl.Object) error {
 		if mi.alreadyMigrated(cs) {
 			continue
 		}
+		// content of former versions has no name to migrate to
+		if stateFiles, err := inventory.GetStateFiles("", cs); err != nil || len(stateFiles) == 0 {
+			continue
+		}
 		mi.migrationFiles[cs] = migrationFunctions
 	}
 
@@ -216,10 +226,11 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 	if err != nil {
 		return errors.Wrapf(err, "cannot get migration metadata for object '%s'", object.GetID())
 	}
-	migratedChecksums := maps.Keys(migrationMetadata)
-	for _, metaAny := range migrationMetadata {
-		if meta, ok := metaAny.(*migrationLine); ok {
-			_ = meta
+	// results of former migrations
+	migratedChecksums := []string{}
+	for cs, metaAny := range migrationMetadata {
+		if meta, ok := metaAny.(*MigrationResult); ok && meta.Error == "" {
+			migratedChecksums = append(migratedChecksums, cs)
 		}
 	}
 	inventory := object.GetInventory()
@@ -240,7 +251,22 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 	if _, ok := mi.migratedFiles[head]; !ok {
 		mi.migratedFiles[head] = map[string]string{}
 	}
-	for cs, mig := range mi.migrationFiles {
+	// logical paths of the last version
+	lastState := map[string]string{}
+	if err := inventory.IterateStateFiles(versions[len(versions)-2], func(internals, externals []string, digest string) error {
+		for _, external := range externals {
+			lastState[external] = digest
+		}
+		return nil
+	}); err != nil {
+		return errors.Wrapf(err, "cannot iterate state files for '%s' version '%s'", object.GetID(), versions[len(versions)-2])
+	}
+	usedNames := map[string]bool{}
+	// map order is random
+	checksums := maps.Keys(mi.migrationFiles)
+	slices.Sort(checksums)
+	for _, cs := range checksums {
+		mig := mi.migrationFiles[cs]
 		var isMigrated bool
 		if slices.Contains(migratedChecksums, cs) {
 			isMigrated = true
@@ -310,26 +336,26 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 			}
 		}
 		var ml *migrationLine
-		/*
-			path, err := extensionManager.BuildObjectManifestPath(object, targetNames[0], "content")
-			if err != nil {
-				return errors.Wrapf(err, "cannot build state path for file '%s' in object '%s'", targetNames[0], object.GetID())
-			}
-		*/
-		extractTargetNames := []string{}
+		// the target names have the prefix of their area already
+		manifestName, err := extensionManager.BuildObjectManifestPath(object, targetNames[0], "full")
+		if err != nil {
+			return errors.Wrapf(err, "cannot build manifest path for file '%s' in object '%s'", targetNames[0], object.GetID())
+		}
+		path := inventory.BuildManifestName(manifestName)
+		// do not replace other files, except results of former migrations
+		var migErr error
 		for _, targetName := range targetNames {
-			extractTargetName, err := extensionManager.BuildObjectExtractPath(object, targetName, "")
-			if err != nil {
-				return errors.Wrapf(err, "cannot build extract path for file '%s' in object '%s'", targetName, object.GetID())
+			if last, ok := lastState[targetName]; usedNames[targetName] || (ok && last != cs && !slices.Contains(migratedChecksums, last)) {
+				migErr = errors.Errorf("file '%s' already exists in object '%s'", targetName, object.GetID())
+				break
 			}
-			extractTargetNames = append(extractTargetNames, extractTargetName)
 		}
-		manifestName, err := object.GetExtensionManager().BuildObjectManifestPath(object, extractTargetNames[0], "content")
-		if err != nil {
-			return errors.Wrapf(err, "cannot build manifest path for file '%s' in object '%s'", extractTargetNames[0], object.GetID())
+		if migErr != nil {
+			_ = file.Close()
+		} else {
+			migErr = migration.DoMigrate(object, mig, ext, targetNames, file)
 		}
-		path := inventory.BuildManifestName(manifestName)
-		if err := migration.DoMigrate(object, mig, ext, extractTargetNames, file); err != nil {
+		if err := migErr; err != nil {
 			ml = &migrationLine{
 				Path: path,
 				Migration: &MigrationResult{
@@ -347,6 +373,9 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 					ID:     mig.GetID(),
 				},
 			}
+			for _, targetName := range targetNames {
+				usedNames[targetName] = true
+			}
 			switch mig.Strategy {
 			case migration.StrategyReplace:
 				for _, n := range stateFiles {
@@ -465,6 +494,7 @@ func (mi *Migration) GetMetadata(object ocfl.Object) (map[string]any, error) {
 				return nil, errors.Errorf("cannot find checksum for file '%s' in object '%s'", meta.Path, object.GetID())
 			}
 			meta.Migration.Source = digest
+			mi.sources[digest] = true
 			result[cs] = meta.Migration
 		}
 		if err := r.Err(); err != nil {
diff --git a/pkg/subsystem/migration/helper.go b/pkg/subsystem/migration/helper.go
index 505888e..42b19b3 100644
--- a/pkg/subsystem/migration/helper.go
+++ b/pkg/subsystem/migration/helper.go
@@ -100,7 +100,7 @@ func DoMigrate(object ocfl.Object, mig *Function, ext string, targetNames []stri
 	if err != nil {
 		return errors.Wrapf(err, "cannot open file '%s'", targetFilename)
 	}
-	if _, err := object.AddReader(mFile, targetNames, "content", false, false); err != nil {
+	if _, err := object.AddReader(mFile, targetNames, "full", false, false); err != nil {
 		return errors.Wrapf(err, "cannot migrate file '%v' to object '%s'", targetNames, object.GetID())
 	}
 	if err := mFile.Close(); err != nil {
-- 
2.43.0


From e38f5195166f0630860c411186eaa38e96cb9d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:14 +0000
Subject: [PATCH 070/110] fix: source files are closed when their content is
 already part of the object

---
 pkg/ocfl/objectbase.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 338481a..5352d4c 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -982,9 +982,14 @@ func (object *ObjectBase) AddFile(fsys fs.FS, versionFS fs.FS, path string, chec
 		if err != nil {
 			return errors.Wrapf(err, "cannot open file '%v/%s'", fsys, path)
 		}
+		// some filesystems allow only one open file
+		defer func() {
+			if file != nil {
+				_ = file.Close()
+			}
+		}()
 		newPath, err := object.extensionManager.BuildObjectStatePath(object, path, area)
 		if err != nil {
-			file.Close()
 			return errors.Wrapf(err, "cannot map external path '%s'", path)
 		}
 
@@ -1000,12 +1005,14 @@ func (object *ObjectBase) AddFile(fsys fs.FS, versionFS fs.FS, path string, chec
 			if seeker, ok := file.(io.Seeker); ok {
 				// if we have a seeker, we just seek
 				if _, err := seeker.Seek(0, 0); err != nil {
-					panic(err)
+					return errors.Wrapf(err, "cannot seek to the beginning of '%v/%s'", fsys, path)
 				}
 			} else {
 				// otherwise reopen it
+				_ = file.Close()
 				file, err = fsys.Open(path)
 				if err != nil {
+					file = nil
 					return errors.Wrapf(err, "cannot open file '%v/%s'", fsys, path)
 				}
 			}
@@ -1039,10 +1046,11 @@ func (object *ObjectBase) AddFile(fsys fs.FS, versionFS fs.FS, path string, chec
 
 		digest, err = object.addReader(file, versionFS, names, noExtensionHook)
 		if err != nil {
-			file.Close()
 			return errors.Wrapf(err, "cannot add file '%s' to object", path)
 		}
-		if err := file.Close(); err != nil {
+		err = file.Close()
+		file = nil
+		if err != nil {
 			return errors.Wrapf(err, "cannot close file '%s'", path)
 		}
 
-- 
2.43.0


From 8dfc6169178811328a2719e4635a64f641bc16f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:42 +0000
Subject: [PATCH 071/110] fix: METS extension with storage type path or
 extension

The name of the storage folder was added twice for storage type path and
the PREMIS file was written with the content of the METS file for storage
type extension.
---
 pkg/extension/NNNN-mets.go | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index cb67465..715585f 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -274,17 +274,13 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot build names for %s", me.PremisFile)
 		}
 	case "path":
-		path, err := object.GetAreaPath("content")
-		if err != nil {
-			return errors.Wrapf(err, "cannot get area path for '%s'", "content")
-		}
-		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, me.StorageName, me.MetsFile)), "/")
-		metsNames, err = object.BuildNames([]string{metsName}, "")
+		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, me.MetsFile)), "/")
+		metsNames, err = object.BuildNames([]string{metsName}, "content")
 		if err != nil {
 			return errors.Wrapf(err, "cannot build names for %s", metsName)
 		}
-		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, me.StorageName, me.PremisFile)), "/")
-		premisNames, err = object.BuildNames([]string{premisName}, "")
+		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, me.PremisFile)), "/")
+		premisNames, err = object.BuildNames([]string{premisName}, "content")
 		if err != nil {
 			return errors.Wrapf(err, "cannot build names for %s", premisName)
 		}
@@ -1314,30 +1310,26 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot write '%s'", "schemas/xlink.xsd")
 		}
 	case "path":
-		path, err := object.GetAreaPath("content")
-		if err != nil {
-			return errors.Wrapf(err, "cannot get area path for '%s'", "content")
-		}
-		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, me.StorageName, me.MetsFile)), "/")
-		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, me.StorageName, me.PremisFile)), "/")
+		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, me.MetsFile)), "/")
+		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, me.PremisFile)), "/")
 
 		//		if err := object.AddReader(io.NopCloser(bytes.NewBuffer(metsBytes)), []string{metsName}, area, true, false); err != nil {
-		if err := object.AddData(metsBytes, metsName, false, "", true, false); err != nil {
+		if err := object.AddData(metsBytes, metsName, false, "content", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", metsName)
 		}
-		if _, err := object.AddReader(io.NopCloser(bytes.NewBuffer(premisBytes)), []string{premisName}, "", true, false); err != nil {
+		if _, err := object.AddReader(io.NopCloser(bytes.NewBuffer(premisBytes)), []string{premisName}, "content", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", premisName)
 		}
 		//		if err := object.AddReader(io.NopCloser(bytes.NewBuffer(specs.METSXSD)), []string{"schemas/mets.xsd"}, area, true, false); err != nil {
-		if err := object.AddData(specs.METSXSD, "schemas/mets.xsd", true, "", true, false); err != nil {
+		if err := object.AddData(specs.METSXSD, "schemas/mets.xsd", true, "content", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", "schemas/mets.xsd")
 		}
 		//		if err := object.AddReader(io.NopCloser(bytes.NewBuffer(specs.PremisXSD)), []string{"schemas/premis.xsd"}, area, true, false); err != nil {
-		if err := object.AddData(specs.PremisXSD, "schemas/premis.xsd", true, "", true, false); err != nil {
+		if err := object.AddData(specs.PremisXSD, "schemas/premis.xsd", true, "content", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", "schemas/premis.xsd")
 		}
 		//if err := object.AddReader(io.NopCloser(bytes.NewBuffer(specs.XLinkXSD)), []string{"schemas/xlink.xsd"}, area, true, false); err != nil {
-		if err := object.AddData(specs.XLinkXSD, "schemas/xlink.xsd", true, "", true, false); err != nil {
+		if err := object.AddData(specs.XLinkXSD, "schemas/xlink.xsd", true, "content", true, false); err != nil {
 			return errors.Wrapf(err, "cannot write '%s'", "schemas/xlink.xsd")
 		}
 	case "extension":
@@ -1346,7 +1338,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 		if _, err := writefs.WriteFile(me.fsys, metsName, metsBytes); err != nil {
 			return errors.Wrapf(err, "cannot write file '%v/%s'", me.fsys, metsName)
 		}
-		if _, err := writefs.WriteFile(me.fsys, premisName, metsBytes); err != nil {
+		if _, err := writefs.WriteFile(me.fsys, premisName, premisBytes); err != nil {
 			return errors.Wrapf(err, "cannot write file '%v/%s'", me.fsys, premisName)
 		}
 		if _, err := writefs.WriteFile(me.fsys, "schemas/mets.xsd", specs.METSXSD); err != nil {
-- 
2.43.0


From 6f8a6d574ba24a907d0c0d4823f4ab0419826180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:42 +0000
Subject: [PATCH 072/110] fix: METS file names the digest algorithm of the
 checksums

SHA-512 was written for every digest algorithm and no type for the checksum
of the PREMIS file.
---
 pkg/extension/NNNN-mets.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 715585f..f630ef2 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -404,7 +404,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						SIZEAttr:         size,
 						CREATEDAttr:      creationString,
 						CHECKSUMAttr:     cs,
-						CHECKSUMTYPEAttr: "SHA-512",
+						CHECKSUMTYPEAttr: checksumTypeToMets(string(inventory.GetDigestAlgorithm())),
 					},
 					IDAttr:  uuidString,
 					USEAttr: "Datafile",
@@ -1098,7 +1098,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 					"PREMIS",
 					"",
 					premisChecksum,
-					"SHA-512"),
+					"SHA512"),
 			},
 		}
 		structPhysical["metadata"] = append(structPhysical["metadata"], id)
@@ -1115,7 +1115,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 				"PREMIS",
 				"",
 				premisChecksum,
-				"SHA-512"))
+				"SHA512"))
 			structPhysical["metadata"] = append(structPhysical["metadata"], id)
 		}
 		amdSecs = append(amdSecs, sec)
-- 
2.43.0


From 883be061d3215375767f32aaecb1ed288787ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:42 +0000
Subject: [PATCH 073/110] fix: METS files in the extension folder

fmt.Sprintf appended an error text to names without placeholder, and the
placeholder was replaced with the version of OCFL instead of the object.
---
 pkg/extension/NNNN-mets.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index f630ef2..1e94ec6 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -285,13 +285,13 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot build names for %s", premisName)
 		}
 	case "extension":
-		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.MetsFile, object.GetVersion()))), "/")
+		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, versionedName(me.MetsFile, head))), "/")
 		metsNames = &ocfl.NamesStruct{
 			ExternalPaths: []string{me.MetsFile},
 			InternalPath:  metsName,
 			ManifestPath:  "",
 		}
-		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.PremisFile, object.GetVersion()))), "/")
+		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, versionedName(me.PremisFile, head))), "/")
 		premisNames = &ocfl.NamesStruct{
 			ExternalPaths: []string{me.PremisFile},
 			InternalPath:  premisName,
@@ -1333,8 +1333,8 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			return errors.Wrapf(err, "cannot write '%s'", "schemas/xlink.xsd")
 		}
 	case "extension":
-		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.MetsFile, object.GetVersion()))), "/")
-		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, fmt.Sprintf(me.PremisFile, object.GetVersion()))), "/")
+		metsName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, versionedName(me.MetsFile, head))), "/")
+		premisName := strings.TrimLeft(filepath.ToSlash(filepath.Join(me.StorageName, versionedName(me.PremisFile, head))), "/")
 		if _, err := writefs.WriteFile(me.fsys, metsName, metsBytes); err != nil {
 			return errors.Wrapf(err, "cannot write file '%v/%s'", me.fsys, metsName)
 		}
@@ -1357,6 +1357,11 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 	return nil
 }
 
+// versionedName inserts the version into a file name with placeholder "%s"
+func versionedName(name, version string) string {
+	return strings.ReplaceAll(name, "%s", version)
+}
+
 func newMDSec(id, groupid, href, loctype, otherloctype, mimetype, created string, size int64, mdType, othermdtype, checksum, checksumType string) *mets.MdSecType {
 	if mdType == "" {
 		mdType = "OTHER"
-- 
2.43.0


From 2c26b25bebc9171a7ec729a68799bd4ed71527e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:42 +0000
Subject: [PATCH 074/110] fix: METS extension keeps an empty
 primaryDescriptiveMetadata

The empty value was not stored, so that the default came back on loading
and updates failed because there is no such file.
---
 pkg/extension/NNNN-mets.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index 1e94ec6..ac8deb9 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -107,7 +107,7 @@ type MetsConfig struct {
 	*ocfl.ExtensionConfig
 	StorageType                string `json:"storageType"`
 	StorageName                string `json:"storageName"`
-	PrimaryDescriptiveMetadata string `json:"primaryDescriptiveMetadata,omitempty"`
+	PrimaryDescriptiveMetadata string `json:"primaryDescriptiveMetadata"`
 	MetsFile                   string `json:"metsFile,omitempty"`
 	PremisFile                 string `json:"premisFile,omitempty"`
 }
-- 
2.43.0


From 04dca0263e59d067bdd7a3bf9c9b9b34db09cb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:42 +0000
Subject: [PATCH 075/110] fix: METS file lists every file once with its
 locations

The area of stored content was used for the reference and the area of the
file for the entry, so that files with equal contents in several areas led
to references to nothing and missing locations; identifiers were used more
than once; the entry of an old METS or PREMIS file claimed the new logical
path; files with the contents of the primary descriptive metadata were
dropped.
---
 pkg/extension/NNNN-mets.go | 103 +++++++++++++++----------------------
 1 file changed, 41 insertions(+), 62 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index ac8deb9..c602b3e 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -410,6 +410,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 					USEAttr: "Datafile",
 					FLocat:  []*mets.FLocat{},
 				}
+				packingEvents := []*premis.EventComplexType{}
 				for verString, _ := range metaFile.VersionName {
 					ver, ok := metadata.Versions[verString]
 					if !ok {
@@ -464,7 +465,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 							},
 						},
 					}
-					premisEvents = append(premisEvents, premisEventPackage)
+					packingEvents = append(packingEvents, premisEventPackage)
 				}
 				premisFile := &premis.File{
 					XMLName:   xml.Name{},
@@ -600,34 +601,29 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						},
 					})
 				}
-				for _, intPath := range metaFile.InternalName {
-					parts := strings.Split(intPath, "/")
-					if len(parts) <= 2 {
-						return errors.Wrapf(err, "invalid path %s", intPath)
-					}
-					if parts[1] != "content" {
-						return errors.Wrapf(err, "no content in %s", intPath)
-					}
-					var intArea = "content"
-					var isSchema bool
-					//					var intSemantic = "Other Payload"
-					if len(parts) > 3 {
-						if contentSubPath != nil {
-							intArea = parts[2]
-							// intSemantic = ""
-							for area, cse := range contentSubPath {
-								if cse.Path == intArea {
-									intArea = area
-									// intSemantic = cse.Description
-									isSchema = parts[3] == "schemas"
-									break
-								}
+				parts := strings.Split(extPath, "/")
+				var extArea = "content"
+				var isSchema bool
+				if len(parts) > 1 {
+					if contentSubPath != nil {
+						extArea = parts[0]
+						for area, cse := range contentSubPath {
+							if cse.Path == extArea {
+								extArea = area
+								isSchema = parts[1] == "schemas"
+								break
 							}
 						}
 					}
-					if intArea == "metadata" && !isSchema {
+				}
+				for i, intPath := range metaFile.InternalName {
+					if extArea == "metadata" && !isSchema {
+						id := fmt.Sprintf("dmdSec-int-%s", uuidString)
+						if i > 0 {
+							id = fmt.Sprintf("%s-%d", id, i)
+						}
 						dmdSecs = append(dmdSecs, newMDSec(
-							fmt.Sprintf("dmdSec-int-%s", uuidString),
+							id,
 							"area-metadata",
 							intPath,
 							"OTHER",
@@ -642,16 +638,6 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						continue
 					}
 
-					if isSchema {
-						structPhysical["schemas"] = append(structPhysical["schemas"], uuidString)
-					} else {
-						structPhysical[intArea] = append(structPhysical[intArea], uuidString)
-					}
-					/*
-						if intSemantic != "" {
-							structSemantical[intSemantic] = append(structSemantical[intSemantic], uuidString)
-						}
-					*/
 					href := intPath
 					metsFile.FLocat = append(metsFile.FLocat, &mets.FLocat{
 						LOCATION: &mets.LOCATION{
@@ -681,21 +667,6 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 				}
 				//		if extNames, ok := metaFile.VersionName[head]; ok {
 				//			for _, extPath := range extNames {
-				parts := strings.Split(extPath, "/")
-				var extArea = "content"
-				var isSchema bool
-				if len(parts) > 1 {
-					if contentSubPath != nil {
-						extArea = parts[0]
-						for area, cse := range contentSubPath {
-							if cse.Path == extArea {
-								extArea = area
-								isSchema = parts[1] == "schemas"
-								break
-							}
-						}
-					}
-				}
 				if extArea == "metadata" && !isSchema {
 					if !slices.Contains([]string{metsNames.ExternalPaths[0], premisNames.ExternalPaths[0]}, extPath) {
 						dmdSecs = append(dmdSecs, newMDSec(
@@ -715,16 +686,19 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 					continue
 				}
 
-				metsFile.FLocat = append(metsFile.FLocat, &mets.FLocat{
-					LOCATION: &mets.LOCATION{
-						LOCTYPEAttr: "URL",
-					},
-					SimpleLink: &mets.SimpleLink{
-						//XMLName:          xml.Name{},
-						TypeAttr: "simple",
-						XlinkHrefAttr:/* externalRelativePath + */ extPath,
-					},
-				})
+				// the files of the extension are replaced with this version
+				if !slices.Contains([]string{metsNames.ExternalPaths[0], premisNames.ExternalPaths[0]}, extPath) {
+					metsFile.FLocat = append(metsFile.FLocat, &mets.FLocat{
+						LOCATION: &mets.LOCATION{
+							LOCTYPEAttr: "URL",
+						},
+						SimpleLink: &mets.SimpleLink{
+							//XMLName:          xml.Name{},
+							TypeAttr: "simple",
+							XlinkHrefAttr:/* externalRelativePath + */ extPath,
+						},
+					})
+				}
 				/*
 					premisFile.Storage = append(premisFile.Storage, &premis.StorageComplexType{
 						XMLName: xml.Name{},
@@ -841,7 +815,9 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						a = "schemas"
 					}
 					metsFiles[a] = append(metsFiles[a], metsFile)
+					structPhysical[a] = append(structPhysical[a], uuidString)
 				}
+				premisEvents = append(premisEvents, packingEvents...)
 				premisFiles = append(premisFiles, premisFile)
 			}
 		}
@@ -921,7 +897,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 		mdSecs2 := dmdSecs
 		dmdSecs = make([]*mets.MdSecType, 0, len(mdSecs2))
 		for i := 0; i < len(mdSecs2); i++ {
-			if mdSecs2[i].MdRef.CHECKSUMAttr != foundChecksum {
+			if href := mdSecs2[i].MdRef.XlinkHrefAttr; href != metaFilename && !slices.Contains(found.InternalName, href) {
 				dmdSecs = append(dmdSecs, mdSecs2[i])
 				structPhysical["metadata"] = append(structPhysical["metadata"], mdSecs2[i].IDAttr)
 			}
@@ -976,7 +952,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 			dmdSecs = append(dmdSecs, newMDSec(
 				id,
 				"primary-metadata",
-				found.VersionName[head][0],
+				metaFilename,
 				"URL",
 				"",
 				foundMimetype,
@@ -1068,6 +1044,9 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 		if len(files) == 0 {
 			continue
 		}
+		if _, ok := fileGrpUUID[a]; !ok {
+			fileGrpUUID[a] = uuid.NewString()
+		}
 		metsFileGrps = append(metsFileGrps, &mets.FileGrp{
 			XMLName: xml.Name{},
 			FileGrpType: &mets.FileGrpType{
-- 
2.43.0


From f39626a35d923d004572e269a610962857d54f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:48 +0000
Subject: [PATCH 076/110] fix: viewer: concurrent requests share the loaded
 object without synchronisation and show the wrong object

---
 gocfl/cmd/display/server.go | 307 ++++++++++++++----------------------
 1 file changed, 122 insertions(+), 185 deletions(-)

diff --git a/gocfl/cmd/display/server.go b/gocfl/cmd/display/server.go
index 8b6231f..c941e10 100644
--- a/gocfl/cmd/display/server.go
+++ b/gocfl/cmd/display/server.go
@@ -26,6 +26,7 @@ import (
 	"net/url"
 	"path/filepath"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -42,6 +43,8 @@ type Server struct {
 	accessLog      io.Writer
 	dataFS         fs.FS
 	storageRoot    ocfl.StorageRoot
+	objectLock     sync.Mutex // object, metadata and folders are shared by concurrent requests
+	folders        map[string]string
 	object         ocfl.Object
 	metadata       *ocfl.ObjectMetadata
 	templateFS     fs.FS
@@ -148,6 +151,57 @@ func (s *Server) ListenAndServe(cert, key string) (err error) {
 	}
 }
 
+// loadFolder returns the object of a folder and remembers the folder: it need not be the one of the storage layout
+func (s *Server) loadFolder(folder string) (ocfl.Object, error) {
+	s.objectLock.Lock()
+	defer s.objectLock.Unlock()
+	object, err := s.storageRoot.LoadObjectByFolder(folder)
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	if s.folders == nil {
+		s.folders = map[string]string{}
+	}
+	s.folders[object.GetID()] = folder
+	return object, nil
+}
+
+// load returns the object and its metadata; the last one is kept.
+func (s *Server) load(id string) (ocfl.Object, *ocfl.ObjectMetadata, error) {
+	s.objectLock.Lock()
+	defer s.objectLock.Unlock()
+	if s.object == nil || s.object.GetID() != id {
+		var object ocfl.Object
+		var err error
+		if folder, ok := s.folders[id]; ok {
+			object, err = s.storageRoot.LoadObjectByFolder(folder)
+		} else {
+			object, err = s.storageRoot.LoadObjectByID(id)
+		}
+		if err != nil {
+			return nil, nil, errors.WithStack(err)
+		}
+		s.object, s.metadata = object, nil
+	}
+	if s.metadata == nil {
+		metadata, err := s.object.GetMetadata()
+		if err != nil {
+			return nil, nil, errors.Wrapf(err, "cannot get metadata for object %s", id)
+		}
+		s.metadata = metadata
+	}
+	return s.object, s.metadata, nil
+}
+
+func (s *Server) currentID() string {
+	s.objectLock.Lock()
+	defer s.objectLock.Unlock()
+	if s.object == nil {
+		return ""
+	}
+	return s.object.GetID()
+}
+
 func (s *Server) downloadExtFile(c *gin.Context) {
 	var err error
 	type idParam struct {
@@ -176,28 +230,13 @@ func (s *Server) downloadExtFile(c *gin.Context) {
 		return
 	}
 
-	if s.object != nil && s.object.GetID() == iop.ID {
-		if s.metadata == nil {
-			s.metadata, err = s.object.GetMetadata()
-			if err != nil {
-				c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-				return
-			}
-		}
-	} else {
-		s.object, err = s.storageRoot.LoadObjectByID(iop.ID)
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
-			return
-		}
-		s.metadata, err = s.object.GetMetadata()
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-			return
-		}
+	object, _, err := s.load(iop.ID)
+	if err != nil {
+		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
+		return
 	}
 	pathStr := filepath.ToSlash(filepath.Join("extensions", iop.Extension, iop.Path))
-	fp, err := s.object.GetFS().Open(pathStr)
+	fp, err := object.GetFS().Open(pathStr)
 	if err != nil {
 		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
 		return
@@ -211,12 +250,12 @@ func (s *Server) downloadExtFile(c *gin.Context) {
 
 	mimeReader, err := iou.NewMimeReader(fp)
 	if err != nil {
-		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot instantiate mimereader for object %s - %s", s.object.GetID(), pathStr).Error()})
+		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot instantiate mimereader for object %s - %s", object.GetID(), pathStr).Error()})
 		return
 	}
 	contentType, err := mimeReader.DetectContentType()
 	if err != nil {
-		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot detect content-type for object %s - %s", s.object.GetID(), pathStr).Error()})
+		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot detect content-type for object %s - %s", object.GetID(), pathStr).Error()})
 		return
 	}
 	c.DataFromReader(http.StatusOK, fi.Size(), contentType, mimeReader, map[string]string{})
@@ -239,34 +278,19 @@ func (s *Server) download(c *gin.Context) {
 		return
 	}
 
-	if s.object != nil && s.object.GetID() == iop.ID {
-		if s.metadata == nil {
-			s.metadata, err = s.object.GetMetadata()
-			if err != nil {
-				c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-				return
-			}
-		}
-	} else {
-		s.object, err = s.storageRoot.LoadObjectByID(iop.ID)
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
-			return
-		}
-		s.metadata, err = s.object.GetMetadata()
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-			return
-		}
+	object, metadata, err := s.load(iop.ID)
+	if err != nil {
+		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
+		return
 	}
 
-	file, ok := s.metadata.Files[iop.Checksum]
+	file, ok := metadata.Files[iop.Checksum]
 	if !ok {
 		c.JSON(http.StatusBadRequest, gin.H{"error": fmt.Errorf("no file with checksum %s found", iop.Checksum).Error()})
 		return
 	}
 
-	fp, err := s.object.GetFS().Open(file.InternalName[0])
+	fp, err := object.GetFS().Open(file.InternalName[0])
 	if err != nil {
 		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
 		return
@@ -298,28 +322,13 @@ func (s *Server) detail(c *gin.Context) {
 		return
 	}
 
-	if s.object != nil && s.object.GetID() == iop.ID {
-		if s.metadata == nil {
-			s.metadata, err = s.object.GetMetadata()
-			if err != nil {
-				c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-				return
-			}
-		}
-	} else {
-		s.object, err = s.storageRoot.LoadObjectByID(iop.ID)
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
-			return
-		}
-		s.metadata, err = s.object.GetMetadata()
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-			return
-		}
+	object, metadata, err := s.load(iop.ID)
+	if err != nil {
+		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
+		return
 	}
 
-	file, ok := s.metadata.Files[iop.Checksum]
+	file, ok := metadata.Files[iop.Checksum]
 	if !ok {
 		c.JSON(http.StatusBadRequest, gin.H{"error": fmt.Errorf("no file with checksum %s found", iop.Checksum).Error()})
 		return
@@ -348,7 +357,7 @@ func (s *Server) detail(c *gin.Context) {
 
 	status := &detailStatus{
 		Checksum:        iop.Checksum,
-		DigestAlgorithm: s.metadata.DigestAlgorithm,
+		DigestAlgorithm: metadata.DigestAlgorithm,
 		InternalNames:   file.InternalName,
 		ExternalNames:   map[string][]*extFEntry{},
 		Fixity:          file.Checksums,
@@ -397,7 +406,7 @@ func (s *Server) detail(c *gin.Context) {
 	if extIndexer != nil {
 		iData, err := json.MarshalIndent(extIndexer.Metadata, "", "  ")
 		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot marshal indexer metadata for object %s", s.object.GetID()).Error()})
+			c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot marshal indexer metadata for object %s", object.GetID()).Error()})
 			return
 		}
 		//	extIndexer.Metadata = nil
@@ -427,7 +436,7 @@ func (s *Server) detail(c *gin.Context) {
 
 	var params = map[string]any{
 		"title":  "Detail",
-		"id":     s.object.GetID(),
+		"id":     object.GetID(),
 		"status": status,
 		//		"metadata": s.metadata,
 		"file": file,
@@ -439,10 +448,7 @@ func (s *Server) detail(c *gin.Context) {
 
 func (s *Server) dashboard(c *gin.Context) {
 
-	var id string
-	if s.object != nil {
-		id = s.object.GetID()
-	}
+	id := s.currentID()
 	c.HTML(http.StatusOK, "object.gohtml", gin.H{
 		"title": "gocfl",
 		"id":    id,
@@ -451,10 +457,7 @@ func (s *Server) dashboard(c *gin.Context) {
 
 func (s *Server) storageroot(c *gin.Context) {
 
-	var id string
-	if s.object != nil {
-		id = s.object.GetID()
-	}
+	id := s.currentID()
 
 	if s.storageRoot == nil {
 		c.JSON(http.StatusInternalServerError, "no storage root loaded")
@@ -491,25 +494,10 @@ func (s *Server) manifest(c *gin.Context) {
 		return
 	}
 
-	if s.object != nil && s.object.GetID() == iop.ID {
-		if s.metadata == nil {
-			s.metadata, err = s.object.GetMetadata()
-			if err != nil {
-				c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-				return
-			}
-		}
-	} else {
-		s.object, err = s.storageRoot.LoadObjectByID(iop.ID)
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
-			return
-		}
-		s.metadata, err = s.object.GetMetadata()
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-			return
-		}
+	object, metadata, err := s.load(iop.ID)
+	if err != nil {
+		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
+		return
 	}
 
 	type fEntry struct {
@@ -522,7 +510,7 @@ func (s *Server) manifest(c *gin.Context) {
 	var files = map[string]*fEntry{}
 	var filenames = []string{}
 
-	for checksum, file := range s.metadata.Files {
+	for checksum, file := range metadata.Files {
 		extMigrationAny, _ := file.Extension[extension.MigrationName]
 		var extMigration *extension.MigrationResult
 		if extMigrationAny != nil {
@@ -554,8 +542,8 @@ func (s *Server) manifest(c *gin.Context) {
 
 	var params = map[string]any{
 		"title":     "Manifest",
-		"id":        s.object.GetID(),
-		"versions":  s.metadata.Versions,
+		"id":        object.GetID(),
+		"versions":  metadata.Versions,
 		"files":     files,
 		"filenames": filenames,
 	}
@@ -581,25 +569,10 @@ func (s *Server) version(c *gin.Context) {
 		return
 	}
 
-	if s.object != nil && s.object.GetID() == iop.ID {
-		if s.metadata == nil {
-			s.metadata, err = s.object.GetMetadata()
-			if err != nil {
-				c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-				return
-			}
-		}
-	} else {
-		s.object, err = s.storageRoot.LoadObjectByID(iop.ID)
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
-			return
-		}
-		s.metadata, err = s.object.GetMetadata()
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-			return
-		}
+	object, metadata, err := s.load(iop.ID)
+	if err != nil {
+		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
+		return
 	}
 
 	type fEntry struct {
@@ -616,7 +589,7 @@ func (s *Server) version(c *gin.Context) {
 	var files = map[string]*fEntry{}
 	var filenames = []string{}
 
-	for checksum, file := range s.metadata.Files {
+	for checksum, file := range metadata.Files {
 		extMigrationAny, _ := file.Extension[extension.MigrationName]
 		var extMigration *extension.MigrationResult
 		if extMigrationAny != nil {
@@ -666,8 +639,8 @@ func (s *Server) version(c *gin.Context) {
 
 	var params = map[string]any{
 		"title":     "Version",
-		"id":        s.object.GetID(),
-		"versions":  s.metadata.Versions,
+		"id":        object.GetID(),
+		"versions":  metadata.Versions,
 		"files":     files,
 		"filenames": filenames,
 		"version":   iop.Version,
@@ -692,28 +665,12 @@ func (s *Server) loadObjectID(c *gin.Context) {
 		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot unescape '%s'", iop.ID).Error()})
 		return
 	}
-	if s.object != nil && s.object.GetID() == iop.ID {
-		// already loaded
-		if s.metadata == nil {
-			s.metadata, err = s.object.GetMetadata()
-			if err != nil {
-				c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-				return
-			}
-		}
-	} else {
-		s.object, err = s.storageRoot.LoadObjectByID(iop.ID)
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
-			return
-		}
-		s.metadata, err = s.object.GetMetadata()
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-			return
-		}
+	object, metadata, err := s.load(iop.ID)
+	if err != nil {
+		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
+		return
 	}
-	s.displayObject(c)
+	s.displayObject(c, object, metadata)
 }
 
 func (s *Server) loadObjectPath(c *gin.Context) {
@@ -726,23 +683,18 @@ func (s *Server) loadObjectPath(c *gin.Context) {
 		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
 		return
 	}
-	s.object, err = s.storageRoot.LoadObjectByFolder(strings.Trim(iop.Path, "/"))
+	object, err := s.loadFolder(strings.Trim(iop.Path, "/"))
 	if err != nil {
 		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
 		return
 	}
-	s.metadata, err = s.object.GetMetadata()
-	if err != nil {
-		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-		return
-	}
-	c.Redirect(http.StatusPermanentRedirect, s.urlExt.String()+fmt.Sprintf("/object/id/%s", url.PathEscape(s.object.GetID())))
+	c.Redirect(http.StatusPermanentRedirect, s.urlExt.String()+fmt.Sprintf("/object/id/%s", url.PathEscape(object.GetID())))
 	//	s.displayObject(c)
 }
 
-func (s *Server) displayObject(c *gin.Context) {
+func (s *Server) displayObject(c *gin.Context, object ocfl.Object, metadata *ocfl.ObjectMetadata) {
 
-	if s.metadata == nil {
+	if metadata == nil {
 		c.JSON(http.StatusBadRequest, gin.H{"error": "no metadata loaded"})
 		return
 	}
@@ -751,7 +703,7 @@ func (s *Server) displayObject(c *gin.Context) {
 	var noSizeFiles int
 	var mimeTypes = make(map[string]int)
 	var pronoms = make(map[string]int)
-	for _, v := range s.metadata.Files {
+	for _, v := range metadata.Files {
 		numFiles += len(v.InternalName)
 		_fs, _ := v.Extension[extension.FilesystemName]
 		_idx, _ := v.Extension[extension.IndexerName]
@@ -793,9 +745,9 @@ func (s *Server) displayObject(c *gin.Context) {
 	}
 	var params = map[string]any{
 		"title":          "gocfl",
-		"id":             s.object.GetID(),
-		"versions":       s.metadata.Versions,
-		"differentFiles": len(s.metadata.Files),
+		"id":             object.GetID(),
+		"versions":       metadata.Versions,
+		"differentFiles": len(metadata.Files),
 		"numFiles":       numFiles,
 		"size":           humanize.Bytes(size),
 		"noSizeFiles":    noSizeFiles,
@@ -824,34 +776,19 @@ func (s *Server) report(c *gin.Context) {
 	}
 	full := c.DefaultQuery("full", "none") != "none"
 
-	if s.object != nil && s.object.GetID() == iop.ID {
-		if s.metadata == nil {
-			s.metadata, err = s.object.GetMetadata()
-			if err != nil {
-				c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-				return
-			}
-		}
-	} else {
-		s.object, err = s.storageRoot.LoadObjectByID(iop.ID)
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
-			return
-		}
-		s.metadata, err = s.object.GetMetadata()
-		if err != nil {
-			c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot get metadata for object %s", s.object.GetID()).Error()})
-			return
-		}
+	object, metadata, err := s.load(iop.ID)
+	if err != nil {
+		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
+		return
 	}
 
-	if s.metadata == nil {
+	if metadata == nil {
 		c.JSON(http.StatusBadRequest, gin.H{"error": "no metadata loaded"})
 		return
 	}
 
-	extManager := s.object.GetExtensionManager()
-	inventory := s.object.GetInventory()
+	extManager := object.GetExtensionManager()
+	inventory := object.GetInventory()
 
 	type mimeCount struct {
 		SizeStr string
@@ -864,7 +801,7 @@ func (s *Server) report(c *gin.Context) {
 	var mimeTypes = make(map[string]*mimeCount)
 	var pronoms = make(map[string]*mimeCount)
 	var videoSecs uint
-	for _, v := range s.metadata.Files {
+	for _, v := range metadata.Files {
 		numFiles += len(v.InternalName)
 		_fs, _ := v.Extension[extension.FilesystemName]
 		_idx, _ := v.Extension[extension.IndexerName]
@@ -923,7 +860,7 @@ func (s *Server) report(c *gin.Context) {
 	}
 
 	var objectpath string
-	if fsStringer, ok := s.object.GetFS().(fmt.Stringer); ok {
+	if fsStringer, ok := object.GetFS().(fmt.Stringer); ok {
 		objectpath = fsStringer.String()
 	}
 
@@ -965,16 +902,16 @@ func (s *Server) report(c *gin.Context) {
 			path = ""
 		}
 		fname := filepath.ToSlash(filepath.Join(path, metafileCfg.MetaName))
-		mPath, err := extManager.BuildObjectManifestPath(s.object, fname, area)
+		mPath, err := extManager.BuildObjectManifestPath(object, fname, area)
 		if err != nil {
 			c.JSON(http.StatusInternalServerError, gin.H{"error": errors.Wrapf(err, "cannot map %s:%s", area, fname).Error()})
 			return
 		}
 
 		// search for info file
-		for ver, _ := range s.metadata.Versions {
+		for ver, _ := range metadata.Versions {
 			fullpath := filepath.ToSlash(filepath.Join(ver, "content", mPath))
-			jsonData, err := fs.ReadFile(s.object.GetFS(), fullpath)
+			jsonData, err := fs.ReadFile(object.GetFS(), fullpath)
 			if err == nil && len(jsonData) > 0 {
 				infoBytes = jsonData
 			}
@@ -1029,7 +966,7 @@ func (s *Server) report(c *gin.Context) {
 		addToTree(parts[1:], newEdge)
 	}
 
-	for _, file := range s.metadata.Files {
+	for _, file := range metadata.Files {
 		for _, files := range file.VersionName {
 			for _, filename := range files {
 				filenames = append(filenames, filename)
@@ -1065,10 +1002,10 @@ func (s *Server) report(c *gin.Context) {
 
 	var files = map[string]*ocfl.FileMetadata{}
 	if full {
-		files = s.metadata.Files
+		files = metadata.Files
 	}
 	var filesNoData int64
-	for _, file := range s.metadata.Files {
+	for _, file := range metadata.Files {
 		if file.Extension[extension.IndexerName] == nil && file.Extension[extension.FilesystemName] == nil {
 			filesNoData++
 		}
@@ -1078,9 +1015,9 @@ func (s *Server) report(c *gin.Context) {
 		"objectpath":     objectpath,
 		"gocfl":          "gocfl",
 		"head":           inventory.GetHead(),
-		"id":             s.object.GetID(),
-		"versions":       s.metadata.Versions,
-		"differentFiles": len(s.metadata.Files),
+		"id":             object.GetID(),
+		"versions":       metadata.Versions,
+		"differentFiles": len(metadata.Files),
 		"numFiles":       numFiles,
 		"filesNoData":    filesNoData,
 		"size":           size,
-- 
2.43.0


From 8d3c727fddfe52634394fd835869db1a3c2e8e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:49 +0000
Subject: [PATCH 077/110] fix: viewer: identifiers, folders and file names with
 reserved characters are not reachable

---
 data/displaydata/templates/detail.gohtml      |  2 +-
 data/displaydata/templates/storageroot.gohtml |  2 +-
 gocfl/cmd/display/server.go                   | 16 +++++++++++++---
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/data/displaydata/templates/detail.gohtml b/data/displaydata/templates/detail.gohtml
index 1dab23e..8429d5b 100644
--- a/data/displaydata/templates/detail.gohtml
+++ b/data/displaydata/templates/detail.gohtml
@@ -170,7 +170,7 @@
                     <tr>
                         <td>{{ $ver }}</td>
                         <td>
-                            <a download="{{ basename $name.Name }}" href="../download/{{ $status.Checksum }}/{{ basename $name.Name }}" target="_blank">
+                            <a download="{{ basename $name.Name }}" href="../download/{{ $status.Checksum }}/{{ basename $name.Name | PathEscape }}" target="_blank">
                                 {{ $name.Name }}
                             </a>
                         </td>
diff --git a/data/displaydata/templates/storageroot.gohtml b/data/displaydata/templates/storageroot.gohtml
index 01e9de4..4261e40 100644
--- a/data/displaydata/templates/storageroot.gohtml
+++ b/data/displaydata/templates/storageroot.gohtml
@@ -97,7 +97,7 @@
             </a>
             <div class="list-group list-group-flush border-bottom scrollarea">
                 {{ range $folder :=  .folders }}
-                <a href="/object/folder/{{ $folder }}" class="list-group-item list-group-item-action py-3 lh-tight">
+                <a href="/object/folder/{{ $folder | PathEscape }}" class="list-group-item list-group-item-action py-3 lh-tight">
                     <div class="d-flex w-100 align-items-center justify-content-between">
                         <strong class="mb-1">{{ $folder }}</strong>
                         <!-- <small class="text-muted">Tues</small> -->
diff --git a/gocfl/cmd/display/server.go b/gocfl/cmd/display/server.go
index c941e10..a92dc37 100644
--- a/gocfl/cmd/display/server.go
+++ b/gocfl/cmd/display/server.go
@@ -128,9 +128,14 @@ func (s *Server) ListenAndServe(cert, key string) (err error) {
 
 	route.StaticFS("/static", http.FS(s.dataFS))
 
+	handler := route.Handler()
 	s.srv = &http.Server{
-		Addr:    net.JoinHostPort(s.host, s.port),
-		Handler: route.Handler(),
+		Addr: net.JoinHostPort(s.host, s.port),
+		Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
+			// the path is always matched in its escaped form: the handlers unescape the values once
+			r.URL.RawPath = r.URL.EscapedPath()
+			handler.ServeHTTP(w, r)
+		}),
 	}
 
 	if cert == "auto" || key == "auto" {
@@ -683,7 +688,12 @@ func (s *Server) loadObjectPath(c *gin.Context) {
 		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
 		return
 	}
-	object, err := s.loadFolder(strings.Trim(iop.Path, "/"))
+	folder, err := url.PathUnescape(strings.Trim(iop.Path, "/"))
+	if err != nil {
+		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot unescape '%s'", iop.Path).Error()})
+		return
+	}
+	object, err := s.loadFolder(folder)
 	if err != nil {
 		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
 		return
-- 
2.43.0


From afc0d4be4dc5dc8dcc5a373a73e40480a1c7597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:51 +0000
Subject: [PATCH 078/110] fix: viewer: extension downloads and object folders
 are not restricted to the extension and the storage root

---
 gocfl/cmd/display/server.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gocfl/cmd/display/server.go b/gocfl/cmd/display/server.go
index a92dc37..0f23cf2 100644
--- a/gocfl/cmd/display/server.go
+++ b/gocfl/cmd/display/server.go
@@ -240,7 +240,13 @@ func (s *Server) downloadExtFile(c *gin.Context) {
 		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
 		return
 	}
-	pathStr := filepath.ToSlash(filepath.Join("extensions", iop.Extension, iop.Path))
+	// only files within the folder of the extension
+	extPath := strings.Trim(iop.Path, "/")
+	if iop.Extension == "." || strings.Contains(iop.Extension, "/") || !fs.ValidPath(iop.Extension) || !fs.ValidPath(extPath) {
+		c.JSON(http.StatusBadRequest, gin.H{"error": fmt.Errorf("invalid path '%s/%s'", iop.Extension, extPath).Error()})
+		return
+	}
+	pathStr := filepath.ToSlash(filepath.Join("extensions", iop.Extension, extPath))
 	fp, err := object.GetFS().Open(pathStr)
 	if err != nil {
 		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
@@ -693,6 +699,10 @@ func (s *Server) loadObjectPath(c *gin.Context) {
 		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot unescape '%s'", iop.Path).Error()})
 		return
 	}
+	if !fs.ValidPath(folder) {
+		c.JSON(http.StatusBadRequest, gin.H{"error": fmt.Errorf("invalid folder '%s'", folder).Error()})
+		return
+	}
 	object, err := s.loadFolder(folder)
 	if err != nil {
 		c.JSON(http.StatusBadRequest, gin.H{"error": err.Error()})
-- 
2.43.0


From 632ae8afd038d115f74df686e372ad6bfb144907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:52 +0000
Subject: [PATCH 079/110] fix: viewer: downloads of short files are delivered
 without content

---
 gocfl/cmd/display/server.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/gocfl/cmd/display/server.go b/gocfl/cmd/display/server.go
index 0f23cf2..6f016ea 100644
--- a/gocfl/cmd/display/server.go
+++ b/gocfl/cmd/display/server.go
@@ -1,6 +1,7 @@
 package display
 
 import (
+	"bufio"
 	"context"
 	"crypto/tls"
 	"emperror.dev/emperror"
@@ -16,7 +17,6 @@ import (
 	"github.com/je4/indexer/v3/pkg/indexer"
 	dcert "github.com/je4/utils/v2/pkg/cert"
 	"github.com/je4/utils/v2/pkg/checksum"
-	iou "github.com/je4/utils/v2/pkg/io"
 	"github.com/je4/utils/v2/pkg/zLogger"
 	"html/template"
 	"io"
@@ -259,17 +259,14 @@ func (s *Server) downloadExtFile(c *gin.Context) {
 		return
 	}
 
-	mimeReader, err := iou.NewMimeReader(fp)
-	if err != nil {
-		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot instantiate mimereader for object %s - %s", object.GetID(), pathStr).Error()})
-		return
-	}
-	contentType, err := mimeReader.DetectContentType()
-	if err != nil {
+	// up to 512 bytes are needed for the content-type, the file may be shorter
+	reader := bufio.NewReaderSize(fp, 512)
+	head, err := reader.Peek(512)
+	if err != nil && !errors.Is(err, io.EOF) {
 		c.JSON(http.StatusBadRequest, gin.H{"error": errors.Wrapf(err, "cannot detect content-type for object %s - %s", object.GetID(), pathStr).Error()})
 		return
 	}
-	c.DataFromReader(http.StatusOK, fi.Size(), contentType, mimeReader, map[string]string{})
+	c.DataFromReader(http.StatusOK, fi.Size(), http.DetectContentType(head), reader, map[string]string{})
 }
 
 func (s *Server) download(c *gin.Context) {
-- 
2.43.0


From bef29be925729b59853bbd06f005f1581e6a2a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:54 +0000
Subject: [PATCH 080/110] fix: viewer: report shows the descriptive metadata of
 any version or fails without it

---
 gocfl/cmd/display/server.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/gocfl/cmd/display/server.go b/gocfl/cmd/display/server.go
index 6f016ea..764e367 100644
--- a/gocfl/cmd/display/server.go
+++ b/gocfl/cmd/display/server.go
@@ -25,6 +25,7 @@ import (
 	"net/http"
 	"net/url"
 	"path/filepath"
+	"slices"
 	"strings"
 	"sync"
 	"time"
@@ -919,18 +920,21 @@ func (s *Server) report(c *gin.Context) {
 			path = ""
 		}
 		fname := filepath.ToSlash(filepath.Join(path, metafileCfg.MetaName))
-		mPath, err := extManager.BuildObjectManifestPath(object, fname, area)
+		// an object without this area has no info file
+		mPath, err := extManager.BuildObjectStatePath(object, fname, area)
 		if err != nil {
-			c.JSON(http.StatusInternalServerError, gin.H{"error": errors.Wrapf(err, "cannot map %s:%s", area, fname).Error()})
-			return
+			s.log.Debug().Msgf("no info file for object %s: %v", object.GetID(), err)
+			mPath = ""
 		}
 
-		// search for info file
-		for ver, _ := range metadata.Versions {
-			fullpath := filepath.ToSlash(filepath.Join(ver, "content", mPath))
-			jsonData, err := fs.ReadFile(object.GetFS(), fullpath)
-			if err == nil && len(jsonData) > 0 {
-				infoBytes = jsonData
+		// search for info file of the newest version
+		for _, file := range metadata.Files {
+			if mPath != "" && len(file.InternalName) > 0 && slices.Contains(file.VersionName[inventory.GetHead()], mPath) {
+				infoBytes, err = fs.ReadFile(object.GetFS(), file.InternalName[0])
+				if err != nil {
+					c.JSON(http.StatusInternalServerError, gin.H{"error": errors.Wrapf(err, "cannot read %s", file.InternalName[0]).Error()})
+					return
+				}
 			}
 		}
 	}
-- 
2.43.0


From a416bbd3b24f90a5e0d7c520912dd666f89bb1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:55 +0000
Subject: [PATCH 081/110] fix: viewer: sizes of the filesystem metadata are not
 counted

---
 gocfl/cmd/display/server.go | 45 +++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/gocfl/cmd/display/server.go b/gocfl/cmd/display/server.go
index 764e367..f4692b3 100644
--- a/gocfl/cmd/display/server.go
+++ b/gocfl/cmd/display/server.go
@@ -725,21 +725,15 @@ func (s *Server) displayObject(c *gin.Context, object ocfl.Object, metadata *ocf
 		numFiles += len(v.InternalName)
 		_fs, _ := v.Extension[extension.FilesystemName]
 		_idx, _ := v.Extension[extension.IndexerName]
-		var fs map[string]any
 		var idx *indexer.ResultV2
 		var ok bool
-		var sizeDone bool
-		if _fs != nil {
-			if fs, ok = _fs.(map[string]any); ok {
-				if fs["size"] != nil {
-					size += fs["size"].(uint64)
-					sizeDone = true
-				}
-			}
-		}
+		fsSize, sizeDone := filesystemSize(_fs)
+		size += fsSize
 		if _idx != nil {
 			if idx, ok = _idx.(*indexer.ResultV2); ok {
-				size += idx.Size
+				if !sizeDone {
+					size += idx.Size
+				}
 				if idx.Size > 0 {
 					sizeDone = true
 				}
@@ -776,6 +770,19 @@ func (s *Server) displayObject(c *gin.Context, object ocfl.Object, metadata *ocf
 	c.HTML(http.StatusOK, "object.gohtml", gin.H(params))
 }
 
+// filesystemSize returns the size of a file according to its filesystem metadata.
+func filesystemSize(ext any) (uint64, bool) {
+	lines, _ := ext.(map[string][]*extension.FileSystemLine)
+	for _, versionLines := range lines {
+		for _, line := range versionLines {
+			if line.Meta != nil {
+				return line.Meta.Size, true
+			}
+		}
+	}
+	return 0, false
+}
+
 func (s *Server) report(c *gin.Context) {
 
 	var err error
@@ -823,21 +830,15 @@ func (s *Server) report(c *gin.Context) {
 		numFiles += len(v.InternalName)
 		_fs, _ := v.Extension[extension.FilesystemName]
 		_idx, _ := v.Extension[extension.IndexerName]
-		var fs map[string]any
 		var idx *indexer.ResultV2
 		var ok bool
-		var sizeDone bool
-		if _fs != nil {
-			if fs, ok = _fs.(map[string]any); ok {
-				if fs["size"] != nil {
-					size += fs["size"].(uint64)
-					sizeDone = true
-				}
-			}
-		}
+		fsSize, sizeDone := filesystemSize(_fs)
+		size += fsSize
 		if _idx != nil {
 			if idx, ok = _idx.(*indexer.ResultV2); ok {
-				size += idx.Size
+				if !sizeDone {
+					size += idx.Size
+				}
 				videoSecs += idx.Duration
 				if idx.Size > 0 {
 					sizeDone = true
-- 
2.43.0


From 0b8dc8c6233a857a8da45895561db2659ac3cd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:00 +0000
Subject: [PATCH 082/110] fix: metafile: update without source parameter panics

---
 pkg/extension/NNNN-metafile.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 0e8f37d..188db96 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -203,9 +203,6 @@ func toStringKeys(val interface{}) (interface{}, error) {
 }
 
 func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
-	if sl.metadataSource.Path == "" {
-		return nil
-	}
 	if sl.stored {
 		return nil
 	}
@@ -222,6 +219,9 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 		}
 		return nil
 	}
+	if sl.metadataSource.Path == "" {
+		return nil
+	}
 	if sl.fsys == nil {
 		return errors.New("no filesystem set")
 	}
-- 
2.43.0


From ccc38a3e3b8a5b043e0870445e3fc86da583b492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:03 +0000
Subject: [PATCH 083/110] fix: metafile: default name of the metadata file is
 not used

---
 pkg/extension/NNNN-metafile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 188db96..cf9ae41 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -82,6 +82,9 @@ func NewMetaFileFS(fsys fs.FS) (*MetaFile, error) {
 }
 func NewMetaFile(config *MetaFileConfig, schema []byte) (*MetaFile, error) {
 	var err error
+	if config.MetaName == "" {
+		config.MetaName = "info.json"
+	}
 	sl := &MetaFile{
 		MetaFileConfig: config,
 		schema:         schema,
-- 
2.43.0


From c457bb0c907cef7e1033dbcd0276f2595817f61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:44 +0000
Subject: [PATCH 084/110] fix: metafile: metadata is not found if its content
 is stored with another name or version, reports fail without metadata

---
 pkg/extension/NNNN-metafile.go | 45 ++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index cf9ae41..d7b7cc8 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -359,6 +359,43 @@ func (sl *MetaFile) UpdateObjectAfter(object ocfl.Object) error {
 	return nil
 }
 
+// readInfo returns the metadata of the version or nil if it has none
+func (sl *MetaFile) readInfo(object ocfl.Object, version string) ([]byte, error) {
+	var area string
+	var name = sl.MetaName
+	switch strings.ToLower(sl.StorageType) {
+	case "area":
+		area = sl.StorageName
+	case "path":
+		area = "content"
+		name = filepath.ToSlash(filepath.Join(sl.StorageName, sl.MetaName))
+	default:
+		data, err := ocfl.ReadFile(object, sl.MetaName, version, sl.StorageType, sl.StorageName, sl.fsys)
+		if errors.Is(err, fs.ErrNotExist) {
+			return nil, nil
+		}
+		return data, err
+	}
+	// the content may be stored with another name or in another version
+	names, err := object.BuildNames([]string{strings.TrimLeft(name, "/")}, area)
+	if err != nil {
+		return nil, errors.Wrapf(err, "cannot build names for '%s'", name)
+	}
+	var manifestPath string
+	if err := object.GetInventory().IterateStateFiles(version, func(internal []string, external []string, digest string) error {
+		if slices.Contains(external, names.ExternalPaths[0]) {
+			manifestPath = internal[0]
+		}
+		return nil
+	}); err != nil {
+		return nil, errors.Wrapf(err, "cannot read state of version '%s'", version)
+	}
+	if manifestPath == "" {
+		return nil, nil
+	}
+	return fs.ReadFile(object.GetFS(), manifestPath)
+}
+
 func (sl *MetaFile) GetMetadata(object ocfl.Object) (map[string]any, error) {
 	var err error
 	var result = map[string]any{}
@@ -371,12 +408,16 @@ func (sl *MetaFile) GetMetadata(object ocfl.Object) (map[string]any, error) {
 		if metadata, ok = sl.info[ver]; ok {
 			break
 		}
-		if metadata, err = ocfl.ReadFile(object, sl.MetaName, ver, sl.StorageType, sl.StorageName, sl.fsys); err == nil {
+		if metadata, err = sl.readInfo(object, ver); err != nil {
+			return nil, errors.Wrapf(err, "cannot read %s", sl.MetaName)
+		}
+		if metadata != nil {
 			break
 		}
 	}
 	if metadata == nil {
-		return nil, errors.Wrapf(err, "cannot read %s", sl.MetaName)
+		// there is no metadata yet
+		return result, nil
 	}
 	var metaStruct = map[string]any{}
 	if err := json.Unmarshal(metadata, &metaStruct); err != nil {
-- 
2.43.0


From 3d176771f986fcd2631e03068348666f6dd3f685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:48 +0000
Subject: [PATCH 085/110] fix: metafile: large numbers lose precision, toml
 dates and tables and extra json values are handled wrongly

---
 pkg/extension/NNNN-metafile.go | 40 +++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index d7b7cc8..71f5f1e 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -205,6 +205,19 @@ func toStringKeys(val interface{}) (interface{}, error) {
 	}
 }
 
+// decodeJSON decodes exactly one value without losing the precision of numbers
+func decodeJSON(data []byte) (result any, err error) {
+	jr := json.NewDecoder(bytes.NewReader(data))
+	jr.UseNumber()
+	if err := jr.Decode(&result); err != nil {
+		return nil, err
+	}
+	if _, err := jr.Token(); err != io.EOF {
+		return nil, errors.New("unexpected data after json value")
+	}
+	return result, nil
+}
+
 func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 	if sl.stored {
 		return nil
@@ -272,12 +285,12 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 
 	switch strings.ToLower(filepath.Ext(fname)) {
 	case ".json":
-		jr := json.NewDecoder(rc)
-		if err := jr.Decode(&info); err != nil {
-			return errors.Wrap(err, "cannot decode info file")
+		data, err := io.ReadAll(rc)
+		if err != nil {
+			return errors.Wrap(err, "cannot read info file")
 		}
-		if err := sl.compiledSchema.Validate(info); err != nil {
-			return errors.Wrap(err, "cannot validate info file")
+		if info, err = decodeJSON(data); err != nil {
+			return errors.Wrap(err, "cannot decode info file")
 		}
 	case ".yaml":
 		jr := yaml.NewDecoder(rc)
@@ -288,9 +301,6 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 		if err != nil {
 			return errors.Wrap(err, "cannot convert map[any]any to map[string]any")
 		}
-		if err := sl.compiledSchema.Validate(info); err != nil {
-			return errors.Wrap(err, "cannot validate info file")
-		}
 	case ".toml":
 		jr := toml.NewDecoder(rc)
 		if _, err := jr.Decode(&info); err != nil {
@@ -300,9 +310,6 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 		if err != nil {
 			return errors.Wrap(err, "cannot convert map[any]any to map[string]any")
 		}
-		if err := sl.compiledSchema.Validate(info); err != nil {
-			return errors.Wrap(err, "cannot validate info file")
-		}
 	default:
 		return errors.Errorf("unknown file extension in '%s' only .json, .toml and .yaml supported", fname)
 	}
@@ -311,6 +318,13 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot marshal info json")
 	}
+	// validate what is stored, there are no dates or tables of other formats
+	if info, err = decodeJSON(infoData); err != nil {
+		return errors.Wrap(err, "cannot decode info json")
+	}
+	if err := sl.compiledSchema.Validate(info); err != nil {
+		return errors.Wrap(err, "cannot validate info file")
+	}
 
 	switch strings.ToLower(sl.StorageType) {
 	case "area":
@@ -419,8 +433,8 @@ func (sl *MetaFile) GetMetadata(object ocfl.Object) (map[string]any, error) {
 		// there is no metadata yet
 		return result, nil
 	}
-	var metaStruct = map[string]any{}
-	if err := json.Unmarshal(metadata, &metaStruct); err != nil {
+	metaStruct, err := decodeJSON(metadata)
+	if err != nil {
 		return nil, errors.Wrapf(err, "cannot unmarshal '%s'", sl.MetaName)
 	}
 	result[""] = metaStruct
-- 
2.43.0


From 2bcccd9f36b7006f01f867501580e1504c75b69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:51 +0000
Subject: [PATCH 086/110] fix: metafile: several yaml documents and values
 which are no objects are accepted

---
 pkg/extension/NNNN-metafile.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 71f5f1e..ead2633 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -297,6 +297,10 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 		if err := jr.Decode(&info); err != nil {
 			return errors.Wrap(err, "cannot decode info file")
 		}
+		var more any
+		if err := jr.Decode(&more); err != io.EOF {
+			return errors.Errorf("info file has more than one document: %v", err)
+		}
 		info, err = toStringKeys(info)
 		if err != nil {
 			return errors.Wrap(err, "cannot convert map[any]any to map[string]any")
@@ -325,6 +329,9 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 	if err := sl.compiledSchema.Validate(info); err != nil {
 		return errors.Wrap(err, "cannot validate info file")
 	}
+	if _, ok := info.(map[string]any); !ok {
+		return errors.New("info file is not an object")
+	}
 
 	switch strings.ToLower(sl.StorageType) {
 	case "area":
-- 
2.43.0


From a6e7437141f3bea4b3d577e2414bd5731e250bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:47 +0000
Subject: [PATCH 087/110] fix: metafile: id is not escaped in urls of sources,
 error pages are taken as metadata

---
 pkg/extension/NNNN-metafile.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index ead2633..9f7deae 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -244,20 +244,22 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 	var rc io.ReadCloser
 	var fname string
 	switch strings.ToLower(sl.metadataSource.Scheme) {
-	case "http":
-		fname = strings.Replace(sl.metadataSource.String(), "$ID", object.GetID(), -1)
-		resp, err := http.Get(fname)
+	case "http", "https":
+		// the id has to be escaped within the url
+		source := *sl.metadataSource
+		source.Path = strings.Replace(source.Path, "$ID", object.GetID(), -1)
+		source.RawPath = ""
+		source.RawQuery = strings.Replace(source.RawQuery, "$ID", url.QueryEscape(object.GetID()), -1)
+		resp, err := http.Get(source.String())
 		if err != nil {
-			return errors.Wrapf(err, "cannot get '%s'", fname)
+			return errors.Wrapf(err, "cannot get '%s'", source.String())
 		}
-		rc = resp.Body
-	case "https":
-		fname = strings.Replace(sl.metadataSource.String(), "$ID", object.GetID(), -1)
-		resp, err := http.Get(fname)
-		if err != nil {
-			return errors.Wrapf(err, "cannot get '%s'", fname)
+		if resp.StatusCode != http.StatusOK {
+			resp.Body.Close()
+			return errors.Errorf("cannot get '%s': %s", source.String(), resp.Status)
 		}
 		rc = resp.Body
+		fname = source.Path
 	case "file":
 		fname = strings.Replace(sl.metadataSource.Path, "$ID", object.GetID(), -1)
 		fname = "/" + strings.TrimLeft(fname, "/")
-- 
2.43.0


From d36eb2f55077da9d0310539c13de88275baa0c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:17 +0000
Subject: [PATCH 088/110] fix: thumbnail: storing a thumbnail panics at random

---
 pkg/extension/NNNN-thumbnail.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index cd677cc..5777543 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -186,7 +186,7 @@ func (thumb *Thumbnail) storeThumbnail(object ocfl.Object, head string, mFile io
 	if thumb.SingleDirectory {
 		targetName = fmt.Sprintf("%s/%s/%05d.%s", subfolder, head, thumb.counter[head], strings.ToLower(thumb.ThumbnailConfig.Ext))
 	} else {
-		cs := fmt.Sprintf("%x", rand.Intn(64))
+		cs := fmt.Sprintf("%02x", rand.Intn(64))
 		targetName = fmt.Sprintf("%s/%s/%s/%s/%05d.%s", subfolder, head, string([]rune(cs)[0]), string([]rune(cs)[1]), thumb.counter[head], strings.ToLower(thumb.ThumbnailConfig.Ext))
 	}
 	switch strings.ToLower(thumb.StorageType) {
-- 
2.43.0


From b5a84b7e6e17a573fa09480aa116862e32625499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:20 +0000
Subject: [PATCH 089/110] fix: thumbnail: names of thumbnails have the path of
 the area several times, failed thumbnails have a name

---
 pkg/extension/NNNN-thumbnail.go | 49 ++++++++++++---------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index 5777543..aa9b083 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -183,34 +183,37 @@ func (thumb *Thumbnail) storeThumbnail(object ocfl.Object, head string, mFile io
 	if thumb.StorageType == "area" {
 		subfolder = "thumbnails"
 	}
+	subfolder = strings.Trim(filepath.ToSlash(subfolder), "/")
+	if subfolder == "" {
+		subfolder = "."
+	}
 	if thumb.SingleDirectory {
 		targetName = fmt.Sprintf("%s/%s/%05d.%s", subfolder, head, thumb.counter[head], strings.ToLower(thumb.ThumbnailConfig.Ext))
 	} else {
 		cs := fmt.Sprintf("%02x", rand.Intn(64))
 		targetName = fmt.Sprintf("%s/%s/%s/%s/%05d.%s", subfolder, head, string([]rune(cs)[0]), string([]rune(cs)[1]), thumb.counter[head], strings.ToLower(thumb.ThumbnailConfig.Ext))
 	}
+	targetName = filepath.ToSlash(filepath.Clean(targetName))
 	switch strings.ToLower(thumb.StorageType) {
 	case "area":
 		if digest, err = object.AddReader(mFile, []string{targetName}, thumb.StorageName, true, false); err != nil {
 			return "", "", errors.Wrapf(err, "cannot write '%s'", targetName)
 		}
-		areaPath, err := object.GetAreaPath(thumb.StorageName)
+		names, err := object.BuildNames([]string{targetName}, thumb.StorageName)
 		if err != nil {
-			return "", "", errors.Wrapf(err, "cannot get area path for '%s'", thumb.StorageName)
+			return "", "", errors.Wrapf(err, "cannot build names for '%s'", targetName)
 		}
-		return fmt.Sprintf("%s/%s", areaPath, targetName), digest, nil
+		return names.ExternalPaths[0], digest, nil
 	case "path":
-		path, err := object.GetAreaPath("content")
-		if err != nil {
-			return "", "", errors.Wrapf(err, "cannot get area path for '%s'", "content")
+		// the prefix of the area is added by AddReader()
+		if digest, err = object.AddReader(mFile, []string{targetName}, "content", true, false); err != nil {
+			return "", "", errors.Wrapf(err, "cannot write '%s'", targetName)
 		}
-		targetname := strings.TrimLeft(filepath.ToSlash(filepath.Join(path, thumb.StorageName, targetName)), "/")
-
-		//targetname := fmt.Sprintf("%s/%s_%s.jsonl%s", name, storageName, head, ext)
-		if digest, err = object.AddReader(mFile, []string{targetname}, "", true, false); err != nil {
-			return "", "", errors.Wrapf(err, "cannot write '%s'", targetname)
+		names, err := object.BuildNames([]string{targetName}, "content")
+		if err != nil {
+			return "", "", errors.Wrapf(err, "cannot build names for '%s'", targetName)
 		}
-		return targetname, digest, nil
+		return names.ExternalPaths[0], digest, nil
 	case "extension":
 		fp, err := writefs.Create(thumb.fsys, targetName)
 		if err != nil {
@@ -476,28 +479,12 @@ func (thumb *Thumbnail) GetMetadata(object ocfl.Object) (map[string]any, error)
 				result[meta.ThumbDigest] = meta
 			}
 			// old versions do not have a filename
-			if meta.Filename == "" {
+			if meta.Filename == "" && meta.Error == "" {
 				meta.Filename = fmt.Sprintf("data/%s/%s/%s.%s", string([]rune(meta.SourceDigest)[0]), string([]rune(meta.SourceDigest)[1]), meta.SourceDigest, strings.ToLower(thumb.ThumbnailConfig.Ext))
 			}
+			// the filename is stored with the path of its area
 			switch strings.ToLower(thumb.StorageType) {
-			case "area":
-				areaPath, err := object.GetAreaPath(thumb.StorageName)
-				if err != nil {
-					return nil, errors.Wrapf(err, "cannot get area path for '%s'", thumb.StorageName)
-				}
-				meta.Filename = fmt.Sprintf("%s/%s", areaPath, meta.Filename)
-			case "path":
-				areaPath, err := object.GetAreaPath("content")
-				if err != nil {
-					return nil, errors.Wrapf(err, "cannot get area path for '%s'", thumb.StorageName)
-				}
-				if areaPath == "" {
-					meta.Filename = fmt.Sprintf("%s/%s", thumb.StorageName, meta.Filename)
-				} else {
-					meta.Filename = fmt.Sprintf("%s/%s/%s", areaPath, thumb.StorageName, meta.Filename)
-				}
-			case "extension":
-				//				meta.Filename = fmt.Sprintf("extension/%s", meta.Filename)
+			case "area", "path", "extension":
 			default:
 				return nil, errors.Errorf("unsupported storage type '%s'", thumb.StorageType)
 			}
-- 
2.43.0


From 4b0cb871a9c5746a9fe5001a90527a1e27c38178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:48 +0000
Subject: [PATCH 090/110] fix: thumbnail: update of an object without
 configured functions panics

---
 pkg/extension/NNNN-thumbnail.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index aa9b083..5f1c531 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -322,6 +322,9 @@ func (thumb *Thumbnail) UpdateObjectAfter(object ocfl.Object) error {
 			if !ok {
 				continue
 			}
+			if thumb.thumbnail == nil {
+				continue
+			}
 			thumbnailFunction, err := thumb.thumbnail.GetFunctionByPronom(indexerMeta.Pronom)
 			if err != nil {
 				thumbnailFunction, err = thumb.thumbnail.GetFunctionByMimetype(indexerMeta.Mimetype)
-- 
2.43.0


From 80e090bed00adcc8110e3a981bd471344208a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:51 +0000
Subject: [PATCH 091/110] fix: thumbnail: update fails or takes the wrong file,
 if contents are read from the source

---
 pkg/extension/NNNN-thumbnail.go | 37 +++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index 5f1c531..50180db 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -11,6 +11,7 @@ import (
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/je4/gocfl/v2/pkg/subsystem/thumbnail"
 	"github.com/je4/indexer/v3/pkg/indexer"
+	"github.com/je4/utils/v2/pkg/checksum"
 	"github.com/je4/utils/v2/pkg/zLogger"
 	"golang.org/x/exp/slices"
 	_ "golang.org/x/image/bmp"
@@ -278,6 +279,30 @@ func (thumb *Thumbnail) DoThumbnail(object ocfl.Object, head string, thumbFunc *
 	return targetFile, digest, errors.Wrap(err, "cannot store thumbnail")
 }
 
+// openSource opens one of the files within the source, if it has the content with the digest.
+// There may be other files with the same name, if the object has several areas
+func (thumb *Thumbnail) openSource(object ocfl.Object, digest string, stateFiles []string) (io.ReadCloser, string) {
+	for _, stateFile := range stateFiles {
+		external, err := object.GetExtensionManager().BuildObjectExtractPath(object, stateFile, "")
+		if err != nil {
+			continue
+		}
+		file, err := thumb.sourceFS.Open(external)
+		if err != nil {
+			continue
+		}
+		cs, err := checksum.Checksum(file, object.GetInventory().GetDigestAlgorithm())
+		_ = file.Close()
+		if err != nil || !strings.EqualFold(cs, digest) {
+			continue
+		}
+		if file, err = thumb.sourceFS.Open(external); err == nil {
+			return file, filepath.Ext(external)
+		}
+	}
+	return nil, ""
+}
+
 func (thumb *Thumbnail) UpdateObjectBefore(ocfl.Object) error {
 	return nil
 }
@@ -350,19 +375,9 @@ func (thumb *Thumbnail) UpdateObjectAfter(object ocfl.Object) error {
 					if err != nil {
 						return errors.Wrapf(err, "cannot get state files for checksum '%s' in object '%s'", cs, object.GetID())
 					}
-					if len(stateFiles) == 0 {
-						return errors.Errorf("zero state file for checksum '%s' in object '%s'", cs, object.GetID())
-					}
-					external, err := object.GetExtensionManager().BuildObjectExtractPath(object, stateFiles[len(stateFiles)-1], "")
-					if err != nil {
-						return errors.Wrapf(err, "cannot build external path for file '%s' in object '%s'", stateFiles[len(stateFiles)-1], object.GetID())
-					}
-					file, err = thumb.sourceFS.Open(external)
-					if err != nil {
+					if file, ext = thumb.openSource(object, cs, stateFiles); file == nil {
 						continue
-						// return errors.Wrapf(err, "cannot open file '%v/%s' in source filesystem", thumb.sourceFS, external)
 					}
-					ext = filepath.Ext(external)
 				}
 			}
 			if file != nil {
-- 
2.43.0


From 3dce9b19ce579297c35b5786f79063a3edd2514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:02 +0000
Subject: [PATCH 092/110] fix: migration of files whose content can be read
 from the source only

Content of other areas or of former updates made the whole update fail, the
wrong file with the same name could be converted and a version without any
change was created.
---
 pkg/extension/NNNN-migration.go | 38 +++++++++++++--------------------
 pkg/extension/NNNN-thumbnail.go |  8 +++----
 2 files changed, 19 insertions(+), 27 deletions(-)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index e527c73..207b193 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -300,41 +300,29 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 			targetNames = append(targetNames, t)
 		}
 
-		mi.migratedFiles[head][cs] = manifestFiles[0]
-
 		var file io.ReadCloser
 		var ext string
 		fsys := object.GetFS()
 		if fsys != nil {
-			file, err = fsys.Open(manifestFiles[0])
-			if err != nil {
+			for _, manifestFile := range manifestFiles {
+				file, err = fsys.Open(manifestFile)
+				if err == nil {
+					ext = filepath.Ext(manifestFile)
+					break
+				}
 				file = nil
 			}
-			ext = filepath.Ext(manifestFiles[0])
 		}
 		if file == nil {
 			if mi.sourceFS != nil {
-				stateFiles, err := inventory.GetStateFiles("", cs)
-				if err != nil {
-					return errors.Wrapf(err, "cannot get state files for checksum '%s' in object '%s'", cs, object.GetID())
-				}
-				if len(stateFiles) == 0 {
-					return errors.Errorf("zero state file for checksum '%s' in object '%s'", cs, object.GetID())
-				}
-				external, err := object.GetExtensionManager().BuildObjectExtractPath(object, stateFiles[len(stateFiles)-1], "")
-				if err != nil {
-					return errors.Wrapf(err, "cannot build external path for file '%s' in object '%s'", stateFiles[len(stateFiles)-1], object.GetID())
-				}
-				file, err = mi.sourceFS.Open(external)
-				if err != nil {
-					return errors.Wrapf(err, "cannot open file '%v/%s' in source filesystem", mi.sourceFS, targetNames[len(targetNames)-1])
-				}
-				ext = filepath.Ext(external)
-			} else {
-				// todo: this is not correct
+				file, ext = openSource(object, mi.sourceFS, cs, stateFiles)
+			}
+			if file == nil {
+				// content is not available now, try again with the next update
 				continue
 			}
 		}
+		mi.migratedFiles[head][cs] = manifestFiles[0]
 		var ml *migrationLine
 		// the target names have the prefix of their area already
 		manifestName, err := extensionManager.BuildObjectManifestPath(object, targetNames[0], "full")
@@ -420,6 +408,10 @@ func (mi *Migration) DoNewVersion(object ocfl.Object) error {
 	if !ok {
 		return nil
 	}
+	// nothing to report, there is no need for a new version
+	if len(mi.migratedFiles[head]) == 0 {
+		return nil
+	}
 	if err := ocfl.WriteJsonL(
 		object,
 		"migration",
diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index 50180db..d2e0fb1 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -281,13 +281,13 @@ func (thumb *Thumbnail) DoThumbnail(object ocfl.Object, head string, thumbFunc *
 
 // openSource opens one of the files within the source, if it has the content with the digest.
 // There may be other files with the same name, if the object has several areas
-func (thumb *Thumbnail) openSource(object ocfl.Object, digest string, stateFiles []string) (io.ReadCloser, string) {
+func openSource(object ocfl.Object, sourceFS fs.FS, digest string, stateFiles []string) (io.ReadCloser, string) {
 	for _, stateFile := range stateFiles {
 		external, err := object.GetExtensionManager().BuildObjectExtractPath(object, stateFile, "")
 		if err != nil {
 			continue
 		}
-		file, err := thumb.sourceFS.Open(external)
+		file, err := sourceFS.Open(external)
 		if err != nil {
 			continue
 		}
@@ -296,7 +296,7 @@ func (thumb *Thumbnail) openSource(object ocfl.Object, digest string, stateFiles
 		if err != nil || !strings.EqualFold(cs, digest) {
 			continue
 		}
-		if file, err = thumb.sourceFS.Open(external); err == nil {
+		if file, err = sourceFS.Open(external); err == nil {
 			return file, filepath.Ext(external)
 		}
 	}
@@ -375,7 +375,7 @@ func (thumb *Thumbnail) UpdateObjectAfter(object ocfl.Object) error {
 					if err != nil {
 						return errors.Wrapf(err, "cannot get state files for checksum '%s' in object '%s'", cs, object.GetID())
 					}
-					if file, ext = thumb.openSource(object, cs, stateFiles); file == nil {
+					if file, ext = openSource(object, thumb.sourceFS, cs, stateFiles); file == nil {
 						continue
 					}
 				}
-- 
2.43.0


From 5af258c7cff1214823cd12b9289a33fc69e2d49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:23 +0000
Subject: [PATCH 093/110] fix: no panic without a migration service

---
 pkg/extension/NNNN-migration.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/extension/NNNN-migration.go b/pkg/extension/NNNN-migration.go
index 207b193..ea65ef4 100644
--- a/pkg/extension/NNNN-migration.go
+++ b/pkg/extension/NNNN-migration.go
@@ -161,6 +161,10 @@ func (mi *Migration) UpdateObjectAfter(object ocfl.Object) error {
 	if inventory == nil {
 		return errors.Errorf("inventory is nil")
 	}
+	// no migration service
+	if mi.migration == nil {
+		return nil
+	}
 
 	// first get the metadata from the object
 	meta, err := object.GetMetadata()
-- 
2.43.0


From c11ce42b6c2cbbd6d53639ac65271266bf21065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:38 +0000
Subject: [PATCH 094/110] fix: viewer: report of an object without descriptive
 metadata

---
 gocfl/cmd/display/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gocfl/cmd/display/server.go b/gocfl/cmd/display/server.go
index f4692b3..ada1817 100644
--- a/gocfl/cmd/display/server.go
+++ b/gocfl/cmd/display/server.go
@@ -909,7 +909,8 @@ func (s *Server) report(c *gin.Context) {
 		}
 		infoname := strings.TrimLeft(filepath.ToSlash(filepath.Join(metafileCfg.StorageName, metafileCfg.MetaName)), "/")
 		infoBytes, err = fs.ReadFile(fsys, infoname)
-		if err != nil {
+		// the object may have no descriptive metadata
+		if err != nil && !errors.Is(err, fs.ErrNotExist) {
 			c.JSON(http.StatusInternalServerError, gin.H{"error": errors.Wrapf(err, "cannot open %v/%s", fsys, infoname).Error()})
 			return
 		}
-- 
2.43.0


From b8cb3138703e57a51de5a7a56c284f93e7f85d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:11 +0000
Subject: [PATCH 095/110] fix: incomplete statistics of an object without an
 error

---
 pkg/ocfl/objectbase.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 5352d4c..0e329fc 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -167,7 +167,9 @@ func (object *ObjectBase) GetMetadata() (*ObjectMetadata, error) {
 	return result, nil
 }
 
-func (object *ObjectBase) Stat(w io.Writer, statInfo []StatInfo) error {
+func (object *ObjectBase) Stat(out io.Writer, statInfo []StatInfo) error {
+	// nothing must be missing without an error
+	w := &bytes.Buffer{}
 	fmt.Fprintf(w, "[%s] Path: %s\n", object.GetID(), object.GetDigestAlgorithm())
 	i := object.GetInventory()
 	fmt.Fprintf(w, "[%s] Head: %s\n", object.GetID(), i.GetHead())
@@ -221,6 +223,9 @@ func (object *ObjectBase) Stat(w io.Writer, statInfo []StatInfo) error {
 			fmt.Fprintf(w, "---\n%s\n", str)
 		}
 	}
+	if _, err := out.Write(w.Bytes()); err != nil {
+		return errors.Wrap(err, "cannot write to writer")
+	}
 	return nil
 }
 
-- 
2.43.0


From ebd2503b25dfb5e2e492f978ff6737aa5829afed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:15 +0000
Subject: [PATCH 096/110] fix: statistics list versions and files in a fixed
 order

---
 pkg/ocfl/objectbase.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 0e329fc..706b707 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -178,6 +178,8 @@ func (object *ObjectBase) Stat(out io.Writer, statInfo []StatInfo) error {
 	for alg, _ := range f {
 		algs = append(algs, string(alg))
 	}
+	// map order is random
+	slices.Sort(algs)
 	fmt.Fprintf(w, "[%s] Fixity: %s\n", object.GetID(), strings.Join(algs, ", "))
 	m := i.GetManifest()
 	cnt := 0
@@ -186,15 +188,24 @@ func (object *ObjectBase) Stat(out io.Writer, statInfo []StatInfo) error {
 	}
 	fmt.Fprintf(w, "[%s] Manifest: %v files (%v unique files)\n", object.GetID(), cnt, len(m))
 	if slices.Contains(statInfo, StatObjectVersions) || len(statInfo) == 0 {
-		for vString, version := range i.GetVersions() {
+		versions := i.GetVersions()
+		vStrings := i.GetVersionStrings()
+		if len(vStrings) != len(versions) {
+			vStrings = maps.Keys(versions)
+			slices.Sort(vStrings)
+		}
+		for _, vString := range vStrings {
+			version := versions[vString]
 			fmt.Fprintf(w, "[%s] Version %s\n", object.GetID(), vString)
 			fmt.Fprintf(w, "[%s]     User: %s (%s)\n", object.GetID(), version.User.User.Name.string, version.User.User.Address.string)
 			fmt.Fprintf(w, "[%s]     Created: %s\n", object.GetID(), version.Created.String())
 			fmt.Fprintf(w, "[%s]     Message: %s\n", object.GetID(), version.Message.string)
 			if slices.Contains(statInfo, StatObjectVersionState) || len(statInfo) == 0 {
 				state := version.State.State
-				for cs, sList := range state {
-					for _, s := range sList {
+				checksums := maps.Keys(state)
+				slices.Sort(checksums)
+				for _, cs := range checksums {
+					for _, s := range state[cs] {
 						fmt.Fprintf(w, "[%s]        %s\n", object.GetID(), s)
 						if slices.Contains(statInfo, StatObjectManifest) || len(statInfo) == 0 {
 							ms, ok := m[cs]
-- 
2.43.0


From fe4a135bc4abb683be5451a0f586dde22e46f199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:38 +0000
Subject: [PATCH 097/110] fix: storage root is read by the name of its own
 folder

The empty name is not valid for file systems of the standard library, and
an object which does not exist was an error there.
---
 pkg/ocfl/storagerootbase.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index a334545..34e7ef7 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -229,7 +229,7 @@ func (osr *StorageRootBase) StoreExtensionConfig(name string, config any) error
 }
 
 func (osr *StorageRootBase) GetFiles() ([]string, error) {
-	dirs, err := fs.ReadDir(osr.fsys, "")
+	dirs, err := fs.ReadDir(osr.fsys, ".")
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot read folders of storage root")
 	}
@@ -244,7 +244,7 @@ func (osr *StorageRootBase) GetFiles() ([]string, error) {
 }
 
 func (osr *StorageRootBase) GetFolders() ([]string, error) {
-	dirs, err := fs.ReadDir(osr.fsys, "")
+	dirs, err := fs.ReadDir(osr.fsys, ".")
 	if err != nil {
 		return nil, errors.Wrap(err, "cannot read folders of storage root")
 	}
@@ -274,9 +274,9 @@ func (osr *StorageRootBase) ObjectExists(id string) (bool, error) {
 	if err != nil {
 		return false, errors.Wrapf(err, "cannot create subfs %s of %v", folder, osr.fsys)
 	}
-	dirs, err := fs.ReadDir(subFS, "")
+	dirs, err := fs.ReadDir(subFS, ".")
 	if err != nil {
-		if err == fs.ErrNotExist {
+		if errors.Is(err, fs.ErrNotExist) {
 			return false, nil
 		}
 		return false, errors.Wrapf(err, "cannot read content of %s", folder)
-- 
2.43.0


From e61edf8ea88fc329a3427c19c4c5335cf0f630cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:32 +0000
Subject: [PATCH 098/110] fix: files with names which leave the object are
 refused

---
 pkg/ocfl/objectbase.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 706b707..0d4b968 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -842,6 +842,18 @@ func (object *ObjectBase) BuildNames(files []string, area string) (*NamesStruct,
 	return result, nil
 }
 
+// checkNames checks, that the names do not leave the version or the state of the object
+func checkNames(names *NamesStruct) error {
+	for _, name := range append([]string{names.InternalPath}, names.ExternalPaths...) {
+		for _, part := range strings.Split(name, "/") {
+			if part == "" || part == "." || part == ".." {
+				return errors.Errorf("invalid filename '%s'", name)
+			}
+		}
+	}
+	return nil
+}
+
 func (object *ObjectBase) AddReader(r io.ReadCloser, files []string, area string, noExtensionHook bool, isDir bool) (string, error) {
 	if len(files) == 0 {
 		return "", errors.New("no files given")
@@ -857,6 +869,9 @@ func (object *ObjectBase) AddReader(r io.ReadCloser, files []string, area string
 	if err != nil {
 		return "", errors.Wrapf(err, "cannot build names for %v", files)
 	}
+	if err := checkNames(names); err != nil && !isDir {
+		return "", errors.Wrapf(err, "cannot add %v", files)
+	}
 
 	object.logger.Info().Msgf("adding file %s:%v", area, files)
 
@@ -902,6 +917,9 @@ func (object *ObjectBase) AddData(data []byte, path string, checkDuplicate bool,
 		return errors.Wrapf(err, "cannot names for '%s'", path)
 
 	}
+	if err := checkNames(names); err != nil && !isDir {
+		return errors.Wrapf(err, "cannot add '%s'", path)
+	}
 
 	object.logger.Info().Msgf("adding file %s:%s", area, path)
 
@@ -986,6 +1004,9 @@ func (object *ObjectBase) AddFile(fsys fs.FS, versionFS fs.FS, path string, chec
 	if err != nil {
 		return errors.Wrapf(err, "cannot create virtual filename for '%s'", path)
 	}
+	if err := checkNames(names); err != nil && !isDir {
+		return errors.Wrapf(err, "cannot add '%s'", path)
+	}
 
 	targetFilename := object.i.BuildManifestName(names.InternalPath)
 
-- 
2.43.0


From a342b772f2a5686ce395ae6245baeb431d0a130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:30 +0000
Subject: [PATCH 099/110] fix: metafile: document replaced config or schema of
 the extension

---
 pkg/extension/NNNN-metafile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 9f7deae..f1f5e39 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -351,6 +351,10 @@ func (sl *MetaFile) UpdateObjectBefore(object ocfl.Object) error {
 		}
 	case "extension":
 		targetname := strings.TrimLeft(filepath.ToSlash(filepath.Join(sl.StorageName, sl.MetaName)), "/")
+		// the folder of the extension contains the config and the schema
+		if !fs.ValidPath(targetname) || targetname == "config.json" || targetname == filepath.ToSlash(filepath.Clean(sl.MetaSchema)) {
+			return errors.Errorf("invalid name of metadata file '%s'", targetname)
+		}
 		if _, err := writefs.WriteFile(sl.fsys, targetname, infoData); err != nil {
 			return errors.Wrapf(err, "cannot write file '%v/%s'", sl.fsys, targetname)
 		}
-- 
2.43.0


From fcb450119ba10f762e4519ff9ee1ba5a94eb455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:09 +0000
Subject: [PATCH 100/110] fix: thumbnail: pictures without pixels or with
 extreme ratios

---
 pkg/extension/NNNN-thumbnail.go         |  8 ++++++++
 pkg/extension/NNNN-thumbnail_imagick.go | 12 ++----------
 pkg/extension/NNNN-thumbnail_native.go  | 16 ++++++----------
 3 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index d2e0fb1..b1c221b 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -303,6 +303,14 @@ func openSource(object ocfl.Object, sourceFS fs.FS, digest string, stateFiles []
 	return nil, ""
 }
 
+// pictureSize returns the size of the thumbnail of a picture: as large as possible with the same aspect ratio
+func (thumb *Thumbnail) pictureSize(width, height uint64) (uint64, uint64) {
+	if width*thumb.Height > height*thumb.Width {
+		return thumb.Width, max(1, height*thumb.Width/width)
+	}
+	return max(1, width*thumb.Height/height), thumb.Height
+}
+
 func (thumb *Thumbnail) UpdateObjectBefore(ocfl.Object) error {
 	return nil
 }
diff --git a/pkg/extension/NNNN-thumbnail_imagick.go b/pkg/extension/NNNN-thumbnail_imagick.go
index 529383b..30e0c1c 100644
--- a/pkg/extension/NNNN-thumbnail_imagick.go
+++ b/pkg/extension/NNNN-thumbnail_imagick.go
@@ -59,17 +59,9 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	}
 	thumb.logger.Info().Msgf("image '%s' format: %s, size: %d x %d", stateFiles[0], mw.GetFormat(), width, height)
 
-	rectAspect := width / height
-	thumbAspect := uint(thumb.Width) / uint(thumb.Height)
-	newHeight := uint(thumb.Height)
-	newWidth := uint(thumb.Width)
-	if rectAspect > thumbAspect {
-		newHeight = uint(height * uint(thumb.Width) / width)
-	} else {
-		newWidth = uint(width * uint(thumb.Height) / height)
-	}
+	newWidth, newHeight := thumb.pictureSize(uint64(width), uint64(height))
 
-	if err := mw.ResizeImage(newWidth, newHeight, imagick.FILTER_LANCZOS); err != nil {
+	if err := mw.ResizeImage(uint(newWidth), uint(newHeight), imagick.FILTER_LANCZOS); err != nil {
 		thumb.logger.Info().Msgf("cannot resize image '%s': %v", stateFiles[0], err)
 		return nil
 	}
diff --git a/pkg/extension/NNNN-thumbnail_native.go b/pkg/extension/NNNN-thumbnail_native.go
index 8dc0f7f..d3f6c22 100644
--- a/pkg/extension/NNNN-thumbnail_native.go
+++ b/pkg/extension/NNNN-thumbnail_native.go
@@ -51,17 +51,13 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	rect := img.Bounds()
 	thumb.logger.Info().Msgf("image format: %s, size: %d x %d", format, rect.Dx(), rect.Dy())
 
-	rectAspect := rect.Dx() / rect.Dy()
-	thumbAspect := int(thumb.Width) / int(thumb.Height)
-	newHeight := uint(thumb.Height)
-	newWidth := uint(thumb.Width)
-	if rectAspect > thumbAspect {
-		newHeight = uint(rect.Dy() * int(thumb.Width) / rect.Dx())
-	} else {
-		newWidth = uint(rect.Dx() * int(thumb.Height) / rect.Dy())
+	if rect.Empty() {
+		thumb.logger.Info().Msgf("image '%s' has zero size", stateFiles[0])
+		return nil
 	}
+	newWidth, newHeight := thumb.pictureSize(uint64(rect.Dx()), uint64(rect.Dy()))
 
-	newImg := resize.Resize(newWidth, newHeight, img, resize.Lanczos3)
+	newImg := resize.Resize(uint(newWidth), uint(newHeight), img, resize.Lanczos3)
 	img = nil // free memory
 
 	fsys := object.GetFS()
@@ -73,7 +69,7 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	go func() {
 		defer pw.Close()
 		var err error = nil
-		switch thumb.ThumbnailConfig.Ext {
+		switch strings.ToLower(thumb.ThumbnailConfig.Ext) {
 		case "png":
 			err = png.Encode(pw, newImg)
 		case "jpeg":
-- 
2.43.0


From a2a3d57e75150111ab8534d4dde198b71c97d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:12 +0000
Subject: [PATCH 101/110] fix: thumbnail: contents with cleaned names

---
 pkg/extension/NNNN-thumbnail_imagick.go | 3 +--
 pkg/extension/NNNN-thumbnail_native.go  | 3 +--
 pkg/extension/NNNN-thumbnail_vips.go    | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/pkg/extension/NNNN-thumbnail_imagick.go b/pkg/extension/NNNN-thumbnail_imagick.go
index 30e0c1c..32b67a9 100644
--- a/pkg/extension/NNNN-thumbnail_imagick.go
+++ b/pkg/extension/NNNN-thumbnail_imagick.go
@@ -4,7 +4,6 @@ package extension
 
 import (
 	"emperror.dev/errors"
-	"fmt"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"gopkg.in/gographics/imagick.v3/imagick"
 	"io"
@@ -28,7 +27,7 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	if _, ok := thumb.streamInfo[head]; !ok {
 		thumb.streamInfo[head] = map[string]*ThumbnailResult{}
 	}
-	infoName := fmt.Sprintf("%s/content/%s", head, stateFiles[0])
+	infoName := inventory.BuildManifestName(dest)
 	if _, ok := thumb.streamInfo[head][infoName]; ok {
 		thumb.logger.Info().Msgf("thumbnail for '%s' already created", stateFiles[0])
 		return nil
diff --git a/pkg/extension/NNNN-thumbnail_native.go b/pkg/extension/NNNN-thumbnail_native.go
index d3f6c22..98d5772 100644
--- a/pkg/extension/NNNN-thumbnail_native.go
+++ b/pkg/extension/NNNN-thumbnail_native.go
@@ -4,7 +4,6 @@ package extension
 
 import (
 	"emperror.dev/errors"
-	"fmt"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/nfnt/resize"
 	_ "golang.org/x/image/bmp"
@@ -36,7 +35,7 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	if _, ok := thumb.streamInfo[head]; !ok {
 		thumb.streamInfo[head] = map[string]*ThumbnailResult{}
 	}
-	infoName := fmt.Sprintf("%s/content/%s", head, stateFiles[0])
+	infoName := inventory.BuildManifestName(dest)
 	if _, ok := thumb.streamInfo[head][infoName]; ok {
 		thumb.logger.Info().Msgf("thumbnail for '%s' already created", stateFiles[0])
 		return nil
diff --git a/pkg/extension/NNNN-thumbnail_vips.go b/pkg/extension/NNNN-thumbnail_vips.go
index b397941..414b140 100644
--- a/pkg/extension/NNNN-thumbnail_vips.go
+++ b/pkg/extension/NNNN-thumbnail_vips.go
@@ -4,7 +4,6 @@ package extension
 
 import (
 	"emperror.dev/errors"
-	"fmt"
 	"github.com/davidbyttow/govips/v2/vips"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"io"
@@ -28,7 +27,7 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	if _, ok := thumb.streamInfo[head]; !ok {
 		thumb.streamInfo[head] = map[string]*ThumbnailResult{}
 	}
-	infoName := fmt.Sprintf("%s/content/%s", head, stateFiles[0])
+	infoName := inventory.BuildManifestName(dest)
 	if _, ok := thumb.streamInfo[head][infoName]; ok {
 		thumb.logger.Info().Msgf("thumbnail for '%s' already created", stateFiles[0])
 		return nil
-- 
2.43.0


From 5259d7f1182cadd2460f199d4c350255a6b1c23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:22 +0000
Subject: [PATCH 102/110] fix: thumbnail: made for contents which are not
 stored again

---
 pkg/extension/NNNN-thumbnail.go         | 71 ++++++++++++++++++++++---
 pkg/extension/NNNN-thumbnail_imagick.go | 30 +----------
 pkg/extension/NNNN-thumbnail_native.go  | 54 ++++---------------
 pkg/extension/NNNN-thumbnail_vips.go    | 29 +---------
 4 files changed, 75 insertions(+), 109 deletions(-)

diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index b1c221b..3727a54 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -112,7 +112,7 @@ func NewThumbnail(config *ThumbnailConfig, mig *thumbnail.Thumbnail, logger zLog
 		thumbnail:       mig,
 		buffer:          map[string]*bytes.Buffer{},
 		counter:         map[string]int64{},
-		streamInfo:      map[string]map[string]*ThumbnailResult{},
+		streamInfo:      map[string]map[string]*streamThumbnail{},
 	}
 	//	sl.writer = brotli.NewWriter(sl.buffer)
 	if config.ExtensionName != sl.GetName() {
@@ -124,6 +124,12 @@ func NewThumbnail(config *ThumbnailConfig, mig *thumbnail.Thumbnail, logger zLog
 	return sl, nil
 }
 
+// streamThumbnail is a thumbnail of new content, which is not stored before the end of the update
+type streamThumbnail struct {
+	id   string
+	data *io.SectionReader
+}
+
 type Thumbnail struct {
 	*ThumbnailConfig
 	logger      zLogger.ZLogger
@@ -136,7 +142,8 @@ type Thumbnail struct {
 	currentHead string
 	done        bool
 	counter     map[string]int64
-	streamInfo  map[string]map[string]*ThumbnailResult
+	streamInfo  map[string]map[string]*streamThumbnail
+	streamFile  *os.File
 }
 
 func (thumb *Thumbnail) Terminate() error {
@@ -311,11 +318,49 @@ func (thumb *Thumbnail) pictureSize(width, height uint64) (uint64, uint64) {
 	return max(1, width*thumb.Height/height), thumb.Height
 }
 
+// keepThumbnail keeps the thumbnail of new content until the end of the update.
+// As long as the content is written no other file can be created on every filesystem
+func (thumb *Thumbnail) keepThumbnail(head, contentPath, id string, data []byte) error {
+	if thumb.streamFile == nil {
+		fp, err := os.CreateTemp(os.TempDir(), "gocfl_*")
+		if err != nil {
+			return errors.Wrap(err, "cannot create temp file")
+		}
+		thumb.streamFile = fp
+		// not possible on every operating system
+		_ = os.Remove(fp.Name())
+	}
+	offset, err := thumb.streamFile.Seek(0, io.SeekEnd)
+	if err != nil {
+		return errors.Wrapf(err, "cannot seek in '%s'", thumb.streamFile.Name())
+	}
+	if _, err := thumb.streamFile.Write(data); err != nil {
+		return errors.Wrapf(err, "cannot write to '%s'", thumb.streamFile.Name())
+	}
+	if _, ok := thumb.streamInfo[head]; !ok {
+		thumb.streamInfo[head] = map[string]*streamThumbnail{}
+	}
+	thumb.streamInfo[head][contentPath] = &streamThumbnail{id: id, data: io.NewSectionReader(thumb.streamFile, offset, int64(len(data)))}
+	return nil
+}
+
+// dropThumbnails removes the thumbnails of the update
+func (thumb *Thumbnail) dropThumbnails() {
+	thumb.streamInfo = map[string]map[string]*streamThumbnail{}
+	if thumb.streamFile != nil {
+		_ = thumb.streamFile.Close()
+		_ = os.Remove(thumb.streamFile.Name())
+		thumb.streamFile = nil
+	}
+}
+
 func (thumb *Thumbnail) UpdateObjectBefore(ocfl.Object) error {
+	thumb.dropThumbnails()
 	return nil
 }
 
 func (thumb *Thumbnail) UpdateObjectAfter(object ocfl.Object) error {
+	defer thumb.dropThumbnails()
 	inventory := object.GetInventory()
 	head := inventory.GetHead()
 	thumb.buffer[head] = &bytes.Buffer{}
@@ -335,18 +380,28 @@ func (thumb *Thumbnail) UpdateObjectAfter(object ocfl.Object) error {
 	}
 	for cs, m := range meta.Files {
 		var found *ThumbnailResult = nil
+		// the content has been stored before
+		if _, ok := m.Extension[ThumbnailName]; ok {
+			continue
+		}
 		for name, info := range thumb.streamInfo[head] {
 			if slices.Contains(m.InternalName, name) {
-				found = info
-				found.SourceDigest = cs
+				thumb.counter[head]++
+				targetFile, digest, err := thumb.storeThumbnail(object, head, io.NopCloser(info.data))
+				if err != nil {
+					return errors.Wrap(err, "cannot store thumbnail")
+				}
+				found = &ThumbnailResult{
+					SourceDigest: cs,
+					Filename:     targetFile,
+					Ext:          thumb.ThumbnailConfig.Ext,
+					ID:           info.id,
+					ThumbDigest:  digest,
+				}
 				break
 			}
 		}
 		if found == nil {
-			_, ok := m.Extension[ThumbnailName]
-			if ok {
-				continue
-			}
 			indexerMetaAny, ok := m.Extension[IndexerName]
 			if !ok {
 				continue
diff --git a/pkg/extension/NNNN-thumbnail_imagick.go b/pkg/extension/NNNN-thumbnail_imagick.go
index 32b67a9..5aa2f97 100644
--- a/pkg/extension/NNNN-thumbnail_imagick.go
+++ b/pkg/extension/NNNN-thumbnail_imagick.go
@@ -21,12 +21,6 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	}
 	inventory := object.GetInventory()
 	head := inventory.GetHead()
-	if _, ok := thumb.counter[head]; !ok {
-		thumb.counter[head] = 0
-	}
-	if _, ok := thumb.streamInfo[head]; !ok {
-		thumb.streamInfo[head] = map[string]*ThumbnailResult{}
-	}
 	infoName := inventory.BuildManifestName(dest)
 	if _, ok := thumb.streamInfo[head][infoName]; ok {
 		thumb.logger.Info().Msgf("thumbnail for '%s' already created", stateFiles[0])
@@ -72,27 +66,5 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	mw.ResetIterator()
 	imgBytes = mw.GetImageBlob()
 
-	fsys := object.GetFS()
-	if fsys == nil {
-		return errors.New("no filesystem set")
-	}
-
-	thumb.counter[head]++
-	targetFile, digest, err := thumb.storeThumbnail(object, head, io.NopCloser(strings.NewReader(string(imgBytes))))
-	if err != nil {
-		return errors.Wrap(err, "cannot store thumbnail")
-	}
-	imgBytes = nil // free memory
-
-	thumb.logger.Info().Msgf("thumbnail stored: %s", targetFile)
-	ml := &ThumbnailResult{
-		//SourceDigest: cs,
-		Filename:    targetFile,
-		Ext:         thumb.ThumbnailConfig.Ext,
-		Error:       "",
-		ID:          "internal imagick",
-		ThumbDigest: digest,
-	}
-	thumb.streamInfo[head][infoName] = ml
-	return nil
+	return thumb.keepThumbnail(head, infoName, "internal imagick", imgBytes)
 }
diff --git a/pkg/extension/NNNN-thumbnail_native.go b/pkg/extension/NNNN-thumbnail_native.go
index 98d5772..bd42d89 100644
--- a/pkg/extension/NNNN-thumbnail_native.go
+++ b/pkg/extension/NNNN-thumbnail_native.go
@@ -3,6 +3,7 @@
 package extension
 
 import (
+	"bytes"
 	"emperror.dev/errors"
 	"github.com/je4/gocfl/v2/pkg/ocfl"
 	"github.com/nfnt/resize"
@@ -29,12 +30,6 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	}
 	inventory := object.GetInventory()
 	head := inventory.GetHead()
-	if _, ok := thumb.counter[head]; !ok {
-		thumb.counter[head] = 0
-	}
-	if _, ok := thumb.streamInfo[head]; !ok {
-		thumb.streamInfo[head] = map[string]*ThumbnailResult{}
-	}
 	infoName := inventory.BuildManifestName(dest)
 	if _, ok := thumb.streamInfo[head][infoName]; ok {
 		thumb.logger.Info().Msgf("thumbnail for '%s' already created", stateFiles[0])
@@ -59,46 +54,15 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	newImg := resize.Resize(uint(newWidth), uint(newHeight), img, resize.Lanczos3)
 	img = nil // free memory
 
-	fsys := object.GetFS()
-	if fsys == nil {
-		return errors.New("no filesystem set")
+	buf := &bytes.Buffer{}
+	switch strings.ToLower(thumb.ThumbnailConfig.Ext) {
+	case "png":
+		err = png.Encode(buf, newImg)
+	case "jpeg":
+		err = jpeg.Encode(buf, newImg, nil)
 	}
-	pr, pw := io.Pipe()
-	done := make(chan bool, 1)
-	go func() {
-		defer pw.Close()
-		var err error = nil
-		switch strings.ToLower(thumb.ThumbnailConfig.Ext) {
-		case "png":
-			err = png.Encode(pw, newImg)
-		case "jpeg":
-			err = jpeg.Encode(pw, newImg, nil)
-		default:
-			err = errors.Errorf("unsupported image format '%s'", thumb.ThumbnailConfig.Ext)
-		}
-		if err != nil {
-			_ = pw.CloseWithError(errors.Wrap(err, "cannot encode image"))
-		}
-		done <- true
-	}()
-
-	thumb.counter[head]++
-	targetFile, digest, err := thumb.storeThumbnail(object, head, pr)
 	if err != nil {
-		return errors.Wrap(err, "cannot store thumbnail")
-	}
-	<-done
-
-	_ = digest
-	thumb.logger.Info().Msgf("thumbnail stored: %s", targetFile)
-	ml := &ThumbnailResult{
-		//SourceDigest: cs,
-		Filename:    targetFile,
-		Ext:         thumb.ThumbnailConfig.Ext,
-		Error:       "",
-		ID:          "internal",
-		ThumbDigest: digest,
+		return errors.Wrap(err, "cannot encode image")
 	}
-	thumb.streamInfo[head][infoName] = ml
-	return nil
+	return thumb.keepThumbnail(head, infoName, "internal", buf.Bytes())
 }
diff --git a/pkg/extension/NNNN-thumbnail_vips.go b/pkg/extension/NNNN-thumbnail_vips.go
index 414b140..03358d5 100644
--- a/pkg/extension/NNNN-thumbnail_vips.go
+++ b/pkg/extension/NNNN-thumbnail_vips.go
@@ -21,12 +21,6 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 	}
 	inventory := object.GetInventory()
 	head := inventory.GetHead()
-	if _, ok := thumb.counter[head]; !ok {
-		thumb.counter[head] = 0
-	}
-	if _, ok := thumb.streamInfo[head]; !ok {
-		thumb.streamInfo[head] = map[string]*ThumbnailResult{}
-	}
 	infoName := inventory.BuildManifestName(dest)
 	if _, ok := thumb.streamInfo[head][infoName]; ok {
 		thumb.logger.Info().Msgf("thumbnail for '%s' already created", stateFiles[0])
@@ -77,28 +71,9 @@ func (thumb *Thumbnail) StreamObject(object ocfl.Object, reader io.Reader, state
 		return nil
 	}
 	_ = meta
-
-	fsys := object.GetFS()
-	if fsys == nil {
-		return errors.New("no filesystem set")
-	}
-
-	thumb.counter[head]++
-	targetFile, digest, err := thumb.storeThumbnail(object, head, io.NopCloser(strings.NewReader(string(imgBytes))))
 	if err != nil {
-		return errors.Wrap(err, "cannot store thumbnail")
+		return errors.Wrap(err, "cannot encode image")
 	}
-	imgBytes = nil // free memory
 
-	thumb.logger.Info().Msgf("thumbnail stored: %s", targetFile)
-	ml := &ThumbnailResult{
-		//SourceDigest: cs,
-		Filename:    targetFile,
-		Ext:         thumb.ThumbnailConfig.Ext,
-		Error:       "",
-		ID:          "internal vips",
-		ThumbDigest: digest,
-	}
-	thumb.streamInfo[head][infoName] = ml
-	return nil
+	return thumb.keepThumbnail(head, infoName, "internal vips", imgBytes)
 }
-- 
2.43.0


From bd7cb8450aa0e92e5959e7a580d30482b05149ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:24 +0000
Subject: [PATCH 103/110] fix: README.md of the areas is a file of the
 extension: updates with an indexer which comes first failed

---
 pkg/extension/NNNN-content-subpath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/NNNN-content-subpath.go b/pkg/extension/NNNN-content-subpath.go
index 49f03c7..8214f5b 100644
--- a/pkg/extension/NNNN-content-subpath.go
+++ b/pkg/extension/NNNN-content-subpath.go
@@ -162,7 +162,7 @@ func (sl *ContentSubPath) UpdateObjectAfter(object ocfl.Object) error {
 
 	//buf := bytes.NewBuffer([]byte(readme.String()))
 	//if err := object.AddReader(io.NopCloser(buf), []string{"README.md"}, "", false, false); err != nil {
-	if err := object.AddData([]byte(readme.String()), "README.md", true, "full", false, false); err != nil {
+	if err := object.AddData([]byte(readme.String()), "README.md", true, "full", true, false); err != nil {
 		return errors.Wrap(err, "cannot write 'README.md'")
 	}
 	return nil
-- 
2.43.0


From c051be43dd7222f5d6d536eeceff8ee4c99a368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:27 +0000
Subject: [PATCH 104/110] fix: PREMIS: event referred to a file without an
 object

---
 pkg/extension/NNNN-mets.go | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index c602b3e..73c776e 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -352,6 +352,21 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 		fileGrpUUID[cName] = uuid.NewString()
 	}
 
+	// area of a file of the head version
+	fileArea := func(extPath string) (extArea string, isSchema bool) {
+		extArea = "content"
+		parts := strings.Split(extPath, "/")
+		if len(parts) > 1 && contentSubPath != nil {
+			extArea = parts[0]
+			for area, cse := range contentSubPath {
+				if cse.Path == extArea {
+					return area, parts[1] == "schemas"
+				}
+			}
+		}
+		return extArea, false
+	}
+
 	// get ingest versions
 	for cs, metaFile := range metadata.Files {
 		if extNames, ok := metaFile.VersionName[head]; ok {
@@ -601,21 +616,7 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 						},
 					})
 				}
-				parts := strings.Split(extPath, "/")
-				var extArea = "content"
-				var isSchema bool
-				if len(parts) > 1 {
-					if contentSubPath != nil {
-						extArea = parts[0]
-						for area, cse := range contentSubPath {
-							if cse.Path == extArea {
-								extArea = area
-								isSchema = parts[1] == "schemas"
-								break
-							}
-						}
-					}
-				}
+				extArea, isSchema := fileArea(extPath)
 				for i, intPath := range metaFile.InternalName {
 					if extArea == "metadata" && !isSchema {
 						id := fmt.Sprintf("dmdSec-int-%s", uuidString)
@@ -763,9 +764,12 @@ func (me *Mets) UpdateObjectAfter(object ocfl.Object) error {
 					}
 					var sourcePath string
 					for intExtPath, val := range internalFiledata {
-						if val.cs == migration.Source {
+						// there is no object for descriptive metadata
+						if a, isSchema := fileArea(intExtPath); a == "metadata" && !isSchema {
+							continue
+						}
+						if val.cs == migration.Source && (sourcePath == "" || intExtPath < sourcePath) {
 							sourcePath = intExtPath
-							break
 						}
 					}
 					if internal, ok := internalFiledata[sourcePath]; ok {
-- 
2.43.0


From eb6bad385777db24e1fe0161aba7288e4415e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:00 +0000
Subject: [PATCH 105/110] fix: full extensions: METS did not describe the
 thumbnails of the version

---
 .../object/NNNN-gocfl-extension-manager/config.json            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/fullextensions/object/NNNN-gocfl-extension-manager/config.json b/data/fullextensions/object/NNNN-gocfl-extension-manager/config.json
index 59d3dd3..000dd6f 100644
--- a/data/fullextensions/object/NNNN-gocfl-extension-manager/config.json
+++ b/data/fullextensions/object/NNNN-gocfl-extension-manager/config.json
@@ -3,7 +3,8 @@
   "sort": {
     "ObjectChange": [
       "NNNN-indexer",
-      "NNNN-migration"
+      "NNNN-migration",
+      "NNNN-thumbnail"
     ],
     "ObjectContentPath": [
       "NNNN-direct-clean-path-layout",
-- 
2.43.0


From abbf12e544b73f147d684e650e4320b05f3c32b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:43 +0000
Subject: [PATCH 106/110] fix: validation: several errors were reported as
 "unknown error"

---
 pkg/ocfl/inventorybase.go      | 2 +-
 pkg/ocfl/validationerror1_0.go | 2 ++
 pkg/ocfl/validationerror1_1.go | 6 ++++--
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 4e8f24d..f5060f8 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -672,7 +672,7 @@ func (i *InventoryBase) GetFiles() map[string][]string {
 		for _, filename := range files {
 			parts := strings.Split(filename, "/")
 			if len(parts) < 3 {
-				i.addValidationError(E000, "invalid filepath in manifest '%s'", filename)
+				i.addValidationError(E042, "invalid filepath in manifest '%s'", filename)
 				continue
 			}
 			version := parts[0]
diff --git a/pkg/ocfl/validationerror1_0.go b/pkg/ocfl/validationerror1_0.go
index a4e5f93..57252be 100644
--- a/pkg/ocfl/validationerror1_0.go
+++ b/pkg/ocfl/validationerror1_0.go
@@ -6,7 +6,9 @@ import (
 )
 
 var OCFLValidationErrorMapping1_0 = map[ValidationErrorCode]ValidationErrorCode{
+	E103: E038,
 	E104: E001,
+	E107: E050,
 }
 
 var OCFLValidationError1_0 = map[ValidationErrorCode]*ValidationError{
diff --git a/pkg/ocfl/validationerror1_1.go b/pkg/ocfl/validationerror1_1.go
index 95a199e..5b9ddf7 100644
--- a/pkg/ocfl/validationerror1_1.go
+++ b/pkg/ocfl/validationerror1_1.go
@@ -5,7 +5,9 @@ import (
 	"github.com/je4/utils/v2/pkg/errorDetails"
 )
 
-var OCFLValidationErrorMapping1_1 = map[ValidationErrorCode]ValidationErrorCode{}
+var OCFLValidationErrorMapping1_1 = map[ValidationErrorCode]ValidationErrorCode{
+	E086: E112,
+}
 
 var OCFLValidationError1_1 = map[ValidationErrorCode]*ValidationError{
 	E000: {Code: E000, Version: OCFLVersion("1.1"), Description: "unknown error", Ref: "https://ocfl.io/1.0/spec/#E000"},
@@ -65,7 +67,7 @@ var OCFLValidationError1_1 = map[ValidationErrorCode]*ValidationError{
 	E054: {Code: E054, Version: OCFLVersion("1.1"), Description: "‘The value of the user key must contain a user name key, “name” and should contain an address key, “address”.’", Ref: "https://ocfl.io/1.1/spec/#E054"},
 	E055: {Code: E055, Version: OCFLVersion("1.1"), Description: "‘If present, [the fixity] block must have the key of fixity within the inventory.’", Ref: "https://ocfl.io/1.1/spec/#E055"},
 	E056: {Code: E056, Version: OCFLVersion("1.1"), Description: "‘The fixity block must contain keys corresponding to the controlled vocabulary given in the digest algorithms listed in the Digests section, or in a table given in an Extension.’", Ref: "https://ocfl.io/1.1/spec/#E056"},
-	E057: {Code: E057, Version: OCFLVersion("1.1"), Description: "‘The value of the fixity block for a particular digest algorithm must follow the structure of the manifest block; that is, a key corresponding to the digest value, and an array of content paths that match that digest.’", Ref: "https://ocfl.io/1.1/spec/#E057’"},
+	E057: {Code: E057, Version: OCFLVersion("1.1"), Description: "‘The value of the fixity block for a particular digest algorithm must follow the structure of the manifest block; that is, a key corresponding to the digest value, and an array of content paths that match that digest.’", Ref: "https://ocfl.io/1.1/spec/#E057"},
 	E058: {Code: E058, Version: OCFLVersion("1.1"), Description: "‘Every occurrence of an inventory file must have an accompanying sidecar file stating its digest.’", Ref: "https://ocfl.io/1.1/spec/#E058"},
 	E059: {Code: E059, Version: OCFLVersion("1.1"), Description: "‘This value must match the value given for the digestAlgorithm key in the inventory.’", Ref: "https://ocfl.io/1.1/spec/#E059"},
 	E060: {Code: E060, Version: OCFLVersion("1.1"), Description: "‘The digest sidecar file must contain the digest of the inventory file.’", Ref: "https://ocfl.io/1.1/spec/#E060"},
-- 
2.43.0


From 29815851e051a700d78e6e9fc4e6e89274d4f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:43 +0000
Subject: [PATCH 107/110] fix: validation: errors lost their OCFL version

---
 pkg/ocfl/validationerror.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/validationerror.go b/pkg/ocfl/validationerror.go
index 492e269..d960c35 100644
--- a/pkg/ocfl/validationerror.go
+++ b/pkg/ocfl/validationerror.go
@@ -224,6 +224,8 @@ func (ve *ValidationError) AppendDescription(format string, a ...any) *Validatio
 		Description:  ve.Description,
 		Ref:          ve.Ref,
 		Description2: strings.TrimSpace(ve.Description2 + " " + fmt.Sprintf(format, a...)),
+		Context:      ve.Context,
+		Version:      ve.Version,
 	}
 }
 
@@ -234,6 +236,7 @@ func (ve *ValidationError) AppendContext(format string, a ...any) *ValidationErr
 		Ref:          ve.Ref,
 		Description2: ve.Description2,
 		Context:      strings.TrimSpace(ve.Context + " " + fmt.Sprintf(format, a...)),
+		Version:      ve.Version,
 	}
 }
 
-- 
2.43.0


From 6daf10a50d2e98d7eefbd303ff4f8bcb8737e150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:43 +0000
Subject: [PATCH 108/110] fix: validation: order of errors was not well defined

---
 pkg/ocfl/validationerror.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/validationerror.go b/pkg/ocfl/validationerror.go
index d960c35..296bfb5 100644
--- a/pkg/ocfl/validationerror.go
+++ b/pkg/ocfl/validationerror.go
@@ -158,7 +158,10 @@ func validationSort(E1, E2 *ValidationError) int {
 	sr1 := strings.HasPrefix(E1.Context, "storage root")
 	sr2 := strings.HasPrefix(E2.Context, "storage root")
 	if sr1 != sr2 {
-		return -1 // sr1 && !sr2
+		if sr1 {
+			return -1
+		}
+		return 1
 	}
 	return cmp.Compare(E1.Context+string(E1.Code)+E1.Description2, E2.Context+string(E2.Code)+E2.Description2)
 }
-- 
2.43.0


From 958cd4f9dddd4d417b7639ac8e0f0e00c82b21a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:43 +0000
Subject: [PATCH 109/110] fix: validation: errors of objects which cannot be
 loaded were reported as E001 only

---
 pkg/ocfl/objectbase.go      |  4 ++++
 pkg/ocfl/storagerootbase.go | 11 ++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 0d4b968..e672a4b 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -262,15 +262,19 @@ func (object *ObjectBase) GetInventory() Inventory {
 func (object *ObjectBase) loadInventory(data []byte, folder string) (Inventory, error) {
 	anyMap := map[string]any{}
 	if err := json.Unmarshal(data, &anyMap); err != nil {
+		object.addValidationError(E033, "json syntax error in '%s/inventory.json': %v", folder, err)
+		object.addValidationError(E034, "json syntax error in '%s/inventory.json': %v", folder, err)
 		return nil, errors.Wrapf(err, "cannot unmarshal json '%s'", string(data))
 	}
 	var version OCFLVersion
 	t, ok := anyMap["type"]
 	if !ok {
+		object.addValidationError(E036, "no type in '%s/inventory.json'", folder)
 		return nil, errors.New("no type in inventory")
 	}
 	sStr, ok := t.(string)
 	if !ok {
+		object.addValidationError(E038, "type not a string in '%s/inventory.json'", folder)
 		return nil, errors.Errorf("type not a string in inventory - '%v'", t)
 	}
 	switch sStr {
diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 34e7ef7..b49fe56 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -333,10 +333,19 @@ func (osr *StorageRootBase) GetObjectFolders() ([]string, error) {
 
 func (osr *StorageRootBase) LoadObjectByFolder(folder string) (Object, error) {
 	version, err := getVersion(osr.ctx, osr.fsys, folder, "ocfl_object_")
-	if err == errVersionNone {
+	switch err {
+	case errVersionNone:
 		if err := osr.addValidationError(E003, "no version in folder '%s'", folder); err != nil {
 			return nil, errors.Wrapf(err, "cannot add validation error %s", E003)
 		}
+	case errVersionMultiple:
+		if err := osr.addValidationError(E003, "multiple versions in folder '%s'", folder); err != nil {
+			return nil, errors.Wrapf(err, "cannot add validation error %s", E003)
+		}
+	case errInvalidContent:
+		if err := osr.addValidationError(E007, "invalid content of version declaration in folder '%s'", folder); err != nil {
+			return nil, errors.Wrapf(err, "cannot add validation error %s", E007)
+		}
 	}
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot get version in '%s'", folder)
-- 
2.43.0


From b4dbf775a82d60a8d4aa387c6da32095400aa67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:43 +0000
Subject: [PATCH 110/110] fix: validation: objects following one which cannot
 be checked were not validated

---
 pkg/ocfl/storagerootbase.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index b49fe56..5573419 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -635,12 +635,14 @@ func (osr *StorageRootBase) CheckObjects() error {
 	if err != nil {
 		return errors.Wrapf(err, "cannot get object folders")
 	}
+	// an object which cannot be checked does not keep the others from being checked
+	var errs []error
 	for _, objectFolder := range objectFolders {
 		if err := osr.CheckObjectByFolder(objectFolder); err != nil {
-			return errors.WithStack(err)
+			errs = append(errs, err)
 		}
 	}
-	return nil
+	return errors.WithStack(errors.Combine(errs...))
 }
 
 func (osr *StorageRootBase) Stat(w io.Writer, path string, id string, statInfo []StatInfo) error {
-- 
2.43.0

