#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
O="pkg/ocfl/objectbase.go"; I="pkg/ocfl/inventorybase.go"; T="pkg/ocfl/inventorytypes.go"; S="pkg/ocfl/storagerootbase.go"; R="pkg/ocfl/storageroot.go"; H="pkg/ocfl/helper.go"; F="pkg/ocfl/extensionFactory.go"
X="pkg/extension/"
M=X+"NNNN-gocfl-extension-manager.go"
TESTS="The five existing tests compute a handful of storage paths for fixed identifiers; none opens pkg/ocfl."
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Ingest/extract round trip for every version of every history",
 "After any sequence of committed updates of an object (adding new files, modifying, re-adding, reverting or removing files, with or without deduplication, in contribute or echo mode), extracting version k yields exactly the logical file names and bytes that the k-th committed update left behind, and extracting 'latest' (or no version) yields the head version. Closing and reloading the storage root between updates makes no difference.",
 ["histories","inputs","configurations"],
 "All update histories over a bounded set of names/contents and update modes, OCFL 1.0 and 1.1, sha256 and sha512, every version extracted.",
 TESTS+" The guarantee is over all histories: the interesting cases (delete then re-add, revert to an older content, swap contents) only show in sequences of three or more updates.",
 [O,I],[("AddFile/AddFolder/AddData/addReader",O),("AddFile/CopyFile/AlreadyExists/IsUpdate/NewVersion",I),("IterateStateFiles + Extract",O)],["Object.Extract","StorageRoot.Extract"])
p("C02","Committed versions are immutable",
 "No later operation on a storage root (further updates of the same object, updates or creation of other objects, failed updates, reads, extraction, validation) changes or removes any file of an already committed version directory, and the entry of that version in every later root inventory keeps its logical state, creation time, message and user.",
 ["histories","configurations"],
 "All bounded update histories plus read operations; every file of every committed version directory compared after each operation.",
 TESTS+" Immutability is a statement about all later operations.",
 [O,I],[("version directory naming from head (BuildManifestName/NewVersion)",I),("copyMapStringSlice of last state",I)],["bytes below <object>/vN/","inventory.json versions block"])
p("C03","Every committed object is a valid OCFL object",
 "After every successfully completed update the object on disk is a valid OCFL object of its declared version: declaration file, contiguous version sequence with consistent padding, head naming the newest version, inventory and sidecar digest agreeing in the root and in the newest version directory (byte-identical copies), every manifest path existing with the stated digest, every content file listed in the manifest, and every state digest present in the manifest. The tool's own validation then reports no error for it.",
 ["histories","configurations","inputs"],
 "All bounded histories and configurations of C01 plus more than nine versions, zero padded version numbers and non-default content directories; checked by an independent reference validator and by the tool's own validation.",
 TESTS+" Validity must survive every history, including version counts and name sets no sample reaches.",
 [O,I,T,S],[("StoreInventory",O),("NewVersion padding",I),("EndUpdate/Close",O)],["files on disk after Object.Close","StorageRoot.Check"])
p("C04","Validation detects every corruption of a stored object",
 "Whenever a file of a valid object is altered, truncated, removed, renamed or added, or a required inventory entry, sidecar, version directory or declaration is changed so that the object (including its prior version inventories) no longer conforms to the OCFL specification or no longer matches its recorded digests, validating the object reports at least one error (E-code).",
 ["inputs","fault_sequences"],
 "Every single-site corruption of every file (each byte position class, truncation, deletion, extra file/dir, swap of two files) and every single-site semantic edit of root and version inventories (with sidecars recomputed) of a family of valid multi-version objects.",
 TESTS+" Validation code is never executed by the stable tests; completeness is a for-all over corruption sites.",
 [O,I,T,S,"pkg/ocfl/validationerror.go"],[("Check/checkFilesAndVersions/createContentManifest",O),("check*/CheckFiles/isEqual",I),("EqualState/EqualMeta",T),("getVersion",H)],["GetValidationStatus after StorageRoot.Check / CheckObjectByID"])
p("C05","Validation accepts every valid object",
 "For every object that conforms to the OCFL specification, however it was written (any permitted version numbering width, content directory name, digest algorithm, optional inventory fields, presence or absence of older version inventories, fixity blocks, upper or lower case hex digests used consistently, empty files, deeply nested and unusual names), validation completes without reporting any error.",
 ["inputs","configurations"],
 "All combinations of the spec's permitted variations over a generated family of valid objects written by an independent writer.",
 TESTS+" Objects produced by other tools exercise variations gocfl itself never writes.",
 [O,I,T,S,H],[("Check/checkFilesAndVersions",O),("check*",I)],["GetValidationStatus after StorageRoot.Check"])
p("C06","Validation of arbitrarily malformed objects terminates with a report",
 "Validating a storage root or object never panics, hangs, or reports success on input it could not interpret: whatever single field of an inventory, sidecar, declaration or directory is missing, of the wrong type, or malformed, the call returns and either an error or a validation error is reported.",
 ["inputs"],
 "Every field of the inventory JSON replaced by each of a set of wrong-typed / missing / degenerate values, in the root and in each version inventory, and every file/directory of the object removed or emptied.",
 TESTS+" A for-all over malformed inputs.",
 [O,I,T,S,H],[("loadInventory/LoadInventory/Finalize",O),("Unmarshal error capture",T)],["return value / panic / validation status of StorageRoot.Check"])
p("C07","Deduplication stores content once and loses no name",
 "With deduplication enabled, content already held by the object in any version, or added earlier in the same update, is never stored again, while every added logical name appears in the version state with that content exactly once. With deduplication disabled every file added in an update is stored below the new version's content directory. In both modes a logical path maps to exactly one digest per version.",
 ["histories","inputs"],
 "All bounded histories of adds over colliding names and contents, dedup on and off, through all three add interfaces.",
 TESTS+" Needs histories with equal contents under different names and across versions.",
 [O,I],[("AddFile/AddData duplicate check",O),("GetDuplicates/CopyFile/AlreadyExists",I)],["inventory manifest/state; content files on disk"])
p("C08","Echo removes exactly what is gone; contribute removes nothing",
 "An update in echo mode leaves in the new version exactly the logical paths of the updated area that were part of the update, removes every other path of that area even when nothing was added, and touches no path outside the area (areas whose names merely share a prefix included). An update in contribute mode keeps every logical path that was not overwritten.",
 ["histories","configurations"],
 "All bounded pairs of previous state and update content, single-area and multi-area configurations with prefix-sharing area paths, dedup on and off.",
 TESTS+" Needs pairs of states; the deletion-only update and the prefix-sharing areas are corner cases.",
 [O,I,X+"NNNN-content-subpath.go"],[("EndUpdate/EndArea/echoDelete",O),("echoDelete/DeleteFile",I)],["state of the head version"])
p("C09","Recorded digests and fixity values are correct and complete",
 "For every content file written, the inventory records the digest of its exact bytes under the object's digest algorithm, and for every configured fixity algorithm records the right value for that file, for every supported algorithm and every file size (empty, smaller, equal and larger than the copy buffer). Fixity algorithms that are not permitted are refused at creation, and the fixity set of an object persists over reload and later updates.",
 ["inputs","configurations","histories"],
 "All sets of supported fixity algorithms up to size 2 (and the full set), both digest algorithms, file sizes around the 32 KiB buffer boundary, two updates with a reload in between.",
 TESTS+" Product of algorithms, sizes and histories.",
 [O,I,X+"0001-digest-algorithms.go","pkg/ocfl/fixity.go"],[("addReader checksum.Copy",O),("AddFile fixity bookkeeping",I),("GetFixityDigests check in Init",O)],["inventory fixity block vs independently computed digests"])
p("C10","An update that changes nothing leaves no trace",
 "An update that adds no new or changed content (empty update, identical re-ingest with deduplication, deletion or renaming of paths that do not exist) creates no version: after closing it every file of the storage root is byte-identical to before and the object is still valid with the same head.",
 ["histories","configurations"],
 "All bounded states followed by each kind of no-op update, repeated, followed by a real update.",
 TESTS+" Must hold after every history.",
 [O,I],[("IsModified gate in EndUpdate/Close",O),("modified flag",I)],["byte snapshot of the storage root"])
p("C11","No I/O failure during ingest is silently swallowed",
 "If any single file system operation fails while an object is created or updated (opening or reading a source file; creating, writing or closing any target file; listing a directory), the failing call sequence reports an error before or at closing the object, or the operation's failure provably had no effect; it never reports success with missing, truncated or unverifiable data, and never panics or hangs.",
 ["fault_sequences","configurations"],
 "Every single fault site (operation index × error kind including short write and failure on close) of a set of create/update scripts.",
 TESTS+" Fault injection at every operation index is a for-all over fault sites.",
 [O,S,M,X],[("error propagation in addReader/StoreInventory/Init/WriteConfig",O)],["returned errors vs resulting storage root"])
p("C12","A crash during an update never harms committed versions or goes unnoticed",
 "If the process stops at any point during a create or update, all content and version inventories of previously committed versions are intact, and validating the storage root afterwards either reports an error or the object is, completely and consistently, in the state before or the state after the update.",
 ["crash_points","histories"],
 "Every prefix of the write operations (including torn last writes) of create/update scripts, states reconstructed and checked by the reference validator and the tool's validation.",
 TESTS+" Crash points are not reachable by ordinary tests.",
 [O,S],[("write order content -> version inventory -> root inventory",O)],["storage root reconstructed from the operation log prefix"])
p("C13","Stream extensions see exactly the file's bytes under every schedule",
 "While a file is ingested every stream extension receives exactly the bytes of the file, in order, terminated by end-of-file, regardless of how many extensions there are, how reads, writes and extension steps interleave and how they chunk; ingest neither deadlocks nor returns before the extensions have finished, an extension that stops reading early does not disturb the others or the stored file, and an extension's error is reported to the caller.",
 ["schedules","fault_sequences","inputs"],
 "All interleavings of source, sink and up to two or three extension streams at read/write granularity under a controlled scheduler, with each extension behaviour (read all, stop early, fail, never read).",
 TESTS+" Scheduling of goroutines and pipes is outside any sampled test.",
 [O,M],[("addReader goroutine + pipe",O),("StreamObject fan-out",M)],["bytes seen per extension, stored file, returned error"])
p("C14","Extraction never delivers wrong bytes silently and stays inside its target",
 "Extraction of any version either writes exactly the logical files of that version (restricted to the requested area), with a manifest listing exactly the extracted files and their digests when requested, or returns an error; if a stored content file was altered, removed or a read or write fails, extraction returns an error. Nothing is ever written outside the target folder.",
 ["inputs","fault_sequences","configurations"],
 "Every version × area × manifest option of a family of objects; every single content corruption; every single I/O fault during extraction; hostile logical paths.",
 TESTS+" Extraction code is not run by the stable tests.",
 [O,S,X+"NNNN-content-subpath.go"],[("Extract digest comparison",O),("BuildObjectExtractPath",X+"NNNN-content-subpath.go")],["files in the target folder, returned error"])
p("C15","Storage layouts compute the path their specification defines",
 "For every object identifier and every valid configuration, each registered storage layout (0002 flat-direct, 0003 hash-and-id n-tuple, 0004 hashed n-tuple, 0006 flat-omit-prefix, 0007 n-tuple-omit-prefix) and the pairtree layout yields exactly the path defined by its published specification, or an error where the specification makes the identifier or configuration invalid; the result is a pure function of identifier and configuration.",
 ["inputs","configurations"],
 "All identifiers up to a length bound over an alphabet of representative characters (plus long identifiers at the truncation bounds) × all small configurations, against independent reference implementations.",
 "The stable tests compare a handful of fixed identifiers per layout with the specification's examples; encoding and boundary behaviour quantify over all identifiers and configurations.",
 [X+"0002-flat-direct-storage-layout.go",X+"0003-hash-and-id-n-tuple-storage-layout.go",X+"0004-hashed-n-tuple-storage-layout.go",X+"0006-flat-omit-prefix-storage-layout.go",X+"0007-n-tuple-omit-prefix-storage-layout.go",X+"NNNN-pairtree-storage-layout.go"],
 [("BuildStorageRootPath of each layout",X)],["BuildStorageRootPath"])
p("C16","Layout paths are confined, well-formed and collision free",
 "For every object identifier every layout either returns an error or a relative path without empty, '.' or '..' segments that stays inside the storage root, never panics; and identifiers that differ are mapped to different, non-nested paths by the layouts that encode or hash the whole identifier.",
 ["inputs","configurations"],
 "All identifiers up to a length bound over an alphabet containing separators, dots, percent, control, non-ASCII and invalid UTF-8 bytes × layout configurations; all pairs compared.",
 "The stable tests sample well-behaved identifiers only.",
 [X+"0003-hash-and-id-n-tuple-storage-layout.go",X+"0004-hashed-n-tuple-storage-layout.go",X+"0007-n-tuple-omit-prefix-storage-layout.go",X+"NNNN-pairtree-storage-layout.go",X+"NNNN-direct-clean-path-layout.go"],
 [("BuildStorageRootPath of each layout",X)],["BuildStorageRootPath"])
p("C17","Extension configuration survives storing and reloading",
 "A storage root or object re-opened from disk behaves like the one that was created: every extension is loaded with the same configuration values it was written with, so that object paths, area paths and fixity algorithms computed after reload equal those before, and objects created before a reload are found after it. The storage layout file names the layout extension in use.",
 ["configurations","histories"],
 "Every registered extension × configurations with every field set to a non-default value; paths compared before and after storing and reloading.",
 TESTS+" Round trip over all configuration fields.",
 [S,F,M,X],[("WriteConfig/GetConfig",X),("CreateExtensions",F),("StoreRootLayout",M)],["extensions/*/config.json, ocfl_layout.json, BuildStorageRootPath after LoadStorageRoot"])
p("C18","Objects in one storage root are found by id and isolated from each other",
 "After any sequence of object creations and updates in a storage root, exactly the created identifiers exist, each is loaded by its id with its own content, enumeration lists each object exactly once, creating an existing object is refused without side effects, and an operation on one object changes no file of any other object.",
 ["histories","configurations"],
 "All bounded sequences of create/update over identifier sets (prefix-sharing, encoding-sensitive) for each layout, with reloads.",
 TESTS+" Histories over several objects.",
 [S,R],[("ObjectExists/CreateObject/LoadObjectByID/GetObjectFolders",S)],["StorageRoot API and byte snapshots"])
p("C19","Storage roots are created once, and their declaration is checked",
 "Initialising a storage root succeeds only in an empty location (refusing otherwise without changing anything) and yields a root that loads again with the same OCFL version and validates without error; a root whose declaration is missing, duplicated or has wrong content is not loaded or validated without complaint.",
 ["inputs","configurations","fault_sequences"],
 "All OCFL versions and layouts; each kind of pre-existing entry; each single corruption of the root-level files.",
 TESTS+" For-all over pre-existing contents and corruptions.",
 [S,R,H],[("Init/Load/CheckDirectory",S),("getVersion",H)],["CreateStorageRoot/LoadStorageRoot/Check"])
p("C20","Reported metadata agrees with the stored object",
 "For every stored object the metadata report (id, digest algorithm, head, versions with message, user, address and creation time, and per content digest the stored file names, the logical names per version, and fixity values) contains exactly the information of the inventory, for the object alone and for the whole storage root.",
 ["histories","inputs"],
 "All bounded histories of C01, with fixity, and multi-object roots.",
 TESTS+" Over all histories.",
 [O,S,"pkg/ocfl/metadata.go","pkg/ocfl/fixity.go"],[("GetMetadata",O),("ExtractMeta",S)],["ObjectMetadata"])
p("C21","Areas keep their files apart and map back to the original path",
 "With the content-subpath extension every file added to an area is stored and listed below that area's configured path, files of different areas never collide, and extracting an area yields exactly its files under their original relative path and nothing of another area, also when one area path is a textual prefix of another; extracting the 'full' area yields everything with area prefixes. An unknown area is refused.",
 ["configurations","inputs","histories"],
 "All configurations of up to three areas over prefix-related path names × file sets × extraction areas.",
 TESTS+" Over all area configurations.",
 [X+"NNNN-content-subpath.go",O],[("BuildObjectStatePath/BuildObjectManifestPath/BuildObjectExtractPath/GetAreaPath",X+"NNNN-content-subpath.go")],["inventory state, extraction result"])
p("C22","Extension manager ordering and exclusion are deterministic and respected",
 "For every registered set of extensions the manager calls, per hook, exactly the extensions that implement it minus those excluded by the exclusion groups (of each group only the first listed one that is present stays active), in the configured sort order with unlisted extensions after listed ones, independent of the order in which they were added or loaded.",
 ["configurations","inputs"],
 "All subsets and insertion orders of up to four probe extensions × sort lists × exclusion groups.",
 TESTS+" Over all configurations and orders.",
 [M],[("Add/Finalize/organize",M)],["order of hook invocations"])
p("C23","Path building is safe under concurrent use",
 "Building storage paths for different objects concurrently through one shared layout yields for each identifier the same path as building it alone, under every interleaving.",
 ["schedules"],
 "All interleavings (at lock and digest-step granularity) of two or three concurrent path computations that share one layout instance.",
 TESTS+" Needs controlled interleavings; a shared digest state makes rare schedules return another object's path.",
 [X+"NNNN-direct-clean-path-layout.go",X+"0003-hash-and-id-n-tuple-storage-layout.go",X+"0004-hashed-n-tuple-storage-layout.go"],[("hash state guarded by mutex",X+"NNNN-direct-clean-path-layout.go")],["BuildStorageRootPath"])
p("C24","Deleting and renaming logical paths affects exactly those paths",
 "Deleting a logical path with its current digest removes exactly that path from the new version and nothing else; renaming moves exactly that path, keeping its content; requests whose path or digest does not match the current state change nothing. Content of earlier versions stays available and each logical path has one content.",
 ["histories","inputs"],
 "All bounded sequences of add, delete and rename over colliding names, each with matching and non-matching digests.",
 TESTS+" Over all sequences.",
 [O,I],[("DeleteFile/RenameFile",O),("DeleteFile/RenameFile",I)],["state of the head version, extraction"])
p("C25","A ZIP container behaves like a directory",
 "The same sequence of storage root operations carried out in a ZIP container and in a directory produces the same files with the same bytes, and loading, validating and extracting from the ZIP gives the same result.",
 ["histories","configurations"],
 "All bounded create/update histories executed on both backends, with closing and reopening of the container between updates, compressed and stored.",
 TESTS+" Over all histories.",
 [O,S,R],[("all access through the fs abstraction",O)],["file map of the container"])
p("C26","Per-file metadata extensions describe exactly the ingested files",
 "The filesystem metadata extension records exactly one entry for every file (and, when configured, every folder) whose content an update stores, attached to that content's digest and version, with its logical path and the attributes of the source file, for every storage type, name and compression; the indexer extension records one entry per stored content. The metadata report returns the recorded entries unchanged after reload, and later updates neither lose, repeat nor alter them.",
 ["histories","configurations","inputs"],
 "All storage types × compressions × bounded update histories.",
 TESTS+" Product of configurations and histories.",
 [X+"NNNN-filesystem.go",X+"NNNN-indexer.go",H],[("AddFileAfter/UpdateObjectAfter/GetMetadata",X+"NNNN-filesystem.go"),("ReadJsonL/WriteJsonL",H)],["ObjectMetadata.Extension"])
p("C27","Direct-clean paths are portable and bounded",
 "The direct-clean layout maps every identifier or file name either to an error or to a path free of the forbidden characters, leading/trailing blanks, and over-long segments or paths (falling back to the configured fallback path when a limit is exceeded); the mapping is deterministic and identifiers already clean are kept unchanged.",
 ["inputs","configurations"],
 "All names up to a length bound over an alphabet of forbidden, blank, leading-dash/tilde, multi-byte and plain characters × configurations, including names at the exact length limits.",
 "The layout's own tests are not in the stable set and sample fixed names.",
 [X+"NNNN-direct-clean-path-layout.go"],[("build/fallback/encodeUTFCode",X+"NNNN-direct-clean-path-layout.go")],["BuildStorageRootPath"])
p("C28","Automatic migration versions keep originals and add exactly the converted files",
 "When content ingested by an update matches a migration rule, one follow-up version is created which contains every path of the ingested version and in addition (or instead, for the replace strategy; or next to it below a folder named like the original, for the folder strategy) the converted file with the converter's exact output, in the area of the original; the original stays retrievable from its version, files which match no rule are untouched, a conversion never overwrites another file, content which has been converted or has failed once is not converted again, failed conversions leave the state unchanged and are recorded as error, and an update without a conversion leads to no follow-up version.",
 ["histories","configurations"],
 "All strategies × bounded file sets × histories with a deterministic converter.",
 TESTS+" Over all file sets and strategies.",
 [X+"NNNN-migration.go","pkg/subsystem/migration/migration.go",O],[("NeedNewVersion/DoNewVersion",X+"NNNN-migration.go"),("EndUpdate recursion",O)],["state of the follow-up version"])
p("C29","METS and PREMIS files describe the object's version",
 "With the METS extension every update that changes the object stores one METS and one PREMIS file for the new version at the configured place (area, path or extension folder). Both are well-formed XML with unique identifiers and without references to nothing; the METS file lists every file of the version other than those of the extension exactly once by its logical path, with the digest and digest algorithm of the inventory and exactly the storage locations of that content, refers to the PREMIS file with its true digest and size and to the configured descriptive metadata; the PREMIS file has exactly one object per listed file. The files of the user, earlier versions and the validity of the object are unaffected, and missing descriptive metadata are reported as an error.",
 ["histories","configurations","inputs"],
 "All sequences of updates in the bound (trees with awkward names and equal contents, areas, modes) for every storage type, area mapping and digest algorithm of a bounded set, with and without other extensions.",
 TESTS+" The description depends on the whole history (deduplicated contents stored in earlier versions or other areas).",
 [X+"NNNN-mets.go",O],[("UpdateObjectAfter",X+"NNNN-mets.go"),("GetMetadata",O)],["parsed METS and PREMIS files against the inventory"])
p("C30","Viewer pages and downloads show exactly the requested object",
 "Every page of the viewer (storage root, object, manifest, version, file, report) shows the object, version and file named by the request, with the paths, digests, sizes and descriptive metadata the inventory and the files have; a download delivers exactly the stored bytes of the requested content or extension file. This holds for every identifier, path and file name that can be stored (also with reserved characters), whatever was requested before and whatever other requests are served at the same time; every page is reachable by links. A request for something that does not exist is refused; nothing outside the storage root, and outside the extension's folder for extension files, is delivered; the storage is never modified.",
 ["inputs","schedules","histories","configurations"],
 "All pages reachable by links plus an alphabet of valid, unknown and escaping requests, all request sequences in a bound, all schedules of two requests within a preemption bound, on a bounded set of storage roots.",
 "The viewer has no tests. What a request shows depends on earlier and concurrent requests and on characters of names.",
 ["gocfl/cmd/display/server.go","data/displaydata/templates"],[("NewServer/load/loadFolder/loadObject/report/download/downloadExtFile","gocfl/cmd/display/server.go")],["HTTP answers of the viewer's handler"])
p("C31","Descriptive metadata given with an update is validated, stored and reported",
 "With the metafile extension an update which names a document (a file or a web address; $ID stands for the object's identifier) stores exactly the value of the document (JSON, YAML or TOML; no digit lost) as JSON at the configured place with the new version. A document that is missing, cannot be read, has an unknown format, holds more or other than one object or violates the configured schema makes the update fail and changes nothing. An update without a document keeps the one before. The object's metadata report, of the open and of a newly loaded object, contains the newest document, wherever its content is stored (also if another file or version has the same content), and works without any. The user's files, earlier versions and the validity of the object are not affected.",
 ["inputs","histories","configurations"],
 "All sequences of up to 2 (3) updates over an alphabet of documents, contents and modes, for every configuration of a set (places, areas, schemas, other extensions).",
 "The extension has no tests. What is reported depends on deduplication over the whole history; numbers and formats lose information silently.",
 [X+"NNNN-metafile.go"],[("UpdateObjectBefore/GetMetadata/SetParams",X+"NNNN-metafile.go")],["stored document, metadata report, error of the update"])
p("C32","Every picture has exactly its own thumbnail, and the report finds it",
 "With the thumbnail extension (and the indexer) an update makes a thumbnail of every content of the object whose format has a function and which has none yet, also of contents stored by earlier updates. The report, of the open and of a newly loaded object, gives for each such content the function and the stored thumbnail: its file has exactly the bytes the function makes from this content; or the error if the function fails, leaves no result or exceeds its time. Failing functions do not make the update fail. Different contents have different files; thumbnails of earlier versions are never replaced. No other file appears in the object, the user's files, earlier versions and the validity are not affected, and no temporary files remain.",
 ["inputs","histories","configurations"],
 "All sequences of up to 2 (3) updates over an alphabet of trees, areas and modes for every configuration of a set (places, directories, compression, areas, functions appearing later, contents readable or not).",
 "The extension has no tests. Names of thumbnails are random; entries are spread over the files of all versions, and the storage is deduplicated.",
 [X+"NNNN-thumbnail.go","pkg/subsystem/thumbnail/thumbnail.go"],[("UpdateObjectAfter/DoThumbnail/storeThumbnail/GetMetadata",X+"NNNN-thumbnail.go")],["metadata report, stored thumbnails"])
p("C33","Statistics tell exactly what the storage root and its objects contain",
 "The statistics of a storage root name exactly its object folders and every object; for every object (all, or the one selected by folder or identifier) the digest algorithm, the newest version, the fixity algorithms, the number of files, every version in order with its user, time and message, every logical path of every version with the content paths its digest has, and the configurations of its extensions, limited to the kinds of information requested. Repeated requests give the same text. If a part cannot be read or written or the object does not exist an error is returned, never an incomplete text without one. Nothing is written to the storage.",
 ["inputs","histories","crash points","configurations"],
 "All selections and subsets of the kinds of information for all storage roots of a bounded set and all histories in a bound; every single failing read and write of a set of them.",
 TESTS+" Go's map order makes the output of a single run a sample.",
 ["pkg/ocfl/storagerootbase.go",O],[("Stat","pkg/ocfl/storagerootbase.go"),("Stat",O)],["the text of Stat against the inventories"])
p("C34","Reading never changes the storage and needs no more than reading",
 "Opening, checking, validating, extracting, listing, statistics, reports, and closing a session in which nothing was added, in any order, perform no operation that modifies the storage, whatever the state of the storage root and its objects (valid, of other tools, damaged). They give the same outcome on a file system which can only be read.",
 ["inputs","histories","configurations"],
 "All reading operations and pairs of them in one session on all storage roots of a bounded set, all single corruptions, and all histories in a bound.",
 TESTS+" A write on a path that is rarely taken is noticed only if every operation is observed.",
 ["pkg/ocfl/storagerootbase.go",O,R],[("Close/CheckObject/Extract","pkg/ocfl/storagerootbase.go"),("Close/Load",O)],["operations on the storage, snapshots"])
p("C35","Every stored picture gets a thumbnail of the configured size",
 "With the thumbnail extension (built-in image library) each picture an update stores (png, jpeg, gif, bmp, tiff; any size and shape, any name, any area) gets exactly one thumbnail: the same picture in the configured format, with its aspect ratio and as large as the configured width and height permit (at least one pixel). The report of the open and of a newly loaded object names it. Contents that are no pictures, damaged pictures and pictures without pixels are stored like other files, without a thumbnail and without an error. Equal contents have one thumbnail, and thumbnails of earlier versions are kept. The user's files, earlier versions and the validity are not affected, no other file appears in the object and no temporary file remains; this holds in directories and ZIP containers.",
 ["inputs","histories","configurations"],
 "All sequences of up to 2 (3) updates over an alphabet of trees with pictures of different formats and shapes, areas and modes for every configuration of a set (places, folders, formats, sizes, areas, cleaned names), in a directory and in a ZIP container.",
 "The extension has no tests. The thumbnail is made by a second reader while the content is stored, and found again by the name of the content.",
 [X+"NNNN-thumbnail_native.go",X+"NNNN-thumbnail.go"],[("StreamObject",X+"NNNN-thumbnail_native.go"),("UpdateObjectAfter/storeThumbnail/GetMetadata",X+"NNNN-thumbnail.go")],["metadata report, decoded thumbnails"])
p("C36","Extensions for objects can be used together",
 "Any selection of the object extensions (areas, cleaned names, indexer, migration, thumbnails, file system metadata, metadata document, METS) can be used together, with their files stored in an area, below a path or in the extension's own folder: every update succeeds, the object is valid, keeps exactly its selected extensions, and all its files can be extracted. Extensions do not disturb each other: the states of all versions (apart from the extensions' own files) and the names and checksums of the user's contents are those of the same updates without the extensions that only report, and what an extension reports about the user's contents is what it reports when used alone (with the extensions it needs). The report of the object that is still open equals that of a newly loaded object; METS and PREMIS files describe the result of all extensions ordered before them. The configurations shipped with the program (default, full, nomigration, scicore and the built-in one) work.",
 ["inputs","histories","configurations"],
 "All 256 selections of eight extensions x three places for their files x all sequences of up to 2 (3) updates out of five (trees with files to convert, to shrink, equal and renamed ones; two areas; replacing and adding); the five shipped configurations with the same updates.",
 "Extensions have no tests, least of all together: hooks of one extension add files and so call hooks of others, in an order given by a configuration, and read the same inventory.",
 [X+"NNNN-gocfl-extension-manager.go",X+"NNNN-content-subpath.go",X+"NNNN-indexer.go",X+"NNNN-mets.go","data/fullextensions","data/defaultextensions"],[("UpdateObjectBefore/UpdateObjectAfter/StreamObject/GetMetadata/NeedNewVersion/DoNewVersion",X+"NNNN-gocfl-extension-manager.go"),("AddReader/AddData/EndUpdate",O)],["storage tree, validation result, extracted files, metadata report"])
p("C37","Validation reports what is damaged, where, and under the right code",
 "Each error and warning validation reports has a code of the OCFL version of the object or storage root, with that code's description and reference (never an unknown one, except for what the specification has no code for), and names the object it is about. Damage is reported under the code the specification has for it (for instance E092 changed content, E023 file not in the manifest, E058/E060/E061 sidecar missing, different, malformed, E007 declaration, E033/E034 inventory not JSON, E036 missing key, E102 additional key, E040 head, E095/E101 conflicting paths); for changed, missing and additional files the file is named. What is reported of one object does not depend on the others: damage of one object, even if it cannot be read at all, hides no error of another object and blames none. Compacting the errors keeps each different one exactly once, those of the storage root first, errors of an object together, whatever the order they were found in; describing an error never changes its code, version or reference.",
 ["inputs","histories"],
 "Every single change (thorough: also pairs for a small object) of the files and inventories of the base objects of both versions between a healthy and a damaged object; every change of the storage root; every code of both versions; every sequence of up to 6 (8) errors and long periodic ones.",
 "Tests validate nothing. Codes are looked up in tables by version at run time, and one branch in hundreds reports each of them.",
 ["pkg/ocfl/validationerror.go","pkg/ocfl/storagerootbase.go",O],[("GetValidationError/Compact/AppendDescription/AppendContext","pkg/ocfl/validationerror.go"),("CheckObjects/LoadObjectByFolder","pkg/ocfl/storagerootbase.go"),("loadInventory/addValidationError",O)],["validation status: codes, texts, contexts"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
