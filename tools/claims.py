FLT="model checking of the implementation: exhaustive fault injection, every file system operation of every scenario fails once (and from there on), executed on the real code"
CRS="model checking of the implementation: exhaustive enumeration of crash states (every prefix of the operation log, torn writes, lost file data), each validated by the real code"
c("C11",FLT,"model_checking","Every single failure point (and partial write) of every scenario is executed; success must mean the undisturbed result. Scenarios are a fixed list of create/update/echo/area/default-extension operations.")
c("C12",CRS,"model_checking","Every crash state in the stated crash model; validated with the tool and compared with the states before and after.")
ENU="explicit-state model checking of the implementation: exhaustive enumeration of all inputs and configurations up to a bound, executed on the real code and compared with a reference model written from the specification"
c("C15",ENU,"model_checking","Every identifier over a small alphabet up to a length bound (plus boundary shapes) under every configuration of a bounded set; oracle is an independent implementation of the published layout specifications.")
c("C16",ENU,"model_checking","Every identifier in the bound under every configuration; paths checked for form and containment, all pairs for collisions and nesting; a sample is stored through the storage root.")
c("C17",ENU,"model_checking","Every configuration of the bounded set written, reloaded and compared value by value; complete histories with a reload between operations; invalid configurations.")
c("C22",ENU,"model_checking","Every sort list, exclusion grouping, extension set and registration order up to 3 (thorough 4) extensions and one unknown name, for every hook, against a reference model of the documented order.")
c("C27",ENU,"model_checking","Every name over an alphabet of special characters up to a length bound under every configuration of a bounded set, against an independent implementation of the documentation. Inputs on which the documentation is ambiguous are only checked for the portable form.")
c("C04",ENU,"model_checking","Every single change of a catalogue (thorough: every pair of changes of the smallest object) of a bounded set of valid objects; the verdict on the result comes from an independent strict OCFL validator. Changes whose meaning the specification leaves open are not judged.")
c("C05",ENU,"model_checking","Every combination of up to k writer features (thorough 3) of every history of a bounded set; all of them valid by an independent writer and validator. Validation must not report an error.")
c("C06",ENU,"model_checking","Every change of the catalogue, of objects and of storage roots; every entry point of validation and reading must end without a panic or a hang, with an error or a report.")
c("C14",ENU,"model_checking","Every valid object, every version selector; every damaged object of the catalogue; every failing file system operation of a set of extractions.")
c("C21",ENU,"model_checking","Every sequence of updates up to a depth of every area configuration of a bounded set, compared with a model of the areas.")
c("C09",ENU,"model_checking","Every fixity set of a family (thorough: all 256), both digest algorithms, every script of up to 2 (3) steps over all ways to add content; every size of a list around the buffer boundaries; every composition of a short content into reads; digests recomputed independently.")
c("C18",BFS,"model_checking","Every sequence of creations and updates up to depth 2 (3) over bounded sets of ordinary and odd identifiers for 8 layouts plus an occupied root, reloading or keeping the root open; existence, enumeration, loading and isolation compared with a model.")
c("C19",ENU,"model_checking","Every version, layout and digest in an empty location and in every occupied location of a bounded set; every set of up to 2 (3) declaration files with every content of a list.")
c("C20",BFS,"model_checking","Every history in the bound and every valid foreign object of the writer's space; reports by id, by path and of the whole storage root are compared with the inventory read independently.")
c("C24",ENU,"model_checking","Every script of up to 2 (thorough 3) delete, rename and add operations with matching, stale and senseless arguments within one update and across two updates on own and foreign start objects, compared with a model of the state; earlier versions by extraction.")
c("C26",ENU,"model_checking","Every configuration (storage type and name, compression, folder files, areas, direct clean, indexer; quick: up to two deviations from the usual one) and every sequence of up to 2 (thorough 3) updates from real source folders; live and reloaded reports and stored lines compared with a model and stat data. The indexer library drops what is shorter than 512 bytes, which is not judged.")
c("C28",ENU,"model_checking","Every configuration (strategy, naming, areas, storage of the results, rules for results of conversions, rules only from the second update on, with the other extensions; quick: a part of the second updates for combinations) and every sequence of up to 2 (thorough 3) updates out of a list of source folders, with a deterministic converter executed as external program; states, earlier versions, validity and report compared with a model.")
c("C29",ENU,"model_checking","Every sequence of up to 2 (thorough 3) updates out of 24 (4 trees, 2 areas, 3 modes) for 9 configurations (3 storage types, areas, two digest algorithms, other extensions, descriptive metadata); after each update both files are parsed and every statement compared with the inventory read independently and the user's files with a model. Conformance to the XML schemas is not decided.")
c("C25",BFS,"model_checking","Every sequence of up to 2 (thorough 3; quick: a third of the second operations) creations and updates for 6 storage root and area configurations, compressed and stored, with one or several sessions, from directories and ZIP sources; files, validation, reports and extraction compared with a directory. Names which are prefixes of each other fail in the ZIP library (known findings).")
SCH="stateless model checking of the implementation: a controlled scheduler enumerates the interleavings of the real code"
c("C13",SCH,"model_checking","Every order of source reads, target writes and extension steps (per progress state; without this reduction for the scenarios named full) for up to three extensions of seven behaviours, every ingest entry point, failing sources and targets, contents beyond the buffers.")
c("C23",SCH+" (every statement and lock operation a scheduling point, bounded preemptions), with the race detector watching every schedule","model_checking","Every schedule of two or three threads with at most 2 (thorough 3) preemptions (1 resp. 2 for the longer ones) for 14 layout configurations; each path compared with the one built alone.")
c("C30",SCH+" (locks, storage operations and, for a part, every statement are scheduling points), with the race detector watching every schedule, and exhaustive enumeration of links and request sequences","model_checking","Every page reachable by links, every sequence of 2 (thorough 3) requests of an alphabet for each of 15 storage roots, every schedule of two requests of 8 kinds with at most 2 (3) preemptions at locks and storage operations (1 at statements); answers compared with inventory and files read independently. The calls into other packages between storage operations are atomic; the storage does not change meanwhile.")
c("C31",ENU,"model_checking","Every sequence of up to 2 (thorough 3; 3 in both for a part of the documents) updates over 26 documents (JSON, YAML, TOML; files, web server; valid, refused, none), 5 contents and modes, for 7 configurations. Sources with the https scheme are not executed (same code as http).")
c("C32",ENU,"model_checking","Every sequence of up to 2 (thorough 3, all combinations of settings) updates of 6 trees (formats found by identifier and mime type; failing, missing, empty, equal and late thumbnails) in 1 or 2 areas and 4 modes for configurations of 7 places of storage and 7 settings; the functions are real commands, the format recognition is a stand-in. The random folder names are not enumerated: each value of the generator gives a folder of the same shape.")
c("C33",ENU,"model_checking","Every selection and every subset of a bounded set of subsets of the kinds of information for every storage root of the viewer's set, every valid object of the writer's space with one feature and every history in the bound; every single failing read and write for a part. Labels and layout of the text are taken as they are.")
c("C34",ENU,"model_checking","Every reading operation, pairs of them in one session (quick: a tenth of the pairs for large sets), every single corruption of a part of the base objects, every history in the bound (all operations in one session); every storage operation observed, repeated on a file system that can only be opened for reading.")
c("C35",ENU,"model_checking","Every sequence of up to 2 (thorough 3; quick: a quarter of the second updates) updates of 6 trees of pictures (5 formats, thin, large, equal, cut, empty ones) in 1 or 2 areas and 4 modes for configurations of 6 places of storage, 4 sizes and formats (and the documented defaults) and 4 settings, into directories and (pairs) ZIP containers. Pictures have one colour; the built-in image library only, not imagick and vips.")
c("C36",ENU,"model_checking","All 256 selections of eight object extensions x three places x sequences of up to 2 (thorough 3) updates out of five; the five shipped configurations with the same sequences. The result of a selection is compared with that of its parts (states, names, checksums, reports). External programs are stand-ins; order of hooks: the shipped one.")
c("C37",ENU,"model_checking","Every single change of 5 (thorough: all, and pairs for a small object) base objects and of two storage roots, each next to a healthy and a damaged object; all codes of both versions of the specification; all sequences of up to 6 (8) errors over 4 and long ones over 6. Which code is right is judged for changes of a single file and for a table of inventory changes, where several codes fit any of them is accepted.")
