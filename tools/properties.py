import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
DB="src/object/database.rs"; L="src/object/database/loose.rs"; PK="src/object/database/packed.rs"; IX="src/object/database/packed/index.rs"; PF="src/object/database/packed/pack.rs"; DL="src/object/database/packed/delta.rs"; RD="src/object/database/reader.rs"; BUF="src/parse/buffer.rs"; OP="src/object/parse.rs"; RDB="src/reference/database.rs"; RP="src/reference/parser.rs"; SY="src/reference/symbolic.rs"; DI="src/reference/direct.rs"; REPO="src/repository.rs"
add("C01","Acknowledged object writes stay readable",
 "When writing an object reports success, the id it returns is the SHA-1 of the written bytes. From then on reading that id yields exactly those bytes: from any thread, handle or process, however the write interleaved with other writers of the same or different content, after the writing process is killed at any point and the repository is reopened, and whatever I/O errors, full disk, short or interrupted writes occurred on the way. An error is reported instead of success whenever the object could not be stored completely.",
 ["schedules","crash_points","histories","fault_sequences","inputs"],
 "every interleaving of writers and readers, every process-kill point, every sequence of injected I/O faults, every content",
 "roundtrip_object writes once with one thread, no faults and reads straight back; no test has a second writer, an I/O error, a full disk or a crash",
 [DB,L],[("loose object write path","src/object/database/loose.rs write_object"),("content hash as the id","src/object.rs Id::from_hash")],
 ["ObjectDatabase::write_object","ObjectDatabase::read_object","ObjectDatabase::parse_object"])
add("C02","Objects appear all at once or not at all",
 "At no instant - while a write is in progress, after a write that failed, or after the writing process was killed at any point - can an object be observed under its id, by another thread, process or tool reading the repository, in an incomplete or damaged state. A failed or killed write never prevents a later write of the same content from succeeding and being readable.",
 ["schedules","crash_points","fault_sequences"],
 "every instant between two I/O calls of a write, every kill point, every fault",
 "tests only look after a write returned successfully; no test observes the repository in the middle of a write or after a failed one",
 [L,DB],[("publication of the object file","src/object/database/loose.rs write_object")],
 ["directory objects/xx","ObjectDatabase::parse_object"])
add("C03","Wrong data is never returned for an object id",
 "Looking up and parsing an object by its id either returns an object whose stored content hashes (SHA-1) to that id, or fails with an error. This holds whatever stored bytes were flipped, truncated, zeroed, extended, swapped between files or torn by a power loss, and whatever faults occur while reading.",
 ["fault_sequences","inputs","crash_points"],
 "every damage to any object, pack or pack index file, and every read fault at any point of a lookup",
 "all tests read intact repositories",
 [DB,RD,OP,IX,PF,DL,BUF],[("length and checksum validation of object streams","src/parse/buffer.rs read_to_end; zlib checksum"),("pack/index cross checks","src/object/database/packed.rs Entry::open")],
 ["ObjectDatabase::parse_object"])
add("C04","Damaged repositories and failing I/O never crash or hang",
 "Whatever bytes the files of a repository contain and whichever I/O calls fail, every operation returns a value or an error. It never panics, aborts, overflows the stack, deadlocks or runs forever, and the memory it uses is bounded by the data actually stored (unpacked and with deltas applied), not by sizes the data merely claims.",
 ["inputs","fault_sequences","schedules"],
 "every content of object, pack, index, HEAD and reference files; every failing I/O call",
 "one proptest feeds random bytes to the reference parser; nothing feeds damaged objects, packs or indexes, reference cycles, or failing I/O",
 [IX,PF,DL,OP,BUF,SY,RP,"src/object/commit.rs","src/object/tag.rs","src/object/tree.rs","src/object/signature.rs"],[("bounds checks in the parsers","src/parse/parser.rs, src/object/database/packed/index.rs"),("delta loop check","src/object/database/packed/pack.rs find_chain"),("symbolic reference following","src/reference/symbolic.rs peel")],
 ["every public operation"])
add("C05","Objects read from packs equal the originals",
 "Every object stored in a valid pack file - whole, or as a chain of offset or id deltas of any depth, in any object order, indexed by a version 1 or version 2 index including 64-bit offsets, in one pack or several - is found by its id and read back, both as a parsed object and as a byte stream, exactly as if it were stored as a loose object. The result does not depend on the order or repetition of earlier reads, nor on how the operating system splits or interrupts the underlying reads.",
 ["inputs","histories","fault_sequences","configurations"],
 "every valid pack and index layout, every order of reads through one handle, every chunking and interruption of reads",
 "one test reads one undeltified commit from one fixture pack; no test reads a delta, a version 1 index file, a large offset, or repeats reads",
 [PK,IX,PF,DL,RD,BUF],[("index lookup","src/object/database/packed/index.rs find_offset"),("delta chain resolution and cache","src/object/database/packed/pack.rs find_chain, apply_delta"),("delta decoding","src/object/database/packed/delta.rs apply_delta")],
 ["ObjectDatabase::parse_object","ObjectDatabase::read_object"])
add("C06","Parsed objects report exactly the stored fields",
 "For every well-formed commit, tree, tag and blob as git writes them (any bytes in names, messages and contents, any number of parents and entries, extra headers, any text encoding), the accessors of the parsed object return exactly the stored ids, modes, file names, identities, timestamps, time zones, encoding and message. This does not depend on how the underlying reads are split or interrupted.",
 ["inputs","fault_sequences"],
 "every well-formed object content, every chunking and interruption of the reads that deliver it",
 "each object kind has one or two ASCII examples, read in one piece",
 ["src/object/commit.rs","src/object/tree.rs","src/object/tag.rs","src/object/blob.rs","src/object/signature.rs",OP,BUF],[("streaming header and body parsing","src/object/parse.rs"),("signature matching","src/object/signature.rs")],
 ["Commit, Tree, Tag, Blob and Signature accessors"])
add("C07","Live objects stay findable while git repacks",
 "A read of an object that is stored throughout the read succeeds, even while other processes move objects from loose files into new packs, consolidate packs and delete the now redundant loose files and old packs, at any speed and in any interleaving, and whatever the clock says. It is never reported as missing and the read does not fail because a file disappeared.",
 ["schedules","histories"],
 "every interleaving of a read (first or repeated, new or long-open handle) with the steps of concurrent packing, repacking and pruning; every passage of time",
 "tests have no concurrent process, and the retry after a miss is never exercised",
 [DB,PK,L],[("packed, loose, packed-again lookup","src/object/database.rs read_object"),("rescan of the pack directory","src/object/database/packed.rs refresh")],
 ["ObjectDatabase::read_object","ObjectDatabase::parse_object"])
add("C08","Completed writes by others are visible at once",
 "Once another process, thread or handle has completely added an object to the repository, as a loose object or in a new pack, every read of that object that starts afterwards through any already open handle finds it. This holds no matter how recently that handle looked for the same or another object, or how the clock moved in between.",
 ["histories","schedules"],
 "every history of earlier hits and misses on the handle, every timing of the addition, every clock movement",
 "tests open a fresh handle after all writing is done; none keeps a handle across a change",
 [DB,PK,L],[("rescan of the pack directory","src/object/database/packed.rs refresh")],
 ["ObjectDatabase::parse_object"])
add("C09","Concurrent use of one handle behaves like sequential use",
 "Any number of threads may read and write objects and read references through one shared repository handle at the same time. Each operation returns exactly what it would return if it ran alone at some moment between its start and its end, and every operation completes: no interleaving deadlocks, fails or mixes up data.",
 ["schedules","histories"],
 "every interleaving of the threads at every I/O call and lock operation",
 "no test shares a handle between threads",
 [PK,PF,DB,L],[("pack file lock around seek and read","src/object/database/packed/pack.rs"),("concurrent maps for packs and cached bases","src/object/database/packed.rs, pack.rs"),("refresh lock","src/object/database/packed.rs refresh")],
 ["Repository shared by reference"])
add("C10","Failures are not sticky",
 "An I/O error makes at most the operations running at that moment fail. Once I/O works again, every operation through the same handle succeeds and returns the same results as if no error had ever happened.",
 ["fault_sequences","histories"],
 "every sequence of I/O errors at every point of every operation, followed by a fault-free period",
 "no test injects an I/O error below the public interface",
 [PK,PF,L,RDB,DB],[("caches are only filled with complete results","src/object/database/packed/pack.rs cache; packed.rs packs"),("seek before every read","src/object/database/packed/pack.rs")],
 ["all operations of a Repository"])
add("C11","Missing is reported only for what is missing",
 "Looking up an object or reference that does not exist, or opening a directory that is no repository, reports that it was not found. The not-found report is never given because the lookup itself failed: if something exists, an I/O error during the lookup is reported as that error and not as not-found. The error of a failed object lookup names the id that was looked up and never claims that a complete id is ambiguous.",
 ["fault_sequences","inputs","configurations"],
 "every I/O error at every point of every lookup; every state of the object and reference directories",
 "no test looks up anything that is missing or lets a lookup fail",
 [DB,PK,L,RDB,REPO],[("error kinds","src/object.rs ReadObjectError, src/reference.rs Error, src/repository.rs OpenError")],
 ["ReadObjectError::is_not_found","reference::Error::ReferenceNotFound","OpenError::NotFound"])
add("C12","Reading a reference gives one whole current value",
 "Reading HEAD or a reference stored as a file returns a value the reference held at some moment between the start and the end of the read, with its target exactly as stored, while other processes create, replace and delete references the way git does (lock file, then rename). The result does not depend on how reads are split or interrupted, and an I/O error is reported as an error, never as a value.",
 ["schedules","inputs","fault_sequences"],
 "every interleaving with reference updates, every valid direct or symbolic value, every chunking and I/O error",
 "tests read HEAD once in an idle repository",
 [RDB,RP,DI,SY,"src/reference.rs"],[("whole-file read then parse","src/reference/parser.rs parse")],
 ["ReferenceDatabase::head, reference, parse_reference","Reference::from_reader"])
add("C13","Listing references is complete and exact",
 "Listing branches, tags, remote references or all of them returns, each exactly once, every reference stored as a file throughout the listing, and nothing that was not a reference at some moment during it: no lock files, no directories. Concurrent creation, update and deletion of other references never makes a listing fail, and a listing interrupted by an I/O error is reported as an error, never as a shorter list.",
 ["schedules","fault_sequences","inputs"],
 "every set of nested reference names, every concurrent change, every I/O error during the directory walk",
 "the only test that lists references prints the result without checking it",
 [RDB],[("recursive directory walk","src/reference/database.rs get_file_paths_from_dir")],
 ["ReferenceDatabase::reference_names, head_reference_names, tag_reference_names, remote_reference_names"])
add("C14","Peeling follows references to the current object",
 "Peeling HEAD or a reference follows symbolic references to the object named by the final direct reference, and returns an object that this chain named at some moment during the operation, also while references are being updated and objects repacked. Chains are followed at least as deep as git follows them (five symbolic references). A chain that is dangling or cyclic gives an error.",
 ["schedules","inputs","histories"],
 "every chain of references, every interleaving with updates",
 "no test peels a reference",
 [SY,DI,"src/reference.rs",DB],[("symbolic to direct resolution","src/reference/symbolic.rs peel, src/reference/direct.rs object")],
 ["Reference::peel"])
add("C15","Reading changes nothing, writing only adds",
 "Opening a repository, reading or parsing objects, reading, listing or peeling references never creates, changes or removes anything on disk. Writing an object adds only that object (and, while it runs, its own temporary files and directory): it never modifies, truncates or removes any other file, nor the content of an object that is already stored, even when it fails.",
 ["histories","fault_sequences","schedules"],
 "every operation, every interleaving, every failure",
 "no test checks what an operation did to the rest of the repository",
 [L,RDB,PK,REPO],[("read-only opens; create-new for objects","src/object/database/loose.rs")],
 ["the file system"])
add("C16","Writing an existing object protects it from pruning",
 "When a write of an object reports success, the object survives any concurrent or later pruning that removes loose objects older than a grace period, even if the object was already stored, long unreferenced and about to be pruned when the write started. A write that finds the object already stored renews its age to the current time.",
 ["schedules","histories"],
 "every interleaving of a write with a concurrent prune; every age of the existing object; every failure to renew it",
 "one test checks that the modification time changes in an idle repository",
 [L],[("modification time update on an existing object","src/object/database/loose.rs write_object")],
 ["loose object file and its modification time"])
add("C17","Every operation gives back what it took",
 "Whether it succeeds or fails, an operation leaves no file descriptor open other than one per open pack, no lock held, and no temporary or partial file behind unless the process was killed or the cleanup itself failed. Repeating the same operations does not make descriptors or memory grow, and dropping the handle releases everything.",
 ["fault_sequences","histories"],
 "every error path, every long repetition of operations",
 "no test counts descriptors, memory or left-over files",
 [L,PK,PF,RDB],[("ownership of files and buffers","all")],
 ["open descriptors, allocated bytes, files"])
add("C18","Damage is confined to the damaged file",
 "When one object file, pack or pack index is damaged, missing or unreadable, only objects that have a copy in that file (or in that pack) are affected: every other stored object, loose or packed, is still found and read correctly, and new objects can still be written. When an object cannot be found anywhere but some pack could not be consulted, the failure is reported as an error and not as not-found. Once an intact file has been put in the place of the damaged one, a handle opened from then on finds and reads everything again.",
 ["fault_sequences","inputs"],
 "every kind of damage to any one file, every other object",
 "all tests read intact repositories",
 [DB,PK,IX],[("per-pack error handling in lookups","src/object/database/packed.rs refresh, try_read_object")],
 ["ObjectDatabase::parse_object"])
add("C19","Access stays inside the repository's git directory",
 "Whatever names a caller passes and whatever a HEAD or reference file contains, reading, peeling or listing references and reading or writing objects never opens a path outside the repository's git directory.",
 ["inputs","histories"],
 "every reference name and every content of symbolic reference files, including absolute paths and parent directory components",
 "no test uses a hostile name",
 [RDB,SY],[("reference name to path mapping","src/reference/database.rs read_reference_file")],
 ["paths passed to the file system"])
add("C20","Object id text forms round-trip and order consistently",
 "Formatting an object id as hexadecimal and parsing it back gives the same id, invalid text is rejected, and abbreviated ids compare with full ids consistently with prefix order.",
 ["inputs"],
 "every id and every text",
 "a handful of fixed ids is tested",
 ["src/object.rs"],[("hex conversion and comparison","src/object.rs Id, ShortId")],
 ["Id, ShortId"])
add("C21","Maintenance by others never makes opening or writing fail",
 "As long as no I/O call fails for want of space, rights or a broken disk, opening a repository and writing objects succeed whatever other processes and threads do meanwhile: writing the same objects, packing, pruning objects and temporary files, removing empty directories, updating references. Left-over files of killed processes, objects that are already stored and read-only or belong to another user, and interrupted system calls do not make them fail either.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of writers and openers with maintenance by other processes, every state killed processes can leave behind, every interruption",
 "tests write with one thread into a repository nobody else touches and own every file in it",
 [L,DB,REPO],[("fan-out directory and temporary file creation, publication by link or rename","src/object/database/loose.rs write_object"),("recognition of a repository","src/repository.rs Repository::open")],
 ["ObjectDatabase::write_object","Repository::open"])
add("C22","Results stay valid after they are returned",
 "An object that was parsed, or a reader that was obtained for one, keeps delivering exactly the contents of that object for as long as it is kept. This holds whatever happens afterwards: the object is repacked, pruned or its pack deleted, other operations run on the handle in any thread, or the handle is dropped.",
 ["schedules","histories"],
 "every sequence of operations and of changes by other processes between obtaining a result and using it",
 "tests use every result immediately and nothing changes the repository in between",
 [RD,L,PF,BUF,OP,"src/object.rs"],[("object readers and parsed objects own what they need","src/object/database/reader.rs, src/object/parse.rs")],
 ["ParsedObject accessors","reader returned by ObjectDatabase::read_object"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,s)
print(len(P))
