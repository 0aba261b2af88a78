import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
notes=json.load(open('/verif/notes.json')) if 0 else {}
NA={"C20":"A pure function of its input: Id parsing, formatting and ShortId comparison perform no I/O, keep no state and depend on no schedule, clock, fault or history, so there is nothing for a simulator to vary; deciding it would need another technique (property-based testing or proof)."}
N={
"C01":"Real library code writes and reads in 1-4 simulated processes; every acknowledged id is read back and compared with the model, after kills, restarts and faults.",
"C02":"After every single change of the simulated disk the model checks that no incomplete object is visible under its id.",
"C03":"Stored bytes are damaged at rest and in flight; any object handed out must hash to its id.",
"C04":"Panics, signals, stack overflows, deadlocks, event and CPU budgets and an allocation budget are watched in every run over damaged and hostile repositories.",
"C05":"Packs from an own writer (all delta forms, both index versions, 64-bit offsets) are read back in every order with short and interrupted reads and compared with the originals.",
"C06":"Generated well-formed objects, loose and packed; every accessor is compared with the generating fields, under short and interrupted reads.",
"C07":"Scripted git actors repack, consolidate and prune between any two system calls of the library; the model knows which objects were stored throughout an operation.",
"C08":"Additions by other processes under arbitrary clock movement; reads starting after the addition must succeed.",
"C09":"Threads share one handle; preemption at system calls, lock operations and basic blocks; results compared with the model, deadlocks detected.",
"C10":"Fault phases followed by fault-free phases on the same handle, judged as strictly as if no fault had happened.",
"C11":"Classification of not-found against other errors for missing and present names under injected failures.",
"C12":"Reference reads against lock-file updates; the value must be one held during the read (recorded history).",
"C13":"Listings against concurrent creation, deletion and readdir/stat failures; compared with the recorded history of every reference.",
"C14":"Peeling against concurrent updates; the result must be reachable through values held in order during the operation.",
"C15":"Every change of the simulated disk is attributed to the operation that made it and checked against what that operation may change.",
"C16":"Writes against pruning actors, ages, clock movement and failing utimensat; acknowledged objects must survive a grace period.",
"C17":"Descriptor table, locks, heap balance and leftover files are checked after operations and after dropping handles.",
"C18":"One damaged, missing or unreadable file; everything with a copy elsewhere must be read, and blindness must not look like absence.",
"C21":"Writers and openers run against scripted processes that write, pack, prune and clean up between any two of their system calls, over left-overs of killed processes and files of other users; only interruptions and short calls are injected, so every failure is a violation.",
"C22":"Parsed objects and half-read streams are kept and compared with the originals again after pruning, repacking, other operations and the end of the handle.",
"C19":"Every path the library hands to the operating system is resolved by the simulator and must lie inside the git directory.",
}
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":"deterministic simulation with fault injection: seeded search over schedules, faults and repository states of the real library on a simulated operating system","level":"exploration","level_note":N[i]+" Sampling: a clean batch is evidence, not proof. Trusts the simulated POSIX file system, the scripted git actors and the reference model described in DESIGN.md."})
json.dump({"version":1,"setup_cmd":"./check.sh build","checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],"notes":"No hooks in /repo: the seam is the C library interface, which the simulator binary defines itself. The library is instrumented at basic blocks by a compiler flag (sim/rustc-wrap.sh) that applies to the simulator's own build only. fix: commits in /repo are listed in known-findings.txt."},open('/verif/MANIFEST.json','w'),indent=1)
