#!/usr/bin/env python3
import json
T="deterministic simulation with fault injection: "
C={
"C01":("seeded search over interleavings of tree edits by several clients (moves, removals, drains, copies, caller crashes) against a reference tree",""),
"C02":("seeded search over schedules that interleave open cursors with edits, against a reference tree and a cursor model",""),
"C03":("seeded search over edit/link/rename/remove histories with caller crashes; users lists recomputed from link attributes after every step",""),
"C04":("seeded search over data edits by interleaved clients against a reference model of every node's data",""),
"C05":("seeded search over removals and drains with predicate panics, nested edits and log-sink crashes, against a reference model",""),
"C06":("seeded search over copies between edits, with the copy and the original edited independently afterwards, against a reference model",""),
"C07":("seeded search over guard lifetimes (held across edits, dropped late, dropped by unwinding) with the edits each guard must block or allow",""),
"C08":("simulated disk (sectors, cache, sync, rename, torn and lost writes) with crash and restart at every point; the reloaded document is compared with the model of what was acknowledged",""),
"C09":("seeded damage to files (torn, lost, reordered, flipped, truncated, spliced sectors) and hostile documents, loaded by the real parser under panic, hang and allocation watch",""),
"C10":("allocator accounting over whole simulated histories, closes and failed loads included, in seeded search",""),
"C11":("seeded search over histories in which documents are closed under live handles, cursors and guards",""),
"C12":("seeded schedules that interleave several documents (same thread, nested in callbacks, and threads under a baton); each participant must behave as when alone",""),
"C13":("every simulated history executed again with another memory layout, observers, build and process; results and bytes must be identical",""),
"C14":("seeded injection of caller panics inside predicates, conversions, printing destinations and the log sink, with the reference model checked afterwards",""),
"C15":("the real generator process on simulated storage: seeded EINTR, short transfers, full and failing disk, failing opens, kills and restarts; fault-free run as oracle",""),
"C16":("seeded faults in the printing destination (errors once or for good, full, short and interrupted writes, panics, reads of the document from inside) at any point of the text; the fault-free text as oracle",""),
"C17":("element-level storage faults between save and load (loss, duplication, reordering, stale and resurrected records, misdirected references), seeded; the reference model of what is left as oracle",""),
"C18":("a simulated second program that rewrites the stored file between save and load (seeded choice of equivalent forms, overridden values and foreign content); the model of the saved document as oracle",""),
}
note="Held on every simulated run explored; a seeded search, not a proof. Oracle: an executable reference model written independently of the code. Both an optimised build and one with debug assertions run. Trusts the model, the harness and the Rust standard library; deep recursion, allocation failure and use of one document from several threads (excluded by the types) are not covered."
note15="Held on every simulated run of the real tool explored; a seeded search, not a proof. Oracle: the fault-free run on the same word lists, itself checked to name every word. Trusts the preload shim to reach every file operation of the tool (it counts them); errors reported only by close are not injected."
NA={
"C20":"Typed attribute parsing is a pure function of one string: no concurrency, time, I/O, crash point or multi-party behaviour for it to depend on, so a schedule or a fault cannot change the outcome. (That damaged input never crashes the parser is C09; that saved values come back is C08.)",
"C21":"The full CSS cascade is a pure function of the input document; no schedule, fault, clock or storage is involved. (What survives a second program moving values into style attributes and sheets is C18.)",
"C22":"White-space normalisation of text is a pure function of the input document. (That extra white space added by a second program does not show is C18.)",
"C25":"The name tables are constants: whether they form a bijection does not depend on schedules, faults or histories. (That the generator never reports success on an incomplete table is C15.)",
"C26":"Attribute classes and default values are constant tables and pure predicates.",
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
ids=[p['id'] for p in props]
assert sorted(ids)==sorted(list(C)+list(NA)),ids
m={"version":1,"setup_cmd":"bash /verif/check.sh build",
"checks":[{"property":k,"quick_cmd":f"bash /verif/check.sh {k} quick","thorough_cmd":f"bash /verif/check.sh {k} thorough","technique":T+v[0],"level":"exploration","level_note":note15 if k=="C15" else note} for k,v in C.items()],
"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
"notes":"No hooks were added to /repo: the seams used are the public API, the log facade, Rust closures and conversions, the global allocator, and (C15) the C library. Replay: bash /verif/check.sh replay FILE."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
