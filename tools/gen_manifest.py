import json
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
NA={"N01":"The colour matrices and levels are constants compiled in; nothing in them depends on scheduling, time, I/O, faults or history, so there is no execution to simulate: only the published data could settle them."}
note={
"C01":"Every run compares the complete observation under seeded short/interrupted reads with the same run without them. Assumes the interposed libc read is the only way bytes enter (true: std::fs::File).",
"C02":"Seeded open/read/seek errors (transient and permanent) and unreadable ranges; delivered data is compared with what the undamaged file delivers.",
"C03":"Truncation at structure boundaries and at random places.",
"C04":"Seeded structural damage; panics, aborts, step-budget hangs, out-of-bounds writes (fences) and reads caught by Rust's checks. Overflow checks are on.",
"C05":"Seeded call orders compared with a fresh handle per call.",
"C06":"All entry points of both APIs compared on the same bytes.",
"C07":"rayon-core is replaced by a seeded scheduler; pixels known from the encoder.",
"C08":"Simulated threads run one at a time under a seeded scheduler with preemption at basic blocks; relaxed-memory effects are not modelled.",
"C09":"Content snapshots of all live objects re-read after each operation; allocator accounting.",
"C10":"Expected codes come from the documented interface and the Rust interface on the same file. Null filename or mime type is undefined by the interface and not called.",
"C11":"A forked process that never saw a fault is the reference.",
"C12":"Two simulated worlds that differ in memory content, hash seeds, clock, environment, directory and log level.",
"C13":"Signature table written from the format descriptions.",
"C14":"Thumbnails known from the generator.",
"C15":"Pixels known from independent encoders or reference decoders.",
"C16":"Entries known from the generator; vendor text interpretations are not judged.",
"C17":"Accounting allocator and simulated descriptors over repeated rounds.",
"C18":"Writers with seeded short, interrupted and failing writes.",
"C19":"Accounting allocator; the limit is a multiple of the file length and of the image delivered plus a constant.",
"C20":"Reference models of linearisation, of the bimedian and of the colour stage.",
"C21":"The tools' main functions run in the simulator; their report is searched for the lines the library's answers make, their files are compared byte by byte.",
}
tech={
"C01":"deterministic simulation: seeded short and interrupted reads, differential oracle",
"C02":"deterministic simulation: seeded I/O error injection against fault-free reference",
"C03":"deterministic simulation: seeded truncation (torn writes) against the complete file",
"C04":"deterministic simulation: seeded storage corruption, step-budget clock, crash and hang invariants",
"C05":"deterministic simulation: seeded call histories against fresh-handle reference",
"C06":"deterministic simulation: seeded files through every entry point, differential oracle",
"C07":"deterministic simulation: seeded scheduler for parallel decoding, model pixels",
"C08":"deterministic simulation: seeded thread interleavings with faults against solo runs",
"C09":"deterministic simulation: seeded C object lifetimes, content and allocation invariants",
"C10":"deterministic simulation: seeded C call histories with faults against documented codes",
"C11":"deterministic simulation: seeded fault histories then recovery, against undisturbed process",
"C12":"deterministic simulation: twin runs in differing simulated environments",
"C13":"deterministic simulation: seeded contents, names, truncations and faults against signature table",
"C14":"deterministic simulation: seeded files with model thumbnails, histories and faults",
"C15":"deterministic simulation: seeded files with model pixels, read chunking and schedules",
"C16":"deterministic simulation: seeded files with model metadata and histories",
"C17":"deterministic simulation: seeded histories with faults, resource accounting",
"C18":"deterministic simulation: seeded failing and short writers, prefix oracle",
"C19":"deterministic simulation: seeded corruption under an accounting allocator",
"C20":"deterministic simulation: seeded rendering histories and damage against reference model",
"C21":"deterministic simulation: the tools over seeded files with failing, short and interrupted writes, against the library's answers",
}
m={"version":1,"setup_cmd":"tools/build.sh",
"hooks":{"guard":"none","enable":"no hook in /repo: the seams are libc calls (interposed by the harness binary), the global allocator, the rayon-core crate (patched in the harness workspace) and compiler coverage instrumentation added by a rustc wrapper","source_commits":[]},
"checks":[],"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
"notes":"Every check builds /repo's working tree as a path dependency of /verif/sim. Replay a violation with tools/orsim replay FILE."}
for p in props:
    i=p["id"]
    if i in NA: continue
    m["checks"].append({"property":i,"quick_cmd":f"tools/check.sh {i} quick","thorough_cmd":f"tools/check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":tech[i],"level":"exploration","level_note":note[i]})
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
