#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/gen_manifest.py > MANIFEST.json)."""
import json
T="deterministic simulation with fault injection: seeded search, "
N={
"C01":("damaged storage, every loading route","No crash, hang, runaway or memory blow-up on any explored bytes; damage is injected into generated valid documents (sector faults and value-level damage)."),
"C02":("arbitrary clock readings on arbitrary loadable documents","Every render returned within the step budget under hostile documents (cycles, extremes) and clocks."),
"C03":("sink crashes and renderer histories against fresh-renderer re-execution","Compares with the same code on a fresh renderer, so it is exact and trusts nothing but that code's determinism."),
"C04":("seeded preemption at basic-block edges of client threads against sequential re-execution","Preemption points are the executed edges of velato and its data types; hardware memory reordering is not simulated (the library is safe Rust without atomics of its own)."),
"C05":("invariant monitored at every prefix of the recorded stream","Structural invariant over every prefix of every recorded stream."),
"C06":("playback histories against a reference model","Oracle: independent reference model reading the document's JSON."),
"C07":("playback histories with boundary clock readings against a reference model","Oracle: independent reference model with its own keyframe evaluation; values compared within a tolerance."),
"C08":("playback histories against a reference model","Oracle: independent reference model."),
"C09":("playback histories against a reference model","Oracle: independent reference model."),
"C10":("playback histories against a reference model","Oracle: independent reference model."),
"C11":("playback histories against a reference model","Oracle: independent reference model."),
"C12":("playback histories on shared scratch buffers against a reference model","Oracle: independent reference model; streams are canonicalised first (merging of paths, order of equal draws)."),
"C13":("playback histories against a reference model","Oracle: independent reference model that measures and cuts the paths itself; paths compared geometrically."),
"C14":("long simulated playback with counting allocator and edge clock","Memory is counted exactly per allocation, work in executed edges."),
"C15":("torn, truncated and stale-tailed writes","Damage is chosen so that the bytes are certainly not one complete document."),
"C16":("save/reload cycles with restart and crash of the writer","Oracle: JSON equality of reloaded documents with the original's known fields, and stream equality."),
"C17":("environment faults (hash seed, clock, thread, earlier loads) between executions","Compares executions of the same code under different simulated environments."),
"C18":("playback histories, recording sink against Vello scene encoding","Built with the vello feature; the reference encoding is produced from the recorded stream through the Vello API itself."),
"C19":("re-execution under transforms","Compares with the identity execution of the same code."),
"C20":("re-execution on a shifted clock","Compares with the execution of the unshifted document."),
"C21":("network faults, disk faults, crashes and power loss at every step of the download, then a fault-free run","The example's own download code and HTTP client run on a simulated kernel; TLS is left out (plain HTTP in the simulated network), and a chunked body cut inside a chunk counts as complete because the HTTP library does not report it."),
"C22":("clock histories with stalls, jumps and a stopped clock against a window model","The example's own statistics code; oracle recomputes everything from the full list of samples."),
"C23":("touch event histories with lost, duplicated and reordered events against a reference model","The example's own gesture code; winit is replaced by its event types."),
"C24":("clock histories with stalls and jumps against a reference clock","The example's own playback code, reading files and clock from a simulated kernel; the shown frame is read back from the encoded scene."),
"C25":("permuted directory listings","The example's own scene selection, listing directories of a simulated kernel in seeded orders."),
"C26":("load histories on threads, loading routes and save cycles against the document's own header","Oracle: the header members read from the document's JSON."),
"C27":("playback histories of two equivalent writings of one document","Compares the code with itself on the other writing; the rewriting is built not to change what the document says."),
"C28":("playback histories of a document with and without silent layers and assets","Compares the code with itself; reported layer positions, empty groups and empty clips are left out of the comparison; no circular references."),
"C29":("playback histories at another clock speed","Compares the code with itself; factors are powers of two, so that equal means bit-equal times."),
"C34":("playback histories of a document and of the same layers nested in precompositions","Compares the code with itself; the instances' placements are still, so that the equivalent transform is known exactly."),
"C35":("playback histories of one motion written with different keyframes","Compares the code with itself; only rewritings that leave every value as it is (holds and even linear segments are the only ones split)."),
"C36":("playback histories of one drawing grouped and parented in two ways","Compares the code with itself."),
"C37":("playback histories of joined documents against their parts","Compares the code with itself; documents whose mattes rely on the layer above being implicit and hidden are left out."),
"C38":("playback histories of documents that differ only beyond a cut time","Compares the code with itself on the unchanged side."),
"C39":("playback histories of one document at two sizes","Compares the code with itself; factors are powers of two; outlines of ellipses and rounded corners compared within the curve tolerance of the geometry library; no trims."),
"C40":("playback histories with edits of compositions in place, against documents loaded anew","Compositions are assembled through the public model types with seeded choices of representation; compared with the loaded document, or with the reference model for raw outlines and blend modes no document can name."),
"C41":("playback histories against a reference model","Oracle: independent reference model of repeaters in compositions built through the public model types."),
"C42":("inconsistent compositions under arbitrary clock readings and sink crashes","Every render returned within the step and memory budget, without a panic, and its stream was well nested."),
"C43":("playback histories of a document against those in which only some of its layers draw","Compares the code with itself; the streams of the parts must interleave to exactly the stream of the whole."),
}
NA={
"C30":"a pure function of the shape's parameters at one instant: there is no schedule, clock, fault or history in it (how those parameters move in time is C07)",
"C31":"a pure function of one stop list, evaluated once at load: nothing for a simulator to vary",
"C32":"a constant table from numbers to modes: nothing for a simulator to vary (that no number crashes the importer is C01)",
"C33":"the wording of an error is a pure function of the document (that damaged documents are rejected is C15)",
}
claimed=[c for c in sorted(N) if c not in NA]
m={"version":1,"setup_cmd":"bash sim/build.sh && bash sim/build.sh vello && bash sim/build.sh apps",
 "hooks":{"guard":"none","enable":"No hooks in /repo: the simulator uses the library's own RenderSink seam, compiles /repo with edge callbacks from outside (RUSTC_WRAPPER) and interposes futex, getrandom, clocks and the allocator at link level; for the example programs also files, directories, sockets and name lookup.","source_commits":[]},
 "checks":[{"property":c,"quick_cmd":f"./check.sh {c} quick","thorough_cmd":f"./check.sh {c} thorough","evidence_file":f"evidence/{c}.json","technique":T+N[c][0],"level":"exploration","level_note":N[c][1]+" Sampled, not exhaustive: a clean batch is evidence, not proof."} for c in claimed],
 "not_applicable":[{"property":k,"reason":v} for k,v in sorted(NA.items())],
 "notes":"See DESIGN.md."}
print(json.dumps(m,indent=1,ensure_ascii=False))
