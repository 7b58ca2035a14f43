"""Per-property notes for MANIFEST.json (see gen_manifest.py)."""
NA = {}
TECH = {
 "C21": "TLA+ specification (TLC): validation of recorded operation histories of the real containers against spec/Containers.tla",
}
S = ("TLA+ specification (TLC): trace validation against spec/Heap.tla of the real collectors running under a "
     "deterministic scheduler that makes every memory access a switch point")
for i in ("C13", "C14"):
    TECH[i] = S
SN = ("Every explored schedule's trace is checked by TLC to be a behaviour of the heap specification. Schedules are "
      "sampled (fixed by VERIF_SEED), with small worklists and injected evacuation failures so that rare paths are "
      "common; sequentially consistent interleavings. Decides the executions it runs, not all.")
NOTE = {"C13": SN, "C14": SN,
 "C21": "Random and adversarial operation histories (colliding, wrapping, table-filling keys), every answer of the real "
        "code judged by the specification. Sampled histories."}
for i in ("C11", "C16"):
    TECH[i] = ("TLA+ specification (TLC): trace validation of recorded runs of the real collectors against the heap-budget "
               "specification spec/Space.tla")
NOTE["C11"] = ("Several threads fill, churn and empty fixed heaps at and beyond what fits; TLC decides whether each "
               "out-of-space report was justified by an upper bound on live data, and whether live data ever exceeded "
               "the heap. Sampled histories and schedules; small slack (about a quarter of the heap) for fragmentation.")
NOTE["C16"] = ("Recorded histories of resize and live-data events under growable and adaptive policies; the policy's bounds "
               "are checked by TLC with the live data that the program itself knows to be live. Sampled histories.")
TECH["C22"] = ("TLA+ specification (TLC): linearizability of recorded concurrent histories of the real worklists against "
               "spec/Worklist.tla, under a deterministic scheduler (sequentially consistent and TSO)")
TECH["C23"] = "TLA+ specification (TLC): histories of the real remembered set, under the scheduler, against spec/FieldSet.tla"
TECH["C25"] = "TLA+ specification (TLC): histories of the real background thread, under the scheduler, against spec/Background.tla"
for i in ("C22", "C23", "C25"):
    NOTE[i] = ("Unit harness that includes /repo's header; the scheduler makes every memory access a switch point and the "
               "seed fixes the schedules; every history is judged by TLC. Sampled schedules, small buffers by hook as well "
               "as the real sizes.")
TECH["C17"] = "TLA+ specification (TLC): histories of settings of the real options of five collectors against spec/Options.tla"
NOTE["C17"] = ("Every result and all options after every setting are judged by TLC, which parses the strings itself (spec/Options.tla "
               "has the grammar and arbitrary-precision sizes). Sampled histories of valid, boundary and malformed settings; "
               "white space, hexadecimal floating point and upper-case suffixes in lists are not generated.")
TECH["C27"] = "TLA+ specification (TLC): histories of the real listeners and histograms, under a simulated clock, against spec/Stats.tla"
NOTE["C27"] = ("Every call that a chained listener receives, the statistics after every event and each histogram query are judged by TLC. "
               "Sampled histories; the clocks are replaced by the harness.")
TECH["C24"] = "TLA+ specification (TLC): histories of the real platform layer and metadata scans against spec/Platform.tla"
NOTE["C24"] = ("Addresses, contents, accessibility and total address space after every call, and every scan's result, are judged by TLC. "
               "Sampled histories on Linux; other platforms' back ends are not built here.")
HOOKS = dict(guard="GC_VERIF_SMALL_WORKLISTS and GC_VERIF_FAULTS (preprocessor)",
             enable="harness/heap/build.sh compiles /repo's sources with -DGC_VERIF_SMALL_WORKLISTS -DGC_VERIF_FAULTS for the "
                    "schedule-exploring builds (lib/heap.py: SMALL); other builds leave them off",
             source_commits=["3b6e991", "f89f00e"])
