#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
"C01": ("random write histories on a monitored stream, every read compared with a sequence-per-channel reference model", "exploration"),
"C02": ("random write/close/reopen histories on streams and real files, reopened view compared with the writing handle and the model", "exploration"),
"C03": ("every byte stream produced is checked by an independent strict TDMS decoder written from the format description", "exploration"),
"C04": ("files from an independent random TDMS encoder, reads compared with the content the format assigns", "exploration"),
"C05": ("boundary-directed random slices compared with the reference content, sentinel-filled buffers", "exploration"),
"C06": ("each multi-channel read compared with the single-channel reads it must equal, sentinel-filled buffers", "exploration"),
"C07": ("random property histories against a last-writer-wins reference model, open and reopened", "exploration"),
"C08": ("listings over random sets of hostile names compared with an independent path grammar", "exploration"),
"C09": ("names and path texts over an adversarial alphabet against an independent path grammar", "exploration"),
"C10": ("all stored/requested type pairs over random files, accepted and refused reads judged against the model", "exploration"),
"C11": ("field-aware mutation fuzzing with panic, abort, allocation, I/O-step and CPU-time monitors around every call", "exploration"),
"C12": ("Miri and valgrind memcheck on a hostile workload whose stream inspects its buffers", "exploration"),
"C13": ("cut at every byte position of generated files, then continued writing, judged by a fresh open", "fault_enumeration"),
"C14": ("write-side stream faults injected at every operation kind and position, judged by a fresh open", "fault_enumeration"),
"C15": ("read-side stream faults, short transfers and interrupts injected at every operation kind and position", "fault_enumeration"),
"C16": ("write-position monitor on every stream write, and twin runs for refused writes", "exploration"),
"C17": ("offline checker over the recorded stream access log against the file's layout", "exploration"),
"C18": ("value codecs and conversions compared with independently computed encodings", "exploration"),
"C19": ("two random encodings of the same content compared call by call", "exploration"),
"C20": ("reported lengths compared with delivered samples on valid, cut and damaged files", "exploration"),
"C21": ("each call on a used handle compared with the same call on a fresh handle, failed calls interposed", "exploration"),
"C22": ("virtual sparse files beyond 4 GiB and 2^32 samples, values compared at computed offsets, work per call monitored", "exploration"),
}
NOTE = {
"fault_enumeration": "Held on the executions of the run: faults at every enumerated position of the generated cases, on random histories. Trusts the harness' model, decoder and stream.",
"exploration": "Held on the executions of the run (random, seeded; counts in the evidence file). Trusts the harness' reference model and independent decoder/encoder; says nothing of inputs not generated.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    t, l = T[p]
    checks.append({"property": p, "quick_cmd": f"bash run.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p}",
      "evidence_file": f"evidence/{p}.json", "technique": "runtime monitoring: " + t, "level": l, "level_note": NOTE[l]})
m = {"version": 1,
 "setup_cmd": "cd harness && cargo build --release --offline",
 "checks": checks,
 "not_applicable": [],
 "notes": "No hooks in /repo: every monitor observes the public API and the user-supplied stream. One harness crate (harness/) serves all checks; run.sh rebuilds it against /repo's working tree."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
