#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
HIST = "TLA+: histories of the real server validated by TLC against the contract"
NOTE = {
    "C01": (HIST + "; design model-checked", "every recorded pipeline is explained request by request; design instances exhaust the interleavings of reading, handling and writing for small pipelines"),
    "C02": (HIST + "; stream design model-checked", "streams cut at every byte and at random places, validated; the design of the read buffer is exhausted for small buffers"),
    "C03": (HIST + "; write-buffer design model-checked", "contents and sizes are sampled around every buffer boundary; the design of the write buffer is exhausted for small buffers"),
    "C04": (HIST + "; design model-checked", "every reply is parsed by an independent reader and must be the one value the contract allows; contents are sampled, with every separator and type byte"),
    "C05": (HIST + " (linearizability of registers); store histories; design model-checked", "linearizability of every recorded history is decided exactly; schedules are sampled on the real server and on the store alone"),
    "C06": (HIST + " with clock bounds; store histories; design model-checked", "each reply must be explained for some instant within the recorded bounds of the request; durations are sampled with all boundaries"),
    "C07": (HIST + " with witnesses; design liveness model-checked", "hostile histories are sampled; witnesses on every worker must be served after each"),
    "C08": (HIST + "; design model-checked", "every class of refused request at every position of short pipelines; longer ones sampled"),
    "C09": (HIST + "; design model-checked", "ids of every recorded history are compared pairwise; schedules sampled"),
    "C10": (HIST + "; design model-checked", "every line of every recorded list is judged by the intervals in which connections can have been served"),
    "C11": (HIST + "; design model-checked", "names seen by any connection are judged by the writes that can explain them"),
    "C12": (HIST + " and resource counts; design model-checked", "limits are counted from outside by who gets answered; design instances exhaust small limits with every way to end"),
    "C13": (HIST + "; names enumerated from the specification", "every name in every letter case is replayed; unknown names are the one-edit neighbours of known ones and random ones"),
    "C14": ("TLA+ grammar enumerated by TLC, every vector replayed through the parser and the server", "exhaustive over texts of few tokens, simulated beyond; the value, the length and the verdict of each are compared"),
    "C15": ("TLA+ definition evaluated by TLC on what the library gives", "numbers of parts up to 64 and boundary ones (thorough: 255 and up to 16384), keys of all 1-byte and many longer values"),
    "C16": (HIST + " and descriptor counts; design model-checked", "descriptors are counted at rest after every kind of ending; design instances exhaust small histories"),
    "C17": (HIST + " (memory after equal loads); design model-checked", "equal loads of every kind of request and of every way to end are repeated until one adds nothing; design instances exhaust small histories for what is left behind"),
}
TRUST = "; trusts TLC, the recorder's clock and order, and that the schedules reached on loopback represent the others"
checks = []
for p in sorted(NOTE):
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
        "technique": NOTE[p][0],
        "level": "model_checking",
        "level_note": NOTE[p][1] + TRUST,
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks, "not_applicable": [],
               "notes": "No hooks: everything is observed through TCP, /proc and public items of the library. check.py C05 --replay FILE judges a replay again."},
              f, indent=1)
    f.write("\n")
