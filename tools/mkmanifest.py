#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the list below."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]

LEVEL = {
    "P01": ("exploration", "seeded search over storage answers to every call of a save; bounds in DESIGN.md"),
    "P02": ("exploration", "seeded search over catalogues, wrap widths, chunked and interrupted calls and save/reopen cycles with restarts; bounds in DESIGN.md"),
    "P03": ("exploration", "seeded search over catalogues, byte orders, chunked and interrupted calls and conversion cycles, decoded by an independent reader; bounds in DESIGN.md"),
    "P04": ("exploration", "seeded search over storage answers to every call of an open, compared with the healthy open of the same bytes; bounds in DESIGN.md"),
    "P05": ("exploration", "seeded search over storage answers to every call of an open, compared with the healthy open of the same bytes; bounds in DESIGN.md"),
    "P06": ("exploration", "seeded search over crash points at byte granularity and ways the writes were split; bounds in DESIGN.md"),
    "P07": ("exploration", "seeded search over crash points, power losses and ways the writes were split; bounds in DESIGN.md"),
    "P08": ("exploration", "seeded search over sequences of media damage; bounds in DESIGN.md"),
    "P09": ("exploration", "seeded search over hash seeds, insertion orders and save/reopen cycles; bounds in DESIGN.md"),
    "P10": ("exploration", "seeded search over thread schedules with preemption at storage calls, allocations, locks, accesses to shared memory and single instructions; bounds in DESIGN.md"),
    "P11": ("exploration", "seeded search over calls and storage answers with a full snapshot of storage around each call; bounds in DESIGN.md"),
    "P12": ("exploration", "seeded search over histories with failing and crashing saves against a reference model; bounds in DESIGN.md"),
    "P13": ("exploration", "seeded search over contents, damage and chunking, compared between the ways of passing them; bounds in DESIGN.md"),
    "P14": ("exploration", "seeded search over fault storms followed by healthy storage; bounds in DESIGN.md"),
    "P15": ("exploration", "seeded search over histories of calls through the Python module and storage answers, simulator preloaded into the interpreter; bounds in DESIGN.md"),
    "P20": ("exploration", "seeded search over layouts of foreign files, malformed lines and chunked reads, compared with the model that was laid out; bounds in DESIGN.md"),
    "P21": ("exploration", "seeded search over catalogues, widths, chunked writes and save/reopen cycles, each stored file read by an independent reader; bounds in DESIGN.md"),
    "P22": ("exploration", "seeded search over interleavings of one writer with readers of the same path, chunked and interrupted calls; bounds in DESIGN.md"),
}
NA = {
    "P16": "Pure function of a text: no schedule, clock, fault or I/O can change its outcome, so there is nothing for a simulator to control; it would be input generation only.",
    "P17": "Pure function of two entries and options: no schedule, clock, fault or I/O can change its outcome, so there is nothing for a simulator to control.",
    "P18": "Pure function of an entry and a width: no schedule, clock, fault or I/O can change its outcome. What wrapping must do to stored files is decided under P02, P09 and P21.",
    "P19": "Pure function of a text: where an error points to depends on no schedule, clock, fault or I/O. That the position does not depend on how the text was read is decided under P13, the line number for stored files under P20.",
}
checks = []
for p in props:
    i = p["id"]
    if i in LEVEL:
        lvl, note = LEVEL[i]
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection",
            "level": lvl,
            "level_note": note,
        })
m = {
    "version": 1,
    "setup_cmd": "./check build",
    "hooks": {"guard": "none needed", "enable": "", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "The simulator sits at the libc boundary of the harness executable, so no hook in /repo is needed. ./check replay FILE reproduces a reported violation.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
