#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand when a check changes)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "whole histories of writes, reads, deletions, reopenings and codec settings under short and interrupted transfers",
 "C02": "storage errors at chosen and random calls of mutating operations; every success is checked against what is then stored",
 "C03": "failed and rejected writes, full disks; earlier data compared before and after",
 "C04": "processes killed before any simulated system call or part way through a write, then a fresh process reads everything",
 "C05": "histories of concurrent clients in several processes checked for linearizability per chunk (Wing-Gong search)",
 "C06": "clients on disjoint chunks and arrays, each compared with the history it would have had alone",
 "C07": "several processes opening and creating one hierarchy, with kills and storage errors",
 "C08": "region reads and writes against a dense reference array",
 "C09": "region writes cut short by errors and kills; untouched elements compared, retry completes",
 "C10": "attribute operations against a map model across reopenings",
 "C11": "concurrent metadata updates checked for linearizability; two listed findings",
 "C12": "existence and listing against a node-tree model",
 "C13": "removal under concurrency, errors and kills; what must remain and what must go",
 "C14": "hostile path names in a populated simulated file system; anything touched outside is recorded",
 "C15": "stored bytes damaged between phases (truncation, bit flips, foreign and huge documents); no panic, abort or wrong data",
 "C16": "read-only operations with the store image compared before and after, also on a read-only file system",
 "C17": "threads and processes under contention, errors and kills; deadlock, livelock, leaked descriptors and locks",
 "C18": "errors injected into reads, listings and existence queries; none may become an answer",
 "C19": "metadata documents through storage and back, several writers' spellings",
 "C20": "stored bytes read and written by an independent codec of the documented format",
 "C21": "the storage traits over a simulated custom backend with buffered, splitting and failing streams",
}
checks = [dict(property=p, quick_cmd=f"bash check.sh {p} quick", thorough_cmd=f"bash check.sh {p} thorough",
   technique="deterministic simulation with fault injection (seeded search)", level="exploration",
   level_note=n[0].upper()+n[1:]+". Real library code on a simulated kernel; a pass covers the explored seeds only and trusts the simulated kernel and the reference model.") for p, n in NOTE.items()]
m = dict(version=1, setup_cmd="bash build.sh", checks=checks,
 not_applicable=[
  dict(property="C22", reason="Pure arithmetic on its arguments: no schedule, clock, I/O, fault or history for a simulation to vary."),
  dict(property="C23", reason="Pure string parsing and printing: no schedule, clock, I/O, fault or history for a simulation to vary.")],
 notes="No hooks in /repo: the simulator interposes on libc in its own binary and implements the crate's public storage traits. Replay a reported file with: bash replay.sh FILE. Findings and repairs: known-findings.txt.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1); open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
