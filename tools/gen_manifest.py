#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
TECH = {
 "seq": "deterministic simulation: seeded histories with injected allocation/system-call faults against a reference model",
 "thr": "deterministic simulation: seeded thread schedules and faults on real threads run one at a time, checked against a model",
 "env": "deterministic simulation: simulated OS services (clock, disk, loader, environment, streams) with injected faults, reference model",
}
KIND = dict(C26="thr", C27="thr", C28="thr", C09="thr", C10="thr", C13="thr", C14="thr", C23="thr", C24="thr",
            C12="env", C16="env", C17="env", C18="env", C19="env", C20="env", C21="env", C22="env")
import sys
done = set(open(os.path.join(V, "tools", "claimed.txt")).read().split())
NOTE = ("Sampled, not exhaustive: every run executes the real rcutils sources of the working tree (clang -O1, AddressSanitizer) inside "
        "one process under the simulator; a run is a pure function of its seed, and every violation is replayed in fresh processes and "
        "minimised before it is reported. Trusts the simulated libc services, the reference model in sim/, the compiler and ASan.")
m = dict(version=1, setup_cmd="python3 build.py",
 checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
              technique=TECH[KIND.get(p["id"], "seq")], level="exploration", level_note=NOTE)
         for p in props if p["id"] in done],
 not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")) for p in props if p["id"] not in done],
 notes="No hooks in /repo: the seams are the library's undefined libc symbols, renamed in the object files of the simulator build "
       "(build.py). A replay file is re-run with: python3 check.py --replay FILE [EVENTLOG].")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
