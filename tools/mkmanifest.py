#!/usr/bin/env python3
# Writes MANIFEST.json from the list of implemented checks.
import json, os
TECH={
"C01":"deterministic simulation: seeded schedules of goroutines over private documents, race detector on the simulated schedule, comparison with lone runs",
"C02":"deterministic simulation: seeded schedules of registry operations, race detector, linearizability check against a reference registry",
"C03":"deterministic simulation: seeded schedules of readers over one document, race detector, comparison with a lone reader",
"C04":"deterministic simulation: seeded histories over several documents with read, write and decode faults; content of all live documents checked after each step",
"C05":"deterministic simulation: map iteration order under simulator control, same history executed under many orders and compared",
"C06":"deterministic simulation: seeded streams and read schedules with short reads, stalls, errors and truncation; packets known by construction",
"C07":"deterministic simulation: seeded documents delivered by a simulated reader, content compared with an independent property model",
"C08":"deterministic simulation: read errors and truncation injected at seeded positions of XMP and JSON loads",
"C09":"deterministic simulation: seeded corruption of stored bytes, then a full history of operations; panic, step-budget and memory detection",
"C10":"deterministic simulation: write faults injected at seeded positions of saves, prefix and report checks against a healthy destination",
"C11":"deterministic simulation: seeded limits, layouts and destinations, exact-fit oracle from an unlimited save",
"C12":"deterministic simulation: failed saves (destination, limit, failing model) injected into histories, compared with an undisturbed twin document",
"C13":"deterministic simulation: histories with crash and restart after acknowledged XMP saves, content compared with a property model",
"C14":"deterministic simulation: histories with crash and restart after acknowledged JSON saves, content compared with a property model",
"C15":"deterministic simulation: seeded edit histories with failed saves and restarts, compared step by step with a reference model of the path flags",
"C16":"deterministic simulation: seeded removals and filters in histories with edits, saves and restarts, compared with a property model",
"C17":"deterministic simulation: seeded merges followed by histories on both documents, compared with a property model",
"C21":"deterministic simulation: seeded histories of native and standard values with failed saves, crashes and restarts, compared with a reference model of which value wins; seeded identifier gathering",
"C22":"deterministic simulation: seeded histories of native tag operations with failed saves, crashes and restarts, compared with a property model and a table of tags",
"C23":"deterministic simulation: seeded histories of recorded events, versions, references and embedded documents with failed saves, crashes and restarts, compared with a property model",
}
NOTE="Seeded search: finds violations on the explored runs, no proof of absence. Trusts the harness's property model, Go's encoding/xml, encoding/json, bufio, and that scheduling points between statements are fine-grained enough."
import sys
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,"..")
props=[json.loads(l)["id"] for l in open(os.path.join(root,"properties.jsonl"))]
done=sys.argv[1:] or sorted(TECH)
PURE={
"C18":"Pure conversion of a text to a value and back: no scheduling, time, I/O, fault or history for a simulator to control; sampling inputs would be ordinary property-based testing. Values that documents carry through load and save are covered in C07, C13 and C14.",
"C19":"Pure function of two version numbers and a struct tag; nothing in it depends on schedule, I/O, faults or history.",
"C20":"Pure string arithmetic on one path; nothing in it depends on schedule, I/O, faults or history. Paths as used by documents are covered in C09 and C15.",
}
m={"version":1,"setup_cmd":"./check build /tmp/simxmp-setup && rm -f /tmp/simxmp-setup","checks":[],"not_applicable":[]}
for p in props:
    if p in TECH and p in done:
        m["checks"].append({"property":p,"quick_cmd":f"./check {p}","thorough_cmd":f"VERIF_TIER=thorough ./check {p}","technique":TECH[p],"level":"exploration","level_note":NOTE})
    elif p in PURE:
        m["not_applicable"].append({"property":p,"reason":PURE[p]})
    else:
        m["not_applicable"].append({"property":p,"reason":"check not built yet"})
m["notes"]="No hooks in /repo: checks instrument a copy of its current working tree (cmd/instr). Fixes to /repo are listed in known_findings.json under fixed."
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(m["checks"]),"checks")
