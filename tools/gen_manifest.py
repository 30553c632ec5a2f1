#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a harness is claimed, the others are listed as not applicable."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
CONC = {"C04", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C13", "C15", "C17", "C18", "C19", "C20", "C22", "C23", "C24"}
ENG = ("Trusts the engine's model of JVM bytecode, its models of java.util(.concurrent) and its translation to SMT; "
       "every reported counterexample and every reachability witness is replayed on the real classes.")
NA = {}
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if not os.path.exists(os.path.join(H, "harness/src/verif/h", i + ".java")):
        na.append(dict(property=i, reason=NA.get(i, "not claimed yet: its harness is still being built")))
        continue
    tech = "symbolic execution of the real bytecode with SMT-decided assertions (Z3, cvc5)"
    note = "Bounded: holds for every value of the symbolic inputs"
    if i in CONC:
        tech += ", thread schedules symbolic"
        note += " and every interleaving (sequentially consistent memory" + ("; for a program without such accesses the Java memory model guarantees that there is no other behaviour)" if i == "C24" else ")")
    note += " within the bounds of each harness (in the evidence file and DESIGN.md); nothing is claimed beyond them. " + ENG
    checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                       evidence_file=f"evidence/{i}.json", technique=tech, level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the engine interprets the compiled classes of the current working tree and instruments only its own copy of them for native replay.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
