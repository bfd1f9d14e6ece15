#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, subprocess
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
TITLES = {}
for l in open("properties.jsonl"):
    p = json.loads(l)
    TITLES[p["id"]] = p["title"]
NOTE = {
    "B": "Step model of the binary tree (BinaryMerkle) refines the append-only log contract for all histories in the configured scope, with crashes, rewinds and storage failures; the real crate's recorded executions (schedules enumerated by TLC and seeded workloads up to thousands of leaves, symbolic 64-bit counts up to 2^63 - 1) are behaviours of that contract with real SHA-256.",
    "P": "Bit-twiddling model equals the declarative geometry for all positions up to height 7 (MC_Position); recorded results of the real type, exhaustive for small indices and sampled up to 64 bits, are judged against the same geometry over 64-bit numbers.",
    "S": "Step model of the sparse tree (SparseMerkle) refines the key-value map contract for all short histories over 3-bit keys, with storage failures and crashes between any two writes; the real crate's recorded executions with 256-bit keys and real SHA-256 are behaviours of that contract.",
    "M": "Step model of the sum tree refines its log contract for all histories in scope, with storage failures; recorded executions of the real crate are behaviours of that contract with real SHA-256 and 64-bit fees.",
    "V": "Models of the reference verifier / reference tree agree with the declarative definition of proofs for all trees in scope; recorded executions of the real helpers, on genuine, forged and random inputs, are judged by the same definition with real SHA-256.",
    "K": "The map contract itself is model checked for its algebra; recorded executions of the real storage map are judged call by call.",
    "H": "Injectivity of the roots is model checked with a perfect hash over crafted data (and fails in the model when the prefixes are dropped); recorded roots of the real trees on crafted look-alike pairs are judged to be different whenever the contents are.",
    "T": "Models of two trees whose storage calls interleave in every way on one store (MC_Readers, MC_Forest, MC_SumPair) refine contracts with a state for each handle; recorded executions of several real trees, in turns, in parallel, or switching at storage calls as a seeded scheduler has it, are behaviours of the contracts with real SHA-256.",
    "Q": "The step models bound the writes and deletions of every operation by the path length; the storage calls of real operations, on trees up to tens of thousands of leaves and over keys with common prefixes up to 255 bits, are counted and judged against eight times the path length.",
    "C": "Recordings of the same histories by four builds (debug/release, with/without std) are each compared event by event with a recording that the contracts accept.",
}
T = "TLA+ specification model checked with TLC; TLC trace validation of recorded executions of the real code"
man = {
    "version": 1,
    "setup_cmd": "./build.sh && ./prebuild.sh",
    "hooks": {
        "guard": "cfg(fuel_merkle_verif)",
        "enable": "RUSTFLAGS=\"--cfg fuel_merkle_verif\" cargo build (done by check.py)",
        "source_commits": subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H", "--grep=^Verification hook"],
                                         capture_output=True, text=True).stdout.split(),
    },
    "checks": [],
    "not_applicable": [{"property": i, "reason": "no check yet"} for i in TITLES if i not in PROPS],
    "notes": "TLA+ (TLC). See DESIGN.md. known-findings.txt lists the defects found; all are repaired.",
}
for i in TITLES:
    if i not in PROPS:
        continue
    gen = "; TLC-enumerated schedules replayed on the real code" if "gens" in PROPS[i] else ""
    man["checks"].append({
        "property": i,
        "quick_cmd": "./check.py %s quick" % i,
        "thorough_cmd": "./check.py %s thorough" % i,
        "technique": T + gen,
        "level": "model_checking",
        "level_note": NOTE[i[0]] + " Trusts: SHA-256 collision freedom, the recorder, TLC; larger scopes are sampled, not exhausted.",
    })
json.dump(man, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
