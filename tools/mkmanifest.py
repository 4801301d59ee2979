#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "riblt": "property-based testing (rapid) against a reference set model",
 "codec": "stateful property-based testing (rapid) against a reference peeling model",
 "des": "stateful property-based testing (rapid) against a reference event queue",
 "sim": "property-based testing (rapid) over topologies, configurations and generation patterns, with an event-by-event reference model",
 "meta": "metamorphic property-based testing (rapid): repeated runs must agree",
 "file": "property-based testing (rapid): files written from a model, read back",
 "node": "property-based testing (rapid) in virtual time (testing/synctest), fault and fragmentation injection on connections, reference models",
 "proc": "property-based testing (rapid) of node processes in real time, with the harness as all of their peers, against models of rate, loss, memory and content",
 "arr": "property-based testing (rapid) with statistical tests of generated arrivals",
 "tool": "property-based testing (rapid) of the command with an independent checker of its output",
 "cloud": "property-based testing (rapid) of the command against a model of the clouds, with faults injected into requests",
 "exp": "property-based testing (rapid) of the command against recording SSH servers, with faults injected",
 "diff": "property-based differential testing (rapid) against an independent implementation",
}
kind = {}
for i in range(1, 7): kind[i] = "riblt"
for i in range(7, 18): kind[i] = "codec"
kind.update({18: "des", 19: "des", 20: "sim", 21: "sim", 22: "sim", 23: "sim", 24: "meta", 25: "file", 26: "diff", 27: "node", 28: "node", 29: "node", 30: "node", 31: "diff", 32: "file", 33: "diff", 34: "codec", 35: "tool", 36: "cloud", 37: "exp", 38: "sim", 39: "node", 40: "diff", 41: "sim", 42: "proc", 43: "arr", 44: "diff"})
note = {
 "riblt": "Exploration: holds on every generated case. Trusts the reference model; statistical sub-checks use bounds with a false-alarm probability below 1e-9 per run.",
 "codec": "Exploration: holds on every generated case. Trusts the reference model; statistical sub-checks use bounds with a false-alarm probability below 1e-9 per run.",
 "des": "Exploration: holds on every generated case. Trusts the reference queue.",
 "sim": "Exploration: holds on every generated configuration. Modules run under the harness's own event loop; trusts the reference model.",
 "meta": "Exploration: traces of repeated runs in one process are compared event by event.",
 "file": "Exploration over generated files.",
 "node": "Exploration: every case runs the real goroutines in virtual time in a process of its own; goroutine interleavings within one instant are those the Go scheduler happens to choose.",
 "proc": "Exploration over generated options and peers; what a busy machine may cause is tried three times.",
 "arr": "Exploration; a correct simulator fails the tests less than once in 10^9 cases.",
 "tool": "Exploration: holds on every generated case.",
 "cloud": "Exploration: every case runs the real command in a process of its own whose HTTP transport is the model; trusts the model of the clouds.",
 "exp": "Exploration: every case runs the real command in a process of its own against SSH servers on the loopback network and a stand-in for scp that only write down what they are told.",
 "diff": "Exploration: values compared with a direct computation.",
}
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    k = kind[int(p["id"][1:])]
    checks.append({"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": T[k], "level": "exploration", "level_note": note[k]})
m = {"version": 1, "setup_cmd": "./check build", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: harnesses join its packages through go's -overlay. KNOWN_FINDINGS.txt lists the defects found."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
