#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]

GROUP = {
    "Y": ("TLA+ model of two yamux endpoints checked with TLC; recorded executions of the real sessions validated by TLC against the same specification",
          "exhaustive for the model within the constants of spec/Yamux_*.cfg; the code is bound by trace validation over TLC-generated and seeded programs, not proved"),
    "M": ("TLA+ specification of addresses as component lists with byte and text forms, checked with TLC; every recorded call on the real crates evaluated by TLC against it",
          "exhaustive for the specification within spec/AddrMC*.cfg; all component lists of the model and all short byte strings are replayed on the code, longer inputs are sampled"),
}
GROUP["C"] = ("TLA+ model of the two-priority queue at the grain of its atomic steps checked with TLC; calls and returns recorded from the queue sources under a controlled scheduler validated by TLC against the same steps",
              "exhaustive for the model within spec/Chan_*.cfg; the code is bound by trace validation over sampled programs and schedules with sequentially consistent memory")
GROUP["T"] = ("TLA+ specification of services, sessions, protocols, messages, timers and tasks, closed models of it checked with TLC; recorded executions of real services over a simulated network with virtual time validated by TLC against it",
              "exhaustive for the closed models within spec/Tent_*.cfg; the code is bound by trace validation over TLC-generated and seeded programs, schedules and faults, not proved")
GROUP["S"] = ("TLA+ specification of handshakes and encrypted streams in the hands of an attacker, over symbolic messages, checked with TLC; recorded handshakes and streams of the real code, fed with TLC-generated and seeded attacks, validated by TLC against the same specification",
              "exhaustive for the specification within spec/Secio_*.cfg; cryptographic primitives are assumed perfect in it; the code is bound by trace validation, not proved")
GROUP["A"] = ("TLA+ specification of the ping, identify and discovery protocols with peers that say anything, closed models of it checked with TLC; recorded executions of the real protocols on real services over a simulated network validated by TLC against it",
              "exhaustive for the closed models within spec/Apps_*.cfg; the code is bound by trace validation over TLC-generated and seeded programs, not proved")
GROUP["P"] = GROUP["M"]
# properties whose check exists
CLAIMED = {"Y01", "Y02", "Y03", "Y04", "Y05", "Y06", "Y07", "Y08", "Y09", "Y10", "C01", "C02", "M01", "M02", "P01"} | {"T%02d" % i for i in range(1, 15)} | {"S%02d" % i for i in range(1, 6)} | {"A01", "A02", "A03"}
REASON = {}

checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, note = GROUP[i[0]]
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": REASON.get(i, "no check built yet")})

hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "cfg(verif)", "enable": "RUSTFLAGS=--cfg verif, set by lib/core.py when it builds the harness crates that need it",
               "source_commits": [h.split()[0] for h in hooks if h.split(" ", 1)[1].startswith("verif hook:")]},
     "checks": checks, "not_applicable": na,
     "notes": "Known and fixed findings: known_findings.json. bin/show prints a replay file; DESIGN.md describes everything else."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
