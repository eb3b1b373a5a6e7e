#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check (harness/props/all.go)."""
import json, re, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set(re.findall(r'"([A-Z]\d\d)":', open(R + '/harness/props/all.go').read()))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
ENG = "Exploration: no counterexample among the generated cases; nothing is proved. Trusts the harness's field-element evaluator of the gnark front-end (compared with compiled systems by C01) and the Go toolchain."
T = {
 'F': ("differential property-based testing against an IEEE-754 reference, exhaustive pairs on tiny formats", ENG + " Reference: native IEEE-754 arithmetic and an independent big-integer implementation."),
 'S': ("adversarial property-based testing: generated forged advice, consistent witnesses searched by constraint-aware mutation", ENG + " Absence of a forgery is only shown for the generated forgeries."),
 'G': ("property-based testing of gadgets with honest and forged advice against integer arithmetic", ENG),
 'C': ("metamorphic and differential property-based testing over compiled constraint systems, curves and proof backends", "Exploration over generated circuits; trusts gnark's solvers and verifiers."),
 'C04': ("property-based testing of concurrent histories: generated sets of circuits run alone and at once, compared, under the Go race detector", "Exploration over generated circuits and the schedules that happen; trusts the Go race detector and gnark's solvers."),
 'C05': ("property-based testing over generated circuits stored by one process and used by others that never compile: differential on verdicts and on all wires", "Exploration over generated circuits; trusts gnark's serialisation, solvers and verifiers."),
 'M': ("property-based testing against high-precision reference with error bounds", ENG + " Error bounds are the measured accuracy of the approximations with a safety factor."),
 'L': ("differential property-based testing of circuit stages against the H3 C library and big-float geometry", ENG + " Trusts the H3 C library; tolerances allow the rounding of the 32/64-bit circuits."),
 'D': ("property-based testing of the data and result scripts: generated seeds, grid answers, failures and logs, every row against a high-precision reference or a model", "Exploration over generated runs; trusts Python, and big-float reference functions of the harness."),
 'U': ("property-based testing with round trips, reference definitions and fake external programs", "Exploration over generated inputs; trusts Go's math/strconv."),
 'P': ("property-based testing against great-circle geometry and file round trips", "Exploration over generated inputs; trusts Go's math and encoding/json."),
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        t, n = T.get(i) or T[i[0]]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                       "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./build.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks reach unexported code through 'go build -overlay' files kept in /verif/harness", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "One binary (harness/cmd/pbt) holds all checks; run.sh rebuilds it from /repo's working tree. Replay: ./run.sh ID --replay FILE."}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
