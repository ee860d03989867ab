#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
src = open(os.path.join(V, "bin", "check.py")).read()
TLA = "TLA+ specification checked with TLC; "
SIM = "TLC-generated scripts replayed into the real code, recorded traces validated against "
REC = "cases enumerated and drawn by TLC run through the real code, every recorded result checked by TLC against "
tech = dict(
    confirmed=(TLA + SIM + "Confirmed.tla (virtual time)",
               "Exhaustive model of the protocol for small constants; conformance sampled: behaviours drawn by TLC simulation from the same specification."),
    pubsub=(TLA + SIM + "Utsm.tla (virtual time)",
            "Exhaustive model for small constants, liveness included; conformance sampled by behaviours that TLC draws from the same specification."),
    discovery=(TLA + SIM + "Discovery.tla (virtual time)",
               "The bounds of Discovery are model-checked against an abstract collector; conformance sampled by behaviours that TLC draws."),
    codec=(TLA + REC + "Wire.tla / Decode.tla", "Wire formats as an executable specification; values enumerated at the boundaries and drawn at random by TLC."),
    ingress=(TLA + SIM + "Confirmed.tla and Discovery.tla; random and mutated datagrams drawn by TLC", "Sampled: frames drawn by TLC, well-formed ones by construction, others by mutation."),
    requests=(TLA + SIM + "Requests.tla (virtual time)", "Which calls are refused and the exact frame of the others is computed by the specification, model-checked on small constants; calls drawn by TLC, made with the real client, every transmitted frame compared."),
    link=(TLA + SIM + "Link.tla (real sockets on the loopback network)", "Exhaustive model for small constants; histories drawn by TLC run on real sockets."),
    netops=(TLA + SIM + "NetOps.tla (devices simulated as Peer.tla states, virtual time)", "The algorithms of the calls, failures included, are model-checked against NetOps for small devices; devices, failures and calls drawn by TLC run through the real network package and client, every request, answer and result checked."),
    stores=(TLA + SIM + "Stores.tla", "Exhaustive model for small constants; histories drawn by TLC run on the real structures."),
)
exec(open(os.path.join(V, "bin", "techniques.py")).read()) if os.path.exists(os.path.join(V, "bin", "techniques.py")) else None
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
fam = {}
for mod, ids in re.findall(r'(\w+)="((?:C\d\d ?)+)"', src):
    for i in ids.split():
        fam[i] = mod
checks, na = [], []
for p in props:
    i = p["id"]
    m = fam[i]
    if m in tech and os.path.exists(os.path.join(V, "lib", "fam_%s.py" % m)):
        t, note = tech[m]
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s --tier quick" % i,
                           thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
                           technique=t, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="the check has not been built yet"))
json.dump(dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
