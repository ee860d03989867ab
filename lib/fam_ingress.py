"""C15, C21: whatever is received, against spec/Ingress.tla (with Confirmed and Discovery)."""
import concurrent.futures as cf
import os
import fam_codec
from vlib import SPEC

GEN = """SPECIFICATION GSpec
CONSTANTS Profile = "%s"  N = %d  MaxOps = %d
CHECK_DEADLOCK FALSE
"""
SHAPE = dict(mix=(8, 60, 200), clean=(8, 60, 200))
PLAN = dict(C15=dict(mix=800, clean=50), C21=dict(mix=250, clean=600))
KEEP = {"inv", "tx", "txe", "rx", "ret", "sync", "calls", "end", "crash", "hang", "runleft", "noclient"}


def norm(x):
    """Values as Norm in Ingress.tla has them."""
    if isinstance(x, list):
        return [norm(y) for y in x]
    if not isinstance(x, dict):
        return x
    if x.get("t") == "bool":
        return dict(t="bool", v=[int(x["v"])])
    if x.get("t") in ("list", "dt"):
        return dict(t=x["t"], l=norm(x["v"]))
    return {k: norm(v) for k, v in x.items()}


def project(events):
    ev = []
    n, ids, first = 0, {}, {}
    for e in events:
        if e["e"] not in KEEP:
            continue
        drop = {"c", "i", "err", "who", "msg"} | ({"id", "k", "f"} if e["e"] == "rx" else set())
        r = {k: v for k, v in e.items() if k not in drop}
        if "objs" in r:
            r["objs"] = norm(r["objs"])
        ev.append(r)
        if e["e"] == "inv":
            n = max(n, e["k"])
        if e["e"] == "tx" and e["k"] > 0 and e["k"] not in ids:
            ids[e["k"]], first[e["k"]] = e["id"], len(ev)
    return dict(n=n, ids=[ids.get(k, 0) for k in range(1, n + 1)], first=[first.get(k, 0) for k in range(1, n + 1)], ev=ev)


def validate(run, scripts):
    traces = run.replay("client", scripts, limit=20)
    cases, idx = [], []
    for i, evs in enumerate(traces):
        if evs is None:
            continue
        cases.append(project(evs))
        idx.append(i)
    acc = run.accepted("IngressTrace", "IngressTrace.cfg", cases, timeout=700)
    bad = [i for i in range(len(cases)) if i not in acc]
    for j in bad[:5]:
        ev = cases[j]["ev"]
        at = run.reached("IngressTrace", "IngressTrace.cfg", cases[j])
        what = "not a behaviour of Ingress"
        if at and at <= len(ev):
            what += ": event %d cannot be explained: %s" % (at, str(ev[at - 1])[:300])
        run.violation(what, kind="client", script=scripts[idx[j]], events=traces[idx[j]], event=at)
    n = sum(1 for c in cases for e in c["ev"] if e["e"] == "rx")
    run.note(n, "datagrams in", len(cases), "executions,", len(bad), "rejected")
    for c in cases[:2]:
        run.sample(dict(kind="trace accepted by IngressTrace", events=c["ev"][:12]))


def check(run):
    quick = run.tier == "quick"
    with cf.ThreadPoolExecutor(6) as ex:
        build = ex.submit(run.build)
        jobs = []
        for p, num in PLAN[run.prop].items():
            n, ops, depth = SHAPE[p]
            for s in range(1 if quick else 6):
                jobs.append(ex.submit(run.simulate, "IngressGen", GEN % (p, n, ops), num if quick else 4 * num, depth,
                                      None if s == 0 else 1000 * s + 7, 800))
        scripts = [x for j in jobs for x in j.result()]
        dec = None
        if run.prop == "C15":
            n = 4000 if quick else 40000
            dec = ex.submit(run.simulate, "CodecGen", fam_codec.GEN % ("C15", n), 1, n + 10, None, 800)
        mc = open(os.path.join(SPEC, "IngressMC.cfg")).read()
        run.model_check("IngressMC", mc if quick else mc.replace("Steps = 1", "Steps = 2"), 4, timeout=900 if quick else 3000)
        build.result()
        validate(run, scripts)
        if dec:
            fam_codec.validate(run, dec.result())
