"""C17, C24, C25, C26, C30 (and scans of C18): calls against simulated devices, against spec/NetOps.tla."""
import concurrent.futures as cf
import os, re
from vlib import SPEC

GEN = """SPECIFICATION GSpec
CONSTANTS Profile = "%s"  N = %d
CHECK_DEADLOCK FALSE
"""
PLAN = dict(C17=dict(scan=600), C18=dict(scan=200), C24=dict(points=480), C25=dict(list=700), C26=dict(disc=1000),
            C30=dict(details=800))
KEEP = {"inv", "srv", "lost", "who", "ret", "end", "crash", "hang", "stuck", "noclient", "noinject", "nodev"}


def project(script, evs):
    ev = []
    for e in evs:
        k = e["e"]
        if k not in KEEP:
            continue
        if k == "inv":
            e = dict(e="inv", c=script["ops"][e["k"] - 1])
        elif k == "srv":
            e = {x: e[x] for x in ("e", "d", "id", "svc", "objs", "b", "fault", "rep")}
        elif k == "ret":
            r = {x: v for x, v in e.items() if x not in ("c", "i", "t", "e", "k", "err")} if e["ok"] else dict(ok=False)
            e = dict(e="ret", r=r)
        else:
            e = {x: v for x, v in e.items() if x in ("e", "leak", "why")}
        ev.append(e)
    return dict(devs=[dict(id=d["id"], mac=d["mac"], net=d["net"], adr=d["adr"], iam=d["iam"]) for d in script["devs"]],
                tabs=[d["tab"] for d in script["sim"]["devs"]], ev=ev)


def validate(run, scripts):
    traces = run.replay("peer", scripts, limit=20)
    idx = [i for i, t in enumerate(traces) if t is not None]
    for i in idx:
        if any(e["e"] in ("noinject", "noclient") for e in traces[i]):
            from vlib import CheckError
            raise CheckError("the in-memory link cannot be put under the package network")
    cases = [project(scripts[i], traces[i]) for i in idx]
    acc = run.accepted("NetOpsTrace", "NetOpsTrace.cfg", cases, timeout=700)
    bad = [j for j in range(len(cases)) if j not in acc]
    for j in bad[:5]:
        at = run.reached("NetOpsTrace", "NetOpsTrace.cfg", cases[j])
        ev = cases[j]["ev"]
        what = "not a behaviour of NetOps"
        if at and at <= len(ev):
            i = max([k for k in range(at) if ev[k]["e"] == "inv"], default=0)
            what += ": event %d cannot be explained: %s; call: %s" % (at, str(ev[at - 1])[:400], str(ev[i])[:300])
        run.violation(what, kind="peer", script=scripts[idx[j]], events=traces[idx[j]], event=at)
    run.note(len(cases), "cases,", len(bad), "rejected")
    for c in cases[:2]:
        run.sample(dict(kind="trace accepted by NetOpsTrace", events=c["ev"][:6]))


def scripts_of(run, ex, plan):
    quick = run.tier == "quick"
    jobs = []
    for p, n in plan.items():
        parts = 2 if quick else 8
        for s in range(parts):
            k = n // 2 if quick else n
            jobs.append(ex.submit(run.simulate, "NetOpsGen", GEN % (p, k), 1, k + 5, None if s == 0 else 1000 * s + 7, 800))
    return jobs


def deeper(run, cfg):
    t = open(os.path.join(SPEC, cfg)).read()
    return t if run.tier == "quick" else re.sub(r"Calls = (\d)", lambda m: "Calls = %d" % (int(m[1]) + 2), t)


def check(run):
    with cf.ThreadPoolExecutor(8) as ex:
        build = ex.submit(run.build)
        mc = [ex.submit(run.model_check, "NetOpsMC", deeper(run, c), 3) for c in MC.get(run.prop, [])]
        jobs = scripts_of(run, ex, PLAN[run.prop])
        scripts = [x for j in jobs for x in j.result()]
        build.result()
        validate(run, scripts)
        for m in mc:
            m.result()


MC = dict(C17=["NetOpsMCScan.cfg"], C24=["NetOpsMC.cfg"], C25=["NetOpsMCList.cfg"], C26=["NetOpsMCList.cfg"],
          C30=["NetOpsMCDetails.cfg"])
