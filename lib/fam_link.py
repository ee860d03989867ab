"""C22, C23: data links on real sockets, and the clients on top of them, against spec/Link.tla."""
import concurrent.futures as cf
import os
from vlib import SPEC

GEN = """SPECIFICATION GSpec
CONSTANTS Profile = "%s"  MaxOps = %d
CHECK_DEADLOCK FALSE
"""
ADDR = """SPECIFICATION GSpec
CONSTANTS N = %d
INVARIANTS Emit
CHECK_DEADLOCK FALSE
"""
PLAN = dict(C22=dict(any=700, std=100), C23=dict(any=700, std=100))


def project(evs):
    return dict(ev=[{k: v for k, v in e.items() if k not in ("c", "i", "t", "msg")} for e in evs])


def execute(run, scripts, procs):
    traces = run.replay("link", scripts, procs=procs, limit=25)
    idx = [i for i, t in enumerate(traces) if t is not None]
    cases = [project(traces[i]) for i in idx]
    acc = run.accepted("LinkTrace", "LinkTrace.cfg", cases, timeout=700)
    return traces, cases, idx, [j for j in range(len(cases)) if j not in acc]


def validate(run, scripts, procs):
    done = rejected = 0
    n = 100 if procs > 1 else 30        # if something is badly wrong, these show it in little time
    for part in (scripts[:n], scripts[n:]):
        traces, cases, idx, bad = execute(run, part, procs)
        done += len(cases)
        rejected += len(bad)
        for c in cases[:1]:
            run.sample(dict(kind="trace accepted by LinkTrace", events=c["ev"][:12]), 4)
        if bad:
            # real time: what is wrong has to be wrong again, with nothing else running
            again = [part[idx[j]] for j in bad[:10]]
            traces, cases, idx, bad = execute(run, again, 1)
            for j in bad[:5]:
                ev = cases[j]["ev"]
                at = run.reached("LinkTrace", "LinkTrace.cfg", cases[j])
                what = "not a behaviour of Link"
                if at and at <= len(ev):
                    what += ": event %d cannot be explained: %s" % (at, str(ev[at - 1])[:300])
                run.violation(what, kind="link", script=again[idx[j]], events=traces[idx[j]], event=at)
            if bad:
                break
    run.note(done, "executions,", rejected, "rejected at first")


def addresses(run, cases):
    res = run.replay("addr", cases, limit=20)
    recs = []
    for c, evs in zip(cases, res):
        if evs is not None:
            out = {k: v for k, v in evs[-1].items() if k not in ("c", "i", "t", "msg")} if evs else dict(e="none")
            recs.append({"in": c, "out": out})
    acc = run.accepted("AddrCheck", "AddrCheck.cfg", recs, timeout=600)
    bad = [r for j, r in enumerate(recs) if j not in acc]
    for r in bad[:5]:
        run.violation("address %s: not converted as the specification says: %s" % (r["in"], str(r["out"])[:400]), kind="addr",
                      case=r["in"], result=r["out"])
    run.note(len(recs), "addresses,", len(bad), "rejected")


def check(run):
    quick = run.tier == "quick"
    with cf.ThreadPoolExecutor(6) as ex:
        build = ex.submit(run.build)
        jobs = {}
        for p, num in PLAN[run.prop].items():
            for s in range(1 if quick else 5):
                jobs.setdefault(p, []).append(ex.submit(run.simulate, "LinkGen", GEN % (p, 30), num if quick else 2 * num, 100,
                                                        None if s == 0 else 1000 * s + 7, 800))
        mc = open(os.path.join(SPEC, "LinkMC.cfg")).read()
        model = ex.submit(run.model_check, "LinkMC", mc if quick else mc.replace("NS = 1", "NS = 2"), 4, 1500)
        addr = ex.submit(run.simulate, "AddrGen", ADDR % (4000 if quick else 60000), 1, 60100) if run.prop == "C22" else None
        build.result()
        scripts = {p: [x for j in js for x in j.result()] for p, js in jobs.items()}
        model.result()
        if addr:
            addresses(run, addr.result())
        for p in PLAN[run.prop]:
            validate(run, scripts[p], 8 if p == "any" else 1)
