"""C07, C08: the publish/subscribe manager, against spec/Utsm.tla."""
import concurrent.futures as cf

GEN = """SPECIFICATION GSpec
CONSTANTS MaxSub = %d  MaxPub = %d  MaxOps = %d
INVARIANTS OnlyInRange Schedule
CHECK_DEADLOCK FALSE
"""


def project(evs):
    res, ev = {}, []
    n = 0
    for e in evs:
        ev.append({k: v for k, v in e.items() if k not in ("c", "i", "who", "msg", "ok")})
        if e["e"] == "sub":
            n = max(n, e["s"])
        if e["e"] == "subret":
            res[e["s"]] = e["got"] if e["ok"] else [-1]
    return dict(res=[res.get(s, []) for s in range(1, n + 1)], ev=ev)


def validate(run, scripts):
    traces = run.replay("utsm", scripts, limit=12)
    cases, idx = [], []
    for i, evs in enumerate(traces):
        if evs is not None:
            c = project(evs)
            cases.append(c)
            idx.append(i)
    acc = run.accepted("UtsmTrace", "UtsmTrace.cfg", cases, timeout=700)
    for j in [j for j in range(len(cases)) if j not in acc][:5]:
        at = run.reached("UtsmTrace", "UtsmTrace.cfg", cases[j])
        ev = cases[j]["ev"]
        what = "not a behaviour of Utsm"
        if at and at <= len(ev):
            what += ": event %d cannot be explained: %s" % (at, str(ev[at - 1])[:300])
        run.violation(what, kind="utsm", script=scripts[idx[j]], events=traces[idx[j]], event=at)
    for c in cases[:2]:
        run.sample(dict(kind="trace accepted by UtsmTrace", events=c["ev"][:12]))


def check(run):
    quick = run.tier == "quick"
    with cf.ThreadPoolExecutor(6) as ex:
        build = ex.submit(run.build)
        mods = [ex.submit(run.model_check, "UtsmMC", c, 4) for c in (["UtsmMC.cfg"] if run.prop == "C07" else ["UtsmLive.cfg"])
                + ([] if quick else ["UtsmMC3.cfg"])]
        jobs = []
        for shape, num, depth in (((6, 40, 70), 700, 400), ((20, 120, 200), 30, 1200), ((2, 60, 90), 60, 900)):
            for s in range(1 if quick else 6):
                jobs.append(ex.submit(run.simulate, "UtsmGen", GEN % shape, num if quick else num * 4, depth,
                                      None if s == 0 else 1000 * s + 7, 800))
        scripts = [x for j in jobs for x in j.result()]
        build.result()
        validate(run, scripts)
        for m in mods:
            m.result()
