"""C18 (refusal of what is too large), C19, C20: what calls put on the link, against spec/Requests.tla."""
import concurrent.futures as cf
import fam_netops

GEN = """SPECIFICATION GSpec
CONSTANTS Profile = "%s"  N = %d  Calls = %d
CHECK_DEADLOCK FALSE
"""
PLAN = dict(C18=dict(size=80, addr=5, bad=5), C19=dict(addr=80, bad=5, size=5), C20=dict(bad=80, addr=5, size=5))
KEEP = {"inv", "tx", "rx", "ret", "calls", "end", "crash", "hang", "runleft", "noclient"}


def project(script, evs):
    ops = {o["c"]: o for o in script["ops"] if o["op"] != "rx"}
    ev = []
    for e in evs:
        if e["e"] not in KEEP:
            continue
        if e["e"] == "inv":
            e = dict(e="inv", call={k: v for k, v in ops[e["k"]].items() if k not in ("at", "c", "op")})
        elif e["e"] == "tx":
            e = dict(e="tx", id=e["id"], b=e["b"], dst=e["dst"])
        elif e["e"] == "ret":
            e = dict(e="ret", ok=e.get("ok", True))
        else:
            e = {k: v for k, v in e.items() if k in ("e", "all", "leak")}
        ev.append(e)
    return dict(ev=ev)


def validate(run, scripts):
    traces = run.replay("client", scripts, limit=20)
    idx = [i for i, t in enumerate(traces) if t is not None]
    cases = [project(scripts[i], traces[i]) for i in idx]
    acc = run.accepted("RequestsTrace", "RequestsTrace.cfg", cases, timeout=700)
    bad = [j for j in range(len(cases)) if j not in acc]
    for j in bad[:5]:
        at = run.reached("RequestsTrace", "RequestsTrace.cfg", cases[j])
        ev = cases[j]["ev"]
        what = "not a behaviour of Requests"
        if at and at <= len(ev):
            what += ": event %d cannot be explained: %s; before it: %s" % (at, str(ev[at - 1])[:300], str(ev[max(0, at - 3):at - 1])[:600])
        run.violation(what, kind="client", script=scripts[idx[j]], events=traces[idx[j]], event=at)
    run.note(len(cases), "scripts,", len(bad), "rejected")
    for c in cases[:2]:
        run.sample(dict(kind="trace accepted by RequestsTrace", events=c["ev"][:8]))


def check(run):
    quick = run.tier == "quick"
    with cf.ThreadPoolExecutor(8) as ex:
        build = ex.submit(run.build)
        mc = ex.submit(run.model_check, "RequestsMC", "RequestsMC.cfg", 3)
        jobs = []
        for p, n in PLAN[run.prop].items():
            for s in range(2 if quick else 6):
                k = n if quick else n * 4
                jobs.append(ex.submit(run.simulate, "RequestsGen", GEN % (p, k, 12), 1, k * 14 + 10,
                                      None if s == 0 else 1000 * s + 7, 800))
        scans = fam_netops.scripts_of(run, ex, fam_netops.PLAN[run.prop]) if run.prop in fam_netops.PLAN else []
        scripts = [x for j in jobs for x in j.result()]
        build.result()
        validate(run, scripts)
        if scans:
            fam_netops.validate(run, [x for j in scans for x in j.result()])
        mc.result()
