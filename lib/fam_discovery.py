"""C09, C10: Who-Is, Who-Is-Router-To-Network, What-Is-Network-Number, against spec/Discovery.tla."""
import concurrent.futures as cf

GEN = """SPECIFICATION GSpec
CONSTANTS Overall = 10000  Quiet = 2000  Describes <- GDescribes
          Profile = "%s"  NC = %d  MaxOps = %d
CHECK_DEADLOCK FALSE
"""
SHAPE = dict(plain=(4, 60, 600), fault=(3, 30, 400), nets=(4, 60, 600), many=(14, 160, 1600))
PLAN = dict(C09=dict(plain=350, fault=120, nets=60, many=40), C10=dict(plain=60, fault=100, nets=450, many=20))
KEEP = {"inv", "tx", "txe", "rx", "ret", "sync", "calls", "end", "crash", "hang", "runleft", "noclient"}


def project(events):
    inv, ev = {}, []
    for e in events:
        if e["e"] not in KEEP:
            continue
        drop = {"c", "i", "err", "who", "msg"} | ({"b", "id", "src", "k"} if e["e"] == "rx" else set())
        ev.append({k: v for k, v in e.items() if k not in drop})
        if e["e"] == "inv":
            inv[e["k"]] = len(ev)
    n = max(inv) if inv else 0
    return dict(inv=[inv.get(k, 0) for k in range(1, n + 1)], ev=ev)


def validate(run, scripts, limit=20):
    traces = run.replay("client", scripts, limit=limit)
    cases, idx = [], []
    for i, evs in enumerate(traces):
        if evs is not None:
            cases.append(project(evs))
            idx.append(i)
    acc = run.accepted("DiscoveryTrace", "DiscoveryTrace.cfg", cases, timeout=300)
    bad = [j for j in range(len(cases)) if j not in acc]
    mine = 0
    for j in bad[:40]:
        at = run.reached("DiscoveryTrace", "DiscoveryTrace.cfg", cases[j])
        ev = cases[j]["ev"]
        what = "not a behaviour of Discovery"
        if at and at <= len(ev):
            e = ev[at - 1]
            # what a router or network number discovery returns is not C09, what a Who-Is returns not C10
            if e["e"] == "ret" and ("devs" in e) != (run.prop == "C09"):
                run.note("left to the other property: event %d: %s" % (at, str(e)[:200]))
                continue
            what += ": event %d cannot be explained: %s" % (at, str(e)[:300])
        run.violation(what, kind="client", script=scripts[idx[j]], events=traces[idx[j]], event=at)
        mine += 1
        if mine == 5:
            break
    for c in cases[:2]:
        run.sample(dict(kind="trace accepted by DiscoveryTrace", events=c["ev"][:12]))


def check(run):
    plan = PLAN[run.prop]
    quick = run.tier == "quick"
    with cf.ThreadPoolExecutor(6) as ex:
        build = ex.submit(run.build)
        mod = ex.submit(run.model_check, "DiscoveryMC", "DiscoveryMC.cfg", 4)
        jobs = []
        for p, num in plan.items():
            nc, ops, depth = SHAPE[p]
            for s in range(1 if quick else 5):
                jobs.append(ex.submit(run.simulate, "DiscoveryGen", GEN % ("plain" if p == "many" else p, nc, ops),
                                      num if quick else num * 4, depth, None if s == 0 else 1000 * s + 7, 800))
        scripts = [x for j in jobs for x in j.result()]
        build.result()
        validate(run, scripts)
        mod.result()
