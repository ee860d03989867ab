"""C01-C06: confirmed requests, against spec/Confirmed.tla."""
import concurrent.futures as cf

GEN = """SPECIFICATION GenSpec
CONSTANTS Cap = 20  MaxId = 254  RecvT = 5000  ShortT = 1000  LongT = 10000
          Profile = "%s"  N = %d  MaxOps = %d
INVARIANTS IdsUnique Bounded TriesBounded BoundRight
CHECK_DEADLOCK FALSE
"""
# profile -> calls, operations, depth of the behaviours
SHAPE = dict(mixed=(8, 40, 400), sat=(48, 150, 1500), long=(300, 1500, 9000), burst=(24, 90, 900), refuse=(60, 400, 1500))
# property -> number of scripts per profile (quick); models
PLAN = dict(
    C01=dict(refuse=4, mixed=100, sat=30, long=4, burst=150),
    C02=dict(refuse=15, mixed=40, sat=80, long=4, burst=60),
    C03=dict(refuse=40, mixed=150, sat=60, long=4, burst=40),
    C04=dict(refuse=10, mixed=400, sat=10, long=2, burst=20),
    C05=dict(refuse=4, mixed=400, sat=10, long=2, burst=40),
    C06=dict(refuse=4, mixed=250, sat=20, long=2, burst=150),
)
MODELS = dict(C01=["ConfirmedMC2.cfg"], C02=["ConfirmedMC.cfg"], C03=["ConfirmedMC.cfg", "ConfirmedLive.cfg"], C04=["ConfirmedMC2.cfg"],
              C05=["ConfirmedMC2.cfg"], C06=["ConfirmedMC.cfg"])
KEEP = {"inv", "tx", "txe", "rx", "ret", "calls", "end", "crash", "hang", "runleft", "noclient"}


def project(events):
    ev = []
    n, ids, first = 0, {}, {}
    for e in events:
        if e["e"] not in KEEP or (e["e"] in ("tx", "txe") and e["k"] < 1):
            continue
        r = {k: v for k, v in e.items() if k not in ("c", "i", "err", "who", "msg")}
        ev.append(r)
        if e["e"] == "inv":
            n = max(n, e["k"])
        if e["e"] == "tx" and e["k"] not in ids:
            ids[e["k"]], first[e["k"]] = e["id"], len(ev)
    # calls which were never made because the process died: n counts those made
    return dict(n=n, ids=[ids.get(k, 0) for k in range(1, n + 1)], first=[first.get(k, 0) for k in range(1, n + 1)], ev=ev)


def validate(run, scripts, name="client", limit=20):
    traces = run.replay("client", scripts, limit=limit)
    cases, idx = [], []
    for i, evs in enumerate(traces):
        if evs is None:
            continue
        cases.append(project(evs))
        idx.append(i)
    acc = run.accepted("ConfirmedTrace", "ConfirmedTrace.cfg", cases, timeout=700)
    bad = [i for i in range(len(cases)) if i not in acc]
    for j in bad[:5]:
        case = cases[j]
        at = run.reached("ConfirmedTrace", "ConfirmedTrace.cfg", case)
        ev = case["ev"]
        what = "not a behaviour of Confirmed"
        if at and at <= len(ev):
            what += ": event %d cannot be explained: %s" % (at, str(ev[at - 1])[:300])
        run.violation(what, kind="client", script=scripts[idx[j]], events=traces[idx[j]], event=at)
    for c in cases[:2]:
        run.sample(dict(kind="trace accepted by ConfirmedTrace", events=c["ev"][:12]))


def echo(run, cases):
    """Real concurrency: every call of every goroutine is a record to be judged by EchoCheck."""
    traces = run.replay("echo", cases, procs=4, limit=60)
    recs, idx = [], []
    for i, evs in enumerate(traces):
        for e in evs or []:
            recs.append({k: v for k, v in e.items() if k not in ("c", "i", "t", "msg")})
            idx.append(i)
    acc = run.accepted("EchoCheck", "EchoCheck.cfg", recs, timeout=600)
    bad = [j for j in range(len(recs)) if j not in acc]
    for j in bad[:3]:
        run.violation("a call among %d concurrent ones did not get its own answer: %s" % (cases[idx[j]]["workers"], str(recs[j])[:500]),
                      kind="echo", case=cases[idx[j]], record=recs[j])
    run.note(len(recs), "concurrent calls,", len(bad), "rejected")


ECHO = """SPECIFICATION Spec
CONSTANTS N = %d  Total = %d
CHECK_DEADLOCK FALSE
"""


def check(run):
    plan = PLAN[run.prop]
    mult = 1 if run.tier == "quick" else 20
    jobs = []
    with cf.ThreadPoolExecutor(6) as ex:
        build = ex.submit(run.build)
        mods = [ex.submit(run.model_check, "ConfirmedMC", c, 3) for c in MODELS[run.prop]]
        for p, num in plan.items():
            n, ops, depth = SHAPE[p]
            seeds = range(1 if run.tier == "quick" else 4)
            for s in seeds:
                jobs.append(ex.submit(run.simulate, "ConfirmedGen", GEN % (p, n, ops), num * mult // len(seeds), depth, None if s == 0 else 1000 * s + 7,
                                      800))
        quick = run.tier == "quick"
        ec = ex.submit(run.simulate, "EchoGen", ECHO % ((40, 600) if quick else (80, 1500)), 1, 100) if run.prop in ("C01", "C02", "C03") else None
        scripts = [x for j in jobs for x in j.result()]
        build.result()
        validate(run, scripts)
        if ec:
            echo(run, ec.result())
        for m in mods:
            m.result()
