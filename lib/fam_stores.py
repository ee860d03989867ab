"""C27 (store), C28 (object maps), C29 (bit strings): abstract data types, against spec/Store.tla, ObjectMap.tla, BitString.tla."""
import concurrent.futures as cf

GEN = """SPECIFICATION GSpec
CONSTANTS N = %d  MaxOps = %d %s
CHECK_DEADLOCK FALSE
"""
KIND = dict(C27=("store", "Store", "", ((60, 30), (30, 60))),
            C29=("bits", "BitString", "MaxCap = 15", ((250, 20), (60, 60))),
            C28=("omap", "ObjectMap", "", ((250, 8), (40, 30))))


def project(script, evs):
    obs = []
    for e in evs:
        o = {k: v for k, v in e.items() if k not in ("c", "i", "t", "e", "msg", "err")}
        if e["e"] != "obs":
            break
        obs.append(o)
    return dict(ops=script["ops"], obs=obs)


def validate(run, kind, mod, scripts):
    def once(scripts):
        res = run.replay(kind, scripts, limit=20)
        idx = [i for i, evs in enumerate(res) if evs is not None and not (evs and evs[0]["e"] == "skip")]
        cases = [project(scripts[i], res[i]) for i in idx]
        acc = run.accepted(mod + "Trace", mod + "Trace.cfg", cases)
        return res, idx, cases, [j for j in range(len(cases)) if j not in acc]
    res, idx, cases, bad = once(scripts)
    if kind == "store" and bad:
        # real sockets: what is wrong has to be wrong again
        total = len(cases)
        run.note(len(bad), "of", total, "rejected; running them again")
        for j in bad[:3]:
            at = run.reached(mod + "Trace", mod + "Trace.cfg", cases[j]) or 1
            run.note("step", at, cases[j]["ops"][at - 1:at], cases[j]["obs"][at - 1:at])
        res, idx, cases, bad = once([scripts[idx[j]] for j in bad[:20]])
    for j in bad[:5]:
        at = run.reached(mod + "Trace", mod + "Trace.cfg", cases[j]) or 1
        c, evs = cases[j], res[idx[j]]
        run.violation("after %s the library shows %s" % (str(c["ops"][max(0, at - 3):at])[:300],
                                                           str(evs[at - 1] if at <= len(evs) else "nothing")[:300]),
                      kind=kind, script=c, events=evs, step=at)
    run.note(len(cases), "scripts,", len(bad), "rejected")
    for c in cases[:2]:
        run.sample(dict(ops=c["ops"][:8], obs=c["obs"][:3]))


def check(run):
    quick = run.tier == "quick"
    kind, mod, consts, shapes = KIND[run.prop]
    with cf.ThreadPoolExecutor(8) as ex:
        build = ex.submit(run.build)
        mc = ex.submit(run.model_check, mod + "MC", mod + "MC.cfg", 2)
        jobs = []
        for n, ops in shapes:
            for s in range(1 if quick else 6):
                k = n if quick else n * 6
                jobs.append(ex.submit(run.simulate, mod + "Gen", GEN % (k, ops, consts), 1, k * (ops + 3) + 10,
                                      None if s == 0 else 1000 * s + 7, 800))
        scripts = [x for j in jobs for x in j.result()]
        build.result()
        validate(run, kind, mod, scripts)
        mc.result()
