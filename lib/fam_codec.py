"""C11-C14, C16: encodings, against spec/Wire.tla and spec/Decode.tla."""
import concurrent.futures as cf

GEN = """SPECIFICATION GSpec
CONSTANTS Profile = "%s"  N = %d
INVARIANTS Emit
CHECK_DEADLOCK FALSE
"""
NUM = dict(C11=5000, C12=5000, C13=6000, C14=7000, C16=3500)


def strip(e):
    return {k: v for k, v in e.items() if k not in ("c", "i", "t", "msg")}


def validate(run, cases):
    res = run.replay("codec", cases, limit=20)
    recs, idx = [], []
    for i, evs in enumerate(res):
        if evs is None:
            continue
        out = strip(evs[-1]) if evs else dict(e="none")
        recs.append({"in": cases[i], "out": out})
        idx.append(i)
    acc = run.accepted("CodecCheck", "CodecCheck.cfg", recs, timeout=600)
    bad = [j for j in range(len(recs)) if j not in acc]
    for j in bad[:5]:
        r = recs[j]
        run.violation("case %s: the result is not what the specification prescribes: %s" % (str(r["in"])[:300], str(r["out"])[:400]),
                      kind="codec", case=r["in"], result=r["out"])
    run.note(len(recs), "cases,", len(bad), "rejected")
    sw = [r["out"] for r in recs if r["in"]["k"] == "sweep" and r["out"].get("e") == "res"]
    if sw:
        w = max(sw, key=lambda o: o["alloc"] - 200 * len(o["worst"]))
        run.note(sum(o["n"] for o in sw), "mutated inputs decoded; most memory:", w["alloc"], "bytes for", len(w["worst"]), "bytes")
    for r in recs[len(recs) // 2:len(recs) // 2 + 3]:
        run.sample(r)


def check(run):
    p = run.prop
    quick = run.tier == "quick"
    with cf.ThreadPoolExecutor(8) as ex:
        build = ex.submit(run.build)
        jobs = []
        for s in range(2 if quick else 8):
            n = NUM[p] if quick else 4 * NUM[p]
            jobs.append(ex.submit(run.simulate, "CodecGen", GEN % (p, n), 1, n + 10, None if s == 0 else 1000 * s + 7, 800))
        cases = [x for j in jobs for x in j.result()]
        build.result()
        validate(run, cases)
