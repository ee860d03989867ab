#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property. See DESIGN.md."""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import vlib

FAMILY = {}
for mod, ids in dict(confirmed="C01 C02 C03 C04 C05 C06", pubsub="C07 C08", discovery="C09 C10", codec="C11 C12 C13 C14 C16",
                     ingress="C15 C21", requests="C18 C19 C20", link="C22 C23", netops="C17 C24 C25 C26 C30",
                     stores="C27 C28 C29").items():
    for i in ids.split():
        FAMILY[i] = mod


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    run = vlib.Run(a.prop, a.tier)
    try:
        importlib.import_module("fam_" + FAMILY[a.prop]).check(run)
        return run.finish()
    except vlib.CheckError as e:
        return run.finish(err=e)
    except Exception:
        traceback.print_exc()
        return run.finish(err="internal error")


sys.exit(main())
