import argparse
import json
import os
import sys

from vk import core

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--replay")
ap.add_argument("--jobs", type=int)
ap.add_argument("--slow", action="store_true", help="print the time of each task")
a = ap.parse_args()
only = None
if a.replay:
    def tup(x):
        return tuple(tup(y) for y in x) if isinstance(x, list) else x
    only = [tup(v["task"]) for v in json.load(open(a.replay))["violations"]]
if a.slow:
    old = core.run_task

    def timed(job):
        r = old(job)
        print("    %6.1fs %s" % (r["wall"], r["task"]), flush=True)
        return r
    core.run_task = timed
sys.exit(core.main(a.prop, a.tier, only=only, jobs=a.jobs))
