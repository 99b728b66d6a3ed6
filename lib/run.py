"""Runs the parts of a check, reports, writes the evidence."""
import argparse
import importlib
import json
import os
import random
import sys
import time
import traceback

import vlib
from vlib import Machinery, SEED, VERIF

PARTS = {}   # property -> list of (module, function)
for c in ("C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09", "C11", "C15", "C20", "C21", "C04", "C12", "C17"):
    PARTS[c] = [("corecheck", "check")]
PARTS["C13"] = [("symcheck", "local")]
PARTS["C14"] = [("hiercheck", "check"), ("corecheck", "check")]
PARTS["C16"] = [("hiercheck", "check")]
PARTS["C19"] = [("replaycheck", "check")]
PARTS["C18"] = [("symcheck", "remote")]
PARTS["C10"] = [("exprcheck", "check"), ("corecheck", "check")]
PARTS["C12"] = [("corecheck", "check"), ("protocheck", "check")]
PARTS["C17"] = [("corecheck", "check"), ("servercheck", "check")]


class Ctx:
    """one run of a check"""

    def __init__(self, prop, tier):
        self.prop, self.tier, self.seed = prop, tier, SEED
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.extra = [], [], {}
        self.violation = None
        self.known = []
        self.exhaustive = []

    def rng(self, salt):
        return random.Random("%s/%s/%s/%s" % (self.prop, self.tier, self.seed, salt))

    def quick(self):
        return self.tier == "quick"

    def sample(self, x, n=3):
        if len(self.samples) < n:
            self.samples.append(x)

    def violate(self, what, data):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "replay_%s.json" % self.prop)
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "data": data}, f, indent=1)
        self.violation = (what, path)
        raise Violated()


class Violated(Exception):
    pass


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(argv)
    if a.prop not in PARTS:
        print("no check for", a.prop)
        return 2
    ctx = Ctx(a.prop, a.tier if a.tier in ("quick", "thorough") else "quick")
    t0 = time.time()
    rc = 0
    try:
        for mod, fn in PARTS[a.prop]:
            t1 = time.time()
            getattr(importlib.import_module(mod), fn)(ctx)
            ctx.notes.append("%s.%s: %.0f s" % (mod, fn, time.time() - t1))
    except Violated:
        rc = 1
    except Machinery as e:
        print("ERROR of the check:", e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        vlib.cleanup()
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
           "samples": ctx.samples, "notes": ctx.notes}
    cov.update(ctx.extra)
    ev = {"property": a.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking", "coverage": cov,
          "wall_s": round(time.time() - t0, 1), "violations": 1 if rc == 1 else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
    if rc == 1:
        print("what failed:", ctx.violation[0])
        print("VIOLATION property=%s replay=%s" % (a.prop, ctx.violation[1]))
    elif rc == 0:
        print("%s held: %d states, %d behaviours replayed, %.0f s" % (a.prop, ctx.states, ctx.traces, time.time() - t0))
    return rc
