"""Checks decided with HgdbCore: exhaustive (HgdbMC) and random (HgdbSim) behaviours replayed into the real debugger."""
import json
import time

import core
import profiles
from vlib import Machinery, build

SIZES = {  # quick, thorough: designs and behaviours of the property's own profile, of the mixed one, of the exhaustive runs
    "quick": dict(sim=(48, 1000), mixed=(24, 300), mc=6, scale=0, cap=4000, rounds=1),
    "thorough": dict(sim=(160, 6000), mixed=(80, 2000), mc=24, scale=1, cap=60000, rounds=4),
}
# replayed once more, in a hurry and with disturbed locks
SLOW = ("C04", "C15", "C17")


def describe(d, t, dv, slow):
    n, what, exp, got = dv
    steps = core.steps_of(d, t["log"])
    return {"slow": slow, "hasty": core.hasty(steps, t["log"]) if slow else [],"design": d, "actions": [e["a"] for e in t["log"][:n + 1]], "step": n, "what": what, "expected": exp, "observed": got,
            "steps": core.steps_of(d, t["log"])}


def judge(ctx, exe, ds, traces, label, slow=0):
    bad = core.replay(exe, ds, traces, slow=slow)
    ctx.traces += len(traces)
    if not bad:
        return
    # a rejection counts only if it repeats
    tries = [t for t, _ in bad[:8]] * (8 if slow else 1)
    again = core.replay(exe, ds, tries, env={"HANG_MS": "20000"}, slow=slow and slow + 7919)
    if again:
        t, dv = min(again, key=lambda x: x[1][0])
        ctx.violate("%s: %s at step %d" % (label, dv[1], dv[0]), describe(ds[t["design"] - 1], t, dv, slow))
    ctx.notes.append("%d rejections of %s did not repeat" % (len(bad), label))


def check(ctx):
    z = SIZES[ctx.tier]
    exe = build(["session"]) + "/session"
    name = ctx.prop
    for rnd in range(z["rounds"]):
        for prof, (nd, nt) in ((name, z["sim"]), ("mixed", z["mixed"])):
            r = ctx.rng("%s%d" % (prof, rnd))
            ds = profiles.sim_designs(prof, r, nd)
            pre = profiles.PRE if not (prof == "C17" or rnd % 2) else profiles.PRE2
            tr, st = core.generate(ds, profiles.sim_profile(prof, pre), nt, r.randrange(1000000))
            ctx.states += st
            ctx.transitions += sum(len(t["log"]) for t in tr)
            ctx.sample({"profile": prof, "actions": [e["a"] for e in tr[0]["log"]], "end": tr[0]["log"][-1]["pc"] if tr[0]["log"] else ""})
            ctx.extra["messages_compared"] = ctx.extra.get("messages_compared", 0) + sum(len(c) for t in tr for e in t["log"] for c in e["out"])
            judge(ctx, exe, ds, tr, "random behaviour")
            if prof == name and name in SLOW:
                judge(ctx, exe, ds, tr, "random behaviour in a hurry", r.randrange(1, 1 << 30))
        if name in profiles.MC:
            r = ctx.rng("mc%d" % rnd)
            ds = [profiles.mc_design(name, r, z["scale"]) for _ in range(z["mc"])]
            tr, st, gen, full = core.exhaust(ds, z["cap"])
            ctx.states += st
            ctx.transitions += gen
            ctx.extra["exhaustive_states"] = ctx.extra.get("exhaustive_states", 0) + st
            ctx.extra["exhaustive_transitions"] = ctx.extra.get("exhaustive_transitions", 0) + gen
            ctx.extra["exhaustive_complete_designs"] = ctx.extra.get("exhaustive_complete_designs", 0) + full
            judge(ctx, exe, ds, tr, "exhaustive behaviour")
