"""What each core check explores: weights of the random behaviours and action lists of the exhaustive ones."""
import random

import designs

PRE = [{"k": "connect", "c": 1}, {"k": "conn", "c": 1, "m": 1}]
PRE2 = [{"k": "connect", "c": 1}, {"k": "connect", "c": 2}, {"k": "conn", "c": 2, "m": 1}]
BOOT = ["conn"] * 2 + ["continue"] * 5 + ["bpadd"] * 4 + ["idadd"] * 2
RESUME = ["continue"] * 4 + ["step_over"] * 3 + ["step_back"] * 3 + ["reverse_continue"] * 3
INFO = ["ibps", "iopts", "istat", "idesign", "ifiles", "bploc", "bpfile"]
MIXED = {
    "boot": BOOT + ["opt", "mon", "set", "eval", "ibps", "dadd", "connect", "bad"],
    "idle": ["tick"] * 12 + ["bpadd"] * 3 + ["idadd", "bprem", "idrem", "dadd", "drem", "dclear", "dinfo", "mon", "unmon", "set", "eval",
                                             "opt", "conn", "map", "assert", "connect", "close", "bad", "continue", "jump", "initdb"] + INFO,
    "stop": RESUME + ["jump", "bpadd", "bpadd", "idadd", "bprem", "idrem", "dadd", "drem", "mon", "unmon", "set", "eval", "eval", "opt",
                      "ibps", "map", "connect", "close", "bad", "dinfo"],
    "pause": ["continue"] * 6 + ["step_over", "step_back", "reverse_continue", "jump", "eval", "set", "opt", "bpadd", "close"],
    "alone": ["connect"] * 5 + ["tick"] * 2}


def W(boot=(), idle=(), stop=(), pause=(), tick=12, resume=RESUME, alone=None):
    return {"boot": BOOT + list(boot), "idle": ["tick"] * tick + list(idle), "stop": list(resume) * 2 + list(stop),
            "pause": ["continue"] * 6 + RESUME + list(pause), "alone": list(alone or ["connect"] * 5 + ["tick"] * 2)}


ADD = ["bpadd"] * 2 + ["idadd"]
REM = ["bprem", "idrem"]
DATA = ["dadd"] * 4 + ["drem", "dclear", "dinfo"]


def base(r, k):
    return {"maps": k % 8 == 7}


def quiet(**kw):
    """designs with fewer oddities"""
    def f(r, k):
        o = {"delay": 0, "opts": ["single_thread_mode", "use_signal_cache"]}
        o.update(kw)
        return {n: (v(r, k) if callable(v) else v) for n, v in o.items()}
    return f


P = {}
P["mixed"] = dict(w=MIXED, design=base, len=34)
P["C01"] = dict(w=W(ADD + ["assert"][:0], ADD + REM + ["assert", "set", "opt"], ["bpadd", "bprem", "set", "opt"],
                    resume=["continue"] * 6 + ["step_over", "step_back", "reverse_continue"]),
                design=quiet(pcond=.6, ptrig=.35), wide=.15)
P["C02"] = dict(w=W(ADD, ["bpadd", "step_over", "step_back", "idrem"], ["bpadd", "set"], resume=["step_over"] * 4 + ["step_back"] * 4 + ["continue", "reverse_continue"]),
                design=quiet(pcond=.5))
P["C03"] = dict(w=W(ADD, ["bpadd", "jump", "idrem", "reverse_continue"], ["bpadd", "set", "jump", "jump"],
                    resume=["reverse_continue"] * 5 + ["continue"] * 4 + ["step_over", "step_back"]), design=quiet(rewind=lambda r, k: r.random() < .8))
P["C04"] = dict(w=W(ADD + ["connect", "eval", "ibps", "bad", "close"], ["bpadd", "opt", "opt", "continue", "connect", "close", "step_over"],
                    ["eval", "set", "ibps", "bad", "opt", "istat", "mon", "connect", "close", "bpadd", "bprem", "jump"],
                    ["eval", "set", "ibps", "bad", "opt", "opt", "connect", "close", "bpadd", "jump"]),
                design=quiet(opts=["pause_at_posedge", "pause_at_posedge", "single_thread_mode", "log_enabled"]))
P["C05"] = dict(w=W(ADD * 2 + REM + ["ibps"], ADD * 2 + REM * 2 + ["ibps", "ibps", "dadd", "drem", "dclear", "assert", "bploc"],
                    ADD * 2 + REM * 2 + ["ibps", "ibps", "dadd", "drem", "dclear"], tick=6),
                design=quiet(pcond=.5, ucnone=3))
P["C06"] = dict(w=W(DATA, DATA + ["bpadd", "bprem", "ibps", "set", "set"], DATA + ["bpadd", "bprem", "idrem", "ibps", "set"], tick=8),
                design=quiet(pdata=1))
P["C07"] = dict(w=W(["mon"] * 3, ["mon"] * 6 + ["unmon"] * 2 + ["bpadd", "set", "set", "connect", "close", "opt"],
                    ["mon"] * 5 + ["unmon"] * 2 + ["bpadd", "set", "connect"], tick=8), design=quiet(opts=["use_hex_str", "use_signal_cache"]))
P["C08"] = dict(w=W(ADD, ["bpadd", "bprem", "set", "mon"], ["bpadd", "set", "mon", "unmon"], resume=["continue"] * 6 + ["step_over"] * 3),
                design=quiet(delay=1, rewind=False, pcond=.2, opts=["use_hex_str"]))
P["C09"] = dict(w=W(ADD, ["bpadd", "opt", "set", "map"], ["opt", "set", "bpadd", "map"]),
                design=lambda r, k: {"pcond": .2, "delay": .4, "hi": r.choice([4, 300, 300]), "opts": ["use_hex_str", "use_hex_str", "single_thread_mode"],
                                     "maps": k % 3 == 0})
P["C10"] = dict(w=W(["eval"] * 2 + ["bpadd"], ["eval"] * 8 + ["bpadd", "bpadd", "idadd", "set", "dadd"], ["eval"] * 8 + ["bpadd", "set"], tick=7),
                design=quiet(ucnone=0, pcond=.6))
P["C11"] = dict(w=W(["set", "set", "opt"], ["set"] * 8 + ["eval"] * 6 + ["mon", "opt", "opt", "bpadd"], ["set"] * 6 + ["eval"] * 6 + ["opt", "mon"], tick=7),
                design=lambda r, k: {"pstim": r.choice([0, .3, .6]), "opts": ["use_signal_cache", "use_signal_cache", "use_hex_str"]})
P["C12"] = dict(w={k: v + ["bad"] * 3 + INFO + ["conn", "map", "opt"] for k, v in MIXED.items() if k != "alone"} | {"alone": MIXED["alone"]},
                design=lambda r, k: {"maps": True, "late": r.random() < .3})
P["C14"] = dict(w=W(["bpadd"] * 2, ["bpadd", "eval", "eval", "set", "mon", "conn", "idesign", "bprem", "dadd"],
                    ["bpadd", "eval", "eval", "set", "mon", "conn"], resume=RESUME + ["step_over"] * 2), design=quiet(nns=lambda r, k: r.choice([2, 2, 3])))
P["C15"] = dict(w=W(["connect", "close", "opt", "stop"], ["connect", "close", "close", "opt", "opt", "bpadd", "continue", "conn", "stop", "endsim", "step_over"],
                    ["connect", "close", "close", "opt", "opt", "stop", "istat", "conn"], ["close", "close", "opt", "connect", "stop", "istat"],
                    alone=["connect"] * 3 + ["tick"] * 2 + ["endsim"]),
                design=quiet(kind=lambda r, k: r.choice(["mock", "mock", "vcs", "verilator"]), opts=["detach_after_disconnect"] * 3 + ["pause_at_posedge"]), len=24)
P["C17"] = dict(w=W(["connect"] * 4, ["connect"] * 3 + ["close"] * 2 + ["mon", "mon", "bpadd", "eval", "ibps", "bad", "bploc", "conn"],
                    ["connect"] * 2 + ["close"] * 2 + ["mon", "unmon", "eval", "ibps", "bad", "set", "istat"]), design=quiet())
P["C20"] = dict(w=W(["map", "conn", "bpadd", "bpadd"], ["map", "map", "conn", "bpadd", "bpadd", "bprem", "bploc", "bploc", "bpfile", "bpfile", "ifiles", "ibps", "assert"],
                    ["map", "conn", "bpadd", "bprem", "bploc", "bpfile", "ifiles", "ibps"]), design=lambda r, k: {"maps": True, "delay": 0})
P["C21"] = dict(w=W(["bpadd"], ["assert"] * 6 + ["bpadd", "bprem", "ibps"], ["bpadd", "bprem", "ibps", "set"]), design=quiet(pcond=.4))

# exhaustive runs: how many different parameters per kind
MC = {
    "C01": dict(acts={"bpadd": 4, "bprem": 2, "tick": 1, "continue": 1, "step_over": 1, "set": 1}, len=7, cyc=4),
    "C02": dict(acts={"bpadd": 2, "tick": 1, "continue": 1, "step_over": 1, "step_back": 1}, len=9, cyc=3),
    "C03": dict(acts={"bpadd": 3, "tick": 1, "continue": 1, "reverse_continue": 1, "step_back": 1, "jump": 2}, len=8, cyc=4, rewind=True),
    "C04": dict(acts={"bpadd": 1, "tick": 1, "continue": 1, "step_over": 1, "posedge": 2, "eval": 1, "connect": 1, "close": 1, "ibps": 1}, len=7, cyc=4),
    "C05": dict(acts={"bpadd": 5, "bprem": 3, "idadd": 2, "idrem": 2, "ibps": 1, "dadd": 1}, len=4, cyc=1),
    "C06": dict(acts={"dadd": 3, "drem": 2, "dclear": 1, "bpadd": 1, "bprem": 1, "tick": 1, "continue": 1}, len=6, cyc=4),
    "C07": dict(acts={"mon": 4, "unmon": 2, "tick": 1, "bpadd": 1, "continue": 1}, len=6, cyc=3),
    "C08": dict(acts={"bpadd": 2, "tick": 1, "continue": 1, "step_over": 1}, len=9, cyc=6, delay=1, rewind=False),
    "C09": dict(acts={"bpadd": 2, "tick": 1, "continue": 1, "step_over": 1, "hex": 2, "set": 1}, len=6, cyc=3),
    "C10": dict(acts={"eval": 8, "set": 2, "tick": 1, "bpadd": 4, "continue": 1}, len=4, cyc=3),
    "C11": dict(acts={"set": 4, "eval": 3, "cache": 2, "tick": 1, "bpadd": 1, "continue": 1}, len=5, cyc=3),
    "C12": dict(acts={"bad": 4, "bpadd": 1, "tick": 1, "continue": 1, "ibps": 1, "iopts": 1, "istat": 1, "conn": 1, "initdb": 1}, len=5, cyc=2, late=True),
    "C14": dict(acts={"bpadd": 2, "tick": 1, "continue": 1, "step_over": 1, "eval": 2, "conn": 1}, len=6, cyc=3, nns=2),
    "C15": dict(acts={"connect": 2, "close": 2, "detach": 2, "stop": 1, "tick": 1, "continue": 1, "bpadd": 1, "conn": 1}, len=6, cyc=3),
    "C17": dict(acts={"connect": 2, "close": 2, "mon": 1, "tick": 1, "continue": 2, "bpadd": 1, "ibps": 2}, len=6, cyc=3),
    "C20": dict(acts={"map": 3, "bpadd": 3, "bprem": 2, "bpfile": 2, "ibps": 1, "tick": 1, "continue": 1}, len=5, cyc=2, maps=True),
    "C21": dict(acts={"assert": 3, "bpadd": 1, "bprem": 1, "tick": 1, "continue": 1, "step_over": 1}, len=7, cyc=4),
}


def sim_designs(name, r, n):
    p = P[name]
    ds = []
    for k in range(n):
        o = p["design"](r, k)
        ds.append(designs.wide(r, o) if r.random() < p.get("wide", 0.03) else designs.make(r, o))
    return ds


def sim_profile(name, pre=PRE):
    p = P[name]
    return {"w": p["w"], "len": p.get("len", 30), "prefix": pre}


def mc_design(name, r, scale=0):
    """a small design with the actions to explore"""
    m = MC[name]
    o = {"nns": m.get("nns", r.choice([1, 1, 2])), "nchild": r.choice([0, 2]), "ntop": r.randint(1, 2), "nkid": 1, "hi": 2, "maxent": 6,
         "delay": m.get("delay", 0), "rewind": m.get("rewind", r.random() < .5), "late": m.get("late", False), "maps": m.get("maps", False),
         "pdata": 1 if "dadd" in m["acts"] else 0, "pcond": .4}
    d = designs.make(r, o)
    acts = []

    def add(a):
        if a not in acts:
            acts.append(a)

    q = d["pool"]
    good = q["loc"][:-3]
    for kind, n in m["acts"].items():
        for x in range(n):
            c = 1
            if kind == "tick" or kind == "initdb":
                add({"k": kind})
            elif kind in ("continue", "step_over", "step_back", "reverse_continue", "stop"):
                add({"k": "cmd", "c": 1 + x, "cmd": kind, "t": 0})
            elif kind == "jump":
                add({"k": "cmd", "c": c, "cmd": kind, "t": [15, 31][x]})
            elif kind in ("connect", "close"):
                add({"k": kind, "c": 2 + x if kind == "connect" else 1 + x} | ({"how": ["ws", "rst"][x]} if kind == "close" else {}))
            elif kind in ("posedge", "hex", "cache", "detach"):
                add({"k": "opt", "c": c, "name": {"posedge": "pause_at_posedge", "hex": "use_hex_str", "cache": "use_signal_cache",
                                                  "detach": "detach_after_disconnect"}[kind], "v": x == 0})
            elif kind == "bpadd":
                add({"k": kind, "c": c, "loc": r.choice(good), "uc": r.choice([0, r.choice(q["uc"])])})
            elif kind in ("bprem", "bploc", "bpfile"):
                add({"k": kind, "c": c, "loc": next((a["loc"] for a in acts[x:] if a["k"] == "bpadd"), good[0])})
            elif kind == "idadd":
                add({"k": kind, "c": c, "bp": r.choice(q["bp"]), "uc": r.choice([0, r.choice(q["uc"])])})
            elif kind == "idrem":
                add({"k": kind, "c": c, "bp": r.choice(q["bp"])})
            elif kind == "assert":
                add({"k": kind, "loc": r.choice(good), "ns": r.choice(q["ans"])})
            elif kind == "map":
                add({"k": kind, "c": c, "m": x + 1})
            elif kind == "conn":
                add({"k": kind, "c": c, "m": 1})
            elif kind == "bad":
                add({"k": kind, "c": c, "b": r.randint(1, q["nbad"])})
            elif kind == "eval":
                add({"k": kind, "c": c, "e": r.randint(1, len(d["evals"])), "bp": r.choice(q["xbp"]), "inst": r.choice(q["xinst"]), "ns": r.choice(q["ns"])})
            elif kind == "set":
                add({"k": kind, "c": c, "n": "top." + r.choice("abe"), "v": r.choice([0, 1]), "bp": -1, "inst": -1, "ns": r.choice(q["ns"])})
            elif kind == "mon":
                add({"k": kind, "c": c, "n": r.choice(["top.a", "top.b", r.choice(q["name"])]), "kind": ["clock_edge", "breakpoint"][x % 2],
                     "bp": -1, "inst": -1, "ns": r.choice(q["ns"])})
            elif kind == "unmon":
                add({"k": kind, "c": c, "id": x, "ns": 0})
            elif kind in ("dadd", "dinfo"):
                y = r.choice(q["assign"])
                add({"k": kind, "c": c, "var": y["var"], "bp": y["bp"], "uc": r.choice([0, 0, r.choice(q["uc"])]), "ns": r.randrange(d["nns"])})
            elif kind == "drem":
                add({"k": kind, "c": c, "bp": next((a["bp"] for a in acts[x:] if a["k"] == "dadd"), 0), "ns": r.randrange(d["nns"])})
            else:
                add({"k": kind, "c": 1 + x})
    d["acts"] = acts
    d["prefix"] = PRE
    d["maxlen"] = m["len"] + scale
    d["maxcyc"] = m["cyc"] + scale
    if o["late"]:
        d["prefix"] = PRE[:1]
    return d
