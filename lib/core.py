"""HgdbCore behaviours <-> the real debugger."""
import json
import os
import random
import re

import designs as dz
from vlib import *

BAD = [  # requests that are wrong whatever the state; (text with {t} for the token or None, carries a token)
    ('{"request": true, "type": "nosuch", "token": "{t}", "payload": {}}', True),
    ('{"request": true, "type": "breakpoint", "token": "{t}", "payload": {"filename": 1}}', True),
    ('{"request": true, "type": "breakpoint", "token": "{t}", "payload": {"filename": "t.py", "action": "add"}}', True),
    ('{"request": true, "type": "command", "token": "{t}", "payload": {"command": "fly"}}', True),
    ('{"request": true, "type": "command", "token": "{t}", "payload": []}', True),
    ('{"request": true, "type": "evaluation", "token": "{t}", "payload": {"expression": 3}}', True),
    ('{"request": true, "type": "monitor", "token": "{t}", "payload": {"action_type": "add"}}', True),
    ('{"request": true, "type": "set-value", "token": "{t}", "payload": {"var_name": "a"}}', True),
    ('{"request": true, "type": "data-breakpoint", "token": "{t}", "payload": {"action": "add"}}', True),
    ('{"request": true, "type": "debugger-info", "token": "{t}", "payload": {"command": "nosuch"}}', True),
    ('{"request": true, "type": "connection", "token": "{t}"}', True),
    ('this is not json', False),
]


def wire(d, a, tok):
    """abstract action -> harness step"""
    k, c = a["k"], a.get("c")

    def req(ty, payload):
        return {"op": "req", "c": c, "j": {"request": True, "type": ty, "token": tok, "payload": payload}}

    def opt(**kw):
        return {n: v for n, v in kw.items() if v is not None and v != -1}

    def loc():
        l = d["locs"][a["loc"] - 1]
        r = {"filename": l["file"], "line_num": l["line"]}
        if l["col"]:
            r["column_num"] = l["col"]
        return r

    def cond():
        return {"condition": d["conds"][a["uc"] - 1]["text"]} if a["uc"] else {}

    if k in ("connect", "close"):
        return {"op": k, "c": c, "how": a.get("how", "ws")}
    if k == "tick":
        return {"op": "tick"}
    if k in ("initdb", "endsim"):
        return {"op": k}
    if k == "assert":
        l = d["locs"][a["loc"] - 1]
        return {"op": "assert", "mod": d["tops"][a["ns"] - 1] if a["ns"] else "tb.nosuch", "file": l["file"], "line": l["line"],
                "col": l["col"]}
    if k == "bad":
        t, has = BAD[(a["b"] - 1) % len(BAD)]
        return {"op": "req", "c": c, "text": t.replace("{t}", tok)}
    if k in ("conn", "map"):
        w = d["maps"][a["m"] - 1]["wire"]
        if k == "conn":
            return req("connection", {"db_filename": "db", "path-mapping": w} if w else {"db_filename": "db"})
        return req("path-mapping", {"path-mapping": w})
    if k == "cmd" and a["cmd"] == "stop":
        return dict(req("command", {"command": "stop"}), stop=True)
    if k == "cmd":
        return req("command", {"command": a["cmd"], "time": a["t"]} if a["cmd"] == "jump" else {"command": a["cmd"]})
    if k == "opt":
        return req("option-change", {a["name"]: a["v"]})
    if k in ("bpadd", "bprem"):
        return req("breakpoint", dict(loc(), action="add" if k == "bpadd" else "remove", **(cond() if k == "bpadd" else {})))
    if k in ("idadd", "idrem"):
        return req("breakpoint-id", dict(id=a["bp"], action="add" if k == "idadd" else "remove", **(cond() if k == "idadd" else {})))
    if k == "bploc":
        return req("bp-location", loc())
    if k == "bpfile":
        return req("bp-location", {"filename": d["locs"][a["loc"] - 1]["file"]})
    if k in ("ibps", "iopts", "istat", "idesign", "ifiles"):
        return req("debugger-info", {"command": {"ibps": "breakpoints", "iopts": "options", "istat": "status", "idesign": "design",
                                                 "ifiles": "filename"}[k]})
    ids = opt(breakpoint_id=a.get("bp"), instance_id=a.get("inst"), namespace_id=a.get("ns")) if k in ("eval", "set", "mon") else {}
    if k == "eval":
        return req("evaluation", dict(expression=d["evals"][a["e"] - 1]["text"], **ids))
    if k == "set":
        return req("set-value", dict(var_name=a["n"], value=a["v"], **ids))
    if k == "mon":
        return req("monitor", dict(action_type="add", monitor_type=a["kind"], var_name=a["n"], **ids))
    if k == "unmon":
        return req("monitor", dict(action_type="remove", track_id=a["id"], **opt(namespace_id=a["ns"])))
    if k in ("dadd", "dinfo"):
        return req("data-breakpoint", dict({"action": "add" if k == "dadd" else "info", "var_name": a["var"], "breakpoint-id": a["bp"]},
                                           **cond(), **opt(namespace_id=a["ns"])))
    if k == "drem":
        return req("data-breakpoint", dict({"action": "remove", "breakpoint-id": a["bp"], "var_name": "x"}, **opt(namespace_id=a["ns"])))
    if k == "dclear":
        return req("data-breakpoint", {"action": "clear", "breakpoint-id": 0, "var_name": "x"})
    raise Machinery("unknown action %s" % k)


def norm_exp(m):
    """expected message -> comparable"""
    m = dict(m)
    if m["k"] == "stop":
        m["insts"] = [dict(i, loc=dict(map(tuple, i["loc"])), gen=dict(map(tuple, i["gen"]))) for i in m["insts"]]
    if m["k"] == "loc":
        m["l"] = sorted(m["l"], key=json.dumps)
    if m["k"] == "ifiles":
        m["l"] = sorted(m["l"])
    return m


def norm_obs(m):
    """received message -> (token, comparable)"""
    if not isinstance(m, dict) or "unparsable" in m:
        return None, {"k": "unparsable", "raw": m}
    tok, ty, p = m.get("token"), m.get("type"), m.get("payload")
    try:
        if m.get("request") is not False:
            return tok, {"k": "malformed", "raw": m}
        if ty == "generic":
            if m["status"] != "success":
                return tok, {"k": "resp", "st": "err"}
            if "track_id" in p:
                return tok, {"k": "track", "id": p["track_id"], "ns": p["namespace_id"]}
            return tok, {"k": "resp", "st": "ok"}
        if m["status"] != "success":
            return tok, {"k": "resp", "st": "err"}
        if ty == "breakpoint":
            return tok, {"k": "stop", "time": p["time"], "file": p["filename"], "line": p["line_num"], "col": p["column_num"],
                         "insts": [{"iid": i["instance_id"], "iname": i["instance_name"], "bid": i["breakpoint_id"],
                                    "ns": i["namespace_id"], "ty": i["bp_type"], "loc": i["local"], "gen": i["generator"]}
                                   for i in p["instances"]]}
        if ty == "monitor":
            return tok, {"k": "mon", "id": p["track_id"], "ns": p["namespace_id"], "v": p["value"]}
        if ty == "bp-location":
            return tok, {"k": "loc", "l": sorted([{"id": b["id"], "file": b["filename"], "line": b["line_num"], "col": b["column_num"]}
                                                  for b in p], key=json.dumps)}
        if ty == "evaluation":
            return tok, {"k": "eval", "v": int(p["result"])}
        if ty == "debugger-info":
            c = p["command"]
            if c == "breakpoints":
                return tok, {"k": "ibps", "l": [{"id": b["id"], "file": b["filename"], "line": b["line_num"], "col": b["column_num"],
                                                 "var": b.get("var", ""), "ty": b["type"]} for b in p["breakpoints"]]}
            if c == "options":
                return tok, {"k": "iopts", "o": p["options"]}
            if c == "status":
                g = re.search(r"Simulation paused: (\w+)", p["status"])
                return tok, {"k": "istat", "run": g.group(1) == "true"}
            if c == "design":
                return tok, {"k": "idesign", "t": p["design"]}
            if c == "filename":
                return tok, {"k": "ifiles", "l": sorted(p["filenames"])}
    except (KeyError, TypeError, ValueError, AttributeError) as e:
        return tok, {"k": "malformed", "raw": m, "why": repr(e)}
    return tok, {"k": "unknown", "raw": m}


EVENTS = ("stop", "mon")
NOTOK = (12,)


def split(ms):
    """-> (responses, events); runs of monitor messages are unordered"""
    ev, run = [], []
    for m in ms:
        if m["k"] == "mon":
            run.append(m)
        elif m["k"] == "stop":
            ev += sorted(run, key=json.dumps) + [m]
            run = []
    ev += sorted(run, key=json.dumps)
    return [m for m in ms if m["k"] not in EVENTS], ev


def cond_same(e, o, d):
    if e["k"] == "idesign" and o["k"] == "idesign":
        if not e["t"]:
            return True  # no symbol table, no names
        want = {d["top"]: {t: n for n, t in enumerate(e["t"])}}
        return o["t"] == want
    return e == o


def steps_of(d, log):
    return [wire(d, e["a"], "t%d" % n) for n, e in enumerate(log)]


def compare(d, log, res):
    """None, or (step, what, expected, observed)"""
    obs = res["obs"]
    seen = 0
    for n, e in enumerate(log):
        a = e["a"]
        if n >= len(obs):
            return n, "the process %s" % res["end"], e, res.get("stderr", "")
        o = obs[n]
        if o.get("connect") == "failed":
            return n, "a client cannot connect", e, o
        for c in (1, 2, 3):
            exp = [norm_exp(m) for m in e["out"][c - 1]]
            got = [norm_obs(m) for m in o["msgs"].get(str(c), [])]
            if c == a.get("c") and a["k"] == "close":
                continue
            er, ee = split(exp)
            orr, oe = split([m for _, m in got])
            if len(er) != len(orr) or not all(cond_same(x, y, d) for x, y in zip(er, orr)):
                return n, "response to client %d" % c, er, orr
            if ee != oe:
                return n, "events at client %d" % c, ee, oe
            want = "t%d" % n
            if a["k"] == "bad" and not BAD[(a["b"] - 1) % len(BAD)][1]:
                want = None
            for t, m in got:
                w = want if m["k"] not in EVENTS else None
                if (t or None) != w:
                    return n, "token of the message to client %d" % c, w, t
        if a["k"] == "endsim":
            left = set(log[n - 1]["cl"] if n else []) - set(o["closed"])
            if left:
                return n, "the debugger is gone but connections are open", [], sorted(left)
            continue
        if "sim" not in o:
            continue  # the session went on at once
        sim = "idle" if e["pc"] == "idle" else "blocked"
        if o["sim"] != sim:
            return n, "simulator is %s instead of %s" % (o["sim"], sim), sim, o["sim"]
        if o["cyc"] != e["cyc"] or o["time"] != e["time"]:
            return n, "simulation time", [e["cyc"], e["time"]], [o["cyc"], o["time"]]
        if (o["cbs"] > 0) != e["att"]:
            return n, "clock callback registered", e["att"], o["cbs"]
        fin = sum(1 for x in o.get("ops", []) if x == 67)  # vpiFinish
        prev, seen = seen, e["fin"]
        if fin != e["fin"] - prev:
            return n, "finish requests", e["fin"] - prev, fin
        if not e["fin"] and set(o["closed"]) & set(e["cl"]):
            return n, "connection closed by the debugger", [], o["closed"]
    if res["end"] != "ok":
        return len(log), "the process %s" % res["end"], "ok", res.get("stderr", "")
    return None


def generate(ds, profile, num, seed, workers=NPROC):
    """behaviours of HgdbSim: list of {"design": index from 1, "log": [...]}, and TLC's statistics"""
    t = tempfile.mkdtemp(prefix="gen_", dir=tmp())
    with open(os.path.join(t, "designs.json"), "w") as f:
        json.dump(ds, f)
    with open(os.path.join(t, "profile.json"), "w") as f:
        json.dump(profile, f)

    def one(k):
        out = os.path.join(t, "out%d" % k)
        env = {"DESIGNS": os.path.join(t, "designs.json"), "PROFILE": os.path.join(t, "profile.json"), "OUT": out}
        rc, txt = tlc("HgdbSim", "HgdbSim.cfg", env, ["-simulate", "num=%d" % ((num + workers - 1) // workers), "-depth", "4000",
                                                      "-seed", str(seed * 1000 + k), "-aril", "0"])
        if rc != 0 or "Error:" in txt:
            raise Machinery("TLC (HgdbSim) failed, rc %d:\n%s" % (rc, txt[max(0, txt.find("Error:")):][:3000]))
        m = re.findall(r"(\d+) states checked", txt)
        m = m or re.findall(r"The number of states generated: (\d+)", txt)
        return out, int(m[-1]) if m else 0

    rs = par(one, range(workers), workers)
    traces = []
    for out, _ in rs:
        if os.path.exists(out):
            with open(out) as f:
                for l in f:
                    if l.strip():
                        traces.append(json.loads(l))
    shutil.rmtree(t)
    if not traces:
        raise Machinery("TLC produced no behaviour")
    return traces, sum(n for _, n in rs)


def exhaust(ds, cap):
    """every transition of HgdbMC, at most about cap per design, as maximal paths.
    -> (traces, distinct states, transitions, designs explored completely)"""

    def one(k):
        t = tempfile.mkdtemp(prefix="mc_", dir=tmp())
        with open(os.path.join(t, "designs.json"), "w") as f:
            json.dump([ds[k]], f)
        out = os.path.join(t, "out")
        env = {"DESIGNS": os.path.join(t, "designs.json"), "OUT": out, "MCCAP": str(cap)}
        rc, txt = tlc("HgdbMC", "HgdbMC.cfg", env)
        if rc != 0:
            raise Machinery("TLC (HgdbMC) failed, rc %d:\n%s" % (rc, txt[max(0, txt.find("Error:")):][:3000]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
        with open(out) as f:
            ls = [json.loads(l) for l in f if l.strip()]
        shutil.rmtree(t)
        key = lambda log: [json.dumps(e["a"], sort_keys=True) for e in log]
        inner = set()
        for l in ls:
            ks = key(l["log"])
            inner.add("|".join(ks[:-1]))
        keep = [l for l in ls if "|".join(key(l["log"])) not in inner]
        for l in keep:
            l["design"] = k + 1
        return keep, int(m.group(2)), int(m.group(1)), "MCCAP reached" not in txt

    rs = par(one, range(len(ds)))
    return [t for x in rs for t in x[0]], sum(x[1] for x in rs), sum(x[2] for x in rs), sum(x[3] for x in rs)


def hasty(steps, log):
    """while the simulator is stopped, the next request is sent as soon as the messages that are due have arrived"""
    for st, e in zip(steps, log):
        need = {str(c + 1): len(ms) for c, ms in enumerate(e["out"]) if ms}
        if e["pc"] != "idle" and need and st["op"] in ("req", "tick") and not st.get("stop") and not e["fin"]:
            st["need"] = need
    return steps


def replay(exe, ds, traces, port0=12000, env=None, slow=0):
    """-> list of (trace, divergence); slow: in a hurry, with disturbed locks (harness/slow.cc)"""
    conc = [dz.concrete(d) for d in ds]
    jobs = [{"id": n, "design": t["design"] - 1, "steps": steps_of(ds[t["design"] - 1], t["log"])} for n, t in enumerate(traces)]
    if slow:
        for n, t in enumerate(traces):
            jobs[n]["slow"] = slow + n
            if n % 4:
                hasty(jobs[n]["steps"], t["log"])
    res = run_sessions(exe, conc, jobs, port0, env=env)
    bad = []
    for n, t in enumerate(traces):
        if res[n]["end"] == "skipped":
            continue
        d = compare(ds[t["design"] - 1], t["log"], res[n])
        if d:
            bad.append((t, d))
    return bad
