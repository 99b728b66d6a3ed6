"""Which messages are requests (spec/Proto.tla): every message with up to two defects, sent to the real debugger."""
import json
import os
import random

import core
import designs as dz
import profiles
from vlib import Machinery, build, run_sessions, tlc, tmp

MISSING = object()
VALUES = {
    "null": ["null"], "bool": ["true", "false"], "zero": ["0", "-0"], "int": ["1", "3", "77", "4294967296", "9223372036854775807"],
    "neg": ["-1", "-7", "-2147483649", "-9223372036854775808"], "float": ["0.5", "1.0", "-2.5", "1e3", "1E-7"],
    "big": ["9223372036854775808", "18446744073709551615"], "huge": ["18446744073709551616", "1e300", "123456789012345678901234567890"],
    "empty": ['""'], "string": ['"nosuch"', '"x y"', '"\\u0000"', '"caf\u00e9"', '"ADD"'], "digits": ['"1"', '"12"', '"0x3"'],
    "array": ["[]", "[1]", '["add"]', "[[]]", '[{"a": 1}]'], "object": ['{"a": 1}', '{"a": {}}', '{"a": "/b", "c": null}', '{"/a": ["/b"]}'],
    "map": ["{}", '{"/x": "/y"}', '{"/x": "/y", "": ""}'],
}
ENV = {
    "request-false": ("request", ["false"]), "request-null": ("request", ["null"]), "request-string": ("request", ['"true"', '""']),
    "request-int": ("request", ["1", "0"]), "type-null": ("type", ["null"]), "type-int": ("type", ["1", "0", "-1", "2.5"]),
    "type-unknown": ("type", ['"nosuch"', '"break"', '"generic"', '"error"']), "type-empty": ("type", ['""']),
    "type-array": ("type", ["[]", '["breakpoint"]', "{}"]), "payload-null": ("payload", ["null"]), "payload-string": ("payload", ['"x"', '""']),
    "payload-array": ("payload", ["[]", "[1]"]), "payload-int": ("payload", ["0", "5"]), "payload-true": ("payload", ["true", "false"]),
    "token-empty": ("token", ['""']), "token-null": ("token", ["null"]), "token-int": ("token", ["7", "-1"]), "token-array": ("token", ["[]", "{}"]),
}
# not even an object
RAW = ["", " ", "[]", "[1, 2]", "1", "null", "true", '"request"', "{", "}", "{}", '{"request"}', '{"request": true', '{"request": true}', "nan",
       '{"request": true, "type": "command", "payload": {"command": "continue"}} x', "[" * 2000 + "]" * 2000, '{"a":' * 1500 + "1" + "}" * 1500,
       '{"request": true, "type": "command", "payload": {"command": "continue"}},', "\u0000", "'", '{"request": true, "type": "command", }',
       '{request: true, type: "command", payload: {}}', '{"payload": {}, "payload": {}}', "//", "0x1", "-", "1e999"]


def messages(ctx):
    out = os.path.join(tmp(), "proto_out")
    rc, txt = tlc("Proto", "Proto.cfg", {"OUT": out})
    if rc != 0:
        raise Machinery("TLC (Proto) failed, rc %d:\n%s" % (rc, txt[max(0, txt.find("Error:")):][:2000]))
    with open(out) as f:
        ts = [json.loads(l) for l in f if l.strip()]
    os.remove(out)
    return ts


def good(r, d, t, f):
    """a value that makes sense"""
    n, ty = f["n"], f["ty"]
    if ty[0] == "=":
        return json.dumps(ty[1:])
    loc = r.choice(d["locs"])
    v = {"filename": loc["file"], "line_num": loc["line"], "column_num": loc["col"] or 1, "condition": "1 == 1", "id": r.choice(d["bps"])["id"],
         "db_filename": "db", "time": 0, "expression": "1 + 2", "use_hex_str": False, "track_id": 0, "var_name": "a", "value": 1,
         "breakpoint-id": r.choice(d["bps"])["id"], "breakpoint_id": r.choice(d["bps"])["id"], "instance_id": r.choice(d["insts"])["id"],
         "namespace_id": 0, "path-mapping": {}, "nosuch": True, "perf_count": False}[n]
    return json.dumps(v)


def text(r, d, t, m, e, tok):
    pl = []
    for f, k in zip(t["f"], m):
        if k == "ok":
            pl.append((f["n"], good(r, d, t, f)))
        elif k != "missing":
            pl.append((f["n"], r.choice(VALUES[k])))
    if r.random() < .3:
        r.shuffle(pl)
    if r.random() < .1:
        pl.insert(r.randrange(len(pl) + 1), ("extra", r.choice(["1", "null", "{}", '"x"'])))
    sp = r.choice([" ", "", "\n"])
    obj = lambda kv: "{" + ("," + sp).join('"%s":%s%s' % (k, sp, v) for k, v in kv) + "}"
    env = {"request": "true", "type": json.dumps(t["t"]), "token": json.dumps(tok), "payload": obj(pl)}
    if e.endswith("-missing"):
        del env[e[:-8]]
    elif e == "type-case":
        env["type"] = json.dumps(t["t"].capitalize())
    elif e != "ok":
        k, vs = ENV[e]
        env[k] = r.choice(vs)
    kv = list(env.items())
    if r.random() < .3:
        r.shuffle(kv)
    return obj(kv)


PROBE = [{"command": c} for c in ("breakpoints", "options", "status", "design", "filename")]


def probes(k):
    return [{"op": "req", "c": 2, "j": {"request": True, "type": "debugger-info", "token": "p%d" % n, "payload": p}} for n, p in enumerate(PROBE)]


def start(r, d, stopped):
    """two clients, the table, a breakpoint; stopped: the simulator waits at it"""
    loc = next(l for l in d["locs"] if any(b["file"] == l["file"] and b["line"] == l["line"] for b in d["bps"]))
    s = [{"op": "connect", "c": 1, "how": "ws"}, {"op": "connect", "c": 2, "how": "ws"},
         {"op": "req", "c": 1, "j": {"request": True, "type": "connection", "token": "s", "payload": {"db_filename": "db"}}},
         {"op": "req", "c": 1, "j": {"request": True, "type": "breakpoint", "token": "s",
                                     "payload": {"action": "add", "filename": loc["file"], "line_num": loc["line"]}}}]
    if stopped:
        s += [{"op": "req", "c": 1, "j": {"request": True, "type": "option-change", "token": "s", "payload": {"single_thread_mode": True}}},
              {"op": "tick"}]
    return s


def look(obs):
    return [obs["sim"], obs["cyc"], obs["time"], obs["cbs"], obs["msgs"].get("2", [])]


def verdict(x, o):
    """None, or what is wrong with the answer to one message"""
    if x["v"] == "any":
        return None
    if o["msgs"].get("2"):
        return "a message to the other client: %s" % json.dumps(o["msgs"]["2"])[:200]
    got = o["msgs"].get("1", [])
    if len(got) != 1:
        return "%d answers" % len(got)
    g = got[0]
    if not isinstance(g, dict) or g.get("request") is not False:
        return "an answer that isn't a response"
    if x["v"] == "error" and g.get("status") != "error":
        return "accepted"
    if g.get("status") not in ("error", "success"):
        return "a response without a status"
    tok = g.get("token") or None
    if x["tok"] == "same" and tok != x["token"] or x["tok"] == "none" and tok:
        return "token %r" % tok
    return None


def check(ctx):
    ts = messages(ctx)
    exe = build(["session"]) + "/session"
    for rnd in range(1 if ctx.quick() else 6):
        go(ctx, exe, ts, ctx.rng("proto%d" % rnd), 1.0 if not ctx.quick() else .5)


def go(ctx, exe, ts, r, part):
    errs, rest = [], []
    ds = [dz.make(r, dict(profiles.P["C12"]["d"] if isinstance(profiles.P.get("C12"), dict) and "d" in profiles.P["C12"] else {}, kind="mock", nns=1)) for _ in range(8)]
    n = 0
    for t in ts:
        for x in t["all"]:
            if len([k for k in x["m"] if k != "ok"]) + (x["e"] != "ok") > 1 and r.random() > part:
                continue
            n += 1
            y = {"t": t["t"], "m": x["m"], "e": x["e"], "v": x["v"], "tok": x["tok"], "token": "q%d" % n, "d": r.randrange(len(ds))}
            y["text"] = text(r, ds[y["d"]], t["t"], x["m"], x["e"], y["token"])
            (errs if x["v"] == "error" else rest).append(y)
    for k, raw in enumerate(RAW):
        errs.append({"v": "error", "tok": "none", "token": "", "d": k % len(ds), "text": raw, "e": "raw"})
    jobs, plan = [], []
    conc = [dz.concrete(d) for d in ds]

    def session(xs, d, stopped, probe):
        st, pl = start(r, ds[d], stopped), []
        pl += [None] * len(st)

        def ask():
            st.extend(probes(0))
            pl.extend(["probe"] * len(PROBE))

        if probe:
            ask()
        for k, x in enumerate(xs):
            st.append({"op": "req", "c": 1, "text": x["text"]})
            pl.append(x)
            if probe and k % 25 == 24:
                ask()
        ask()
        jobs.append({"id": len(jobs), "design": d, "steps": st})
        plan.append((pl, probe))

    for xs, probe, size in ((errs, True, 150), (rest, False, 60)):
        for d in range(len(ds)):
            mine = [x for x in xs if x["d"] == d]
            r.shuffle(mine)
            for k in range(0, len(mine), size):
                session(mine[k:k + size], d, probe and (k // size) % 2 == 1, probe)

    def run(which):
        res = run_sessions(exe, conc, [jobs[k] for k in which])
        bad = {}
        for k in which:
            w = judge(jobs[k], plan[k], res[k])
            if w:
                bad[k] = w
        return bad

    bad = run(range(len(jobs)))
    ctx.traces += len(jobs)
    ctx.transitions += len(errs) + len(rest)
    ctx.extra["messages_malformed"] = ctx.extra.get("messages_malformed", 0) + len(errs)
    ctx.extra["messages_accepted_form"] = ctx.extra.get("messages_accepted_form", 0) + len(rest)
    if bad:
        again = run(sorted(bad)[:8])
        if again:
            k = min(again, key=lambda k: again[k][0])
            n, what = again[k]
            d = jobs[k]["design"]
            ctx.violate("message: " + what, {"slow": 0, "hasty": [], "design": ds[d], "steps": jobs[k]["steps"][:n + 1], "step": n, "what": what,
                                             "expected": plan[k][0][n] if n < len(plan[k][0]) else None, "observed": ""})
        ctx.notes.append("%d rejections of messages did not repeat" % len(bad))


def judge(job, plan, res):
    """None, or (step, what)"""
    pl, probe = plan
    if res["end"] == "skipped":
        return None
    base, cur = None, []
    for n, x in enumerate(pl):
        if n >= len(res["obs"]):
            return n, "the process %s" % res["end"]
        o = res["obs"][n]
        if x == "probe":
            if len(o["msgs"].get("2", [])) != 1 or o["msgs"].get("1"):
                return n, "a probe isn't answered"
            cur.append(look(o))
            if len(cur) == len(PROBE):
                if base is not None and probe and cur != base:
                    return n, "the state changed: %s" % next(("%s -> %s" % (json.dumps(a)[:300], json.dumps(b)[:300]) for a, b in zip(base, cur) if a != b), "")
                base, cur = cur, []
        elif x:
            w = verdict(x, o)
            if w:
                return n, "%s (%s)" % (w, x["v"])
        elif "connect" in o and o["connect"] == "failed":
            return n, "a client cannot connect"
    if res["end"] != "ok":
        return len(pl) - 1, "the process %s" % res["end"]
    return None
