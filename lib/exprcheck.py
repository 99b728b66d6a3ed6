"""Expressions: the texts Expr.tla accepts and their values, against DebugExpression."""
import json
import os
import re
import subprocess

from vlib import NPROC, Machinery, build, par, tlc, tmp

NAMES = ["a", "b.c", "d[1]", "$root.e"]
STR = [  # alphabet, longest text: quick, thorough
    (["a", "b.c", "1", "8'hf", "(", ")", "[", "]", ".", "!", "~", "+", "-", "*", "/", "%", "==", "=", "!=", "<", ">", "<=", "&", "&&", "|", "||", "^",
      " ", "'", "$", ":", "\n"], 3, 4),
    (["a", "2", "(", ")", "!", "-", "+", "*", "<", "==", "&", " ", "[", "]"], 4, 5),
    (["a", "2", "(", ")", "-", "&", "="], 5, 6),
    (["a", "1", "[", "]", ".", ":", "$"], 5, 6),
]


def word(v):
    return list((v % (1 << 64)).to_bytes(8, "little"))


def signed(b):
    v = int.from_bytes(bytes(b), "little")
    return v - (1 << 64) if v >> 63 else v


def envs(r, n):
    pick = lambda: r.choice([0, 1, 1, 2, 3, 5, 255, -1, -1, -2, -7, r.randrange(-40, 40), r.randrange(1 << 31), 1 << 31, 1 << 32, -(1 << 31),
                             (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1, r.randrange(-(1 << 63), 1 << 63)])
    return [{n: pick() for n in NAMES} for _ in range(n)]


def specified(text):
    """literals that fit into 64 bits and, with a size, into the size"""
    for m in re.finditer(r"(\d+)('h([0-9a-fA-F]+))?", text):
        if m.group(3):
            if int(m.group(3), 16) >> min(64, int(m.group(1)) if len(m.group(1)) < 6 else 64):
                return False
        elif int(m.group(1)) >= 1 << 63:
            return False
    return True


def one(exe, job, k, timeout):
    d = tmp()
    jf, of = os.path.join(d, "job%d.json" % k), os.path.join(d, "out%d.json" % k)
    with open(jf, "w") as f:
        json.dump({n: v for n, v in job.items() if n != "envs"} | {"envs": [{n: word(v) for n, v in e.items()} for e in job["envs"]]}, f)
    rc, out = tlc("ExprGen.tla", "ExprGen.cfg", env={"JOB": jf, "OUT": of}, mem="3g", timeout=timeout)
    if rc != 0 or "No error has been found" not in out:
        raise Machinery("TLC on ExprGen: rc %d %s" % (rc, out[-1500:]))
    cases = [c for l in open(of) if l.strip() for c in json.loads(l)["c"]]
    os.remove(of)
    cases = [c for c in cases if specified(c["t"])]
    wire = [{n: str(v) for n, v in e.items()} for e in job["envs"]]
    inp = "".join(json.dumps({"t": c["t"], "envs": wire, "static": 1}) + "\n" for c in cases)
    p = subprocess.run([exe], input=inp, capture_output=True, text=True, timeout=timeout)
    res = [json.loads(l) for l in p.stdout.splitlines()]
    bad = []
    if len(res) < len(cases):
        bad.append((cases[len(res)], "the process ended (%d)" % p.returncode, wire))
    for c, r in zip(cases, res):
        w = judge(c, r)
        if w:
            bad.append((c, w, wire))
    return len(cases), sum(c["ok"] for c in cases), bad, cases[:2]


def judge(c, r):
    if c["ok"] != r["ok"]:
        return "accepted: %s, should be %s" % (r["ok"], c["ok"])
    if not c["ok"]:
        return None
    if sorted(c["names"]) != r["names"] or r["req"] != r["names"]:
        return "names %s (required %s), should be %s" % (r["names"], r["req"], sorted(c["names"]))
    v = [str(signed(x)) for x in c["v"]]
    if v != r["v"]:
        return "values %s, should be %s" % (r["v"], v)
    if v and (r["sv"] != v[0] or r["sreq"]):
        return "value %s over constants, should be %s" % (r["sv"], v[0])
    return None


def jobs(ctx):
    r = ctx.rng("expr")
    out = []
    for alpha, q, t in STR:
        n = q if ctx.quick() else t
        total = 1 + len(alpha) ** 2
        parts = max(1, min(total, len(alpha) ** n // 4000))
        cuts = [total * i // parts for i in range(parts + 1)]
        e = envs(r, 2)
        for a, b in zip(cuts, cuts[1:]):
            out.append({"kind": "str", "from": a, "to": b - 1, "alpha": alpha, "envs": e, "len": n, "base": 0, "operands": []})
    for rnd in range(1 if ctx.quick() else 6):
        ops = r.choice([["a", "b.c", "d[1]", "$root.e"], ["a", "3", "d[1]", "a"], ["8'hF0", "b.c", "a", "2"]])
        for a in range(1, 17 * 4 + 1, 8):
            out.append({"kind": "ops", "from": a, "to": min(a + 7, 17 * 4), "alpha": ["a"], "envs": envs(r, 2), "len": 0, "base": 0, "operands": ops})
    for k in range(16 if ctx.quick() else 96):
        out.append({"kind": "rnd", "from": k, "to": k, "alpha": STR[0][0], "envs": envs(r, 3), "len": 3 + k % 2, "base": 24, "operands": []})
    return out


GEN = [("(", "a", ")"), ("-", "a", ""), ("", "a", "+a"), ("a*(", "a", ")"), ("", "a", "[1]"), ("", "a", ".a"), ("", "a", "&&a"), ("!(", "a", ")"),
       ("(", " ", ""), ("", "a", ")"), ("", "a", " "), ("a[", "1", "]"), ("9", "1", ""), ("1'h", "f", "f"), ("", "", "\x01\xff")]


def hostile(ctx, exe):
    """long and deep texts: whatever the answer, there is one"""
    items = [{"gen": {"n": n, "pre": a, "mid": m, "post": b}, "envs": [{"a": "1"}]} for n in (10, 100, 130, 1000, 20000, 200000) for a, m, b in GEN]
    p = subprocess.run([exe], input="".join(json.dumps(x) + "\n" for x in items), capture_output=True, text=True, timeout=300)
    n = len(p.stdout.splitlines())
    if n < len(items):
        ctx.violate("the process ended (%d) on an expression" % p.returncode, items[n])
    ctx.extra["hostile_texts"] = len(items)


def check(ctx):
    exe = build(["expr"]) + "/expr"
    js = jobs(ctx)
    res = par(lambda kj: one(exe, kj[1], kj[0], 300 if ctx.quick() else 1500), list(enumerate(js)), NPROC)
    for n, ok, bad, smp in res:
        ctx.traces += n
        ctx.states += n
        ctx.extra["expressions"] = ctx.extra.get("expressions", 0) + n
        ctx.extra["expressions_accepted"] = ctx.extra.get("expressions_accepted", 0) + ok
        for c in smp:
            ctx.sample(c)
    for n, ok, bad, smp in res:
        if bad:
            c, w, wire = min(bad, key=lambda b: len(b[0]["t"]))
            ctx.violate("expression %r: %s" % (c["t"], w), {"text": c["t"], "what": w, "envs": wire, "expected": c})
    hostile(ctx, exe)
