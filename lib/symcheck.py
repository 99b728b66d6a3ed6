"""Symbol tables: the answers SymTab.tla gives, against the JSON provider, asked directly and over the network."""
import json
import os
import subprocess

from vlib import NPROC, Machinery, build, par, tlc, tmp

CONDS = ["a", "!a", "a || b", "a && b", "b == 1", "a | b", "a == b || b", "addr == 0", "addr == 1", "addr == 2"]
ATTRS = ["clock", "n", "nosuch"]


class Writer:
    """a document of the specification as a JSON text; how optional parts are written varies"""

    def __init__(self, r):
        self.r, self.refs = r, []

    def var(self, v, ref=""):
        o = {"name": v["name"], "value": v["value"], "rtl": v["rtl"]}
        if v["d"]:
            o["type"] = "delay"
            if v["d"] > 1 or self.r.random() < .5:
                o["depth"] = v["d"]
        elif self.r.random() < .1:
            o["type"] = "normal"
        if ref == "bad":
            return "no such id"
        if ref == "ref":
            # an id per definition, shared by equal ones
            for k, x in self.refs:
                if x == o:
                    return k
            k = "v%d" % len(self.refs)
            self.refs.append((k, o))
            return k
        return o

    def entry(self, e):
        o = {"type": e["ty"]}
        if e["line"] or e["ty"] in ("decl", "assign"):
            o["line"] = e["line"]
        if e["col"]:
            o["column"] = e["col"]
        if e["cond"]:
            o["condition"] = CONDS[e["cond"] - 1]
        elif self.r.random() < .1:
            o["condition"] = ""
        if e["ty"] in ("decl", "assign"):
            o["variable"] = self.var(e["vars"][0], e["ref"])
            if e["idx"]:
                o["indices"] = [{"var": self.var(i["var"], i["ref"]), "min": i["min"], "max": i["max"]} for i in e["idx"]]
        if e["ty"] == "block":
            o["scope"] = [self.entry(x) for x in e["scope"]]
            if e["file"]:
                o["filename"] = e["file"]
        return o

    def doc(self, d):
        t = []
        for m in d["mods"]:
            o = {"type": "module", "name": m["name"], "variables": [self.var(v, self.r.choice(["", "ref"])) for v in m["vars"]],
                 "scope": [self.entry(x) for x in m["scope"]]}
            if m["cond"]:
                o["condition"] = CONDS[m["cond"] - 1]
            if m["insts"] or self.r.random() < .5:
                o["instances"] = [{"name": n, "module": x} for n, x in m["insts"]]
            t.append(o)
        top = d["top"]
        o = {"generator": "spec", "table": t, "top": top[0] if len(top) == 1 and self.r.random() < .5 else list(top)}
        if not d["reorder"] or self.r.random() < .5:
            o["reorder"] = d["reorder"]
        if d["attrs"]:
            o["attributes"] = [{"name": n, "value": v} for n, v in d["attrs"]]
        if self.refs:
            o["variables"] = [dict(x, id=k) for k, x in self.refs]
        return o


def norm(a, want):
    """comparable form of answers; want: from the specification"""
    if a.get("bad"):
        return {"bad": True}
    insts = {}
    for i in a["insts"]:
        bps = []
        for b in i["bps"]:
            b = dict(b)
            if want:
                for v in b["vis"] + b["delayed"]:
                    pass
            b["const"] = sorted(map(list, b["const"]))
            bps.append(b)
        insts[i["path"]] = {"gen": [dict(v, d=0) for v in i["gen"]], "res": i["res"], "bps": bps,
                            "sites": [[list(x) for x in s] for s in i["sites"]] if bps else []}
    found = a["found"]
    return {"bad": False, "insts": insts, "found": found}


def compare(c, r, asked):
    if r.get("odd"):
        return "odd: %s" % r["odd"]
    if c["bad"] or r.get("bad"):
        return None if c["bad"] and r.get("bad") is True else "bad: %s, should be %s" % (r.get("bad", False), c["bad"])
    w, g = norm(c, True), norm(r, False)
    if len(r["insts"]) != len(c["insts"]) or set(w["insts"]) != set(g["insts"]):
        return "instances %s, should be %s" % (sorted(g["insts"]), sorted(w["insts"]))
    for p, x in w["insts"].items():
        y = g["insts"][p]
        if len(x["bps"]) != len(y["bps"]):
            return "%d breakpoints in %s, should be %d" % (len(y["bps"]), p, len(x["bps"]))
        for k, (b, d) in enumerate(zip(x["bps"], y["bps"])):
            for f in b:
                if b[f] != d[f]:
                    return "%s of breakpoint %d of %s: %s, should be %s" % (f, k + 1, p, d[f], b[f])
        for f in ("gen", "res", "sites"):
            if x[f] != y[f]:
                return "%s of %s: %s, should be %s" % (f, p, y[f], x[f])
    should = {(q[0], q[1], q[2]): sorted(map(list, q[3])) for q in c["found"]}
    for q, got in zip(asked, r["found"]):
        if sorted(got) != should[tuple(q)]:
            return "breakpoints at %s: %s, should be %s" % (q, sorted(got), should[tuple(q)])
    at = [[v for n, v in c["doc"]["attrs"] if n == k] for k in ATTRS]
    if at != r["attrs"]:
        return "attributes %s, should be %s" % (r["attrs"], at)
    files = sorted({b["file"] for i in c["insts"] for b in i["bps"]})
    if files != sorted(f for f in r["files"] if f in files):
        return "files %s, should include %s" % (r["files"], files)
    if set(r["files"]) - {"a.py", "dir/b.py", "/w/c.py"}:
        return "files %s" % r["files"]
    return None


def batch(ctx, exe, job, k, vias, timeout):
    d = tmp()
    jf, of = os.path.join(d, "sym%d.json" % k), os.path.join(d, "symout%d.json" % k)
    with open(jf, "w") as f:
        json.dump(job, f)
    rc, out = tlc("SymGen.tla", "SymGen.cfg", env={"JOB": jf, "OUT": of}, mem="3g", timeout=timeout)
    if rc != 0 or "No error has been found" not in out:
        raise Machinery("TLC on SymGen: rc %d %s" % (rc, out[-1500:]))
    r = ctx.rng("sym%d" % k)
    items, cases = [], []
    for l in open(of):
        if not l.strip():
            continue
        b = json.loads(l)
        for c in b["d"]:
            cases.append(c)
            asked = [q[:3] for q in c["found"]]
            items.append({"doc": Writer(r).doc(c["doc"]), "via": vias[len(items) % len(vias)], "asked": asked, "names": b["names"],
                          "assigned": b["assigned"], "envs": b["envs"], "attrs": ATTRS})
    os.remove(of)
    bad = []
    p = run(exe, items, k, timeout)
    if len(p) < len(items):
        bad.append((items[len(p)], "the process ended or hung"))
    for c, i, o in zip(cases, items, p):
        w = compare(c, o, i["asked"])
        if w:
            bad.append((i, w))
    return len(cases), sum(c["bad"] for c in cases), bad, items[:1]


def run(exe, items, k, timeout=600):
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                         env=dict(os.environ, SYMTAB_TMP=tmp(), WS_PORT=str(30000 + k % 400)))
    try:
        out, _ = p.communicate("".join(json.dumps(x) + "\n" for x in items), timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
    return [json.loads(l) for l in out.splitlines()]


MOD = {"type": "module", "name": "top", "variables": [], "scope": []}


def shaped(**kw):
    return dict({"table": [MOD], "top": "top"}, **kw)


def entry(**kw):
    return shaped(table=[dict(MOD, scope=[{"type": "block", "filename": "a.py", "scope": [kw]}])])


INVALID = ["", "{", "[]", "null", "1", "\"x\"", "{}", "{\"table\": []}", "{\"top\": \"top\"}", "\x00", "{\"table\": [], \"top\": []}", "not json", "[" * 20000] + [json.dumps(x) for x in [
    shaped(table={}), shaped(table=[1]), shaped(table=[]), shaped(table=[None]), shaped(top=1), shaped(top=[1]), shaped(top={}), shaped(top="nosuch"), shaped(reorder=1),
    shaped(variables={}), shaped(variables=[{"name": "x"}]), shaped(variables=[{"id": 1, "name": "x", "value": "x", "rtl": True}]),
    shaped(table=[{"type": "module", "name": "top"}]), shaped(table=[dict(MOD, name=1)]), shaped(table=[dict(MOD, variables="x")]), shaped(table=[dict(MOD, scope=1)]),
    shaped(table=[dict(MOD, instances=[{"name": "x"}])]), shaped(table=[dict(MOD, instances={})]), shaped(table=[dict(MOD, type="modul")]), shaped(table=[dict(MOD, type=1)]),
    shaped(table=[dict(MOD, variables=["nosuch"])]), shaped(table=[dict(MOD, variables=[{"name": "x", "value": "x"}])]),
    shaped(table=[dict(MOD, variables=[{"name": "x", "value": 1, "rtl": True}])]), shaped(table=[dict(MOD, variables=[{"name": "x", "value": "x", "rtl": "yes"}])]),
    shaped(table=[MOD, MOD]), shaped(table=[dict(MOD, instances=[{"name": "u", "module": "top"}])]), shaped(table=[dict(MOD, instances=[{"name": "u", "module": "none"}])]),
    shaped(table=[dict(MOD, scope=[{"type": "block", "scope": []}])]), entry(line=1), entry(type="decl"), entry(type="decl", line=1), entry(type="assign", line=1),
    entry(type="assign", line=1, variable="nosuch"), entry(type="assign", line=1, variable=1), entry(type="none", line="1"), entry(type="none", line=1.5), entry(type="none", line=-1),
    entry(type="none", line=1, column="x"), entry(type="none", line=1, condition=1), entry(type="block"), entry(type="block", scope={}), entry(type="weird", line=1),
    entry(type="assign", line=1, variable={"name": "x", "value": "x", "rtl": True}, indices=[{"var": "nosuch", "min": 0, "max": 1}]),
    entry(type="assign", line=1, variable={"name": "x", "value": "x", "rtl": True}, indices=[{"min": 0, "max": 1}]),
    entry(type="assign", line=1, variable={"name": "x", "value": "x", "rtl": True, "type": "other"})]]


def invalid(ctx, exe):
    """documents that are none: no table, and no crash, from a string and from a file"""
    for via in ("parse", "file"):
        items = [{"text": t, "via": via, "asked": [], "names": [], "assigned": [], "envs": [], "attrs": []} for t in INVALID]
        res = run(exe, items, 0, 120)
        for t, r in zip(items, res):
            if r != {"bad": True}:
                ctx.violate("not a symbol table, yet accepted: %s -> %s" % (t["text"][:300], r), t)
        if len(res) < len(items):
            ctx.violate("the process ended on %s" % items[len(res)]["text"][:300], items[len(res)])
    ctx.extra["invalid_documents"] = 2 * len(INVALID)


def jobs(ctx, rnd, base):
    out = []
    if ctx.prop == "C13":
        out += [{"kind": "exh", "from": k, "to": k, "base": 0, "bad": 0, "len": 3} for k in range(1, 15)]
    else:
        out += [{"kind": "exh", "from": k, "to": k + 6, "base": 0, "bad": 0, "len": 2} for k in (1, 8)]
    r = ctx.rng("symjobs")
    for k in range(rnd):
        n = r.randrange(1 << 20)
        out.append({"kind": "rnd", "from": n, "to": n, "base": base, "bad": 1 if k % 4 == 0 and ctx.prop == "C13" else 0, "len": 0})
    return out


def tables(ctx, vias, rnd, base):
    exe = build(["symtab"]) + "/symtab"
    js = jobs(ctx, rnd, base)
    res = par(lambda kj: batch(ctx, exe, kj[1], kj[0], vias, 400 if ctx.quick() else 2000), list(enumerate(js)), NPROC)
    for n, nb, bad, smp in res:
        ctx.traces += n
        ctx.states += n
        ctx.extra["tables"] = ctx.extra.get("tables", 0) + n
        ctx.extra["tables_rejected"] = ctx.extra.get("tables_rejected", 0) + nb
        for s in smp:
            ctx.sample(s["doc"])
    for n, nb, bad, smp in res:
        if bad:
            i, w = min(bad, key=lambda b: len(json.dumps(b[0].get("doc", ""))))
            ctx.violate("symbol table (%s): %s" % (i["via"], w), {"item": i, "what": w})
    return exe


def local(ctx):
    exe = tables(ctx, ["parse", "parse", "file"], 24 if ctx.quick() else 200, 40 if ctx.quick() else 100)
    invalid(ctx, exe)


STRINGS = ["", "a", "top.dut.x[3]", "/w/a b.py", "a == 1 && b", "\"quoted\"", "back\\slash", "new\nline", "tab\t", "\u00e9\u4e2d\U0001f600", "{}", "[1,2]", "null", "0", "0123",
           "%s%n", "\u0001\u007f", "</x>", "x" * 300, "y" * 5000, "a}", "\"", "\\", "}"]


def talk(ctx, exe, job, k, vias, timeout):
    d = tmp()
    jf, of = os.path.join(d, "rem%d.json" % k), os.path.join(d, "remout%d.json" % k)
    # the specification draws names; which text a name stands for is decided here
    with open(jf, "w") as f:
        json.dump(dict(job, strings=["s%d" % i if s else "" for i, s in enumerate(STRINGS)]), f)
    rc, out = tlc("RemoteGen.tla", "RemoteGen.cfg", env={"JOB": jf, "OUT": of}, mem="2g", timeout=timeout)
    if rc != 0 or "No error has been found" not in out:
        raise Machinery("TLC on RemoteGen: rc %d %s" % (rc, out[-1500:]))

    def text(x):
        if isinstance(x, str):
            return STRINGS[int(x[1:])] if x else x
        if isinstance(x, list):
            return [text(y) for y in x]
        if isinstance(x, dict):
            return {n: text(y) for n, y in x.items()}
        return x
    items = []
    for l in open(of):
        calls, first = [], {}
        for c in json.loads(l):
            c = {"fn": c["fn"], "args": text(c["args"]), "answer": text(c["answer"])}
            key = json.dumps([c["fn"], c["args"]])
            if key in first:      # a table answers the same question the same way
                c["answer"] = first[key]
            first[key] = c["answer"]
            calls.append(c)
        items.append({"calls": calls, "via": vias[len(items) % len(vias)]})
    os.remove(of)
    res = run(exe, items, 200 + k, timeout)
    bad = []
    if len(res) < len(items):
        bad.append((items[len(res)], "the process ended or hung"))
    for i, o in zip(items, res):
        if len(o["got"]) != len(i["calls"]):
            bad.append((i, "no connection"))
        for c, g in zip(i["calls"], o["got"]):
            if g != c["answer"]:
                bad.append((c, "%s%s answered %s, should be %s (over %s)" % (c["fn"], c["args"], str(g)[:300], str(c["answer"])[:300], i["via"])))
        if o.get("missing"):
            bad.append((i, "asked for something else"))
    return len(items), sum(len(i["calls"]) for i in items), bad, items[:1]


def remote(ctx):
    exe = tables(ctx, ["tcp", "tcp", "ws"], 16 if ctx.quick() else 200, 24 if ctx.quick() else 80)
    js = [{"from": 1, "to": 40 if ctx.quick() else 300, "len": 20} for _ in range(8)]
    res = par(lambda kj: talk(ctx, exe, kj[1], kj[0], ["tcp", "tcp", "ws"], 300 if ctx.quick() else 1500), list(enumerate(js)), NPROC)
    for n, calls, bad, smp in res:
        ctx.traces += n
        ctx.states += n
        ctx.extra["conversations"] = ctx.extra.get("conversations", 0) + n
        ctx.extra["questions"] = ctx.extra.get("questions", 0) + calls
    for n, calls, bad, smp in res:
        if bad:
            i, w = min(bad, key=lambda b: len(b[1]))
            ctx.violate("remote symbol table: " + w, {"item": i, "what": w})
