"""Hierarchies and names: behaviours of Hier.tla against the namespaces and the simulator client."""
import json
import os
import subprocess

from vlib import NPROC, Machinery, build, par, tlc, tmp

DEFS = ["tb", "wrap", "top", "mid", "leaf"]


def sig(r, n, sim, nested=0):
    k = r.choice(["net"] * 5 + ["arr"] * 3 + (["packed"] * 2 if sim["product"] != "Verilator" else []) + (["struct"] * 2 if nested < 2 else []))
    s = {"n": n, "k": k, "w": 1, "dims": [], "mems": []}
    if k == "net":
        s["w"] = r.choice([1, 1, 2, 4, 8, 13, 31, 32, 33, 48, 63, 64])
    elif k == "arr":
        s["w"] = r.choice([1, 3, 8, 32, 64])
        s["dims"] = [r.randrange(1, 12) if r.random() < .2 else r.randrange(1, 5)]
        if sim["arrtype"] != "mem" and r.random() < .4:
            s["dims"].append(r.randrange(1, 4))
    elif k == "packed":
        s["w"] = r.choice([2, 3, 5])
        s["dims"] = [r.randrange(2, 5)]
        if r.random() < .3:
            s["dims"].append(2)
    else:
        s["mems"] = [sig(r, x, sim, nested + 1) for x in r.sample(["m", "n", "o", "p2"], r.randrange(1, 4))]
    return s


def design(r):
    sim = {"product": r.choice(["RTLMock", "RTLMock", "Verilator", "Icarus Verilog", "Other"]), "bitsel": r.random() < .5, "elemnames": r.random() < .6,
           "arrtype": r.choice(["reg", "reg", "net", "mem"])}
    body, insts = {}, {}
    for x, n in enumerate(DEFS):
        body[n] = [sig(r, s, sim) for s in r.sample(["a", "b", "clk", "arr", "st", "x_y", "v2"], r.randrange(1, 5 if n != "tb" else 3))]
        kids = []
        if x < 4:
            for i in r.sample(["u", "v", "dut", "w", "inner"], r.choice([0, 1, 1, 2, 2, 3]) if n != "tb" else r.choice([1, 2, 3])):
                kids.append((i, r.choice(DEFS[x + 1:])))
        insts[n] = kids
    iface = {n: [sig(r, s, dict(sim, product="x")) for s in ("i1", "i2")] for n in ("bus",)}
    for s in iface["bus"]:
        s.update(k="net", dims=[], mems=[], w=r.choice([1, 4, 32]))
    hasbus = {n: r.random() < .3 for n in DEFS}
    mods, sigs = [], []

    def grow(path, dn):
        if len(mods) > 14:
            return
        mods.append({"path": path, "def": dn, "iface": False})
        k = len(mods)
        for s in body[dn]:
            sigs.append(dict(s, mod=k))
        if hasbus[dn]:
            mods.append({"path": path + ["bus"], "def": "bus_if", "iface": True})
            for s in iface["bus"]:
                sigs.append(dict(s, mod=len(mods)))
        for i, c in insts[dn]:
            grow(path + [i], c)
    roots = [["tbench"], ["tb2"]][:r.choice([1, 1, 1, 2])]
    for x in roots:
        grow(x, "tb")
    if r.random() < .1:
        grow(["top"], "top")
    paths = {tuple(m["path"]): m["def"] for m in mods}

    def under(dn, seen=()):      # instance paths of a definition
        out = [[]]
        for i, c in insts[dn]:
            out += [[i] + p for p in under(c)]
        return out
    tables = []
    for tops in (["top"], ["top", "mid"], ["mid"], ["leaf"]):
        names = [".".join([t] + p) for t in tops for p in under(t)]
        r.shuffle(names)
        tables.append({"tops": tops, "names": names, "short": []})
    sim["defs"] = True
    if r.random() < .35:
        # without definitions: where the two ways agree
        ok = []
        for t in tables:
            if len(t["tops"]) > 1:
                continue
            names = [n for n in t["names"] if "." in n]
            if not names:
                continue
            size = min(len(n) for n in names)
            if len([n for n in names if len(n) == size]) > 1:
                names = [n for n in names if len(n) > size] + [n for n in names if len(n) == size][:1]
            short = min(names, key=len).split(".")[1:]
            by = {p[:-len(short)] for p in paths if len(p) > len(short) and list(p[-len(short):]) == short}
            if by == {p for p, dn in paths.items() if dn == t["tops"][0]} and len({len(p) for p in by}) <= 1 or by == {p for p, dn in paths.items() if dn == t["tops"][0]}:
                ok.append(dict(t, names=names, short=short))
        if ok:
            tables = ok
            sim["defs"] = False
    d = dict(sim, mods=mods, sigs=sigs, tables=tables)
    d["refs"] = refs(r, d, roots)
    return d


def access(r, s, acc):
    """a random access of a signal, mostly a valid one"""
    if s["k"] == "struct":
        if r.random() < .15:
            return acc
        m = r.choice(s["mems"])
        if r.random() < .05:
            return acc + [{"t": "m", "n": "nomember", "i": 0}]
        return access(r, m, acc + [{"t": "m", "n": m["n"], "i": 0}])
    for n in s["dims"]:
        if r.random() < .2:
            return acc
        acc = acc + [{"t": "i", "n": "", "i": n + r.randrange(3) if r.random() < .08 else r.randrange(n)}]
    if r.random() < .15:
        acc = acc + [{"t": "i", "n": "", "i": r.randrange(s["w"] + 1)}]
    return acc


def width(s, acc):
    """of what an access may end at; only a hint for picking slices"""
    for a in acc:
        if a["t"] == "m":
            s = next((m for m in s["mems"] if m["n"] == a["n"]), s)
    return s["w"]


BAD = ["nosuch", "a.b.c.d", "a[x]", "a[-1]", "a[99999999999999999999]", "a[4294967296]", "a[1:]", "a[:]", "a[x:y]", "a[3:1:0]", "a.", ""]


def refs(r, d, roots):
    out = []
    tops = {t for x in d["tables"] for t in x["tops"]}
    for _ in range(44):
        s = r.choice(d["sigs"])
        m = d["mods"][s["mod"] - 1]
        form = r.choice(["full", "root", "top", "top", "top"])
        toks = list(m["path"])
        if form == "top":
            # relative to the nearest enclosing top, if any
            up = [k for k in range(1, len(toks) + 1) if any(x["path"] == toks[:k] and x["def"] in tops for x in d["mods"])]
            if up:
                k = r.choice(up)
                toks = [next(x["def"] for x in d["mods"] if x["path"] == toks[:k])] + toks[k:]
        if r.random() < .06:
            toks = toks[:-1] + ["ghost"]
        n = s["n"]
        acc = access(r, s, [])
        bad = False
        sl = []
        last = width(s, acc)
        if r.random() < .25 and last > 1:
            hi = r.randrange(last)
            sl = r.choice([[hi, r.randrange(hi + 1)], [r.randrange(hi + 1), hi]])
        text = ".".join((["$root"] if form == "root" else []) + toks + [n])
        for a in acc:
            text += "." + a["n"] if a["t"] == "m" else r.choice(["[%d]", "[%d]", ".%d"]) % a["i"]
        if sl:
            text += "[%d:%d]" % tuple(sl)
        if r.random() < .08:
            bad = True
            acc, sl = [], []
            b = r.choice(BAD)
            text = ".".join((["$root"] if form == "root" else []) + toks) + ("." + b if b else "")
            text = text.replace(".a[", "." + n + "[")
            if b == "a.":
                text = ".".join(toks) + ".zz."
        if r.random() < .1 and not bad and m["iface"]:
            n, toks = toks[-1], toks[:-1]
            text = ".".join((["$root"] if form == "root" else []) + toks + [n])
            acc, sl = [], []
        par = ""
        out.append({"root": form == "root", "toks": toks, "sig": n, "acc": acc, "slice": sl, "bad": bad, "text": text})
    return out


def bits_int(b):
    return sum(x << i for i, x in enumerate(b))


def wire(d, e):
    op = e["op"]
    o = {"op": op}
    if "at" in e:
        o["at"] = [e["at"][0], ".".join(e["at"][1])]
    if op == "connect":
        o["names"] = d["tables"][e["table"] - 1]["names"]
    elif op == "change":
        o.update(sig=e["sig"], bits="".join(map(str, e["bits"])))
    elif op == "read":
        o["names"] = [d["refs"][e["ref"] - 1]["text"]]
    elif op == "readall":
        o.update(op="read", names=[x["text"] for x in d["refs"]])
    elif op == "put":
        o.update(name=d["refs"][e["ref"] - 1]["text"], v=str(bits_int(e["bits"])))
    elif op == "expand":
        o["name"] = e.get("text") or d["refs"][e["ref"] - 1]["text"]
    elif op == "places":
        o["name"] = e["name"]
    elif op == "find":
        o["path"] = ".".join(e["path"])
    return o


def same_value(d, b, got, what):
    w = len(b)
    v = bits_int(b)
    if "absent" in got:
        return "%s is absent" % what
    if not got["valid"]:
        return "%s is not valid" % what
    for f in ("v", "hv"):
        if f not in got or int(got[f]) % (1 << w) != v or (w < 32 and int(got[f]) != v):
            return "%s reads %s, should be %d (%d bits)" % (what, got.get(f), v, w)
    s = got.get("s", "")
    if s.startswith("0x") != (w > 1) or int(s[2:] if w > 1 else s, 16) != v:
        return "%s reads %s as text, should be %x" % (what, s, v)
    if got.get("w") != w:
        return "%s has %s bits, should have %d" % (what, got.get("w"), w)
    return None


def judge(d, e, o, prop):
    if o is None:
        return "the process ended"
    if isinstance(o, dict) and (o.get("bogus") or o.get("odd")):
        return "%s" % o
    op = e["op"]
    x = e["exp"]
    if op == "connect":
        want = sorted([p[0], ".".join(p[1])] for p in x)
        if sorted(o["places"]) != want:
            return "places %s, should be %s" % (o["places"], want)
        if e["same"] and o["moved"]:
            return "connecting again changed the mapping"
    elif op in ("places", "find"):
        want = sorted([p[0], ".".join(p[1])] for p in x)
        if sorted(o["places"]) != want:
            return "places of %s: %s, should be %s" % (e.get("name", e.get("path")), o["places"], want)
    elif op in ("read", "readall"):
        xs = [dict(x, said=True)] if op == "read" else x
        ns = [d["refs"][e["ref"] - 1]] if op == "read" else d["refs"]
        for y, n, g in zip(xs, ns, o):
            if not y["said"]:
                continue
            if not y["ok"]:
                # a module has a name too
                if g.get("valid") or ("absent" in g and not g["absent"]):
                    return "%s should not exist: %s" % (n["text"], g)
                continue
            w = same_value(d, y["bits"], g, n["text"])
            if w:
                return w
    elif op == "put":
        if o["ok"] != x:
            return "setting %s: %s, should be %s" % (d["refs"][e["ref"] - 1]["text"], o["ok"], x)
    elif op == "expand":
        n = d["refs"][e["ref"] - 1]["text"]
        fs = [".".join(["f"] + y["front"]) for y in x]
        if [y["front"] for y in o["parts"]] != fs:
            return "%s expands to %s, should be %s" % (n, [y["front"] for y in o["parts"]], fs)
        for y, g in zip(x, o["parts"]):
            w = same_value(d, y["bits"], g, g["front"])
            if w:
                return "in %s: %s" % (n, w)
    return None


def concrete(d):
    c = {k: d[k] for k in ("product", "bitsel", "elemnames", "arrtype", "defs", "sigs")}
    c["mods"] = [{"full": ".".join(m["path"]), "def": m["def"], "iface": m["iface"]} for m in d["mods"]]
    return c


def batch(ctx, exe, ds, k, num, seed, timeout):
    t = tmp()
    jf, of = os.path.join(t, "hier%d.json" % k), os.path.join(t, "hierout%d.json" % k)
    with open(jf, "w") as f:
        json.dump({"designs": ds, "len": 40}, f)
    rc, out = tlc("Hier.tla", "Hier.cfg", env={"JOB": jf, "OUT": of}, mem="3g", timeout=timeout,
                  args=["-simulate", "num=%d" % num, "-depth", "60", "-seed", str(seed), "-aril", "0"])
    if "Error:" in out or not os.path.exists(of):
        raise Machinery("TLC on Hier: rc %d %s" % (rc, out[-2500:]))
    tr = [json.loads(l) for l in open(of)]
    os.remove(of)
    bad = []
    steps = 0
    inp = []
    for x in tr:
        d = ds[x["d"] - 1]
        x["log"] = [e for e in x["log"] if e["op"] != "nop"]
        inp.append(json.dumps({"design": concrete(d), "vals": ["".join(map(str, v)) for v in x["vals"]]}))
        inp += [json.dumps(wire(d, e)) for e in x["log"]]
    p = subprocess.run([exe], input="\n".join(inp) + "\n", capture_output=True, text=True, timeout=timeout)
    got = [json.loads(l) for l in p.stdout.splitlines()]
    at = 0
    for x in tr:
        d = ds[x["d"] - 1]
        for n, e in enumerate(x["log"]):
            o = got[at] if at < len(got) else None
            at += 1
            steps += 1
            w = judge(d, e, o, ctx.prop)
            if w:
                bad.append((n, w, x, d))
                at += len(x["log"]) - n - 1
                break
    return len(tr), steps, bad, [x["log"][:6] for x in tr[:1]]


def check(ctx):
    exe = build(["hier"]) + "/hier"
    q = ctx.quick()
    js = []
    for k in range(16 if q else 64):
        r = ctx.rng("hier%d" % k)
        js.append(([design(r) for _ in range(6 if q else 20)], k, 60 if q else 400, r.randrange(1 << 30)))
    res = par(lambda j: batch(ctx, exe, *j, 300 if q else 1500), js, NPROC)
    for n, steps, bad, smp in res:
        ctx.traces += n
        ctx.states += steps
        ctx.transitions += steps
        for s in smp:
            ctx.sample(s)
    for n, steps, bad, smp in res:
        if bad:
            n, w, x, d = min(bad, key=lambda b: b[0])
            ctx.violate("hierarchy: %s at step %d" % (w, n), {"what": w, "lines": [{"design": concrete(d), "vals": ["".join(map(str, v)) for v in x["vals"]]}] + [wire(d, e) for e in x["log"][:n + 1]],
                                                                     "design": concrete(d), "vals": ["".join(map(str, v)) for v in x["vals"]],
                                                              "steps": [wire(d, e) for e in x["log"][:n + 1]], "expected": x["log"][n]["exp"]})
