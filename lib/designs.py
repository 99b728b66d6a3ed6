"""Random designs for HgdbCore: the abstract design (read by TLC) and the concrete one (run by the harness)."""
import random

TOP = "top"


def text(a):
    if a[0] == "n":
        return str(a[1])
    if a[0] == "v":
        return a[1]
    if a[0] == "!":
        return "!(%s)" % text(a[1])
    if a[0] == "neg":
        return "-(%s)" % text(a[1])
    return "(%s) %s (%s)" % (text(a[1]), a[0], text(a[2]))


CMP = ["==", "!=", "<", ">", "<=", ">="]


def rcmp(r, names, hi):
    if r.random() < .15:
        return ["v", r.choice(names)]
    if r.random() < .15:
        return ["!", ["v", r.choice(names)]]
    b = ["n", r.randrange(hi)] if r.random() < .75 else ["v", r.choice(names)]
    return [r.choice(CMP), ["v", r.choice(names)], b]


def rexpr(r, names, hi, depth=2):
    if depth == 0 or r.random() < .35:
        return rcmp(r, names, hi)
    op = r.choice(["&&", "||", "+", "-", "*", "==", "<"])
    return [op, rexpr(r, names, hi, depth - 1), rexpr(r, names, hi, depth - 1)]


def make(r, o):
    """o: options that shape the design"""
    nns = o.get("nns", r.choice([1, 1, 1, 2]))
    nchild = o.get("nchild", r.choice([0, 1, 2, 2, 3]))
    hi = o.get("hi", r.choice([2, 3, 4, 200]))
    d = {"nns": nns, "rewind": o.get("rewind", r.random() < .6), "late": o.get("late", False), "top": TOP,
         "clock": o.get("clock") or r.choice(["table"] * 4 + ["two", "two", "root", "own", "up"]),
         "kind": o.get("kind") or r.choice(["mock"] * 6 + ["vcs", "verilator"]),
         "tops": ["tb.dut%d" % k for k in range(nns)] if nns > 1 or r.random() < .5 else ["tb.sub.dut"]}
    names = [TOP] + ["%s.c%d" % (TOP, k) for k in range(nchild)]
    if nchild and r.random() < .3:
        names.append("%s.c0.deep" % TOP)
    ids = r.sample(range(0, 9), len(names)) if len(names) <= 9 else list(range(len(names)))
    sigs = {}
    insts = []
    child = ["x", "y", "z"]
    for k, n in enumerate(names):
        own = ["a", "b", "e", "q"] if n == TOP else list(child)
        if n != TOP and r.random() < .3:
            own.append(n.split(".")[-1] + "_f")  # starts with the name of its instance
        if n == TOP and r.random() < .4:
            own.append("top_f")
        for s in own:
            sigs["%s.%s" % (n, s)] = r.choice([1, 4, 6, 8, 8, 8, 12]) if s not in ("e",) else 1
        gen = []
        for s in own:
            if r.random() < .5:
                gen.append({"name": "g" + s, "value": s, "rtl": True})
        if r.random() < .5:
            gen.append({"name": "K", "value": r.choice(["42", "hello", "top", "a"]), "rtl": False})
        if r.random() < .2:
            gen.append({"name": "gone", "value": "nosuch", "rtl": True})
        if gen and r.random() < .3:
            gen.append({"name": gen[0]["name"], "value": r.choice(own), "rtl": True})
        insts.append({"id": ids[k], "name": n, "gen": gen, "own": own})
    # statements: the top's and, for every line of the child module, one per child instance
    bps = []

    def cond(own, p):
        return rcmp(r, own, hi) if r.random() < p else None

    def ctx(own, d_):
        c = []
        for s in own:
            if r.random() < .7:
                c.append({"name": "v" + s, "value": s, "rtl": True, "num": -1, "delay": 0})
        if r.random() < .4:
            c.append({"name": "k", "value": str(r.randrange(20)), "rtl": False, "num": 0, "delay": 0})
            c[-1]["num"] = int(c[-1]["value"])
        if r.random() < .2:
            c.append({"name": "str", "value": r.choice(["abc", "top", "tb", "x"]), "rtl": False, "num": -1, "delay": 0})
        if r.random() < .2:
            c.append({"name": "lost", "value": "nosuch", "rtl": True, "num": -1, "delay": 0})
        if c and r.random() < .35:  # shadowing
            x = r.choice(c)
            if r.random() < .5:
                y = {"name": x["name"], "value": r.choice(own), "rtl": True, "num": -1, "delay": 0}
            else:
                n = r.randrange(30)
                y = {"name": x["name"], "value": str(n), "rtl": False, "num": n, "delay": 0}
            c.append(y)
        if r.random() < .12 and len(own) > 1:  # a variable named like another one's signal
            x, y = r.sample(own, 2)
            c.append({"name": x, "value": y, "rtl": True, "num": -1, "delay": 0})
        if r.random() < d_:
            for _ in range(r.choice([1, 1, 2])):
                s = r.choice(own)
                c.append({"name": r.choice(["old", "dly", "v" + s]), "value": s, "rtl": True, "num": -1,
                          "delay": r.choice([1, 1, 2, 3])})
        return c

    dl = o.get("delay", .3)
    pc, pt = o.get("pcond", .45), o.get("ptrig", .25)
    blocks = []
    for k in range(o.get("ntop", r.randint(1, 4))):
        own = insts[0]["own"]
        blocks.append([dict(i=1, file=r.choice(["t.py", "t.py", "dir/u.py"]), line=r.randint(1, 4), col=r.choice([0, 0, 1, 5]),
                            cond=cond(own, pc), trig=[r.choice(own)] if r.random() < pt else [], ctx=ctx(own, dl))])
        if r.random() < .1:
            blocks[-1][0]["trig"] = r.choice([["nosuch"], ["a", "b"]])
    kids = [k + 1 for k, n in enumerate(names) if k > 0]
    if kids:
        for k in range(o.get("nkid", r.randint(1, 3))):
            line, col = 10 + r.randint(0, 3), r.choice([0, 0, 2])
            c, t = cond(child, pc), [r.choice(child)] if r.random() < pt else []
            cx = ctx(child, dl)
            blk = []
            for i in kids:
                cc = c if r.random() < .8 else cond(child, pc)
                blk.append(dict(i=i, file="c.py", line=line, col=col, cond=cc, trig=list(t), ctx=[dict(x) for x in cx]))
            if r.random() < .75:
                blocks.append(blk)
            else:
                blocks.extend([b] for b in blk)
    r.shuffle(blocks)
    flat = [b for blk in blocks for b in blk]
    bid = r.sample(range(0, 40), len(flat)) if len(flat) <= 40 else list(range(len(flat)))
    for k, b in enumerate(flat):
        b["id"] = bid[k]
        b["ctext"] = text(b["cond"]) if b["cond"] else "1"
        b["cond"] = b["cond"] or ["n", 1]
        bps.append(b)
    d["bps"] = bps
    d["width"] = sigs
    d["full"] = {}
    for ns in range(nns):
        for s in sigs:
            d["full"][d["tops"][ns] + s[len(TOP):]] = [ns + 1, s]
    # stimulus
    stims = [s for s in sigs if r.random() < o.get("pstim", .7)]
    rows = []
    prev = None
    for k in range(r.choice([1, 2, 3, 4, 5])):
        row = []
        for ns in range(nns):
            e = {}
            for s in stims:
                v = r.randrange(min(hi, 1 << sigs[s]))
                if prev and r.random() < .45:
                    v = prev[ns][s]
                e[s] = v
            row.append(e)
        prev = row
        rows.append(row)
    if not stims:
        rows = [[{"top.a": 0} for _ in range(nns)]]
        stims = ["top.a"]
    d["stim"], d["stims"] = rows, stims
    # data breakpoints: a variable is assigned at statements of its instance; signals of one variable form a group
    assign, grp, ng = [], {}, 0
    for s in sigs:
        grp[s] = 0
    for k, inst in enumerate(insts):
        mine = [b for b in bps if b["i"] == k + 1]
        pool = list(inst["own"])
        r.shuffle(pool)
        while mine and pool and r.random() < o.get("pdata", .8):
            sub = [pool.pop() for _ in range(min(len(pool), r.choice([1, 1, 2])))]
            ng += 1
            for s in sub:
                grp["%s.%s" % (inst["name"], s)] = ng
            sites = r.sample(mine, r.randint(1, len(mine)))
            sites.sort(key=lambda b: bps.index(b))
            assign.append(("d" + sub[0], [b["id"] for b in mine], [(b["id"], r.choice(sub)) for b in sites], sub))
    # conditions users give
    anyname = ["va", "vb", "vx", "vy", "k", "a", "b", "x", "y", "ga", "gx", "top.a", "str", "lost"]
    conds, seen = [], set()
    for _ in range(40):
        own = r.choice(insts)["own"]
        a = rexpr(r, r.choice([own, own, ["v" + s for s in own], anyname, ["$time", "a", "x"], ["$instance", "a", "x"]]), hi, r.choice([0, 1, 1, 2]))
        t = text(a)
        if t in seen:
            continue
        seen.add(t)
        conds.append({"ast": a, "text": t})
        if len(conds) == 8:
            break
    nok = len(conds)
    conds += [{"ast": ["bad"], "text": t} for t in ["a ==", "1)", "(a", "&& a", "a b"]]
    d["conds"] = conds
    ass = []
    for var, ids_, sites, sub in assign:
        res = []
        for (b, v) in sites:
            inst = insts[[x for x in bps if x["id"] == b][0]["i"] - 1]
            # data conditions use names every instance of it resolves
            cnd = 0
            if r.random() < .3:
                c = rcmp(r, inst["own"], hi)
                t = text(c)
                cnd = next((k + 1 for k, x in enumerate(conds) if x["text"] == t), 0)
                if not cnd:
                    conds.append({"ast": c, "text": t})
                    cnd = len(conds)
            res.append({"bp": b, "var": v, "cond": cnd})
        for b in ids_:
            ass.append({"var": var, "bp": b, "res": res})
    d["assign"], d["grp"], d["ngrp"] = ass, grp, max(ng, 1)
    evals = []
    for _ in range(14):
        own = r.choice(insts)["own"]
        pool = r.choice([own, ["v" + s for s in own], anyname, ["g" + s for s in own], ["top." + s for s in insts[0]["own"]],
                         list(d["full"])[:8], ["$time", "$instance", "a"], ["c0.x", "top.c0.x", "a"], ["old", "dly", "top_f", "vtop_f"],
                         ["k", "str", "lost", "K", "gone"]])
        a = rexpr(r, pool, hi, r.choice([0, 0, 1, 2]))
        evals.append({"ast": a, "text": text(a)})
    evals += [{"ast": ["bad"], "text": t} for t in ["1 +", "", ")", "a b"]]
    d["evals"] = evals
    files = []
    for b in bps:
        if b["file"] not in files:
            files.append(b["file"])
    d["files"] = files
    d["insts"] = insts
    # source path mappings: client prefix -> symbol table prefix
    wires = [{}]
    if o.get("maps"):
        wires += [{"/work": ""}, {"/home/me/dir": "dir"}, {"/x": "", "/y": "dir"}, {"/wor": "dir", "/q": "di"}, {"/home/t2.py": "t.py"},
                  {"/work/": "", "/z": "c.p"}]
    d["maps"] = []
    for w in wires:
        m = {"wire": w, "toclient": {}, "todb": {}}
        for f in files:
            m["toclient"][f] = to_client(w, f)
        for f in sorted(client_names(files)):
            m["todb"][f] = to_db(w, f)
        d["maps"].append(m)
    # requests
    locs = []
    for b in bps:
        for l in ([b["file"], b["line"], b["col"]], [b["file"], b["line"], 0]):
            if l not in locs:
                locs.append(l)
    good = len(locs)
    if o.get("maps"):
        for f in sorted(client_names(files)):
            locs.append([f, r.choice(bps)["line"], 0])
        for b in bps:
            for w in wires[1:]:
                l = [to_client(w, b["file"]), b["line"], b["col"]]
                if l not in locs:
                    locs.append(l)
        good = len(locs)
    locs += [["t.py", 99, 0], ["nofile.py", 1, 0], [bps[0]["file"], bps[0]["line"], 77]]
    d["locs"] = [{"file": f, "line": l, "col": c} for f, l, c in locs]
    d["maxent"] = o.get("maxent", 16)
    nsid = [-1, -1, -1, 0] if nns == 1 else [-1, 0, 0, 1, 1]
    anames = [s for i in insts for s in i["own"]]
    d["pool"] = {
        "map": list(range(1, len(wires) + 1)), "nbad": o.get("nbad", 12),
        "opt": o.get("opts", ["single_thread_mode", "use_hex_str", "pause_at_posedge", "use_signal_cache", "detach_after_disconnect",
                              "log_enabled", "perf_count", "nosuch"]),
        "loc": [k + 1 for k in range(good)] * 4 + [good + 1, good + 2, good + 3],
        "uc": [0] * o.get("ucnone", 8) + list(range(1, nok + 1)) + [nok + 1 + r.randrange(5)],
        "bp": [b["id"] for b in bps] * 3 + [99], "xbp": [-1] * len(bps) + [b["id"] for b in bps] * 2 + [99],
        "xinst": [-1] * len(insts) * 2 + [i["id"] for i in insts] + [99], "ns": nsid + [7] if r.random() < .5 else nsid,
        "ans": list(range(1, nns + 1)) * 3 + [0], "val": list(range(0, max(4, min(hi, 64)))),
        "name": (anames + ["v" + s for s in set(anames)] + ["g" + s for s in set(anames)] + ["top." + s for s in insts[0]["own"]]
                 + list(d["full"]) + ["nosuch", "k", "str", "lost", "K", "top.c0.x", "c0.x"]),
        "assign": [{"var": a["var"], "bp": a["bp"]} for a in ass] * 3 + [{"var": "nosuch", "bp": bps[0]["id"]}, {"var": "da", "bp": 98}],
    }
    for i in insts:
        del i["own"]
    return d


def client_names(files):
    r = set(files)
    for f in files:
        r |= {"/work/" + f, "/home/me/dir/" + f, "/x/" + f, "/y/" + f, "/y/" + f.replace("dir/", "")}
        r.add("/home/me/dir/" + f.replace("dir/", ""))
    return r | {"/wor/u.py", "/q/u.py", "/home/t2.py"}


def _join(a, b):
    return b if not a else a.rstrip("/") + "/" + b


def under(f, p):
    return f.startswith(p) and (p == "" or p.endswith("/") or f == p or f[len(p)] == "/")


def translate(pairs, f):
    for p, q in pairs:
        if under(f, p):
            return q if f == p else _join(q, f[len(p):].lstrip("/"))
    return f


def to_db(w, f):
    return translate([(c, w[c]) for c in sorted(w)], f)


def to_client(w, f):
    return translate([(w[c], c) for c in sorted(w)], f)


def wide(r, o):
    """one statement in more than 32 instances, so that it is evaluated in two threads"""
    n = o.get("n", 36)
    d = make(r, dict(o, nns=1, nchild=0, ntop=1, maxent=16, delay=0, pdata=0))
    names = [TOP] + ["%s.c%d" % (TOP, k) for k in range(n)]
    bps, insts, sigs = [], [{"id": 0, "name": TOP, "gen": []}], {"top.a": 8}
    trig = ["x"] if r.random() < .5 else []
    for k in range(n):
        insts.append({"id": k + 1, "name": names[k + 1], "gen": []})
        sigs[names[k + 1] + ".x"] = 8
        bps.append(dict(id=k, i=k + 2, file="c.py", line=3, col=0, cond=["==", ["v", "x"], ["n", 1]], ctext="(x) == (1)", trig=list(trig),
                        ctx=[{"name": "vx", "value": "x", "rtl": True, "num": -1, "delay": 0}]))
    d.update(bps=bps, insts=insts, width=sigs, files=["c.py"], assign=[], grp={s: 0 for s in sigs}, ngrp=1, maxent=n + 2)
    d["full"] = {d["tops"][0] + s[len(TOP):]: [1, s] for s in sigs}
    d["stims"] = list(sigs)
    d["stim"] = [[{s: int(r.random() < .5) for s in sigs}] for _ in range(4)]
    d["conds"] = [{"ast": ["==", ["v", "vx"], ["n", 1]], "text": "vx == 1"}, {"ast": [">", ["v", "$instance"], ["n", 20]], "text": "$instance > 20"}]
    d["locs"] = [{"file": "c.py", "line": 3, "col": 0}]
    d["maps"] = [{"wire": {}, "toclient": {"c.py": "c.py"}, "todb": {"c.py": "c.py"}}]
    d["pool"].update(loc=[1], uc=[0, 1, 2], bp=list(range(n)), xbp=[-1, 0, n - 1], xinst=[-1, 1, n], name=["top.a", "top.c3.x", "top.c35.x"],
                     val=[0, 1], assign=[{"var": "nosuch", "bp": 0}], map=[1], ns=[-1], ans=[0])
    return d


def concrete(d):
    """for the harness"""
    mods = [{"name": "tb", "def": "tb"}]
    parents = {"tb"}
    for t in d["tops"]:
        p = t.split(".")
        for k in range(2, len(p)):
            n = ".".join(p[:k])
            if n not in parents:
                parents.add(n)
                mods.append({"name": n, "def": "wrap"})
        for i in sorted(d["insts"], key=lambda i: i["name"]):
            mods.append({"name": t + i["name"][len(TOP):], "def": TOP if i["name"] == TOP else "child"})
    sg = [{"name": d["tops"][ns - 1] + s[len(TOP):], "width": d["width"][s]} for (ns, s) in d["full"].values()]
    clk, up = d.get("clock", "table"), d["tops"][0].rsplit(".", 1)[0]
    ann, clocks = {"table": (["top.clk"], [d["tops"][0] + ".clk"]), "two": (["top.ck1", "top.clk"], [d["tops"][0] + ".ck1", d["tops"][0] + ".clk"]),
                   "root": (["$root.%s.ck" % up], [up + ".ck"]), "own": ([], [d["tops"][0] + ".clock"]), "up": ([], [up + ".CLK"])}[clk]
    for t in d["tops"]:
        sg.append({"name": t + ".clk", "width": 8 if clk in ("own", "up") else 1})
    sn = [(ns, s) for ns in range(d["nns"]) for s in d["stims"]]
    return {
        "sim": {"product": {"mock": "RTLMock", "vcs": "Chronologic Simulation VCS Release", "verilator": "Verilator"}[d["kind"]], "modules": mods, "signals": sg, "clocks": clocks, "rewind": d["rewind"],
                "stim_names": [d["tops"][ns] + s[len(TOP):] for ns, s in sn],
                "stim": [[row[ns][s] for ns, s in sn] for row in d["stim"]]},
        "late": d["late"],
        "db": {"bps": [{"id": b["id"], "inst": d["insts"][b["i"] - 1]["id"], "file": b["file"], "line": b["line"], "col": b["col"],
                        "cond": "" if b["ctext"] == "1" else b["ctext"], "trig": " ".join(b["trig"]),
                        "ctx": [{"name": c["name"], "value": c["value"], "rtl": c["rtl"], "type": 1 if c["delay"] else 0,
                                 "depth": c["delay"] or 1} for c in b["ctx"]]} for b in d["bps"]],
               "insts": d["insts"], "ann": {"clock": ann},
               "assign": [{"var": a["var"], "bp": a["bp"],
                           "res": [[x["bp"], x["var"], d["conds"][x["cond"] - 1]["text"] if x["cond"] else ""] for x in a["res"]]}
                          for a in d["assign"]]},
    }
