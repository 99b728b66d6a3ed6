"""Waveform replay: logs of the real engine against Replay.tla, and Replay.tla itself."""
import json
import os
import re
import subprocess

from vlib import NPROC, Machinery, build, par, tlc, tmp

LET = "01xz"


def bits(r, w, unknown=.0):
    return [r.choice([2, 3]) if r.random() < unknown else r.randrange(2) for _ in range(w)]


def short(r, v):
    """the same value with leading bits left out"""
    while len(v) > 1 and (v[0] == 0 and v[1] < 2):
        v = v[1:]
    return v


def wave(r):
    mods = [["top"]]
    for _ in range(r.randrange(4)):
        m = r.choice(mods) + [r.choice(["u", "v", "inst", "dut"])]
        if m not in mods:
            mods.append(m)
    sigs, names = [], []
    end = r.choice([8, 16, 30])
    base = r.choice([0, 0, 0, 1000, 2147483640, 4294967290, 3 << 40])
    nclk = r.choice([1, 1, 2, 3])
    style = r.random()
    for k in range(nclk + r.randrange(1, 6)):
        m = r.choice(mods)
        clk = k < nclk
        n = ["clk", "clk2", "c"][k] if clk else r.choice(["a", "b", "data", "x_y", "st", "res[0]", "res[1]"])
        if any(x == (m, n) for x in names):
            continue
        w = 1 if clk else r.choice([1, 1, 2, 4, 5, 8, 13, 16, 31, 32, 33, 40, 64, 65, 100])
        dims = []
        if not clk and r.random() < .45 and "[" not in n:
            dims = [r.randrange(2, 5)]
            if r.random() < .4:
                dims.append(r.randrange(2, 4))
            ew = r.choice([1, 2, 3, 4, 8, 16, 33])
            w = ew
            for x in dims:
                w *= x
        ch = []
        if clk:
            v = r.choice([0, 1])
            if r.random() < .9:
                ch.append([0, [r.choice([v, v, v, 2])]])
            t = r.randrange(1, 4)
            p = [r.randrange(1, 4), r.randrange(1, 4)] if style < .75 else None
            while t <= end:
                nv = [1 - v]
                if ch and ch[-1][1] == nv:
                    pass
                else:
                    ch.append([t, nv])
                v = 1 - v
                t += p[v] if p else r.randrange(1, 5)
        else:
            ts = sorted(r.sample(range(1, end + 1), r.randrange(end // 2 + 1)))
            if r.random() < .8:
                ts = [0] + ts
            unk = r.choice([0, 0, .02, .3])
            brief = r.random() < .5
            for t in ts:
                v = bits(r, w, unk if t or r.random() < .5 else .9)
                if brief:
                    if r.random() < .5:
                        v = [0] * (w - min(w, r.randrange(1, 6))) + v[-min(w, r.randrange(1, 6)):]
                        v = [0] * (w - len(v)) + v[-w:]
                    v = short(r, v)
                if not ch or ch[-1][1] != v:
                    ch.append([t, v])
        names.append((m, n))
        sigs.append({"w": w, "ch": ch, "dims": dims, "mod": m, "n": n, "clk": clk})
    # the signals first, in order
    refs, arrays = [{"sig": k + 1, "lo": 0, "w": s["w"], "text": ".".join(s["mod"] + [s["n"]])} for k, s in enumerate(sigs)], []
    for k, s in enumerate(sigs):
        full = refs[k]["text"]
        if s["dims"]:
            d = s["dims"]
            ew = s["w"]
            for x in d:
                ew //= x
            for i in range(d[0]):
                if len(d) == 1:
                    refs.append({"sig": k + 1, "lo": i * ew, "w": ew, "text": full + "[%d]" % i})
                    arrays.append(refs[-1]["text"])
                else:
                    for q in range(d[1]):
                        refs.append({"sig": k + 1, "lo": (i * d[1] + q) * ew, "w": ew, "text": full + "[%d][%d]" % (i, q)})
                        arrays.append(refs[-1]["text"])
    for n in ("top.nosuch", "nosuch", "top.a.b.c"):
        if all(x["text"] != n for x in refs):
            refs.append({"sig": 0, "lo": 0, "w": 1, "text": n})
    r.shuffle(arrays)
    return {"real": False, "mods": mods, "sigs": sigs, "refs": refs, "arrays": arrays, "base": base, "end": end,
            "start": r.choice([0, 0, 0, 1, end // 2, end, end + 3]), "sizes": True}


def vcd(r, w):
    out = []
    for k in r.sample(["date", "version", "timescale", "comment"], r.randrange(5)):
        out.append("$%s\n  %s\n$end" % (k, r.choice(["some text", "1ns", "a b c"])) if r.random() < .5 else "$%s 1ps $end" % k)
    codes = [chr(33 + k) for k in range(90) if chr(33 + k) != "$"]
    r.shuffle(codes)
    if r.random() < .3:
        codes = [a + b for a in codes[:8] for b in codes[8:16]]
    ids = {k: codes[k] for k in range(len(w["sigs"]))}

    real = "0r" if r.random() < .3 else ""

    def scope(m, ind):
        pad = " " * ind if r.random() < .8 else "\t"
        out.append("%s$scope %s %s $end" % (pad, r.choice(["module", "module", "begin"]) if ind else "module", m[-1]))
        items = [("s", k) for k, s in enumerate(w["sigs"]) if s["mod"] == m] + [("m", x) for x in w["mods"] if x[:-1] == m]
        r.shuffle(items)
        if real and not ind:
            out.append("$var real 64 %s unwatched $end" % real)
        for t, x in items:
            if t == "m":
                scope(x, ind + 1)
            else:
                s = w["sigs"][x]
                rng = " [%d:0]" % (s["w"] - 1) if s["w"] > 1 and r.random() < .7 else ""
                out.append("%s $var %s %d %s %s%s $end" % (pad, r.choice(["wire", "reg"]), s["w"], ids[x], s["n"], rng))
        out.append(pad + "$upscope $end")
    w["real"] = bool(real)
    scope(["top"], 0)
    out.append("$enddefinitions $end")

    upper = r.random() < .2

    def entry(k, v):
        s = w["sigs"][k]
        x = "".join(LET[b] for b in v)
        if upper:
            x = x.upper()
        if s["w"] == 1 and r.random() < .9:
            return x + ids[k]
        return "%s%s %s" % ("B" if upper else "b", x, ids[k])
    ev = {}
    for k, s in enumerate(w["sigs"]):
        for t, v in s["ch"]:
            ev.setdefault(t, []).append((k, v))
    block = r.random() < .6
    for t in sorted(ev):
        es = ev[t]
        r.shuffle(es)
        if not (t == 0 and block and r.random() < .3):
            out.append("#%d" % (t + w["base"] if t else 0))
        if t == 0 and block:
            out.append("$dumpvars")
        out += [entry(k, v) for k, v in es]
        if real and r.random() < .3:
            out.append("r%g %s" % (r.random() * 10, real))
        if r.random() < .03 and not (t == 0 and block):
            out.append("$comment 1%s 0%s b1 %s $end" % (ids[0], ids[0], ids[0]))
        if t == 0 and block:
            out.append("$end")
        elif r.random() < .05 and t:
            # everything once more
            out.append(r.choice(["$dumpall", "$dumpon"]))
            for k, s in enumerate(w["sigs"]):
                now = [v for tt, v in s["ch"] if tt <= t]
                if now:
                    out.append(entry(k, now[-1]))
            out.append("$end")
    if r.random() < .3:
        out.append("#%d" % (w["end"] + 5 + w["base"]))
    return "\n".join(out) + ("\n" if r.random() < .8 else "")


def script(r, w):
    """what is done inside the callbacks"""
    clks = [k + 1 for k, s in enumerate(w["sigs"]) if s["clk"]]
    narrow = [k + 1 for k, s in enumerate(w["sigs"]) if s["w"] <= 31 and not s["dims"]]
    multi = r.random() < .45     # several callbacks for the same signal, then no rewinding
    refs = len(w["refs"])
    reads = lambda p: [{"e": "read", "r": r.randrange(refs) + 1} for _ in range(8) if r.random() < p]
    begin = reads(.3) + [{"e": "time"}]
    watch = []
    nc = 0
    for s in r.sample(clks, r.randrange(1, len(clks) + 1)) + ([r.choice(narrow)] if r.random() < .4 else []):
        if multi or s not in watch:
            begin.append({"e": "reg", "s": s})
            watch.append(s)
            nc += 1
    if multi and r.random() < .5:
        begin.append({"e": "reg", "s": r.choice(watch)})
        nc += 1
    # with more than one signal to watch, only back in time
    one = len(watch) == 1
    scripts = []
    budget = r.choice([0, 1, 3, 6])
    t = 0
    for _ in range(60):
        a = reads(.35)
        if r.random() < .3:
            a.append({"e": "time"})
        if not multi and budget and r.random() < .25:
            budget -= 1
            for _ in range(r.choice([1, 1, 2, 3])):
                t = r.randrange(w["end"] + 3)
                a.append({"e": "rewind", "t": t, "clks": r.sample(clks, r.randrange(1, len(clks) + 1)), "back": not one})
                a += reads(.3) + [{"e": "time"}]
        if multi and r.random() < .15:
            a.append({"e": "rem", "cb": r.randrange(1, nc + 1)})
        if multi and r.random() < .15 and nc < 8:
            a.append({"e": "reg", "s": r.choice(clks + narrow[:2])})
            nc += 1
        if r.random() < .01:
            a.append({"e": "stop"})
        r.shuffle(a) if r.random() < .3 and not any(x["e"] == "rewind" for x in a) else None
        scripts.append(a)
    return begin, scripts


def names_of(w):
    return sorted([".".join(m), sorted([s["n"], s["w"]] for s in w["sigs"] + ([{"n": "unwatched", "w": 64, "mod": ["top"]}] if w["real"] else []) if s["mod"] == m)]
                  for m in w["mods"])


def batch(ctx, exe, r, k, num, timeout):
    ws, inp = [], []
    for _ in range(num):
        w = wave(r)
        ws.append(w)
        b, s = script(r, w)
        inp.append({"vcd": vcd(r, w), "refs": [x["text"] for x in w["refs"]], "arrays": w["arrays"], "start": w["start"],
                    "base": w["base"], "list": r.choice(["", "", "before", "after"]), "begin": b, "scripts": s})
    outs = []
    at = 0
    while at < len(inp):
        p = subprocess.run([exe], input="".join(json.dumps(x) + "\n" for x in inp[at:]), capture_output=True, text=True, timeout=timeout)
        got = [json.loads(x) for x in p.stdout.splitlines()]
        outs += got
        at += len(got)
        if at < len(inp):
            outs.append({"died": True, "why": p.stderr[-300:], "rc": p.returncode})
            at += 1
    bad = []
    logs = []
    events = 0
    for n, o in enumerate(outs):
        if "died" in o:
            bad.append(("the process ended (%s)" % o["rc"], n, 0))
            continue
        if not o["parsed"]:
            bad.append(("the recording is rejected", n, 0))
        if "names" in o:
            got = sorted([x["name"], sorted([y["n"], y["w"]] for y in x["sigs"])] for x in o["names"])
            if got != names_of(ws[n]) or not all(x["module"] and x["same"] and all(y["net"] and y["same"] for y in x["sigs"]) for x in o["names"]):
                bad.append(("the hierarchy is %s" % o["names"], n, 0))
        logs.append({"w": n + 1, "log": o["log"]})
        events += len(o["log"])
    jf = os.path.join(tmp(), "replay%d.json" % k)
    with open(jf, "w") as f:
        json.dump({"waves": [{x: w[x] for x in ("sigs", "refs", "start", "sizes")} for w in ws], "logs": logs}, f)
    rc, out = tlc("ReplayTrace.tla", "ReplayTrace.cfg", env={"JOB": jf}, mem="3g", timeout=timeout)
    if rc != 0 or "No error has been found" not in out:
        raise Machinery("TLC on ReplayTrace: rc %d %s" % (rc, out[-2500:]))
    for m in re.finditer(r'<<"STUCK", (\d+), (\d+)>>', out):
        j, i = int(m.group(1)), int(m.group(2))
        l = logs[j - 1]
        bad.append(("event %d cannot happen: %s" % (i, l["log"][i - 1] if i <= len(l["log"]) else "the end"), l["w"] - 1, i))
    st = re.search(r"(\d+) distinct states found", out.replace(",", ""))
    return len(inp), events, int(st.group(1)) if st else 0, [(w, ws[n], inp[n], outs[n].get("log", [])[:i], i) for w, n, i in bad], [o.get("log", [])[:10] for o in outs[:1]]


def check(ctx):
    exe = build(["replay"]) + "/replay"
    q = ctx.quick()
    js = [(ctx.rng("replay%d" % k), k, 60 if q else 600) for k in range(16 if q else 48)]
    res = par(lambda j: batch(ctx, exe, *j, 400 if q else 1500), js, NPROC)
    for n, ev, st, bad, smp in res:
        ctx.traces += n
        ctx.transitions += ev
        ctx.states += st
        for s in smp:
            ctx.sample(s)
    for n, ev, st, bad, smp in res:
        if bad:
            w, wv, inp, log, i = min(bad, key=lambda b: b[4])
            ctx.violate("replay: " + w[:300], {"what": w, "input": inp, "log": log})
    rc, out = tlc("ReplayMC.tla", "ReplayMC.cfg", env={} if q else {"DEEP": "1"}, mem="6g", timeout=600 if q else 3000, workers="4" if q else "8")
    if "Model checking completed. No error has been found." not in out:
        raise Machinery("ReplayMC: " + out[-1500:])
