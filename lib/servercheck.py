"""Who receives what (spec/Server.tla), replayed into the real DebugServer."""
import json
import os
import re

from vlib import NPROC, Machinery, build, par, run_sessions, tlc, tmp

SIZES = {"quick": 1600, "thorough": 16000}


def behaviours(ctx, num, r):
    def go(k, cfg, args):
        out = os.path.join(tmp(), "server_out%d" % k)
        rc, txt = tlc("Server", cfg, {"OUT": out}, args)
        if rc != 0 or "Error:" in txt:
            raise Machinery("TLC (Server) failed, rc %d:\n%s" % (rc, txt[max(0, txt.find("Error:")):][:2000]))
        m = re.search(r"(\d+) states generated, (\d+) distinct", txt) or re.search(r"number of states generated: (\d+)", txt)
        with open(out) as f:
            ls = [json.loads(l)["log"] for l in f if l.strip()]
        os.remove(out)
        return ls, [int(x) for x in m.groups()]

    full, st = go(0, "Server.cfg", [])
    ctx.extra["server_states"] = st[1]
    ctx.exhaustive.append("Server.tla: all %d states of 3 clients and 2 topics" % st[1])
    per = (num + NPROC - 1) // NPROC
    rs = par(lambda k: go(k + 1, "ServerSim.cfg", ["-simulate", "num=%d" % per, "-depth", "40", "-seed", str(r.randrange(1 << 30) + k), "-aril", "0"]), range(NPROC))
    ctx.states += st[1] + sum(x[1][0] for x in rs)
    return full, [l for x in rs for l in x[0]]


def interleaving(got, threads):
    """got: the messages of all threads, those of each in their order"""
    at = [0] * len(threads)
    for m in got:
        for i, t in enumerate(threads):
            if at[i] < len(t) and t[at[i]] == m:
                at[i] += 1
                break
        else:
            return False
    return at == [len(t) for t in threads]


def compare(log, res):
    obs = res["obs"]
    for n, e in enumerate(log + [{"a": {"k": "stop"}}]):
        a = e["a"]
        if n >= len(obs):
            return n, "the process %s" % res["end"], a, res.get("stderr", "")
        o = obs[n]
        if o.get("connect", "ok") != "ok":
            return n, "connecting: " + o["connect"], a, ""
        if a["k"] == "stop":
            if "open" in o:
                return n, "stopped but a connection is open", a, o["open"]
            break
        for c in (1, 2, 3):
            got = o["msgs"].get(str(c), [])
            if a["k"] == "close" and c == a["c"]:
                continue
            if a["k"] == "burst":
                if c in (a["leave"], a["join"]):
                    continue
                if not interleaving(got, e["out"][c - 1]):
                    return n, "messages of a burst at client %d" % c, e["out"][c - 1], got
            elif got != e["out"][c - 1]:
                return n, "messages at client %d" % c, e["out"][c - 1], got
        if set(o["gone"]) & set(e["cl"]):
            return n, "connection closed by the server", [], o["gone"]
        if o["left"] != e["left"]:
            return n, "all clients gone, calls", e["left"], o["left"]
    if res["end"] != "ok":
        return len(log), "the process %s" % res["end"], "ok", res.get("stderr", "")
    return None


def check(ctx):
    exe = build(["server"]) + "/server"
    r = ctx.rng("server")
    full, rand = behaviours(ctx, SIZES[ctx.tier], r)
    logs = full + rand
    jobs = [{"id": n, "design": 0, "steps": [e["a"] for e in l] + [{"k": "stop"}]} for n, l in enumerate(logs)]
    for j in jobs[len(full)::2]:
        j["slow"] = 1 + j["id"]

    def run(which, env=None):
        res = run_sessions(exe, [{}], [jobs[k] for k in which], env=env)
        return [(k, d) for k in which if res[k]["end"] != "skipped" for d in [compare(logs[k], res[k])] if d]

    bad = run(range(len(jobs)))
    ctx.traces += len(jobs)
    ctx.transitions += sum(len(l) for l in logs)
    if bad:
        again = run([k for k, _ in bad[:8]], {"HANG_MS": "20000"})
        if again:
            k, d = min(again, key=lambda x: x[1][0])
            ctx.violate("server: " + d[1], {"steps": jobs[k]["steps"][:d[0] + 1], "slow": jobs[k].get("slow", 0), "step": d[0], "what": d[1],
                                            "expected": d[2], "observed": d[3], "log": logs[k][:d[0] + 1]})
        ctx.notes.append("%d rejections of server behaviours did not repeat" % len(bad))
