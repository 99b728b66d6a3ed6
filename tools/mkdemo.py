#!/usr/bin/env python3
"""mkdemo.py KIND REPLAY.json OUTDIR: a self-contained demonstration (demo.sh and what it needs) from the replay file of a check.
The expected output is what the unchanged tree answers."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
kind, rep, out = sys.argv[1:4]
SRC = {"session": ["session.cc", "slow.cc", "vpistub.cc", "mocksim.hh", "memdb.hh", "ws.hh"], "symtab": ["symtab.cc", "vpistub.cc"], "expr": ["expr.cc", "vpistub.cc"],
       "race": ["session.cc", "vpistub.cc", "mocksim.hh", "memdb.hh", "ws.hh", "slow.cc"],
       "replay": ["replay.cc", "vpistub.cc"], "hier": ["hier.cc", "vpistub.cc", "mocksim.hh"]}
DEMO = r'''#!/bin/bash
# builds a small driver against the library in _build, runs one recorded behaviour and compares what is observed
R=$(pwd); H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
INC=""; for h in algorithm functional iomanip map memory optional set sstream string tuple unordered_map unordered_set vector; do INC="$INC -include $h"; done
cd "$H"
clang++-18 -std=c++20 -O0 -w -DFMT_CONSTEVAL= @DEFS@ $INC -I$R/_build/overlay/include -I$R/include -I$R/src -I/usr/share/verilator/include/vltstd \
  @INCDB@ -I. @SRCS@ $R/_build/src/libhgdb.so -Wl,-rpath,$R/_build/src -rdynamic -pthread -ldl -o $T/prog || exit 2
cd "$T"
export SYMTAB_TMP=$T
@ENV@
timeout 200 ./prog @ARGS@ < "$H/input.jsonl" > out.jsonl
python3 "$H/judge.py" out.jsonl "$H/expected.json"
'''
JUDGE = r'''import json, sys
def norm(o):
    if isinstance(o, dict):
        o = {k: norm(v) for k, v in o.items() if k not in ("reason", "stderr", "ops", "cbs", "cyc")}
        if isinstance(o.get("msgs"), dict):
            o["msgs"] = {c: sorted(m, key=lambda x: json.dumps(x, sort_keys=True)) for c, m in o["msgs"].items()}
        return o
    return [norm(x) for x in o] if isinstance(o, list) else o
got = [norm(json.loads(l)) for l in open(sys.argv[1]) if l.strip()]
if len(sys.argv) == 2:
    print(json.dumps(got))
    sys.exit(0)
want = json.load(open(sys.argv[2]))
if got == want:
    print("as expected")
    sys.exit(0)
for g, w in zip(got, want):
    for n, (a, b) in enumerate(zip(g.get("obs", []), w.get("obs", []))):
        if a != b:
            print("step", n, "observed", json.dumps(a)[:1500], "expected", json.dumps(b)[:1500])
            break
    else:
        print("observed", json.dumps(g)[:1500], "expected", json.dumps(w)[:1500])
print("differs")
sys.exit(1)
'''


def norm_run(exe, args, inp, env=None):
    p = subprocess.run([exe, *args], input=inp, capture_output=True, text=True, env=dict(os.environ, **(env or {})))
    open("/tmp/mkdemo_out", "w").write(p.stdout)
    return json.loads(subprocess.run([sys.executable, os.path.join(out, "judge.py"), "/tmp/mkdemo_out"], capture_output=True, text=True).stdout)


def main():
    import designs as dz
    from vlib import build
    d = json.load(open(rep))["data"]
    os.makedirs(out, exist_ok=True)
    for f in SRC[kind]:
        shutil.copy(os.path.join(V, "harness", f), os.path.join(out, f))
    open(os.path.join(out, "judge.py"), "w").write(JUDGE)
    env, args, defs, envs = {}, [], "", ""
    incdb = "-include $R/_build/overlay/src/db.hh"
    if kind in ("session", "race"):
        conc = dz.concrete(d["design"]) if "concrete" not in d else d["concrete"]
        inp = json.dumps({"designs": [conc]}) + "\n" + json.dumps({"id": 0, "design": 0, "steps": d["steps"]}) + "\n"
        args = ["23100", "800"]
        exe = build(["session"]) + "/session"
        if kind == "race":
            steps = d["hasty"][:d["step"] + 3]
            inp = json.dumps({"designs": [conc]}) + "\n" + "".join(json.dumps({"id": n, "design": 0, "steps": steps, "slow": d["slow"] + 977 * n}) + "\n"
                                                                  for n in range(120))
    elif kind == "symtab":
        inp = json.dumps(d["item"] if "item" in d else d) + "\n"
        exe = build(["symtab"]) + "/symtab"
        env = {"WS_PORT": "23950"}
        envs = "export WS_PORT=23950"
    elif kind == "hier":
        inp = "".join(json.dumps(l) + "\n" for l in d["lines"])
        exe = build(["hier"]) + "/hier"
    elif kind == "replay":
        inp = json.dumps(d["input"]) + "\n"
        exe = build(["replay"]) + "/replay"
        defs = "-DHGDB_TOOLS_VCD_DB_HH -I$R/tools/hgdb-replay -I$R/tools/waveform -I$R/tools/vcd -include $R/tools/waveform/waveform.hh"
    else:
        inp = json.dumps({"t": d["text"], "envs": d["envs"], "static": 1}) + "\n"
        exe = build(["expr"]) + "/expr"
    open(os.path.join(out, "input.jsonl"), "w").write(inp)
    a, b = norm_run(exe, args, inp, env), norm_run(exe, args, inp, env)
    if a != b:
        sys.exit("the unchanged tree does not always answer the same")
    json.dump(a, open(os.path.join(out, "expected.json"), "w"))
    s = DEMO
    for k, v in (("DEFS", defs), ("INCDB", incdb),
                 ("SRCS", " ".join([f for f in SRC[kind] if f.endswith(".cc")] + (["$R/tools/hgdb-replay/engine.cc", "$R/tools/hgdb-replay/vpi.cc", "$R/tools/vcd/vcd.cc"] if kind == "replay" else []))), ("ENV", envs), ("ARGS", " ".join(args))):
        s = s.replace("@%s@" % k, v)
    open(os.path.join(out, "demo.sh"), "w").write(s)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    e = a[0].get("end")
    print("demo in", out, "end", e)


main()
