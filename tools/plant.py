#!/usr/bin/env python3
"""Tries a planted bug without touching /repo: a copy of /repo with the patch is mounted over /repo in a private mount namespace.
plant.py try PATCH [CHECK...]      builds, runs the stable tests and the checks
plant.py demo DIR                  runs DIR/demo.sh on the unchanged and on the changed tree
"""
import json
import os
import subprocess
import sys

WT = os.environ.get("PLANT_WT", "/tmp/wt")
BUILD = os.environ.get("PLANT_BUILD", "plant")


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, **kw)


def prepare(patch):
    subprocess.run(["rm", "-rf", WT], check=True)
    subprocess.run(["cp", "-a", "/repo", WT], check=True)
    p = sh("git -C %s apply %s" % (WT, patch))
    if p.returncode:
        sys.exit("patch does not apply: " + p.stderr)
    # a file that is no longer changed must count as new for the build directory that is used again
    mem = "/tmp/plant_touched"
    old = set(open(mem).read().split()) if os.path.exists(mem) else set()
    old |= set(sh("git -C %s diff --name-only" % WT).stdout.split())
    open(mem, "w").write("\n".join(sorted(old)))
    for f in old:
        sh("touch %s/%s" % (WT, f))
    p = inside("bash /opt/vp/build.sh >/tmp/plant_build.log 2>&1 && bash /opt/vp/test.sh /tmp/plant_test.json >/tmp/plant_test.log 2>&1; echo rc $?")
    if not os.path.exists("/tmp/plant_test.json"):
        sys.exit("build failed: " + open("/tmp/plant_build.log").read()[-1500:])
    t = json.load(open("/tmp/plant_test.json"))
    os.remove("/tmp/plant_test.json")
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else set()
    print("tests: %d passed, failed: %s" % (len(t["passed"]), t["failed"]), "missing:", sorted(base - set(t["passed"]))[:5])


def inside(cmd, cwd="/repo"):
    return sh("unshare -m bash -c 'mount --bind %s /repo && cd %s && %s'" % (WT, cwd, cmd), env=dict(os.environ, VERIF_BUILD=BUILD))


if sys.argv[1] == "try":
    prepare(os.path.abspath(sys.argv[2]))
    for c in sys.argv[3:]:
        p = inside("python3 /verif/check.py %s" % c, "/verif")
        print(c, "rc", p.returncode, "|", " ".join(p.stdout.strip().splitlines()[-2:])[:300], p.stderr[-300:])
else:
    d = os.path.abspath(sys.argv[2])
    prepare(os.path.join(d, "patch.diff"))
    a = sh("bash %s/demo.sh" % d, cwd="/repo")
    b = inside("bash %s/demo.sh" % d)
    print("unchanged:", a.returncode, a.stdout[-200:], a.stderr[-300:], "| changed:", b.returncode, b.stdout[-300:])
    sys.exit(0 if a.returncode == 0 and b.returncode not in (0,) else 1)
