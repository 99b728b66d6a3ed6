"""Common machinery: building, running TLC, replaying behaviours, reporting."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
NPROC = int(os.environ.get("VERIF_PROCS", "8"))


class Machinery(Exception):
    """the check itself failed; no verdict"""


_tmp = None


def tmp():
    global _tmp
    if _tmp is None:
        base = os.path.join(VERIF, "build", "tmp")
        os.makedirs(base, exist_ok=True)
        _tmp = tempfile.mkdtemp(prefix="run%d_" % os.getpid(), dir=base)
    return _tmp


def cleanup():
    if _tmp:
        shutil.rmtree(_tmp, ignore_errors=True)


def build(targets, sub="main", args=()):
    """builds harness programs from the current tree of /repo"""
    d = os.path.join(VERIF, "build", os.environ.get("VERIF_BUILD", "") + sub)
    p = subprocess.run(["bash", os.path.join(VERIF, "lib", "build.sh"), d, *args, "--", *targets],
                       capture_output=True, text=True)
    if p.returncode != 0:
        raise Machinery("build failed:\n" + p.stdout[-3000:] + p.stderr[-3000:])
    return d


def tlc(module, cfg, env=None, args=(), mem="2g", timeout=600, workers="1", sub=None):
    """runs TLC in a scratch directory; returns (rc, output)"""
    d = tempfile.mkdtemp(prefix="tlc_", dir=tmp())
    e = dict(os.environ)
    e.update(env or {})
    cp = os.pathsep.join([JAR, "/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/veriftools/tla/CommunityModules.jar"])
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + mem, "-Xss16m", "-Djava.io.tmpdir=" + d, "-Dtlc2.TLC.stopAfter=%d" % timeout,
           "-cp", CP, "tlc2.TLC", "-workers", workers, "-metadir", d, "-noGenerateSpecTE", "-config", cfg, *args, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out: %s" % module)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr


def _cp():
    j = os.path.dirname(JAR)
    out = []
    for root, _, fs in os.walk(j):
        out += [os.path.join(root, f) for f in sorted(fs) if f.endswith(".jar")]
    return os.pathsep.join([JAR] + [x for x in out if x != JAR])


CP = _cp()


def par(f, items, n=NPROC):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, items))


def run_sessions(exe, designs, traces, port0=12000, nproc=NPROC, env=None, timeout=800, wrap=()):
    """traces: list of {"id","design","steps"}; returns {id: result}"""
    head = json.dumps({"designs": designs}) + "\n"
    n = max(1, min(nproc, len(traces)))
    parts = [traces[k::n] for k in range(n)]

    def one(k):
        inp = head + "".join(json.dumps(t) + "\n" for t in parts[k])
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run([*wrap, exe, str(port0 + k * 2000), "1500"], input=inp, capture_output=True, text=True, env=e, timeout=timeout)
        if p.returncode != 0:
            raise Machinery("session runner failed: rc %d %s" % (p.returncode, p.stderr[-2000:]))
        return [json.loads(l) for l in p.stdout.splitlines() if l.strip()]

    res = {}
    for out in par(one, range(n), n):
        for r in out:
            res[r["id"]] = r
    missing = [t["id"] for t in traces if t["id"] not in res]
    if missing:
        raise Machinery("no result for %d traces" % len(missing))
    return res
