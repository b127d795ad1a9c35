#!/usr/bin/env python3
"""Run one property's check:  run.py C01 [--replay FILE]

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Anything else is an error of this machinery and never a verdict.

The parent (no project code in it) makes a scratch folder that holds the numba
cache and every file a case writes, runs one warm-up worker that imports the
package from the working tree and compiles it, then the shards, and merges
what they report.
"""
import argparse
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
HANG = float(os.environ.get("VERIF_HANG", "240"))  # s without progress in one case


def env_for(scratch):
    env = dict(os.environ)
    env.update(
        NUMBA_CACHE_DIR=os.path.join(scratch, "nb"),
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        MPLBACKEND="Agg",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        NUMBA_NUM_THREADS="2",
        TMPDIR=os.path.join(scratch, "tmp"),
        HOME=os.path.join(scratch, "home"),
        PYTHONPATH=HERE,
        PYTHONWARNINGS="ignore",
        PYTHONFAULTHANDLER="1",
        VERIF_SCRATCH=scratch,
    )
    for k in ("NUMBA_DISABLE_JIT",):
        env.pop(k, None)
    return env


class Worker:
    def __init__(self, args, scratch, tag):
        self.tag = tag
        self.dir = os.path.join(scratch, tag)
        os.makedirs(self.dir)
        self.log = open(os.path.join(self.dir, "log"), "w")
        self.p = subprocess.Popen(
            [PY, "-m", "vlib.worker", "--dir", self.dir] + args,
            cwd=self.dir,
            env=env_for(scratch),
            stdout=self.log,
            stderr=subprocess.STDOUT,
            start_new_session=True,
        )
        self.rc = None
        self.hung = False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def poll(self):
        if self.rc is not None:
            return True
        rc = self.p.poll()
        if rc is not None:
            self.rc = rc
            self.kill()  # stray children
            return True
        cur = os.path.join(self.dir, "current.json")
        try:
            if time.time() - os.stat(cur).st_mtime > HANG:
                self.hung = True
                self.kill()
                self.p.wait()
                self.rc = -9
                return True
        except OSError:
            pass
        return False

    def result(self):
        f = os.path.join(self.dir, "result.json")
        if os.path.exists(f):
            with open(f) as h:
                return json.load(h)
        return None

    def current(self):
        f = os.path.join(self.dir, "current.json")
        if os.path.exists(f):
            try:
                with open(f) as h:
                    return json.load(h)
            except ValueError:
                return None
        return None

    def tail(self, n=4000):
        with open(os.path.join(self.dir, "log")) as h:
            s = h.read()
        i = s.find("Fatal Python error")
        if i >= 0:
            return s[max(0, i - 500) : i + n]
        return s[-n:]


def run_all(workers, deadline):
    while True:
        done = [w.poll() for w in workers]
        if all(done):
            return
        if time.time() > deadline:
            for w in workers:
                if w.rc is None:
                    w.kill()
                    w.p.wait()
                    w.rc = -99
            return
        time.sleep(0.05)


CRASH = (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGABRT, -signal.SIGILL)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--parts", default="")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE", "1")))
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % a.prop)
    for d in ("nb", "tmp", "home"):
        os.makedirs(os.path.join(scratch, d))
    code = 2
    try:
        code = drive(a, scratch, t0)
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


_errs = []


def err(msg):
    if not _errs:
        print("CHECK-ERROR: " + msg[-3000:])
    _errs.append(msg)


def replay_path(prop):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s.json" % prop)


def again(base, c, scratch, tag, limit):
    """Does the case break a process of its own? Crashes that do not come back (out of
    memory, a machine that was suspended) are no statement about the property."""
    f = os.path.join(scratch, tag + "_case.json")
    with open(f, "w") as h:
        json.dump(c, h)
    for i in range(2):
        w = Worker(base + ["--replay", f], scratch, "%s_again%d" % (tag, i))
        run_all([w], min(limit, time.time() + HANG + 60))
        r = w.result()
        if r and r.get("violation"):
            return r["violation"]["message"]
        if w.rc in CRASH or w.hung:
            return "it did so again"
    return None


def drive(a, scratch, t0):
    base = ["--prop", a.prop, "--tier", a.tier, "--seed", str(a.seed), "--scale", str(a.scale)]
    if a.parts:
        base += ["--parts", a.parts]
    limit = t0 + (820 if a.tier == "quick" else 24 * 3600)
    if a.replay:
        w = Worker(base + ["--replay", os.path.abspath(a.replay)], scratch, "replay")
        run_all([w], limit)
        print(w.tail())
        r = w.result()
        if r and r.get("violation"):
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        return 0 if (r and w.rc == 0) else 2

    viol = []
    lost = []
    workers = []
    warm = Worker(base + ["--warm"], scratch, "warm")
    run_all([warm], limit)
    wr = warm.result()
    if wr is None or warm.rc != 0:
        # the package cannot even be imported or warmed up
        c = warm.current()
        if wr is None and (warm.rc in CRASH or warm.hung) and c:
            viol.append(dict(c, message="the process crashed or hung (rc %s)" % warm.rc))
        else:
            err("warm-up failed (rc %s)\n%s" % (warm.rc, warm.tail()))
            return 2
    elif wr.get("violation"):
        viol.append(wr["violation"])
    results = [wr] if wr else []
    if not viol:
        workers = [
            Worker(base + ["--shard", str(i), "--of", str(NPROC)], scratch, "shard%d" % i)
            for i in range(NPROC)
        ]
        run_all(workers, limit)
        for w in workers:
            r = w.result()
            if r is None:
                c = w.current()
                if (w.rc in CRASH or w.hung) and c:
                    how = "hung" if w.hung else "crashed (signal %d)" % -w.rc
                    print("%s %s, trying the case again\n%s" % (w.tag, how, w.tail(3000)))
                    v = again(base, c, scratch, w.tag, limit)
                    if v:
                        viol.append(dict(c, message="the case %s the process; again: %s" % (how, v)))
                    else:
                        lost.append("%s %s in a case that holds on its own" % (w.tag, how))
                    continue
                if w.rc == -99:
                    err("shard %s ran out of time" % w.tag)
                else:
                    err("shard %s ended with %s\n%s" % (w.tag, w.rc, w.tail()))
                if not viol:
                    # other shards may still have a verdict
                    results.append(None)
                continue
            results.append(r)
            if r.get("violation"):
                viol.append(r["violation"])
            if r.get("error"):
                err("%s: %s" % (w.tag, r["error"]))
                results.append(None)
    broken = any(r is None for r in results)
    results = [r for r in results if r]
    # merge
    ev = nontriv = 0
    labels, samples, known = {}, [], {}
    digests = set()
    parts = {}
    rule = []
    assumptions = []
    for r in results:
        rule = r.get("rule") or rule
        assumptions = r.get("assumptions") or assumptions
        for k in r.get("known", []):
            known[k["id"]] = k
        for pn, d in r.get("parts", {}).items():
            ev += d["evaluations"]
            digests.update(pn + ":" + x for x in d["nontrivial"])
            q = parts.setdefault(pn, {"evaluations": 0, "nontrivial": 0, "skipped": 0})
            q["evaluations"] += d["evaluations"]
            q["skipped"] += d["skipped"]
            for k, v in d["labels"].items():
                labels[pn + "." + k] = labels.get(pn + "." + k, 0) + v
            for s in d["samples"]:
                if sum(1 for z in samples if z["part"] == pn) < 2:
                    samples.append({"part": pn, "case": s})
    for dg in digests:
        parts[dg.split(":")[0]]["nontrivial"] += 1
    nontriv = len(digests)
    out = {
        "property": a.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": nontriv,
            "rule": "; ".join(rule) if rule else "",
            "samples": samples,
            "parts": parts,
            "labels": dict(sorted(labels.items())),
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
        "lost": lost,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", "%s.json" % a.prop), "w") as f:
        json.dump(out, f, indent=1)
    for k in known.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    print(
        "%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs"
        % (a.prop, a.tier, a.seed, ev, nontriv, time.time() - t0)
    )
    for pn, q in parts.items():
        print("  %-22s %s" % (pn, q))
    if viol:
        v = min(viol, key=lambda x: len(json.dumps(x.get("case"))))
        p = replay_path(a.prop)
        with open(p, "w") as f:
            json.dump(v, f, indent=1)
        print("part %s: %s" % (v.get("part"), v.get("message")))
        print("VIOLATION property=%s replay=%s" % (a.prop, p))
        return 1
    if broken:
        return 2
    if ev == 0 or nontriv == 0:
        err("no case was explored")
        return 2
    return 0


if __name__ == "__main__":
    main()
