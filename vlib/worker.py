"""One worker process: warm-up, one shard of the search, or a replay."""
import argparse
import glob
import importlib
import json
import os
import sys
import time
import traceback

from . import boot

boot.setup()


class Stop(BaseException):
    """Time is up (not an Exception, so that the engine lets it through)."""


def load(prop):
    return importlib.import_module("checks.%s" % prop)


def classify(e):
    """Is this exception a verdict or an error of the machinery?"""
    from .core import Violation

    if isinstance(e, Violation):
        return "violation"
    tb = traceback.extract_tb(e.__traceback__)
    repo = os.path.realpath(boot.REPO) + os.sep
    if any(os.path.realpath(f.filename).startswith(repo) for f in tb):
        return "violation"
    return "error"


class Shard:
    def __init__(self, mod, folder, prop):
        self.mod, self.folder, self.prop = mod, folder, prop
        self.recs = {}
        self.violation = None
        self.cur = os.path.join(folder, "current.json")

    def one(self, part, case):
        from . import core

        rec = self.recs.setdefault(part.name, core.Recorder())
        case = json.loads(json.dumps(core.jsonable(case)))
        with open(self.cur, "w") as f:
            json.dump({"part": part.name, "case": case}, f)
        rec.evaluations += 1
        n0 = time.time()
        out = part.run(case, rec)
        rec.label("seconds", time.time() - n0)
        if out is None or out == "skip":
            rec.skipped += 1
        elif out:
            d = core.digest(case)
            if d not in rec.nontrivial:
                rec.nontrivial.add(d)
                if len(rec.samples) < 2:
                    rec.samples.append(case)
            if isinstance(out, str):
                rec.label(out)
        return out

    def fail(self, part, case, e):
        from . import core

        msg = "%s: %s" % (type(e).__name__, e)
        if not isinstance(e, core.Violation):
            msg += "\n" + "".join(traceback.format_tb(e.__traceback__)[-6:])
        v = {
            "property": self.prop,
            "part": part.name,
            "message": msg[:6000],
            "case": core.jsonable(case),
        }
        size = len(json.dumps(v["case"]))
        if self.violation is None or size <= self.size:
            self.violation, self.size = v, size

    def explicit(self, part, case):
        from . import core

        try:
            return self.one(part, case)
        except Exception as e:  # noqa
            if classify(e) == "violation":
                self.fail(part, case, e)
            else:
                raise

    def search(self, part, n, seed, cap, shrink_s):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        from . import core

        t0 = time.time()
        state = {"fail": None, "err": None}

        def body(case):
            now = time.time()
            if state["fail"] is None and now - t0 > cap:
                raise Stop
            if state["fail"] is not None and now - state["fail"] > shrink_s:
                raise Stop
            try:
                self.one(part, case)
            except Exception as e:  # noqa
                if classify(e) == "error":
                    state["err"] = traceback.format_exc()
                    raise Stop
                if state["fail"] is None:
                    state["fail"] = time.time()
                self.fail(part, case, e)
                # one failure per run: the engine then shrinks a single bug
                raise core.Violation("broken") from None

        test = given(part.strategy())(body)
        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
            print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
        )(test)
        test = hypothesis.seed(seed)(test)
        try:
            with core.quiet():
                test()
        except Stop:
            if state["err"]:
                raise RuntimeError("harness error in %s\n%s" % (part.name, state["err"]))
        except core.Violation:
            pass
        except Exception as e:  # noqa
            if self.violation is None:
                raise
        return state


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--dir")
    ap.add_argument("--prop")
    ap.add_argument("--tier")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--parts", default="")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--of", type=int, default=1)
    ap.add_argument("--warm", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    boot.import_pydsge()
    import numpy as np

    np.seterr(all="ignore")
    import warnings

    warnings.simplefilter("ignore")
    mod = load(a.prop)
    parts = [p for p in mod.PARTS if not a.parts or p.name in a.parts.split(",")]
    byname = {p.name: p for p in mod.PARTS}
    sh = Shard(mod, a.dir, a.prop)
    error = None
    known = []
    t0 = time.time()
    try:
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
            try:
                out = sh.one(byname[r["part"]], r["case"])
                print("replayed: held (%r)" % (out,))
            except Exception as e:  # noqa
                if classify(e) == "error":
                    raise
                traceback.print_exc()
                sh.fail(byname[r["part"]], r["case"], e)
        elif a.warm:
            # committed cases of fixed defects, then known findings
            if hasattr(mod, "warm"):
                try:
                    from .core import quiet

                    with quiet():
                        mod.warm()
                except Exception as e:  # noqa
                    # left to the search, which can shrink it
                    if classify(e) == "error":
                        raise
                    print("warm-up:", repr(e))
            for f in sorted(glob.glob(os.path.join(boot.VERIF, "regress", a.prop, "*.json"))):
                with open(f) as h:
                    r = json.load(h)
                if r["part"] in byname and sh.violation is None:
                    sh.explicit(byname[r["part"]], r["case"])
            with open(os.path.join(boot.VERIF, "known_findings.json")) as h:
                kf = json.load(h)
            for k in kf.get("known", []):
                if k["property"] == a.prop:
                    try:
                        from .core import quiet

                        with quiet():
                            byname[k["part"]].run(k["case"], __import__("vlib.core").core.Recorder())
                    except Exception as e:  # noqa
                        if classify(e) == "error":
                            raise
                        known.append({"id": k["id"], "what": k["what"]})
        else:
            for p in parts:
                total = p.quick if a.tier == "quick" else p.thorough
                n = max(1, int(round(total * a.scale / a.of)))
                if total < a.of and a.shard >= total:
                    continue
                seed = (a.seed * 1000003 + a.shard * 7919 + sum(map(ord, p.name))) % 2**32
                cap = p.cap if a.tier == "quick" else p.cap_thorough
                sh.search(p, n, seed, cap, p.shrink_s)
                if sh.violation is not None:
                    break
    except Exception:  # noqa
        error = traceback.format_exc()
    res = {
        "violation": sh.violation,
        "error": error,
        "known": known,
        "rule": ["%s: %s" % (p.name, p.rule) for p in parts],
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "parts": {k: r.dump() for k, r in sh.recs.items()},
        "wall": time.time() - t0,
    }
    tmp = os.path.join(a.dir, "result.tmp")
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.rename(tmp, os.path.join(a.dir, "result.json"))
    if error:
        print(error)
    sys.stdout.flush()
    # leave without waiting for pools that code under test may have left
    os._exit(0 if error is None else 3)


if __name__ == "__main__":
    main()
