"""Runner: sharded Hypothesis search, shrinking, replay files, evidence.

A check module (pbt/checks/cNN.py) provides

    strategy(tier)   Hypothesis strategy of concrete cases (JSON-like dicts of
                     numbers, strings, lists and numpy arrays)
    check(case)      runs the code under test; raises Violation if the property
                     fails, Skip if the case turns out to be outside the domain
    nontrivial(case) / RULE   which cases count as non-trivial
    classes(case)    labels for the distribution report
    N = {"quick": n, "thorough": n}   cases per shard
    simplify(case)   optional, yields simpler concrete cases
"""
import hashlib
import importlib
import json
import os
import re
import subprocess
import sys
import time
import traceback
import warnings
from collections import Counter

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SHARDS = int(os.environ.get("VERIF_SHARDS", "7"))
SHRINK_SECONDS = 60.0


class Violation(Exception):
    """The property does not hold for the case at hand."""


class Skip(Exception):
    """The case lies outside the property's domain (found out by the oracle)."""


def sut(what, fn, *args, **kwargs):
    """Call the code under test; an exception on a valid input is a violation."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                return fn(*args, **kwargs)
    except (Violation, Skip, KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(
            f"{what} raised {type(e).__name__}: {str(e)[:300]}"
        ) from e


# ---------------------------------------------------------------- JSON


def enc(o):
    if isinstance(o, np.ma.MaskedArray):
        return {
            "__ma__": enc(np.asarray(o.data)),
            "mask": np.ma.getmaskarray(o).tolist(),
        }
    if isinstance(o, np.ndarray):
        return {"__nd__": o.tolist(), "dtype": o.dtype.str, "shape": list(o.shape)}
    if isinstance(o, dict):
        return {str(k): enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [enc(v) for v in o]
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    return o


def dec(o):
    if isinstance(o, dict):
        if "__nd__" in o:
            return np.array(o["__nd__"], dtype=np.dtype(o["dtype"])).reshape(o["shape"])
        if "__ma__" in o:
            return np.ma.array(dec(o["__ma__"]), mask=o["mask"])
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [dec(v) for v in o]
    return o


def dumps(case):
    return json.dumps(enc(case))


# ---------------------------------------------------------------- comparing


def close(name, got, want, scale, rtol=1e-8, atol=0.0):
    """got == want up to rtol * scale; shapes have to agree exactly."""
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(f"{name}: shape {got.shape}, expected {want.shape}")
    if got.size == 0:
        return
    if not np.all(np.isfinite(got)):
        if np.all(np.isfinite(want)):
            raise Violation(f"{name}: not finite: {trim(got)}; expected {trim(want)}")
    tol = rtol * scale + atol
    err = np.abs(got - want)
    if not np.all(err <= tol):
        i = np.unravel_index(np.nanargmax(np.where(np.isnan(err), np.inf, err)), err.shape)
        raise Violation(
            f"{name}: index {tuple(int(k) for k in i)}: got {got[i]!r}, expected "
            f"{want[i]!r} (difference {err[i]:.3g}, tolerance {float(np.max(tol)):.3g})"
        )
    STATS_ERR[name] = max(STATS_ERR.get(name, 0.0), float(np.max(err / tol)) if np.all(tol > 0) else 0.0)


STATS_ERR = {}


def trim(a, n=200):
    s = repr(np.asarray(a).tolist())
    return s if len(s) <= n else s[:n] + "..."


# ---------------------------------------------------------------- shards


def load(pid):
    return importlib.import_module(f"pbt.checks.{pid.lower()}")


def import_sut():
    import scipy.io  # noqa: F401
    import scipy.linalg  # noqa: F401

    try:
        import skbase.utils.dependencies  # noqa: F401
    except ImportError:
        pass
    sys.path.insert(0, REPO)
    sys.pycache_prefix = "/nonexistent"  # never run stale bytecode of /repo
    import pykalman
    import pykalman.sqrt  # noqa: F401

    sys.pycache_prefix = None
    here = os.path.realpath(os.path.dirname(os.path.dirname(pykalman.__file__)))
    if here != os.path.realpath(REPO):
        raise RuntimeError(f"pykalman imported from {here}, not {REPO}")


def run_one(mod, case):
    """check(case) -> None | 'skip' ; raises Violation."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                mod.check(case)
    except Skip:
        return "skip"
    except (Violation, MemoryError):
        raise
    except Exception as e:  # noqa: BLE001
        # nothing the checks call without expecting an exception may raise one
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(os.path.join(REPO, "pykalman") + os.sep):
                raise Violation(f"{type(e).__name__}: {str(e)[:300]}") from e
            tb = tb.tb_next
        raise
    return None


def shard(pid, tier, seed, index, out):
    import_sut()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    mod = load(pid)
    n = mod.N[tier]
    if os.environ.get("VERIF_N"):
        n = int(os.environ["VERIF_N"])
    stats = Counter()
    hashes, nontriv = set(), set()
    classes = Counter()
    samples = []
    fail = {}

    def body(case):
        if fail and time.time() > fail["deadline"]:
            return  # stop shrinking; the recorded failure stands
        stats["executions"] += 1
        h = hashlib.sha1(dumps(case).encode()).hexdigest()[:16]
        try:
            r = run_one(mod, case)
        except Violation as v:
            if not fail:
                fail["deadline"] = time.time() + SHRINK_SECONDS
            fail["case"], fail["msg"] = case, str(v)
            raise
        if r == "skip":
            stats["skipped"] += 1
            return
        stats["evaluations"] += 1
        if h not in hashes:
            hashes.add(h)
            for c in mod.classes(case):
                classes[c] += 1
            if mod.nontrivial(case):
                nontriv.add(h)
                if len(samples) < 3 and len(nontriv) % 7 == 3:
                    s = json.dumps(enc(case))
                    samples.append(s if len(s) < 1200 else s[:1200] + "...")

    test = given(mod.strategy(tier))(body)
    test = settings(
        max_examples=n,
        deadline=None,
        database=None,
        print_blob=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(seed * 1000 + index)(test)
    error = None
    try:
        test()
    except Violation:
        pass
    except Exception:  # noqa: BLE001
        # Hypothesis reports nondeterministic failures with exceptions of its
        # own; a recorded violation is a violation all the same.
        if not fail:
            error = traceback.format_exc()
    except BaseExceptionGroup:
        if not fail:
            error = traceback.format_exc()
    res = dict(
        stats=dict(stats),
        distinct=len(hashes),
        nontrivial=sorted(nontriv),
        classes=dict(classes),
        samples=samples,
        error=error,
        err=STATS_ERR,
    )
    if fail:
        case, msg = minimise(mod, fail["case"], fail["msg"])
        res["violation"] = dict(case=enc(case), msg=msg)
    with open(out, "w") as f:
        json.dump(res, f)


def raised(msg):
    """The type of exception a message reports, if any."""
    found = re.search(r"(?:raised |^)(\w+(?:Error|Exception|Warning))", msg)
    return found.group(1) if found else None


def minimise(mod, case, msg, budget=20.0):
    """Greedy simplification of the concrete failing case."""
    end = time.time() + budget
    # from here on work with what the replay file will contain
    case = dec(json.loads(dumps(case)))
    gen = getattr(mod, "simplify", None)
    if gen is None:
        return case, msg
    again = True
    while again and time.time() < end:
        again = False
        for cand in gen(case):
            if time.time() > end:
                break
            try:
                run_one(mod, cand)
            except Violation as v:
                if raised(str(v)) != raised(msg):  # an invalid input, most likely
                    continue
                case, msg, again = cand, str(v), True
                break
            except Exception:  # noqa: BLE001  (simplification left the domain)
                continue
    return case, msg


# ---------------------------------------------------------------- main


def main_check(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = load(pid)
    import tempfile

    tmp = tempfile.mkdtemp(prefix="verif_")
    procs = []
    try:
        for i in range(SHARDS):
            out = os.path.join(tmp, f"{i}.json")
            errf = open(os.path.join(tmp, f"{i}.err"), "w+")
            p = subprocess.Popen(
                [sys.executable, os.path.join(ROOT, "run.py"), "shard", pid, tier,
                 str(seed), str(i), out],
                stdout=errf, stderr=errf, cwd=tmp,
            )
            procs.append((p, out, errf))
        results, errors = [], []
        for p, out, errf in procs:
            p.wait()
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                errf.seek(0)
                errors.append(f"shard exited {p.returncode}: {errf.read()[-3000:]}")
            errf.close()
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)

    errors += [r["error"] for r in results if r["error"]]
    stats, classes, nontriv, samples = Counter(), Counter(), set(), []
    err = {}
    for r in results:
        stats.update(r["stats"])
        classes.update(r["classes"])
        nontriv.update(r["nontrivial"])
        samples += r["samples"]
        for k, v in r["err"].items():
            err[k] = max(err.get(k, 0), v)
    violations = [r["violation"] for r in results if "violation" in r]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=stats["evaluations"],
            distinct_nontrivial=len(nontriv),
            rule=mod.RULE,
            samples=samples[:6],
            distinct=sum(r["distinct"] for r in results),
            outside_domain=stats["skipped"],
            classes=dict(sorted(classes.items())),
            shards=SHARDS,
            worst_error_over_tolerance={k: float(f"{v:.3g}") for k, v in err.items()},
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        f"{pid} tier={tier} seed={seed} evaluations={stats['evaluations']} "
        f"nontrivial={len(nontriv)} outside_domain={stats['skipped']} "
        f"wall={ev['wall_s']}s"
    )
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v["case"])))
        v = violations[0]
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{pid}_seed{seed}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, message=v["msg"], case=v["case"]), f, indent=1)
        print(f"{pid}: {v['msg']}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        print(f"{pid}: error of the check itself:\n" + "\n".join(errors[:2]))
        return 2
    if stats["evaluations"] < 20 or len(nontriv) < 10:
        print(f"{pid}: too few cases evaluated; inconclusive")
        return 3
    return 0


def main_replay(path):
    """Re-run a saved case without Hypothesis."""
    import_sut()
    with open(path) as f:
        r = json.load(f)
    mod = load(r["property"])
    try:
        res = run_one(mod, dec(r["case"]))
    except Violation as v:
        print(f"{r['property']}: {v}")
        print(f"VIOLATION property={r['property']} replay={os.path.abspath(path)}")
        return 1
    print(f"{r['property']}: holds for this case" + (" (outside domain)" if res else ""))
    return 0
