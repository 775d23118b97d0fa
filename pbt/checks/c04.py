"""C04: EM against exact M-steps computed from the joint distribution."""
import re
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Skip, Violation, close, sut
from . import c01

N = {"quick": 1080, "thorough": 8000}
RULE = (
    "Hypothesis draws one of the three linear classes, a model (n, m<=3, T<=12, rarely n, m<=8, T<=90, "
    "per-step parameters for KalmanFilter), observations with a mask, a subset of the "
    "eight parameters (or 'all' or the default) as em_vars and a number of iterations. "
    "Every iteration is compared with the exact sequence of M-steps computed from the "
    "joint Gaussian at the object's current parameters; then monotonicity of the joint "
    "likelihood, untouched parameters, a warning for every estimated parameter that varies per "
    "step (and for no other), one call with all iterations, and ten of them if their number is left out. Non-trivial: "
    "T>1, something observed, at least one parameter estimated, at least one iteration."
)
ASSUMPTIONS = c01.ASSUMPTIONS + [
    "regressions with condition number below 1e7 (enough data for the estimated parameters)",
    "innovations' standard deviations above 1e-6 of the values (the likelihood is unbounded where they vanish)",
    "noise covariances that are not estimated are constant",
]
KEYS = list(gen.ND)
DEFAULT = ["Q", "R", "m0", "P0"]


@st.composite
def strategy_(draw, tier):
    name = draw(st.sampled_from(["KalmanFilter"] * 3 + gen.LINEAR[1:]))
    T = draw(gen.rarely(st.one_of(st.integers(1, 4), st.integers(3, 12), st.integers(3, 12)), st.integers(20, 90), 12))
    n = draw(gen.rarely(st.integers(1, 3), st.integers(4, 8), 12))
    m = draw(gen.rarely(st.integers(1, 3), st.integers(4, 8), 12))
    kf = name == "KalmanFilter"
    M = draw(
        gen.linear_model(
            T, n, m, tv=True, tv_cov=kf, psd=kf and draw(st.sampled_from([False, False, True])),
            trans_modes=["rand", "rand", "eye", "cv", "rot", "int", "sparse"],
            obs_modes=["rand", "rand", "eye", "int", "dup"],
        )
    )
    Z, K = draw(gen.observations(M, T, ["none", "none", "random", "half", "head", "tail", "one", "partial", "all"]))
    how = draw(st.sampled_from(["subset", "subset", "subset", "one", "all", "default", "none"]))
    if how == "subset":
        em = [k for k in KEYS if draw(st.booleans())]
    elif how == "one":
        em = [draw(st.sampled_from(KEYS))]
    elif how == "none":
        em = []
    else:
        em = how
    if isinstance(em, list):
        em = draw(st.permutations(em))
    est = em_keys(dict(em=em))
    for k, by in (("Q", "Ab"), ("R", "Cd")):  # what the documented M-steps are for
        if M[k].ndim > 2 and k not in est and est & set(by):
            M[k] = M[k][0]
    return dict(
        cls=name, M=M, Z=Z, K=K, em=em, via=draw(st.sampled_from(["call", "call", "constructor"])),
        form=draw(st.sampled_from(["list", "tuple", "set"])), iters=draw(st.sampled_from([1, 1, 1, 1, 2, 2, 3, 0, 0, 6])),
        junk=draw(st.sampled_from([None, 1e6])), ten=draw(st.sampled_from([False] * 14 + [True])),
    )


def strategy(tier):
    return strategy_(tier)


def em_keys(case):
    em = case["em"]
    return set(KEYS if em == "all" else DEFAULT if em == "default" else em)


def em_argument(case):
    em = case["em"]
    if em == "default":
        return None
    if em == "all":
        return "all"
    return {"list": list, "tuple": tuple, "set": set}[case["form"]](gen.NAME[k] for k in em)


def params(kf):
    return {k: np.array(getattr(kf, gen.NAME[k])) for k in KEYS}


def check(case):
    M, Z, K = case["M"], case["Z"], case["K"]
    keys = em_keys(case)
    missing = K.any(axis=1)
    T = len(Z)
    if missing.all() and keys & {"C", "R", "d"}:
        raise Skip
    if T == 1 and keys & {"A", "Q", "b"}:
        raise Skip
    arg = em_argument(case)
    X = gen.masked(Z, K, case["junk"])
    ctor = {} if case["via"] == "call" or arg is None else dict(em_vars=arg)
    call = {} if case["via"] == "constructor" or arg is None else dict(em_vars=arg)

    def new():
        return gen.cls(case["cls"])(**gen.kw({k: np.array(v) for k, v in M.items()}), **ctor)

    def one_step(cur):
        """Reference step from parameters cur, with the tolerance."""
        J = ref.Joint(cur, Z, missing)
        if not J.ok or J.cond > 1e6 or J.drop > 1e8 or J.growth > 1e9 or J.far > 1e12:
            raise Skip
        r = c01.smooth_tolerance(J, cur)
        want = ref.m_step(cur, J, Z, missing, keys)
        if want is None or ref.MSTEP_COND[0] > 1e7:
            raise Skip
        return J, want, 10 * r * ref.MSTEP_COND[0] ** 0.5 + 1e-13 * ref.MSTEP_COND[0] * 100, r

    if case.get("ten"):
        return ten(new, X, call)
    cur = {k: np.array(v, float) for k, v in M.items()}
    steps = [one_step(cur)]  # decides the domain before any code under test runs
    kf = sut("constructor", new)
    total_tol = 0.0
    for i in range(case["iters"]):
        J, want, r, r0 = steps[0]
        if case["cls"] != "KalmanFilter":  # these factor the covariances
            for k in ("Q", "R", "P0"):
                e = np.linalg.eigvalsh(cur[k])
                if not e[0] > 1e-6 * e[-1]:
                    raise Skip
        got_kf, told = warned("em", kf.em, X, n_iter=1, **call)
        for k in KEYS:
            says = any(re.search(rf"\b{gen.NAME[k]}\b", w) for w in told)
            if says != (k in keys and cur[k].ndim > gen.ND[k]):
                raise Violation(f"em {'warns' if says else 'does not warn'} that {gen.NAME[k]} of shape {cur[k].shape} becomes constant")
        if got_kf is not kf:
            raise Violation("em did not return the object itself")
        got = params(kf)
        sx = J.mean_scale()
        sA, sC = size(cur["A"], want["A"]), size(cur["C"], want["C"])
        zs = max(J.zscale, 1e-300) + sC * sx + size(cur["d"], want["d"])
        xs = sx * (1 + sA) + size(cur["b"], want["b"])
        scale = dict(
            A=sA + xs / max(sx, 1e-300), C=zs / max(sx, 1e-300) + sC, b=xs, d=zs, Q=xs**2, R=zs**2,
            m0=sx, P0=sx**2,
        )
        for k in KEYS:
            if k in keys:
                close(f"estimated {gen.NAME[k]}", got[k], want[k], scale[k], r)
            elif got[k].shape != cur[k].shape or not np.array_equal(got[k], cur[k]):
                raise Violation(f"em changed {gen.NAME[k]}, which is not in em_vars")
        total_tol += r
        # likelihood, computed by the reference from the object's parameters
        J2 = ref.Joint(got, Z, missing, full=False)
        before_tv = any(cur[k].ndim > gen.ND[k] for k in keys)
        if J2.ok and J2.cond < 1e6 and J2.far < 1e12 and not before_tv:
            scale_l = np.abs(J.ll).sum() + np.abs(J2.ll).sum() + 1
            if not J2.loglik >= J.loglik - (1e-7 + 10 * r) * scale_l:
                raise Violation(f"log likelihood fell from {J.loglik!r} to {J2.loglik!r} in one iteration")
        cur = got
        if i + 1 < case["iters"]:
            steps = [one_step(cur)]
    # all iterations in one call
    kf2 = sut("constructor", new)
    kw = dict(n_iter=case["iters"])
    sut("em", kf2.em, X, **kw, **call)
    a, b = params(kf2), params(kf)
    if case["iters"] == 0:
        for k in KEYS:
            if not np.array_equal(a[k], np.asarray(M[k])):
                raise Violation(f"em with n_iter=0 changed {gen.NAME[k]}")
        return
    for k in KEYS:
        close(f"{gen.NAME[k]} after {case['iters']} iterations at once", a[k], b[k], np.abs(b[k]).max() + 1e-300, max(1e-9, total_tol * 10))


def ten(new, X, call):
    """The number of iterations may be left out: then it is ten."""
    a, b = new(), new()
    try:
        b.em(X, n_iter=10, **call)
    except Exception:  # noqa: BLE001
        raise Skip from None
    sut("em", a.em, X, **call)
    a, b = params(a), params(b)
    if not all(np.all(np.isfinite(v)) for v in b.values()):
        raise Skip
    for k in KEYS:
        close(f"{gen.NAME[k]} after em without n_iter", a[k], b[k], np.abs(b[k]).max() + 1e-300, 1e-9)


def warned(what, fn, *args, **kw):
    """Result and texts of the warnings."""
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            try:
                out = fn(*args, **kw)
            except Exception as e:  # noqa: BLE001
                raise Violation(f"{what} raised {type(e).__name__}: {str(e)[:300]}") from e
    return out, [str(w.message) for w in caught]


def size(*arrays):
    return max(float(np.abs(np.asarray(a)).max()) for a in arrays)


def nontrivial(case):
    return bool(len(case["Z"]) > 1 and not case["K"].any(axis=1).all() and case["iters"] > 0 and em_keys(case))


def classes(case):
    out = [case["cls"], f"iterations={case['iters']}", f"em_vars via {case['via']}"]
    em = case["em"]
    out.append(f"em_vars {em}" if isinstance(em, str) else f"em_vars of {len(em)}")
    out += [f"estimates {k}" for k in sorted(em_keys(case))]
    out += [c for c in c01.model_classes(case) if "missing" in c or "per-step" in c or "masked" in c]
    return out


def simplify(case):
    if isinstance(case["em"], list):
        for k in case["em"]:
            yield dict(case, em=[q for q in case["em"] if q != k])
    if case["iters"] > 1:
        yield dict(case, iters=1)
    yield from gen.simplify_linear(case)
    yield from c01.shorten(case)
