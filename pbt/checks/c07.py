"""C07: Cholesky and Bierman filters against KalmanFilter."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Skip, close, sut
from . import c01, c04

N = {"quick": 680, "thorough": 10000}
RULE = (
    "Hypothesis draws CholeskyKalmanFilter or BiermanKalmanFilter, a model with positive "
    "definite constant covariances (n<=12, m<=10, mostly small, T<=70, constant or per-step matrices and "
    "offsets, some of the parameters integer valued and passed as integer arrays or "
    "lists), observations and a mask; filter, smooth, loglikelihood, filter_update "
    "(with overrides), em and sample are compared with KalmanFilter's. Non-trivial: at "
    "least two steps and something observed."
)
ASSUMPTIONS = c01.ASSUMPTIONS + [
    "predicted and filtered covariances with eigenvalue ratio above 1e-9 (the square root classes factor them)",
] + c04.ASSUMPTIONS


@st.composite
def strategy_(draw, tier):
    T = draw(st.one_of(st.integers(1, 10), gen.lengths_long))
    n, m = None, None
    if draw(st.sampled_from([False] * 19 + [True])):
        T, n, m = draw(st.integers(70, 150)), draw(st.integers(1, 2)), draw(st.integers(1, 2))
    M = draw(gen.linear_model(T, n, m, psd=False, tv_cov=False))
    Z, K = draw(gen.observations(M, T))
    reps = {}
    for k in c04.KEYS:
        r = draw(st.sampled_from(["float", "float", "float", "list", "int"]))
        if r == "int":
            A = np.round(M[k])
            if k in "QRP0" and (not np.all(np.linalg.eigvalsh(A) > 0.05)):
                A = np.round(M[k] / np.trace(M[k]) * len(M[k]) * 4)
                if not np.all(np.linalg.eigvalsh(A) > 0.05):
                    A = np.diag(np.arange(1.0, len(A) + 1))
            M[k] = A + 0.0  # no negative zeros, which integers do not have
        reps[k] = r
    return dict(
        cls=draw(st.sampled_from(gen.LINEAR[1:])), M=M, Z=Z, K=K, reps=reps, junk=draw(st.sampled_from([None, 1e6])),
        over=sorted(k for k in "AbCdQR" if draw(st.booleans())),
        em=draw(st.sampled_from(["default", "all"])) if draw(st.booleans()) else sorted(k for k in c04.KEYS if draw(st.booleans())),
        iters=draw(st.sampled_from([1, 1, 2])), seed=draw(st.integers(0, 10**6)), initial=draw(st.booleans()),
        ints=draw(st.booleans()),
    )


def strategy(tier):
    return strategy_(tier)


def given_params(case):
    out = {}
    for k, v in case["M"].items():
        v = np.array(v, float)
        r = case["reps"][k]
        out[k] = v.tolist() if r == "list" else v.astype(int) if r == "int" and np.abs(v).max() < 1e15 else v
    return out


def pd_domain(J, limit=1e-9):
    for P in np.concatenate([J.pred_cov, J.filt_cov]):
        e = np.linalg.eigvalsh(P)
        if not e[0] > limit * e[-1]:
            raise Skip


def check(case):
    M, K = case["M"], case["K"]
    Z = np.round(case["Z"]) if case["ints"] else case["Z"]
    case = dict(case, Z=Z)
    T = len(Z)
    J = c01.reference(case, full=True)
    pd_domain(J)
    r = c01.tolerance(J)
    sx, sc = J.mean_scale(), J.cov_scale()
    kf = gen.cls("KalmanFilter")(**gen.kw({k: np.array(v, float) for k, v in M.items()}))
    new = lambda: sut("constructor", gen.cls(case["cls"]), **gen.kw(given_params(case)))  # noqa: E731
    sq = new()
    X = gen.masked(Z, K, case["junk"])
    X2 = X.astype(int) if case["ints"] and (case["junk"] or not K.any()) and np.abs(Z).max() < 1e15 else X

    def both(what, *args, other=None):
        try:
            want = getattr(kf, what)(*args)
        except Exception:  # noqa: BLE001  (KalmanFilter is the business of C01-C05)
            raise Skip from None
        return sut(what, getattr(sq, what), *(args if other is None else other)), want

    got, want = both("filter", X, other=(X2,))
    filt = want
    close("filtered means", got[0], want[0], sx, r)
    close("filtered covariances", got[1], want[1], sc, r)
    got, want = both("loglikelihood", X, other=(X2,))
    close("log likelihood", got, want, np.abs(J.ll).sum() + J.T, 10 * r)
    try:
        rs = c01.smooth_tolerance(J, M)
    except Skip:
        rs = None
    if rs is not None:
        got, want = both("smooth", X, other=(X2,))
        close("smoothed means", got[0], want[0], sx, rs)
        close("smoothed covariances", got[1], want[1], sc, rs)
    update(case, kf, sq, filt, X, r, sx, sc)
    initial = np.array(M["m0"], float) + 1.0 if case["initial"] else None
    n = min(T, 20)
    a = kf.sample(n, initial_state=initial, random_state=case["seed"])
    b = sut("sample", sq.sample, n, initial_state=initial, random_state=case["seed"])
    for x, y, q in zip(b, a, ("states", "observations")):
        close(f"sampled {q}", x, y, np.abs(y).max() + 1.0, 1e-9)
    em(case, X, new)


def update(case, kf, sq, filt, X, r, sx, sc):
    from .c05 import ARG

    M = case["M"]
    T = len(X)
    rng = np.random.RandomState(case["seed"])
    n, m = gen.dims(M)
    for t in range(min(T - 1, 6)):
        args = {ARG[k]: np.array(ref.at(M[k], t if k in "AbQ" else t + 1, gen.ND[k]), float) for k in gen.tv_keys(M)}
        step = {k: np.array(ref.at(M[k], t if k in "AbQ" else t + 1, gen.ND[k]), float) for k in "AbCdQR"}
        for k in case["over"]:
            v = step[k]
            if k in "QR":
                v = v * 2 if t % 2 else np.diag(np.diag(v))
            else:
                v = v + 0.3 * np.abs(v).max() * rng.randn(*v.shape)
            step[k] = args[ARG[k]] = v
        m0, P0 = np.array(filt[0][t]), np.array(filt[1][t])
        e = np.linalg.eigvalsh(P0)
        if not e[0] > 1e-9 * e[-1]:  # KalmanFilter's own rounding
            continue
        obs = X[t + 1]
        # domain of this step
        one = dict(step, m0=step["A"] @ m0 + step["b"], P0=step["A"] @ P0 @ step["A"].T + step["Q"])
        J = ref.Joint(one, np.asarray(np.ma.filled(obs, 0.0), float)[None], np.array([case["K"][t + 1].any()]), full=False)
        if not J.ok or J.cond > 1e6 or J.drop > 1e8:
            continue
        try:
            pd_domain(J)
        except Skip:
            continue
        try:
            want = kf.filter_update(m0.copy(), P0.copy(), obs, **args)
        except Exception:  # noqa: BLE001
            raise Skip from None
        got = sut("filter_update", sq.filter_update, m0.copy(), P0.copy(), obs, **args)
        tol = max(r, c01.tolerance(J))
        close("filter_update mean", got[0], want[0], max(sx, J.mean_scale()), tol)
        close("filter_update covariance", got[1], want[1], max(sc, J.cov_scale()), tol)


def em(case, X, new):
    keys = c04.em_keys(case)
    miss = case["K"].any(axis=1)
    T = len(miss)
    if (miss.all() and keys & {"C", "R", "d"}) or (T == 1 and keys & {"A", "Q", "b"}) or T > 20:
        return
    cur = {k: np.array(v, float) for k, v in case["M"].items()}
    tol, last = 0.0, None
    for _ in range(case["iters"]):
        J = ref.Joint(cur, case["Z"], miss)
        if not J.ok or J.cond > 1e6 or J.drop > 1e8 or J.growth > 1e9 or J.far > 1e12:
            return
        try:
            r = c01.smooth_tolerance(J, cur)
            pd_domain(J)
        except Skip:
            return
        if last is not None:  # errors so far are relative to larger values
            tol *= max(1.0, last.mean_scale() / J.mean_scale()) ** 2
        last = J
        cur = ref.m_step(cur, J, case["Z"], miss, keys)
        if cur is None or ref.MSTEP_COND[0] > 1e7:
            return
        for k in ("Q", "R", "P0"):
            e = np.linalg.eigvalsh(cur[k])
            size = dict(Q=J.mean_scale() * (1 + c04.size(cur["A"])), R=J.zscale, P0=J.mean_scale())[k]
            if not e[0] > 1e-6 * e[-1] or k in keys and not e[0] > 1e-9 * size**2:  # rounding decides
                return
        tol = 30 * (tol + 10 * r * ref.MSTEP_COND[0] ** 0.5 + 1e-11 * ref.MSTEP_COND[0])
    if tol > 1e-3:
        return
    arg = c04.em_argument(dict(case, form="list"))
    kf = gen.cls("KalmanFilter")(**gen.kw({k: np.array(v, float) for k, v in case["M"].items()}))
    sq = new()
    try:
        kf.em(X, n_iter=case["iters"], em_vars=arg)
    except Exception:  # noqa: BLE001
        return
    sut("em", sq.em, X, n_iter=case["iters"], em_vars=arg)
    a, b = c04.params(sq), c04.params(kf)
    sx = last.mean_scale()
    sA, sC = c04.size(b["A"]), c04.size(b["C"])
    zs = max(last.zscale, 1e-300) + sC * sx + c04.size(b["d"])
    xs = sx * (1 + sA) + c04.size(b["b"])
    scale = dict(A=sA + xs / sx, C=zs / sx + sC, b=xs, d=zs, Q=xs**2, R=zs**2, m0=sx, P0=sx**2)
    for k in c04.KEYS:
        close(f"{gen.NAME[k]} after em", a[k], b[k], max(scale[k], c04.size(b[k])), tol)


def nontrivial(case):
    return bool(len(case["Z"]) > 1 and not case["K"].any(axis=1).all())


def classes(case):
    out = [case["cls"]] + [c for c in c01.model_classes(case) if "per-step" in c or "miss" in c or c.startswith("T")]
    out += [f"{k} given as {v}" for k, v in case["reps"].items() if v != "float"]
    return out


def simplify(case):
    for k in case["over"]:
        yield dict(case, over=[q for q in case["over"] if q != k])
    for k, v in case["reps"].items():
        if v != "float":
            yield dict(case, reps=dict(case["reps"], **{k: "float"}))
    if isinstance(case["em"], list) and case["em"]:
        yield dict(case, em=[])
    for c in gen.simplify_linear(case):
        if all(np.array_equal(c["M"][k], np.round(c["M"][k])) for k, v in c["reps"].items() if v == "int"):
            yield c
    yield from c01.shorten(case)
