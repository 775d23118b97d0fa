"""C06: what a mask hides has no influence; a missing step only propagates."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Skip, Violation, close, sut
from . import c01, c04, c08, c09

N = {"quick": 900, "thorough": 8000}
RULE = (
    "Hypothesis draws one of the six classes, a model (linear: n<=12, m<=10, mostly small; unscented "
    "nonlinear: n<=9, m<=6, mostly small), observations (T<=14, rarely 60 to 150), a mask with at least one masked row, and "
    "what lies under the mask (NaN, infinities, 1e300, other numbers) and beside it in "
    "the unmasked components of masked rows. filter, smooth, loglikelihood, em and "
    "filter_update are compared between the poisoned partially masked array and a clean "
    "one whose missing rows are masked entirely, also given as lists of masked rows; then with the model whose transitions "
    "around missing steps are merged, and with the prior for an entirely missing "
    "sequence. Non-trivial: some rows missing and some present."
)
ASSUMPTIONS = c01.ASSUMPTIONS + c09.ASSUMPTIONS
POISON = ["nan", "inf", "-inf", "huge", "mix", "number"]
ROWMASKS = ["random", "half", "head", "tail", "run", "one", "all", "partial", "partial", "partial"]


@st.composite
def strategy_(draw, tier):
    unscented = draw(st.sampled_from([False, False, True]))
    if unscented:
        c = draw(c09.case_(gen.UNSCENTED, 8))
        T, m = c["Z"].shape
    else:
        name = draw(st.sampled_from(gen.LINEAR))
        T = draw(gen.rarely(st.integers(1, 14), st.integers(60, 150), 25))
        kf = name == "KalmanFilter"
        n, m = (None, None) if T < 60 else (draw(st.integers(1, 3)), draw(st.integers(1, 2)))
        M = draw(gen.linear_model(T, n, m, psd=kf and draw(st.booleans()), tv_cov=kf, exact_sensors=kf))
        Z, K = draw(gen.observations(M, T))
        c = dict(cls=name, M=M, Z=Z, junk=None)
        m = Z.shape[1]
    c["K"] = draw(gen.mask(T, m, ROWMASKS))
    c["kind"] = "unscented" if unscented else "linear"
    c["poison"] = draw(st.sampled_from(POISON))
    c["beside"] = draw(st.sampled_from(["same", "other", "other", "huge"]))
    c["form"] = draw(st.sampled_from(["array", "array", "flat", "invalid", "assign", "hard", "fill", "rows", "tuple"]))
    c["rseed"] = draw(gen.seeds)
    c["em"] = sorted(k for k in c04.KEYS if draw(st.booleans()))
    c["iters"] = draw(st.sampled_from([1, 1, 2]))
    return c


def strategy(tier):
    return strategy_(tier)


def arrays(case):
    """(poisoned, clean) observation arrays."""
    Z, K = np.array(case["Z"], float), case["K"]
    T, m = Z.shape
    rng = np.random.RandomState(case["rseed"])
    miss = K.any(axis=1)
    clean = np.ma.array(np.where(miss[:, None], 0.0, Z), mask=np.repeat(miss[:, None], m, axis=1))
    X = Z.copy()
    beside = miss[:, None] & ~K
    scale = np.abs(Z).max() + 1.0
    if case["beside"] == "other":
        X[beside] = 10 * scale * rng.randn(beside.sum())
    elif case["beside"] == "huge":
        X[beside] = 1e200
    p = dict(nan=np.nan, inf=np.inf, huge=1e300).get(case["poison"], -np.inf)
    X[K] = p
    if case["poison"] == "mix":
        X[K] = rng.choice([np.nan, np.inf, -np.inf, 1e300, 0.0], K.sum())
    elif case["poison"] == "number":
        X[K] = 100 * scale * rng.randn(K.sum())
    form = case["form"]
    if form == "flat" and m == 1 and T > 1:
        P = np.ma.array(X[:, 0], mask=K[:, 0])
    elif form == "invalid":
        X[K] = np.nan
        P = np.ma.masked_invalid(X)
    elif form == "assign":
        P = np.ma.array(X)
        for t, i in zip(*np.nonzero(K)):
            P[t, i] = np.ma.masked
    elif form == "hard":
        P = np.ma.array(X, mask=K.copy(), hard_mask=True)
    elif form in ("rows", "tuple"):  # a sequence of masked rows
        P = [np.ma.array(x, mask=k.copy()) for x, k in zip(X, K)]
        P = P if form == "rows" else tuple(P)
    elif form == "fill":
        P = np.ma.array(X, mask=K.copy(), fill_value=7.5)
    else:
        P = np.ma.array(X, mask=K.copy())
    return P, clean


def baseline(fn, *args, **kw):
    """The clean run; where it fails, other properties are concerned."""
    try:
        r = fn(*args, **kw)
    except Exception:  # noqa: BLE001
        raise Skip from None
    for a in np.atleast_1d(r[0]), np.atleast_1d(r[1]):
        if not np.all(np.isfinite(a)):
            raise Skip
    return r


def same(what, got, want, r=1e-9):
    close(what, got, want, float(np.abs(np.asarray(want, float)).max(initial=1e-300)), r)


def check(case):
    lin = case["kind"] == "linear"
    Z, K = case["Z"], case["K"]
    T, m = Z.shape
    miss = K.any(axis=1)
    if not miss.any():
        raise Skip
    if lin:
        M = case["M"]
        J = c01.reference(case)
        if case["cls"] != "KalmanFilter":
            for P in np.concatenate([J.pred_cov, J.filt_cov]):
                e = np.linalg.eigvalsh(P)
                if not e[0] > 1e-9 * e[-1]:
                    raise Skip
        new = lambda: gen.cls(case["cls"])(**gen.kw({k: np.array(v) for k, v in M.items()}))  # noqa: E731
    else:
        c09.reference("aug" if case["cls"] == "UKF" else "add", dict(case, Z=np.where(miss[:, None], 0, Z)))
        new = lambda: gen.unscented(case["cls"], case["U"], T)  # noqa: E731
    obj = sut("constructor", new)
    P, clean = arrays(case)
    content = lambda: [np.array(f(P) if isinstance(P, np.ma.MaskedArray) else [f(p) for p in P]) for f in (np.ma.getdata, np.ma.getmaskarray)]  # noqa: E731
    saved = content()
    for what in ("filter", "smooth"):
        want = baseline(getattr(obj, what), clean.copy())
        got = sut(what, getattr(obj, what), P)
        for a, b, q in zip(got, want, ("means", "covariances")):
            same(f"{what}: {q} depend on what a mask hides", a, b)
        if what == "filter":
            filt = want
        if miss.all():
            prior(case, what, got)
    if lin:
        want = baseline(lambda: (obj.loglikelihood(clean.copy()), 0.0))[0]
        same("loglikelihood depends on what a mask hides", sut("loglikelihood", obj.loglikelihood, P), want)
        if miss.all() and want != 0:
            raise Violation(f"loglikelihood of an entirely missing sequence is {want!r}")
        em(case, new, P, clean)
    merge(case, new, filt)
    # online
    rows = np.ma.array(saved[0], mask=saved[1]).reshape(T, m)
    for t in range(T - 1):
        if not miss[t + 1]:
            continue
        a = step_args(case, t)
        u, V = np.array(filt[0][t]), np.array(filt[1][t])
        want = baseline(obj.filter_update, u.copy(), V.copy(), **a)
        got = sut("filter_update", obj.filter_update, u.copy(), V.copy(), rows[t + 1], **a)
        for x, y, q in zip(got, want, ("mean", "covariance")):
            same(f"filter_update: {q} depends on a masked observation", x, y)
    now = content()
    if not np.array_equal(saved[1], now[1]) or not np.array_equal(saved[0], now[0], equal_nan=True):
        raise Violation("the observation array was modified")


def step_args(case, t):
    if case["kind"] == "linear":
        from .c05 import ARG

        M = case["M"]
        return {ARG[k]: np.array(ref.at(M[k], t if k in "AbQ" else t + 1, gen.ND[k])) for k in gen.tv_keys(M)}
    U, a = case["U"], {}
    if U["f"]["tv"]:
        a["transition_function"] = gen.func(U["f"], t)
    if U["g"]["tv"]:
        a["observation_function"] = gen.func(U["g"], t + 1)
    return a


def prior(case, what, got):
    """An entirely missing sequence yields the prior."""
    if case["kind"] == "linear":
        J = ref.Joint(case["M"], case["Z"], np.ones(len(case["Z"]), bool), full=False)
        r = c01.tolerance(J)
        if what == "smooth":
            r = c01.smooth_tolerance(J, case["M"])
        close(f"{what} of nothing: means", got[0], J.pred_mean, J.mean_scale(), r)
        close(f"{what} of nothing: covariances", got[1], J.pred_cov, J.cov_scale(), r)
    else:
        c = dict(case, Z=np.zeros_like(case["Z"]), K=np.ones_like(case["K"]))
        fm, fc, sm, sc, worst = c09.reference("aug" if case["cls"] == "UKF" else "add", c)
        r = (1e-9 + 1e-12 * worst) * (10 if what == "smooth" else 1)
        a, b = c09.scales(case["U"], fm, fc)
        close(f"{what} of nothing: means", got[0], fm, a, r)
        close(f"{what} of nothing: covariances", got[1], fc, b, r)


def em(case, new, P, clean):
    keys = set(case["em"])
    miss = case["K"].any(axis=1)
    if miss.all():
        keys -= {"C", "R", "d"}
    if len(miss) == 1:
        keys -= {"A", "Q", "b"}
    if not keys:
        return
    cur = {k: np.array(v, float) for k, v in case["M"].items()}
    # domain: regressions the data determine
    for i in range(case["iters"]):
        J = ref.Joint(cur, case["Z"], miss)
        if not J.ok or J.cond > 1e6 or J.drop > 1e8 or J.growth > 1e9:
            return
        try:
            c01.smooth_tolerance(J, cur)
        except Skip:
            return
        cur = ref.m_step(cur, J, case["Z"], miss, keys)
        if cur is None or ref.MSTEP_COND[0] > 1e7:
            return
        if case["cls"] != "KalmanFilter" or case["iters"] > 1:
            for k in ("Q", "R", "P0"):
                e = np.linalg.eigvalsh(cur[k])
                if cur[k].ndim == 2 and not e[0] > 1e-6 * e[-1]:
                    return
    names = [gen.NAME[k] for k in sorted(keys)]
    a, b = new(), new()
    try:
        a.em(clean.copy(), n_iter=case["iters"], em_vars=names)
    except Exception:  # noqa: BLE001
        return
    sut("em", b.em, P, n_iter=case["iters"], em_vars=names)
    x, y = c04.params(b), c04.params(a)
    for k in c04.KEYS:
        same(f"em: {gen.NAME[k]} depends on what a mask hides", x[k], y[k], 1e-7)


def merge(case, new, filt):
    """Dropping the missing steps and merging the transitions around them."""
    miss = case["K"].any(axis=1)
    keep = np.nonzero(~miss)[0]
    if case["kind"] != "linear" or not len(keep) or len(keep) == len(miss):
        return
    M = case["M"]
    get = lambda k, t: np.asarray(ref.at(M[k], t, gen.ND[k]), float)  # noqa: E731
    run = None
    A, b, Q = [], [], []
    for t in range(keep[-1]):
        F, o, q = get("A", t), get("b", t), get("Q", t)
        if run is not None:
            o, q, F = F @ run[1] + o, F @ run[2] @ F.T + q, F @ run[0]
        run = (F, o, q)
        if not miss[t + 1]:
            A.append(run[0])
            b.append(run[1])
            Q.append(run[2])
            run = None
    m0, P0 = np.asarray(M["m0"], float), np.asarray(M["P0"], float)
    if keep[0] > 0:  # the prior of the first observed step
        m0 = A[0] @ m0 + b[0]
        P0 = A[0] @ P0 @ A[0].T + Q[0]
        A, b, Q = A[1:], b[1:], Q[1:]
    k = len(keep)
    pick = lambda key: M[key] if np.asarray(M[key]).ndim == gen.ND[key] else np.asarray(M[key])[keep]  # noqa: E731
    M2 = dict(C=pick("C"), d=pick("d"), R=pick("R"), m0=m0, P0=(P0 + P0.T) / 2)
    if k > 1:
        Q = np.array([(q + q.T) / 2 for q in Q])
        M2.update(A=np.array(A), b=np.array(b), Q=Q)
        if case["cls"] != "KalmanFilter":
            if np.abs(Q - Q[0]).max() > 1e-12 * np.abs(Q[0]).max():
                return  # these classes take a constant covariance
            M2["Q"] = Q[0]
    else:
        n = len(m0)
        M2.update(A=np.eye(n), b=np.zeros(n), Q=np.eye(n))
    for P in np.atleast_3d([M2["P0"]]):
        e = np.linalg.eigvalsh(P)
        if case["cls"] != "KalmanFilter" and not e[0] > 1e-9 * e[-1]:
            return
    J = ref.Joint(M, case["Z"], miss, full=True)
    r = c01.tolerance(J)
    Zk = np.array(case["Z"], float)[keep]
    other = sut("constructor", gen.cls(case["cls"]), **gen.kw(M2))
    got = sut("filter", other.filter, Zk)
    close("filtered means of the merged model", got[0], filt[0][keep], J.mean_scale(), r)
    close("filtered covariances of the merged model", got[1], filt[1][keep], J.cov_scale(), r)
    obj = new()
    X = gen.masked(case["Z"], case["K"])
    a, b = sut("loglikelihood", obj.loglikelihood, X), sut("loglikelihood", other.loglikelihood, Zk)
    close("loglikelihood of the merged model", b, a, np.abs(J.ll).sum() + k, 10 * r)
    try:
        rs = c01.smooth_tolerance(J, M)
        J2 = ref.Joint(M2, Zk, np.zeros(k, bool))
        rs = max(rs, c01.smooth_tolerance(J2, M2)) if J2.ok else None
    except Skip:
        return
    if rs is None:
        return
    want, got = sut("smooth", obj.smooth, X), sut("smooth", other.smooth, Zk)
    close("smoothed means of the merged model", got[0], want[0][keep], J.mean_scale(), rs)
    close("smoothed covariances of the merged model", got[1], want[1][keep], J.cov_scale(), rs)


def nontrivial(case):
    miss = case["K"].any(axis=1)
    return bool(miss.any() and not miss.all())


def classes(case):
    K = case["K"]
    out = [case["cls"], f"poison {case['poison']}", f"form {case['form']}"]
    if (K.any(axis=1) & ~K.all(axis=1)).any():
        out.append("partially masked row")
    if K.any(axis=1).all():
        out.append("all missing")
    return out


def simplify(case):
    if case["em"]:
        yield dict(case, em=[])
    if case["kind"] == "linear":
        yield from gen.simplify_linear(case)
        for c in c01.shorten(case):
            yield c
    else:
        yield from gen.simplify_unscented(case)
