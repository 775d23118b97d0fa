"""C16: prefixes, restarts, changes of coordinates, independent systems."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Skip, close, sut
from . import c01, c07, c09

N = {"quick": 1260, "thorough": 9000}
RULE = (
    "Hypothesis draws one of the three linear classes, a model (n<=12, m<=10, mostly small, T<=30, constant "
    "or per-step), observations, a mask, and (1) a cut: prefix and restart from the "
    "predicted state, log likelihoods adding up, later data (and later parameters) of any size "
    "changed; (2) an invertible affine map of the state "
    "(random, scaling of units, permutation, triangular) and one of the observations; (3) a "
    "second system with the same missing steps, stacked with the first and with shuffled "
    "components; or one of the three unscented filters (n<=9, m<=6): prefix, later data, restart, "
    "units that are powers of two. filter, smooth and loglikelihood of the same class on both sides are "
    "compared. Non-trivial: T>1, something observed."
)
ASSUMPTIONS = c01.ASSUMPTIONS + ["maps with condition number below 1e3 apart from the choice of units"]


@st.composite
def unscented_(draw):
    name = draw(st.sampled_from(gen.UNSCENTED))
    T = draw(st.one_of(st.integers(1, 4), st.integers(2, 10)))
    U = draw(gen.unscented_model(T, name == "UKF", False))
    rng = np.random.RandomState(draw(gen.seeds))
    Z = gen.unscented_observations(U, T, rng, draw(st.sampled_from(["model", "spike"])))
    K = draw(gen.mask(T, len(U["R"])))
    n = len(U["m0"])
    if draw(st.booleans()):
        units = rng.randint(-24, 25, n)
    else:
        units = rng.randint(-2, 3, n)
    sign = rng.choice([-1.0, 1.0]) if draw(st.booleans()) else 1.0
    return dict(
        cls=name, U=U, Z=Z, K=K, what="unscented", cut=draw(st.integers(1, T)), units=units.astype(float),
        zunit=float(rng.randint(-24, 25)), sign=float(sign), seed=int(rng.randint(2**31 - 1)),
    )


@st.composite
def strategy_(draw, tier):
    if draw(st.sampled_from([False, False, True])):
        return draw(unscented_())
    name = draw(st.sampled_from(gen.LINEAR))
    T = draw(st.one_of(st.integers(1, 5), st.integers(2, 12), st.integers(5, 30)))
    kf = name == "KalmanFilter"
    M = draw(gen.linear_model(T, psd=kf and draw(st.booleans()), tv_cov=kf, exact_sensors=kf))
    Z, K = draw(gen.observations(M, T))
    rng = np.random.RandomState(draw(gen.seeds))
    n, m = gen.dims(M)
    what = draw(st.sampled_from(["cut", "map", "map", "join"]))
    c = dict(
        cls=name, M=M, Z=Z, K=K, what=what, cut=draw(st.integers(1, T)), seed=draw(gen.seeds),
        later=draw(st.sampled_from([1.0, 1e3, 1e-3, 1e14, 1e14, 1e-14])), flip=draw(st.booleans()),
    )
    if what == "map":
        c["S"], c["s"] = linmap(rng, n, draw(st.sampled_from(MAPS)))
        c["U"], c["u"] = linmap(rng, m, draw(st.sampled_from(MAPS)))
        if binary(c["U"]):
            c["U"] = np.eye(m) * c["U"][0, 0]
        if draw(st.booleans()):
            c["s"] = np.zeros(n)
        c["s"] = c["s"] * gen.state_size(M)
        c["u"] = c["u"] * np.sqrt(np.trace(ref.at(M["R"], 0, 2)) / m)
    elif what == "join":
        n2, m2 = draw(st.integers(1, 3)), draw(st.integers(1, 3))
        M2 = draw(gen.linear_model(T, n2, m2, psd=kf and draw(st.booleans()), tv_cov=kf, exact_sensors=kf))
        Z2, _ = draw(gen.observations(M2, T))
        c.update(M2=M2, Z2=Z2, px=rng.permutation(n + n2), pz=rng.permutation(m + m2))
    return c


MAPS = ["random", "binary", "units", "permutation", "triangular", "identity", "orthogonal", "sign"]


def linmap(rng, n, how):
    s = rng.randn(n)
    if how == "random":
        S = rng.randn(n, n) + 2 * np.eye(n)
        if np.linalg.cond(S) > 100:
            S = np.eye(n) + 0.3 * rng.randn(n, n) / n
    elif how == "units":
        S = np.diag(10.0 ** rng.randint(-2, 3, n))
    elif how == "binary":  # exact in floating point, however different the units
        S, s = np.diag(2.0 ** (rng.randint(-16, 17) + rng.choice([0, 0, 3, 12]) * rng.randint(-1, 2, n))), 0 * s
    elif how == "permutation":
        S, s = np.eye(n)[rng.permutation(n)], 0 * s
    elif how == "triangular":
        S = np.eye(n) + np.tril(rng.uniform(-1, 1, (n, n)), -1)
    elif how == "orthogonal":
        S = np.linalg.qr(rng.randn(n, n))[0]
    elif how == "sign":
        S = np.diag(rng.choice([-1.0, 1.0], n))
    else:
        S = np.eye(n)
    return S, s


def strategy(tier):
    return strategy_(tier)


def per(X, nd, fn):
    """fn applied to every step of a parameter."""
    X = np.asarray(X, float)
    return np.array([fn(x) for x in X]) if X.ndim > nd else fn(X)


def both(X, nx, Y, ny, fn):
    """fn of two parameters, either of which may vary."""
    X, Y = np.asarray(X, float), np.asarray(Y, float)
    if X.ndim == nx and Y.ndim == ny:
        return fn(X, Y)
    k = min(len(a) for a, d in ((X, nx), (Y, ny)) if a.ndim > d)
    return np.array([fn(ref.at(X, t, nx), ref.at(Y, t, ny)) for t in range(k)])


def sym(P):
    return (P + np.swapaxes(P, -1, -2)) / 2


def domain(case, M, Z, K):
    J = c01.reference(dict(M=M, Z=Z, K=K), full=True)
    if case["cls"] != "KalmanFilter":
        c07.pd_domain(J)
    try:
        return J, c01.tolerance(J), c01.smooth_tolerance(J, M)
    except Skip:
        return J, c01.tolerance(J), None


def make(case, M):
    return sut("constructor", gen.cls(case["cls"]), **gen.kw({k: np.array(v, float) for k, v in M.items()}))


def check(case):
    if case["what"] == "unscented":
        return check_unscented(case)
    M, Z, K = case["M"], case["Z"], case["K"]
    J, r, rs = domain(case, M, Z, K)
    kf = make(case, M)
    X = gen.masked(Z, K)
    filt = sut("filter", kf.filter, X)
    ll = sut("loglikelihood", kf.loglikelihood, X)
    smooth = sut("smooth", kf.smooth, X) if rs is not None else None
    if case["cut"] < len(Z):
        later(case)
    dict(cut=check_cut, map=check_map, join=check_join)[case["what"]](case, J, r, rs, kf, filt, smooth, ll)


def rows(M, k, start=0):
    """Parameters of the steps from start on, with the state of step start as first."""
    out = {}
    for key, v in M.items():
        v = np.asarray(v, float)
        out[key] = v[start:] if key in "AbCdQR" and v.ndim > gen.ND[key] else v
    return out


def check_cut(case, J, r, rs, kf, filt, smooth, ll):
    M, Z, K, k = case["M"], case["Z"], case["K"], case["cut"]
    T = len(Z)
    sx, sc = J.mean_scale(), J.cov_scale()
    got = sut("filter", kf.filter, gen.masked(Z[:k], K[:k]))
    close("filtered means of a prefix", got[0], filt[0][:k], sx, r)
    close("filtered covariances of a prefix", got[1], filt[1][:k], sc, r)
    a = sut("loglikelihood", kf.loglikelihood, gen.masked(Z[:k], K[:k]))
    size = np.abs(J.ll).sum() + T
    if k == T:
        close("log likelihood of a prefix", a, ll, size, 10 * r)
        return
    A, b, Q = (ref.at(np.asarray(M[q], float), k - 1, gen.ND[q]) for q in "AbQ")
    m0, P0 = A @ filt[0][k - 1] + b, sym(A @ filt[1][k - 1] @ A.T + Q)
    rest = rows(M, T, k)
    for q in "AbQ":  # the last steps may need no transition any more
        if rest[q].ndim > gen.ND[q] and len(rest[q]) == 0:
            rest[q] = np.asarray(M[q], float)[-1]
    rest.update(m0=m0, P0=P0)
    if case["cls"] != "KalmanFilter":
        e = np.linalg.eigvalsh(P0)
        if not e[0] > 1e-9 * e[-1]:
            return
    other = make(case, rest)
    X = gen.masked(Z[k:], K[k:])
    got = sut("filter", other.filter, X)
    r2 = 10 * r
    close("filtered means after a restart", got[0], filt[0][k:], sx, r2)
    close("filtered covariances after a restart", got[1], filt[1][k:], sc, r2)
    b = sut("loglikelihood", other.loglikelihood, X)
    close("log likelihoods of both parts", a + b, ll, size, 100 * r)
    if smooth is not None:
        got = sut("smooth", other.smooth, X)
        close("smoothed means after a restart", got[0], smooth[0][k:], sx, 10 * rs)
        close("smoothed covariances after a restart", got[1], smooth[1][k:], sc, 10 * rs)


def later(case):
    """What comes later changes nothing, however different it is."""
    M, Z, K, k = case["M"], np.array(case["Z"], float), np.array(case["K"]), case["cut"]
    rng = np.random.RandomState(case["seed"])
    f = case["later"]
    Z[k:] = f * (Z[k:] + Z.std() * rng.randn(*Z[k:].shape))
    if case["flip"]:
        K[k:] ^= rng.rand(len(Z) - k, 1) < 0.3
    P = {q: np.array(v, float) for q, v in M.items()}
    for q in "AbQCdR":
        if P[q].ndim > gen.ND[q]:
            i = k - 1 if q in "AbQ" else k
            if q in "QR":
                P[q][i:] *= f * f
            elif q in "bd":
                P[q][i:] *= f
            elif q == "C":
                P[q][i:] *= -1.0
    Jp = ref.Joint(rows(M, k), case["Z"][:k], case["K"][:k].any(axis=1), full=False)
    sx, sc = Jp.mean_scale(), Jp.cov_scale()
    r = c01.tolerance(Jp)
    prefix = sut("filter", make(case, M).filter, gen.masked(Z[:k], K[:k]))
    kf = make(case, P)
    try:
        got = kf.filter(gen.masked(Z, K))
    except Exception:  # noqa: BLE001  (the later steps may be beyond double precision)
        return
    close("filtered means before a change", got[0][:k], prefix[0], sx, r)
    close("filtered covariances before a change", got[1][:k], prefix[1], sc, r)
    got = sut("filter", kf.filter, gen.masked(Z[:k], K[:k]))
    close("filtered means of a prefix", got[0], prefix[0], sx, r)
    close("filtered covariances of a prefix", got[1], prefix[1], sc, r)


def in_units(F, D, out, E):
    """A function spec with the state in units D, values in units out, noise in units E."""
    G = dict(F)
    G["A"] = F["A"] * np.outer(out, 1 / D)
    G["W"] = F["W"] / D
    for q in "bg":
        G[q] = F[q] * out
    if "B" in F:
        G["B"] = F["B"] * np.outer(out, 1 / E)
        G["k"] = F["k"] / out
    return G


def check_unscented(case):
    """Prefixes, later observations, restarts and units of the unscented filters."""
    U, Z, K, k = case["U"], case["Z"], case["K"], case["cut"]
    T = len(Z)
    aug = case["cls"] == "UKF"
    fm, fc, _, _, worst = c09.reference("aug" if aug else "add", case)
    sx, sc = c09.scales(U, fm, fc)
    r = 1e-9 + 1e-12 * worst
    new = lambda U, T: sut("constructor", gen.unscented, case["cls"], U, T)  # noqa: E731
    kf = new(U, T)
    X = gen.masked(Z, K)
    filt = sut("filter", kf.filter, X)
    smooth = sut("smooth", kf.smooth, X)
    # prefix, and another continuation
    got = sut("filter", kf.filter, gen.masked(Z[:k], K[:k]))
    rng = np.random.RandomState(case["seed"])
    Z2, K2 = np.array(Z), np.array(K)
    Z2[k:] += 3 * np.sqrt(np.diag(U["R"])) * rng.randn(T - k, Z.shape[1])
    K2[k:] ^= rng.rand(T - k, 1) < 0.4
    try:
        c09.reference("aug" if aug else "add", dict(U=U, Z=Z2, K=K2), False)
        other = sut("filter", kf.filter, gen.masked(Z2, K2))
    except Skip:
        other = None
    px, pc = c09.scales(U, fm[:k], fc[:k])
    for what, g in (("of a prefix", got), ("before a change", other)):
        if g is not None:
            close(f"filtered means {what}", g[0][:k], filt[0][:k], px, r)
            close(f"filtered covariances {what}", g[1][:k], filt[1][:k], pc, r)
    if not aug and k < T:
        restart(case, new, kf, filt, smooth, sx, sc, r)
    # units
    D, out = 2.0 ** case["units"], 2.0 ** case["zunit"] * np.full(len(U["R"]), case["sign"])
    V = dict(
        f=in_units(U["f"], D, D, D), g=in_units(U["g"], D, out, out), Q=U["Q"] * np.outer(D, D),
        R=U["R"] * np.outer(out, out), m0=U["m0"] * D, P0=U["P0"] * np.outer(D, D),
    )
    if aug and case["sign"] < 0:  # factors are unique up to signs only
        V["g"] = in_units(U["g"], D, out, np.abs(out))
    X2 = gen.masked(Z * out, K)
    kf = new(V, T)
    got = sut("filter", kf.filter, X2)
    E = np.outer(D, D)
    close("filtered means in other units", got[0] / D, filt[0], sx, 10 * r)
    close("filtered covariances in other units", got[1] / E, filt[1], sc, 10 * r)
    spread = D.max() / D.min()
    if spread <= 16:
        got = sut("smooth", kf.smooth, X2)
        close("smoothed means in other units", got[0] / D, smooth[0], sx, 20 * r * spread**2)
        close("smoothed covariances in other units", got[1] / E, smooth[1], sc, 20 * r * spread**2)


def restart(case, new, kf, filt, smooth, sx, sc, r):
    """The additive filters restarted from the predicted state."""
    U, Z, K, k = case["U"], case["Z"], case["K"], case["cut"]
    T = len(Z)
    kw = {}
    if U["f"]["tv"]:
        kw["transition_function"] = gen.func(U["f"], k - 1)
    if U["g"]["tv"]:
        kw["observation_function"] = gen.func(U["g"], k)
    m0, P0 = sut("filter_update", kf.filter_update, np.array(filt[0][k - 1]), np.array(filt[1][k - 1]), None, **kw)
    P0 = sym(P0)
    e = np.linalg.eigvalsh(P0)
    if not e[0] > 1e-7 * e[-1]:
        return
    V = dict(U, m0=np.array(m0), P0=P0)
    for q, i in (("f", k), ("g", k)):
        if U[q]["tv"]:
            V[q] = {a: (v if a == "tv" else v[i:]) for a, v in U[q].items()}
            if len(V[q]["b"]) == 0:
                V[q] = {a: (v if a == "tv" else v[-1:]) for a, v in U[q].items()}
    kf = new(V, T - k)
    X = gen.masked(Z[k:], K[k:])
    got = sut("filter", kf.filter, X)
    close("filtered means after a restart", got[0], filt[0][k:], sx, 10 * r)
    close("filtered covariances after a restart", got[1], filt[1][k:], sc, 10 * r)
    got = sut("smooth", kf.smooth, X)
    close("smoothed means after a restart", got[0], smooth[0][k:], sx, 100 * r)
    close("smoothed covariances after a restart", got[1], smooth[1][k:], sc, 100 * r)


def check_map(case, J, r, rs, kf, filt, smooth, ll):
    M, Z, K = case["M"], case["Z"], case["K"]
    S, s, U, u = case["S"], case["s"], case["U"], case["u"]
    Si = np.linalg.inv(S)
    T = len(Z)
    A2 = per(M["A"], 2, lambda A: S @ A @ Si)
    C2 = per(M["C"], 2, lambda C: C @ Si)
    N = dict(
        A=A2, b=both(M["b"], 1, A2, 2, lambda b, A: S @ b + s - A @ s),
        C=per(C2, 2, lambda C: U @ C), d=both(M["d"], 1, C2, 2, lambda d, C: U @ (d - C @ s) + u),
        Q=sym(per(M["Q"], 2, lambda Q: S @ Q @ S.T)), R=sym(per(M["R"], 2, lambda R: U @ R @ U.T)),
        m0=S @ M["m0"] + s, P0=sym(S @ M["P0"] @ S.T),
    )
    Z2 = Z @ U.T + u
    # restoring exact zeros: rounding must not make a singular covariance indefinite
    for k in ("Q", "P0"):
        W = np.asarray(N[k]).reshape((-1,) + N[k].shape[-2:])
        for P in W:
            e = np.linalg.eigvalsh(P)
            if e[0] < 1e-9 * e[-1] and np.any(P) and not exact(S):
                rs = None  # the smoother has to decide which eigenvalues are zero
    scaling = binary(S) and binary(U) and not np.any(s) and not np.any(u)
    if scaling:  # only the smoother's solve can tell the difference
        J2, r2, rs2 = J, r, None
        spread = np.diag(S).max() / np.diag(S).min()
        if rs is not None and spread <= 16:
            rs2 = rs * spread**2
    else:
        J2, r2, rs2 = domain(case, N, Z2, K)
    # compare in the original coordinates, each component in its own units
    got = sut("filter", make(case, N).filter, gen.masked(Z2, K))
    back = lambda m_: (np.asarray(m_) - s) @ Si.T  # noqa: E731
    backc = lambda P_: Si @ np.asarray(P_) @ Si.T  # noqa: E731
    amp = np.abs(Si).max()
    sx = J.mean_scale() if scaling else max(J.mean_scale(), amp * J2.mean_scale())
    sc = J.cov_scale() if scaling else max(J.cov_scale(), amp**2 * J2.cov_scale())
    tol = r + r2
    close("filtered means in other coordinates", back(got[0]), filt[0], sx, tol)
    close("filtered covariances in other coordinates", backc(got[1]), filt[1], sc, tol)
    a = sut("loglikelihood", make(case, N).loglikelihood, gen.masked(Z2, K))
    k = int((~K.any(axis=1)).sum())
    jac = k * np.linalg.slogdet(U)[1]
    size = np.abs(J.ll).sum() + np.abs(J2.ll).sum() + abs(jac) + T
    close("log likelihood in other units", a + jac, ll, size, 10 * tol + 1e-14 * np.sqrt(J.far + J2.far))
    if rs is not None and rs2 is not None:
        got = sut("smooth", make(case, N).smooth, gen.masked(Z2, K))
        tol = 10 * (rs + rs2)
        close("smoothed means in other coordinates", back(got[0]), smooth[0], sx, tol)
        close("smoothed covariances in other coordinates", backc(got[1]), smooth[1], sc, tol)


def binary(S):
    """Diagonal of powers of two."""
    d = np.diag(S)
    return np.array_equal(S, np.diag(d)) and bool(np.all(np.frexp(d)[0] == 0.5))


def exact(S):
    """Permutations and powers of two keep singular matrices exactly singular."""
    return np.array_equal(np.abs(S) > 0, np.abs(S) == 1)


def stack(X, Y, nd, T):
    """Block-diagonal (matrices) or concatenated (vectors) parameters."""

    def one(x, y):
        if nd == 1:
            return np.concatenate([x, y])
        out = np.zeros((x.shape[0] + y.shape[0], x.shape[1] + y.shape[1]))
        out[: x.shape[0], : x.shape[1]] = x
        out[x.shape[0] :, x.shape[1] :] = y
        return out

    return both(X, nd, Y, nd, one)


def check_join(case, J, r, rs, kf, filt, smooth, ll):
    M, Z, K, M2, Z2 = (case[k] for k in ("M", "Z", "K", "M2", "Z2"))
    T = len(Z)
    miss = K.any(axis=1)
    K2 = np.repeat(miss[:, None], Z2.shape[1], axis=1)
    Jb, rb, rsb = domain(case, M2, Z2, K2)
    px, pz = case["px"], case["pz"]
    N = {}
    for k in M:
        N[k] = stack(M[k], M2[k], gen.ND[k], T)
    for k, i, j in (("A", px, px), ("Q", px, px), ("P0", px, px), ("C", pz, px), ("R", pz, pz)):
        N[k] = N[k][..., i, :][..., :, j]
    for k, i in (("b", px), ("m0", px), ("d", pz)):
        N[k] = N[k][..., i]
    Zj = np.hstack([Z, Z2])[:, pz]
    Kj = np.hstack([K, K2])[:, pz]
    Jj, rj, rsj = domain(case, N, Zj, Kj)
    tol = r + rb + rj
    other = make(case, M2)
    X2, Xj = gen.masked(Z2, K2), gen.masked(Zj, Kj)
    joined = make(case, N)
    n = len(M["m0"])

    def compare(what, tol, one, two, got):
        m_ = np.hstack([one[0], two[0]])[:, px]
        P = np.array([stack(a, b, 2, T) for a, b in zip(one[1], two[1])])[:, px][:, :, px]
        close(f"{what} means of two independent systems", got[0], m_, Jj.mean_scale(), tol)
        close(f"{what} covariances of two independent systems", got[1], P, Jj.cov_scale(), tol)

    compare("filtered", tol, filt, sut("filter", other.filter, X2), sut("filter", joined.filter, Xj))
    a = sut("loglikelihood", other.loglikelihood, X2)
    b = sut("loglikelihood", joined.loglikelihood, Xj)
    close("log likelihood of two independent systems", b, ll + a, np.abs(J.ll).sum() + np.abs(Jb.ll).sum() + T, 10 * tol)
    if None not in (rs, rsb, rsj):
        compare("smoothed", rs + rsb + rsj, smooth, sut("smooth", other.smooth, X2), sut("smooth", joined.smooth, Xj))


def nontrivial(case):
    return bool(len(case["Z"]) > 1 and not case["K"].any(axis=1).all())


def classes(case):
    if case["what"] == "unscented":
        return [case["cls"], case["what"]] + c09.classes(case)
    return [case["cls"], case["what"]] + [c for c in c01.model_classes(case) if "=" not in c or c.startswith("T")]


def simplify(case):
    if case["what"] == "unscented":
        for k, v in (("units", np.zeros(len(case["units"]))), ("zunit", 0.0), ("sign", 1.0)):
            if not np.array_equal(case[k], v):
                yield dict(case, **{k: v})
        for c in gen.simplify_unscented(case):
            if c["cut"] <= len(c["Z"]):
                yield c
        return
    if case["what"] == "map":
        n, m = gen.dims(case["M"])
        for k, v in (("s", np.zeros(n)), ("u", np.zeros(m)), ("S", np.eye(n)), ("U", np.eye(m))):
            if not np.array_equal(case[k], v):
                yield dict(case, **{k: v})
    yield from gen.simplify_linear(case)
    if case["what"] == "map":
        yield from c01.shorten(case)
