"""C17: sigma points, factor updates and densities the filters are built from."""
import importlib
import inspect

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Skip, Violation, close, sut

N = {"quick": 2700, "thorough": 20000}
RULE = (
    "Hypothesis draws one of the public functions and its arguments: sigma points of a "
    "Gaussian (n<=10; default or any alpha, beta, kappa with a positive spread) in both "
    "implementations, sent through no function, affine or nonlinear ones with or without "
    "additive noise; Cholesky factors (n<=10, rows of either sign) changed by one or several "
    "vectors with a positive, negative or zero weight; triangular factors of tall matrices "
    "(also rank deficient); UDU' factors of positive (semi)definite matrices; decorrelated "
    "observations; one scalar observation of UDU' factors; one predict and correct step with additive or augmented "
    "noise; Gaussian log densities of many points; components of all arguments in "
    "units differing by up to 2^20. Each result is compared with the defining equation. "
    "Non-trivial: dimension at least two."
)
ASSUMPTIONS = [
    "the function is found under its public name and takes these arguments (else counted as outside the domain)",
    "factor downdates, and transforms with negative weights in the square root implementation, whose result is positive definite with eigenvalue ratio above 1e-6",
    "sigma point spreads between 1e-3 and 10 standard deviations",
]
KINDS = ["sigma"] * 4 + ["cholupdate"] * 3 + ["qr", "udu", "decorrelate", "density"] + ["step"] * 3 + ["column"]


def public(module, name, *args, **kw):
    """The function, if it exists and takes these arguments."""
    try:
        f = getattr(importlib.import_module(module), name)
        inspect.signature(f).bind(*args, **kw)
    except (ImportError, AttributeError, TypeError):
        raise Skip from None
    return f


@st.composite
def strategy_(draw, tier):
    kind = draw(st.sampled_from(KINDS))
    n = draw(st.one_of(st.integers(1, 4), st.integers(1, 10)))
    rng = np.random.RandomState(draw(gen.seeds))
    c = dict(kind=kind)
    modes = ["rand", "eye", "diag", "corr", "int"]
    c["units"] = draw(gen.state_units(n))
    if kind == "sigma":
        m = draw(st.integers(1, 6))
        c["root"] = draw(st.booleans())
        c["mu"] = np.round(rng.randn(n) * draw(st.sampled_from([0.0, 1.0, 10.0])), 3)
        c["S"] = gen.covm(rng, n, draw(st.sampled_from(modes)))
        spread = None
        if draw(st.booleans()):
            spread = [draw(st.sampled_from([1e-3, 0.1, 0.5, 1.0, 1.5])), draw(st.sampled_from([0.0, 1.0, 2.0])), None]
            spread[2] = draw(st.sampled_from([0.0, 3.0 - n, 1.0, 2.5]))
            if n + spread[2] <= 0:
                spread[2] = 0.0
        c["spread"] = spread
        c["f"] = draw(st.sampled_from(["none", "affine", "affine", "sine", "square"]))
        if c["f"] == "none":
            m = n
        c["A"], c["b"] = rng.randn(m, n), rng.randn(m)
        c["noise"] = gen.covm(rng, m, draw(st.sampled_from(modes))) if draw(st.booleans()) else None
    elif kind == "step":
        n = draw(st.integers(1, 6))
        m = draw(st.integers(1, 4))
        c["units"] = draw(gen.state_units(n))
        c["root"], c["augmented"] = draw(st.booleans()), draw(st.booleans())
        c["U"] = draw(gen.unscented_model(2, c["augmented"], draw(st.booleans()), n=n, m=m, tv=False, scaled=False))
        c["z"] = gen.unscented_observations(c["U"], 1, rng, draw(st.sampled_from(["model", "zeros", "spike"])))[0]
        c["missing"] = draw(st.sampled_from([False, False, False, True]))
    elif kind == "column":
        c["S"] = gen.covm(rng, n, draw(st.sampled_from(modes + ["rank"])))
        c["h"] = rng.randn(n) * (rng.rand(n) < draw(st.sampled_from([1.0, 0.5])))
        c["R"] = float(draw(st.sampled_from([1.0, 1e-3, 0.3, 7.0, 1e3])))
    elif kind == "cholupdate":
        k = draw(st.sampled_from([0, 1, 1, 2, 3, 2 * n + 1, 3 * n + 4]))
        c["S"] = gen.covm(rng, n, draw(st.sampled_from(modes)))
        c["signs"] = rng.choice([-1.0, 1.0], n) if draw(st.booleans()) else np.ones(n)
        X = rng.randn(max(k, 1), n) * (rng.rand(max(k, 1), n) < draw(st.sampled_from([1.0, 0.5])))
        c["X"] = X if k else X[0]
        c["w"] = draw(st.sampled_from([1.0, 2.5, 1e-3, 0.0, -0.1, -0.5, -0.9]))
        if c["w"] < 0:  # a fraction of what can be taken away
            L = np.linalg.cholesky(c["S"])
            t = np.linalg.solve(L, np.atleast_2d(X).T)
            top = np.linalg.norm(t, 2) ** 2
            c["w"] = c["w"] / top if top > 0 else c["w"]
    elif kind == "qr":
        k = n + draw(st.integers(0, 2 * n))
        X = rng.randn(k, n)
        if draw(st.booleans()):
            X[:, rng.randint(n)] = X[:, rng.randint(n)] * draw(st.sampled_from([0.0, 1.0]))
        c["X"] = X
        c["wide"] = draw(st.booleans())
    elif kind == "udu":
        c["S"] = gen.covm(rng, n, draw(st.sampled_from(modes + ["rank", "someaxes", "zero"])))
        c["scale"] = draw(st.sampled_from([1.0, 1.0, 1e-12, 1e12]))
    elif kind == "decorrelate":
        m, T = draw(st.integers(1, 5)), draw(st.integers(1, 4))
        c["units"] = draw(gen.state_units(m))
        c["R"] = gen.covm(rng, m, draw(st.sampled_from(modes)))
        c["C"] = rng.randn(*([T] if draw(st.booleans()) else []), m, n)
        c["d"] = rng.randn(*([T] if draw(st.booleans()) else []), m)
        c["Z"] = 2 * rng.randn(T, m)
    else:
        k, j = draw(st.integers(1, 4)), draw(st.integers(1, 3))
        c["X"], c["mu"] = 3 * rng.randn(k, n), rng.randn(j, n)
        c["S"] = np.array([gen.covm(rng, n, draw(st.sampled_from(modes))) for _ in range(j)])
    return c


def strategy(tier):
    return strategy_(tier)


def untouched(name, before, after):
    for a, b in zip(before, after):
        if not np.array_equal(a, b):
            raise Violation(f"{name} changed its argument")


def upper(name, R, scale):
    R = np.asarray(R)
    close(f"{name}: below the diagonal", np.tril(R, -1), np.zeros_like(R), scale, 1e-10)


def units(case, scale=1.0):
    u = np.asarray(case["units"], float)
    return scale * 2.0 ** gen.limit(u, 10) if u.size else 1.0


def sigma(case):
    D = units(case)
    mu, S = np.asarray(case["mu"]) * D, np.asarray(case["S"]) * np.outer(D, D)
    n = len(mu)
    A, b = np.asarray(case["A"]) / D, np.asarray(case["b"])
    N_ = case["noise"]
    a, be, ka = case["spread"] or (1.0, 0.0, 3.0 - n)
    kw = dict(zip(("alpha", "beta", "kappa"), case["spread"])) if case["spread"] else {}
    c = a * a * (n + ka)
    module = "pykalman.sqrt.unscented" if case["root"] else "pykalman.unscented"
    factor = np.linalg.cholesky(S).T
    moments = public(module, "Moments", mu, S)(mu, factor if case["root"] else S)
    m2p = public(module, "moments2points", moments, **kw)
    P = sut("moments2points", m2p, moments, **kw)
    try:
        X, wm, wc = (np.asarray(x, float) for x in (P.points, P.weights_mean, P.weights_covariance))
    except AttributeError:
        raise Skip from None
    W = np.abs(wm).max() + np.abs(wc).max() + 1.0
    sd = np.sqrt(np.diag(S))
    size = 1.0 + np.abs(mu / sd).max()
    r = 1e-12 * W * size * (1 + 1 / c)
    # the points represent the Gaussian
    if X.shape != (2 * n + 1, n):
        raise Violation(f"moments2points returned points of shape {X.shape}")
    close("sum of the weights of the mean", wm.sum(), 1.0, 1.0, 1e-13 * W * n)
    close("mean of the sigma points", (wm @ X) / sd, mu / sd, 1.0, r)
    dev = (X - mu) / sd
    close("covariance of the sigma points", (dev.T * wc) @ dev, S / np.outer(sd, sd), 1.0, r * size)
    K = S / np.outer(sd, sd)
    away = (dev * np.linalg.solve(K, dev.T).T).sum(axis=1)
    close("spread of the sigma points", np.sort(away), [0.0] + [c] * (2 * n), 1 + c, r * size * np.linalg.cond(K))
    close("central weights", wc[0] - wm[0], 1 - a * a + be, 1.0, 1e-12 * W)
    # what functions make of them
    f = dict(
        none=None, affine=lambda x: A @ x + b, sine=lambda x: np.sin(A @ x) + b, square=lambda x: (A @ x) ** 2 / 4 + b
    )[case["f"]]
    Y = np.array([f(x) for x in X]) if f else X
    E = units(case) if case["f"] == "none" else np.ones(Y.shape[1])
    noise = None if N_ is None else np.asarray(N_) * np.outer(E, E)
    ym = wm @ Y
    yd = Y - ym
    yc = (yd.T * wc) @ yd + (0 if noise is None else noise)
    scale = np.abs(Y / E).max() ** 2
    V = yc / np.outer(E, E)
    if case["root"]:
        if noise is None and Y.shape[1] > (wc >= 0).sum():
            raise Skip  # no factor of this size can be had from so few points
        lam = np.linalg.eigvalsh((V + V.T) / 2)
        if wc.min() < 0 and lam[0] < 1e-6 * max(lam[-1], W * scale * 1e-3):
            raise Skip
    if case["root"]:
        Y_ = public(module, "SigmaPoints", Y, wm, wc)(Y, wm, wc)
        p2m = public(module, "points2moments", Y_, sigma2_noise=None)
        N2 = None if noise is None else np.linalg.cholesky(noise).T
        M = sut("points2moments", p2m, Y_, sigma2_noise=N2)
        got = np.asarray(M[1]).T @ np.asarray(M[1])
    else:
        args = (P, f)
        ut = public(module, "unscented_transform", *args, sigma_noise=noise)
        Q, M = sut("unscented_transform", ut, *args, sigma_noise=noise)
        close("transformed points", np.asarray(Q.points) / E, Y / E, np.abs(Y / E).max() + 1e-30, 1e-12)
        got = np.asarray(M[1])
    tol = 1e-12 * W * n + (1e-13 * W * W if case["root"] else 0.0)
    if case["root"] and wc.min() < 0:
        tol *= max(1.0, lam[-1] / lam[0])
    close("transformed mean", np.asarray(M[0]) / E, ym / E, np.abs(Y / E).max() + 1e-30, tol)
    close("transformed covariance", got / np.outer(E, E), V, scale + np.abs(V).max() + 1e-30, tol)
    if case["f"] == "affine":  # and the exact answer
        close("mean of an affine function", M[0], np.asarray(case["A"]) @ case["mu"] + b, np.abs(Y).max() + 1.0, r + tol)
        exact = np.asarray(case["A"]) @ np.asarray(case["S"]) @ np.asarray(case["A"]).T + (0 if noise is None else noise)
        close("covariance of an affine function", got, exact, scale + np.abs(exact).max(), r * size + tol)


def cholupdate(case):
    D = units(case)
    S = np.asarray(case["S"]) * np.outer(D, D)
    R = np.linalg.cholesky(S).T * np.asarray(case["signs"])[:, None]
    X, w = np.asarray(case["X"]) * D, case["w"]
    f = public("pykalman.sqrt.unscented", "cholupdate", R, X, w)
    args = (R.copy(), X.copy())
    got = np.asarray(sut("cholupdate", f, args[0], args[1], w))
    untouched("cholupdate", (R, X), args)
    X = np.atleast_2d(X)
    want = S + w * X.T @ X
    s = np.sqrt(np.diag(S) + np.diag(want))
    F = want / np.outer(s, s)
    lam = np.linalg.eigvalsh(F)
    if lam[0] < 1e-6:
        raise Skip
    if got.shape != R.shape:
        raise Violation(f"cholupdate returned shape {got.shape}")
    upper("cholupdate", got / s, 1.0)
    close("updated factor", (got.T @ got) / np.outer(s, s), F, 1.0, 1e-11 / lam[0])


def qr(case):
    D = units(case)
    X = np.asarray(case["X"]) * D
    f = public("pykalman.sqrt.unscented", "qr", X)
    if case["wide"] and X.shape[0] > 1:
        W = X.T[: X.shape[1]]
        if W.shape[0] < W.shape[1]:
            try:
                f(W)
            except ValueError:
                pass
            else:
                raise Violation("qr accepted a matrix with more columns than rows")
    arg = X.copy()
    R = np.asarray(sut("qr", f, arg))
    untouched("qr", (X,), (arg,))
    n = X.shape[1]
    if R.shape != (n, n):
        raise Violation(f"qr returned shape {R.shape}")
    s = np.sqrt((X**2).sum(axis=0)) + 1e-100
    upper("qr", R / s, 1.0)
    close("R'R of the triangular factor", (R.T @ R) / np.outer(s, s), (X.T @ X) / np.outer(s, s), 1.0, 1e-10)


def udu(case):
    D = units(case)
    S = np.asarray(case["S"]) * np.outer(D, D) * case["scale"]
    f = public("pykalman.sqrt.bierman", "udu", S)
    arg = S.copy()
    F = sut("udu", f, arg)
    untouched("udu", (S,), (arg,))
    try:
        U, d, back = np.asarray(F.U, float), np.asarray(F.D, float), np.asarray(F.reconstruct(), float)
    except AttributeError:
        raise Skip from None
    n = len(S)
    s = np.sqrt(np.diag(S))
    s = np.where(s > 0, s, s.max() if s.any() else 1.0)
    if U.shape != (n, n) or d.shape != (n,):
        raise Violation(f"udu returned shapes {U.shape} and {d.shape}")
    close("diagonal of U", np.diag(U), np.ones(n), 1.0, 1e-12)
    close("below the diagonal of U", np.tril(U, -1), np.zeros((n, n)), 1.0, 1e-12)
    if (d < -1e-9 * s**2).any():
        raise Violation(f"udu of a positive semidefinite matrix has negative D: {d.tolist()}")
    for what, M in (("UDU'", (U * d) @ U.T), ("reconstructed UDU'", back)):
        close(what, M / np.outer(s, s), S / np.outer(s, s), 1.0, 1e-9)


def decorrelate(case):
    D = units(case)
    C, d, Z = (np.asarray(case[k]) for k in "CdZ")
    R = np.asarray(case["R"]) * np.outer(D, D)
    C, d, Z = C * D[:, None], d * D, Z * D
    f = public("pykalman.sqrt.bierman", "decorrelate_observations", C, d, R, Z)
    args = (C.copy(), d.copy(), R.copy(), Z.copy())
    out = sut("decorrelate_observations", f, *args)
    untouched("decorrelate_observations", (C, d, R, Z), args)
    try:
        C2, d2, R2, Z2 = (np.asarray(x, float) for x in out)
    except (TypeError, ValueError):
        raise Skip from None
    if C2.shape != C.shape or d2.shape != d.shape or R2.shape != R.shape or Z2.shape != Z.shape:
        raise Violation("decorrelate_observations changed shapes")
    v = np.diag(R2)
    if (v <= 0).any():
        raise Violation(f"decorrelated variances {v.tolist()}")
    close("decorrelated covariance", R2 - np.diag(v), 0 * R2, v.max(), 1e-9)
    # the observations say the same about the state
    G = np.linalg.inv(np.asarray(case["R"]))
    c0, e0 = np.asarray(case["C"]), np.asarray(case["Z"]) - np.asarray(case["d"])
    e2 = Z2 - d2
    for t in range(len(Z)):
        a, b = (c0[t] if c0.ndim == 3 else c0), (C2[t] if C2.ndim == 3 else C2)
        top = np.abs(G).max() * len(v) ** 2
        close("information about the state", (b.T / v) @ b, a.T @ G @ a, top * np.abs(a).max() ** 2, 1e-8)
        close("information of the observation", (b.T / v) @ e2[t], a.T @ G @ e0[t], top * np.abs(a).max() * (np.abs(e0).max() + 1), 1e-8)
        close("size of the innovation", (e2[t] / v) @ e2[t], e0[t] @ G @ e0[t], top * (np.abs(e0).max() + 1) ** 2, 1e-8)


def density(case):
    D = units(case)
    X, mu, S = np.asarray(case["X"]), np.asarray(case["mu"]), np.asarray(case["S"])
    args = (X * D, mu * D, S * np.outer(D, D))
    f = public("pykalman.utils", "log_multivariate_normal_density", *args)
    got = sut("log density", f, *[a.copy() for a in args])
    n = X.shape[1]
    want = np.empty((len(X), len(mu)))
    for j in range(len(mu)):
        e = X - mu[j]
        want[:, j] = -0.5 * (
            (e * np.linalg.solve(S[j], e.T).T).sum(axis=1) + n * np.log(2 * np.pi) + np.linalg.slogdet(S[j])[1]
        ) - np.log(D).sum()
    close("log density", got, want, np.abs(want).max() + n, 1e-9)


def step(case):
    """Predict and correct once, as unscented_filter_predict and _correct say."""
    root, aug = case["root"], case["augmented"]
    D = units(case)
    E = np.outer(D, D)
    W = case["U"]
    U = gen.in_units_unscented(W, D)
    z, miss = np.asarray(case["z"], float), case["missing"]
    n, m = len(U["m0"]), len(U["R"])
    kind = "aug" if aug else "add"
    try:
        ref.WORST[0] = 1.0
        fs, gs = gen.func(W["f"], 0), gen.func(W["g"], 0)
        pm, pc = ref.ukf_step(kind, W["m0"], W["P0"], fs, gs, W["Q"], W["R"], z, True, False)
        wm, wc = ref.ukf_step(kind, W["m0"], W["P0"], fs, gs, W["Q"], W["R"], z, miss, False)
        ref.chol(pc)
        ref.chol(wc)
        worst = ref.WORST[0]
    except ref.NotPD:
        raise Skip from None
    module = "pykalman.sqrt.unscented" if root else "pykalman.unscented"
    fac = (lambda S: np.linalg.cholesky(S).T) if root else (lambda S: np.array(S))
    full = (lambda S: np.asarray(S).T @ np.asarray(S)) if root else np.asarray
    noise = "sigma2_" if root else "sigma_"
    Moments = public(module, "Moments", U["m0"], U["P0"])
    f, g = gen.func(U["f"], 0), gen.func(U["g"], 0)
    if aug:
        parts = [(U["m0"], U["P0"]), (np.zeros(n), U["Q"]), (np.zeros(m), U["R"])]
        RM = public("pykalman.unscented", "Moments", *parts[0])
        ap = public("pykalman.unscented", "augmented_points", parts)
        pts = sut("augmented_points", ap, [RM(*p) for p in parts])
        if len(pts) != 3:
            raise Violation(f"augmented_points of three Gaussians returned {len(pts)} sets")
        kp, kc = dict(points_transition=pts[1]), dict(points_observation=pts[2])
    else:
        m2p = public(module, "moments2points", (U["m0"], U["P0"]))
        pts = [sut("moments2points", m2p, Moments(U["m0"], fac(U["P0"])))]
        kp, kc = {noise + "transition": fac(U["Q"])}, {noise + "observation": fac(U["R"])}
    predict = public(module, "unscented_filter_predict", f, pts[0], **kp)
    pp, pmom = sut("unscented_filter_predict", predict, f, pts[0], **kp)
    r = 1e-9 + 1e-12 * worst
    sx = max(np.abs(W["m0"]).max(), np.abs(pm).max(), np.sqrt(np.abs(pc).max()), np.sqrt(np.abs(W["P0"]).max()), np.abs(wm).max())
    close("predicted mean", np.asarray(pmom[0]) / D, pm, sx, r)
    close("predicted covariance", full(pmom[1]) / E, pc, sx * sx, r)
    if not aug:
        pp = sut("moments2points", m2p, pmom)
    Z = np.ma.array(z, mask=np.arange(m) == 0) if miss else z
    correct = public(module, "unscented_filter_correct", g, pmom, pp, Z, **kc)
    got = sut("unscented_filter_correct", correct, g, pmom, pp, Z, **kc)
    close("corrected mean", np.asarray(got[0]) / D, wm, sx, 10 * r)
    close("corrected covariance", full(got[1]) / E, wc, sx * sx, 10 * r)
    if root:
        upper("corrected factor", np.asarray(got[1]) / D, sx)


def column(case):
    """One scalar observation of a factored covariance."""
    D = units(case)
    S, h, R = np.asarray(case["S"]), np.asarray(case["h"]), case["R"]
    mod = "pykalman.sqrt.bierman"
    P = S * np.outer(D, D)
    F = sut("udu", public(mod, "udu", P), P.copy())
    f = public(mod, "_filter_correct_single", F, h / D, R)
    out = sut("_filter_correct_single", f, F, h / D, R)
    try:
        back, k = out[0].reconstruct(), np.asarray(out[1], float)
    except (AttributeError, TypeError, IndexError):
        raise Skip from None
    v = h @ S @ h + R
    size = np.abs(S).max() + 1e-30
    tol = 1e-10 * (1 + np.abs(S).max() * (h @ h) / R)
    close("gain of one observation", k / D, S @ h / v, size * np.abs(h).sum() / v + 1e-30, tol)
    close("covariance after one observation", back / np.outer(D, D), S - np.outer(S @ h, S @ h) / v, size, tol)


def check(case):
    globals()[case["kind"]](case)


def nontrivial(case):
    if "U" in case:
        return len(case["U"]["m0"]) > 1
    for k in ("S", "X", "C"):
        if k in case:
            return np.shape(case[k])[-1] > 1
    return True


def classes(case):
    out = [case["kind"]]
    if case["kind"] == "sigma":
        out += ["square root" if case["root"] else "regular", case["f"], "any spread" if case["spread"] else "default spread"]
        if case["noise"] is not None:
            out.append("additive noise")
        if len(case["mu"]) > 3:
            out.append("n > 3")
    if case["kind"] == "step":
        out += ["step: square root" if case["root"] else "step: regular", "step: augmented" if case["augmented"] else "step: additive"]
    if case["kind"] == "cholupdate":
        out.append("downdate" if case["w"] < 0 else "update")
        if np.ndim(case["X"]) == 2:
            out.append("several vectors")
    if np.any(case["units"]):
        out.append("mixed units")
    return out


def simplify(case):
    if np.any(case["units"]):
        yield dict(case, units=np.zeros_like(case["units"]))
    if case.get("noise") is not None:
        yield dict(case, noise=None)
    for k in ("X", "mu", "b", "d", "Z"):
        if k in case and np.any(case[k]):
            v = np.asarray(case[k], float)
            for w in (np.zeros_like(v), np.round(v)):
                if not np.array_equal(v, w):
                    yield dict(case, **{k: w})
    if "U" in case:
        yield from gen.simplify_unscented(case)
    if "S" in case and np.ndim(case["S"]) == 2 and not np.array_equal(case["S"], np.eye(len(case["S"]))):
        yield dict(case, S=np.eye(len(case["S"])))
