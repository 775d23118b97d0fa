"""C15: validity and monotonicity of covariances."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Skip, Violation, close, sut
from . import c01, c05

N = {"quick": 900, "thorough": 9000}
RULE = (
    "Hypothesis draws KalmanFilter, CholeskyKalmanFilter or BiermanKalmanFilter, a model "
    "(n<=12, m<=10, mostly small, T<=30; singular covariances and per-step parameters for KalmanFilter; "
    "state components in units up to 2^48 apart; "
    "in half of the cases ill-conditioned: observation noise down to 1e-5 or prior "
    "variance up to 1e5 of the scale, nearly dependent states), "
    "observations, a mask and a larger mask. Every covariance of filter, smooth and "
    "filter_update has to be symmetric and positive semidefinite; two runs with different "
    "observed values have to give the same covariances; smoothed <= filtered and fewer "
    "observations >= more observations in the matrix order. Non-trivial: T>1, something "
    "observed, and the larger mask hides at least one more step."
)
ASSUMPTIONS = [
    "rounding allowance relative to the largest variance of the run, growing with the "
    "condition of the innovations (cond < 1e9, drop < 1e11; growth of the dynamics below 1e9)",
    "KalmanFilter's smoother: predicted covariances with eigenvalues either zero or above 1e-6 of the largest",
]


@st.composite
def strategy_(draw, tier):
    name = draw(st.sampled_from(gen.LINEAR))
    T = draw(st.one_of(st.integers(1, 4), st.integers(2, 12), st.integers(5, 30)))
    kf = name == "KalmanFilter"
    M = draw(gen.linear_model(T, psd=kf and draw(st.booleans()), tv_cov=kf, exact_sensors=kf))
    if draw(st.booleans()):
        M["R"] = M["R"] * draw(st.sampled_from([1e-2, 1e-4, 1e-5, 1e-6]))
    if draw(st.booleans()):
        M["P0"] = M["P0"] * draw(st.sampled_from([1e2, 1e4, 1e5, 1e6]))
    if draw(st.sampled_from([False, False, True])):
        M["Q"] = M["Q"] * draw(st.sampled_from([1e-3, 1e-6]))
    Z, K = draw(gen.observations(M, T))
    rng = np.random.RandomState(draw(gen.seeds))
    Z2 = Z + np.abs(Z).max() * rng.randn(*Z.shape) + rng.randn(*Z.shape)
    more = K.any(axis=1)
    more = more | (rng.rand(T) < draw(st.sampled_from([0.2, 0.5, 0.9])))
    if draw(st.booleans()):
        extra = np.zeros(T, bool)
        extra[rng.randint(T)] = True
        more = K.any(axis=1) | extra
    n = len(M["m0"])
    units = np.zeros(n)
    how = draw(st.sampled_from(["same", "same", "mixed", "one"]))
    if how == "mixed":
        units = rng.randint(-24, 25, n).astype(float)
    elif how == "one":
        units[rng.randint(n)] = rng.choice([-30.0, -20.0, -2.0, 2.0, 20.0, 30.0])
    return dict(cls=name, M=M, Z=Z, Z2=Z2, K=K, more=more, t=int(rng.randint(T)), units=units)


def strategy(tier):
    return strategy_(tier)


def tolerance(J):
    return 1e-10 + 2e-14 * J.cond + 2e-15 * J.drop + 1e-14 * J.growth


def domain(M, Z, miss):
    J = ref.Joint(M, Z, miss)
    if not J.ok or J.cond > 1e9 or J.drop > 1e11 or J.growth > 1e9:
        raise Skip
    return J


def valid(name, P, scale, tol):
    """Symmetric and positive semidefinite up to tol * scale."""
    P = np.asarray(P, float)
    if not np.all(np.isfinite(P)):
        raise Violation(f"{name}: not finite")
    for t, S in enumerate(P):
        if np.any(np.diag(S) < -tol * scale):
            raise Violation(f"{name} {t}: negative variance {np.diag(S).min()!r}")
    close(f"{name}: symmetry", P, np.swapaxes(P, 1, 2), scale, tol)
    order(f"{name}: lowest eigenvalue", P, 0 * P, scale, tol)


def order(name, big, small, scale, tol):
    D = np.asarray(big, float) - np.asarray(small, float)
    low = np.array([np.linalg.eigvalsh((d + d.T) / 2)[0] for d in D])
    close(name, np.minimum(low, 0.0), np.zeros(len(low)), scale, tol)


def check(case):
    M, Z, K = case["M"], case["Z"], case["K"]
    T = len(Z)
    miss = K.any(axis=1)
    J = domain(M, Z, miss)
    r = tolerance(J)
    if r > 1e-3:
        raise Skip
    scale = J.cov_scale()
    # units of powers of two change no digit; results are taken back before judging
    D = 2.0 ** case["units"]
    E = np.outer(D, D)
    W = gen.in_units(M, D)
    kf = sut("constructor", gen.cls(case["cls"]), **gen.kw(W))
    if case["cls"] != "KalmanFilter":
        for P in np.concatenate([J.pred_cov, J.filt_cov]):
            e = np.linalg.eigvalsh(P)
            if not e[0] > 1e-12 * e[-1]:
                raise Skip
    try:
        rs = max(c01.smooth_tolerance(J, M, 1e4), r)
        amp = rs / c01.tolerance(J)
        rs = r * max(amp, 1.0) + rs
    except Skip:
        rs = None
    if D.max() > 16 * D.min():  # the smoother's pseudo-inverse depends on units
        rs = None
    elif rs is not None:
        rs *= (D.max() / D.min()) ** 2
    X, X2 = gen.masked(Z, K), gen.masked(case["Z2"], K)
    run = lambda what, X: np.asarray(sut(what, getattr(kf, what), X)[1]) / E  # noqa: E731
    filt = run("filter", X)
    valid("filtered covariance", filt, scale, r)
    if case["cls"] == "CholeskyKalmanFilter" or case["cls"] == "BiermanKalmanFilter":
        # products of square roots: valid to the last digits of each matrix
        for t, S in enumerate(filt):
            e = np.linalg.eigvalsh((S + S.T) / 2)
            if not e[0] >= -1e-13 * len(S) * e[-1]:
                raise Violation(f"filtered covariance {t} of a square root filter: eigenvalues {e!r}")
    other = run("filter", X2)
    close("filtered covariances with other observed values", other, filt, scale, 1e-12)
    hidden = gen.masked(Z, np.repeat(case["more"][:, None], Z.shape[1], axis=1))
    Jm = domain(M, Z, case["more"])
    rm = r + tolerance(Jm)
    fewer = run("filter", hidden)
    top = max(scale, Jm.cov_scale())
    order("filtered covariance with fewer observations", fewer, filt, top, rm)
    if rs is not None:
        sm = run("smooth", X)
        valid("smoothed covariance", sm, scale, rs)
        order("filtered minus smoothed covariance", filt, sm, scale, rs)
        other = run("smooth", X2)
        close("smoothed covariances with other observed values", other, sm, scale, 1e-11 + rs * 1e-3)
        try:
            rm2 = max(c01.smooth_tolerance(Jm, M, 1e4), rm) * 2 + rs
            fewer = run("smooth", hidden)
            valid("smoothed covariance with fewer observations", fewer, top, rm2)
            order("smoothed covariance with fewer observations", fewer, sm, top, rm2)
        except Skip:
            pass
    # one online step from a filtered covariance
    if T > 1:
        t = case["t"] % (T - 1)
        args = {c05.ARG[k]: np.array(ref.at(W[k], t if k in "AbQ" else t + 1, gen.ND[k])) for k in gen.tv_keys(M)}
        P0 = np.array(J.filt_cov[t])
        mean = np.array(J.filt_mean[t])
        if case["cls"] != "KalmanFilter":
            e = np.linalg.eigvalsh(P0)
            if not e[0] > 1e-10 * e[-1]:
                return
        step = {k: np.array(ref.at(M[k], t if k in "AbQ" else t + 1, gen.ND[k]), float) for k in "AbCdQR"}
        one = dict(step, m0=step["A"] @ mean + step["b"], P0=step["A"] @ P0 @ step["A"].T + step["Q"])
        Js = domain(one, Z[t + 1 : t + 2], np.zeros(1, bool))
        r = max(r, tolerance(Js))
        if r > 1e-3:
            raise Skip
        got = []
        for z in (Z[t + 1], case["Z2"][t + 1], None):
            _, P = sut("filter_update", kf.filter_update, mean * D, P0 * E, None if z is None else z.copy(), **args)
            P = P / E
            valid("covariance of filter_update", P[None], scale, r)
            got.append(P)
        close("covariance of filter_update with another observation", got[1], got[0], scale, 1e-12)
        order("covariance of filter_update without observation", got[2][None], got[0][None], scale, max(r, 1e-9))


def nontrivial(case):
    miss = case["K"].any(axis=1)
    return bool(len(miss) > 1 and not miss.all() and (case["more"] & ~miss).any())


def classes(case):
    out = [case["cls"]] + c01.model_classes(case)
    M = case["M"]
    if np.trace(M["P0"]) > 1e3 * np.trace(ref.at(M["Q"], 0, 2)):
        out.append("wide prior")
    if np.any(case["units"]):
        out.append("mixed units" if len(set(case["units"])) > 1 else "other units")
    return [c for c in out if "=" not in c or c.startswith("T")]


def simplify(case):
    if np.any(case["units"]):
        yield dict(case, units=np.zeros(len(case["units"])))
    if len(case["units"]) == len(case["M"]["m0"]):
        yield from gen.simplify_linear(case)
    T = len(case["Z"])
    for k in (T // 2, T - 1):
        if 1 <= k < T:
            yield dict(case, Z=case["Z"][:k], Z2=case["Z2"][:k], K=case["K"][:k], more=case["more"][:k])
