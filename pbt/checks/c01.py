"""C01: KalmanFilter.filter against conditioning of the joint distribution."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Skip, close, sut

N = {"quick": 1620, "thorough": 12000}
RULE = (
    "Hypothesis draws dimensions (n<=12, m<=10, mostly small), length (<=70, in one case of 15 up to 400, for C02 150), constant or per-step "
    "parameters (per-step arrays possibly longer than needed), singular or scaled "
    "covariances, state components in units up to 2^40 apart (in smooth 2^14), sensors in units up to 2^16 apart, all of them up to 2^260 from one, as many steps as components, observations and a mask; results are compared with the joint "
    "Gaussian conditioned in extended precision. Non-trivial: at least two time "
    "steps, at least one observation present, and an observation matrix that is "
    "not all zero."
)
ASSUMPTIONS = [
    "innovation covariances with condition number below 1e6, and no smaller than "
    "1e-8 of the largest variance before them (else the case counts as outside "
    "the domain: double precision does not determine the result)",
    "products of consecutive transition matrices with a norm below about 3e4",
]


@st.composite
def _case(draw, tier, top, small):
    T = draw(gen.lengths_long)
    if draw(st.sampled_from([False] * 14 + [True])):
        T = draw(st.integers(70, top))
    n, m = (draw(st.integers(1, 2)), draw(st.integers(1, 2))) if small and T > 70 else (None, None)
    M = draw(gen.linear_model(T, n, m, exact_sensors=True))
    Z, K = draw(gen.observations(M, T))
    units = draw(gen.state_units(gen.dims(M)[0]))
    zunits = draw(gen.sensor_units(gen.dims(M)[1]))
    return dict(M=M, Z=Z, K=K, junk=draw(st.sampled_from([None, 0.0, 1e6])), units=units, zunits=zunits)


def strategy(tier):
    return _case(tier, 400, False)


def reference(case, full=False):
    J = ref.Joint(case["M"], case["Z"], case["K"].any(axis=1), full=full)
    if not J.ok or J.cond > 1e6 or J.drop > 1e8 or J.growth > 1e9:
        raise Skip
    return J


def tolerance(J):
    """Relative to the largest mean or covariance of the run.  Observations much
    more precise than an earlier prediction cancel digits of the covariance
    (cond, drop), and the next gain magnifies that error again.  Rounding makes
    covariances asymmetric, and that part grows with the dynamics (growth)."""
    return 1e-9 + 1e-13 * J.cond + 1e-15 * J.cond**2 + 1e-14 * J.drop + 1e-15 * J.growth


def smooth_tolerance(J, M, limit=1e5, more=0.0, wide=1.0):
    """Smoothing solves with predicted covariances and multiplies gains over
    time.  Domain: eigenvalues of a predicted covariance that are either zero
    or clearly not, and a bounded product of the exact gains.  The tolerance
    grows with both."""
    k, amp = 1.0, 1.0
    run = []
    for t in range(J.T - 1):
        P = J.pred_cov[t + 1]
        e = np.linalg.eigvalsh(P)
        G = np.zeros((J.n, J.n))
        if e[-1] > 0:
            r = e / e[-1]
            if np.any((r > 1e-14) & (r < 1e-6)):
                raise Skip
            k = max(k, 1.0 / r[r >= 1e-6].min())
            G = J.filt_cov[t] @ ref.at(M["A"], t, 2).T @ np.linalg.pinv(P, rcond=1e-10)
        run = [X @ G for X in run] + [G]
        amp = max(amp, max(np.abs(X).max() for X in run))
    if amp > limit:
        raise Skip
    return (tolerance(J) + more) * amp + 1e-13 * k * wide * amp


def built(case):
    """The filter, in the case's units, the units of the state, and the
    observations in theirs."""
    n, m = gen.dims(case["M"])
    D = 2.0 ** np.asarray(case.get("units", 0.0)) * np.ones(n)
    S, _ = gen.sensors(case, m)
    X = gen.masked(case["Z"] * S, case["K"], case["junk"])
    return gen.cls("KalmanFilter")(**gen.kw(gen.in_units(case["M"], D, S))), D, X


def sensor_tolerance(case, J):
    """The filters invert the covariance of all components together, which
    loses digits of the ones with small numbers."""
    _, wide = gen.sensors(case, J.m)
    if wide * J.cond > 1e11:
        raise Skip
    return 1e-14 * wide * J.cond


def check(case):
    J = reference(case)
    kf, D, X = built(case)
    r = tolerance(J) + sensor_tolerance(case, J)
    m, P = sut("filter", kf.filter, X)
    m, P = m / D, P / np.outer(D, D)
    close("filtered means", m, J.filt_mean, J.mean_scale(), r)
    close("filtered covariances", P, J.filt_cov, J.cov_scale(), r)


def nontrivial(case):
    return bool(
        len(case["Z"]) > 1
        and not case["K"].any(axis=1).all()
        and np.any(case["M"]["C"])
    )


def classes(case):
    return model_classes(case)


def model_classes(case):
    M, K = case["M"], case["K"]
    n, m = gen.dims(M)
    T = len(case["Z"])
    out = [f"n={n}", f"m={m}", "T=1" if T == 1 else "T=2..10" if T <= 10 else "T>10"]
    tv = gen.tv_keys(M)
    out += [f"per-step {k}" for k in tv]
    if not tv:
        out.append("constant")
    miss = K.any(axis=1)
    out.append("nothing missing" if not miss.any() else "all missing" if miss.all() else "some missing")
    if (K.any(axis=1) & ~K.all(axis=1)).any():
        out.append("partially masked row")
    if np.linalg.matrix_rank(ref.at(M["Q"], 0, 2)) < n:
        out.append("singular Q")
    if np.linalg.matrix_rank(M["P0"]) < n:
        out.append("singular P0")
    if np.linalg.matrix_rank(ref.at(M["R"], 0, 2)) < m:
        out.append("exact sensor")
    if m > n:
        out.append("m>n")
    if len(set(np.atleast_1d(case.get("units", 0)))) > 1:
        out.append("components in different units")
    if len(set(np.atleast_1d(case.get("zunits", 0)))) > 1:
        out.append("sensors in different units")
    return out


def simplify(case):
    if np.any(case.get("units", 0)):
        yield dict(case, units=np.zeros_like(case["units"]))
    if np.any(case.get("zunits", 0)):
        yield dict(case, zunits=np.zeros_like(case["zunits"]))
    yield from gen.simplify_linear(case)
    yield from shorten(case)


def shorten(case):
    T = len(case["Z"])
    for k in (T // 2, T - 1):
        if 1 <= k < T:
            yield dict(case, Z=case["Z"][:k], K=case["K"][:k])
