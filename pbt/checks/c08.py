"""C08: unscented filters on affine functions against the joint Gaussian."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Skip, close, sut
from . import c01

N = {"quick": 1260, "thorough": 9000}
RULE = (
    "Hypothesis draws one of the three unscented classes, n<=9, m<=6, mostly small, T<=12 (one case in 20: 80), affine "
    "transition/observation functions (constant or per step; for the general filter "
    "the noise enters through a drawn matrix), positive definite covariances, "
    "state components and sensors in different units, observations and masks; filter and smooth are compared with the joint Gaussian "
    "of the equivalent linear model. Non-trivial: at least two steps, at least one "
    "observation, and an observation function that depends on the state."
)
ASSUMPTIONS = [
    "covariances along the run with eigenvalue ratios above 1e-7 (the filters take Cholesky factors)",
] + c01.ASSUMPTIONS


@st.composite
def _case(draw, tier):
    name = draw(st.sampled_from(gen.UNSCENTED))
    T = draw(st.one_of(st.integers(1, 5), st.integers(2, 12)))
    if draw(st.sampled_from([False] * 19 + [True])):
        T = draw(st.integers(12, 80))
    U = draw(gen.unscented_model(T, name == "UKF", True))
    rng = np.random.RandomState(draw(gen.seeds))
    Z = gen.unscented_observations(U, T, rng, draw(st.sampled_from(["model", "model", "spike", "zeros", "flat"])))
    K = draw(gen.mask(T, len(U["R"])))
    return dict(cls=name, U=U, Z=Z, K=K, units=draw(gen.state_units(len(U["m0"]))), zunits=draw(gen.sensor_units(len(U["R"]))))


def strategy(tier):
    return _case(tier)


def well_posed(J, lo=1e-7):
    for P in np.concatenate([J.pred_cov, J.filt_cov, J.smooth_cov]):
        e = np.linalg.eigvalsh(P)
        if not e[0] > lo * e[-1]:
            raise Skip


def in_units(case, top=40):
    """The model with its state in the case's units; the smoothers' least
    squares depends on units, and gets them limited to top."""
    D = 2.0 ** gen.limit(case.get("units", np.zeros(1)), top) * np.ones(len(case["U"]["m0"]))
    S, _ = gen.sensors(case, len(case["U"]["R"]))
    return D, gen.in_units_unscented(case["U"], D, S)


def check(case):
    U, Z, K = case["U"], case["Z"], case["K"]
    T = len(Z)
    M = gen.equivalent_linear(U, T)
    J = ref.Joint(M, Z, K.any(axis=1))
    if not J.ok or J.cond > 1e6 or J.drop > 1e8 or J.growth > 1e9:
        raise Skip
    well_posed(J)
    r = c01.smooth_tolerance(J, M, more=c01.sensor_tolerance(case, J))
    D, V = in_units(case)
    kf = sut("constructor", gen.unscented, case["cls"], V, T)
    X = gen.masked(Z * gen.sensors(case, J.m)[0], K)
    m, P = sut("filter", kf.filter, X)
    m, P = m / D, P / np.outer(D, D)
    close("filtered means", m, J.filt_mean, J.mean_scale(), r)
    close("filtered covariances", P, J.filt_cov, J.cov_scale(), r)
    D, V = in_units(case, 5)
    kf = sut("constructor", gen.unscented, case["cls"], V, T)
    m, P = sut("smooth", kf.smooth, X)
    m, P = m / D, P / np.outer(D, D)
    r = c01.smooth_tolerance(J, M, more=c01.sensor_tolerance(case, J), wide=(D.max() / D.min()) ** 2)
    close("smoothed means", m, J.smooth_mean, J.mean_scale(), r)
    close("smoothed covariances", P, J.smooth_cov, J.cov_scale(), r)


def nontrivial(case):
    return bool(len(case["Z"]) > 1 and not case["K"].any(axis=1).all() and np.any(case["U"]["g"]["A"]))


def classes(case):
    U, K = case["U"], case["K"]
    n, m, T = len(U["m0"]), len(U["R"]), len(case["Z"])
    miss = K.any(axis=1)
    out = [case.get("cls", ""), f"n={n}", f"m={m}", "T=1" if T == 1 else "T>1"]
    out.append("nothing missing" if not miss.any() else "all missing" if miss.all() else "some missing")
    if (miss & ~K.all(axis=1)).any():
        out.append("partially masked row")
    for k in "fg":
        out.append(f"per-step {k}" if U[k]["tv"] else f"constant {k}")
    for k in "QR":
        if np.any(U[k] != np.diag(np.diag(U[k]))):
            out.append(f"correlated {k}")
    if len(set(np.atleast_1d(case.get("units", 0)))) > 1:
        out.append("components in different units")
    if len(set(np.atleast_1d(case.get("zunits", 0)))) > 1:
        out.append("sensors in different units")
    return [o for o in out if o]


def simplify(case):
    if np.any(case.get("units", 0)):
        yield dict(case, units=np.zeros_like(case["units"]))
    if np.any(case.get("zunits", 0)):
        yield dict(case, zunits=np.zeros_like(case["zunits"]))
    yield from gen.simplify_unscented(case)
