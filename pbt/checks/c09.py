"""C09: unscented filters on nonlinear functions against a transcription of the
unscented transform."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Skip, close, sut
from . import c08

N = {"quick": 1260, "thorough": 9000}
RULE = (
    "Hypothesis draws UnscentedKalmanFilter or AdditiveUnscentedKalmanFilter, n<=9, "
    "m<=6 (mostly small), T<=10 (one case in 20: 60), nonlinear functions (affine plus sines; for the general filter "
    "noise mixed, scaled by the state or squared), constant or per step, covariances, "
    "state components and sensors in different units (powers of two), observations and masks; filter, smooth and filter_update are compared with a "
    "direct transcription of the unscented transform. Non-trivial: at least two "
    "steps, an observation present, and a nonlinear transition or observation function."
)
ASSUMPTIONS = [
    "runs in which every covariance whose Cholesky factor is needed is positive "
    "definite with eigenvalue ratio above 1e-7 (else outside the domain)",
]


@st.composite
def case_(draw, names, tmax):
    name = draw(st.sampled_from(names))
    T = draw(st.one_of(st.integers(1, 4), st.integers(2, tmax)))
    if draw(st.sampled_from([False] * 19 + [True])):
        T = draw(st.integers(tmax, 60))
    U = draw(gen.unscented_model(T, name == "UKF", False))
    rng = np.random.RandomState(draw(gen.seeds))
    Z = gen.unscented_observations(U, T, rng, draw(st.sampled_from(["model", "model", "spike", "zeros", "flat"])))
    K = draw(gen.mask(T, len(U["R"])))
    return dict(cls=name, U=U, Z=Z, K=K, junk=draw(st.sampled_from([None, 0.0, 1e6])))


@st.composite
def with_units(draw, names, tmax):
    c = draw(case_(names, tmax))
    return dict(c, units=draw(gen.state_units(len(c["U"]["m0"]))), zunits=draw(gen.sensor_units(len(c["U"]["R"]))))


def strategy(tier):
    return with_units(["UKF", "AUKF"], 10)


def sensitivity(kind, U, fs, gs, Z, miss, fm, fc):
    """How much small changes of the inputs grow over a run (nonlinear systems
    may be chaotic)."""
    e = 1e-9
    V = dict(U, m0=U["m0"] + e * np.sqrt(np.diag(U["P0"])), P0=U["P0"] * (1 - e), Q=U["Q"] * (1 + e))
    g, h = ref.ukf_filter(kind, V, fs, gs, Z + e * np.sqrt(np.diag(U["R"])), miss)
    sx, sc = scales(U, fm, fc)
    return max(np.abs(g - fm).max() / sx, np.abs(h - fc).max() / sc) / e


def reference(kind, case, smooth=True):
    """(filtered, smoothed, largest covariance condition number, amplified)"""
    U, Z, miss = case["U"], case["Z"], case["K"].any(axis=1)
    fs = lambda t: gen.func(U["f"], t)  # noqa: E731
    gs = lambda t: gen.func(U["g"], t)  # noqa: E731
    if not np.all(np.isfinite(Z)):
        raise Skip
    try:
        ref.WORST[0] = 1.0
        fm, fc = ref.ukf_filter(kind, U, fs, gs, Z, miss)
        sm, sc = ref.ukf_smooth(kind, U, fs, fm, fc) if smooth else (fm, fc)
        worst = ref.WORST[0]
        grown = sensitivity(kind, U, fs, gs, Z, miss, fm, fc)
    except ref.NotPD:
        raise Skip from None
    unit = max(np.trace(U["P0"]), np.trace(U["Q"]), np.abs(U["m0"]).max() ** 2)  # of variances
    for a, top in ((fm**2, unit), (fc, unit), (sm**2, unit), (sc, unit)):
        if not np.all(np.isfinite(a)) or np.abs(a).max() > 1e10 * top:
            raise Skip
    if grown > 1e5:
        raise Skip
    return fm, fc, sm, sc, worst * max(1.0, grown / 10)


def scales(U, fm, fc):
    return max(np.abs(fm).max(), np.sqrt(np.abs(fc).max()), np.sqrt(np.trace(U["P0"]))), max(
        np.abs(fc).max(), np.trace(U["P0"])
    )


def check(case):
    U, Z, K = case["U"], case["Z"], case["K"]
    kind = "aug" if case["cls"] == "UKF" else "add"
    fm, fc, sm, sc, worst = reference(kind, case)
    sx, sc2 = scales(U, fm, fc)
    S, wide = gen.sensors(case, len(U["R"]))
    r = 1e-9 + 1e-12 * worst + 1e-14 * wide * worst
    if r > 1e-3:
        raise Skip
    T = len(Z)
    D, V = c08.in_units(case)
    E = np.outer(D, D)
    kf = sut("constructor", gen.unscented, case["cls"], V, T)
    X = gen.masked(Z * S, K, case["junk"])
    m, P = sut("filter", kf.filter, X)
    close("filtered means", m / D, fm, sx, r)
    close("filtered covariances", P / E, fc, sc2, r)
    for t in range(T - 1):
        obs = X[t + 1]
        a, b = sut(
            "filter_update", kf.filter_update, fm[t] * D, fc[t] * E, obs,
            transition_function=gen.func(V["f"], t),
            observation_function=gen.func(V["g"], t + 1),
        )
        close("filter_update mean", a / D, fm[t + 1], sx, r)
        close("filter_update covariance", b / E, fc[t + 1], sc2, r)
    D, V = c08.in_units(case, 2)
    kf = sut("constructor", gen.unscented, case["cls"], V, T)
    m, P = sut("smooth", kf.smooth, X)
    r *= 10 * (D.max() / D.min()) ** 2
    close("smoothed means", m / D, sm, sx, r)
    close("smoothed covariances", P / np.outer(D, D), sc, sc2, r)


def nontrivial(case):
    U = case["U"]
    return bool(
        len(case["Z"]) > 1
        and not case["K"].any(axis=1).all()
        and (np.any(U["f"]["g"]) or np.any(U["g"]["g"]) or any(np.any(U[q].get(k, 0)) for q in "fg" for k in "hk"))
    )


def classes(case):
    U = case["U"]
    out = c08.classes(case)
    for k, lab in (("h", "noise scaled by state"), ("k", "squared noise")):
        if k in U["f"] and (np.any(U["f"][k]) or np.any(U["g"][k])):
            out.append(lab)
    if len(U["m0"]) > 3 or (case["cls"] == "UKF" and 2 * len(U["m0"]) + len(U["R"]) > 3):
        out.append("negative central weight")
    return out


def simplify(case):
    if np.any(case.get("units", 0)):
        yield dict(case, units=np.zeros_like(case["units"]))
    if np.any(case.get("zunits", 0)):
        yield dict(case, zunits=np.zeros_like(case["zunits"]))
    yield from gen.simplify_unscented(case)
