"""C05: filter_update step by step against filter on the whole sequence."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Skip, Violation, close, sut
from . import c01, c08, c09

N = {"quick": 1440, "thorough": 10000}
RULE = (
    "Hypothesis draws one of the six classes, a model (linear: n<=12, m<=10, mostly small; unscented: "
    "nonlinear, n<=9, m<=6, mostly small), observations with a mask, a starting index and the set of "
    "parameters passed explicitly at each step while the object holds other values. "
    "Every filter_update result is compared with the class's own filter(); results "
    "with overrides also with an object constructed from the overriding values, among them "
    "a step observed by 1 to 4 other sensors; one observed component also given as a scalar "
    "or the constant np.ma.masked; "
    "omitting a per-step parameter has to raise. Non-trivial: at least two steps, "
    "something observed."
)
ASSUMPTIONS = c01.ASSUMPTIONS + c09.ASSUMPTIONS
STEP = ["A", "b", "C", "d", "Q", "R"]
ARG = dict(
    A="transition_matrix", b="transition_offset", Q="transition_covariance",
    C="observation_matrix", d="observation_offset", R="observation_covariance",
)


@st.composite
def linear_case(draw):
    name = draw(st.sampled_from(gen.LINEAR))
    T = draw(st.integers(1, 10))
    kf = name == "KalmanFilter"
    M = draw(gen.linear_model(T, psd=kf and draw(st.booleans()), tv_cov=kf, exact_sensors=kf))
    Z, K = draw(gen.observations(M, T))
    tv = gen.tv_keys(M)
    n, m = gen.dims(M)
    rng = np.random.RandomState(draw(gen.seeds))
    given_ = [k for k in STEP if k in tv or draw(st.booleans())]
    # what the object holds for the parameters that are passed to every call
    wrong = {}
    if draw(st.booleans()):
        sx, sz = gen.state_size(M), np.sqrt(np.trace(ref.at(M["R"], 0, 2)) / m)
        wrong = dict(
            A=gen.trans(rng, n, "rand"), b=rng.randn(n) * sx, C=rng.randn(m, n) * sz / sx, d=rng.randn(m) * sz,
            Q=gen.covm(rng, n, "full", sx**2), R=gen.covm(rng, m, "full", sz**2),
        )
        wrong = {k: wrong[k] for k in given_}
    other = None
    if draw(st.booleans()):  # one step observed by other sensors
        k = draw(st.integers(1, 4))
        sx, sz = gen.state_size(M), np.sqrt(np.trace(ref.at(M["R"], 0, 2)) / m)
        other = dict(C=rng.randn(k, n) * sz / sx, d=rng.randn(k) * sz, R=gen.covm(rng, k, "full", sz**2), z=rng.randn(k) * sz, missing=draw(st.sampled_from([False, False, True])))
    return dict(
        sensors=other,
        kind="linear", cls=name, M=M, Z=Z, K=K, given=given_, wrong=wrong,
        start=draw(st.integers(0, max(T - 2, 0))), none=draw(st.booleans()), junk=draw(st.sampled_from([None, 0.0, 1e6])), scalar=draw(st.integers(0, 2)),
        order=draw(st.integers(0, 2)),
    )


@st.composite
def unscented_case(draw):
    c = draw(c09.case_(gen.UNSCENTED, 8))
    U = c["U"]
    given_ = [k for k in "fgQR" if (k in "fg" and U[k]["tv"]) or draw(st.booleans())]
    rng = np.random.RandomState(draw(gen.seeds))
    n, m = len(U["m0"]), len(U["R"])
    wrong = {}
    if draw(st.booleans()):
        wrong = dict(Q=gen.covm(rng, n, "full", np.trace(U["Q"]) / n), R=gen.covm(rng, m, "full", np.trace(U["R"]) / m))
        wrong = {k: v for k, v in wrong.items() if k in given_}
    other = None
    if draw(st.booleans()):
        k = draw(st.integers(1, 4))
        sz = np.sqrt(np.trace(U["R"]) / m)
        V = draw(gen.unscented_model(1, c["cls"] == "UKF", False, n=n, m=k, scaled=False))
        other = dict(g=V["g"], R=V["R"], z=np.asarray(V["g"]["b"])[0] + rng.randn(k), missing=draw(st.sampled_from([False, False, True])))
    return dict(
        c, kind="unscented", sensors=other, given=given_, wrong=wrong, wrong_functions=draw(st.booleans()),
        start=draw(st.integers(0, max(len(c["Z"]) - 2, 0))), none=draw(st.booleans()), order=draw(st.integers(0, 2)),
        scalar=draw(st.integers(0, 2)),
    )


def strategy(tier):
    return st.one_of(linear_case(), linear_case(), unscented_case())


def observation(case, t):
    """Observation of step t in the drawn form."""
    z, k = case["Z"][t], case["K"][t]
    if len(z) == 1 and case.get("scalar"):  # an element of a flat sequence
        if k.any():
            return None if case["none"] else np.ma.array(z, mask=k)[0]
        return float(z[0]) if case["scalar"] == 1 else np.ma.array(z)[0]
    if k.any():
        if case["none"]:
            return None
        z = z.copy()
        if case["junk"] is not None:
            z[k] = case["junk"]
        return np.ma.array(z, mask=k.copy())
    return np.ma.array(z.copy()) if case["order"] == 2 else z.copy()


def refused(what, fn, *args, **kw):
    try:
        fn(*args, **kw)
    except Exception:  # noqa: BLE001
        return
    raise Violation(f"{what}: not refused")


def check(case):
    (check_linear if case["kind"] == "linear" else check_unscented)(case)


def check_linear(case):
    M, Z, K = case["M"], case["Z"], case["K"]
    T = len(Z)
    J = ref.Joint(M, Z, K.any(axis=1), full=False)  # domain and scales only
    if not J.ok or J.cond > 1e6 or J.drop > 1e8 or J.growth > 1e9:
        raise Skip
    r = c01.tolerance(J)
    C = gen.cls(case["cls"])
    if case["cls"] != "KalmanFilter":
        for P in np.concatenate([J.pred_cov, J.filt_cov]):
            e = np.linalg.eigvalsh(P)
            if not e[0] > 1e-9 * e[-1]:
                raise Skip
    means, covs = sut("filter", C(**gen.kw(M)).filter, gen.masked(Z, K, case["junk"]))
    obj = C(**gen.kw(dict(M, **{k: np.array(v) for k, v in case["wrong"].items()})))
    held = {k: np.array(getattr(obj, gen.NAME[k])) for k in STEP}
    m, P = np.array(means[case["start"]]), np.array(covs[case["start"]])
    for t in range(case["start"], T - 1):
        args = {}
        for k in case["given"]:
            args[ARG[k]] = np.array(ref.at(M[k], t if k in "AbQ" else t + 1, gen.ND[k]))
        obs = observation(case, t + 1)
        if case["order"] and obs is not None:
            got = sut("filter_update", obj.filter_update, m, P, obs, **args)
        elif obs is None:
            got = sut("filter_update", obj.filter_update, m, P, **args)
        else:
            got = sut("filter_update", obj.filter_update, m, P, observation=obs, **args)
        close(f"filter_update mean", got[0], means[t + 1], J.mean_scale(), r)
        close(f"filter_update covariance", got[1], covs[t + 1], J.cov_scale(), r)
        m, P = got
    for k in STEP:
        if not np.array_equal(held[k], getattr(obj, gen.NAME[k])):
            raise Violation(f"filter_update changed the object's {gen.NAME[k]}")
    # overriding one call == an object holding that value (same step data)
    if T > 1 and case["given"]:
        t = T - 2
        step = {k: np.array(ref.at(M[k], t if k in "AbQ" else t + 1, gen.ND[k])) for k in STEP}
        other = dict(m0=M["m0"], P0=M["P0"], **step)
        obs = observation(case, t + 1)
        m, P = np.array(means[t]), np.array(covs[t])
        a = sut("filter_update", C(**gen.kw(other)).filter_update, m, P, obs)
        for k in case["given"]:
            if k not in case["wrong"]:
                continue
            b = sut(
                "filter_update", C(**gen.kw(dict(other, **{k: case["wrong"][k]}))).filter_update, m, P, obs,
                **{ARG[k]: step[k]},
            )
            close(f"mean with {ARG[k]} overridden", b[0], a[0], J.mean_scale(), r)
            close(f"covariance with {ARG[k]} overridden", b[1], a[1], J.cov_scale(), r)
    if case.get("sensors"):
        S = case["sensors"]
        step = {k: np.array(ref.at(M[k], 0, gen.ND[k])) for k in STEP}
        other = dict(step, C=S["C"], d=S["d"], R=S["R"])
        J2 = ref.Joint(dict(other, m0=means[0], P0=covs[0]), np.array([np.zeros(len(S["z"])), S["z"]]), np.array([True, S["missing"]]), full=False)
        if J2.ok and J2.cond < 1e6 and J2.drop < 1e8 and np.linalg.eigvalsh(covs[0])[0] > 1e-9 * np.abs(covs[0]).max():
            args = {ARG[k]: np.array(other[k]) for k in STEP}
            obs = None if S["missing"] else np.array(S["z"])
            want = sut("filter_update", C(**gen.kw(dict(other, m0=M["m0"], P0=M["P0"]))).filter_update, np.array(means[0]), np.array(covs[0]), obs)
            got = sut("filter_update", obj.filter_update, np.array(means[0]), np.array(covs[0]), obs, **args)
            close("mean with other sensors", got[0], want[0], J2.mean_scale(), c01.tolerance(J2))
            close("covariance with other sensors", got[1], want[1], J2.cov_scale(), c01.tolerance(J2))
    for k in gen.tv_keys(M):
        if case["cls"] != "KalmanFilter" and k in "QR":
            continue
        args = {ARG[q]: np.array(ref.at(M[q], 0, gen.ND[q])) for q in STEP if q != k}
        refused(
            f"filter_update without {ARG[k]}, which varies over time", C(**gen.kw(M)).filter_update,
            np.array(means[0]), np.array(covs[0]), Z[0].copy(), **args,
        )


def check_unscented(case):
    U, Z, K = case["U"], case["Z"], case["K"]
    T = len(Z)
    fm, fc, _, _, worst = c09.reference("aug" if case["cls"] == "UKF" else "add", case)
    sx, sc = c09.scales(U, fm, fc)
    r = 1e-9 + 1e-12 * worst
    means, covs = sut("filter", gen.unscented(case["cls"], U, T).filter, gen.masked(Z, K, case["junk"]))
    held = dict(U, **case["wrong"])
    for q in "fg":
        if q in case["given"] and case["wrong_functions"]:
            F = gen.drop_tv(U[q])
            held[q] = dict(F, b=F["b"] + 1.0, A=F["A"] * 0.5)
    obj = gen.unscented(case["cls"], held, T)
    m, P = np.array(means[case["start"]]), np.array(covs[case["start"]])
    for t in range(case["start"], T - 1):
        args = {}
        for k in case["given"]:
            if k == "f":
                args["transition_function"] = gen.func(U["f"], t)
            elif k == "g":
                args["observation_function"] = gen.func(U["g"], t + 1)
            else:
                args[ARG[k]] = U[k].copy()
        obs = observation(case, t + 1)
        if obs is None:
            got = sut("filter_update", obj.filter_update, m, P, **args)
        else:
            got = sut("filter_update", obj.filter_update, m, P, observation=obs, **args)
        close("unscented filter_update mean", got[0], means[t + 1], sx, r)
        close("unscented filter_update covariance", got[1], covs[t + 1], sc, r)
        m, P = got
    if case.get("sensors"):
        S = case["sensors"]
        V = dict(U, g=S["g"], R=S["R"], f=gen.drop_tv(U["f"]))
        kind = "aug" if case["cls"] == "UKF" else "add"
        try:
            ref.WORST[0] = 1.0
            wm, wc = ref.ukf_step(kind, fm[0], fc[0], gen.func(V["f"], 0), gen.func(V["g"], 0), V["Q"], V["R"], S["z"], S["missing"], False)
            ref.chol(wc)
            tol = 1e-9 + 1e-12 * max(worst, ref.WORST[0])
        except ref.NotPD:
            wm = None
        if wm is not None and np.isfinite(wm).all() and 1e-3 < sx < 1e3 and max(np.abs(wm).max() / sx, np.abs(wc).max() / sc) < 1e3:
            args = dict(transition_function=gen.func(V["f"], 0), observation_function=gen.func(V["g"], 0), observation_covariance=np.array(S["R"]))
            if "Q" in case["wrong"]:
                args["transition_covariance"] = np.array(U["Q"])
            got = sut("filter_update", obj.filter_update, fm[0], fc[0], None if S["missing"] else np.array(S["z"]), **args)
            close("unscented mean with other sensors", got[0], wm, sx + np.abs(wm).max(), tol)
            close("unscented covariance with other sensors", got[1], wc, sc + np.abs(wc).max(), tol)
    for q, name in (("f", "transition_function"), ("g", "observation_function")):
        if U[q]["tv"] and len(U[q]["b"]) > 1:
            args = dict(transition_function=gen.func(U["f"], 0), observation_function=gen.func(U["g"], 0))
            args.pop(name)
            refused(
                f"filter_update without {name}, which varies over time", gen.unscented(case["cls"], U, T).filter_update,
                np.array(means[0]), np.array(covs[0]), Z[0].copy(), **args,
            )


def nontrivial(case):
    return bool(len(case["Z"]) > 1 and not case["K"][1:].any(axis=1).all())


def classes(case):
    out = [case["cls"]]
    out += [f"passes {k}" for k in case["given"]]
    out += [f"object holds another {k}" for k in case["wrong"]]
    if case.get("sensors"):
        out.append("a step with other sensors")
    out.append("missing as None" if case["none"] else "missing as mask")
    base = c01.model_classes(case) if case["kind"] == "linear" else c08.classes(case)
    return list(dict.fromkeys(out + [c for c in base if "per-step" in c or "missing" in c]))


def simplify(case):
    if case.get("sensors"):
        yield dict(case, sensors=None)
    for k in list(case["wrong"]):
        yield dict(case, wrong={q: v for q, v in case["wrong"].items() if q != k})
    if case["kind"] == "linear":
        for k in case["given"]:
            if k not in gen.tv_keys(case["M"]) and k not in case["wrong"]:
                yield dict(case, given=[q for q in case["given"] if q != k])
        yield from gen.simplify_linear(case)
        for c in c01.shorten(case):
            yield dict(c, start=0)
    else:
        for c in gen.simplify_unscented(case):
            if len(c["Z"]) > case["start"]:
                yield c
