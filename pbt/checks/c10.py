"""C10: the square root unscented filter against the regular one."""

import numpy as np

from .. import gen, ref
from ..core import Skip, close, sut
from . import c08, c09

N = {"quick": 1260, "thorough": 9000}
RULE = (
    "Hypothesis draws an additive-noise system as for C09; filter, smooth and "
    "filter_update of both classes are compared with each other. Non-trivial as in C09."
)
ASSUMPTIONS = c09.ASSUMPTIONS
nontrivial, classes, simplify = c09.nontrivial, c09.classes, c09.simplify


def strategy(tier):
    return c09.with_units(["SqrtAUKF"], 10)


def check(case):
    U, Z, K = case["U"], case["Z"], case["K"]
    fm, fc, sm, sc, worst = c09.reference("add", case)  # domain only
    sx, sc2 = c09.scales(U, fm, fc)
    S, wide = gen.sensors(case, len(U["R"]))
    r = 1e-9 + 1e-12 * worst + 1e-14 * wide * worst
    if r > 1e-3:
        raise Skip
    T = len(Z)
    X = gen.masked(Z * S, K, case["junk"])
    for what, f in (("smooth", 10), ("filter", 1)):
        D, V = c08.in_units(case, 40 if what == "filter" else 2)
        E = np.outer(D, D)
        f *= 1 if what == "filter" else (D.max() / D.min()) ** 2
        a = sut("constructor", gen.unscented, "AUKF", V, T)
        b = sut("constructor", gen.unscented, "SqrtAUKF", V, T)
        try:
            m0, P0 = getattr(a, what)(X)
        except Exception:  # noqa: BLE001  (the regular filter is C09's business)
            raise Skip from None
        m1, P1 = sut(f"square root {what}", getattr(b, what), X)
        close(f"{what} means", m1 / D, m0 / D, sx, r * f)
        close(f"{what} covariances", P1 / E, P0 / E, sc2, r * f)
    for t in range(T - 1):
        kw = {}
        if U["f"]["tv"] or t % 2:
            kw["transition_function"] = gen.func(V["f"], t)
        if U["g"]["tv"] or t % 3 == 1:
            kw["observation_function"] = gen.func(V["g"], t + 1)
        obs = X[t + 1]
        if t % 4 == 1:
            kw["transition_covariance"] = V["Q"] * 2
        if t % 4 == 2:
            kw["observation_covariance"] = V["R"] * 2
        try:  # domain of the overridden step
            ref.WORST[0] = 1.0
            _, pc = ref.ukf_step(
                "add", fm[t], fc[t], gen.func(U["f"], t), gen.func(U["g"], t + 1),
                kw.get("transition_covariance", V["Q"]) / E, kw.get("observation_covariance", V["R"]) / np.outer(S, S),
                Z[t + 1], K[t + 1].any(), False,
            )
            ref.chol(pc)
        except ref.NotPD:
            continue
        r = 1e-9 + (1e-12 + 1e-14 * wide) * max(worst, ref.WORST[0])
        if r > 1e-3:
            continue
        try:
            m0, P0 = a.filter_update(fm[t] * D, fc[t] * E, obs, **kw)
        except Exception:  # noqa: BLE001
            raise Skip from None
        m1, P1 = sut("square root filter_update", b.filter_update, fm[t] * D, fc[t] * E, obs, **kw)
        close("filter_update mean", m1 / D, m0 / D, sx, r)
        close("filter_update covariance", P1 / E, P0 / E, sc2, r)
