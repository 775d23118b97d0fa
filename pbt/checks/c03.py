"""C03: KalmanFilter.loglikelihood against the joint density."""
import numpy as np

from .. import gen
from ..core import Violation, close, sut
from . import c01

N = {"quick": 1620, "thorough": 12000}
RULE = c01.RULE
ASSUMPTIONS = c01.ASSUMPTIONS
strategy, nontrivial, classes, simplify = c01.strategy, c01.nontrivial, c01.classes, c01.simplify


def check(case):
    J = c01.reference(case)
    kf, _, X = c01.built(case)
    S, _ = gen.sensors(case, J.m)
    units = np.log(S).sum() * int((~case["K"].any(axis=1)).sum())  # of the density
    ll = sut("loglikelihood", kf.loglikelihood, X)
    if np.ndim(ll) != 0:
        raise Violation(f"loglikelihood is not a scalar: {ll!r}")
    close("log likelihood", ll, J.loglik - units, float(np.abs(J.ll).sum()) + abs(units) + 1.0, 10 * (c01.tolerance(J) + c01.sensor_tolerance(case, J)))
