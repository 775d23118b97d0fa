"""C02: KalmanFilter.smooth against conditioning of the joint distribution."""
import numpy as np

from .. import gen
from ..core import close, sut
from . import c01

N = {"quick": 1260, "thorough": 9000}
RULE = c01.RULE
ASSUMPTIONS = c01.ASSUMPTIONS + ["predicted covariances whose eigenvalues are either zero or at least 1e-6 of the largest (the smoother solves with them) and smoother gains whose product over time stays below 1e5"]
nontrivial, classes, simplify = c01.nontrivial, c01.classes, c01.simplify


def strategy(tier):
    return c01._case(tier, 150, True)


def check(case):
    J = c01.reference(case, full=True)
    kf, D, X = c01.built(dict(case, units=gen.limit(case["units"], 7)))  # least squares depends on units
    m, P = sut("smooth", kf.smooth, X)
    m, P = m / D, P / np.outer(D, D)
    r = c01.smooth_tolerance(J, case["M"], more=c01.sensor_tolerance(case, J), wide=(D.max() / D.min()) ** 2)
    close("smoothed means", m, J.smooth_mean, J.mean_scale(), r)
    close("smoothed covariances", P, J.smooth_cov, J.cov_scale(), r)
