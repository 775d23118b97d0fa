"""Generators of models, observations and representations.

Structure (dimensions, lengths, flags, seeds of fills) is drawn by Hypothesis;
matrix entries are a deterministic function of a drawn fill seed, so that every
choice is replayed and shrunk by Hypothesis.
"""
import numpy as np
from hypothesis import strategies as st

ND = dict(A=2, b=1, C=2, d=1, Q=2, R=2, m0=1, P0=2)
NAME = dict(
    A="transition_matrices",
    C="observation_matrices",
    Q="transition_covariance",
    R="observation_covariance",
    b="transition_offsets",
    d="observation_offsets",
    m0="initial_state_mean",
    P0="initial_state_covariance",
)
LINEAR = ["KalmanFilter", "CholeskyKalmanFilter", "BiermanKalmanFilter"]

seeds = st.integers(0, 2**31 - 1)


def kw(M, keys=NAME):
    return {NAME[k]: M[k] for k in keys if M.get(k) is not None}


def cls(name):
    import pykalman
    import pykalman.sqrt

    return {
        "KalmanFilter": pykalman.KalmanFilter,
        "CholeskyKalmanFilter": pykalman.sqrt.CholeskyKalmanFilter,
        "BiermanKalmanFilter": pykalman.sqrt.BiermanKalmanFilter,
        "UKF": pykalman.UnscentedKalmanFilter,
        "AUKF": pykalman.AdditiveUnscentedKalmanFilter,
        "SqrtAUKF": pykalman.sqrt.AdditiveUnscentedKalmanFilter,
    }[name]


# ------------------------------------------------------------------ fills


def vec(rng, n, mode):
    if mode == "zero":
        return np.zeros(n)
    if mode == "int":
        return rng.randint(-3, 4, n).astype(float)
    if mode == "big":
        return rng.randn(n) * 100
    return rng.randn(n)


def radius(A):
    return max(np.abs(np.linalg.eigvals(A)).max(), 1e-12)


def trans(rng, n, mode):
    if mode == "eye":
        return np.eye(n)
    if mode == "zero":
        return np.zeros((n, n))
    if mode == "cv":  # constant velocity chain
        return np.eye(n) + np.diag(np.full(n - 1, 0.5), 1)
    if mode == "rot":
        q, _ = np.linalg.qr(rng.randn(n, n))
        return q
    if mode == "int":
        A = rng.randint(-1, 2, (n, n)).astype(float)
        return A if radius(A) <= 1.3 else np.triu(A)
    if mode == "singular":
        A = rng.randn(n, n)
        A[:, rng.randint(n)] = 0.0
        return A * (0.9 / max(radius(A), 0.9))
    if mode == "sparse":
        A = rng.randn(n, n) * (rng.rand(n, n) < 0.5)
        return A * (0.95 / max(radius(A), 0.95))
    if mode == "unstable":
        A = rng.randn(n, n)
        return A * (1.15 / radius(A))
    A = rng.randn(n, n)
    return A * (rng.uniform(0.3, 1.0) / radius(A))


TRANS = ["rand", "rand", "rand", "eye", "cv", "rot", "int", "singular", "sparse", "unstable", "zero"]


def obsmat(rng, m, n, mode):
    if mode == "eye":
        return np.eye(m, n)
    if mode == "int":
        return rng.randint(-2, 3, (m, n)).astype(float)
    if mode == "sparse":
        return rng.randn(m, n) * (rng.rand(m, n) < 0.5)
    if mode == "zero":
        return np.zeros((m, n))
    if mode == "dup":  # the same sensor several times
        return np.tile(rng.randn(1, n), (m, 1))
    return rng.randn(m, n)


OBSMAT = ["rand", "rand", "rand", "eye", "int", "sparse", "dup", "zero"]


def covm(rng, n, mode, scale=1.0):
    if mode == "eye":
        S = np.eye(n)
    elif mode == "diag":
        S = np.diag(rng.uniform(0.1, 3.0, n))
    elif mode == "corr":  # strongly correlated, still well conditioned
        v = rng.choice([-1.0, 1.0], n)
        S = 0.1 * np.eye(n) + 0.9 * np.outer(v, v)
    elif mode == "int":
        L = np.tril(rng.randint(-1, 2, (n, n)).astype(float), -1) + np.eye(n)
        S = L @ L.T
    elif mode == "rank":  # singular
        k = rng.randint(0, n)
        B = rng.randn(n, k) if k else np.zeros((n, 1))
        S = B @ B.T
    elif mode == "someaxes":  # noise on some coordinates only
        S = np.diag((rng.rand(n) < 0.5) * rng.uniform(0.2, 2.0, n))
    elif mode == "zero":
        S = np.zeros((n, n))
    else:
        L = rng.randn(n, n)
        S = L @ L.T / n + 0.1 * np.eye(n)
    S = (S + S.T) / 2
    return S * scale


PD = ["full", "full", "full", "diag", "corr", "int", "eye"]
PSD = PD + ["rank", "someaxes", "zero"]



def rarely(usual, rare, one_in):
    """usual, but rare in one case out of one_in."""
    return st.sampled_from([False] * (one_in - 1) + [True]).flatmap(lambda r: rare if r else usual)


dims_n = rarely(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 7)), st.integers(5, 12), 12)
dims_m = rarely(st.one_of(st.integers(1, 3), st.integers(1, 3), st.integers(1, 6)), st.integers(4, 10), 12)
lengths = st.one_of(st.integers(1, 6), st.integers(2, 12), st.integers(5, 30))
lengths_long = st.one_of(lengths, lengths, st.integers(25, 70))
scales = st.sampled_from([1.0, 1.0, 1.0, 1.0, 1e-3, 1e3, 1e-2, 30.0, 1e-6, 1e6])
# of everything: no absolute thresholds
common_units = st.sampled_from([1.0] * 18 + [1e-12, 1e12, 1e-20, 1e20])


@st.composite
def linear_model(
    draw,
    T,
    n=None,
    m=None,
    tv=True,
    tv_cov=True,
    psd=True,
    scaled=True,
    exact_len=False,
    trans_modes=TRANS,
    obs_modes=OBSMAT,
    exact_sensors=False,
):
    """A model with keys A b C d Q R m0 P0 (all explicit float arrays)."""
    # sometimes as many steps as components: shapes that look alike
    alike = draw(st.sampled_from(["no"] * 8 + ["n", "m", "both", "n1"])) if T <= 10 else "no"
    if n is None:
        n = max(T - 1, 1) if alike == "n1" else T if alike in ("n", "both") else draw(dims_n)
    if m is None:
        m = T if alike in ("m", "both") else draw(dims_m)
    rng = np.random.RandomState(draw(seeds))
    unit = draw(common_units) if scaled else 1.0
    sx = unit * draw(scales) if scaled else 1.0  # units of the state
    sz = unit * draw(scales) if scaled else 1.0  # units of the observations
    which = set()
    if tv:
        how = draw(st.sampled_from(["none", "none", "some", "some", "one", "all"] if alike == "no" else ["some", "all"]))
        cand = ["A", "b", "C", "d"] + (["Q", "R"] if tv_cov else [])
        if how == "all":
            which = set(cand)
        elif how == "one":
            which = {draw(st.sampled_from(cand))}
        elif how == "some":
            which = {k for k in cand if draw(st.booleans())}
    extra = 0 if exact_len or alike != "no" else draw(st.sampled_from([0, 0, 0, 1, 3]))
    am = draw(st.sampled_from(trans_modes))
    cm = draw(st.sampled_from(obs_modes))
    bm = draw(st.sampled_from(["rand", "zero", "int"]))
    dm = draw(st.sampled_from(["rand", "zero", "int"]))
    qm = draw(st.sampled_from(PSD if psd else PD))
    rm = draw(st.sampled_from(PD))
    if exact_sensors and draw(st.sampled_from([False] * 6 + [True])):
        rm = draw(st.sampled_from(["zero", "rank", "someaxes"]))
    pm = draw(st.sampled_from(PSD if psd else PD))
    mm = draw(st.sampled_from(["rand", "zero", "int", "big"]))

    def make(key, length, fn):
        if key not in which:
            return fn()
        k = max(length, 1) + extra
        return np.array([fn() for _ in range(k)])

    def vary(cov):  # scale of a per-step covariance changes from step to step
        return lambda: cov() * rng.choice([0.2, 1.0, 5.0])

    qf = lambda: covm(rng, n, qm, sx * sx)  # noqa: E731
    rf = lambda: covm(rng, m, rm, sz * sz)  # noqa: E731
    M = dict(
        A=make("A", T - 1, lambda: trans(rng, n, am)),
        b=make("b", T - 1, lambda: vec(rng, n, bm) * sx),
        C=make("C", T, lambda: obsmat(rng, m, n, cm) * (sz / sx)),
        d=make("d", T, lambda: vec(rng, m, dm) * sz),
        Q=make("Q", T - 1, vary(qf) if "Q" in which else qf),
        R=make("R", T, vary(rf) if "R" in which else rf),
        m0=vec(rng, n, mm) * sx,
        P0=covm(rng, n, pm, sx * sx * draw(st.sampled_from([1.0, 1.0, 1e-2, 1e2]))),
    )
    return M


def in_units(M, D, S=None):
    """The model with its state (D) and observations (S) measured in other
    units, powers of two (which change no digit of the entries)."""
    S = np.ones(dims(M)[1]) if S is None else S
    E = np.outer(D, D)
    by = dict(A=np.outer(D, 1 / D), b=D, C=np.outer(S, 1 / D), d=S, Q=E, R=np.outer(S, S), m0=D, P0=E)
    return {k: np.array(v, float) * by[k] for k, v in M.items()}


def in_units_unscented(U, D, S=None):
    """The same for an unscented model."""
    S = np.ones(len(U["R"])) if S is None else S
    E = np.outer(D, D)
    by = dict(
        f=dict(A=np.outer(D, 1 / D), b=D, g=D, W=1 / D, B=np.outer(D, 1 / D), k=1 / D),
        g=dict(A=np.outer(S, 1 / D), b=S, g=S, W=1 / D, B=np.outer(S, 1 / S), k=1 / S),
    )
    V = {q: {k: v if k == "tv" else v * by[q].get(k, 1.0) for k, v in U[q].items()} for q in "fg"}
    return dict(U, m0=U["m0"] * D, P0=U["P0"] * E, Q=U["Q"] * E, R=U["R"] * np.outer(S, S), **V)


@st.composite
def state_units(draw, n, top=20):
    """Exponents of two, one per component of the state."""
    how = draw(st.sampled_from(["same"] * 6 + ["mixed", "one", "near"] * 2 + ["far"]))
    rng = np.random.RandomState(draw(seeds))
    units = np.zeros(n)
    if how == "mixed":
        units = rng.randint(-top, top + 1, n).astype(float)
    elif how == "one":
        units[rng.randint(n)] = rng.choice([-top, top])
    elif how == "near":
        units = rng.randint(-1, 2, n).astype(float)
    elif how == "far":  # all numbers tiny or huge
        units += rng.choice([-260, -150, 150, 260])
    return units


def limit(units, top):
    """Units at most that far from their middle."""
    units = np.asarray(units, float)
    mid = np.floor((units.max() + units.min()) / 2) if units.size else 0.0
    return mid + np.clip(units - mid, -top, top)


@st.composite
def sensor_units(draw, m, top=8):
    """Exponents of two, one per component of the observation.  Filters invert
    the covariance of all components at once, so that the tolerance has to grow
    with the square of their ratio."""
    how = draw(st.sampled_from(["same"] * 12 + ["mixed", "one"] * 3 + ["far"]))
    rng = np.random.RandomState(draw(seeds))
    units = np.zeros(m)
    if how == "mixed":
        units = rng.randint(-top, top + 1, m).astype(float)
    elif how == "one":
        units[rng.randint(m)] = rng.choice([-top, top])
    elif how == "far":
        units += rng.choice([-260, -150, 150, 260])
    return units


def sensors(case, m):
    """Units of the observed components, and the square of their ratio - 1."""
    S = 2.0 ** np.asarray(case.get("zunits", 0.0)) * np.ones(m)
    return S, (S.max() / S.min()) ** 2 - 1.0


def state_size(M):
    """Standard deviation of the state, roughly, whatever its units."""
    for S in (M["P0"], np.asarray(M["Q"]).reshape((-1,) + M["P0"].shape)[0]):
        if np.any(S):
            return float(np.sqrt(np.trace(S) / len(S)))
    return float(np.abs(M["m0"]).max() or 1.0)


def dims(M):
    return M["P0"].shape[0], M["R"].shape[-1]


def tv_keys(M):
    return [k for k in ND if M.get(k) is not None and np.asarray(M[k]).ndim > ND[k]]


# ----------------------------------------------------------- observations

MASKS = ["none", "none", "random", "half", "head", "tail", "run", "one", "all", "partial", "partial"]


@st.composite
def mask(draw, T, m, kinds=MASKS):
    """[T, m] boolean mask."""
    kind = draw(st.sampled_from(kinds))
    rng = np.random.RandomState(draw(seeds))
    k = np.zeros((T, m), bool)
    if kind in ("random", "half"):
        rows = rng.rand(T) < (0.25 if kind == "random" else 0.6)
        k[rows] = True
    elif kind == "head":
        k[: draw(st.integers(1, T))] = True
    elif kind == "tail":
        k[T - draw(st.integers(1, T)) :] = True
    elif kind == "run":
        a = draw(st.integers(0, T - 1))
        k[a : a + draw(st.integers(1, T))] = True
    elif kind == "one":
        k[draw(st.integers(0, T - 1))] = True
    elif kind == "all":
        k[:] = True
    elif kind == "partial":
        k = rng.rand(T, m) < draw(st.sampled_from([0.1, 0.3, 0.6]))
    return k


@st.composite
def observations(draw, M, T, kinds=MASKS):
    """Z [T, m] float, K [T, m] mask; values roughly as the model predicts."""
    n, m = dims(M)
    rng = np.random.RandomState(draw(seeds))
    mode = draw(st.sampled_from(["model", "model", "model", "flat", "rand", "zero", "int", "spike"]))
    from .ref import at

    Z = np.zeros((T, m))
    sz = np.sqrt(max(np.trace(at(M["R"], 0, 2)) / m, 1e-300))
    if mode in ("model", "spike", "int"):
        x = np.array(M["m0"], float) + sq(M["P0"]) @ rng.randn(n)
        for t in range(T):
            if t:
                x = at(M["A"], t - 1, 2) @ x + at(M["b"], t - 1, 1) + sq(at(M["Q"], t - 1, 2)) @ rng.randn(n)
            Z[t] = at(M["C"], t, 2) @ x + at(M["d"], t, 1) + sq(at(M["R"], t, 2)) @ rng.randn(m)
        if mode == "spike":
            Z[rng.randint(T)] += 100 * sz
        if mode == "int":
            Z = np.round(Z)
    elif mode == "flat":
        Z[:] = rng.randn(m) * sz
    elif mode == "rand":
        Z = rng.randn(T, m) * 3 * sz
    K = draw(mask(T, m, kinds))
    return Z, K


def sq(S):
    """Some square root of a PSD matrix."""
    w, v = np.linalg.eigh((S + S.T) / 2)
    return v * np.sqrt(np.maximum(w, 0))


def masked(Z, K, junk=None):
    """Observation array to pass in; plain array if nothing is masked."""
    Z = np.array(Z, float)
    if not K.any():
        return Z
    if junk is not None:
        Z = Z.copy()
        Z[K] = junk
    return np.ma.array(Z, mask=K.copy())


# ------------------------------------------------------------ simplifying


def simplify_linear(case, key="M"):
    """Simpler variants of a case holding a model and observations."""
    M = case[key]
    n, m = dims(M)

    def put(k, v):
        c = dict(case)
        c[key] = dict(M)
        c[key][k] = v
        return c

    for k in ("b", "d", "m0"):
        if np.any(M[k]):
            yield put(k, np.zeros_like(np.asarray(M[k], float)))
    for k in ("A", "C", "b", "d", "Q", "R"):
        if np.asarray(M[k]).ndim > ND[k]:
            yield put(k, np.asarray(M[k])[0])
    for k, v in (("A", np.eye(n)), ("Q", np.eye(n)), ("R", np.eye(m)), ("P0", np.eye(n)), ("C", np.eye(m, n))):
        if M[k].shape == v.shape and not np.array_equal(M[k], v):
            yield put(k, v)
    for k in ("A", "C", "b", "d", "m0"):
        for dec in (0, 1):
            r = np.round(np.asarray(M[k], float), dec)
            if not np.array_equal(r, M[k]):
                yield put(k, r)
    if "Z" in case:
        for dec in (0, 1):
            r = np.round(np.asarray(case["Z"], float), dec)
            if not np.array_equal(r, case["Z"]):
                yield dict(case, Z=r)


# ------------------------------------------------------- unscented filters

UNSCENTED = ["UKF", "AUKF", "SqrtAUKF"]


def functions(F, T):
    """What to pass as transition_functions / observation_functions: one
    callable, or a list with one per step."""
    if not F["tv"]:
        return func(F, 0)
    return [func(F, t) for t in range(len(F["b"]))]


def func(F, t):
    """The function of step t: affine, plus amplitude g of a sine, plus noise
    entering linearly (B), scaled by the state (h) and squared (k)."""
    i = t if F["tv"] else 0
    A, b, g, W, p = (np.asarray(F[k][i], float) for k in ("A", "b", "g", "W", "p"))

    def base(x):
        return A @ x + b + g * np.sin(W @ x + p)

    if "B" not in F:
        return base
    B, h, k = (np.asarray(F[q][i], float) for q in ("B", "h", "k"))

    def f(x, v):
        e = B @ v
        return base(x) + e + h * np.sin(W @ x) * e + k * e * e

    return f


@st.composite
def function(draw, n_out, n_in, steps, noise, linear, scale_out=1.0, scale_in=1.0, square=True):
    """A function spec; steps > 0 gives that many per-step functions."""
    rng = np.random.RandomState(draw(seeds))
    tv = steps > 0
    mode = draw(st.sampled_from(TRANS if n_out == n_in and square else OBSMAT))
    amp = 0.0 if linear else draw(st.sampled_from([0.1, 0.3, 1.0]))
    bm = draw(st.sampled_from(["rand", "zero", "int"]))
    nm = draw(st.sampled_from(["eye", "rand", "state", "square"])) if noise else None
    # some components decoupled from others altogether
    loose = not linear and draw(st.sampled_from([False, False, True]))
    F = dict(tv=tv, A=[], b=[], g=[], W=[], p=[])
    if noise:
        F.update(B=[], h=[], k=[])
    for _ in range(max(steps, 1)):
        A = trans(rng, n_out, mode) if mode in TRANS and n_out == n_in and square else obsmat(rng, n_out, n_in, mode if mode in OBSMAT else "rand")
        keep = np.ones((n_out, n_in))
        if loose:
            keep = np.eye(n_out, n_in)[:, rng.permutation(n_in)] if rng.rand() < 0.6 else (rng.rand(n_out, n_in) < 0.5) * 1.0
        F["A"].append(A * keep * scale_out / scale_in)
        F["b"].append(vec(rng, n_out, bm) * scale_out)
        F["g"].append(amp * rng.uniform(-1, 1, n_out) * scale_out)
        F["W"].append(keep * rng.randn(n_out, n_in) / scale_in)
        F["p"].append(rng.uniform(-3, 3, n_out))
        if noise:
            B = np.eye(n_out) if nm == "eye" or loose else np.eye(n_out) + 0.4 * rng.randn(n_out, n_out)
            F["B"].append(B)
            F["h"].append((0.3 if nm == "state" and not linear else 0.0) * rng.uniform(-1, 1, n_out))
            F["k"].append((0.1 if nm == "square" and not linear else 0.0) * rng.uniform(-1, 1, n_out) / scale_out)
    for k in F:
        if k != "tv":
            F[k] = np.array(F[k])
    return F


@st.composite
def unscented_model(draw, T, noise, linear, n=None, m=None, tv=True, max_n=5, max_m=3, scaled=True):
    """Spec of an unscented model: f g (function specs) Q R m0 P0."""
    n = draw(rarely(st.integers(1, max_n), st.integers(max_n, 9), 12)) if n is None else n
    m = draw(rarely(st.integers(1, max_m), st.integers(max_m, 6), 12)) if m is None else m
    rng = np.random.RandomState(draw(seeds))
    unit = draw(common_units) if scaled else 1.0
    sx = unit * draw(scales) if scaled else 1.0
    sz = unit * draw(scales) if scaled else 1.0
    tvf = tv and T > 1 and draw(st.booleans())
    tvg = tv and draw(st.booleans())
    extra = draw(st.sampled_from([0, 0, 1]))
    return dict(
        f=draw(function(n, n, T - 1 + extra if tvf else 0, noise, linear, sx, sx)),
        g=draw(function(m, n, T + extra if tvg else 0, noise, linear, sz, sx, square=False)),
        Q=covm(rng, n, draw(st.sampled_from(PD)), sx * sx * draw(st.sampled_from([1.0, 0.1]))),
        R=covm(rng, m, draw(st.sampled_from(PD)), sz * sz * draw(st.sampled_from([1.0, 0.1]))),
        m0=vec(rng, n, draw(st.sampled_from(["rand", "zero", "int"]))) * sx,
        P0=covm(rng, n, draw(st.sampled_from(PD)), sx * sx),
    )


def unscented(name, U, T, **extra):
    """Construct the class from a spec."""
    return cls(name)(
        transition_functions=functions(U["f"], T),
        observation_functions=functions(U["g"], T),
        transition_covariance=U["Q"],
        observation_covariance=U["R"],
        initial_state_mean=U["m0"],
        initial_state_covariance=U["P0"],
        **extra,
    )


def unscented_observations(U, T, rng, mode):
    n, m = len(U["m0"]), len(U["R"])
    x = U["m0"] + sq(U["P0"]) @ rng.randn(n)
    Z = np.zeros((T, m))
    noise = "B" in U["f"]
    for t in range(T):
        v, e = sq(U["Q"]) @ rng.randn(n), sq(U["R"]) @ rng.randn(m)
        if t:
            f = func(U["f"], t - 1)
            x = f(x, v) if noise else f(x) + v
        g = func(U["g"], t)
        Z[t] = g(x, e) if noise else g(x) + e
    if mode == "spike":
        Z[rng.randint(T)] += 5 * np.sqrt(np.trace(U["R"]))
    if mode == "zeros":  # readings of exactly zero
        Z[rng.rand(T, m) < 0.5] = 0.0
        Z[rng.rand(T) < 0.3] = 0.0
    if mode == "flat":  # the same reading again and again
        Z[:] = Z[0]
    return Z


def equivalent_linear(U, T):
    """The linear model an affine spec stands for (exact per-step arrays)."""
    f, g = U["f"], U["g"]

    def per(F, key, k):
        return F[key] if F["tv"] else F[key][0]

    M = dict(A=per(f, "A", 2), b=per(f, "b", 1), C=per(g, "A", 2), d=per(g, "b", 1), m0=U["m0"], P0=U["P0"])
    for F, cov, key in ((f, U["Q"], "Q"), (g, U["R"], "R")):
        if "B" in F:
            E = np.array([B @ cov @ B.T for B in F["B"]])
            M[key] = E if F["tv"] else E[0]
        else:
            M[key] = cov
    return M


def drop_tv(F):
    return dict({k: (v[:1] if k != "tv" else False) for k, v in F.items()})


def simplify_unscented(case, key="U"):
    U = case[key]
    n, m = len(U["m0"]), len(U["R"])

    def put(**kw_):
        c = dict(case)
        c[key] = dict(U, **kw_)
        return c

    for q in ("f", "g"):
        F = U[q]
        if F["tv"]:
            yield put(**{q: drop_tv(F)})
        for k in ("g", "b", "h", "k", "p"):
            if k in F and np.any(F[k]):
                yield put(**{q: dict(F, **{k: np.zeros_like(F[k])})})
        if "B" in F:
            E = np.broadcast_to(np.eye(F["B"].shape[-1]), F["B"].shape).copy()
            if not np.array_equal(E, F["B"]):
                yield put(**{q: dict(F, B=E)})
        for k in ("A", "W", "b", "g"):
            r = np.round(F[k], 1)
            if not np.array_equal(r, F[k]):
                yield put(**{q: dict(F, **{k: r})})
    for k, v in (("Q", np.eye(n)), ("R", np.eye(m)), ("P0", np.eye(n)), ("m0", np.zeros(n))):
        if not np.array_equal(U[k], v):
            yield put(**{k: v})
    if "Z" in case:
        T = len(case["Z"])
        for k in (T // 2, T - 1):
            if 1 <= k < T:
                yield dict(case, Z=case["Z"][:k], K=case["K"][:k])
        r = np.round(case["Z"], 1)
        if not np.array_equal(r, case["Z"]):
            yield dict(case, Z=r)


class Fn:
    """func(F, t) as an object that can be pickled."""

    def __init__(self, F, t):
        self.F, self.t = F, t

    def __call__(self, *args):
        return func(self.F, self.t)(*args)
