"""C12: results do not depend on the representation of equal inputs."""
import array
import functools

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Skip, Violation, close, sut
from . import c01, c04, c07, c09
from .c05 import ARG

N = {"quick": 900, "thorough": 8000}
RULE = (
    "Hypothesis draws one of the six classes, a model, observations and a mask, and for "
    "every parameter and the observations a representation: nested lists or tuples, "
    "integers (8 to 64 bits, signed or not), single or extended precision, Fortran order, "
    "strided or reversed views, read-only, big- or little-endian "
    "dtype, np.matrix, an object with __array__, scalar where the dimension is one, constant "
    "repeated per step, memoryview or array.array, NumPy scalars and 0-d arrays; integers up to 2^52; "
    "functions as partials, bound methods, objects, with results as lists, views or scalars; observations "
    "also flat (one per step), as masked array without masked entries, as range or list of "
    "arrays. filter, smooth, loglikelihood, em, sample and (for arrays) filter_update are "
    "compared with those for plain float arrays. Non-trivial: at least two arguments in an unusual representation."
)
ASSUMPTIONS = c01.ASSUMPTIONS + c09.ASSUMPTIONS + ["integer and list forms hold exactly the same numbers"]
REPS = ["plain", "list", "tuple", "F", "strided", "reversed", "big", "little", "readonly", "int", "int32", "intlist", "scalar", "repeat", "repeatlist", "rows", "transposed", "narrow", "float32", "longdouble", "matrix", "arraylike", "buffer", "npscalar", "zerod", "npscalarlist"]
ARRAYS = ["plain", "F", "strided", "reversed", "big", "little", "readonly", "int", "int32", "transposed", "narrow", "float32", "longdouble"]
OBS = ["plain", "list", "tuple", "F", "strided", "reversed", "big", "readonly", "int", "intlist", "masked", "maskedfalse", "flat", "flatlist", "flatmasked", "rows", "int16", "bigmasked", "range", "narrow", "float32", "matrix", "arraylike", "buffer", "npscalarlist"]


@st.composite
def strategy_(draw, tier):
    unscented = draw(st.sampled_from([False, False, True]))
    T = draw(st.one_of(st.integers(1, 3), st.integers(1, 8)))
    n = draw(st.sampled_from([None, None, 1]))
    m = draw(st.sampled_from([None, 1]))
    rng = np.random.RandomState(draw(gen.seeds))
    if unscented:
        name = draw(st.sampled_from(gen.UNSCENTED))
        U = draw(gen.unscented_model(T, name == "UKF", False, n=n, m=m, max_n=4, scaled=False))
        Z = gen.unscented_observations(U, T, rng, "model")
        K = draw(gen.mask(T, len(U["R"]), ["none", "none", "random", "partial"]))
        keys = ["Q", "R", "m0", "P0"]
        c = dict(kind="unscented", cls=name, U=U, Z=Z, K=K)
        prm = U
    else:
        name = draw(st.sampled_from(["KalmanFilter"] + gen.LINEAR))
        n = draw(st.integers(1, 4)) if n is None else n
        m = draw(st.integers(1, 3)) if m is None else m
        kf = name == "KalmanFilter"
        M = draw(gen.linear_model(T, n, m, psd=False, tv_cov=kf, scaled=False))
        Z, K = draw(gen.observations(M, T, ["none", "none", "none", "random", "partial"]))
        keys = c04.KEYS
        c = dict(kind="linear", cls=name, M=M, Z=Z, K=K)
        prm = M
    reps = {}
    for k in keys:
        r = draw(st.sampled_from(REPS))
        if r in ("int", "int32", "intlist", "narrow"):
            prm[k] = rounded(prm[k], k)
        if r == "float32":
            prm[k] = np.float32(prm[k]).astype(float)
        reps[k] = r
    if unscented:
        for q in "fg":
            reps[q] = draw(st.sampled_from(["plain", "list", "tuple", "object", "repeat"]))
            reps["result of " + q] = draw(st.sampled_from(["plain", "plain", "list", "tuple", "readonly", "strided", "scalar"]))
            reps["kind of " + q] = draw(st.sampled_from(["plain", "partial", "method", "object"]))
    r = draw(st.sampled_from(OBS))
    if r == "float32":
        c["Z"] = np.float32(c["Z"]).astype(float)
    if r == "narrow" and draw(st.booleans()):
        c["Z"] = np.abs(c["Z"])
    if r in ("int", "intlist", "int16", "narrow"):
        c["Z"] = np.clip(np.round(c["Z"]), -9999, 9999) + 0.0
        if r != "int16" and draw(st.sampled_from([False, False, True])):  # counters, time stamps
            big = draw(st.sampled_from([2**24, 2**31 - 20000, 2**31, 2**32, 10**10, 2**52]))
            c["Z"] = c["Z"] + big
            if not unscented:
                c["M"]["d"] = c["M"]["d"] + big
                reps["d"] = "plain" if reps["d"] == "float32" else reps["d"]
            elif draw(st.booleans()):
                c["U"]["g"]["b"] = c["U"]["g"]["b"] + big
    if r == "range":
        c["K"] = np.zeros_like(K)
        if Z.shape[1] == 1:
            c["Z"] = np.arange(T, dtype=float)[:, None]
    reps["Z"] = r
    c["reps"] = reps
    c["em"] = draw(st.sampled_from(["default", "all", "none", "one"]))
    c["update"] = dict(mean=draw(st.sampled_from(ARRAYS)), cov=draw(st.sampled_from(ARRAYS)), given=draw(st.booleans()))
    c["seed"] = draw(st.integers(0, 10**6))
    return c


def strategy(tier):
    return strategy_(tier)


def rounded(V, k):
    V = np.asarray(V, float)
    if k not in ("Q", "R", "P0"):
        return np.round(V) + 0.0
    flat = V.reshape((-1,) + V.shape[-2:])
    out = []
    for S in flat:
        A = np.round(S * (4.0 * len(S) / np.trace(S)))
        if not np.linalg.eigvalsh(A)[0] > 0.3:
            A = np.diag(np.arange(1.0, len(A) + 1))
        out.append(A + 0.0)
    return np.array(out).reshape(V.shape)


class ArrayLike:
    """Something numpy can turn into an array."""

    def __init__(self, A):
        self.A = A

    def __array__(self, dtype=None, copy=None):
        return np.array(self.A, dtype=dtype)

    def __len__(self):
        return len(self.A)

    def __getitem__(self, i):
        return self.A[i]


def totuple(x):
    return tuple(totuple(v) for v in x) if isinstance(x, list) else x


def strided(A):
    big = np.full(tuple(2 * s for s in A.shape), 777.0)
    view = big[tuple(slice(None, None, 2) for _ in A.shape)]
    view[...] = A
    return view


def reverse(A):
    sl = tuple(slice(None, None, -1) for _ in A.shape)
    return np.ascontiguousarray(A[sl])[sl]


def represent(A, r, nd, T=None, key=None, cls=None):
    """A in representation r; the plain array where r does not apply."""
    A = np.array(A, float)
    tv = A.ndim > nd
    if r == "list":
        return A.tolist()
    if r == "tuple":
        return totuple(A.tolist())
    if r == "F":
        return np.asfortranarray(A)
    if r == "strided":
        return strided(A)
    if r == "reversed":
        return reverse(A)
    if r == "transposed":
        return np.ascontiguousarray(A.T).T
    if r == "big":
        return A.astype(">f8")
    if r == "little":
        return A.astype("<f8")
    if r == "readonly":
        A.setflags(write=False)
        return A
    if r == "int":
        return A.astype(int)
    if r == "int32":
        return A.astype(">i4" if np.abs(A).max() < 2**31 else ">i8")
    if r == "intlist":
        return A.astype(int).tolist()
    if r == "narrow":
        return narrow(A)
    if r in ("float32", "longdouble"):
        return A.astype(r)
    if r == "matrix" and A.ndim == 2 and nd == 2:
        return A.view(np.matrix)
    if r == "arraylike":
        return ArrayLike(A)
    if r == "buffer":
        return buffer(A)
    if r == "npscalarlist":
        return npscalars(A)
    if r == "npscalar" and not tv and A.size == 1:
        return A.reshape(-1)[0]
    if r == "zerod" and not tv and A.size == 1:
        return A.reshape(())
    if r == "rows" and A.ndim > 1:
        return [np.array(a) for a in A]
    if r == "scalar" and not tv and A.size == 1:
        return float(A.reshape(-1)[0])
    if r in ("repeat", "repeatlist") and not tv and key in ("A", "b", "C", "d", "Q", "R"):
        if key in "QR" and cls != "KalmanFilter":
            return A
        k = max(T - 1, 1) if key in "AbQ" else T
        out = np.array([A] * k)
        return out.tolist() if r == "repeatlist" else out
    return A


def buffer(A):
    """Something with a buffer that is no array."""
    return array.array("d", A.tolist()) if A.ndim == 1 else memoryview(np.ascontiguousarray(A))


def npscalars(A):
    """Nested lists of NumPy's numbers."""
    return [npscalars(a) for a in A] if A.ndim > 1 else list(A)


class Method:
    def __init__(self, f):
        self.f = f

    def apply(self, *args):
        return self.f(*args)

    __call__ = apply


def function(f, reps, q):
    """f as another kind of callable, its result in another form."""
    r, kind = reps["result of " + q], reps["kind of " + q]

    def g(*args):
        y = f(*args)
        if r == "list":
            return y.tolist()
        if r == "tuple":
            return tuple(y)
        if r == "strided":
            return strided(y)
        if r == "scalar" and len(y) == 1:
            return float(y[0])
        if r == "readonly":
            y.setflags(write=False)
        return y

    g = f if r == "plain" else g
    return {"plain": g, "partial": functools.partial(g), "method": Method(g).apply, "object": Method(g)}[kind]


def narrow(A):
    """The smallest integer type."""
    for t in (bool, np.uint8, np.int8, np.int16, np.int32, np.int64):
        if np.array_equal(A.astype(t), A):
            return A.astype(t)
    return A


def observed(Z, K, r):
    Z = np.array(Z, float)
    T, m = Z.shape
    if K.any():
        X = np.ma.array(Z, mask=K.copy())
        if r == "F":
            return np.ma.array(np.asfortranarray(Z), mask=np.asfortranarray(K))
        if r in ("strided", "reversed"):
            f = strided if r == "strided" else reverse
            return np.ma.array(f(Z), mask=K.copy())
        if r in ("big", "bigmasked"):
            return X.astype(">f8")
        if r in ("int", "intlist"):
            return X.astype(int)
        if r == "int16":
            return X.astype(np.int16)
        if r == "narrow":
            return np.ma.array(narrow(Z), mask=K.copy())
        if r in ("float32", "longdouble"):
            return X.astype(r)
        if r in ("flat", "flatlist", "flatmasked") and m == 1 and T > 1:
            return np.ma.array(Z[:, 0], mask=K[:, 0])
        return X
    if r == "list":
        return Z.tolist()
    if r == "tuple":
        return totuple(Z.tolist())
    if r == "F":
        return np.asfortranarray(Z)
    if r == "strided":
        return strided(Z)
    if r == "reversed":
        return reverse(Z)
    if r == "big":
        return Z.astype(">f8")
    if r == "readonly":
        Z.setflags(write=False)
        return Z
    if r == "int":
        return Z.astype(int)
    if r == "int16":
        return Z.astype(np.int16)
    if r == "intlist":
        return Z.astype(int).tolist()
    if r == "narrow":
        return narrow(Z)
    if r in ("float32", "longdouble"):
        return Z.astype(r)
    if r == "masked":
        return np.ma.array(Z)
    if r == "maskedfalse":
        return np.ma.array(Z, mask=np.zeros(Z.shape, bool))
    if r == "bigmasked":
        return np.ma.array(Z.astype(">f8"), mask=False)
    if r == "rows":
        return [np.array(z) for z in Z]
    if r == "buffer":
        return buffer(Z)
    if r == "npscalarlist":
        return npscalars(Z)
    if r == "matrix":
        return Z.view(np.matrix)
    if r == "arraylike":
        return ArrayLike(Z)
    if m == 1 and T > 1:
        if r == "flat":
            return Z[:, 0]
        if r == "flatlist":
            return Z[:, 0].tolist()
        if r == "flatmasked":
            return np.ma.array(Z[:, 0])
        if r == "range" and np.array_equal(Z[:, 0], np.arange(T)):
            return range(T)
    return Z


def build(case, plain):
    T = len(case["Z"])
    reps = case["reps"]
    if case["kind"] == "linear":
        M = case["M"]
        if plain:
            kw = {k: np.array(v, float) for k, v in M.items()}
        else:
            kw = {k: represent(v, reps[k], gen.ND[k], T, k, case["cls"]) for k, v in M.items()}
        return gen.cls(case["cls"])(**gen.kw(kw))
    U = dict(case["U"])
    if not plain:
        for k in ("Q", "R", "m0", "P0"):
            U[k] = represent(U[k], reps[k], gen.ND[k], T, "-")
    kf = {}
    for q, steps in (("f", max(T - 1, 1)), ("g", T)):
        fn = gen.functions(U[q], T)
        if not plain:
            r = reps[q]
            fn = [function(f, reps, q) for f in fn] if isinstance(fn, list) else function(fn, reps, q)
            if r == "repeat" and not isinstance(fn, list):
                fn = [fn] * steps
            elif isinstance(fn, list):
                if r == "tuple":
                    fn = tuple(fn)
                elif r == "object":
                    a = np.empty(len(fn), object)
                    a[:] = fn
                    fn = a
        kf[q] = fn
    return gen.cls(case["cls"])(
        transition_functions=kf["f"], observation_functions=kf["g"], transition_covariance=U["Q"],
        observation_covariance=U["R"], initial_state_mean=U["m0"], initial_state_covariance=U["P0"],
    )


def check(case):
    lin = case["kind"] == "linear"
    Z, K = case["Z"], case["K"]
    T = len(Z)
    if lin:
        J = c01.reference(case)
        if case["cls"] != "KalmanFilter":
            c07.pd_domain(J)
        r = c01.tolerance(J)
        sx, sc = J.mean_scale(), J.cov_scale()
        try:
            rs = c01.smooth_tolerance(J, case["M"])
        except Skip:
            rs = None
    else:
        fm, fc, _, _, worst = c09.reference("aug" if case["cls"] == "UKF" else "add", case)
        sx, sc = c09.scales(case["U"], fm, fc)
        far = np.abs(np.where(K, 0, Z)).max()
        if far > 1e6:  # sigma points of large observations are rounded
            worst += far / np.sqrt(np.linalg.eigvalsh(case["U"]["R"])[0])
            sx += 1e-3 * far
        r = 1e-9 + 1e-12 * worst
        if r > 1e-3:
            raise Skip
        rs = 10 * r
    a = build(case, True)
    b = sut("constructor", build, case, False)
    plain = gen.masked(Z, K)
    X = observed(Z, K, case["reps"]["Z"])
    for what, tol in (("filter", r), ("smooth", rs)):
        if tol is None:
            continue
        try:
            want = getattr(a, what)(plain)
        except Exception:  # noqa: BLE001  (not a matter of representation)
            raise Skip from None
        got = sut(what, getattr(b, what), X)
        close(f"{what}: means", got[0], want[0], sx, tol)
        close(f"{what}: covariances", got[1], want[1], sc, tol)
        if what == "filter":
            update(case, a, b, want, sx, sc, tol)
    n = min(T, 4)
    for init in (None, case["Z"].shape[1]):
        x0 = None if init is None else np.arange(sizes(case)).astype(float)
        want = a.sample(n, initial_state=x0, random_state=case["seed"])
        got = sut("sample", b.sample, n, initial_state=None if x0 is None else x0.astype(int).tolist(), random_state=case["seed"])
        for x, y, q in zip(got, want, ("states", "observations")):
            y = np.asarray(y)
            if np.all(np.isfinite(y)):
                close(f"sample: {q}", x, y, np.abs(y).max() + 1.0, 1e-9)
    if not lin:
        return
    want = a.loglikelihood(plain)
    got = sut("loglikelihood", b.loglikelihood, X)
    close("loglikelihood", got, want, np.abs(J.ll).sum() + T, 10 * r)
    em(case, X, plain)


def update(case, a, b, filt, sx, sc, tol):
    """One filter_update from the first filtered state, arrays in any form."""
    if len(case["Z"]) < 2:
        return
    lin = case["kind"] == "linear"
    reps, forms = case["reps"], case["update"]
    args, odd = {}, {}
    mean, cov = np.array(filt[0][0]), np.array(filt[1][0])
    if forms["cov"] in ("int", "int32", "narrow"):
        cov = rounded(cov, "P0")
    for what in ("mean", "cov"):
        if forms[what] == "float32":
            mean, cov = (np.float32(mean).astype(float), cov) if what == "mean" else (mean, np.float32(cov).astype(float))
    if forms["mean"] in ("int", "int32", "narrow"):
        mean = rounded(mean, "m0")
    e = np.linalg.eigvalsh(cov)
    if not e[0] > 1e-7 * e[-1] or not np.allclose(cov, cov.T, rtol=1e-12, atol=0):
        return
    if lin:
        M = case["M"]
        for k in "AbCdQR":
            if np.ndim(M[k]) > gen.ND[k] or forms["given"] or reps[k].startswith("repeat"):
                v = np.array(ref.at(M[k], 0 if k in "AbQ" else 1, gen.ND[k]), float)
                args[ARG[k]] = v
                r = reps[k] if reps[k] in ARRAYS else "plain"
                odd[ARG[k]] = represent(v, r, gen.ND[k])
        step = {k: np.array(ref.at(M[k], 0 if k in "AbQ" else 1, gen.ND[k]), float) for k in "AbCdQR"}
        J = ref.Joint(
            dict(step, m0=step["A"] @ mean + step["b"], P0=step["A"] @ cov @ step["A"].T + step["Q"]),
            case["Z"][1:2], case["K"][1:2].any(axis=1), full=False,
        )
        if not J.ok or J.cond > 1e6 or J.drop > 1e8:
            return
        try:
            c07.pd_domain(J)
        except Skip:
            return
        tol = max(tol, c01.tolerance(J))
    else:
        U = case["U"]
        for k, arg, t in (("f", "transition_function", 0), ("g", "observation_function", 1)):
            if U[k]["tv"] or reps[k] == "repeat":
                args[arg] = gen.func(U[k], t)
                odd[arg] = function(args[arg], reps, k)
        try:  # domain of this step
            ref.WORST[0] = 1.0
            _, P = ref.ukf_step(
                "aug" if case["cls"] == "UKF" else "add", mean, cov, gen.func(U["f"], 0), gen.func(U["g"], 1),
                U["Q"], U["R"], case["Z"][1], case["K"][1].any(), False,
            )
            ref.chol(P)
        except ref.NotPD:
            return
        far = np.abs(np.where(case["K"], 0, case["Z"])).max()
        tol = 1e-9 + 1e-12 * (ref.WORST[0] + far / np.sqrt(np.linalg.eigvalsh(U["R"])[0]))
        if tol > 1e-3:
            return
    z, k = case["Z"][1], case["K"][1]
    z = np.ma.array(z, mask=k) if k.any() else np.array(z)
    try:
        want = a.filter_update(mean.copy(), cov.copy(), z, **args)
    except Exception:  # noqa: BLE001
        return
    w = reps["Z"] if reps["Z"] in ARRAYS else "plain"
    z2 = represent(case["Z"][1], w, 1)
    if k.any():
        z2 = np.ma.array(z2, mask=k)
    elif reps["Z"] in ("list", "tuple", "intlist", "rows", "arraylike", "npscalarlist", "masked", "maskedfalse"):
        z2 = observed(case["Z"][1:2], case["K"][1:2], reps["Z"])[0]  # an element of such a sequence
    got = sut("filter_update", b.filter_update, represent(mean, forms["mean"], 1), represent(cov, forms["cov"], 2), z2, **odd)
    s = max(sx, np.abs(mean).max(), np.sqrt(e[-1]), np.abs(want[0]).max())
    close("filter_update: mean", got[0], want[0], s, 10 * tol)
    close("filter_update: covariance", got[1], want[1], max(sc, e[-1], np.abs(want[1]).max()), 10 * tol)


def sizes(case):
    return len((case["M"] if case["kind"] == "linear" else case["U"])["m0"])


def em(case, X, plain):
    if case["em"] == "none":
        return
    rng = np.random.RandomState(case["seed"])
    arg = {"default": None, "all": "all", "one": [gen.NAME[c04.KEYS[rng.randint(8)]]]}[case["em"]]
    keys = c04.em_keys(dict(em=case["em"])) if case["em"] != "one" else {k for k in c04.KEYS if gen.NAME[k] in arg}
    miss = case["K"].any(axis=1)
    T = len(miss)
    if (miss.all() and keys & {"C", "R", "d"}) or (T == 1 and keys & {"A", "Q", "b"}):
        return
    cur = {k: np.array(v, float) for k, v in case["M"].items()}
    if any(cur[k].ndim > 2 and k not in keys for k in "QR"):
        return  # unweighted regressions; see C04
    J = ref.Joint(cur, case["Z"], miss)
    try:
        r = c01.smooth_tolerance(J, cur)
    except Skip:
        return
    want = ref.m_step(cur, J, case["Z"], miss, keys)
    if want is None or ref.MSTEP_COND[0] > 1e7:
        return
    tol = 10 * r * ref.MSTEP_COND[0] ** 0.5 + 1e-11 * ref.MSTEP_COND[0]
    a, b = build(case, True), build(case, False)
    try:
        a.em(plain, n_iter=1, em_vars=arg)
    except Exception:  # noqa: BLE001
        return
    sut("em", b.em, X, n_iter=1, em_vars=arg)
    x, y = c04.params(b), c04.params(a)
    sx = J.mean_scale()
    sA, sC = c04.size(y["A"], cur["A"]), c04.size(y["C"], cur["C"])
    zs = max(J.zscale, 1e-300) + sC * sx + c04.size(y["d"], cur["d"])
    xs = sx * (1 + sA) + c04.size(y["b"], cur["b"])
    scale = dict(A=sA + xs / sx, C=zs / sx + sC, b=xs, d=zs, Q=xs**2, R=zs**2, m0=sx, P0=sx**2)
    for k in c04.KEYS:
        p, q = x[k], y[k]
        if p.ndim > q.ndim and k not in keys:  # given per step, not estimated
            q = np.broadcast_to(q, p.shape)
        close(f"em: {gen.NAME[k]}", p, q, scale[k], tol)


def unusual(case):
    return {k: v for k, v in case["reps"].items() if v not in ("plain", "little")}


def nontrivial(case):
    return len(unusual(case)) >= 2


def classes(case):
    out = [case["cls"], f"observations {case['reps']['Z']}", "T=1" if len(case["Z"]) == 1 else "T>1"]
    return out + [f"parameter {v}" for v in sorted(set(v for k, v in unusual(case).items() if k != "Z"))]


def simplify(case):
    for k in ("mean", "cov"):
        if case["update"][k] != "plain":
            yield dict(case, update=dict(case["update"], **{k: "plain"}))
    if case["update"]["given"]:
        yield dict(case, update=dict(case["update"], given=False))
    for k, v in case["reps"].items():
        if v != "plain":
            yield dict(case, reps=dict(case["reps"], **{k: "plain"}))
    if any("int" in v for v in case["reps"].values()):
        return
    if case["kind"] == "linear":
        yield from gen.simplify_linear(case)
        yield from c01.shorten(case)
    else:
        yield from gen.simplify_unscented(case)
