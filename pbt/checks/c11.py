"""C11: samples follow the model; seeds make them reproducible."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Skip, Violation, close, sut

N = {"quick": 130, "thorough": 1500}
S = 300  # replicates per case in the statistical part
SIGMAS = 8.0
RULE = (
    "Hypothesis draws one of the six classes and a model (linear with constant or "
    "per-step parameters including covariances for KalmanFilter; unscented with "
    "nonlinear functions, constant or per step, noise mixed or scaled by the state). "
    "Per case: (a) with zero noise the sample equals the recursion written out; (b) 300 "
    "short samples from one generator, whitened with the model (residual of every "
    "transition and observation), must be uncorrelated standard normal: every mean, "
    "every covariance entry and the pooled fourth moment within 8 standard errors; in a third "
    "of the cases one sample of 70 to 300 steps instead, whose noise also must not "
    "correlate with itself at any lag nor repeat; singular noise must stay in its "
    "subspace; (c) initial_state used exactly; equal seeds, seed against RandomState, a "
    "RandomState continued over calls, precedence, global generator untouched, samples "
    "without a seed differ and come from numpy's generator, unusable seeds refused. "
    "Non-trivial: at least two time steps."
)
ASSUMPTIONS = [
    "the statistical part finds deviations above 8 standard errors of 300 samples only "
    "(a mean or correlation off by about 0.46 standard deviations, a variance off by about 2/3)",
]
BAD = ["seed", "0", {}, object, "obj", "random"]


@st.composite
def strategy_(draw, tier):
    name = draw(st.sampled_from(["KalmanFilter"] * 3 + gen.LINEAR[1:] + gen.UNSCENTED))
    T = draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.sampled_from([70, 150, 300])))
    c = dict(cls=name, T=T, seed=draw(st.integers(0, 2**32 - 1)), seed2=draw(st.integers(0, 10**6)), bad=draw(st.integers(0, len(BAD) - 1)))
    n = draw(st.integers(1, 3))
    m = draw(st.integers(1, 3))
    if name in gen.UNSCENTED:
        c["kind"] = "unscented"
        c["U"] = draw(gen.unscented_model(T, name == "UKF", False, n=n, m=m))
        for k in "QR":
            if draw(st.sampled_from([False] * 4 + [True])):  # singular
                V = np.array(c["U"][k])
                i = draw(st.integers(0, len(V) - 1))
                V[i] = V[:, i] = 0.0
                c["U"][k] = V
        for q in "fg":  # the noise has to be recoverable from the result
            if "k" in c["U"][q]:
                c["U"][q]["k"] = np.zeros_like(c["U"][q]["k"])
                B = c["U"][q]["B"]
                if np.linalg.cond(B).max() > 50:
                    c["U"][q]["B"] = np.broadcast_to(np.eye(B.shape[-1]), B.shape).copy()
    else:
        c["kind"] = "linear"
        kf = name == "KalmanFilter"
        c["M"] = draw(gen.linear_model(T, n, m, tv_cov=kf, exact_sensors=kf))
    if T > 4:  # keep long runs within bounds
        F, k = (c["M"], "A") if "M" in c else (c["U"]["f"], "A")
        F[k] = F[k] / np.maximum(np.linalg.norm(F[k], 2, axis=(-2, -1), keepdims=True) / 0.9, 1.0)
    rng = np.random.RandomState(draw(gen.seeds))
    c["initial"] = gen.vec(rng, n, draw(st.sampled_from(["rand", "int", "zero"])))
    c["initial_form"] = draw(st.sampled_from(["array", "list", "int"]))
    return c


def strategy(tier):
    return strategy_(tier)


def build(case, zero=False, **extra):
    if case["kind"] == "linear":
        M = {k: np.array(v) for k, v in case["M"].items()}
        if zero:
            for k in ("Q", "R", "P0"):
                M[k] = np.zeros_like(M[k])
        return gen.cls(case["cls"])(**gen.kw(M), **extra)
    U = dict(case["U"])
    if zero:
        for k in ("Q", "R", "P0"):
            U[k] = np.zeros_like(U[k])
    return gen.unscented(case["cls"], U, case["T"], **extra)


def trajectory(case, x0):
    """Noise-free recursion."""
    T = case["T"]
    xs, zs = [], []
    for t in range(T):
        x = x0 if t == 0 else advance(case, t - 1, x)
        xs.append(x)
        zs.append(emit(case, t, x))
    return np.array(xs), np.array(zs)


def advance(case, t, x):
    if case["kind"] == "linear":
        M = case["M"]
        return ref.at(M["A"], t, 2) @ x + ref.at(M["b"], t, 1)
    f = gen.func(case["U"]["f"], t)
    return f(x, np.zeros_like(x)) if case["cls"] == "UKF" else f(x)


def emit(case, t, x):
    if case["kind"] == "linear":
        M = case["M"]
        return ref.at(M["C"], t, 2) @ x + ref.at(M["d"], t, 1)
    g = gen.func(case["U"]["g"], t)
    return g(x, np.zeros(len(case["U"]["R"]))) if case["cls"] == "UKF" else g(x)


def noise(case, q, t, x, r):
    """Whitened noise behind residual r at state x."""
    if case["kind"] == "linear":
        cov = ref.at(case["M"]["Q" if q == "f" else "R"], t, 2)
    else:
        U = case["U"]
        cov = U["Q" if q == "f" else "R"]
        if case["cls"] == "UKF":
            F = U[q]
            i = t if F["tv"] else 0
            r = r / (1 + F["h"][i] * np.sin(F["W"][i] @ x))
            r = np.linalg.solve(F["B"][i], r)
    size = max(np.abs(x).max(), np.sqrt(np.abs(cov).max()))
    return whiten(cov, r, size, f"{'transition' if q == 'f' else 'observation'} noise of step {t}")


def whiten(cov, r, size, what):
    """Independent standard normal components behind r; none where cov is singular."""
    e, V = np.linalg.eigh(cov)
    y = V.T @ r
    null = e <= 1e-12 * e[-1]
    if null.any():
        off = np.abs(y[null]).max()
        if off > 1e-6 * np.sqrt(e[-1]) + 1e-8 * (size + np.abs(r).max()):
            raise Violation(f"{what}: {off:.3g} in a direction without noise")
    return y[~null] / np.sqrt(e[~null])


def check(case):
    T = case["T"]
    prm = case["M"] if case["kind"] == "linear" else case["U"]
    n, m = len(prm["m0"]), np.asarray(prm["R"]).shape[-1]
    for k in ("Q", "R", "P0"):
        for C in np.reshape(prm[k], (-1,) + np.shape(prm[k])[-2:]):
            e = np.linalg.eigvalsh(C)
            if ((e > 1e-12 * e[-1]) & (e < 1e-9 * e[-1])).any() or e[0] < -1e-12 * e[-1]:
                raise Skip
    # (a) no noise
    kf = sut("constructor", build, case, True)
    want = trajectory(case, np.array(prm["m0"], float))
    got = sut("sample", kf.sample, T, random_state=case["seed2"])
    shapes(got, T, n, m)
    for a, b, q in zip(got, want, ("states", "observations")):
        close(f"noise-free {q}", a, b, np.abs(want[0]).max() + np.abs(b).max() + 1e-300, 1e-9)
    x0 = np.array(case["initial"], float)
    arg = x0 if case["initial_form"] == "array" else x0.tolist()
    if case["initial_form"] == "int":
        x0 = np.round(x0) + 0.0
        arg = x0.astype(int)
    want = trajectory(case, x0)
    got = sut("sample", kf.sample, T, initial_state=arg, random_state=case["seed2"])
    for a, b, q in zip(got, want, ("states", "observations")):
        close(f"noise-free {q} from initial_state", a, b, np.abs(want[0]).max() + np.abs(b).max() + 1e-300, 1e-9)

    # (c) seeds
    kf = sut("constructor", build, case)
    got = sut("sample", kf.sample, T, initial_state=arg, random_state=case["seed2"])
    if not np.array_equal(got[0][0], x0):
        raise Violation(f"sample starts in {got[0][0]!r}, not in the given initial state {x0!r}")
    seeds(case, kf, T)

    # (b) distribution
    if T > 4:
        return long_run(case, kf, n, m)
    rng = np.random.RandomState(case["seed"])
    W, label = [], None
    for s in range(S):
        x, z = sut("sample", kf.sample, T, random_state=rng)
        w, names = innovations(case, x, np.asarray(z))
        if label is None:
            label = [l for l, a in zip(names, w) for _ in a]
        W.append(np.concatenate(w))
    W = np.array(W)
    normal(W, label)


def innovations(case, x, z):
    """The noise behind a sample: arrays of independent standard normals."""
    prm = case["M"] if case["kind"] == "linear" else case["U"]
    names, w = ["initial state"], []
    size = max(np.abs(prm["m0"]).max(), np.sqrt(np.abs(prm["P0"]).max()))
    w.append(whiten(np.asarray(prm["P0"]), x[0] - prm["m0"], size, "initial state"))
    for t in range(len(x)):
        if t:
            names.append(f"transition noise into step {t}")
            w.append(noise(case, "f", t - 1, x[t - 1], x[t] - advance(case, t - 1, x[t - 1])))
        names.append(f"observation noise of step {t}")
        w.append(noise(case, "g", t, x[t], z[t] - emit(case, t, x[t])))
    return w, names


def normal(W, label):
    if not np.all(np.isfinite(W)):
        raise Violation("samples are not finite")
    if not W.size:
        return
    S = len(W)
    mean = W.mean(0)
    j = np.abs(mean).argmax()
    if abs(mean[j]) > SIGMAS / np.sqrt(S):
        raise Violation(f"{label[j]}: mean of the whitened samples {mean[j]:.3f}, expected 0")
    V = W.T @ W / S
    E = np.abs(V - np.eye(len(V)))
    E[np.diag_indices(len(V))] /= np.sqrt(2)
    i, j = np.unravel_index(E.argmax(), E.shape)
    if E[i, j] > SIGMAS / np.sqrt(S):
        raise Violation(f"{label[i]} with {label[j]}: whitened covariance {V[i, j]:.3f}, expected {float(i == j)}")
    k = (W**4).mean()
    if abs(k - 3) > SIGMAS * np.sqrt(96.0 / W.size):
        raise Violation(f"fourth moment of the whitened noise {k:.2f}, expected 3")


def long_run(case, kf, n, m):
    """One long sample: the noise of all its steps is independent and normal."""
    T = case["T"]
    x, z = sut("sample", kf.sample, T, random_state=case["seed"])
    w, _ = innovations(case, x, np.asarray(z))
    prm = case["M"] if case["kind"] == "linear" else case["U"]
    w = w[1:]  # observation 0, transition into 1, observation 1, ...
    rows = [np.concatenate(w[max(2 * t - 1, 0) : 2 * t + 1]) for t in range(1, T)]
    flat = np.concatenate(rows)
    if not np.all(np.isfinite(flat)):
        raise Violation("samples are not finite")
    normal(flat[:, None], ["noise of a long sample"])
    if len({len(r) for r in rows}) > 1 or len(rows[0]) < 2:
        return
    R = np.array(rows)
    normal(R, [f"component {i} of the noise of a long sample" for i in range(R.shape[1])])
    # no stretch of the noise comes again, and no lag correlates
    for lag in range(1, len(R) - 50):
        c = (R[lag:] * R[:-lag]).mean()
        if abs(c) > SIGMAS / np.sqrt(R[lag:].size):
            raise Violation(f"noise of a long sample is correlated with itself {lag} steps later: {c:.3f}")
    if max_round(prm, x, z) > 1e-9:
        return
    order = np.argsort(R[:, 0])
    gap = np.abs(np.diff(R[order], axis=0)).max(axis=1)
    j = gap.argmin()
    if gap[j] < 1e-7:
        a, b = sorted(order[j : j + 2] + 1)
        raise Violation(f"steps {a} and {b} of a long sample have the same noise")


def max_round(prm, x, z):
    """Size of rounding errors in the whitened noise."""
    out = 0.0
    for k, v in (("Q", x), ("R", z)):
        e = np.linalg.eigvalsh(np.reshape(prm[k], (-1,) + np.shape(prm[k])[-2:]))
        e = e[e > 1e-12 * e[..., -1:]]
        if e.size:
            out = max(out, 1e-14 * (1 + np.abs(x).max() + np.abs(np.asarray(v)).max()) / np.sqrt(e.min()))
    return out


def shapes(got, T, n, m):
    if not isinstance(got, tuple) or len(got) != 2:
        raise Violation("sample did not return a pair")
    if np.shape(got[0]) != (T, n) or np.shape(got[1]) != (T, m):
        raise Violation(f"sample returned shapes {np.shape(got[0])} and {np.shape(got[1])}, expected {(T, n)} and {(T, m)}")
    if np.ma.getmaskarray(got[1]).any():
        raise Violation("sampled observations are masked")


def equal(a, b):
    return np.array_equal(a[0], b[0]) and np.array_equal(np.asarray(a[1]), np.asarray(b[1]))


def noisy(case):
    """Some noise every sample shows."""
    prm = case["M"] if case["kind"] == "linear" else case["U"]
    return bool(np.any(prm["P0"]) or np.any(np.reshape(prm["R"], (-1,) + np.shape(prm["R"])[-2:])[0]))


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes()) + tuple(s[2:])


def seeds(case, kf, T):
    s = case["seed"]
    saved = np.random.get_state()
    try:
        np.random.seed(case["seed2"])
        before = state()
        a = sut("sample", kf.sample, T, random_state=s)
        b = sut("sample", kf.sample, T, random_state=s)
        if not equal(a, b):
            raise Violation("the same seed gives another sample")
        c = sut("sample", kf.sample, T, random_state=np.random.RandomState(s))
        if not equal(a, c):
            raise Violation("a RandomState gives another sample than its seed")
        d = sut("sample", kf.sample, T, random_state=np.int64(s))
        if not equal(a, d):
            raise Violation("a numpy integer seed gives another sample than the same int")
        other = sut("constructor", build, case, random_state=s)
        if not equal(a, sut("sample", other.sample, T)):
            raise Violation("the object's random_state gives another sample than the argument")
        if not equal(a, sut("sample", other.sample, T)):
            raise Violation("sampling twice with the object's integer random_state differs")
        third = sut("constructor", build, case, random_state=(s + 1) % 2**32)
        if not equal(a, sut("sample", third.sample, T, random_state=s)):
            raise Violation("the random_state argument does not take precedence over the object's")
        if s != 0:
            z = sut("constructor", build, case, random_state=s)
            if not equal(sut("sample", kf.sample, T, random_state=0), sut("sample", z.sample, T, random_state=0)):
                raise Violation("random_state=0 does not take precedence over the object's")
        for rs in (np.random.RandomState(s), np.random.RandomState(s)):
            g = np.random.RandomState(s)
            own = sut("constructor", build, case, random_state=rs)
            for i in (1, 2):
                if not equal(sut("sample", own.sample, T), sut("sample", kf.sample, T, random_state=g)):
                    raise Violation(f"sample {i} from the object's RandomState is not what this generator gives")
        if state() != before:
            raise Violation("sampling with a seed changed numpy's global generator")
        if noisy(case) and equal(a, sut("sample", kf.sample, T, random_state=(s + 1) % 2**32)):
            raise Violation("different seeds give the same sample")
        # without a seed: numpy's generator
        free = [sut("sample", kf.sample, T) for _ in range(2)] + [sut("sample", build(case).sample, T)]
        if noisy(case) and (equal(free[0], free[1]) or equal(free[0], free[2]) or equal(free[1], free[2])):
            raise Violation("samples without a seed are the same")
        np.random.seed(case["seed2"])
        if not equal(free[0], sut("sample", kf.sample, T)):
            raise Violation("a sample without a seed does not come from numpy's seeded generator")
        bad = BAD[case["bad"]]
        bad = object() if bad == "obj" else bad
        for what, fn in (
            ("random_state argument", lambda: kf.sample(T, random_state=bad)),
            ("random_state of the object", lambda: build(case, random_state=bad).sample(T)),
        ):
            try:
                fn()
            except ValueError:
                continue
            except Exception as e:  # noqa: BLE001
                raise Violation(f"{what} {bad!r}: raised {type(e).__name__} instead of ValueError") from e
            raise Violation(f"{what} {bad!r} was not refused")
    finally:
        np.random.set_state(saved)


def nontrivial(case):
    return case["T"] > 1


def classes(case):
    out = [case["cls"], f"T={case['T']}" if case["T"] < 5 else "long sample"]
    if case["kind"] == "linear":
        out += [f"per-step {k}" for k in gen.tv_keys(case["M"])]
    else:
        out += [f"per-step {q}" for q in "fg" if case["U"][q]["tv"]]
    return out


def simplify(case):
    if case["T"] > 1:
        yield dict(case, T=case["T"] - 1)
    if case["kind"] == "linear":
        yield from gen.simplify_linear(case)
    else:
        yield from gen.simplify_unscented(case)
