"""C13: defaults of omitted parameters; inconsistent shapes are refused."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Skip, Violation, close, sut
from . import c01, c04, c07, c09

N = {"quick": 1080, "thorough": 10000}
RULE = (
    "Hypothesis draws one of the six classes, dimensions, the subset of parameters given "
    "(arrays, nested lists, per-step arrays), whether n_dim_state / n_dim_obs are given, "
    "and in a third of the cases one given parameter or n_dim_* whose size contradicts "
    "another; in others observations of another width, or per-step parameters (functions) "
    "for fewer steps than there are, which every call has to refuse. Contradictions must raise ValueError in the constructor; all others must "
    "construct, and filter, smooth, loglikelihood, sample, filter_update and em must equal "
    "those of an object with every parameter explicit (reference defaults written out in "
    "the check). Non-trivial: a contradiction or misfit, or at least two parameters omitted."
)
ASSUMPTIONS = c01.ASSUMPTIONS + c09.ASSUMPTIONS + [
    "each given matrix is well-formed by itself (square where it has to be)",
    "the observation function of an unscented filter is omitted only if both dimensions agree",
]
STATE = dict(A=(-2, -1), b=(-1,), Q=(-2, -1), m0=(-1,), P0=(-2, -1), C=(-1,))
OBS = dict(C=(-2,), d=(-1,), R=(-2, -1))


@st.composite
def strategy_(draw, tier):
    unscented = draw(st.sampled_from([False, False, True]))
    T = draw(st.integers(1, 6))
    n, m = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    bad = draw(st.sampled_from([False, False, True]))
    n2 = draw(st.integers(1, 5).filter(lambda k: k != n))
    m2 = draw(st.integers(1, 5).filter(lambda k: k != m))
    rng = np.random.RandomState(draw(gen.seeds))
    if unscented:
        name = draw(st.sampled_from(gen.UNSCENTED))
        keys_n, keys_m = ["Q", "m0", "P0"], ["R"]
        P = draw(gen.unscented_model(T, name == "UKF", False, n=n, m=m, scaled=False))
        other = draw(gen.unscented_model(T, name == "UKF", True, n=n2, m=m2, scaled=False))
    else:
        name = draw(st.sampled_from(gen.LINEAR))
        keys_n, keys_m = ["A", "b", "Q", "m0", "P0", "C"], ["C", "d", "R"]
        kf = name == "KalmanFilter"
        P = draw(gen.linear_model(T, n, m, psd=False, tv_cov=kf, scaled=False))
        other = draw(gen.linear_model(T, n2, m2, psd=False, tv_cov=kf, scaled=False))
    keys = list(dict.fromkeys(keys_n + keys_m))
    style = draw(st.sampled_from(["random"] * 4 + ["few"] * 2 + ["none", "all"]))
    p = dict(random=0.5, few=0.2, none=0.0, all=1.0)[style]
    given_ = [k for k in keys if draw(st.booleans()) and rng.rand() < 2 * p or p == 1.0]
    c = dict(cls=name, kind="unscented" if unscented else "linear", T=T, seed=draw(st.integers(0, 10**6)))
    c["n_dim_state"] = n if draw(st.booleans()) else None
    c["n_dim_obs"] = m if draw(st.booleans()) else None
    G = {k: P[k] for k in given_}
    bads = []
    if bad:
        space = draw(st.sampled_from(["state", "obs"]))
        if draw(st.booleans()):  # two that certainly meet
            pair = draw(st.permutations(keys_n if space == "state" else keys_m + keys_m))[:2]
            G.update({k: P[k] for k in pair})
            if len(set(pair)) < 2:
                c["n_dim_obs"] = m
            given_ = list(G)
        ks = [k for k in given_ if k in (keys_n if space == "state" else keys_m)]
        dim = "n_dim_state" if space == "state" else "n_dim_obs"
        cand = [k for k in ks] + ([dim] if c[dim] is not None else [])
        if len(cand) >= 2:
            k = draw(st.sampled_from(cand))
            bads = [k]
            if k == dim:
                c[dim] = n2 if space == "state" else m2
            elif k == "C":
                C = rng.randn(m, n2) if space == "state" else rng.randn(m2, n)
                G[k] = np.array([C] * T) if draw(st.booleans()) else C
            else:
                G[k] = other[k]
    c["given"], c["bad"] = G, bads
    c["dims"] = [n, m]
    if unscented:
        c["functions"] = {q: P[q] for q in "fg"}
        c["omit"] = draw(st.sampled_from(["", "f", "g", "fg"]))
    c["form"] = draw(st.sampled_from(["array", "list"]))
    c["em"] = draw(st.sampled_from(["default", "all", "no"]))
    c["Zseed"] = draw(gen.seeds)
    c["mask"] = draw(st.booleans())
    c["misfit"] = None
    if not bads and draw(st.sampled_from([False, False, False, True, True])):
        if draw(st.booleans()):
            c["misfit"] = ["width", draw(st.sampled_from([1, 1, 1, 2, 3, 4, 5, m + 1, max(m - 1, 1)])), draw(st.integers(1, 4))]
        else:
            c["misfit"] = ["short", draw(st.sampled_from(["f", "g"] if unscented else ["A", "b", "C", "d"] + ["Q", "R"] * kf)), draw(st.integers(1, 6))]
    return c


def strategy(tier):
    return strategy_(tier)


def expected(case):
    """(n, m) implied by what is given, or None if contradictory."""
    out = []
    for spec, dim in ((STATE, "n_dim_state"), (OBS, "n_dim_obs")):
        found = set()
        for k, axes in spec.items():
            if k in case["given"]:
                found |= {np.shape(case["given"][k])[a] for a in axes}
        if case[dim] is not None:
            found.add(case[dim])
        if len(found) > 1:
            return None
        out.append(found.pop() if found else 1)
    return out


def construct(case, G, **extra):
    if case["form"] == "list" and extra.pop("listed", False):
        G = {k: np.asarray(v).tolist() for k, v in G.items()}
    extra.pop("listed", None)
    return gen.cls(case["cls"])(**gen.kw(G), **extra)


def check(case):
    dims = {k: case[k] for k in ("n_dim_state", "n_dim_obs") if case[k] is not None}
    fns = {}
    implied = expected(case)
    T = case["T"]
    n, m = implied if implied else case["dims"]
    if case["kind"] == "unscented":
        omit = case["omit"]
        if implied and n != m:
            omit = omit.replace("g", "")
        F = dict(case["functions"])
        if implied and [n, m] != case["dims"]:  # dimensions nobody mentioned are one
            F = dict(f=F["f"], g=F["g"])
            F = small(F, n, m, case["dims"], case["cls"] == "UKF")
        fns = {
            name: gen.functions(F[q], T)
            for q, name in (("f", "transition_functions"), ("g", "observation_functions"))
            if q not in omit
        }
    if implied is None:
        try:
            construct(case, case["given"], listed=True, **dims, **fns)
        except ValueError:
            return
        except Exception as e:  # noqa: BLE001
            raise Violation(f"inconsistent sizes raised {type(e).__name__} instead of ValueError") from e
        raise Violation("inconsistent sizes of parameters were accepted")
    got = sut("constructor", construct, case, case["given"], listed=True, **dims, **fns)
    if case["kind"] == "unscented":
        full = dict(Q=np.eye(n), R=np.eye(m), m0=np.zeros(n), P0=np.eye(n))
        full.update(case["given"])
        F = {q: F[q] if q not in omit else identity(n, case["cls"] == "UKF") for q in "fg"}
        U = dict(full, **F)
        want = gen.unscented(case["cls"], U, T)
        rng = np.random.RandomState(case["Zseed"])
        Z = gen.unscented_observations(U, T, rng, "model")
        K = mask(case, T, m, rng)
        fm, fc, _, _, worst = c09.reference("aug" if case["cls"] == "UKF" else "add", dict(case, U=U, Z=Z, K=K))
        sx, sc = c09.scales(U, fm, fc)
        r, rs = 1e-9 + 1e-12 * worst, 1e-8 + 1e-11 * worst
        J = None
    else:
        full = dict(
            A=np.eye(n), b=np.zeros(n), C=np.eye(m, n), d=np.zeros(m), Q=np.eye(n), R=np.eye(m),
            m0=np.zeros(n), P0=np.eye(n),
        )
        full.update(case["given"])
        want = gen.cls(case["cls"])(**gen.kw({k: np.array(v, float) for k, v in full.items()}))
        rng = np.random.RandomState(case["Zseed"])
        Z = 3 * rng.randn(T, m)
        K = mask(case, T, m, rng)
        J = c01.reference(dict(M=full, Z=Z, K=K), full=True)
        if case["cls"] != "KalmanFilter":
            c07.pd_domain(J)
        r = c01.tolerance(J)
        sx, sc = J.mean_scale(), J.cov_scale()
        try:
            rs = c01.smooth_tolerance(J, full)
        except Skip:
            rs = None
    X = gen.masked(Z, K)
    for what, tol in (("filter", r), ("smooth", rs)):
        if tol is None:
            continue
        try:
            b = getattr(want, what)(X)
        except Exception:  # noqa: BLE001
            raise Skip from None
        a = sut(what, getattr(got, what), X)
        close(f"{what}: means", a[0], b[0], sx, tol)
        close(f"{what}: covariances", a[1], b[1], sc, tol)
        if what == "filter":
            filt = b
    if case.get("misfit"):
        return misfit(case, full if J is not None else U, n, m, rng)
    b = want.sample(T, random_state=case["seed"])
    a = sut("sample", got.sample, T, random_state=case["seed"])
    for x, y, q in zip(a, b, ("states", "observations")):
        y = np.asarray(y)
        if np.all(np.isfinite(y)):
            close(f"sample: {q}", x, y, np.abs(y).max() + 1.0, 1e-9)
    varying = J is not None and bool(gen.tv_keys(full)) or J is None and (U["f"]["tv"] or U["g"]["tv"])
    if T > 1 and not varying:
        try:
            b = want.filter_update(filt[0][0].copy(), filt[1][0].copy(), X[1])
        except Exception:  # noqa: BLE001
            raise Skip from None
        a = sut("filter_update", got.filter_update, filt[0][0].copy(), filt[1][0].copy(), X[1])
        close("filter_update: mean", a[0], b[0], sx, r)
        close("filter_update: covariance", a[1], b[1], sc, r)
    if J is None:
        return
    a, b = sut("loglikelihood", got.loglikelihood, X), want.loglikelihood(X)
    close("loglikelihood", a, b, np.abs(J.ll).sum() + T, 10 * r)
    if case["em"] == "no" or rs is None:
        return
    keys = c04.em_keys(case)
    miss = K.any(axis=1)
    if (miss.all() and keys & {"C", "R", "d"}) or T == 1:
        return
    cur = {k: np.array(v, float) for k, v in full.items()}
    step = ref.m_step(cur, J, Z, miss, keys)
    if step is None or ref.MSTEP_COND[0] > 1e7:
        return
    tol = 10 * rs * ref.MSTEP_COND[0] ** 0.5 + 1e-11 * ref.MSTEP_COND[0]
    arg = None if case["em"] == "default" else "all"
    try:
        want.em(X, n_iter=1, em_vars=arg)
    except Exception:  # noqa: BLE001
        return
    sut("em", got.em, X, n_iter=1, em_vars=arg)
    x, y = c04.params(got), c04.params(want)
    sA, sC = c04.size(y["A"], cur["A"]), c04.size(y["C"], cur["C"])
    zs = max(J.zscale, 1e-300) + sC * sx + c04.size(y["d"], cur["d"])
    xs = sx * (1 + sA) + c04.size(y["b"], cur["b"])
    scale = dict(A=sA + xs / sx, C=zs / sx + sC, b=xs, d=zs, Q=xs**2, R=zs**2, m0=sx, P0=sx**2)
    for k in c04.KEYS:
        close(f"em: {gen.NAME[k]}", x[k], y[k], scale[k], tol)


def misfit(case, P, n, m, rng):
    """Data or per-step values that do not fit are refused by every call."""
    what, k, size = case["misfit"]
    lin = case["kind"] == "linear"
    T = case["T"]
    P = dict(P)
    if what == "width":
        if k == m:
            raise Skip
        # (a single row would be a flat sequence of observations)
        T = max(T, 2)
        Z = rng.randn(T, k)
        P = stretched(P, T, lin)
        calls = ["filter", "smooth", "update"] + ["loglikelihood", "em"] * lin
    else:
        need = T - 1 if k in "AbQf" else T
        P = stretched(P, T, lin)
        if lin:
            a = np.asarray(P[k], float)
            a = a[0] if k in gen.tv_keys(P) else a
            L = 1 + size % max(need - 1, 1)
            P[k] = np.array([a] * L)
        else:
            G = P[k]
            L = 2 + size % max(need - 2, 1)
            P[k] = {q: v if q == "tv" else np.array([np.asarray(v)[0]] * L) for q, v in dict(G, tv=True).items()}
        if L >= need:
            raise Skip
        Z = rng.randn(T, m)
        calls = ["filter", "smooth", "sample"] + ["loglikelihood", "em"] * lin
    for call in calls:
        if lin:
            kf = gen.cls(case["cls"])(**gen.kw(P))
        else:
            fn = lambda G, steps: [gen.Fn(G, t) for t in range(steps)] if G["tv"] else gen.Fn(G, 0)  # noqa: E731
            kf = gen.cls(case["cls"])(
                transition_functions=fn(P["f"], len(P["f"]["b"])), observation_functions=fn(P["g"], len(P["g"]["b"])),
                **gen.kw({q: P[q] for q in ("Q", "R", "m0", "P0")}),
            )
        try:
            if call == "sample":
                out = kf.sample(T, random_state=0)
            elif call == "em":
                out = kf.em(Z, n_iter=1)
            elif call == "update":
                over = {}
                if lin:
                    step = {q: np.asarray(P[q], float)[0] for q in gen.tv_keys(P)}
                    over = {dict(A="transition_matrix", C="observation_matrix", b="transition_offset", d="observation_offset").get(q, gen.NAME[q]): v for q, v in step.items()}
                else:
                    over = dict(transition_function=gen.Fn(P["f"], 0), observation_function=gen.Fn(P["g"], 0))
                out = kf.filter_update(np.zeros(n), np.eye(n), Z[0], **over)
            else:
                out = getattr(kf, call)(Z)
        except Exception:  # noqa: BLE001
            continue
        if what == "width":
            raise Violation(f"{call} accepted observations of {k} components where the model has {m}")
        raise Violation(f"{call} accepted {L} values of {k} per time step where {need} are needed")


def stretched(P, T, lin):
    """Per-step parameters given for (at least) T steps."""
    out = dict(P)
    for k in gen.tv_keys(P) if lin else ():
        a = np.asarray(P[k], float)
        out[k] = np.array([a[min(t, len(a) - 1)] for t in range(T)]) if len(a) else a
    for k in () if lin else "fg":
        G = P[k]
        if G["tv"]:
            out[k] = {q: v if q == "tv" else np.array([np.asarray(v)[min(t, len(v) - 1)] for t in range(T)]) for q, v in G.items()}
    return out


def mask(case, T, m, rng):
    K = np.zeros((T, m), bool)
    if case["mask"]:
        K[rng.rand(T) < 0.3] = True
    return K


def identity(n, noise):
    E = np.eye(n)[None]
    F = dict(tv=False, A=E, b=np.zeros((1, n)), g=np.zeros((1, n)), W=np.zeros((1, n, n)), p=np.zeros((1, n)))
    if noise:
        F.update(B=E, h=np.zeros((1, n)), k=np.zeros((1, n)))
    return F


def small(F, n, m, dims, noise):
    """Function specs cut down to dimensions (n, m)."""
    out = {}
    for q, k in (("f", n), ("g", m)):
        G = F[q]
        H = dict(tv=G["tv"])
        for key, v in G.items():
            if key == "tv":
                continue
            v = np.asarray(v)
            if key in ("A", "W"):
                v = v[:, :k, :n]
            elif key == "B":
                v = v[:, :k, :k]
            else:
                v = v[:, :k]
            H[key] = v
        out[q] = H
    return out


def nontrivial(case):
    total = 4 if case["kind"] == "unscented" else 8
    return bool(case["bad"]) or bool(case.get("misfit")) or total - len(case["given"]) >= 2


def classes(case):
    out = [case["cls"], f"{len(case['given'])} parameters given"]
    out += [f"contradictory {k}" for k in case["bad"]]
    if case.get("misfit"):
        out.append("observations of another width" if case["misfit"][0] == "width" else "too few per-step values")
    if expected(case) is not None:
        out.append("consistent")
    out += [f"{k} given" for k in ("n_dim_state", "n_dim_obs") if case[k] is not None]
    return out


def simplify(case):
    for k in list(case["given"]):
        yield dict(case, given={q: v for q, v in case["given"].items() if q != k})
    for k in ("n_dim_state", "n_dim_obs"):
        if case[k] is not None:
            yield dict(case, **{k: None})
    if case["T"] > 1:
        yield dict(case, T=1)
    if case.get("misfit"):
        yield dict(case, misfit=None)
    if case["form"] == "list":
        yield dict(case, form="array")
