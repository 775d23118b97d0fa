"""C14: histories of calls, assignments and copies against fresh objects."""
import copy
import pickle
import sys
import threading

import numpy as np
from hypothesis import strategies as st

from .. import core, gen, ref
from ..core import Skip, Violation, close
from . import c01, c04, c07, c09

N = {"quick": 840, "thorough": 10000}
RULE = (
    "Hypothesis draws one of the six classes, a model, two data sets and a history of up "
    "to 12 operations on up to four objects, half of them in triples (a call, something that "
    "may leave a trace, the same call again): filter, smooth, loglikelihood, filter_update, "
    "sample, em (any em_vars as list, tuple or set, 0 to 2 iterations), assignment of parameters (also None, "
    "em_vars and random_state; also to the current values in another order, with another sign or changed by 3e-6), changing a parameter or a data array in place, copy, "
    "deepcopy, pickle, construction of another object around the same arrays, and calls of one object "
    "from four threads at once (thread switches every 10 microseconds). Model: "
    "a table of current parameter values; every call is repeated on a new object with "
    "those values (every other time with omitted ones given explicitly; right away, or for all calls after the history) and must agree; after every operation all parameters of all objects, all "
    "arrays ever passed in and all arrays ever returned are compared with their snapshots, "
    "and numpy's global random generator has to be in the state it was in. "
    "Non-trivial: at least two calls whose results were compared, and something that could "
    "leave a trace (em, assignment, in-place change, or copy) in between."
)
ASSUMPTIONS = c01.ASSUMPTIONS + c09.ASSUMPTIONS + [
    "a call that fails on the new object is not compared",
    "results are compared to 1e-7 of their size for models within the domain of C01/C09",
]
CALLS = ["filter", "filter", "smooth", "smooth", "loglikelihood", "update", "sample", "em", "em"]
THREADS = ["threads"]
OTHER = ["assign", "assign", "inplace", "data", "copy", "deepcopy", "pickle", "share"]
LIN = c04.KEYS
UNS = ["Q", "R", "m0", "P0", "f", "g"]
ATTR = dict(gen.NAME, f="transition_functions", g="observation_functions", em_vars="em_vars", random_state="random_state")


@st.composite
def strategy_(draw, tier):
    unscented = draw(st.sampled_from([False, False, False, True]))
    T = draw(st.integers(2, 5))
    n, m = draw(st.integers(1, 3)), draw(st.integers(1, 2))
    if unscented:
        name = draw(st.sampled_from(gen.UNSCENTED))
        models = [draw(gen.unscented_model(T, name == "UKF", False, n=n, m=m, scaled=False)) for _ in range(2)]
    else:
        name = draw(st.sampled_from(["KalmanFilter"] + gen.LINEAR))
        models = [
            draw(gen.linear_model(T, n, m, psd=False, tv=i == 0, tv_cov=name == "KalmanFilter", scaled=False, trans_modes=["rand", "eye", "cv", "rot"]))
            for i in range(2)
        ]
    rng = np.random.RandomState(draw(gen.seeds))
    data = []
    for _ in range(2):
        t = draw(st.integers(2, T))
        Z = np.round(2 * rng.randn(t, m), 3)
        K = draw(gen.mask(t, m, ["none", "random", "one", "partial"]))
        data.append(dict(Z=Z, K=K, masked=draw(st.booleans())))
    keys = UNS if unscented else LIN + ["em_vars", "random_state"]
    given_ = [k for k in (UNS if unscented else LIN) if draw(st.sampled_from([True, True, False]))]
    if unscented:
        given_ = sorted(set(given_) | {"f", "g"})
    op = st.fixed_dictionaries(
        dict(
            op=st.one_of(st.sampled_from(CALLS), st.sampled_from(CALLS + THREADS), st.sampled_from(OTHER)),
            obj=st.integers(0, 3),
            data=st.integers(0, 1),
            key=st.sampled_from(keys),
            vars=st.one_of(st.none(), st.just("all"), st.lists(st.sampled_from(LIN), unique=True, max_size=4)),
            k=st.integers(0, 7),
        )
    )
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        # a call, something that may leave a trace, the same call again
        a, b = draw(op), draw(op)
        if draw(st.booleans()):
            a = dict(a, op=draw(st.sampled_from(CALLS + ["update", "update"])))
            c = dict(a)
            b = dict(b, op=draw(st.sampled_from(OTHER + ["inplace", "inplace", "inplace", "em"])), obj=a["obj"], data=a["data"])
            if b["op"] == "inplace" and given_:
                b["key"] = draw(st.sampled_from(given_))
        else:
            c = draw(op)
        ops += [a, b, c]
    return dict(
        cls=name, kind="unscented" if unscented else "linear", models=models, data=data, given=given_,
        ops=ops, dims=[n, m], late=draw(st.booleans()),
        lists=[k for k in given_ if k not in "fg" and draw(st.sampled_from([False, False, True]))],
    )


def strategy(tier):
    return strategy_(tier)


def value(case, i, k):
    """Parameter k of model i in the form it is passed in."""
    v = case["models"][i][k]
    if k in "fg":
        if not v["tv"]:
            return gen.Fn(v, 0)
        return [gen.Fn(v, t) for t in range(len(v["b"]))]
    return np.array(v, float)


class World:
    def __init__(self, case):
        self.case = case
        self.lin = case["kind"] == "linear"
        self.keys = LIN if self.lin else UNS
        self.watch = []  # [array, snapshot of data, snapshot of mask, what]
        self.objs, self.params = [], []
        self.data = []
        self.compared = 0
        self.pending = []
        for d in case["data"]:
            X = np.ma.array(np.array(d["Z"], float), mask=np.array(d["K"])) if d["K"].any() or d["masked"] else np.array(d["Z"], float)
            self.data.append(X)
            self.see(X, "an observation array")
        kw = {}
        for k in case["given"]:
            kw[k] = value(case, 0, k)
            if k in case.get("lists", ()):
                kw[k] = kw[k].tolist()
            self.see(kw[k], f"the array passed as {ATTR[k]}")
        self.add(kw, None, 3)

    def extra(self, em_vars, rs):
        n, m = self.case["dims"]
        e = dict(n_dim_state=n, n_dim_obs=m, random_state=rs)
        if self.lin:
            e["em_vars"] = em_vars
        return e

    def make(self, P):
        kw = {ATTR[k]: P[k] for k in self.keys if P.get(k) is not None}
        return gen.cls(self.case["cls"])(**kw, **self.extra(P.get("em_vars"), P["random_state"]))

    def add(self, kw, em_vars, rs):
        P = {k: kw.get(k) for k in self.keys}
        P.update(em_vars=em_vars, random_state=rs)
        self.append(self.make(P))

    def append(self, obj):
        self.objs.append(obj)
        self.params.append(self.read(obj))

    def read(self, obj):
        P = {k: clone(getattr(obj, ATTR[k])) for k in self.keys}
        P["random_state"] = obj.random_state
        if self.lin:
            P["em_vars"] = copy.copy(obj.em_vars)
        return P

    def see(self, a, what):
        if isinstance(a, np.ndarray):
            self.watch.append([a, np.array(np.ma.getdata(a)), np.array(np.ma.getmaskarray(a)) if isinstance(a, np.ma.MaskedArray) else None, what])

    def refresh(self, a):
        """The harness changed a in place."""
        base = np.ma.getdata(a)
        for w in self.watch:
            if np.shares_memory(np.ma.getdata(w[0]), base):
                w[1] = np.array(np.ma.getdata(w[0]))
            if w[0] is a and w[2] is not None:
                w[2] = np.array(np.ma.getmaskarray(a))
        for o, P in zip(self.objs, self.params):
            for k in self.keys:
                v = getattr(o, ATTR[k])
                if isinstance(v, np.ndarray) and v.dtype != object and np.shares_memory(v, base):
                    P[k] = clone(v)

    def audit(self, doing):
        for a, s, k, what in self.watch:
            if not np.array_equal(np.ma.getdata(a), s, equal_nan=True) or (k is not None and not np.array_equal(np.ma.getmaskarray(a), k)):
                raise Violation(f"{doing} changed {what}")
        for i, (o, P) in enumerate(zip(self.objs, self.params)):
            now = self.read(o)
            for k in P:
                if not alike(P[k], now[k]):
                    raise Violation(f"{doing} changed {ATTR[k]} of object {i}")

    # ------------------------------------------------------------ calls

    def domain(self, P, X, call):
        """(comparable, scales) for these parameters."""
        n, m = self.case["dims"]
        Z = np.ma.getdata(X)
        K = np.ma.getmaskarray(X)
        M = full(P, n, m, self.case["cls"])
        try:
            if self.lin:
                J = c01.reference(dict(M=M, Z=Z, K=K), full=True)
                if self.case["cls"] != "KalmanFilter":
                    c07.pd_domain(J, 1e-8)
                if call in ("smooth", "em"):
                    c01.smooth_tolerance(J, M, 1e3)
                if call == "em":
                    return J, M
            else:
                if not all(isinstance(P[k], np.ndarray) or P[k] is None for k in ("Q", "R", "m0", "P0")):
                    return False
                U = dict(M)
                c09.reference("aug" if self.case["cls"] == "UKF" else "add", dict(U=U, Z=Z, K=K))
        except (Skip, ref.NotPD, np.linalg.LinAlgError, ValueError, IndexError):
            return False
        return True

    def call(self, op):
        i = op["obj"] % len(self.objs)
        obj, P = self.objs[i], self.params[i]
        X = self.data[op["data"]]
        what = op["op"]
        if what == "loglikelihood" and not self.lin or what == "em" and not self.lin:
            what = "filter"
        n, m = self.case["dims"]
        Pf = {k: clone(v) for k, v in P.items()}
        if op["k"] % 2:  # defaults are another object's business, too
            Pf.update({k: v for k, v in full(P, n, m).items() if Pf[k] is None})
        fresh = self.make(Pf)
        if what in ("filter", "smooth", "loglikelihood"):
            run = lambda o, x: getattr(o, what)(x)  # noqa: E731
        elif what == "update":
            seed = np.random.RandomState(op["k"])
            mean, cov = seed.randn(n), gen.covm(seed, n, "full")
            self.see(mean, "the mean passed to filter_update")
            self.see(cov, "the covariance passed to filter_update")
            kw = {}
            if self.lin:
                for k, arg in (("A", "transition_matrix"), ("b", "transition_offset"), ("C", "observation_matrix"), ("d", "observation_offset"), ("Q", "transition_covariance"), ("R", "observation_covariance")):
                    if P[k] is not None and np.ndim(P[k]) > gen.ND[k] or op["k"] == 3:
                        v = np.array(full(P, n, m)[k], float)
                        kw[arg] = v[-1] if v.ndim > gen.ND[k] else v
                        self.see(kw[arg], f"the {arg} passed to filter_update")
            else:
                for k, arg in (("f", "transition_function"), ("g", "observation_function")):
                    if isinstance(P[k], list) and len(P[k]) > 1:
                        kw[arg] = P[k][0]
            obs = None if op["k"] == 0 else X[op["k"] % len(X)]
            run = lambda o, x: o.filter_update(mean, cov, None if obs is None else x[op["k"] % len(X)], **kw)  # noqa: E731
        elif what == "sample":
            kw = dict(n_timesteps=1 + op["k"] % min(len(x) for x in self.data))
            if op["k"] % 2:
                kw["random_state"] = op["k"]
            if op["k"] in (2, 3):
                kw["initial_state"] = np.arange(n, dtype=float)
                self.see(kw["initial_state"], "the initial_state passed to sample")
            run = lambda o, x: o.sample(**kw)  # noqa: E731
        else:
            return self.em(op, i, X, fresh)
        X2, P2 = clone(X), {k: clone(v) for k, v in P.items()}
        doing = f"{what} of object {i}"
        try:
            got, error = run(obj, X), None
        except Exception as e:  # noqa: BLE001
            got, error = None, e
        self.audit(doing)
        a = got if isinstance(got, tuple) else (got,)
        for x in a:
            self.see(x, f"an array returned by {what}")
        kept = [np.array(x, float) for x in a] if error is None else []
        self.later(lambda: self.compare(run, fresh, X2, P2, what, doing, kept, error))

    def later(self, comparison):
        """Calls of the new objects come in between, or all at the end, where
        they cannot disturb anything the object may have kept."""
        if self.case.get("late"):
            self.pending.append(comparison)
        else:
            comparison()

    def compare(self, run, fresh, X, P, what, doing, a, error):
        try:
            want = run(fresh, X)
        except Exception:  # noqa: BLE001
            return
        if what != "sample" and not self.domain(P, X, what):
            return
        if error is not None:
            raise Violation(f"{doing} raised {type(error).__name__}: {error} where a new object does not") from error
        b = want if isinstance(want, tuple) else (want,)
        self.compared += 1
        for j, (x, y) in enumerate(zip(a, b)):
            x, y = np.asarray(x, float), np.asarray(y, float)
            if not np.all(np.isfinite(y)):
                continue
            close(f"{doing} and of a new object, result {j}", x, y, np.abs(y).max(initial=0.0) + 1e-6, 1e-7)

    def threads(self, op):
        """Calls on one object from several threads at once."""
        i = op["obj"] % len(self.objs)
        obj, P = self.objs[i], self.params[i]
        whats = ["filter", "smooth", "loglikelihood"] if self.lin else ["filter", "smooth"]
        jobs = [(whats[(op["k"] + j) % len(whats)], self.data[j % 2]) for j in range(4)]
        if not all(self.domain(P, X, what) for what, X in jobs):
            return
        try:
            want = [getattr(self.make({k: clone(v) for k, v in P.items()}), what)(X) for what, X in jobs]
        except Exception:  # noqa: BLE001
            return
        got = [None] * len(jobs)
        start = threading.Barrier(len(jobs))

        def work(j):
            what, X = jobs[j]
            try:
                start.wait(30)
                for _ in range(3):
                    got[j] = getattr(obj, what)(X)
                    if not same(got[j], want[j]):
                        return
            except Exception as e:  # noqa: BLE001
                got[j] = e

        every = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            ts = [threading.Thread(target=work, args=(j,)) for j in range(len(jobs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(every)
        self.audit(f"concurrent calls of object {i}")
        for (what, _), g, w in zip(jobs, got, want):
            if isinstance(g, Exception):
                raise Violation(f"{what} in one of several threads raised {type(g).__name__}: {g}")
            if not same(g, w):
                raise Violation(f"{what} in one of several threads: {core.trim(g[0] if isinstance(g, tuple) else g)}, alone {core.trim(w[0] if isinstance(w, tuple) else w)}")
        self.compared += len(jobs)

    def em(self, op, i, X, fresh):
        P, obj = self.params[i], self.objs[i]
        n, m = self.case["dims"]
        kw = dict(n_iter=op["k"] % 3)
        if op["vars"] == "all":
            kw["em_vars"] = "all"
        elif op["vars"] is not None:
            kw["em_vars"] = names_of(op)
        passed = copy.copy(kw.get("em_vars"))
        named = kw.get("em_vars", P["em_vars"])
        keys = set(c04.DEFAULT if named is None else LIN if named == "all" else [k for k in LIN if gen.NAME[k] in named])
        ok = self.domain(P, X, "em")
        if ok:
            J, M = ok
            cur = {k: np.array(v, float) for k, v in M.items()}
            miss = np.ma.getmaskarray(X).any(axis=1)
            for r in range(kw["n_iter"]):
                cur = ref.m_step(cur, J, np.ma.getdata(X), miss, keys) if not (miss.all() and keys & {"C", "R", "d"}) else None
                if cur is None or ref.MSTEP_COND[0] > 1e5:
                    ok = False
                    break
                for k in ("Q", "R", "P0"):
                    for S in cur[k].reshape((-1,) + cur[k].shape[-2:]):
                        e = np.linalg.eigvalsh(S)
                        ok = ok and e[0] > 1e-6 * e[-1]
                if not ok:
                    break
                if r + 1 < kw["n_iter"]:
                    J = ref.Joint(cur, np.ma.getdata(X), miss)
                    try:
                        if not J.ok or J.cond > 1e5 or J.drop > 1e6:
                            raise Skip
                        c01.smooth_tolerance(J, cur, 1e3)
                    except Skip:
                        ok = False
                        break
        X2, kw2, error = clone(X), copy.deepcopy(kw), None
        try:
            obj.em(X, **kw)
        except Exception as e:  # noqa: BLE001
            error = e
        if passed != kw.get("em_vars"):
            raise Violation("em changed the em_vars passed to it")
        now = self.read(obj)
        for k in ("em_vars", "random_state"):
            if not alike(P[k], now[k]):
                raise Violation(f"em changed {k}")
        self.params[i] = now
        self.audit(f"em of object {i}")
        kept = {k: clone(v) for k, v in now.items()}
        if ok:
            self.later(lambda: self.compare_em(fresh, X2, kw2, kept, i, error))

    def compare_em(self, fresh, X, kw, now, i, error):
        try:
            fresh.em(X, **kw)
            want = self.read(fresh)
        except Exception:  # noqa: BLE001
            return
        if error is not None:
            raise Violation(f"em raised {type(error).__name__}: {error} where a new object does not") from error
        self.compared += 1
        for k in LIN:
            x, y = np.asarray(now[k], float), np.asarray(want[k], float)
            close(f"{ATTR[k]} after em of object {i} and of a new object", x, y, np.abs(y).max() + 1e-3, 1e-5)

    # ------------------------------------------------- everything else

    def other(self, op):
        i = op["obj"] % len(self.objs)
        obj, P = self.objs[i], self.params[i]
        what = op["op"]
        if what == "assign":
            k = op["key"]
            if k == "em_vars":
                v = None if op["vars"] is None else "all" if op["vars"] == "all" else names_of(op)
            elif k == "random_state":
                v = op["k"]
            elif op["k"] == 0 and self.lin:
                v = None
            else:
                v = value(self.case, 1, k)
                now = getattr(obj, ATTR[k])
                if op["k"] > 3 and isinstance(now, np.ndarray) and now.dtype != object:
                    v = other_numbers(k, now, op["k"] - 4)  # much like the current ones
                if op["k"] == 1 and isinstance(v, np.ndarray):
                    v = v.tolist()
                self.see(v, f"the array assigned to {ATTR[k]}")
            setattr(obj, ATTR[k], v)
            P[k] = clone(v)
        elif what == "inplace":
            v = getattr(obj, ATTR[op["key"]])
            if isinstance(v, np.ndarray) and v.dtype != object and v.flags.writeable:
                v[...] = 0.5 * v if op["k"] < 4 or v.dtype.kind != "f" else other_numbers(op["key"], v, op["k"] - 4)
                self.refresh(v)
            elif isinstance(v, list) and op["key"] not in ("f", "g", "em_vars"):
                halve(v)
                for o, Q in zip(self.objs, self.params):
                    for k in self.keys:
                        if isinstance(getattr(o, ATTR[k]), list):
                            Q[k] = clone(getattr(o, ATTR[k]))
        elif what == "data":
            X = self.data[op["data"]]
            t = op["k"] % len(X)
            if isinstance(X, np.ma.MaskedArray) and op["k"] % 2:
                X[t] = np.ma.masked
            else:
                d = np.ma.getdata(X)
                if op["k"] == 6:  # the same numbers in another order
                    d[[0, t]] = d[[t, 0]]
                elif op["k"] == 4:
                    d[t] += 3e-6 * np.abs(d[t]).max()
                else:
                    d[t] += 1.0
            self.refresh(X)
        elif len(self.objs) < 4:
            if what == "copy":
                new = copy.copy(obj)
            elif what == "deepcopy":
                new = copy.deepcopy(obj)
            elif what == "pickle":
                new = pickle.loads(pickle.dumps(obj))
            else:
                kw = {k: getattr(obj, ATTR[k]) for k in self.keys}
                new = self.make(dict(kw, em_vars=P.get("em_vars"), random_state=P["random_state"]))
            for k in P:
                if not alike(P[k], self.read(new)[k]):
                    raise Violation(f"{what} of object {i} has another {ATTR[k]}")
            self.append(new)
        self.audit(what)


def other_numbers(k, v, how):
    """Other values of a parameter that are easily taken for the current ones:
    the same numbers in another order, or hardly changed, or with another sign."""
    v = np.array(v, float)
    cov = k in ("Q", "R", "P0")
    if how == 0 and v.ndim > gen.ND[k] and len(v) > 1:
        return v[::-1].copy()
    if how <= 1 and k in ("A", "C") and v.shape[-1] == v.shape[-2] > 1:
        return v.swapaxes(-1, -2).copy()
    if how <= 2:
        return v[..., ::-1, ::-1].copy() if cov else v[..., ::-1].copy()
    return v * (1 + 3e-6) if cov or not v.any() else -v if k in ("b", "d", "m0") else v * (1 + 3e-6)


def full(P, n, m, cls=None):
    """Parameter values with defaults filled in."""
    D = dict(A=np.eye(n), b=np.zeros(n), C=np.eye(m, n), d=np.zeros(m), Q=np.eye(n), R=np.eye(m), m0=np.zeros(n), P0=np.eye(n))
    if "f" in P:
        out = {k: np.array(P[k], float) if P[k] is not None else D[k] for k in ("Q", "R", "m0", "P0")}
        for k in "fg":
            out[k] = (P[k][0] if isinstance(P[k], list) else P[k]).F
        return out
    return {k: np.array(P[k], float) if P[k] is not None else D[k] for k in LIN}


def same(a, b):
    """Equal up to 1e-9 of the largest entry."""
    a, b = (x if isinstance(x, tuple) else (x,) for x in (a, b))
    return all(
        np.shape(x) == np.shape(y) and np.all(np.abs(np.asarray(x, float) - np.asarray(y, float)) <= 1e-9 * (np.abs(np.asarray(y, float)).max(initial=0.0) + 1e-6))
        for x, y in zip(a, b)
    )


def names_of(op):
    """em_vars of an operation as a list, tuple or set."""
    return (list, tuple, set)[op["k"] // 3]([gen.NAME[k] for k in op["vars"]])


def halve(v):
    """In place, at the innermost level."""
    for j, x in enumerate(v):
        if isinstance(x, list):
            halve(x)
        else:
            v[j] = 0.5 * x


def clone(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, list):
        return [clone(x) for x in v]
    return v


def alike(a, b):
    if isinstance(a, gen.Fn) or isinstance(b, gen.Fn):
        return isinstance(a, gen.Fn) and isinstance(b, gen.Fn) and a.t == b.t and all(
            np.array_equal(a.F[k], b.F[k]) for k in a.F
        )
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.dtype == object:
            return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    return a == b


def check(case):
    w = World(case)
    for op in case["ops"]:
        before = np.random.get_state()
        (w.call if op["op"] in CALLS else w.threads if op["op"] == "threads" else w.other)(op)
        after = np.random.get_state()
        if before[2:] != after[2:] or not np.array_equal(before[1], after[1]):
            raise Violation(f"{op['op']} changed the state of numpy's global random generator")
    for comparison in w.pending:
        comparison()
    COMPARED[0] = w.compared


COMPARED = [0]


def nontrivial(case):
    """Called right after check(case)."""
    return COMPARED[0] >= 2 and any(o["op"] in OTHER + ["em"] for o in case["ops"])


def classes(case):
    out = [case["cls"]] + sorted({o["op"] for o in case["ops"]})
    if COMPARED[0] >= 2:
        out.append("two or more calls compared")
    return out


def simplify(case):
    for i in range(len(case["ops"])):
        yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1 :])
    for k in case["given"]:
        if k not in "fg":
            yield dict(case, given=[q for q in case["given"] if q != k])
    for i, op in enumerate(case["ops"]):
        if op["k"] > 1:
            yield dict(case, ops=case["ops"][:i] + [dict(op, k=1)] + case["ops"][i + 1 :])
