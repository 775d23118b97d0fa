"""Reference models, independent of the code under test.

Linear-Gaussian models: the joint distribution of the whole state trajectory is
built explicitly, state by state, and conditioned on one observation block after
the other, in extended precision.  There is no backward pass: smoothed moments
and pairwise covariances are blocks of the fully conditioned joint.

Unscented filters: direct transcription of the unscented transform.
"""
import numpy as np

LD = np.longdouble
LOG2PI = LD("1.8378770664093454835606594728112352797")


def at(X, t, nd):
    X = np.asarray(X)
    return X[t] if X.ndim == nd + 1 else X


def ld(X):
    return np.asarray(X, dtype=LD)


def chol_ld(S):
    """Lower Cholesky factor in extended precision; None if not PD."""
    n = S.shape[0]
    L = np.zeros((n, n), dtype=LD)
    for i in range(n):
        for j in range(i + 1):
            s = S[i, j] - (L[i, :j] * L[j, :j]).sum()
            if i == j:
                if not s > 0:
                    return None
                L[i, i] = np.sqrt(s)
            else:
                L[i, j] = s / L[j, j]
    return L


def fsolve(L, B):
    """L^-1 B."""
    X = np.array(B, dtype=LD)
    for i in range(L.shape[0]):
        X[i] = (X[i] - L[i, :i] @ X[:i]) / L[i, i]
    return X


def growth(M, T):
    """Largest squared norm of a product of consecutive transition matrices."""
    n = len(np.asarray(M["m0"]))
    run, best = np.zeros((0, n, n)), 1.0
    for t in range(T - 1):
        A = np.asarray(at(M["A"], t, 2), float)
        run = np.concatenate([A @ run, A[None]])
        best = max(best, float((run**2).sum(axis=(1, 2)).max()))
        if best > 1e30:
            break
    return best


class Joint:
    """Posterior of a linear-Gaussian model by conditioning the joint."""

    def __init__(self, M, Z, missing, full=True):
        """M: dict A b C d Q R m0 P0; Z: [T, m]; missing: [T] bool.

        full: also condition earlier states (smoothing, pairwise covariances).
        """
        T = Z.shape[0]
        m0 = ld(M["m0"])
        n = len(m0)
        m = Z.shape[1]
        N = T * n
        mu = np.zeros(N, dtype=LD)
        S = np.zeros((N, N), dtype=LD)
        mu[:n] = m0
        S[:n, :n] = ld(M["P0"])
        self.pred_mean = np.zeros((T, n))
        self.pred_cov = np.zeros((T, n, n))
        self.filt_mean = np.zeros((T, n))
        self.filt_cov = np.zeros((T, n, n))
        self.ll = np.zeros(T)
        self.cond = 1.0  # worst conditioning of an innovation covariance
        self.drop = 1.0  # largest variance so far over the innovation's smallest
        self.far = 1.0  # largest square of anything observed over the innovation's smallest variance
        vmax = 0.0
        self.growth = growth(M, T)
        self.ok = True
        scale = 0.0
        lls = LD(0)
        for t in range(T):
            a, b_ = t * n, (t + 1) * n
            if t:  # append the next state to the joint distribution
                o = a - n
                A = ld(at(M["A"], t - 1, 2))
                mu[a:b_] = A @ mu[o:a] + ld(at(M["b"], t - 1, 1))
                S[a:b_, :a] = A @ S[o:a, :a]
                S[:a, a:b_] = S[a:b_, :a].T
                S[a:b_, a:b_] = A @ S[o:a, o:a] @ A.T + ld(at(M["Q"], t - 1, 2))
            self.pred_mean[t] = mu[a:b_]
            self.pred_cov[t] = S[a:b_, a:b_]
            vmax = max(vmax, float(np.trace(S[a:b_, a:b_])))
            if not missing[t]:
                C = ld(at(M["C"], t, 2))
                lo = 0 if full else a
                V = S[lo:b_, a:b_] @ C.T
                s = C @ S[a:b_, a:b_] @ C.T + ld(at(M["R"], t, 2))
                s = (s + s.T) / 2
                L = chol_ld(s)
                if L is None:
                    self.ok = False
                    return
                dg = np.diag(L)
                e = np.linalg.eigvalsh(s.astype(float))
                self.cond = max(self.cond, float(e[-1] / max(e[0], 1e-300)))
                c2 = float((C * C).sum())
                self.drop = max(self.drop, c2 * vmax / max(e[0], 1e-300))
                big = max(np.abs(Z[t]).max(), np.abs(C @ mu[a:b_]).max(), np.abs(at(M["d"], t, 1)).max())
                self.far = max(self.far, float(big**2 / max(e[0], 1e-300)))
                W = fsolve(L, V.T)  # m x N
                r = fsolve(L, ld(Z[t]) - C @ mu[a:b_] - ld(at(M["d"], t, 1)))
                mu[lo:b_] = mu[lo:b_] + W.T @ r
                S[lo:b_, lo:b_] = S[lo:b_, lo:b_] - W.T @ W
                l_t = -(r @ r + m * LOG2PI) / 2 - np.log(dg).sum()
                self.ll[t] = l_t
                lls += l_t
                scale = max(scale, float(np.abs(ld(Z[t])).max()))
            self.filt_mean[t] = mu[a:b_]
            self.filt_cov[t] = S[a:b_, a:b_]
        self.loglik = float(lls)
        self.T, self.n, self.m = T, n, m
        self.zscale = scale
        if full:
            self.smooth_mean = mu.reshape(T, n).astype(float)
            self.smooth_cov = np.array(
                [S[t * n : (t + 1) * n, t * n : (t + 1) * n] for t in range(T)]
            ).astype(float)
            # pair_cov[t] = Cov(x_t, x_{t-1} | all observations)
            self.pair_cov = np.zeros((T, n, n))
            for t in range(1, T):
                self.pair_cov[t] = S[t * n : (t + 1) * n, (t - 1) * n : t * n]

    # scales for tolerances
    def mean_scale(self):
        s = max(
            np.abs(self.pred_mean).max(),
            np.abs(self.filt_mean).max(),
            np.sqrt(np.abs(self.pred_cov).max()),
            1e-3 * self.zscale,
        )
        return float(max(s, 1e-300))

    def cov_scale(self):
        return float(max(np.abs(self.pred_cov).max(), 1e-300))


MSTEP_COND = [1.0]  # worst conditioning of a regression in the last m_step, rounding included


def m_step(M, J, Z, missing, em_vars):
    """One EM iteration; J = Joint(M, Z, missing).  Returns a new model dict.

    Each named parameter maximises the expected complete-data log likelihood
    given the other parameters current at that point, in the documented order
    C, R, A, Q, m0, P0, b, d.
    """
    T, n = J.T, J.n
    m = Z.shape[1]
    MSTEP_COND[0] = 1.0
    size = J.cov_scale() + J.mean_scale() ** 2  # rounding errors are relative to this
    x, V, W = ld(J.smooth_mean), ld(J.smooth_cov), ld(J.pair_cov)
    z = ld(np.where(missing[:, None], 0.0, Z))
    new = dict(M)
    obs = [t for t in range(T) if not missing[t]]

    def E2(t):
        return V[t] + np.outer(x[t], x[t])

    def rdiv(B, G):
        """B G^-1 for symmetric PD G (extended precision)."""
        L = chol_ld((G + G.T) / 2)
        if L is not None:
            e = np.linalg.eigvalsh(((G + G.T) / 2).astype(float))
            MSTEP_COND[0] = max(MSTEP_COND[0], max(float(e[-1]), size) / max(float(e[0]), 1e-300))
        if L is None:
            return None
        Y = fsolve(L, B.T)
        # G^-1 = L^-T L^-1 ; solve L^T X = Y
        X = np.array(Y)
        for i in reversed(range(L.shape[0])):
            X[i] = (X[i] - L[i + 1 :, i] @ X[i + 1 :]) / L[i, i]
        return X.T

    if "C" in em_vars:
        B = sum((np.outer(z[t] - ld(at(M["d"], t, 1)), x[t]) for t in obs), np.zeros((m, n), LD))
        G = sum((E2(t) for t in obs), np.zeros((n, n), LD))
        new["C"] = rdiv(B, G)
        if new["C"] is None:
            return None
    if "R" in em_vars:
        R = np.zeros((m, m), LD)
        for t in obs:
            C = ld(at(new["C"], t, 2))
            e = z[t] - C @ x[t] - ld(at(M["d"], t, 1))
            R += np.outer(e, e) + C @ V[t] @ C.T
        new["R"] = R / len(obs)
    if "A" in em_vars:
        B, G = np.zeros((n, n), LD), np.zeros((n, n), LD)
        for t in range(1, T):
            B += W[t] + np.outer(x[t] - ld(at(M["b"], t - 1, 1)), x[t - 1])
            G += E2(t - 1)
        new["A"] = rdiv(B, G)
        if new["A"] is None:
            return None
    if "Q" in em_vars:
        Q = np.zeros((n, n), LD)
        for t in range(1, T):
            A = ld(at(new["A"], t - 1, 2))
            e = x[t] - A @ x[t - 1] - ld(at(M["b"], t - 1, 1))
            K = W[t] @ A.T
            Q += np.outer(e, e) + V[t] + A @ V[t - 1] @ A.T - K - K.T
        new["Q"] = Q / (T - 1)
    if "m0" in em_vars:
        new["m0"] = x[0]
    if "P0" in em_vars:
        e = x[0] - ld(new["m0"])
        new["P0"] = V[0] + np.outer(e, e)
    if "b" in em_vars:
        b = np.zeros(n, LD)
        for t in range(1, T):
            b += x[t] - ld(at(new["A"], t - 1, 2)) @ x[t - 1]
        new["b"] = b / (T - 1)
    if "d" in em_vars:
        d = np.zeros(m, LD)
        for t in obs:
            d += z[t] - ld(at(new["C"], t, 2)) @ x[t]
        new["d"] = d / len(obs)
    return {k: np.asarray(v, dtype=float) for k, v in new.items()}


# ---------------------------------------------------------------- unscented


class NotPD(Exception):
    pass


WORST = [1.0]  # largest condition number met by chol()


def chol(S):
    S = (S + S.T) / 2
    if not np.all(np.isfinite(S)):
        raise NotPD
    e = np.linalg.eigvalsh(S)
    if not e[0] > 1e-7 * max(e[-1], 1e-30):
        raise NotPD
    WORST[0] = max(WORST[0], e[-1] / e[0])
    return np.linalg.cholesky(S)


def sigma(mean, cov):
    n = len(mean)
    L = chol(cov) * np.sqrt(3.0)
    X = np.vstack([mean[None], mean + L.T, mean - L.T])
    w = np.full(2 * n + 1, 1.0 / 6.0)
    w[0] = (3.0 - n) / 3.0
    return X, w


def moments(Y, w):
    mean = w @ Y
    D = Y - mean
    return mean, (D * w[:, None]).T @ D


def cross(X, mx, Y, my, w):
    return ((X - mx) * w[:, None]).T @ (Y - my)


def block(*cs):
    n = sum(len(c) for c in cs)
    S = np.zeros((n, n))
    i = 0
    for c in cs:
        S[i : i + len(c), i : i + len(c)] = c
        i += len(c)
    return S


def ukf_step(kind, mean, cov, f, g, Q, R, z, miss, first):
    """One predict/correct step; with first=True no transition happens."""
    n, m = len(mean), len(R)
    Q, R = np.asarray(Q, float), np.asarray(R, float)
    if kind == "aug":
        X, w = sigma(
            np.concatenate([mean, np.zeros(n), np.zeros(m)]), block(cov, Q, R)
        )
        xs, vs, es = X[:, :n], X[:, n : 2 * n], X[:, 2 * n :]
        P = xs if first else np.array([f(a, b) for a, b in zip(xs, vs)])
        pm, pc = moments(P, w)
        if miss:
            return pm, pc
        Y = np.array([g(a, b) for a, b in zip(P, es)])
        ym, yc = moments(Y, w)
        xc = cross(P, pm, Y, ym, w)
    else:
        X, w = sigma(mean, cov)
        if first:
            P = X
            pm, pc = moments(P, w)
        else:
            P = np.array([f(a) for a in X])
            pm, pc = moments(P, w)
            pc = pc + Q
            if not miss:
                P, w = sigma(pm, pc)
        if miss:
            return pm, pc
        Y = np.array([g(a) for a in P])
        ym, yc = moments(Y, w)
        yc = yc + R
        xc = cross(P, pm, Y, ym, w)
    chol(yc)
    K = np.linalg.solve((yc + yc.T) / 2, xc.T).T
    return pm + K @ (z - ym), pc - K @ xc.T


def ukf_filter(kind, M, fs, gs, Z, missing):
    T = len(Z)
    n = len(M["m0"])
    fm, fc = np.zeros((T, n)), np.zeros((T, n, n))
    mean, cov = np.asarray(M["m0"], float), np.asarray(M["P0"], float)
    for t in range(T):
        mean, cov = ukf_step(
            kind, mean, cov, fs(t - 1) if t else None, gs(t), M["Q"], M["R"],
            Z[t], missing[t], t == 0,
        )
        chol(cov)
        fm[t], fc[t] = mean, cov
    return fm, fc


def ukf_smooth(kind, M, fs, fm, fc):
    T, n = fm.shape
    sm, sc = fm.copy(), fc.copy()
    Q = np.asarray(M["Q"], float)
    for t in reversed(range(T - 1)):
        f = fs(t)
        if kind == "aug":
            X, w = sigma(np.concatenate([fm[t], np.zeros(n)]), block(fc[t], Q))
            xs = X[:, :n]
            P = np.array([f(a, b) for a, b in zip(xs, X[:, n:])])
            pm, pc = moments(P, w)
        else:
            xs, w = sigma(fm[t], fc[t])
            P = np.array([f(a) for a in xs])
            pm, pc = moments(P, w)
            pc = pc + Q
        chol(pc)
        D = cross(xs, fm[t], P, pm, w)
        G = np.linalg.solve((pc + pc.T) / 2, D.T).T
        sm[t] = fm[t] + G @ (sm[t + 1] - pm)
        sc[t] = fc[t] + G @ (sc[t + 1] - pc) @ G.T
        chol(sc[t])
    return sm, sc
