"""DetMCD searches from the six deterministic initial estimates of Hubert, Rousseeuw and Verdonck (2012)."""
import numpy as np
from scipy import stats

from symrob.runner import Scenario
from harness.common import cov_

FUNCTIONS = ["covariance.mcd.DetMCD.fit", "covariance.mcd.DetMCD.calculate_covariance", "covariance.mcd.DetMCD._get_initial_best_subsets",
             "covariance.mcd.DetMCD._perform_c_step", "covariance.mcd.DetMCD._Qn_scale", "covariance.ogk.OGK.calculate_covariance", "univariate.qn.Qn.fit"]
STUBS = ["tanh, normal quantiles: values of the real functions at concrete arguments (the standardized data do not depend on any unknown)",
         "iterative constants of 128 significant bits"]
BOUNDS = ("samples of n=20, p=3 on which a single one of the six initial estimates leads to the smallest determinant (each of the six in turn), the same with n=21, n=21, p=2, and (thorough) n=1000, p=2; "
          "every shift of all variables and every positive or negative rescaling of one of them")
BUDGET = 150
BUDGET_THOROUGH = 800


def qn(x):
    """Croux and Rousseeuw (1992), with their finite-sample factors"""
    n = len(x)
    h = n // 2 + 1
    d = np.sort([abs(a - b) for i, a in enumerate(x) for b in x[:i]])[h * (h - 1) // 2 - 1]
    if n <= 9:
        c = (0.399, 0.994, 0.512, 0.844, 0.611, 0.857, 0.669, 0.872)[n - 2]
    else:
        c = n / (n + 1.4) if n % 2 else n / (n + 3.8)
    return d * 2.2219 * c


def qns(Z):
    return np.array([qn(c) for c in Z.T])


def tau(x):
    """tau scale (Maronna and Zamar, 2002), with c1=4.5 and c2=3 in units of the MAD"""
    m = np.median(x)
    s = np.median(np.abs(x - m))
    z = (x - m) / s
    w = np.where(np.abs(z) <= 4.5, (1 - (z / 4.5) ** 2) ** 2, 0)
    t = np.sum(w * x) / np.sum(w)
    b = 3 * stats.norm.ppf(0.75)
    e = 2 * ((1 - b * b) * stats.norm.cdf(b) - b * stats.norm.pdf(b) + b * b) - 1
    return s * np.sqrt(np.mean(np.minimum(((x - t) / s) ** 2, 9)) / e)


def ogk(Z):
    p = Z.shape[1]
    A = np.eye(p)
    for _ in range(2):
        s = qns(Z)
        Y = Z / s
        U = np.eye(p)
        for i in range(p):
            for j in range(i):
                a, b = qn(Y[:, i] + Y[:, j]) ** 2, qn(Y[:, i] - Y[:, j]) ** 2
                U[i, j] = U[j, i] = (a - b) / (a + b)
        E = np.linalg.eigh(U)[1][:, ::-1]
        Z = Y @ E
        A = A @ np.diag(s) @ E
    return A @ np.diag(qns(Z) ** 2) @ A.T


def starts(X):
    """the six initial scatter estimates of the standardized data"""
    n, p = X.shape
    Z = (X - np.median(X, axis=0)) / (qns(X) if n < 1000 else np.array([tau(c) for c in X.T]))
    R = stats.rankdata(Z, axis=0)
    r = np.linalg.norm(Z, axis=1)
    U = Z / np.where(r > 0, r, 1)[:, None]
    near = np.argsort(r)[:-(-n // 2)]
    return Z, (np.corrcoef(np.tanh(Z), rowvar=False), np.corrcoef(R, rowvar=False), np.corrcoef(stats.norm.ppf((R - 1 / 3) / (n + 1 / 3)), rowvar=False),
               U.T @ U / n, np.cov(Z[near], rowvar=False), ogk(Z))


def dist(X, mu, C):
    D = X - mu
    return np.einsum("ij,jk,ik->i", D, np.linalg.inv(C), D)


def reference(X, h, which=None):
    """determinant and indices at convergence, for every initial estimate; None when rounding decides"""
    n, p = X.shape
    Z, S = starts(X)
    out = []
    for k, C in enumerate(S):
        E = np.linalg.eigh(C)[1]
        L = qns(Z @ E) ** 2
        R = E * np.sqrt(L) @ E.T
        mu = R @ np.median(Z @ np.linalg.inv(R), axis=0)
        s = np.argsort(dist(Z, mu, R @ R))[:-(-n // 2)]
        while True:
            d = dist(X, X[s].mean(axis=0), np.cov(X[s], rowvar=False))
            o = np.argsort(d)
            t = set(o[:h].tolist())
            if t == set(np.asarray(s).tolist()):
                break
            s = o[:h]
        out.append((float(np.linalg.det(np.cov(X[sorted(t)], rowvar=False))), sorted(t)))
    return out


def sample(n, p, seed, kind):
    g = np.random.default_rng(seed)
    A = np.tril(g.normal(size=(p, p))) + np.eye(p)
    Z = g.normal(size=(n, p)) if kind % 2 == 0 else g.standard_t(2, size=(n, p))
    X = Z @ A.T
    m = int(n * (.3 if kind < 2 else .4))
    X[:m] = X[:m] * .3 + g.normal(size=p) * 4
    return np.clip(np.round(X * 16) / 16, -60, 60)


def body(ctx, n, p, seed, kind, how, alpha=None):
    from robpy.covariance import DetMCD

    B = sample(n, p, seed, kind)
    h = max(int(alpha * n), (n + p + 1) // 2) if alpha else (n + p + 1) // 2
    best = sorted(reference(B, h))
    idx = best[0][1]
    if how == "shift":
        b = ctx.real("b", lo=-1000, hi=1000)
        rows = [[ctx.const(float(v)) + b * (1, -0.5, 2)[j] for j, v in enumerate(r)] for r in B]
    else:
        k = ctx.real("k", lo=0.125, hi=8) if how == "factor" else ctx.real("k", lo=-8, hi=-0.125)
        rows = [[k * ctx.const(float(v)) if j == p - 1 else ctx.const(float(v)) for j, v in enumerate(r)] for r in B]
    e = DetMCD(alpha=alpha, reweighting=False, correct_covariance=False, verbosity=50).fit(ctx.array(rows))
    mu, C = cov_([rows[i] for i in idx])
    ctx.check(ctx.all([ctx.eq(e.location_[j], mu[j]) for j in range(p)]), "location: the mean of the best subset reached from the six initial estimates")
    ctx.check(ctx.all([ctx.eq(e.covariance_[i, j], C[i][j]) for i in range(p) for j in range(p)]),
              "scatter: the covariance of the best subset reached from the six initial estimates")


# samples on which a single initial estimate leads to the best subset
SOLE = {0: ((1058, 2), (1184, 0), (1188, 0), (1299, 3)), 1: ((1029, 1), (1191, 3), (1210, 2), (1276, 0)), 2: ((0, 0), (105, 1), (1054, 2), (1110, 2)),
        3: ((1006, 2), (1045, 1), (1049, 1), (107, 3)), 4: ((1017, 1), (104, 0), (1047, 3), (1048, 0)), 5: ((1001, 1), (1008, 0), (1031, 3), (1040, 0))}
# the same with an odd number of observations (n=21)
ODD = ((0, 1978, 2), (1, 1128, 0), (2, 493, 1), (3, 2447, 3), (4, 44, 0), (4, 181, 1), (4, 159, 3), (4, 465, 1), (5, 706, 2))
NAMES = ("hyperbolic tangent", "ranks", "normal scores", "spatial signs", "central half", "OGK")


def scenarios(tier):
    big = tier != "quick"
    out = []
    for k, v in SOLE.items():
        for i, (seed, kind) in enumerate(v):
            for how in ("shift", "factor", "negative factor") if big else (("shift", "factor", "negative factor")[(i + k) % 3],):
                out.append(Scenario(f"{NAMES[k]}, sample {seed}: {how}", body, dict(n=20, p=3, seed=seed, kind=kind, how=how), prec=128, path_timeout=60))
    for i, (k, seed, kind) in enumerate(ODD):
        for how in ("shift", "factor", "negative factor") if big else (("shift", "factor", "negative factor")[i % 3],):
            out.append(Scenario(f"{NAMES[k]}, n=21, sample {seed}: {how}", body, dict(n=21, p=3, seed=seed, kind=kind, how=how), prec=128, path_timeout=60))
    if big:  # a path takes minutes
        for seed in (42, 46):
            out.insert(0, Scenario(f"n=1000 p=2, sample {seed}: shift", body, dict(n=1000, p=2, seed=seed, kind=2, how="shift"), prec=128, path_timeout=600))
    for i in range(12 if big else 4):
        out.append(Scenario(f"n=21 p=2 alpha=0.75, sample {i}", body, dict(n=21, p=2, seed=i, kind=i % 4, how=("shift", "factor")[i % 2], alpha=0.75),
                            prec=128, path_timeout=60))
    return out
