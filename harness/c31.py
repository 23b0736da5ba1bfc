"""DataCleaner: which columns and rows are dropped, and why."""
import numpy as np

from symrob.runner import Scenario
from harness.common import mad_

FUNCTIONS = ["preprocessing.data_cleaner.DataCleaner.fit", "preprocessing.data_cleaner.DataCleaner.transform",
             "preprocessing.data_cleaner.DataCleaner.dropped_columns", "preprocessing.data_cleaner.DataCleaner.dropped_rows"]
STUBS = ["pandas frames of symbolic cells: replace, nunique, astype and to_numeric on such cells; everything else is pandas"]
BOUNDS = ("frames of 4..8 rows and 2..30 columns: up to two free cells in [-1000, 1000] (discreteness, zero scale, row numbers, values kept); every threshold "
          "in [0, 1] of the missing fractions and every minimal scale for concrete patterns of missing and infinite cells; 1-6 minimal unique values")
BUDGET = 60
NAN, INF = float("nan"), float("inf")
G = [0.5, 2.25, -1.75, 4.0, 7.5, -3.25, 1.125, 9.0]


def unique_(ctx, xs):
    seen = []
    for x in xs:
        if not any(ctx.if_(x, "==", y) for y in seen):
            seen.append(x)
    return len(seen)


def make(**k):
    from robpy.preprocessing import DataCleaner

    return DataCleaner(**k)


def cells(ctx, X, cols, rows):
    V = X.values
    ok = list(X.columns) == cols and list(X.index) == rows
    ctx.check(ok, "exactly the other columns and rows are kept, in order")
    if not ok:
        ctx.stop()
    return V


def columns(ctx, n, free, mu=3, base=None, min_scale=None):
    """one column with free cells among clean ones (some missing or infinite): discrete, (almost) constant or kept"""
    base = base or G
    fin = lambda v: not isinstance(v, float) or np.isfinite(v)
    col = [ctx.real(f"x{i}", lo=-1000, hi=1000) if i in free else (ctx.const(base[i]) if fin(base[i]) else base[i]) for i in range(n)]
    seen = [v for v in col if fin(v)]
    other = [ctx.const(G[(3 * i + 1) % 8] + 0.125 * i) for i in range(n)]
    eps = ctx.real("eps", lo=0, hi=50) if min_scale == "free" else (1e-12 if min_scale is None else min_scale)
    X = ctx.frame([[other[i], col[i]] for i in range(n)], ["u", "v"], [f"r{i}" for i in range(n)])
    c = make(min_unique_values=mu, min_abs_scale=eps, max_missing_frac_cols=2, max_missing_frac_rows=2)
    Y = c.fit(X).transform(X)
    few = unique_(ctx, seen) <= mu
    flat = not few and not ctx.if_(mad_(ctx, seen), ">", eps)
    numbers = not few and not flat and len(seen) == n and all(ctx.if_(col[i], "==", i) for i in range(n))
    d = c.dropped_columns
    oflat = min_scale == "free" and not ctx.if_(mad_(ctx, other), ">", eps)
    ctx.check(d["cols_discrete"] == (["v"] if few else []), "dropped as discrete exactly if it has at most min_unique_values values")
    ctx.check(d["cols_bad_scale"] == ["u"] * oflat + ["v"] * flat, "dropped for its scale exactly if its MAD is at most min_abs_scale")
    ctx.check(("v" in d["cols_rownumbers"]) == numbers or few or flat, "dropped as row numbers exactly if it consists of them")
    ctx.check(d["non_numeric_cols"] == [] and d["cols_missings"] == [] and c.dropped_rows == {"rows_missings": []}, "nothing else is dropped")
    keep = not (few or flat or numbers)
    kept = ([other] if not oflat else []) + ([col] if keep else [])
    V = cells(ctx, Y, ["u"] * (not oflat) + ["v"] * keep, [f"r{i}" for i in range(n)])
    ctx.check(ctx.all([ctx.eq(V[i, j], k[i]) if fin(k[i]) else ctx.is_nan(V[i, j]) for i in range(n) for j, k in enumerate(kept)]),
              "kept values are unchanged, infinite values become missing")
    W = X.values
    same = lambda a, v: ctx.eq(a, v) if fin(v) else (ctx.is_nan(a) if v != v else ctx.is_inf(a))
    ctx.check(ctx.all([ctx.eq(W[i, 0], other[i]) & same(W[i, 1], col[i]) for i in range(n)]), "input unchanged")


def numbers(ctx, n, free):
    """row numbers: some or all cells free"""
    col = [ctx.real(f"x{i}", lo=-10, hi=10) if i in free else ctx.const(i) for i in range(n)]
    other = [ctx.const(G[(3 * i + 1) % 8]) for i in range(n)]
    X = ctx.frame([[other[i], col[i]] for i in range(n)], ["u", "v"])
    c = make(min_unique_values=0, min_abs_scale=-1)
    Y = c.fit(X).transform(X)
    is_nr = all(ctx.if_(col[i], "==", i) for i in range(n))
    ctx.check((c.dropped_columns["cols_rownumbers"] == ["v"]) == is_nr, "dropped as row numbers exactly if it consists of them")
    cells(ctx, Y, ["u"] if is_nr else ["u", "v"], list(X.index))


PATTERNS = {
    "mixed": (6, 4, {(0, 0): NAN, (1, 0): INF, (2, 0): NAN, (0, 1): NAN, (0, 2): -INF, (5, 3): NAN}),
    "rows": (6, 3, {(0, 0): NAN, (0, 1): NAN, (1, 2): NAN, (4, 0): -INF, (4, 1): NAN, (4, 2): NAN}),
    "wide": (5, 25, {(0, j): NAN for j in range(9)} | {(i, 24): NAN for i in range(3)} | {(1, j): INF for j in range(2)}),
    "almost wide": (5, 24, {(0, j): NAN for j in range(9)} | {(i, 23): NAN for i in range(3)} | {(1, j): INF for j in range(2)}),
    "cascade": (6, 5, {(0, 0): NAN, (0, 1): NAN, (0, 2): NAN, (1, 0): NAN, (2, 0): NAN, (3, 3): NAN, (4, 3): NAN, (5, 3): NAN, (5, 4): INF}),
    "clean": (6, 3, {}),
}


def frame(ctx, which, extra=0.0):
    n, p, miss = PATTERNS[which]
    rows = [[miss.get((i, j)) if (i, j) in miss else ctx.const(G[(3 * i + j) % 8] + 0.125 * i * (j + 1) + extra) for j in range(p)] for i in range(n)]
    return ctx.frame(rows, [f"v{j}" for j in range(p)], [f"r{i}" for i in range(n)]), rows, miss, n, p


def missing_(ctx, n, p, miss, order, fc, fr):
    """own rule: rows / columns with at least the given share of missing values, in the given order"""
    rows, cols = list(range(n)), list(range(p))

    def do_cols():
        bad = [j for j in cols if rows and ctx.if_(ctx.const(sum((i, j) in miss for i in rows) / len(rows)), ">=", fc)]
        for j in bad:
            cols.remove(j)
        return bad

    def do_rows():
        bad = [i for i in rows if cols and ctx.if_(ctx.const(sum((i, j) in miss for j in cols) / len(cols)), ">=", fr)]
        for i in bad:
            rows.remove(i)
        return bad

    if order == "automatic":
        order = "columns" if p >= 5 * n else "rows"
    if order == "columns":
        bc = do_cols()
        br = do_rows()
    else:
        br = do_rows()
        bc = do_cols()
    return rows, cols, br, bc


def missing(ctx, which, order, first=None, only=None):
    """every threshold of the missing fractions"""
    from fractions import Fraction

    fc = ctx.real("fc", lo=Fraction(1, 100), hi=Fraction(99, 100)) if only != "rows" else 0.5
    fr = ctx.real("fr", lo=Fraction(1, 100), hi=Fraction(99, 100)) if only != "columns" else 0.5
    X, cellv, miss, n, p = frame(ctx, which)
    c = make(max_missing_frac_cols=fc, max_missing_frac_rows=fr, clean_na_first=order, min_unique_values=-1, min_abs_scale=-1)
    if first:  # another data set with another shape and pattern came before
        F = frame(ctx, first)[0]
        F.columns = [f"w{j}" for j in range(F.shape[1])]
        c.fit(F)
        c.transform(F)
    Y = c.fit(X).transform(X)
    rows, cols, br, bc = missing_(ctx, n, p, miss, order, fc, fr)
    ctx.check(c.dropped_columns["cols_missings"] == [f"v{j}" for j in bc], "columns with a share of missing values of at least the threshold are dropped")
    ctx.check(c.dropped_rows["rows_missings"] == [f"r{i}" for i in br], "rows with a share of missing values of at least the threshold are dropped")
    V = cells(ctx, Y, [f"v{j}" for j in cols], [f"r{i}" for i in rows])
    ok = []
    for a, i in enumerate(rows):
        for b, j in enumerate(cols):
            ok.append(ctx.is_nan(V[a, b]) if (i, j) in miss else ctx.eq(V[a, b], cellv[i][j]))
    ctx.check(ctx.all(ok), "kept values are unchanged, infinite values become missing")


def kinds(ctx, mu=3):
    """non-numeric columns next to numeric ones with a free value"""
    n = 6
    x = ctx.real("x", lo=-1000, hi=1000)
    rows = [[ctx.const(G[i]), x if i == 4 else ctx.const(G[7 - i])] for i in range(n)]
    X = ctx.frame(rows, ["a", "b"], list("uvwxyz"))
    X["name"] = ["p", "q", "r", "s", "t", "u"]
    X["mixed"] = [1.5, 2.0, "three", 4.0, 5.0, 6.5]
    c = make(min_unique_values=mu)
    Y = c.fit(X).transform(X)
    ctx.check(c.dropped_columns["non_numeric_cols"] == ["name", "mixed"], "columns with a value that is not a number are dropped")
    ctx.check(list(X.columns) == ["a", "b", "name", "mixed"], "input unchanged")
    V = cells(ctx, Y, ["a", "b"], list("uvwxyz"))
    ctx.check(ctx.all([ctx.eq(V[i, j], rows[i][j]) for i in range(n) for j in range(2)]), "kept values are unchanged")


def train_test(ctx):
    """columns are judged on the training data; missing values on the transformed data"""
    n = 6
    x = ctx.real("x", lo=-1000, hi=1000)
    A = ctx.frame([[ctx.const(G[i]), ctx.const(1.5 if i < 4 else 2.5), ctx.const(G[i] / 2)] for i in range(n)], list("abc"))
    rows = [[x if i == 1 else ctx.const(G[7 - i]), ctx.const(G[i]), ctx.const(1.0) if i else NAN] for i in range(n)]
    B = ctx.frame(rows, list("abc"), [f"t{i}" for i in range(n)])
    c = make().fit(A)
    Y = c.transform(B)
    ctx.check(c.dropped_columns["cols_discrete"] == ["b"], "columns are judged on the training data")
    V = cells(ctx, Y, ["a", "c"], [f"t{i}" for i in range(1, n)])
    ctx.check(c.dropped_rows["rows_missings"] == ["t0"], "rows are judged on the transformed data")
    ctx.check(ctx.all([ctx.eq(V[i - 1, j], rows[i][k]) for i in range(1, n) for j, k in ((0, 0), (1, 2))]), "kept values are unchanged")
    Z = c.transform(A)
    ctx.check(c.dropped_rows["rows_missings"] == [] and list(Z.columns) == ["a", "c"] and len(Z) == n, "the previous data set leaves no trace")


def errors(ctx):
    from sklearn.exceptions import NotFittedError

    m = 1 + ctx.choose(6)
    x = ctx.real("x")
    X = ctx.frame([[x, ctx.const(G[0])], [ctx.const(1.0), ctx.const(G[1])], [ctx.const(2.0), ctx.const(G[2])], [ctx.const(2.0), ctx.const(G[3])]], ["a", "b"])
    c = make(min_n_rows=m, min_unique_values=0, min_abs_scale=-1)
    for f in ("dropped_columns", "dropped_rows"):
        raised = False
        try:
            getattr(c, f)
        except NotFittedError:
            raised = True
        ctx.check(raised, "nothing is reported before fitting")
    raised = False
    try:
        c.fit(X).transform(X)
    except ValueError:
        raised = True
    ctx.check(raised == (4 < m), "fewer than min_n_rows rows are rejected with ValueError")
    raised = False
    try:
        make(clean_na_first="first").fit_transform(X)
    except ValueError:
        raised = True
    ctx.check(raised, "an unknown order is rejected with ValueError")


def scenarios(tier):
    S = Scenario
    out = [
        S("column", columns, dict(n=6, free=[1, 4])),
        S("column, ties", columns, dict(n=7, free=[2, 5], base=[1.0, 1.0, 2.0, 2.0, 3.0, 4.0, 2.0])),
        S("column, one value", columns, dict(n=6, free=[5, 3], base=[2.0] * 6, mu=1)),
        S("column, six values", columns, dict(n=8, free=[0, 7], mu=6)),
        S("column, row numbers", columns, dict(n=6, free=[3], base=[0.0, 1.0, 2.0, 3.0, 4.0, 5.0])),
        S("column, minimal scale", columns, dict(n=6, free=[1], min_scale="free")),
        S("column, missing", columns, dict(n=7, free=[2, 5], base=[1.0, NAN, 2.0, 2.5, 1.0, 4.0, NAN])),
        S("column, infinite", columns, dict(n=7, free=[3], base=[1.0, INF, 2.0, 2.5, 1.0, -INF, 2.0])),
        S("column, missing, minimal scale", columns, dict(n=7, free=[3], base=[1.0, INF, 2.0, 2.5, 1.75, NAN, 8.0], min_scale="free")),
        S("column, minimal scale 2", columns, dict(n=7, free=[1, 3], min_scale=2.0)),
        S("row numbers", numbers, dict(n=5, free=[0, 2, 4])), S("row numbers, all free", numbers, dict(n=3, free=[0, 1, 2])),
        S("kinds", kinds, {}), S("training and test data", train_test, {}), S("errors", errors, {}),
    ]
    for w in PATTERNS:
        for o in ("automatic", "rows", "columns"):
            out.append(S(f"missing, {w}, {o}", missing, dict(which=w, order=o)))
    for w, f in (("wide", "mixed"), ("mixed", "wide"), ("clean", "rows"), ("cascade", "rows")):
        out.append(S(f"missing, {w} after {f}", missing, dict(which=w, order="automatic", first=f)))
    if tier == "thorough":
        out += [S("column, three free", columns, dict(n=7, free=[0, 3, 6])), S("column, three free, ties", columns, dict(n=7, free=[0, 3, 6], base=[1.0, 1.0, 2.0, 2.0, 3.0, 4.0, 2.0])),
                S("row numbers, 4 free", numbers, dict(n=8, free=[0, 1, 4, 7]))]
    return out
