"""Relations between calculated columns that hold for every history (band order, oscillator ranges).

A rule over the last row may rely on them (testing the lower band before the upper one changes nothing).
They are obtained by evaluating the extracted value expressions - never the program - and only ever
withdraw a difference (towards "undecided"), never establish agreement.
"""
from .common import *
from .. import fingerprint as fp
from .. import decide, lin

BOUNDS = (-100, 0, 100)


def relations(W, c, strs=None):
    """[("ge", colA, colB) | ("min"|"max", col, bound)] with col = ("ti", name) | ("input", name)"""
    memo = W.__dict__.setdefault("_relations", {})
    if c in memo:
        return memo[c]
    from .formula import ti_series, STRS
    out = []
    try:
        r = W.fresh(c)
        ts = ti_series(r) or []
        cols = [(("ti", nm if isinstance(nm, (str, int)) else show(nm)), t) for nm, t in ts]
        cols += [(("input", x), mk("col", "input", x)) for v in r.validates[:1] for x in v["required"] if x != "volume"]
        vals = fp.valuations([t for _, t in cols], r.facts + r.valid, count=100, strs=strs or STRS, seed=3)
        vals = [v for i, v in enumerate(vals) if i % 5 in (0, 1, 4)]
        rows = []
        for v in vals:
            es = fp.Eval(v)
            for i in range(v.ns["in"]):
                row = []
                for _, t in cols:
                    try:
                        x = es.at(t, i if t.series else None)
                    except (fp.Undef, fp.Unev):
                        x = None
                    row.append(x if isinstance(x, (int, float)) and x == x else None)
                rows.append(row)
        out = hold(cols, rows)
    except Exception:
        out = []
    memo[c] = out
    return out


def hold(cols, rows):
    out = []
    for i, (a, _) in enumerate(cols):
        xs = [r[i] for r in rows if r[i] is not None]
        if len(xs) >= 30 and a[0] == "ti":
            lo = [b for b in BOUNDS if all(x >= b for x in xs)]
            hi = [b for b in BOUNDS if all(x <= b for x in xs)]
            if lo:
                out.append(("min", a, max(lo)))
            if hi:
                out.append(("max", a, min(hi)))
        for j, (b, _) in enumerate(cols):
            if i == j or (a[0] == "input" and b[0] == "input" and (a[1], b[1]) not in (("high", "low"), ("high", "close"),
                          ("close", "low"), ("high", "open"), ("open", "low"))):
                continue
            ps = [(r[i], r[j]) for r in rows if r[i] is not None and r[j] is not None]
            if len(ps) >= 30 and all(x >= y for x, y in ps):
                out.append(("ge", a, b))
    return out


def literals(A, rel):
    """the relations on the rows this combination reads, as negated strict comparisons"""
    seen = {}
    for a, _ in A.order:
        if a.op in CMP_OPS:
            for x in decide.cells(a.args[0]):
                if x.op == "cell" and x.args[0].op == "col":
                    seen[(x.args[0].args, x.args[1].id)] = x
    out = []
    for kind, k, b in rel:
        for (key, row), x in seen.items():
            if key[0] + "." + str(key[1]) != k[0] + "." + str(k[1]):
                continue
            if kind == "min":
                out.append(compare("ge", x, const(b)))
            elif kind == "max":
                out.append(compare("le", x, const(b)))
            else:
                for (key2, row2), y in seen.items():
                    if row2 == row and key2[0] + "." + str(key2[1]) == b[0] + "." + str(b[1]):
                        out.append(compare("ge", x, y))
    return [l for l in out if l not in (TRUE, FALSE)]


def excluded(A, rel):
    """the combination only occurs where one of the relations fails (all values it compares being real)"""
    extra = literals(A, rel)
    if not extra:
        return False
    B = A.copy()
    real = set()
    for a, v in A.order:
        if v and a.op in CMP_OPS:
            real |= {x.id for x in decide.cells(a.args[0])}
    for l in extra:
        if all(x.id in real for x in decide.cells(l.args[0])):
            B.set(l, True)
    B.extra = None
    return not B.consistent()


def repairer(rel):
    """change a valuation so that the relations hold on every row; False when that fails"""
    if not rel:
        return None

    def fix(v):
        for _ in range(6):
            clean = True
            for kind, a, b in rel:
                xs = v.cols.get(a)
                if xs is None or (kind != "ge" and a[0] == "input"):
                    continue
                if kind in ("min", "max"):
                    for i, x in enumerate(xs):
                        if x == x and (x < b if kind == "min" else x > b):
                            xs[i] = 2.0 * b - x
                            clean = False
                    continue
                ys = v.cols.get(b)
                if ys is None:
                    continue
                for i in range(min(len(xs), len(ys))):
                    if xs[i] < ys[i]:
                        clean = False
                        if a[0] == b[0]:
                            xs[i], ys[i] = ys[i], xs[i]
                        elif a[0] == "ti":
                            xs[i] = ys[i]
                        else:
                            ys[i] = xs[i]
            if clean:
                return True
        return False

    return fix
