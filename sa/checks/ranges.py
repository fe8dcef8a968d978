"""C24: bounded indicators stay within their documented range and bands stay in order."""
import ast
import os
from .common import *
from .formula import ti_series, name_of, num, COMPLETE
from .. import bounds
from .. import fingerprint as fp

STRS = {"d_method": ["simple", "exponential"]}
PRICES = ("open", "high", "low", "close")


def claims():
    path = os.path.join(specs.HERE, "spec", "ranges.py")
    with open(path, encoding="utf-8") as fh:
        t = ast.parse(fh.read(), path)
    return next(ast.literal_eval(x.value) for x in t.body if isinstance(x, ast.Assign))


def param_facts(r):
    """what the accepted parameters satisfy"""
    out = list(r.facts)
    V = and_(*r.valid, *r.facts)
    for p in r.params.values():
        if not isinstance(p, T) or p.op != "param" or p.args[1] not in ("int", "float"):
            continue
        for op, k in (("lt", ONE), ("le", ZERO)) if p.args[1] == "int" else (("le", ZERO),):
            c = compare(op, p, k)
            if sat(and_(V, c), []) is False:
                out.append(not_(c))
                break
    return out


def unrounded(t):
    return t.args[0] if t.op == "round" else t


def side(x, cols):
    """(term before rounding, term) of one side of a claim"""
    if isinstance(x, (int, float)):
        return const(x), const(x)
    if x.startswith("input."):
        t = mk("col", "input", x[6:])
        return t, t
    t = cols.get(x)
    return (None, None) if t is None else (unrounded(t), t)


def proved(lo, hi, facts, levels):
    P = bounds.Prover(facts, levels)
    if P.holds(sub(hi[0], lo[0])):
        return P
    # a rounded operand of one side that is the other side: rounding keeps the order
    for a, b in ((hi[0], lo[1]), (hi[1], lo[0]), (hi[1], lo[1])):
        P = bounds.Prover(facts, levels)
        if P.holds(sub(a, b)):
            return P
    return None


def consistent(v):
    """0 <= low <= open, close <= high, 0 <= volume, no price missing, on every row"""
    c = {nm: xs for (tb, nm), xs in v.cols.items() if tb == "input"}
    n = v.ns["in"]
    for i in range(n):
        p = {k: c[k][i] for k in PRICES if k in c}
        if any(not x >= 0 for x in p.values()):
            return False
        if "low" in p and "high" in p and not p["low"] <= p["high"]:
            return False
        for k in ("open", "close"):
            if k in p and (("low" in p and p[k] < p["low"]) or ("high" in p and p[k] > p["high"])):
                return False
        if "volume" in c and not c["volume"][i] >= 0:
            return False
    return True


def extreme(v, k):
    """the history with closes at one end of the day, or in one direction"""
    c = {nm: xs for (tb, nm), xs in v.cols.items() if tb == "input"}
    n = v.ns["in"]
    if not all(len(c.get(x, ())) == n for x in PRICES):
        return
    if k in (1, 3):
        c["close"][:], c["open"][:] = list(c["high"]), list(c["low"])
    elif k in (2, 4):
        c["close"][:], c["open"][:] = list(c["low"]), list(c["high"])
    if k in (3, 4, 5, 6):
        o = sorted(range(n), key=lambda i: c["low"][i], reverse=k in (4, 6))
        for nm in PRICES:
            c[nm][:] = [c[nm][i] for i in o]


def broken(lo, hi, facts, count, seed, finite):
    """interpretations of a consistent history for which larger < smaller"""
    ts = [lo[1], hi[1]] + [mk("col", "input", x) for x in PRICES + ("volume",)]
    n, first = 0, None
    for i, v in enumerate(fp.valuations(ts, facts, count=count, strs=STRS, seed=seed, scale=True)):
        if i % 5 not in COMPLETE or not consistent(v):
            continue
        extreme(v, (i // 5) % 7)
        E = fp.Eval(v)
        for row in range(v.ns["in"]):
            try:
                x = E.at(lo[1], row if lo[1].series else None)
                y = E.at(hi[1], row if hi[1].series else None)
            except fp.Undef:
                continue
            if x is None or y is None:
                continue
            try:
                if x != x or y != y or (not finite and (abs(x) == fp.INF or abs(y) == fp.INF)):
                    continue
                if abs(x) == fp.INF or abs(y) == fp.INF:
                    bad = i % 5 == 1              # whole numbers: a denominator of exactly zero
                else:
                    bad = x - y > 2e-3 + 1e-6 * (abs(x) + abs(y))
            except TypeError:
                continue
            if bad:
                n += 1
                if first is None:
                    first = (v, row, x, y)
                break
    return n, first


def c24(W, R):
    R.rules.append("Range proof: for each documented bound or order, larger - smaller >= 0 is deduced from the expressions "
                   "extracted from the source (signs, positive linear operators, quotients, case splits, induction on "
                   "recurrences, linear arithmetic over 0 <= low <= open, close <= high, volume >= 0 and rolling extrema), for "
                   "every row and accepted parameter. A bound that is not deduced is a violation only if value numbering on "
                   "consistent histories yields a value outside it; otherwise it is recorded as undecided.")
    R.assumptions.append("histories are complete and consistent: 0 <= low <= open, close <= high, volume >= 0")
    R.assumptions.append("exact arithmetic; rounding to decimals keeps the order of its operands")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for c, cl in sorted(claims().items()):
        if c not in W.classes:
            R.skip(c, "no such indicator")
            continue
        with R.unit(c):
            R.count("indicators")
            r = W.ctor(c)
            fn, owner = r.info.find("_calculateTi")
            where = (owner.module.path, fn.fn.lineno, c + "._calculateTi")
            ts = ti_series(r)
            if ts is None:
                R.skip(c, "calculated frame not modelled")
                continue
            cols = {name_of(nm): t for nm, t in ts}
            facts = param_facts(r)
            levels = [x for pair in cl for x in pair if isinstance(x, (int, float))]
            twice = {}                       # columns with a lower and an upper bound: never infinite
            for a, b in cl:
                if isinstance(a, (int, float)) or isinstance(b, (int, float)):
                    k = a if isinstance(a, str) else b
                    twice[k] = twice.get(k, 0) + 1
            for a, b in cl:
                R.count("bounds")
                lo, hi = side(a, cols), side(b, cols)
                what = "%s <= %s" % (a, b)
                if lo[0] is None or hi[0] is None:
                    R.skip("%s: %s" % (c, what), "column not calculated")
                    continue
                P = proved(lo, hi, facts, levels)
                if P is not None:
                    R.count("bounds proved")
                    R.sample("%s: %s deduced in %d steps" % (c, what, P.steps))
                    continue
                if lo[1].opq or hi[1].opq:
                    R.skip("%s: %s" % (c, what), "expression contains an operation that is not modelled")
                    continue
                finite = any(twice.get(x) == 2 for x in (a, b))
                try:
                    n, w = broken(lo, hi, r.facts + r.valid, 800 if R.thorough else 240, seed, finite)
                except fp.Unev as e:
                    R.skip("%s: %s" % (c, what), "not deduced; expression not interpretable: %s" % e)
                    continue
                if n >= 2:
                    v, row, x, y = w
                    ps = ", ".join("%s=%s" % kv for kv in sorted(v.params.items()))
                    R.bad(*where, "range", "%s does not hold on consistent prices: e.g. row %d of %d%s: %s against %s"
                          % (what, row, v.ns["in"], " with " + ps if ps else "", num(x), num(y)),
                          key="%s|%s|range|%s" % (where[0], where[2], what))
                else:
                    R.skip("%s: %s" % (c, what), "not deduced; no counterexample among the interpretations tried")
