"""C19: calculated values follow the documented formula, for every parameter value and row."""
import os
from .common import *
from .signals import required
from .. import fingerprint as fp

STRS = {"d_method": ["simple", "exponential"]}
MA_TYPES = ("simple", "exponential", "time_series", "triangular", "variable")
COMPLETE = (0, 1, 4)          # valuation kinds without missing prices


def variants(cls):
    return [{"ma_type": x} for x in MA_TYPES] if cls == "MovingAverage" else [{}]


def ti_series(r):
    """[(column name, term)] of the calculated frame, or None"""
    td = r.rec.attrs.get("_ti_data")
    if not isinstance(td, FrmV):
        return None
    rec = r.st.heap[td.oid]
    return [(nm, r.st.heap[a].t) for nm, a in rec.cols]


def name_of(nm):
    return nm if isinstance(nm, str) else (pyval(nm) if isinstance(nm, T) and is_const(nm) else show(nm) if isinstance(nm, T) else str(nm))


def spec_series(W, m, r, f):
    """Reference (column, term) pairs on the same leaves; (None, why) when not interpretable."""
    I, st = r.I, r.st.copy()
    st.rel = st.pc0 = st.entry = TRUE
    I.facts_extra = tuple(r.facts)
    I.unknown, I.events, I.hooks = [], [], {}
    inp = I.frame(st, [(x, mk("col", "input", x)) for x in required(r)], IDX_IN, N_IN, order="known", tag=None)
    kw = {p: r.params[p] for p in specs.fn_params(f)[1:] if p in r.params}
    v, ctx = specs.call(I, m, f, [inp], kw, st)
    items = I.concrete_items(v, st)
    if items is None:
        return None, "reference not interpretable: %s" % (I.unknown[:2],)
    out = []
    for it in items:
        nm, s = it.items
        out.append((name_of(nm), st.heap[s.arr].t if isinstance(s, SerV) else None))
    return out, ""


def roundings(t):
    """decimals of the roundings within an expression, sorted"""
    return sorted(str(show(x.args[1])) for x in subterms(t) if x.op == "round")


def grossly(x, y, fine=False):
    """difference beyond rounding ties and floating-point noise (fine: the expressions round at different places)"""
    if x is None:
        x = fp.NANF
    if y is None:
        y = fp.NANF
    try:
        infs = (x in (fp.INF, -fp.INF)) + (y in (fp.INF, -fp.INF))
        if infs == 2:
            return False                       # the sign of a zero denominator is not tracked
        if x != x or y != y:
            return (x != x) != (y != y)
        if infs:
            return True
        if fine == "single":
            return abs(x - y) > 1.5e-4 + 1e-9 * (abs(x) + abs(y))
        if fine:
            return abs(x - y) > 1.5e-4 + 1e-7 * (abs(x) + abs(y))
        return abs(x - y) > 5e-4 + 1e-5 * (abs(x) + abs(y))
    except TypeError:
        return x != y


def in_single(t):
    """some value is converted to single precision"""
    return any(x.op == "astype" and any(a in ("float32", "float16") or isinstance(a, T) and a.op == "str" and
                                        a.args[0] in ("float32", "float16") for a in x.args[1:]) for x in subterms(t))


def confirm(t, t2, facts, count, strs=STRS, kinds=COMPLETE, seed=7):
    """(number of interpretations that differ, first witness, rows compared)"""
    vals = fp.valuations([t, t2], facts, count=count, strs=strs, seed=seed, scale=True)
    vals = [v for i, v in enumerate(vals) if i % 5 in kinds]
    n, first, cmpd, lost = 0, None, 0, 0
    fine = "single" if in_single(t) and not in_single(t2) else roundings(t) != roundings(t2)
    for v in vals:
        ea, eb = fp.Eval(v), fp.Eval(v)
        for row in range(v.ns["in"]):
            try:
                y = eb.at(t2, row if t2.series else None)
            except fp.Undef:
                continue
            try:
                x = ea.at(t, row if t.series else None)
            except fp.Undef:
                lost += 1
                continue
            cmpd += 1
            if grossly(x, y, fine):
                n += 1
                if first is None:
                    first = (v, row, x, y)
                break
    if not n and lost > cmpd:
        raise fp.Unev("no value on %d of %d rows" % (lost, lost + cmpd))
    if not n:
        n, first = deep(t, t2, facts, strs, kinds, seed, fine)
    if not n:
        n, first = far(t, t2, facts, strs, kinds, seed, fine)
    return n, first, cmpd


def deep(t, t2, facts, strs, kinds, seed, fine):
    """histories longer than the rows the expressions look back on, when the usual ones show no difference"""
    k = max(fp.row_needs([t, t2]) or [0])
    if k < 30:
        return 0, None
    vals = fp.valuations([t, t2], facts, count=20, strs=strs, seed=seed, scale=True, rows=[k + 7, k + 22, k + 42])
    for v in [v for i, v in enumerate(vals) if i % 5 in kinds]:
        ea, eb = fp.Eval(v, 6000000), fp.Eval(v, 6000000)
        m = v.ns["in"]
        for row in sorted({0, 1, 2, m - 1} | set(range(k - 4, m, 3))):
            try:
                y = eb.at(t2, row if t2.series else None)
                x = ea.at(t, row if t.series else None)
            except (fp.Undef, fp.Unev, RecursionError):
                continue
            if grossly(x, y, fine):
                return 1, (v, row, x, y)
    return 0, None


def far(t, t2, facts, strs, kinds, seed, fine):
    """long histories, when only one of the expressions asks for a row number or a length beyond the usual ones"""
    ks = sorted(fp.far_rows([t]) ^ fp.far_rows([t2]))[:3]
    if not ks:
        return 0, None
    for v in fp.valuations([t, t2], facts, count=6, strs=strs, seed=seed, scale=True, rows=[k + 25 for k in ks]):
        ea, eb = fp.Eval(v, 6000000), fp.Eval(v, 6000000)
        m = v.ns["in"]
        for row in [x for k in ks for x in range(k - 3, k + 9) if 0 <= x < m] + [m - 1]:
            try:
                y = eb.at(t2, row if t2.series else None)
                x = ea.at(t, row if t.series else None)
            except (fp.Undef, fp.Unev, RecursionError):
                continue
            if grossly(x, y, fine):
                return 1, (v, row, x, y)
    return 0, None


def show_witness(w):
    v, row, x, y = w
    ps = ", ".join("%s=%s" % kv for kv in sorted(v.params.items()))
    return "e.g. row %d of %d%s: %s instead of %s" % (row, v.ns["in"], " with " + ps if ps else "", num(x), num(y))


def num(x):
    return "%.6g" % x if isinstance(x, float) else str(x)


def c19(W, R):
    R.rules.append("Formula equivalence: the value expression extracted from _calculateTi (helpers, loops, nested "
                   "indicators inlined; loops as recurrences; polynomial / comparison / missing-value normal form) is "
                   "the expression extracted from the reference formula in spec/formulas.py. A differing normal form is "
                   "a violation only if value numbering of the two expressions by random interpretation separates them; "
                   "otherwise the column is recorded as agreeing by value numbering.")
    R.assumptions.append("histories are complete (no missing price); missing prices are C16's subject")
    R.assumptions.append("the modelled pandas / numpy operations behave as documented")
    R.rules.append("Input: the values the formula is applied to are the caller's: input validation changes no value that is not "
                   "missing (provenance-labelled frames).")
    from .validation import apply_table
    apply_table(W, R, "C19", "value-changed")
    m = specs.load(W.tree, "formulas")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for c in W.names():
        with R.unit(c):
            f = m.env.get(c)
            if f is None:
                R.skip(c, "no reference formula (indicator added after the formulas were written)")
                continue
            R.count("indicators")
            for va in variants(c):
                r = W.ctor(c, va)
                fn, owner = r.info.find("_calculateTi")
                where = (owner.module.path, fn.fn.lineno, c + "._calculateTi")
                ts = ti_series(r)
                if ts is None:
                    R.skip(c, "calculated frame not modelled")
                    continue
                sp, why = spec_series(W, m, r, f)
                if sp is None:
                    R.skip(c, why)
                    continue
                names, snames = [name_of(nm) for nm, _ in ts], [nm for nm, _ in sp]
                if len(names) != len(snames):
                    R.bad(*where, "formula", "calculates columns %s, documented are %s" % (names, snames))
                    continue
                for (nm, t), (nm2, t2) in zip(ts, sp):
                    R.count("columns")
                    nm = name_of(nm)
                    if nm != nm2 and isinstance(nm, str) and "(" not in nm + nm2 and "'" not in nm + nm2:
                        R.bad(*where, "formula", "calculates column %r, documented is %r" % (nm, nm2))
                        continue
                    if t2 is None:
                        R.skip("%s.%s" % (c, nm), "reference value not modelled")
                        continue
                    if t is t2:
                        R.count("columns with equal normal form")
                        R.sample("%s.%s = %s" % (c, nm, str(show(t))[:160]))
                        continue
                    if t.opq:
                        R.skip("%s.%s" % (c, nm), "expression contains an operation that is not modelled")
                        continue
                    try:
                        n, w, cmpd = confirm(t, t2, r.facts + r.valid, 800 if R.thorough else 240, seed=seed)
                    except fp.Unev as e:
                        R.skip("%s.%s" % (c, nm), "expression not interpretable: %s" % e)
                        continue
                    if n >= 2:
                        R.bad(*where, "formula", "column %r does not follow the documented formula: %s" % (nm, show_witness(w)),
                              key="%s|%s|formula|%s" % (where[0], where[2], nm))
                    else:
                        R.count("columns equal by value numbering")
                        R.sample("%s.%s agrees by value numbering (%d rows)" % (c, nm, cmpd))
