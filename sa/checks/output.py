"""C11: output columns, row index and rounding."""
from .common import *
from .domain import load_spec
from .formula import ti_series, name_of, STRS, COMPLETE
from .. import fingerprint as fp

TRANSPARENT = ("align", "shift", "astype", "mask", "copy")
ARITH = ("poly", "bigmul", "col", "cell", "ewm", "roll", "cum", "abs", "max", "min", "sqrt", "pow", "aggr", "rowagg",
         "fillna", "param", "ols", "sumrange")


def rounding(t, digits, facts=(), guard=TRUE):
    """True: every value is rounded to `digits`; a string: it is not, why; None: not decided"""
    if t.op == "round":
        d = t.args[1]
        if isinstance(d, T) and d.op == "ite":
            rs = []
            for g, x in leaf_pairs(d):
                s = sat(and_(guard, g), facts)
                if s is False:
                    continue
                rs.append(rounding(mk("round", t.args[0], x), digits) if s is True and is_num(x) else
                          True if is_num(x) and pyval(x) == digits else None)
            return join(rs)
        if not isinstance(d, T) or not is_num(d):
            return None
        d = pyval(d)
        if isinstance(t.args[0], T) and single(t.args[0]):
            return "held in single precision, which has no %s decimals" % digits
        return True if d == digits else "rounded to %s decimals, not %s" % (d, digits)
    if t.op in ("nan", "none"):
        return True
    if t.op == "const":
        return True if abs(float(t.args[0]) * 10 ** digits - round(float(t.args[0]) * 10 ** digits)) < 1e-9 else \
            "the constant %s has more than %s decimals" % (show(t), digits)
    if t.opq:
        return None
    if t.op == "ite":
        rs = []
        for c, x in ((t.args[0], t.args[1]), (not_(t.args[0]), t.args[2])):
            g = and_(guard, c) if not c.series else guard
            if g is FALSE or not c.series and sat(g, facts) is False:
                continue
            rs.append(rounding(x, digits, facts, g))
        return join(rs)
    if t.op in ("align", "shift") and isinstance(t.args[0], T):
        return rounding(t.args[0], digits, facts, guard)
    if t.op in ARITH and not t.boolk:
        if t.op == "poly" and t.intk:
            return True
        if any(x.op in ("floor", "ceil", "toint", "mod", "round", "trunc") for x in subterms(t)):
            return None
        return "the value %s is not rounded" % show(t)[:80]
    return None


def single(t):
    """values in single precision (or less)"""
    if t.op in ("align", "shift", "abs") and isinstance(t.args[0], T):
        return single(t.args[0])
    if t.op == "ite":
        a, b = t.args[1:]
        return single(a) and (b.op == "nan" or single(b)) or a.op == "nan" and single(b)
    if t.op == "rec" and len(t.args[4]) == 1:
        return single(t.args[4][0][0])
    if t.op != "astype":
        return False
    d = t.args[1].args[0] if isinstance(t.args[1], T) and t.args[1].op == "str" else t.args[1]
    return d in ("float32", "float16")


def row_counts(n, terms, facts):
    """interpretations (complete histories) under which a frame has another number of rows than the input"""
    bad, first = 0, None
    for i, v in enumerate(fp.valuations([n] + terms, facts, count=60, strs=STRS, seed=5, scale=True)):
        if i % 5 not in COMPLETE:
            continue
        try:
            k = fp.Eval(v).int(n)
        except (fp.Undef, fp.Unev, RecursionError):
            continue
        if k != v.ns["in"]:
            bad, first = bad + 1, first or (k, v.ns["in"])
    return first if bad >= 3 else None


def numbered_rounding(t, digits, facts, count=150):
    """rounding decided by value numbering: interpretations that give another number of decimals, or more decimals"""
    digs = []

    def top(x):
        if x.op == "round":
            if not is_num(x.args[1]):
                digs.append(x.args[1])
        elif x.op == "ite":
            top(x.args[1])
            top(x.args[2])
        elif x.op in ("align", "shift") and isinstance(x.args[0], T):
            top(x.args[0])
    top(t)
    other, more, first = 0, 0, None
    for i, v in enumerate(fp.valuations([t], facts, count=count, strs=STRS, seed=9, scale=True)):
        if i % 5 not in COMPLETE:
            continue
        E = fp.Eval(v)
        o = m = None
        for row in range(v.ns["in"]):
            try:
                x = E.at(t, row if t.series else None)
                if isinstance(x, (int, float)) and x == x and abs(x) < 1e9 and abs(x * 10 ** digits - round(x * 10 ** digits)) > 1e-3:
                    m = m or (v, row, "%r has more than %s decimals" % (x, digits))
                for d in digs:
                    y = E.at(d, row if d.series else None)
                    if isinstance(y, (int, float)) and y == y and y != digits:
                        o = o or (v, row, "rounded to %d decimals, not %s" % (y, digits))
            except fp.Undef:
                continue
        other, more = other + (o is not None), more + (m is not None)
        first = first or o or m
    if other >= 2 or more >= 2:
        return "%s (row %d of %d)" % (first[2], first[1], first[0].ns["in"])
    return None


def join(rs):
    for r in rs:
        if isinstance(r, str):
            return r
    return None if None in rs else True


def expected_names(cols, r):
    out = []
    for c in cols:
        for p, t in r.params.items():
            if isinstance(t, T) and t.op == "str":
                c = c.replace("{%s}" % p, t.args[0])
        out.append(c)
    return out


def c11(W, R):
    R.rules.append("Frame typestate: the frame stored as the calculated data has exactly the documented column labels in order, "
                   "the row index of the sorted input (or its documented prefix), and the last operation on every cell is "
                   "rounding to the documented number of decimals (missing values and selections between rounded values "
                   "aside). getTiData hands out that frame.")
    O = load_spec("outputs")
    for c in W.names():
        with R.unit(c):
            for va in O.VARIANTS.get(c, [{}]):
                r = W.ctor(c, va)
                fn, owner = r.info.find("_calculateTi")
                where = (owner.module.path, fn.fn.lineno, c + "._calculateTi")
                R.count("frames")
                td = r.rec.attrs.get("_ti_data")
                if isinstance(td, T) and td.op == "none":
                    R.bad(*where, "output-frame", "the calculated data is nothing")
                    continue
                if isinstance(td, SerV):
                    R.bad(*where, "output-frame", "the calculated data is a series, not a frame")
                    continue
                if not isinstance(td, FrmV):
                    R.skip(c, "calculated frame not modelled")
                    continue
                fr = r.st.heap[td.oid]
                want = O.COLUMNS.get(c)
                names = [name_of(nm) for nm, a in fr.cols]
                if want is None:
                    R.skip(c, "no documented columns")
                else:
                    want = expected_names(want, r)
                    R.count("columns", len(names))
                    if names != want:
                        if any("(" in str(n) or "'" in str(n) for n in names):
                            R.skip(c, "column labels not constant: %s" % names)
                        else:
                            R.bad(*where, "output-columns", "columns are %s, documented are %s" % (names, want))
                # rows
                idx, n = fr.idx, fr.n
                if c == "DetrendedPriceOscillator":
                    cut = sub(sub(N_IN, ONE), drive_floor_half(r))
                    ok = idx.op == "islice" and idx.args[0] is IDX_IN and idx.args[1] is ZERO and n is cut
                    if not ok:
                        if idx.opq or n.opq:
                            R.skip(c, "row index not modelled")
                        elif sat(and_(not_(compare("eq", n, cut)), compare("ge", N_IN, r.params["period"])), r.facts) is not False:
                            if sat(compare("eq", n, cut), r.facts) is not None:
                                R.bad(*where, "output-index", "has %s rows, documented are %s" % (show(n), show(cut)))
                            else:
                                R.skip(c, "row count %s not decided" % show(n))
                        elif not (idx.op == "islice" and idx.args[0] is IDX_IN and idx.args[1] is ZERO):
                            R.skip(c, "row index %s not decided" % show(idx))
                elif idx is not IDX_IN or n is not N_IN:
                    if idx.opq:
                        R.skip(c, "row index not modelled: %s" % show(idx)[:80])
                    elif n is not N_IN and not n.opq and sat(not_(compare("eq", n, N_IN)), r.facts) is True:
                        R.bad(*where, "output-index", "has %s rows for %s input rows" % (show(n), show(N_IN)))
                    elif idx.op in ("range", "irange", "rangeindex"):
                        R.bad(*where, "output-index", "rows are numbered instead of dated")
                    elif not n.opq and row_counts(n, [t for _, t in ti_series(r) or []], r.facts + r.valid):
                        R.bad(*where, "output-index", "has e.g. %d rows for %d input rows" %
                              row_counts(n, [t for _, t in ti_series(r) or []], r.facts + r.valid))
                    else:
                        R.skip(c, "row index %s not decided" % show(idx)[:80])
                # rounding
                d = O.DIGITS.get(c, 4)
                for nm, a in fr.cols:
                    t = r.st.heap[a].t
                    if d is None:
                        ok = True
                        if t.op == "round" and is_num(t.args[1]) and pyval(t.args[1]) != 0:
                            ok = "rounded to %s decimals; documented are whole or unrounded numbers" % show(t.args[1])
                    else:
                        ok = rounding(t, d, r.facts)
                    R.count("values")
                    if isinstance(ok, str):
                        R.bad(*where, "output-rounding", "column %r: %s" % (name_of(nm), ok))
                        continue
                    if ok is None and not t.opq:
                        try:
                            ok = numbered_rounding(t, d, r.facts + r.valid)
                        except fp.Unev:
                            pass
                        if isinstance(ok, str):
                            R.bad(*where, "output-rounding", "column %r: %s" % (name_of(nm), ok))
                            continue
                    if ok is None:
                        R.skip(c, "rounding of %s not decided: %s" % (name_of(nm), show(t)[:100]))
                R.sample("%s: %s rounded to %s" % (c, names, d))
    with R.unit("input rows"):
        from .validation import apply_table
        R.rules.append("Row typestate of input validation: on every abstract frame the validated frame has one row per row "
                       "of the caller's frame, in date order.")
        apply_table(W, R, "C11", "output-index")
    for c in W.names():
        with R.unit(c):
            r, _ = W.signal(c)
            q = run_method(r, "getTiData")
            f, owner = r.info.find("getTiData")
            R.count("getTiData results")
            v = q.value
            td = r.rec.attrs.get("_ti_data")
            if isinstance(v, FrmV) and isinstance(td, FrmV):
                a, b = q.st.heap[v.oid], r.st.heap[td.oid]
                if [(name_of(n), q.st.heap[x].t.id) for n, x in a.cols] != [(name_of(n), r.st.heap[x].t.id) for n, x in b.cols] \
                        or a.idx is not b.idx:
                    if any(q.st.heap[x].t.opq for n, x in a.cols):
                        R.skip(c, "getTiData result not modelled")
                    else:
                        R.bad(owner.module.path, f.fn.lineno, c + ".getTiData", "output-frame", "does not give the calculated data")
            elif isinstance(v, T) and v.op in ("none", "str", "const") or isinstance(v, (SerV, TupV)):
                R.bad(owner.module.path, f.fn.lineno, c + ".getTiData", "output-frame", "does not give the calculated data")
            else:
                R.skip(c, "getTiData result not modelled")


def drive_floor_half(r):
    p = r.params["period"]
    return floor_(mul(const(0.5), p))
