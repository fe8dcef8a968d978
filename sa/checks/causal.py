"""C06: a value (and the signal of a simulation day) never depends on later rows."""
import os
import random
from .common import *
from .formula import variants, ti_series, name_of, STRS, num, grossly
from .. import fingerprint as fp
from ..values import InstRec

EXEMPT = {"DetrendedPriceOscillator": "documented: the oscillator is a centred average (uses half a period of later rows)",
          "FibonacciRetracement": "documented: retracement levels of the whole period given by the caller"}
EARLIEST = {"ParabolicSAR": 1}      # documented: the initial direction is that of the first two days
NOW = mk("lv", "now")
PURE = {"poly", "row", "param", "lv", "n", "const", "max", "min", "floor", "not", "and", "or", "lt", "le", "gt", "ge",
        "eq", "ite", "bool", "mu"}
ELEM = {"poly", "bigmul", "abs", "max", "min", "floor", "mod", "round", "sqrt", "pow", "lt", "le", "gt", "ge", "eq",
        "and", "or", "not", "isnan", "log", "exp", "sign", "truthy", "seq_eq", "isnone", "fillna", "rowagg", "trunc",
        "isinf", "isfin"}


PRICES = ("open", "high", "low", "close")


class Causal:
    """Proves that term t at row NOW reads input rows <= NOW only."""

    def __init__(self, I, facts, limit, earliest=0):
        self.earliest = const(earliest)
        self.I = I
        self.facts = [compare("ge", NOW, ZERO), compare("lt", NOW, limit)] + list(facts)
        self.obligations = 0
        self.fresh = 0
        self.memo = {}
        self.steps = 0

    def holds(self, g, facts):
        """g follows from the facts (linear-integer domain)"""
        if g is TRUE:
            return True
        self.obligations += 1
        n = plain(self.I, and_(not_(g), *[f for f in facts]))
        if n is FALSE:
            return True
        return sat(n, self.facts + loop_facts(self.I, n, self.facts)) is False

    def new(self):
        self.fresh += 1
        return mk("lv", "j%d" % self.fresh)

    def scalar(self, t, facts, b=NOW):
        return self.ok(t, None, facts, b)

    def nfree(self, t):
        return not any(x.op in ("n", "count") for x in subterms(t))

    def covers(self, hi, facts, n=N_IN):
        """an upper bound that later rows cannot move below the present row"""
        return hi is NONE or self.nfree(hi) or self.holds(compare("ge", hi, n), facts)

    def ok(self, t, r, facts, b):
        """None when proven; otherwise the construct that is not."""
        if not isinstance(t, T):
            return None
        key = (t.id, r.id if r is not None and t.series else 0, tuple(f.id for f in facts), b.id)
        if key in self.memo:
            return self.memo[key]
        self.steps += 1
        if self.steps > 60000:
            return "analysis limit"
        self.memo[key] = None
        x = self.go(t, r, facts, b)
        self.memo[key] = x
        return x

    def all(self, ts, r, facts, b):
        for t in ts:
            x = self.ok(t, r if t.series else None, facts, b)
            if x is not None:
                return x
        return None

    def within(self, t, facts, r, b):
        """row r <= bound"""
        if not self.holds(compare("le", r, b), facts) and not self.holds(compare("le", r, self.earliest), facts):
            return "row %s of %s" % (show(r).replace("ibnow", "i"), str(show(t))[:60])
        return None

    def lits(self, c, r):
        """integer literals of a row condition, at row r"""
        out = []
        if any(x.op == "mu" for x in subterms(c)):
            c = plain(self.I, c)
        for x in lin_conj(c):
            if all(y.op in PURE for y in subterms(x)):
                out.append(subst(x, {ROW: r}) if r is not None else x)
        return out

    def go(self, t, r, facts, b):
        op, a = t.op, t.args
        if op in ("const", "param", "str", "bool", "none", "nan", "inf", "lv", "mu", "row"):
            return None
        if op == "n":
            return "the number of rows"
        if op == "col":
            return self.within(t, facts, r, b)
        if op == "muS":
            return self.within(t, facts, r, b)
        if op == "ite":
            c = a[0]
            lt, lf = self.lits(c, r), self.lits(not_(c), r)
            exact = all(y.op in PURE for y in subterms(c))
            ct = subst(c, {ROW: r}) if exact and r is not None else c
            if exact and c.op in CMP_OPS:
                if self.holds(ct, facts):
                    return self.ok(a[1], r, facts, b)
                if self.holds(not_(ct), facts):
                    return self.ok(a[2], r, facts, b)
            x = self.ok(c, r if c.series else None, facts, b)
            if x is not None:
                return x
            for v, l in ((a[1], lt), (a[2], lf)):
                f = facts + tuple(y for y in l if y not in facts)
                if l and self.holds(FALSE, f):
                    continue
                x = self.ok(v, r if v.series else None, f, b)
                if x is not None:
                    return x
            return None
        if op in ("and", "or"):
            for i, x in enumerate(a):
                f = facts
                for k, y in enumerate(a):       # the other operands settle the value unless they hold (fail)
                    if k != i:
                        f = f + tuple(l for l in self.lits(y if op == "and" else not_(y), r if y.series else None) if l not in f)
                if f is not facts and self.holds(FALSE, f):
                    continue
                bad = self.ok(x, r if x.series else None, f, b)
                if bad is not None:
                    return bad
            return None
        if op in ELEM:
            if op in CMP_OPS and t.args[0].intk and all(y.op in PURE for y in subterms(t)) and r is not None:
                g = subst(t, {ROW: r})
                if self.nfree(g) or self.holds(g, facts) or self.holds(not_(g), facts):
                    return None
                return "the number of rows"
            return self.all(children(t), r, facts, b)
        if op == "shift":
            return self.scalar(a[1], facts, b) or self.ok(a[0], sub(r, a[1]), facts + (compare("ge", sub(r, a[1]), ZERO),), b)
        if op == "place":
            return self.scalar(a[1], facts, b) or self.ok(a[0], sub(r, a[1]), facts + (compare("ge", sub(r, a[1]), ZERO),), b)
        if op == "slice":
            x = self.scalar(a[1], facts, b)
            if x is not None:
                return x
            q = add(r, a[1])
            if a[2] is not NONE:
                x = self.scalar(a[2], facts, b)
                if x is not None and not self.holds(compare("lt", q, a[2]), facts):
                    return x
            return self.ok(a[0], q, facts, b)
        if op in ("roll", "ewm", "cum", "ols", "ffill") or (op == "sfn" and a[0] == "ffill"):
            j = self.new()
            f = facts + (compare("ge", j, ZERO), compare("le", j, r))
            for x in children(t):
                y = self.ok(x, j, f, b) if x.series else self.scalar(x, facts, b)
                if y is not None:
                    return y
            return None
        if op == "opS":
            if a[0] == "constcol":
                return self.scalar(a[1], facts, b)
            if a[0] == "addconst":
                return self.all(children(t), r, facts, b)
            return "operation %s" % a[0]
        if op == "astype":
            if "int" in str(a[1]) and a[2] == "ignore":
                return "the whole column (the conversion takes place only when no row is missing)"
            return self.ok(a[0], r, facts, b)
        if op == "listlit":
            return self.all(children(t), None, facts, b)
        if op == "store":
            x = self.scalar(a[1], facts, b)
            if x is not None:
                return x
            at = compare("eq", a[1], r)
            if at is not FALSE:
                f = facts + (compare("ge", a[1], r), compare("le", a[1], r))
                if not self.holds(FALSE, f):
                    x = self.scalar(a[2], f, b)
                    if x is not None:
                        return x
            return self.ok(a[0], r if a[0].series else None, facts, b)
        if op == "rec":
            return self.rec(t, r, facts, b)
        if op == "seq":
            return self.scalar(subst(a[2], {mk("lv", a[1]): r}), facts, b)
        if op == "cell":
            return self.scalar(a[1], facts, b) or self.ok(a[0], a[1], facts + (compare("ge", a[1], ZERO),), b)
        if op == "aggr":
            n = a[2]
            if len(a) < 3 or not isinstance(n, T):
                return "aggregate %s" % a[0]
            x = self.scalar(n, facts, b)
            if x is not None:
                return x
            j = self.new()
            f = facts + (compare("ge", j, ZERO), compare("lt", j, n))
            return self.ok(a[1], j, f, b)
        if op in ("sumrange", "exists", "search"):
            nm, lo, hi = a[0], a[1], a[2]
            x = self.all([y for y in (lo, hi) if isinstance(y, T)], None, facts, b)
            if x is not None:
                return x
            lv = mk("lv", nm)
            f = facts + (compare("ge", lv, lo), compare("lt", lv, hi))
            return self.all([y for y in a[4:] if isinstance(y, T)], None, f, b)
        if op == "align":
            q = self.target(a[1], a[2], r, facts)
            if q is None:
                return "re-aligned rows"
            for cond, k in q:
                f = facts + tuple(cond)
                if cond and self.holds(FALSE, f):
                    continue
                x = self.ok(a[0], k, f, b)
                if x is not None:
                    return x
            return None
        return "operation %s" % (a[0] if op == "sfn" else op)

    def rec(self, t, r, facts, b):
        """Recurrence: iteration j reads rows <= j only, so that row j of every slot depends on rows <= j."""
        nm, lo, hi, step, defs = t.args
        if step is not ONE:
            return "recurrence step"
        lo_free = self.nfree(lo)
        if not lo_free or not self.covers(hi, facts):
            return "the number of rows (range of a recurrence)"
        x = self.within(t, facts, r, b)
        if x is not None:
            return x
        key = ("rec", t.id)
        if key not in self.memo:
            self.memo[key] = None
            j = mk("lv", nm)
            self.I.loopinfo[nm] = (lo, hi, step, and_(compare("ge", j, lo), compare("lt", j, hi)),
                                   {"#%d" % i: init for i, (v, init) in enumerate(defs)},
                                   {"#%d" % i: v for i, (v, init) in enumerate(defs)},
                                   {"#%d" % i: mk("mu", nm, "#%d" % i) for i in range(len(defs))})
            self.I.__dict__.setdefault("_inv", {}).pop(nm, None)
            f = (compare("ge", j, lo), compare("lt", j, hi), compare("ge", j, ZERO), compare("lt", j, N_IN))
            bad = None
            for i, (v, init) in enumerate(defs):
                bad = bad or self.ok(v, j if v.series else None, f, j)
                if init.series:
                    k = self.new()
                    g = (compare("ge", k, ZERO), compare("lt", k, N_IN))
                    bad = bad or self.ok(init, k, g, k)
                else:
                    bad = bad or self.ok(init, None, f, lo)
            self.memo[key] = bad
        return self.memo[key]

    def target(self, frm, to, r, facts):
        """[(condition, source position)] of row r of the destination axis, or None"""
        def pieces(ix):
            if ix.op == "idx":
                return [(ZERO, None, ZERO, ix)]
            if ix.op == "islice":
                sub_ = pieces(ix.args[0])
                if sub_ is None or len(sub_) != 1:
                    return None
                st, ln, base, root = sub_[0]
                return [(ZERO, None, add(base, ix.args[1]), root)]
            if ix.op == "ilabels":
                out = []
                for i, l in enumerate(ix.args):
                    if l.op != "label" or l.args[0].op != "idx":
                        return None
                    out.append((const(i), ONE, l.args[1], l.args[0]))
                return out
            if ix.op == "iconcat":
                out, off = [], ZERO
                for k, x in enumerate(ix.args):
                    ps = pieces(x)
                    if ps is None:
                        return None
                    for st, ln, base, root in ps:
                        out.append((add(off, st), ln, base, root))
                    if x.op == "ilabels":
                        off = add(off, const(len(x.args)))
                    elif k < len(ix.args) - 1:
                        return None
                return out
            return None
        pf, pt = pieces(frm), pieces(to)
        if pf is None or pt is None or len(pt) != 1:
            return None
        root = pt[0][3]
        q = add(r, pt[0][2])            # row of the root axis
        out = []
        for st, ln, base, rt in pf:
            if rt is not root:
                return None
            pos = add(st, sub(q, base))
            if ln is ONE:
                out.append(((compare("ge", q, base), compare("le", q, base)), pos))
            else:
                out.append(((compare("ge", q, base),), pos))
        return out


def later(v, i, rnd, facts, n_max=16):
    """Another history that agrees with valuation v on rows 0..i."""
    for _ in range(12):
        n = rnd.randint(i + 1, max(i + 1, v.ns["in"] + 4))
        ns = dict(v.ns)
        ns["in"] = n
        pool = [c for c in v.cols.values()]
        cols = {}
        flat = [None if not pool or not pool[0] or rnd.random() < 0.6 else rnd.choice(pool[0]) if rnd.random() < 0.5
                else float("nan") for _ in range(n)]      # later rows: ordinary, one price only, or missing
        for k, c in v.cols.items():
            tail = []
            for _j in range(i + 1, n):
                if flat[_j] is not None and k[1] in PRICES:
                    tail.append(flat[_j])
                    continue
                x = rnd.choice(c) if c else 1.0
                if x == x and x is not None:
                    x = x * rnd.choice([0.5, 0.8, 1.0, 1.3, 2.0])
                tail.append(x)
            cols[k] = list(c[:i + 1]) + tail
        w = fp.Val(ns, cols, dict(v.params))
        e = fp.Eval(w)
        try:
            if all(e.truth(f) for f in facts):
                return w
        except (fp.Undef, fp.Unev):
            continue
    return None


def separate(t, facts, count, seed, early=0):
    """(number of histories with equal rows <= i and different value at row i, first witness, compared)"""
    rnd = random.Random(seed)
    vals = fp.valuations([t], facts, count=count, strs=STRS, seed=seed, scale=True)
    hits, first, cmpd = 0, None, 0
    for v in vals:
        n = v.ns["in"]
        if n < 2:
            continue
        i = rnd.randrange(early, n) if n > early else n - 1
        w = later(v, i, rnd, facts)
        if w is None:
            continue
        ea, eb = fp.Eval(v), fp.Eval(w)
        for row in range(i, -1, -1):
            try:
                x, y = ea.at(t, row if t.series else None), eb.at(t, row if t.series else None)
            except fp.Undef:
                continue
            cmpd += 1
            if grossly(x, y):
                hits += 1
                first = first or (v, w, row, i, x, y)
                break
    return hits, first, cmpd


def c06(W, R):
    R.rules.append("Row-dependency analysis: every value expression extracted from _calculateTi, taken at a row i, reads rows "
                   "<= i only (windows, recurrences and loops by induction over the row; index obligations in the "
                   "linear-integer domain); the number of rows never enters a value. An expression the analysis does not "
                   "prove is a violation only if value numbering separates two histories that agree up to row i.")
    R.rules.append("Signal inputs: getTiSignal reads the row-dependent state only through _input_data and _ti_data, the two "
                   "frames a simulation cuts to the day.")
    R.assumptions.append("leading rows filled on request (fill_missing_values) are the documented exception: the analysis "
                         "starts at the validated input")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for c in W.names():
        with R.unit(c):
            for va in variants(c):
                r = W.ctor(c, va)
                fn, owner = r.info.find("_calculateTi")
                where = (owner.module.path, fn.fn.lineno, c + "._calculateTi")
                if c in EXEMPT:
                    R.count("documented exceptions")
                    continue
                R.count("calculations")
                ts = ti_series(r)
                if ts is None:
                    R.skip(c, "calculated frame not modelled")
                    continue
                rec = r.st.heap[r.rec.attrs["_ti_data"].oid]
                for nm, t in ts:
                    nm = name_of(nm)
                    R.count("columns")
                    if t.opq:
                        R.skip("%s.%s" % (c, nm), "expression contains an operation that is not modelled")
                        continue
                    C = Causal(r.I, r.facts, rec.n if isinstance(rec.n, T) else N_IN, EARLIEST.get(c, 0))
                    why = C.ok(t, NOW if t.series else None, (), NOW)
                    R.count("index obligations", C.obligations)
                    if why is None:
                        R.count("columns proven")
                        R.sample("%s.%s: %d index obligations" % (c, nm, C.obligations))
                        continue
                    try:
                        n, w, cmpd = separate(t, r.facts + r.valid, 600 if R.thorough else 250, seed, EARLIEST.get(c, 0))
                    except fp.Unev as e:
                        R.skip("%s.%s" % (c, nm), "not proven (%s) and not interpretable: %s" % (why, e))
                        continue
                    if n >= 2:
                        v, w2, row, i, x, y = w
                        R.bad(*where, "no-look-ahead", "column %r reads %s: the value of row %d is %s or %s depending on rows "
                              "after row %d" % (nm, why, row, num(x), num(y), i),
                              key="%s|%s|no-look-ahead|%s" % (where[0], where[2], nm))
                    else:
                        R.skip("%s.%s" % (c, nm), "not proven (%s); not separated by %d histories" % (why, cmpd))
            signal_state(W, R, c)


def signal_state(W, R, c):
    """Signals use only the two frames that a simulation cuts."""
    r = W.ctor(c, variants(c)[0])
    R.count("signal methods")
    st = r.st
    stale = {}
    for k, v in r.rec.attrs.items():
        if k in ("_input_data", "_ti_data"):
            continue
        if row_dependent(v, st, 0):
            stale[k] = mk("opq", "stale", k)
    R.count("attributes inspected", len(r.rec.attrs))
    if not stale:
        return
    ru = W.fresh(c, variants(c)[0])
    rec = ru.st.heap[ru.inst.oid]
    at = dict(rec.attrs)
    at.update(stale)
    ru.st.heap[ru.inst.oid] = InstRec(rec.cls, at, rec.tag, rec.sub, rec.gone)
    ru.rec = ru.st.heap[ru.inst.oid]
    leaf_frames(ru)
    q = run_method(ru, "getTiSignal", facts=sig_facts(ru))
    used = set()
    for g, leaf in leaf_pairs(q.value):
        for x in [g] + ([leaf] if isinstance(leaf, T) else list(leaf.items) if isinstance(leaf, TupV) else []):
            if isinstance(x, T):
                used |= {y.args[1] for y in subterms(x) if y.op == "opq" and y.args[0] == "stale"}
    fn, owner = r.info.find("getTiSignal")
    for k in sorted(used):
        R.bad(owner.module.path, fn.fn.lineno, c + ".getTiSignal", "no-look-ahead",
              "reads attribute %r, which depends on rows a simulation does not cut away" % k)


def row_dependent(v, st, d):
    if d > 6:
        return False
    if isinstance(v, T):
        return any(x.op in ("col", "n", "cell", "label", "idx", "count") for x in subterms(v))
    if isinstance(v, (SerV, FrmV)):
        return True
    if isinstance(v, (TupV,)):
        return any(row_dependent(x, st, d + 1) for x in v.items)
    if isinstance(v, ChoiceV):
        return row_dependent(v.a, st, d + 1) or row_dependent(v.b, st, d + 1) or row_dependent(v.c, st, d + 1)
    if isinstance(v, RefV):
        rec = st.heap.get(v.oid)
        if getattr(rec, "t", None) is not None:
            return True
        items = getattr(rec, "items", None)
        if isinstance(items, dict):
            items = list(items.values())
        if items is None:
            return False
        out = []
        for x in items:
            out += list(x) if isinstance(x, tuple) else [x]
        return any(row_dependent(x, st, d + 1) for x in out)
    return False
