"""C18: signals do not depend on the currency or volume unit (dimensional homogeneity)."""
import os
from fractions import Fraction as F
from .common import *
from .formula import variants, ti_series, name_of, STRS
from .. import numbering, fingerprint as fp

PRICES = ("open", "high", "low", "close")
# quantities whose documented formula mixes a price with a pure number: their unit is left open
OPEN = {"StandardDeviation": "documented rule compares the deviation with a fixed number",
        "RangeIndicator": "documented formula chooses between a ratio and a price range",
        "SwingIndex": "documented formula uses a fixed limit move and clips at +-100"}
NONE_ = (F(0), F(0))
ANY = "any"            # zero or missing: every unit


class Mixed(Exception):
    """units do not agree"""


class NotKnown(Exception):
    pass


def missing(t, known):
    """t is a quantity for which neither x > c nor x <= c holds"""
    no = {}
    for c, v in known.items():
        if v is FALSE and c.op in ("gt", "ge", "lt", "le"):
            no.setdefault((c.args[0].id, c.args[1]), set()).add(c.op[0])
    for (i, c), ops in no.items():
        if ops == {"g", "l"}:
            for k, v in known.items():
                if k.op in CMP_OPS and k.args[0].id == i:
                    L = k.args[0]
                    p, q = compare("gt", t, ZERO), compare("gt", L, ZERO)
                    if p is q or compare("lt", t, ZERO) is q:
                        return True
    return False


EW = ("ite", "poly", "and", "or", "not", "abs") + tuple(CMP_OPS)


def inner_ite(t):
    """an element-wise conditional of t whose condition has none"""
    if t.op not in EW:
        return None
    for x in children(t):
        y = inner_ite(x)
        if y is not None:
            return y
    return t if t.op == "ite" else None


class Units:
    """Degree (price, volume) of every term; raises Mixed with the offending construct."""

    def __init__(self, cols):
        self.cols = cols            # (table, column) -> degree
        self.memo = {}
        self.slots = {}
        self.terms = 0

    def same(self, t, a, b):
        if a is ANY:
            return b
        if b is ANY or a == b:
            return a
        raise Mixed(t, a, b)

    def deg(self, t):
        if t.id in self.memo:
            x = self.memo[t.id]
            if isinstance(x, Exception):
                raise x
            return x
        self.terms += 1
        loopy = bool(fp.free(t))
        try:
            x = self.go(t)
        except (Mixed, NotKnown) as e:
            x = None
            if isinstance(e, Mixed) and (t.op in ("and", "or", "not") or t.op == "ite" and is_boolish(t)):
                x = self.irrelevant(t, e.args[0])
            if x is None:
                if not loopy:
                    self.memo[t.id] = e
                raise
        if not loopy:
            self.memo[t.id] = x
        return x

    def irrelevant(self, t, m):
        """t decided without its mixed comparison m (implied or excluded by the other conditions)"""
        if t.series or m.op not in CMP_OPS or not any(x is m for x in subterms(t)):
            return None
        for val in (FALSE, TRUE):
            t2 = subst(t, {m: val})
            diffs, und, n = decide.compare_trees(mk("ite", t, ONE, ZERO) if not is_const(t) else t,
                                                 mk("ite", t2, ONE, ZERO) if not is_const(t2) else (ONE if t2 is TRUE else ZERO),
                                                 lambda a, b, A: a is b, [])
            if not diffs and not und:
                return self.deg(t2)
        return None

    def flat(self, t):
        """must be a pure number"""
        d = self.deg(t)
        if d is not ANY and d != NONE_:
            raise Mixed(t, d, NONE_)
        return NONE_

    def branches(self, t, known, depth=0):
        """join of the reachable, not necessarily missing cases of an element-wise expression"""
        y = inner_ite(t)
        if y is None or depth > 8:
            return ANY if missing(t, known) else self.deg(t) if y is None else self.join(t, t.args[1:])
        c = subst(y.args[0], known) if known else y.args[0]
        yes, no = subst(t, {y: y.args[1]}), subst(t, {y: y.args[2]})
        if c is TRUE:
            return self.branches(yes, known, depth + 1)
        if c is FALSE:
            return self.branches(no, known, depth + 1)
        self.deg(c)
        k, v = (c, TRUE) if c.op != "not" else (c.args[0], FALSE)
        d = self.branches(yes, {**known, k: v}, depth + 1)
        return self.same(t, d, self.branches(no, {**known, k: FALSE if v is TRUE else TRUE}, depth + 1))

    def mono(self, m):
        p, v = F(0), F(0)
        for a, e in m:
            d = self.deg(a)
            if d is ANY:
                return ANY
            p, v = p + d[0] * e, v + d[1] * e
        return (p, v)

    def join(self, t, ts):
        d = ANY
        for x in ts:
            d = self.same(t, d, self.deg(x))
        return d

    def go(self, t):
        op, a = t.op, t.args
        if op == "const":
            return ANY if a[0] == 0 else NONE_
        if op in ("nan", "none", "inf"):
            return ANY
        if op in ("str", "bool", "n", "param", "lv", "row", "idx", "label", "count"):
            return NONE_
        if op == "col":
            if (a[0], a[1]) in self.cols:
                d = self.cols[(a[0], a[1])]
                if d is None:
                    raise NotKnown("unit of %s" % (a[1],))
                return d
            raise NotKnown("unit of column %s" % (a[1],))
        if op == "poly":
            d = ANY
            for m, c in a:
                d = self.same(t, d, self.mono(m))
            return d
        if op == "bigmul":
            x, y = self.deg(a[0]), self.deg(a[1])
            return ANY if ANY in (x, y) else (x[0] + y[0], x[1] + y[1])
        if op in CMP_OPS:
            d = self.deg(a[0])
            if a[1] != 0 and d is not ANY and d != NONE_:
                raise Mixed(t, d, NONE_)
            return NONE_
        if op == "seq_eq":
            self.join(t, a)
            return NONE_
        if op in ("and", "or", "not", "isnan", "truthy", "isnone", "sign", "isinf", "isfin"):
            for x in a:
                self.deg(x)
            return NONE_
        if op == "ite":
            try:
                self.deg(a[0])
                return self.join(t, a[1:])
            except Mixed:
                return self.branches(t, {})
        if op in ("abs", "round", "astype", "trunc", "ffill", "bfill"):
            return self.deg(a[0])
        if op == "sfn":
            for x in a[2:]:
                if isinstance(x, T) and x.op not in ("str", "none"):
                    self.flat(x)
            d = self.deg(a[1])
            if a[0] == "rank":
                return NONE_
            return self.agg(a[4].args[0], d) if a[0] == "rollc" else d
        if op in ("max", "min", "fillna", "listlit"):
            return self.join(t, [x for x in a if isinstance(x, T)])
        if op == "rowagg":
            d = self.join(t, [x for x in a[2:] if isinstance(x, T)])
            return self.agg(a[0], d)
        if op == "sqrt":
            d = self.deg(a[0])
            return d if d is ANY else (d[0] / 2, d[1] / 2)
        if op == "pow":
            d, e = self.deg(a[0]), a[1]
            self.flat(e)
            if is_num(e) and d is not ANY:
                return (d[0] * num(e), d[1] * num(e))
            if d is ANY or d == NONE_:
                return d
            raise Mixed(t, d, NONE_)
        if op in ("log", "exp", "floor", "mod"):
            for x in a:
                self.flat(x)
            return NONE_
        if op == "opE":
            for x in a[1:]:
                if isinstance(x, T):
                    self.flat(x)
            return NONE_
        if op in ("shift", "place", "slice"):
            return self.deg(a[0])
        if op == "roll":
            return self.agg(a[3][4:] if a[3].startswith("win-") else a[3], self.deg(a[0]))
        if op == "ewm":
            self.flat(a[1])
            return self.deg(a[0])
        if op == "cum":
            k = a[0][1:] if a[0].startswith("x") else a[0]
            return self.agg(k, self.deg(a[1]))
        if op == "ols":
            y, x = self.deg(a[0]), self.deg(a[1])
            if a[4] != 1:
                return y
            return ANY if y is ANY else y if x is ANY else (y[0] - x[0], y[1] - x[1])
        if op == "opS":
            return self.join(t, [x for x in a[1:] if isinstance(x, T) and x.op != "str"]) if a[0] in (
                "constcol", "reverse", "list", "addconst") and a[0] != "reverse" else self.deg(a[1])
        if op == "store":
            return self.same(t, self.deg(a[0]), self.deg(a[2]))
        if op == "cell":
            return self.deg(a[0])
        if op == "align":
            return self.deg(a[0])
        if op == "filter":
            self.deg(a[1])
            return self.deg(a[0])
        if op == "aggr":
            if a[0] in ("lastpos", "firstpos"):
                self.deg(a[1])
                return NONE_
            return self.agg(a[0].partition("_")[0], self.deg(a[1]))
        if op == "psum":
            self.deg(a[1])
            return self.deg(a[0])
        if op == "seq":
            return self.deg(a[2])
        if op == "sumrange":
            return self.deg(a[4])
        if op == "exists":
            self.deg(a[4])
            return NONE_
        if op == "search":
            self.deg(a[4])
            return self.same(t, self.deg(a[5]), self.deg(a[6]))
        if op in ("mu", "muS"):
            d = self.slots.get((a[0], a[1]))
            if d is None:
                raise NotKnown("loop state")
            return d
        if op in ("rec", "loopX", "loopS"):
            nm, defs = a[0], a[-1]
            k = 0 if op == "rec" else a[1]
            return self.state(t, nm, defs)[k]
        raise NotKnown("operation %s" % op)

    def state(self, t, nm, defs):
        key = ("state", nm, tuple((v.id, i.id) for v, i in defs))
        if key in self.memo:
            return self.memo[key]
        ds = [self.deg(i) for _, i in defs]
        for _ in range(len(defs) + 2):
            for i, d in enumerate(ds):
                self.slots[(nm, "#%d" % i)] = d
            new = [self.same(v, d, self.deg(v)) for d, (v, _) in zip(ds, defs)]
            if new == ds:
                break
            ds = new
        for i in range(len(ds)):
            self.slots.pop((nm, "#%d" % i), None)
        self.memo[key] = ds
        return ds

    def agg(self, kind, d):
        if kind.startswith("quantile:"):
            return d
        if kind in ("count", "argmin", "argmax", "all", "any"):
            return NONE_
        if kind in ("var0", "var1"):
            return d if d is ANY else (2 * d[0], 2 * d[1])
        if kind == "prod":
            if d is not ANY and d != NONE_:
                raise NotKnown("product")
            return d
        if kind in ("sum", "mean", "max", "min", "median", "first", "last", "std0", "std1"):
            return d
        raise NotKnown("aggregate %s" % kind)


def unit(d):
    if d is ANY:
        return "any unit"
    out = []
    for n, e in (("price", d[0]), ("volume", d[1])):
        if e:
            out.append(n + ("" if e == 1 else "^%s" % e))
    return "*".join(out) or "a pure number"


def input_cols():
    d = {("input", c): (F(1), F(0)) for c in PRICES}
    d[("input", "volume")] = (F(0), F(1))
    return d


def unround(t):
    m = {}
    while True:
        x = next((y for y in subterms(t) if y.op == "round"), None)
        if x is None:
            return t
        t = subst(t, {x: x.args[0]})


def scaled(v, kind, k):
    cols = {}
    for (tb, c), xs in v.cols.items():
        f = k if tb == "input" and ((c == "volume") == (kind == "volume")) else 1
        cols[(tb, c)] = [x * f for x in xs]
    return fp.Val(v.ns, cols, v.params)


def separate(tree, facts, count, seed):
    """interpretations whose outcome changes with the unit"""
    vals = fp.valuations(numbering.tree_terms(tree) + [mk("col", "input", "close")], facts, count=count, strs=STRS, seed=seed)
    n, hits, first = 0, 0, None
    scales = [("price", 1024.0), ("price", 1 / 1024.0), ("volume", 4096.0), ("volume", 1 / 4096.0)]
    if any(c < 1e-4 or c > 1e4 for c in fp.levels(numbering.tree_terms(tree), 1e-13)):
        scales += [(kind, k) for kind in ("price", "volume") for k in (2.0 ** 30, 2.0 ** -30, 2.0 ** 16, 2.0 ** -16)]
    for i, v in enumerate(vals):
        try:
            a = numbering.resolve(tree, fp.Eval(v))
        except fp.Undef:
            continue
        for kind, k in scales:
            try:
                b = numbering.resolve(tree, fp.Eval(scaled(v, kind, k)))
            except fp.Undef:
                continue
            n += 1
            if pair_of(a) is not None and pair_of(b) is not None and pair_of(a) != pair_of(b):
                hits += 1
                first = first or (v, kind, k, a, b)
    return hits, first, n


def c18(W, R):
    R.rules.append("Dimension inference: every column has a unit price^a * volume^b (integers and rationals; zero and missing "
                   "fit every unit); sums, comparisons, extrema, branches and loop states must agree in unit; a comparison "
                   "with a number other than 0 needs a pure number. Rounding is transparent (documented). A signal condition "
                   "whose unit is not consistent is a violation only if value numbering separates the signal of a history "
                   "from the signal of the rescaled history.")
    R.assumptions.append("up to the documented rounding of calculated values")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for c in W.names():
        with R.unit(c):
            for va in variants(c):
                r = W.ctor(c, va)
                ts = ti_series(r)
                if ts is None:
                    R.skip(c, "calculated frame not modelled")
                    continue
                ts = [(name_of(nm), t) for nm, t in ts]
                keys = [nm if isinstance(nm, (str, int)) else show(nm) for nm, _ in ts]
                U = Units(input_cols())
                cols, why = {}, {}
                for nm, t in ts:
                    R.count("value columns")
                    try:
                        d = U.deg(t)
                        cols[("ti", nm)] = d
                        R.count("value columns with a unit")
                        R.sample("%s.%s: %s" % (c, nm, unit(d)))
                    except Mixed as e:
                        cols[("ti", nm)] = None
                        why[nm] = "%s + %s in %s" % (unit(e.args[1]), unit(e.args[2]), str(show(e.args[0]))[:120])
                    except NotKnown as e:
                        cols[("ti", nm)] = None
                        why[nm] = str(e)
                r2, q = W.signal_of(r)
                fn, owner = r.info.find("getTiSignal")
                where = (owner.module.path, fn.fn.lineno, c + ".getTiSignal")
                R.count("signal methods")
                if c in OPEN:
                    R.count("units left open (documented)")
                V = Units({**input_cols(), **cols})
                bad = None
                for g in numbering.tree_terms(q.value):
                    for x in subterms(g):
                        if x.op not in CMP_OPS and x.op != "seq_eq":
                            continue
                        if fp.free(x):
                            continue
                        R.count("signal comparisons")
                        try:
                            V.deg(x)
                        except Mixed as e:
                            bad = bad or "%s with %s in %s" % (unit(e.args[1]), unit(e.args[2]), str(show(x))[:160])
                        except NotKnown as e:
                            if c in OPEN and all(y.op != "col" or y.args[0] == "ti" for y in subterms(x)):
                                R.count("comparisons of an open unit")
                                continue
                            bad = bad or "%s (%s)" % (e, "; ".join("%s: %s" % kv for kv in why.items()))
                    if not any(x.op in CMP_OPS for x in subterms(g)):
                        try:
                            V.deg(g)
                        except (Mixed, NotKnown) as e:
                            bad = bad or str(e)
                if bad is None:
                    R.count("signal methods proven")
                    continue
                if c in OPEN:
                    R.skip(c, "open unit: %s" % bad)
                    continue
                # substitute the calculated columns and compare signals of rescaled histories
                if not getattr(r2, "same_axis", True):
                    R.skip(c, "not proven: %s" % bad)
                    continue
                m = {mk("col", "ti", nm): unround(t) for nm, t in ts}
                try:
                    hits, w, n = separate(subst_tree(q.value, m), r.facts + r.valid, 400 if R.thorough else 150, seed)
                except fp.Unev as e:
                    R.skip(c, "not proven (%s) and not interpretable: %s" % (bad, e))
                    continue
                if hits >= 2:
                    v, kind, k, a, b = w
                    R.bad(*where, "unit-independence", "the signal mixes %s: %s becomes %s when every %s is multiplied by %g (%d rows)"
                          % (bad, pair_of(a), pair_of(b), kind, k, v.ns["in"]))
                else:
                    R.skip(c, "not proven: %s; not separated by %d interpretations" % (bad, n))


def subst_tree(tree, m):
    if isinstance(tree, ChoiceV):
        return ChoiceV(subst(tree.c, m), subst_tree(tree.a, m), subst_tree(tree.b, m))
    if isinstance(tree, list):
        return [(subst(g, m), subst_tree(s, m)) for g, s in tree]
    if isinstance(tree, T) and tree.op == "ite" and not tree.series:
        return mk("ite", subst(tree.args[0], m), subst_tree(tree.args[1], m), subst_tree(tree.args[2], m))
    return tree
