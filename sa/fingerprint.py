"""Value numbering of terms by random interpretation (Gulwani & Necula).

The value-flow terms extracted from the source are given meaning over a family
of random valuations of their leaves (column cells, row counts, parameters).
Two terms with the same fingerprint get the same value number.  This is used in
one direction only: a difference between two normal forms is not reported when
the value numbers do not confirm it.  The program itself is never executed.
"""
import math
from fractions import Fraction
import random
import struct
from .terms import *
from .terms import _as_poly

TOL = 1e-9
NANF = float("nan")
INF = float("inf")


class Unev(Exception):
    """The term contains an operation without an interpretation."""


class Undef(Exception):
    """The valuation does not determine the value (inf arithmetic and the like)."""


class Ambig(Undef):
    """some number, infinite or missing: the normal form does not tell which"""


def isn(v):
    return isinstance(v, float) and v != v


class Val:
    """One valuation: row counts, columns, parameters."""

    def __init__(self, ns, cols, params):
        self.ns, self.cols, self.params = ns, cols, params


_free = {}


def free(t):
    """names of free loop binders of a term"""
    r = _free.get(t.id)
    if r is not None:
        return r
    out = set()
    op, a = t.op, t.args
    if op in ("lv", "mu", "muS"):
        out.add(a[0])
    else:
        for c in children(t):
            out |= free(c)
        if op in ("rec", "search", "exists", "sumrange", "loopX", "loopS"):
            # bounds are outside the binder, but never mention it
            out.discard(a[0])
        elif op == "seq":
            out.discard(a[1])
    r = frozenset(out)
    _free[t.id] = r
    return r


SPREAD = ("roll", "shift", "place", "slice", "cell")
_regrouped = {}


def quotient(x):
    """the operand of a linear operation has a denominator"""
    return any(e < 0 for m, _ in (x.args if x.op == "poly" else ()) for _, e in m)


def regroup(t):
    """the normal form spreads linear operations over sums: a quotient whose denominator is zero needs its numerator whole"""
    r = _regrouped.get(t.id)
    if r is not None:
        return r
    groups, rest = {}, []
    for m, c in t.args:
        lin = [(a, e) for a, e in m if e == 1 and a.op in SPREAD and isinstance(a.args[0], T) and quotient(a.args[0])
               and (a.op != "roll" or a.args[3] == "sum")]
        if len(lin) != 1:
            rest.append((m, c))
            continue
        a = lin[0][0]
        others = tuple((b, e) for b, e in m if b is not a)
        groups.setdefault((a.op, a.args[1:], others), []).append((c, a.args[0]))
    out = list(rest)
    for (op, params, others), xs in groups.items():
        x = xs[0][1]
        if len(xs) > 1:
            k = xs[0][0]
            x = ZERO
            for c, y in xs:
                x = add(x, mul(const(Fraction(c) / Fraction(k)), y))
            if x.op != "poly":
                k, x = None, None
        else:
            k = xs[0][0]
        if k is None:
            out += [(others + ((mk(op, y, *params), 1),), c) for c, y in xs]
        else:
            out.append((others + ((mk(op, x, *params), 1),), k))
    r = tuple(out) if len(out) < len(t.args) else t.args
    _regrouped[t.id] = r
    return r


class Eval:
    def __init__(self, val, budget=400000):
        self.v = val
        self.memo = {}
        self.env = {}
        self.steps = 0
        self.budget = budget

    # ------------------------------------------------------------- memoised
    def key(self, t, r):
        f = free(t)
        if not f:
            return (t.id, r)
        ks = []
        for b in sorted(f):
            e = self.env.get(b)
            if e is None:
                raise Unev("unbound %s" % b)
            if len(e) > 1 and e[1] is not None:
                return None          # depends on loop state
            ks.append((b, e[0]))
        return (t.id, r, tuple(ks))

    def at(self, t, r):
        """value of t at row r (scalars ignore r)"""
        if not t.series:
            r = None
        k = self.key(t, r)
        if k is not None:
            x = self.memo.get(k)
            if x is not None:
                if isinstance(x, Exception):
                    raise x
                return x[0]
        self.steps += 1
        if self.steps > self.budget:
            raise Unev("budget")
        try:
            x = self.go(t, r)
            if isinstance(x, float) and x == x and abs(x) > 1e200 and not math.isinf(x):
                raise Undef("huge")
        except (Unev, Undef) as e:
            if k is not None and str(e) != "budget":
                self.memo[k] = e
            raise
        except OverflowError:
            raise Undef("overflow")
        if k is not None:
            self.memo[k] = (x,)
        return x

    def ev(self, t):
        if t.series:
            raise Unev("series as scalar %s" % t.op)
        return self.at(t, None)

    def num(self, t, r=None):
        v = self.at(t, r)
        if isinstance(v, bool):
            return 1.0 if v else 0.0
        if v is None:
            return NANF
        if isinstance(v, (str, tuple)):
            raise Undef("not a number")
        return v

    def int(self, t, r=None):
        v = self.num(t, r)
        if v != v or math.isinf(v):
            raise Undef("not an integer")
        return int(round(v))

    def truth(self, t, r=None):
        v = self.at(t, r)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, str):
            return bool(v)
        raise Undef("truth")

    # ------------------------------------------------------------- lengths
    def length(self, t):
        op, a = t.op, t.args
        if not t.series:
            return None
        if op == "col":
            return self.v.ns[self.table_n(a[0])]
        if op == "slice":
            lo = self.int(a[1])
            L = self.length(a[0])
            if a[2] is not NONE:
                h = self.int(a[2])
                L = h if L is None else min(h, L)
            return None if L is None else max(0, L - lo)
        if op == "place":
            L = self.length(a[0])
            return None if L is None else L + self.int(a[1])
        if op == "filter":
            return len(self.hits(a[1]))
        if op == "sfn":
            return self.length(a[1])
        if op in ("shift", "roll", "ewm", "store", "opS", "fillna", "ffill", "bfill", "round", "astype", "abs", "cum",
                  "sqrt", "ols", "trunc"):
            for x in children(t):
                L = self.length(x)
                if L is not None:
                    return L
            return None
        if op == "cum":
            return self.length(a[1])
        if op == "rec":
            for v, i in a[4]:
                L = self.length(i)
                if L is not None:
                    return L
            return self.int(a[2])
        if op == "align":
            return len(self.labels(a[2]))
        if op == "index":
            return len(self.labels(a[0]))
        if op in ("muS", "seq", "row"):
            return None
        for x in children(t):
            if x.series:
                L = self.length(x)
                if L is not None:
                    return L
        return None

    def table_n(self, tab):
        return "ti" if tab == "ti" and "ti" in self.v.ns else "in"

    def hits(self, m):
        k = ("hits", m.id) if not free(m) else None
        if k is not None and k in self.memo:
            return self.memo[k]
        L = self.length(m)
        if L is None:
            raise Unev("mask length")
        out = [i for i in range(L) if self.truth(m, i)]
        if k is not None:
            self.memo[k] = out
        return out

    # --------------------------------------------------------------- labels
    def labels(self, t):
        op, a = t.op, t.args
        if op == "idx":
            n = self.v.ns["ti" if a[0] == "ti" and "ti" in self.v.ns else "in"]
            return list(range(n))
        if op == "islice":
            b = self.labels(a[0])
            lo = self.int(a[1])
            hi = None if a[2] is NONE else self.int(a[2])
            return b[lo:hi]
        if op == "ilabels":
            return [self.ev(x)[1] for x in a]
        if op == "iconcat":
            return [y for x in a for y in self.labels(x)]
        if op == "ifilter":
            b = self.labels(a[0])
            return [b[i] for i in self.hits(a[1])]
        raise Unev("index %s" % op)

    # ------------------------------------------------------------ arithmetic
    def poly(self, t, r):
        tot, inf, und = 0.0, None, None
        nan = 0
        over = {}                  # zero denominators: their numerators
        for m, c in regroup(t):
            x = float(c)
            den = 1.0
            zero = []
            for a, e in m:
                try:
                    v = self.num(a, r if a.series else None)
                except Ambig as amb:
                    und = amb            # decided only by a missing factor or summand
                    continue
                if abs(v) < 1e-11 and e < 0:
                    zero.append((a.id, e))
                    continue
                if e > 0:
                    x *= v ** e
                else:
                    den *= v ** (-e)
            if x != x or den != den:
                nan |= 1
                continue
            if math.isinf(x) and math.isinf(den):
                nan |= 2
                continue
            x = x / den
            if zero:
                over.setdefault(tuple(zero), []).append(x)
            elif math.isinf(x):
                if inf is not None and inf != x:
                    und = Ambig("inf-inf")
                inf = x
            else:
                tot += x
        if nan & 1:
            return NANF
        for xs in over.values():
            if any(math.isinf(x) for x in xs):
                und = Ambig("inf/0")
                continue
            x = math.fsum(xs)
            if abs(x) <= 1e-11 + 1e-12 * max(abs(y) for y in xs):
                nan |= 4                 # 0/0, whatever is added to it
            else:
                x = math.copysign(math.inf, x)
                if inf is not None and inf != x:
                    und = Ambig("inf-inf")
                inf = x
        if und is not None:
            raise und
        if nan & 4:
            return NANF
        if nan & 2:
            if inf is not None or len(t.args) > 1:
                raise Ambig("0/0")
            return NANF
        return inf if inf is not None else tot

    def scale_of(self, t, r):
        s = 1e-6
        if t.op != "poly":
            try:
                return abs(self.num(t, r)) + s
            except (Undef, Unev):
                return 1.0
        for m, c in t.args:
            x = abs(float(c))
            for a, e in m:
                v = abs(self.num(a, r if a.series else None))
                try:
                    x *= v ** e
                except ZeroDivisionError:
                    x = 0
            if x == x and not math.isinf(x):
                s += x
        return s

    def dates(self, t, r):
        """comparison of two dates of ascending axes: by their positions; None for other comparisons"""
        L, c = t.args
        if L.op != "poly" or not any(a.op in ("index", "label") for m, _ in L.args for a, e in m):
            return None
        if len(L.args) != 2 or c != 0:
            raise Unev("date arithmetic")
        d = 0
        for m, k in L.args:
            if len(m) != 1 or m[0][1] != 1 or abs(k) != 1 or m[0][0].op not in ("index", "label"):
                raise Unev("date arithmetic")
            a = m[0][0]
            x = self.at(a, r if a.series else None)
            d += int(k) * x[1]
        return {"lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0, "eq": d == 0}[t.op]

    def op_index(self, t, a, r):
        ls = self.labels(a[0])
        if not 0 <= r < len(ls):
            raise Undef("index")
        return ("lab", ls[r])

    def cmp(self, t, r):
        L, c = t.args
        d = self.dates(t, r)
        if d is not None:
            return d
        v = self.num(L, r)
        if v != v:
            return False
        c = float(c)
        if math.isinf(v):
            d = v
        else:
            d = v - c
            if abs(d) <= TOL * (self.scale_of(L, r) + abs(c)):
                d = 0.0
        return {"lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0, "eq": d == 0}[t.op]

    # ---------------------------------------------------------------- windows
    def window(self, t, r, w):
        return [self.num(t, i) for i in range(max(0, r - w + 1), r + 1)]

    def agg(self, kind, xs, win=None):
        if any(math.isinf(x) for x in xs):
            raise Undef("inf window")
        if kind == "sum":
            return math.fsum(xs)
        if kind == "count":
            return float(len(xs))
        if kind in ("all", "any"):
            return (all if kind == "all" else any)(x != 0 for x in xs)
        if not xs:
            return NANF
        if kind == "mean":
            return math.fsum(xs) / len(xs)
        if kind == "max":
            return max(xs)
        if kind == "min":
            return min(xs)
        if kind == "median":
            s = sorted(xs)
            n = len(s)
            return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
        if kind.startswith("quantile:"):
            s = sorted(xs)
            q = float(Fraction(kind[9:])) * (len(s) - 1)
            i = int(math.floor(q + 1e-12))
            return s[i] if i + 1 >= len(s) else s[i] + (s[i + 1] - s[i]) * (q - i)
        if kind in ("var0", "var1"):
            d = int(kind[3])
            if len(xs) - d <= 0:
                return NANF
            m = math.fsum(xs) / len(xs)
            v = math.fsum((x - m) ** 2 for x in xs) / (len(xs) - d)
            return v if v > 1e-12 * (1 + m * m) else 0.0
        raise Unev("aggregate %s" % kind)

    def roll(self, t, r):
        x, w, mp, kind = t.args[:4]
        w = self.int(w)
        mp = w if mp is NONE else self.int(mp)
        if w < 1 or w > 4000:
            raise Undef("window")
        xs = self.window(x, r, w)
        ok = [v for v in xs if v == v]
        if kind.startswith("win-"):
            if len(ok) < max(mp, 1) or len(xs) < w:
                return NANF
            win = self.at(t.args[4], None)
            if win == "triang":
                ws = [((2 * k) / (w + 1) if w % 2 else (2 * k - 1) / w) for k in range(1, (w + 1) // 2 + 1)]
                ws = ws + (ws[-2::-1] if w % 2 else ws[::-1])
            elif win == "exponential":
                ws = [math.exp(-abs(k - (w - 1) / 2)) for k in range(w)]
            elif win is None:
                ws = [1.0] * w
            else:
                raise Unev("window type")
            s = math.fsum(a * b for a, b in zip(ws, xs) if b == b)
            if kind == "win-sum":
                return s
            if kind == "win-mean":
                return s / math.fsum(a for a, b in zip(ws, xs) if b == b)
            raise Unev(kind)
        if kind == "count":
            return float(len(ok)) if len(xs) >= mp else NANF
        if len(ok) < mp or (not ok and kind != "sum"):
            return NANF
        return self.agg(kind, ok)

    def ewm(self, t, r):
        x, al, mp, adj = t.args[:4]
        k = ("ewm", t.id, tuple(sorted((b, self.env[b][0]) for b in free(t)))) if all(
            len(self.env[b]) == 1 or self.env[b][1] is None for b in free(t)) else None
        st = self.memo.get(k) if k else None
        if st is None:
            al = self.num(al)
            adjust = self.truth(adj)
            st = dict(out=[], w=None, ig=len(t.args) > 4 and self.truth(t.args[4]), old=1.0, nobs=0, al=al, adj=adjust,
                      mp=1 if mp is NONE else max(1, self.int(mp)))
            if not (0 < al <= 1):
                raise Undef("alpha")
            if k:
                self.memo[k] = st
        while len(st["out"]) <= r:
            i = len(st["out"])
            cur = self.num(x, i)
            if math.isinf(cur):
                raise Undef("inf")
            obs = cur == cur
            st["nobs"] += obs
            if st["w"] is None:
                if obs:
                    st["w"] = cur
            else:
                if obs or not st["ig"]:
                    st["old"] *= 1 - st["al"]
                if obs:
                    new = 1.0 if st["adj"] else st["al"]
                    st["w"] = (st["old"] * st["w"] + new * cur) / (st["old"] + new)
                    st["old"] = st["old"] + new if st["adj"] else 1.0
            st["out"].append(st["w"] if st["nobs"] >= st["mp"] and st["w"] is not None else NANF)
        return st["out"][r]

    def recurrence(self, t):
        nm, lo, hi, step, defs = t.args
        k = ("rec", t.id) if not free(t) else None
        if k is not None and k in self.memo:
            x = self.memo[k]
            if isinstance(x, Exception):
                raise x
            return x
        try:
            lo, hi, step = self.int(lo), self.int(hi), self.int(step)
            arrs = {}       # slot -> overlay dict (series) ; scalars -> value
            scal = {}
            for i, (v, init) in enumerate(defs):
                if self.is_arr(t, i, init):
                    arrs["#%d" % i] = ({}, init)
                else:
                    scal["#%d" % i] = self.at(init, None)
            saved = self.env.get(nm)
            try:
                for x in range(lo, hi, step):
                    self.env[nm] = (x, (arrs, scal))
                    new = {}
                    for i, (v, init) in enumerate(defs):
                        if v.series and "#%d" % i in scal:
                            raise Unev("series state")
                        new["#%d" % i] = self.at(v, x if v.series else None)
                    for s, val in new.items():
                        if s in arrs:
                            arrs[s][0][x] = val
                        else:
                            scal[s] = val
            finally:
                if saved is None:
                    self.env.pop(nm, None)
                else:
                    self.env[nm] = saved
        except (Unev, Undef) as e:
            if k is not None:
                self.memo[k] = e
            raise
        if k is not None:
            self.memo[k] = arrs
        return arrs

    def is_arr(self, t, i, init):
        if i == 0:
            return True
        nm = t.args[0]
        for v, _ in t.args[4]:
            for x in subterms(v):
                if x.op == "muS" and x.args[0] == nm and x.args[1] == "#%d" % i:
                    return True
        return False

    def loop_state(self, t):
        nm, idx, lo, hi, step, defs = t.args
        k = ("loop", nm, lo.id, hi.id, tuple((v.id, i.id) for v, i in defs)) if not free(t) else None
        if k is not None and k in self.memo:
            return self.memo[k]
        lo, hi, step = self.int(lo), self.int(hi), self.int(step)
        isarr = {}
        for i in range(len(defs)):
            isarr["#%d" % i] = any(x.op == "muS" and x.args[0] == nm and x.args[1] == "#%d" % i
                                   for v, _ in defs for x in subterms(v)) or defs[i][1].series or defs[i][0].op == "store"
        arrs = {s: ({}, defs[int(s[1:])][1]) for s, f in isarr.items() if f}
        scal = {s: self.at(defs[int(s[1:])][1], None) for s, f in isarr.items() if not f}
        saved = self.env.get(nm)
        try:
            for x in range(lo, hi, step):
                self.env[nm] = (x, (arrs, scal))
                na, ns = {}, {}
                for i, (v, init) in enumerate(defs):
                    s = "#%d" % i
                    if s in arrs:
                        na[s] = (self.overlay(v, nm, s, arrs), arrs[s][1])
                    else:
                        ns[s] = self.at(v, None)
                arrs = {**arrs, **na}
                scal = {**scal, **ns}
        finally:
            if saved is None:
                self.env.pop(nm, None)
            else:
                self.env[nm] = saved
        if k is not None:
            self.memo[k] = (arrs, scal)
        return arrs, scal

    def overlay(self, v, nm, s, arrs):
        if v.op == "muS" and v.args[0] == nm and v.args[1] == s:
            return dict(arrs[s][0])
        if v.op == "store":
            d = self.overlay(v.args[0], nm, s, arrs)
            d[self.int(v.args[1])] = self.at(v.args[2], None)
            return d
        if v.op == "ite" and not v.args[0].series:
            return self.overlay(v.args[1] if self.truth(v.args[0]) else v.args[2], nm, s, arrs)
        raise Unev("array update %s" % v.op)

    def arr_at(self, ov, r):
        d, init = ov
        if r in d:
            return d[r]
        if r < 0:
            return NANF
        return self.at(init, r)

    def bound(self, t, default, f):
        """iterate a binder; f returns (stop, value)"""
        nm, lo, hi, step = t.args[:4]
        lo, hi, step = self.int(lo), self.int(hi), self.int(step)
        saved = self.env.get(nm)
        try:
            for x in range(lo, hi, step):
                self.env[nm] = (x, None)
                stop, v = f()
                if stop:
                    return v
            return default()
        finally:
            if saved is None:
                self.env.pop(nm, None)
            else:
                self.env[nm] = saved

    # -------------------------------------------------------------- dispatch
    def go(self, t, r):
        op, a = t.op, t.args
        h = getattr(self, "op_" + op, None)
        if h is None:
            raise Unev(op)
        return h(t, a, r)

    def op_opI(self, t, a, r):
        if a[0] == "nuniq":            # a history may name a date twice
            n = self.num(a[1], r)
            return n - 1 if n > 2 else n
        raise Unev("opI " + str(a[0]))

    def op_const(self, t, a, r):
        return float(a[0])

    def op_str(self, t, a, r):
        return a[0]

    op_bool = op_str

    def op_none(self, t, a, r):
        return None

    def op_nan(self, t, a, r):
        return NANF

    def op_inf(self, t, a, r):
        return math.inf if a[0] > 0 else -math.inf

    def op_n(self, t, a, r):
        n = self.v.ns.get(a[0])
        if n is None:
            raise Unev("n_%s" % a[0])
        return float(n)

    def op_param(self, t, a, r):
        if a[0] not in self.v.params:
            raise Unev("parameter %s" % a[0])
        return self.v.params[a[0]]

    def op_row(self, t, a, r):
        return float(r)

    def op_lv(self, t, a, r):
        return float(self.env[a[0]][0])

    def op_mu(self, t, a, r):
        s = self.env[a[0]][1]
        if s is None:
            raise Unev("mu")
        return s[1][a[1]]

    def op_muS(self, t, a, r):
        s = self.env[a[0]][1]
        if s is None:
            raise Unev("muS")
        if a[1] in s[0]:
            return self.arr_at(s[0][a[1]], r)
        raise Unev("muS")

    def op_col(self, t, a, r):
        c = self.v.cols.get((a[0], a[1]))
        if c is None:
            raise Unev("column %s.%s" % (a[0], a[1]))
        if r < 0 or r >= len(c):
            return NANF
        return c[r]

    def op_cell(self, t, a, r):
        i = self.int(a[1])
        return self.at(a[0], i) if i >= 0 else NANF

    def op_poly(self, t, a, r):
        return self.poly(t, r)

    def op_bigmul(self, t, a, r):
        return self.num(a[0], r) * self.num(a[1], r)

    def op_lt(self, t, a, r):
        return self.cmp(t, r)

    op_le = op_gt = op_ge = op_eq = op_lt

    def op_and(self, t, a, r):
        return self.junction(a, r, False)

    def op_or(self, t, a, r):
        return self.junction(a, r, True)

    def junction(self, a, r, dominant):
        """an operand that cannot be evaluated does not matter when another one decides"""
        und = None
        for x in a:
            try:
                if bool(self.truth(x, r if x.series else None)) is dominant:
                    return dominant
            except Undef as e:
                und = und or e
        if und is not None:
            raise und
        return not dominant

    def op_not(self, t, a, r):
        return not self.truth(a[0], r)

    def op_truthy(self, t, a, r):
        return self.truth(a[0], r)

    def op_ite(self, t, a, r):
        x = a[1] if self.truth(a[0], r if a[0].series else None) else a[2]
        return self.at(x, r if x.series else None)

    def op_isnan(self, t, a, r):
        v = self.at(a[0], r)
        return v is None or isn(v)

    def op_isnone(self, t, a, r):
        return self.at(a[0], r) is None

    def op_isinf(self, t, a, r):
        v = self.num(a[0], r)
        return math.isinf(v)

    def op_isfin(self, t, a, r):
        v = self.num(a[0], r)
        return v == v and not math.isinf(v)

    def op_seq_eq(self, t, a, r):
        x, y = (self.at(b, r if b.series else None) for b in a)
        if isn(x) or isn(y):
            return False
        if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool):
            return abs(x - y) <= TOL * (1 + abs(x))
        return x == y and type(x) is type(y)

    def op_shift(self, t, a, r):
        i = r - self.int(a[1])
        if i < 0:
            return NANF
        L = None
        if self.int(a[1]) < 0:
            L = self.length(a[0])
            if L is None:
                raise Unev("length")
            if i >= L:
                return NANF
        return self.at(a[0], i)

    def op_place(self, t, a, r):
        i = r - self.int(a[1])
        return self.at(a[0], i) if i >= 0 else NANF

    def op_slice(self, t, a, r):
        i = r + self.int(a[1])
        if r < 0 or i < 0 or (a[2] is not NONE and i >= self.int(a[2])):
            return NANF
        return self.at(a[0], i)

    def op_store(self, t, a, r):
        if self.int(a[1]) == r:
            return self.at(a[2], None)
        return self.at(a[0], r if a[0].series else None)

    def op_roll(self, t, a, r):
        return self.roll(t, r)

    def op_ewm(self, t, a, r):
        return self.ewm(t, r)

    def op_cum(self, t, a, r):
        kind = a[0]
        if kind.startswith("x"):
            mp = 1 if a[2] is NONE else self.int(a[2])
            xs = [v for v in (self.num(a[1], i) for i in range(r + 1)) if v == v]
            return self.agg(kind[1:], xs) if len(xs) >= mp and xs else NANF
        v = self.num(a[1], r)
        if v != v:
            return NANF
        xs = [v for v in (self.num(a[1], i) for i in range(r + 1)) if v == v]
        if kind == "prod":
            p = 1.0
            for x in xs:
                p *= x
            return p
        return self.agg(kind, xs)

    def op_rowagg(self, t, a, r):
        kind, skip = a[0], a[1]
        xs = [self.num(x, r if x.series else None) for x in a[2:]]
        sk = skip if isinstance(skip, bool) else (self.truth(skip) if isinstance(skip, T) else bool(skip))
        ok = [x for x in xs if x == x]
        if (not sk and len(ok) < len(xs)) or not ok:
            return NANF
        return self.agg(kind, ok)

    def op_aggr(self, t, a, r):
        kind, x = a[0], a[1]
        if kind in ("lastpos", "firstpos"):
            h = self.hits(x)
            if not h:
                raise Undef("no position")
            return float(h[-1] if kind == "lastpos" else h[0])
        n = self.int(a[2])
        xs = [self.num(x, i) for i in range(n)]
        ok = [v for v in xs if v == v]
        base, _, suf = kind.partition("_")
        if kind in ("argmin", "argmax"):
            if not ok:
                raise Undef("all missing")
            m = min(ok) if kind == "argmin" else max(ok)
            return float(next(i for i, v in enumerate(xs) if v == v and abs(v - m) <= 1e-12 * (1 + abs(m))))
        if suf in ("np", "py"):
            if len(ok) < len(xs):
                if suf == "py":
                    raise Undef("order dependent")
                return NANF
            if not xs and base in ("max", "min"):
                raise Undef("empty")
            return self.agg(base, xs)
        if not ok and base in ("max", "min", "mean", "median"):
            return NANF
        return self.agg(base, ok)

    def op_psum(self, t, a, r):
        xs = [self.num(a[0], i) for i in self.hits(a[1])]
        if any(x != x for x in xs):
            raise Undef("psum")
        return math.fsum(xs)

    def op_count(self, t, a, r):
        return float(len(self.hits(a[0])))

    def op_filter(self, t, a, r):
        h = self.hits(a[1])
        if r < 0 or r >= len(h):
            return NANF
        return self.at(a[0], h[r])

    def op_posof(self, t, a, r):
        h = self.hits(a[0])
        if r < 0 or r >= len(h):
            raise Undef("posof")
        return float(h[r])

    def op_label(self, t, a, r):
        ls = self.labels(a[0])
        i = self.int(a[1])
        if not 0 <= i < len(ls):
            raise Undef("label")
        return ("lab", ls[i])

    def op_align(self, t, a, r):
        k = ("align", t.id)
        m = self.memo.get(k)
        if m is None:
            m = {}
            for i, l in enumerate(self.labels(a[1])):
                m[l] = i
            self.memo[k] = m
            self.memo[("alignt", t.id)] = self.labels(a[2])
        ls = self.memo[("alignt", t.id)]
        if not 0 <= r < len(ls):
            return NANF
        i = m.get(ls[r])
        return NANF if i is None else self.at(a[0], i)

    def op_fillna(self, t, a, r):
        v = self.num(a[0], r if a[0].series else None)
        return self.at(a[1], r if a[1].series else None) if v != v else v

    def op_astype(self, t, a, r):
        dt = a[1].args[0] if isinstance(a[1], T) and a[1].op == "str" else (a[1] if isinstance(a[1], str) else None)
        v = self.num(a[0], r if a[0].series else None)
        if dt is None:
            raise Unev("astype")
        if dt == "float32" and v == v and not math.isinf(v) and abs(v) < 3e38:
            return struct.unpack("f", struct.pack("f", v))[0]
        if dt.startswith("float"):
            return v
        if not dt.startswith("int"):
            raise Unev("astype")
        if a[0].series and len(a) > 2 and a[2] == "raise":
            if v != v or math.isinf(v):
                return v                       # a row outside the converted ones (shifted in)
        elif a[0].series:
            L = self.length(a[0])
            if L is None:
                raise Unev("length")
            for i in range(L):
                x = self.num(a[0], i)
                if x != x or math.isinf(x):
                    return v
        elif v != v:
            raise Undef("astype")
        return float(math.trunc(v + math.copysign(1e-9, v)))

    def op_round(self, t, a, r):
        v = self.num(a[0], r if a[0].series else None)
        n = 0 if a[1] is NONE else self.int(a[1])
        if v != v or math.isinf(v):
            return v
        s = abs(v) * 10 ** n
        if s > 1e13:
            return v
        return math.floor(v * 10.0 ** n + 0.5 + 1e-7) / 10.0 ** n

    def op_abs(self, t, a, r):
        return abs(self.num(a[0], r))

    def op_sqrt(self, t, a, r):
        v = self.num(a[0], r)
        if v != v or v < -1e-9:
            return NANF
        return math.sqrt(max(v, 0.0))

    def op_log(self, t, a, r):
        v = self.num(a[0], r)
        if v != v or v < 0:
            return NANF
        return math.log(v) if v > 0 else -math.inf

    def op_exp(self, t, a, r):
        return math.exp(self.num(a[0], r))

    def op_pow(self, t, a, r):
        x, y = self.num(a[0], r), self.num(a[1], r)
        try:
            z = x ** y
        except (ZeroDivisionError, OverflowError):
            raise Undef("pow")
        if isinstance(z, complex):
            return NANF
        return z

    def op_sign(self, t, a, r):
        v = self.num(a[0], r)
        return v if v != v else float((v > 1e-12) - (v < -1e-12))

    def op_floor(self, t, a, r):
        v = self.num(a[0], r)
        if v != v or math.isinf(v):
            raise Undef("floor")
        return float(math.floor(v + 1e-9))

    def op_trunc(self, t, a, r):
        v = self.num(a[0], r)
        if v != v or math.isinf(v):
            return v
        return float(math.trunc(v + math.copysign(1e-9, v)))

    def op_mod(self, t, a, r):
        x, y = self.num(a[0], r), self.num(a[1], r)
        if y == 0 or x != x or y != y:
            raise Undef("mod")
        return x % y

    def _mm(self, t, a, r, f):
        xs = [self.num(x, r if x.series else None) for x in a]
        if any(x != x for x in xs):
            raise Undef("max of missing")
        return f(xs)

    def op_max(self, t, a, r):
        return self._mm(t, a, r, max)

    def op_min(self, t, a, r):
        return self._mm(t, a, r, min)

    def op_opS(self, t, a, r):
        k = a[0]
        if k == "constcol":
            return self.at(a[1], None)
        if k == "reverse":
            return self.at(a[1], self.int(a[2]) - 1 - r)
        if k == "list":
            return self.at(a[1 + r], r) if 0 <= r < len(a) - 1 else NANF
        raise Unev("opS " + str(k))

    def column(self, x):
        L = self.length(x)
        if L is None:
            raise Unev("length")
        return [self.num(x, i) for i in range(L)]

    def op_ffill(self, t, a, r):
        if not a[0].series:
            return self.at(a[0], None)
        for i in range(r, -1, -1):
            v = self.num(a[0], i)
            if v == v:
                return v
        return NANF

    def op_bfill(self, t, a, r):
        if not a[0].series:
            return self.at(a[0], None)
        L = self.length(a[0])
        if L is None:
            raise Unev("length")
        for i in range(max(r, 0), L):
            v = self.num(a[0], i)
            if v == v:
                return v
        return NANF

    def op_sfn(self, t, a, r):
        """operations on whole columns, as the libraries document them"""
        k = ("sfn", t.id, tuple(sorted((b, self.env[b][0]) for b in free(t)))) if all(
            len(self.env[b]) == 1 or self.env[b][1] is None for b in free(t)) else None
        xs = self.memo.get(k) if k else None
        if xs is None:
            xs = self.sfn(a[0], self.column(a[1]), a[2:])
            if k:
                self.memo[k] = xs
        return xs[r] if 0 <= r < len(xs) else NANF

    def sfn(self, name, xs, o):
        n = len(xs)
        ok = [i for i in range(n) if xs[i] == xs[i]]
        if any(math.isinf(x) for x in xs):
            raise Undef("inf")
        if name in ("ffill", "bfill"):
            lim = self.int(o[0])
            out = list(xs)
            rng = range(n) if name == "ffill" else range(n - 1, -1, -1)
            last, run = NANF, 0
            for i in rng:
                if xs[i] == xs[i]:
                    last, run = xs[i], 0
                else:
                    run += 1
                    out[i] = last if run <= lim else NANF
            return out
        if name == "interp":
            out = list(xs)
            lim = n if o[0] is NONE else self.int(o[0])
            area = None if o[1] is NONE else o[1].args[0]
            for p, q in zip(ok, ok[1:]):
                for i in range(p + 1, min(q, p + 1 + lim)):
                    if area != "outside":
                        out[i] = xs[p] + (xs[q] - xs[p]) * (i - p) / (q - p)
            if ok and area != "inside":
                for i in range(ok[-1] + 1, min(n, ok[-1] + 1 + lim)):
                    out[i] = xs[ok[-1]]
            return out
        if name == "rank":
            return [NANF if x != x else sum(xs[i] < x for i in ok) + (sum(xs[i] == x for i in ok) + 1) / 2 for x in xs]
        if name == "rollc":
            w, mp, kind = self.int(o[0]), self.int(o[1]), o[2].args[0]
            if w < 1:
                raise Undef("window")
            off = (w - 1) // 2
            out = []
            for r in range(n):
                ys = [v for v in xs[max(0, r - w + 1 + off):r + off + 1] if v == v]
                out.append(NANF if len(ys) < mp or (not ys and kind != "sum") else self.agg(kind, ys))
            return out
        raise Unev("sfn " + name)

    def op_listlit(self, t, a, r):
        return self.at(a[r], None) if 0 <= r < len(a) else NANF

    def op_seq(self, t, a, r):
        nm = a[1]
        saved = self.env.get(nm)
        self.env[nm] = (r, None)
        try:
            return self.at(a[2], None)
        finally:
            if saved is None:
                self.env.pop(nm, None)
            else:
                self.env[nm] = saved

    def op_rec(self, t, a, r):
        return self.arr_at(self.recurrence(t)["#0"], r)

    def op_loopX(self, t, a, r):
        _, sc = self.loop_state(t)
        k = "#%d" % a[1]
        if k not in sc:
            raise Unev("loopX")
        return sc[k]

    def op_loopS(self, t, a, r):
        ar, _ = self.loop_state(t)
        k = "#%d" % a[1]
        if k not in ar:
            raise Unev("loopS")
        return self.arr_at(ar[k], r)

    def op_search(self, t, a, r):
        def f():
            if self.truth(a[4]):
                return True, self.at(a[5], None)
            return False, None
        return self.bound(t, lambda: self.at(a[6], None), f)

    def op_exists(self, t, a, r):
        def f():
            return (True, True) if self.truth(a[4]) else (False, None)
        return self.bound(t, lambda: False, f)

    def op_sumrange(self, t, a, r):
        tot = [0.0]

        def f():
            tot[0] += self.num(a[4])
            return False, None
        return self.bound(t, lambda: tot[0], f)

    def op_ols(self, t, a, r):
        y, x, w, opts, slot = a
        w = self.int(w)
        const_ = x.op == "opS" and x.args[0] == "addconst"
        if not const_ or w < 2:
            raise Unev("ols")
        x = x.args[1]
        if r < w - 1:
            return NANF
        ys = [self.num(y, i) for i in range(r - w + 1, r + 1)]
        xs = [self.num(x, i) for i in range(r - w + 1, r + 1)]
        if any(v != v for v in ys + xs):
            return NANF
        mx, my = sum(xs) / w, sum(ys) / w
        sxx = sum((p - mx) ** 2 for p in xs)
        if sxx == 0:
            raise Undef("ols")
        b = sum((p - mx) * (q - my) for p, q in zip(xs, ys)) / sxx
        return b if slot == 1 else my - b * mx


# ------------------------------------------------------------------ valuations
def leaves(terms):
    cols, ns, params, consts = set(), set(), {}, set()
    for t in terms:
        for x in subterms(t):
            if x.op == "col":
                cols.add((x.args[0], x.args[1]))
            elif x.op == "n":
                ns.add(x.args[0])
            elif x.op == "param":
                params[x.args[0]] = x.args[1] if len(x.args) > 1 else "float"
            elif x.op in CMP_OPS:
                c = float(x.args[1])
                if abs(c) < 1e4 and any(y.op != "n" for y in children(x.args[0])):
                    consts.add(c)
    return cols, ns, params, consts


INTS = (1, 2, 3, 4, 5, 6, 7, 9, 12)
FLOATS = (0.02, 0.1, 0.2, 0.5, 1.0, 1.5, 2.0, 3.0, 7.5)


def param_texts(terms):
    """texts a parameter is compared with"""
    out = {}
    for t in terms:
        for x in subterms(t):
            if x.op == "seq_eq":
                p = next((a for a in x.args if isinstance(a, T) and a.op == "param"), None)
                c = next((a for a in x.args if isinstance(a, T) and a.op == "str"), None)
                if p is not None and c is not None and c.args[0] not in out.setdefault(p.args[0], []):
                    out[p.args[0]].append(c.args[0])
    return out


def reach(t, memo):
    """rows before its own that the value of a term needs (constant windows and lags only)"""
    if t.id in memo:
        return memo[t.id]
    memo[t.id] = 0
    k = max([reach(c, memo) for c in children(t)] or [0])
    ints = [int(num(a)) for a in t.args if isinstance(a, T) and is_num(a) and num(a) == int(num(a)) and 0 < num(a) < 300]
    ints += [int(a) for a in t.args if isinstance(a, (int, Fraction)) and not isinstance(a, bool) and a == int(a) and 0 < a < 300]
    if t.op in ("roll", "rollc", "shift", "place", "ols", "ewm") and ints:
        k += max(ints)
    memo[t.id] = k
    return k


def row_needs(terms, most=260):
    """large row numbers, windows and lengths the expressions mention (the histories have to reach them)"""
    out = set()

    def take(a):
        if isinstance(a, tuple):
            for y in a:
                take(y)
        elif isinstance(a, (int, Fraction)) and not isinstance(a, bool) and a == int(a):
            out.add(abs(int(a)))

    for t in terms:
        for x in subterms(t):
            if x.op in CMP_OPS and not any(y.op == "n" or y.op == "param" and y.args[0] == "i_index"
                                               for y in (x.args[0],) + tuple(children(x.args[0]))):
                continue
            for a in x.args:
                take(a)
    memo = {}
    out |= {reach(t, memo) + 2 for t in terms}
    return sorted(x for x in out if 8 <= x <= most)


def far_rows(terms, least=60, most=3000):
    """row numbers and lengths beyond the sampled histories that a row or a number of rows is compared with"""
    out = set()
    for t in terms:
        for x in subterms(t):
            if x.op in CMP_OPS and not any(y.op in ("col", "mu", "muS") for y in subterms(x.args[0])) \
                    and any(y.op in ("n", "row", "lv") or y.op == "param" and y.args[0] == "i_index"
                            for y in subterms(x.args[0])):
                try:
                    k = abs(float(x.args[1]))
                except (TypeError, ValueError):
                    continue
                if least < k <= most:
                    out.add(int(k))
    return out


def levels(terms, least=1e-6):
    """constants a value is held against (comparisons, the larger / the smaller of): the prices have to pass them"""
    out = set()
    for t in terms:
        for x in subterms(t):
            if x.op in CMP_OPS and any(y.op not in ("n", "param") for y in children(x.args[0])):
                out.add(abs(float(x.args[1])))
            elif x.op in ("max", "min", "opE", "opS") or x.op in FUNCS_OF_LEVELS:
                for y in x.args:
                    if isinstance(y, T) and is_num(y):
                        out.add(abs(float(num(y))))
    return sorted(c for c in out if least <= c <= 1e7)


def param_levels(terms, zero=False):
    """{parameter: constants it is held against}"""
    out = {}
    for t in terms:
        for x in subterms(t):
            if x.op in CMP_OPS:
                sub_ = list(subterms(x.args[0]))
                cs = [x.args[1]]
            elif x.op in ("max", "min") + FUNCS_OF_LEVELS:
                sub_ = [z for y in x.args if isinstance(y, T) for z in subterms(y)]
                cs = [num_(y) for y in x.args if isinstance(y, T) and y.op == "const"]
            else:
                continue
            ps = {y for y in sub_ if y.op == "param"}
            if len(ps) != 1 or any(y.op in ("n", "col") or y.series for y in sub_):
                continue
            p = next(iter(ps))
            for c in cs:
                for k in {1} | {a for y in sub_ for a in poly_coefs(y)}:
                    if k and c is not None:
                        v = abs(float(c) / float(k))
                        if 0 < v <= 150 or zero and not v:
                            out.setdefault(p.args[0], set()).add(v)
    return {p: sorted(s) for p, s in out.items()}


def num_(t):
    return num(t)


def poly_coefs(t):
    if t.op != "poly":
        return []
    out = []

    def take(a):
        if isinstance(a, tuple):
            for y in a:
                take(y)
        elif isinstance(a, (int, Fraction)) and not isinstance(a, bool):
            out.append(a)
    for a in t.args:
        take(a)
    return out


FUNCS_OF_LEVELS = ("smax", "smin", "maxE", "minE", "ite")


def valuations(terms, facts=(), count=60, seed=7, strs=None, centers=None, prices=True, n_ti=None, scale=False, rows=None):
    """Random valuations of the leaves consistent with the facts."""
    cols, ns, params, consts = leaves(list(terms) + list(facts))
    rnd = random.Random(seed)
    cs = sorted(set(centers or ()) | set(consts) | {0.0})
    tabs = {c[0] for c in cols}
    big = row_needs(list(terms) + list(facts))
    texts = param_texts(list(terms) + list(facts))
    lev = levels(terms) if scale else []
    held = param_levels(terms)
    fact_levels = param_levels(facts, zero=True)
    out = []
    tries = 0
    while len(out) < count and tries < count * 30:
        tries += 1
        ps = {}
        for p, k in sorted(params.items()):
            if strs and p in strs:
                ps[p] = rnd.choice(strs[p])
            elif held.get(p) and k in ("int", "float") and rnd.random() < 0.25:
                x = rnd.choice(held[p])
                ps[p] = x + (rnd.choice((-1, 0, 1, 2)) if k == "int" else x * rnd.choice((-0.3, 0, 0.3)))
                if k == "int":
                    ps[p] = float(max(1, int(ps[p])))
            elif k == "int":
                ps[p] = float(rnd.choice(INTS))
            elif k == "bool":
                ps[p] = rnd.random() < 0.5
            elif k == "str":
                ps[p] = rnd.choice(texts[p]) if texts.get(p) and rnd.random() < 0.9 else "s"
            else:
                ps[p] = rnd.choice(FLOATS)
                if 0.0 in fact_levels.get(p, ()) and rnd.random() < 0.3:
                    ps[p] = -ps[p]
        n = rnd.choice((1, 2, 3, 4, 5, 7, 10, 16, 24, 35, 50, 70)) if tries % 2 else rnd.choice((20, 35, 50, 70, 40, 45))
        if big and tries % 3 == 0:
            n = rnd.choice(big) + rnd.choice((-1, 0, 0, 1, 1, 2, 6))
        if rows:
            n = rows[tries % len(rows)]
        nn = {"in": n}
        if "ti" in ns or n_ti:
            nn["ti"] = max(0, n - rnd.choice((1, 2, 3, 5))) if n_ti is None else n_ti(n, ps)
        v = Val(nn, {}, ps)
        ok = True
        for f in facts:
            try:
                if not Eval(v).truth(f):
                    ok = False
                    break
            except (Unev, Undef):
                pass
        if not ok:
            continue
        kind = len(out) % 5
        # 0: prices, reals; 1: small integers (ties); 2: reals with gaps; 3: integers with gaps; 4: monotone runs
        if prices:
            make_prices(v, tabs, n, kind, rnd, cols, scale)
            if scale and kind in (0, 4) and rnd.random() < (0.6 if lev else 0.3):
                rescale(v, rnd, lev)
        mode = rnd.randrange(3)          # 0: each column near a constant, 1: all near one constant, 2: near the prices
        common = rnd.choice(cs)
        base = [xs for (tb, c), xs in sorted(v.cols.items(), key=str) if tb != "ti" and c != "volume"] if mode == 2 else []
        for tb, c in sorted(cols, key=str):
            if (tb, c) in v.cols:
                continue
            m = nn["ti"] if tb == "ti" and "ti" in nn else n
            cen = common if mode == 1 else rnd.choice(cs)
            mixed = rnd.random() < 0.6      # ties with several of the constants in one column
            if len(cs) > 2 and m > 4 and tb == "ti" and rnd.random() < 0.15:
                v.cols[(tb, c)] = plateaus(cs, m, rnd)
                continue
            xs = []
            for i in range(m):
                if base and i < len(base[0]):
                    x = rnd.choice(base)[i] if rnd.random() < 0.5 else base[0][i]
                    if kind in (1, 3):
                        x += rnd.choice((-1, 0, 0, 1))
                    else:
                        x *= 1 + rnd.uniform(-0.04, 0.04)
                elif kind in (1, 3):
                    x = (rnd.choice(cs) if mixed else cen) + rnd.choice((-2, -1, -1, 0, 0, 0, 1, 1, 2))
                elif rnd.random() < 0.5:
                    x = rnd.choice(cs) + rnd.choice((-1, 1)) * rnd.random() * rnd.choice((0.5, 3, 30))
                else:
                    x = cen + rnd.uniform(-1, 1) * 3
                if kind in (2, 3) and rnd.random() < 0.12:
                    x = NANF
                xs.append(float(x))
            v.cols[(tb, c)] = xs
        out.append(v)
    return out


def plateaus(cs, m, rnd):
    """long stretches between two of the constants, with other values before and after"""
    mids = sorted({(a + b) / 2 for a, b in zip(cs, cs[1:])} | {cs[0] - 1, cs[-1] + 1})
    i = rnd.randrange(len(mids))
    near = mids[max(0, i - 1):i + 2]
    first, last = rnd.choice((1, 2, 3, m // 2)), rnd.choice((1, 1, 2, 3))
    return [float(rnd.choice(near)) if j < first and rnd.random() < 0.8 or j >= m - last else mids[i] for j in range(m)]


def make_prices(v, tabs, n, kind, rnd, cols, nil=False):
    o, h, l, c, vol = [], [], [], [], []
    p = rnd.choice((5.0, 20.0, 100.0)) + rnd.random() * 10
    drift = rnd.choice((-0.02, 0, 0.02)) if kind == 4 else 0
    flat = kind == 1 and rnd.random() < 0.2
    idle = kind == 1 and rnd.random() < 0.3          # days without trades
    nil = nil and kind == 1 and rnd.random() < 0.3  # days with a price of zero
    for i in range(n):
        if kind in (1, 3):
            p = max(2, round(p) + (0 if flat else rnd.choice((-1, 0, 0, 1))))
            cl = p
            hi = cl + rnd.choice((0, 1, 2))
            lo = max(1, cl - rnd.choice((0, 1, 1)))
            op = rnd.choice((lo, hi, cl))
            vo = float(rnd.choice((100, 100, 200, 300))) if not idle or rnd.random() < (0.9 if i else 0.5) else 0.0
            if nil and rnd.random() < 0.12:
                op = hi = lo = cl = 0
        else:
            p = max(0.5, p * (1 + drift + rnd.uniform(-0.05, 0.05)))
            cl = p
            hi = cl * (1 + rnd.random() * 0.03)
            lo = cl * (1 - rnd.random() * 0.03)
            op = lo + (hi - lo) * rnd.random()
            vo = rnd.uniform(100, 5000)
        gap = kind in (2, 3)
        for arr, x in ((o, op), (h, hi), (l, lo), (c, cl), (vol, vo)):
            arr.append(NANF if gap and rnd.random() < 0.04 else float(x))
    for tb in tabs:
        if tb == "ti":
            continue
        for nm, arr in (("open", o), ("high", h), ("low", l), ("close", c), ("volume", vol)):
            v.cols[(tb, nm)] = arr


def rescale(v, rnd, lev):
    """the same course of prices (and volumes) in other units, around a constant of the expression if there is one"""
    done = {}
    for names in (("open", "high", "low", "close"), ("volume",)):
        xs = [x for (tb, c), a in v.cols.items() if c in names for x in a if x == x]
        if not xs:
            continue
        mid = sorted(xs)[len(xs) // 2]
        k = rnd.choice(lev) / mid if lev and rnd.random() < 0.8 else rnd.choice((1e-3, 1e-2, 0.1, 10, 1e3, 1e4))
        if not k:
            continue
        k *= rnd.choice((0.5, 1, 1, 2))
        wide = [rnd.choice((0.2, 0.5, 1, 1, 2, 4)) for _ in xs] if rnd.random() < 0.6 else None
        for key, a in list(v.cols.items()):
            if key[1] in names:
                if id(a) not in done:
                    done[id(a)] = (a, [x * k * (wide[i] if wide else 1) for i, x in enumerate(a)])
                v.cols[key] = done[id(a)][1]


def same(x, y, tol=1e-7):
    if x is None:
        x = NANF
    if y is None:
        y = NANF
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y) if isinstance(x, (bool, int, float)) and isinstance(y, (bool, int, float)) else x == y
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        if x != x or y != y:
            return x != x and y != y
        if math.isinf(x) or math.isinf(y):
            return x == y
        return abs(x - y) <= tol * (1 + abs(x) + abs(y))
    return x == y and type(x) is type(y)


def scalar_print(t, vals):
    """fingerprint of a scalar term (None where undefined); Unev if uninterpretable"""
    out = []
    for v in vals:
        try:
            out.append(Eval(v).ev(t))
        except Undef:
            out.append(None)
    return out


def differ_series(ta, tb, vals, rows="in"):
    """(differs, where, compared): first row on which two series terms differ."""
    cmpd = 0
    for k, v in enumerate(vals):
        n = v.ns.get(rows, v.ns["in"])
        ea, eb = Eval(v), Eval(v)
        for r in range(n):
            try:
                x = ea.at(ta, r if ta.series else None)
                y = eb.at(tb, r if tb.series else None)
            except Undef:
                continue
            cmpd += 1
            if not same(x, y):
                return True, (k, r, x, y, v), cmpd
    return False, None, cmpd
