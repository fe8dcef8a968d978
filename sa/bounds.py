"""Proves `t >= 0 wherever t is defined` for value-flow terms.

Deduction over the terms' structure: signs of products, positive linear
operators (rolling sums, exponential means, shifts, recurrences x' = a*x + b)
pushed inwards, quotients N/D reduced to D >= 0 and N >= 0, case splits on
conditions, absolute values and row-wise extrema, induction on recurrences, and
linear arithmetic (Fourier-Motzkin) over the facts about the remaining atoms:
0 <= low <= open, close <= high, volume >= 0, rolling extrema bound their operand.
A proof is a proof in exact arithmetic; failure to prove says nothing.
"""
from fractions import Fraction as F
from .terms import *
from .terms import _as_poly, _from_poly, _mul_mono, NAN, ZERO, ONE, CMP_OPS
from .lin import Ineq, linear, empty

CARRIERS = ("shift", "cell", "slice", "place")
PRICES = ("open", "high", "low", "close")
AVERAGES = ("win-mean", "mean")
BUDGET = 40000


class TooMuch(Exception):
    pass


def const_(k):
    return mk("const", F(k))


def monos(t):
    return list(_as_poly(t).items())


def mono(m, c=F(1)):
    return _from_poly({m: F(c)})


def top_atoms(t):
    """atoms an element-wise value is made of, looking through quotients, magnitudes, conditions and extrema"""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "poly":
            for m, _ in x.args:
                todo += [a for a, _e in m]
        elif x.op in ("abs", "max", "min", "ite", "round", "rowagg", "sqrt") or x.op in CMP_OPS or x.op in ("and", "or", "not"):
            out.append(x)
            todo += children(x)
        else:
            out.append(x)
    return out


def choose(t, m):
    """t with the terms of m replaced, within its element-wise structure only"""
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x.id)
        if r is None:
            r = rebuild(x, go) if x.op in ("poly", "abs", "max", "min", "ite", "round", "rowagg", "sqrt", "and", "or", "not") \
                or x.op in CMP_OPS else x
            memo[x.id] = r
        return r
    return go(t)


def literal(c):
    """an atomic condition within c"""
    while c.op in ("and", "or", "not"):
        c = c.args[0]
    return c


def consequence(c, yes):
    """g with g >= 0 whenever c holds (does not hold, its operands being defined)"""
    while c.op == "not":
        c, yes = c.args[0], not yes
    if c.op not in CMP_OPS:
        return []
    L, k = c.args[0], mk("const", c.args[1])
    op = c.op
    if not yes:
        op = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt", "eq": None}[op]
    one = ONE if L.intk and op in ("lt", "gt") else ZERO
    if op in ("le", "lt"):
        return [sub(sub(k, L), one)]
    if op in ("ge", "gt"):
        return [sub(sub(L, k), one)]
    return [sub(k, L), sub(L, k)] if op == "eq" else []


def leaf(t):
    """(column, way): the column a chain of shifts and picks carries"""
    way, x = [], t
    while x.op in CARRIERS:
        way.append((x.op,) + x.args[1:])
        x = x.args[0]
    return (x, tuple(way)) if x.op == "col" and len(x.args) == 2 else (None, None)


def carried(name_term, way):
    x = name_term
    for w in reversed(way):
        x = {"shift": shift, "cell": cell, "slice": slice_, "place": place}[w[0]](x, *w[1:])
    return x


class Prover:
    def __init__(self, facts=(), levels=(0,), depth=22):
        self.base = tuple(g for f in facts for g in consequence(f, True) if not g.series)
        self.levels = sorted({F(k) for k in levels} | {F(0)})
        self.memo, self.busy, self.steps = {}, set(), 0
        self.depth = depth
        self.used = set()

    def holds(self, t):
        """True when t >= 0 was deduced"""
        try:
            return self.ge(t, frozenset(), self.depth)
        except (TooMuch, RecursionError):
            return False

    # ---------------------------------------------------------------- core
    def ge(self, t, H, d):
        if t.op == "const":
            return t.args[0] >= 0
        if t.op == "nan" or t.op == "none" or t in H:
            return True
        if t.op == "inf":
            return t.args[0] > 0
        if d <= 0 or t.opq:
            return False
        key = (t.id, H)
        hit = self.memo.get(key)
        if hit is not None and (hit[0] or hit[1] >= d):
            return hit[0]
        if key in self.busy:
            return False
        self.steps += 1
        if self.steps > BUDGET:
            raise TooMuch
        self.busy.add(key)
        try:
            ok = self.try_(t, H, d)
        finally:
            self.busy.discard(key)
        self.memo[key] = (ok, d)
        return ok

    def try_(self, t, H, d):
        for m, _c in monos(t):
            if any(a.op in ("nan", "none") for a, _ in m):
                return True
        if self.gone(t, H):
            return True
        if t.op != "poly":
            if self.atom(t, H, d):
                return True
        elif self.signs(t, H, d):
            return True
        r = self.split(t, H, d)
        if r is not None:
            return r
        return self.operators(t, H, d) or self.factor(t, H, d) or self.ratio(t, H, d) or self.linear(t, H, d) or self.cases(t, H, d) \
            or self.point(t, H, d)

    def point(self, t, H, d):
        """the same statement about one row i of slices and re-positioned series"""
        if not t.series or not any(x.op in ("slice", "place") for x in subterms(t)):
            return False
        i = mk("lv", "row")
        u = cell(t, i)
        return u is not t and self.ge(u, frozenset(cell(h, i) for h in H), d - 1)

    def factor(self, t, H, d):
        """t = a * Q + R"""
        ms = monos(t)
        done = set()
        for m, c in ms:
            if c >= 0:
                continue
            for a, e in m:
                if e < 1 or a in done:
                    continue
                done.add(a)
                Q = R = ZERO
                n = 0
                for m2, c2 in ms:
                    e2 = dict(m2).get(a, 0)
                    if e2 >= 1:
                        n += 1
                        Q = add(Q, mono(tuple((b, x - 1 if b is a else x) for b, x in m2 if b is not a or x > 1), c2))
                    else:
                        R = add(R, mono(m2, c2))
                if n > 1 and not is_num(Q) and self.ge(R, H, d - 1) and self.ge(a, H, d - 1) and self.ge(Q, H, d - 1):
                    return True
        return False

    def signs(self, t, H, d):
        return all(self.mono_ge(m, c, H, d) for m, c in monos(t))

    def mono_ge(self, m, c, H, d):
        if c < 0:
            return False
        return all(e % 2 == 0 or self.ge(a, H, d - 1) for a, e in m)

    def outer(self, H):
        """the hypotheses that do not speak about one row"""
        return frozenset(h for h in H if not h.series and not any(x.op in ("lv", "cell", "row") for x in subterms(h)))

    def atom(self, a, H, d):
        op = a.op
        if op in ("abs", "sqrt", "n", "count", "row"):
            return True
        if op == "roll" and a.args[3] in ("var0", "var", "std", "std0", "count"):
            return True
        x, way = leaf(a)
        if x is not None:
            return x.args[1] in ("volume",) + PRICES
        if op == "param" or op == "lv":
            return self.fm(a, [], H, d)
        if op in ("roll", "ewm", "cum"):
            return self.ge(a.args[0], self.outer(H), d - 1)
        if op == "roll" or op in CARRIERS:
            if op == "cell" and a.args[0].op == "muS":
                return a in H
            return self.ge(a.args[0], self.outer(H), d - 1)
        if op == "align":
            return self.ge(a.args[0], self.outer(H), d - 1)
        if op == "aggr":
            return a.args[0] in ("sum", "mean", "max", "min", "median", "max_np", "min_np") and self.ge(a.args[1], self.outer(H), d - 1)
        if op == "round":
            return self.ge(a.args[0], H, d - 1)
        if op == "floor":
            return self.ge(a.args[0], H, d - 1)
        if op == "rowagg" and a.args[0] in ("max", "min", "sum", "mean"):
            f = any if a.args[0] == "max" and a.args[1] is False else all
            return f(self.ge(x, H, d - 1) for x in a.args[2:] if isinstance(x, T))
        if op in ("max", "min"):
            f = any if op == "max" else all
            return f(self.ge(x, H, d - 1) for x in a.args)
        if op == "store":
            return self.ge(a.args[2], self.outer(H), d - 1) and self.ge(a.args[0], self.outer(H), d - 1)
        if op == "rec":
            return self.induct(a, H, d, ZERO, 1)
        return False

    # ---------------------------------------------------------------- recurrences
    def states(self, a, i=0):
        """cells of the recurrence's own earlier rows that its step reads"""
        nm = a.args[0]
        body = a.args[4][i][0]
        return [x for x in subterms(body) if (x.op == "cell" and x.args[0].op == "muS" and x.args[0].args[0] == nm
                                              and x.args[0].args[1] == "#%d" % i)
                or (x.op == "mu" and x.args[0] == nm and x.args[1] == "#%d" % i)]

    def induct(self, a, H, d, k, sign):
        """sign * (rec - k) >= 0 on every row, by induction on the rows"""
        nm, lo, hi, step, bodies = a.args
        body, init = bodies[0]
        H0 = self.outer(H)
        st = self.states(a)
        hyp = [sub(x, k) if sign > 0 else sub(k, x) for x in st]
        H1 = H0 | frozenset(hyp)
        if k is not ZERO or sign < 0:
            for x in st:
                if self.rec_low(a, H0, d):
                    H1 = H1 | {x}
        goal = sub(body, k) if sign > 0 else sub(k, body)
        return self.init_ge(init, H0, d, k, sign) and self.ge(goal, H1, d - 1)

    def rec_low(self, a, H0, d):
        return self.ge(a, H0, d - 1)

    def init_ge(self, init, H, d, k, sign):
        while init.op == "store":
            v = init.args[2]
            if not self.ge(sub(v, k) if sign > 0 else sub(k, v), H, d - 1):
                return False
            init = init.args[0]
        return init.op in ("nan", "none") or self.ge(sub(init, k) if sign > 0 else sub(k, init), H, d - 1)

    # ---------------------------------------------------------------- conditions
    def split(self, t, H, d):
        at = top_atoms(t)
        it = [x for x in at if x.op == "ite"]
        if not it:
            return None
        it = min(it, key=lambda x: (len(list(subterms(x))), x.id))
        c = literal(it.args[0])
        H = H | frozenset(scale(sub(x, x.args[0]), 1 if x.args[3] == "max" else -1) for x in at
                          if x.op == "roll" and x.args[3] in ("max", "min"))
        ty, tn = choose(t, {c: TRUE}), choose(t, {c: FALSE})
        if ty is t or tn is t:
            return False
        if any(h.op == "missing" and c.op in CMP_OPS and h.args[0] is c.args[0] for h in H):
            return self.ge(tn, H, d - 1)
        Hy = frozenset(choose(h, {c: TRUE}) for h in H) | frozenset(consequence(c, True))
        Hn = frozenset(choose(h, {c: FALSE}) for h in H)
        if not self.ge(ty, Hy, d - 1):
            return False
        if c.op not in CMP_OPS:
            return self.ge(tn, Hn, d - 1)
        if not self.ge(tn, Hn | frozenset(consequence(c, False)), d - 1):
            return False
        # the condition also fails when its operands are missing
        if not any(self.lagged(x) for x in top_atoms(c.args[0])):
            return True
        return self.ge(tn, Hn | {mk("missing", c.args[0])}, d - 1)

    def gone(self, t, H):
        """t is missing because a quantity known to be missing is part of it"""
        lost = [h.args[0] for h in H if h.op == "missing"]
        have = self.strict_atoms(t) if lost else ()
        for L in lost:
            ms = [m for m, _ in monos(L)]
            if any(e < 0 for m in ms for _a, e in m):      # 0 / 0 is missing as well
                mine = {m for m, _ in monos(t)}
                if all(m in mine for m in ms if m):
                    return True
            elif all(x in have for x in top_atoms(L)):
                return True
        return False

    def lagged(self, x):
        """may be missing in the first rows of a complete history"""
        return any(y.op in ("shift", "roll", "ewm", "rec", "rowagg", "place", "slice") for y in subterms(x))

    def strict_atoms(self, t):
        out, todo = set(), [t]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            if x.op in ("poly", "abs", "max", "min", "round", "sqrt"):
                todo += children(x)
        return out

    # ---------------------------------------------------------------- linear operators
    def operators(self, t, H, d):
        """t = sum of one positive linear operator applied to several operands"""
        ms = monos(t)
        groups, consts = {}, []
        for m, c in ms:
            best = None
            for a, e in m:
                if e == 1:
                    k = self.opkey(a)
                    if k is not None:
                        best = (a, k)
                        break
            if best is None:
                consts.append((m, c))
                continue
            a, k = best
            rest = tuple(x for x in m if x[0] is not a)
            groups.setdefault((k, rest), []).append((a, c))
        if not groups:
            return False
        if len(groups) > 1:
            if consts:
                return False
            if len(groups) < len(ms):
                return all(self.ge(self.join(k, xs), H, d - 1) for k, xs in groups.items())
            return False
        (k, rest), xs = next(iter(groups.items()))
        if len(xs) == 1 and not consts:
            return False
        if not all(e % 2 == 0 or self.ge(a, H, d - 1) for a, e in rest):
            return False
        H0 = self.outer(H)
        inner = ZERO
        if consts:
            w = self.weight(k)
            if k[0] == "aggr" and w is None and is_num(k[2]):
                # a sum over the present values among at most that many
                w = const_(F(1) / max(1, num(k[2]) - min(self.missing(self.operand(a)) for a, _ in xs)))
                if any(c < 0 or m for m, c in consts):
                    return False
            if w is None:
                return False
            for m, c in consts:
                if any(a.series for a, _ in m):
                    return False
                x = mul(mono(m, c), w)
                for a, e in rest:
                    x = mul(x, mono(((a, -e),)))
                inner = add(inner, x)
            if any(a.series for a, _ in rest):
                return False
        if k[0] == "rec":
            return self.rec_group(k, xs, consts, H0, d)
        ops = [self.operand(a) for a, _ in xs]
        if not self.together(k, ops):
            return False
        for (a, c), x in zip(xs, ops):
            inner = add(inner, scale(x, c))
        return self.ge(inner, H0, d - 1)

    def join(self, k, xs):
        rest = k[1]
        t = ZERO
        for a, c in xs:
            t = add(t, mono(_mul_mono(((a, 1),), rest), c))
        return t

    def opkey(self, a):
        op = a.op
        if op == "roll" and (a.args[3] in ("sum", "mean") or a.args[3] in AVERAGES):
            return ("roll",) + a.args[1:]
        if op == "ewm":
            return ("ewm",) + a.args[1:]
        if op in CARRIERS and leaf(a)[0] is None and not (op == "cell" and a.args[0].op in ("muS",)):
            return (op,) + a.args[1:]
        if op == "aggr" and a.args[0] in ("sum", "mean"):
            return ("aggr", a.args[0]) + a.args[2:]
        if op == "rec" and len(a.args[4]) == 1 and self.affine(a) is not None:
            return ("rec",) + a.args[:4] + (self.affine(a)[0],)
        if op == "align":
            return ("align",) + a.args[1:]
        return None

    def operand(self, a):
        return a.args[1] if a.op == "aggr" else a.args[0]

    def weight(self, k):
        """x such that the operator maps the constant x to 1"""
        if k[0] == "roll":
            if k[3] == "sum":
                return div(ONE, k[1]) if k[2] is k[1] else None
            return ONE
        if k[0] == "aggr":
            return ONE if k[1] == "mean" else None
        return ONE

    def missing(self, x):
        """leading rows on which x is certainly missing"""
        k = 0
        for y in self.strict_atoms(x):
            if y.op == "ite" and y.args[1].op == "nan" and y.args[0].op == "le":
                L, c = y.args[0].args
                if L is ROW or (L.op == "slice" and L.args[0] is ROW and L.args[1] is ZERO):
                    k = max(k, int(c) + 1)
        return k

    def together(self, k, ops):
        """the operands are missing on the same rows (or a missing one makes the whole missing)"""
        if len(ops) < 2 or k[0] in CARRIERS or k[0] == "align":
            return True
        if k[0] == "roll" and k[2] is k[1]:
            return True
        ls = [frozenset(leads(x)) for x in ops]
        if any(y.op in ("nan", "ffill") for x in ops for y in subterms(x)):
            gone = [frozenset(y for y in subterms(x) if y.op == "ite" and any(z.op == "nan" for z in y.args)) for x in ops]
            heads = [frozenset(y.args[0] for y in g) for g in gone]
            if len(set(heads)) > 1:
                return False
        return len(set(ls)) == 1

    def affine(self, a):
        """(factor of the previous row, remainder) of a recurrence x' = factor * x + remainder"""
        body = a.args[4][0][0]
        st = self.states(a)
        if len(set(st)) != 1:
            return None
        s, f, r = st[0], ZERO, ZERO
        for m, c in monos(body):
            e = dict(m).get(s, 0)
            rest = tuple(x for x in m if x[0] is not s)
            if any(s in subterms(x) for x, _ in rest):
                return None
            if e == 1:
                f = add(f, mono(rest, c))
            elif e == 0:
                r = add(r, mono(rest, c))
            else:
                return None
        return (f, r) if not f.series and f is not ZERO else None

    def rec_group(self, k, xs, consts, H0, d):
        f = k[5]
        if not self.ge(f, H0, d - 1):
            return False
        if consts:
            return False
        step = first = ZERO
        for a, c in xs:
            step = add(step, scale(self.affine(a)[1], c))
            init = a.args[4][0][1]
            if init.op != "store" or init.args[0].op not in ("nan", "none") or init.args[1] is not xs[0][0].args[4][0][1].args[1]:
                return False
            first = add(first, scale(init.args[2], c))
        return self.ge(step, H0, d - 1) and self.ge(first, H0, d - 1)

    # ---------------------------------------------------------------- quotients
    def ratio(self, t, H, d):
        ms = monos(t)
        den = []
        for m, c in ms:
            ds = tuple((a, e) for a, e in m if e < 0)
            if ds and ds not in den:
                den.append(ds)
        if not den:
            return False
        single = sorted({a for ds in den for a, _ in ds}, key=lambda a: -len(list(subterms(a))))
        for D in single:
            if not self.ge(D, H, d - 1):
                continue
            N = self.cleared(t, D)
            if N is not t and self.ge(N, H, d - 1):
                return True
        # several quotients: each between two of the coefficients
        groups, rest = {}, ZERO
        for m, c in ms:
            ds = tuple((a, e) for a, e in m if e < 0)
            if ds:
                groups[ds] = add(groups.get(ds, ZERO), mono(m, c))
            else:
                rest = add(rest, mono(m, c))
        if len(groups) < 2:
            return False
        low = rest
        for ds, g in groups.items():
            ks = sorted({c for _m, c in monos(g)} | {-c for _m, c in monos(g)} | {F(0)}, reverse=True)
            hit = next((k for k in ks if self.ge(sub(g, mk("const", k)), H, d - 2)), None)
            if hit is None:
                return False
            low = add(low, mk("const", hit))
        return self.ge(low, H, d - 1)

    def cleared(self, t, D):
        """t times the power of D that clears it from the denominators"""
        ms = monos(t)
        worst = min(dict(m).get(D, 0) for m, _ in ms)
        N = ZERO
        for m, c in ms:
            x = mono(tuple(y for y in m if y[0] is not D), c)
            for _ in range(dict(m).get(D, 0) - worst):
                x = mul(x, D)
            N = add(N, x)
        return N

    # ---------------------------------------------------------------- linear arithmetic
    def linear(self, t, H, d):
        return self.fm(t, [a for m, _ in monos(t) for a, _e in m], H, d)

    def fm(self, t, atoms, H, d):
        gs = list(self.base) + list(H)
        todo, seen, seeds = list(atoms), set(), list(H)
        for h in sorted(H, key=lambda h: h.id):
            for D in sorted({a for m, _ in monos(h) for a, e in m if e < 0}, key=lambda a: a.id):
                if d > 4 and self.ge(D, H, d - 3):
                    gs.append(self.cleared(h, D))
                    seeds.append(gs[-1])
        for h in H:
            todo += [a for m, _ in monos(h) for a, _e in m]
        n = 0
        while todo and n < 60:
            a = todo.pop(0)
            if a in seen:
                continue
            seen.add(a)
            n += 1
            for g in self.facts(a, H, d, t):
                if g not in gs:
                    gs.append(g)
                    for m, _ in monos(g):
                        todo += [x for x, _e in m]
        for g in [t] + gs:
            for m, _ in monos(g):
                if len(m) > 1 or (m and m[0][1] != 1):
                    x = mono(m)
                    if x not in gs and self.mono_ge(m, F(1), H, min(d - 1, 6)):
                        gs.append(x)
        q, lins = [], [linear(g) for g in gs]
        keys, grow = set(linear(t)[0]).union(*[linear(h)[0] for h in seeds]), True
        while grow:                       # only what is connected with the goal or the hypotheses
            grow = False
            for dd, _c in lins:
                if keys & set(dd) and not set(dd) <= keys:
                    keys |= set(dd)
                    grow = True
        for dd, c in lins:
            if not set(dd) <= keys:
                continue
            q.append(Ineq({k: -v for k, v in dd.items()}, -c, False, False))
        dd, c = linear(t)
        q.append(Ineq(dict(dd), c, True, False))
        return empty(q)

    def facts(self, a, H, d, goal):
        out = []
        x, way = leaf(a)
        if x is not None:
            tab, c = x.args
            if c == "volume":
                out.append(a)
            elif c in PRICES:
                p = {y: carried(mk("col", tab, y), way) for y in PRICES}
                out += [sub(p["high"], p["close"]), sub(p["close"], p["low"]), sub(p["high"], p["low"]), p["low"]]
                if c == "open" or any(z.op == "col" and z.args[1] == "open" for z in subterms(goal)):
                    out += [sub(p["high"], p["open"]), sub(p["open"], p["low"])]
            return out
        op = a.op
        if op in ("rowagg", "max", "min"):
            kind = a.args[0] if op == "rowagg" else op
            xs = [y for y in (a.args[2:] if op == "rowagg" else a.args) if isinstance(y, T)]
            if kind == "max":
                out += [sub(a, y) for y in xs]
            elif kind == "min":
                out += [sub(y, a) for y in xs]
            if kind in ("max", "min"):
                return out
        if op in CARRIERS and a.args[0].op == "rowagg" and a.args[0].args[0] in ("max", "min"):
            b = a.args[0]
            f = {"shift": shift, "cell": cell, "slice": slice_, "place": place}[op]
            for y in b.args[2:]:
                if isinstance(y, T):
                    z = f(y, *a.args[1:])
                    out.append(sub(a, z) if b.args[0] == "max" else sub(z, a))
            return out
        if op == "abs":
            return [sub(a, a.args[0]), add(a, a.args[0]), a]
        if op == "roll" and a.args[3] in ("max", "min"):
            s = 1 if a.args[3] == "max" else -1
            out.append(scale(sub(a, a.args[0]), s))
            # extrema of two ordered operands over one window
            for y in {z for z in subterms(goal) if z.op == "roll" and z is not a and z.args[1] is a.args[1] and z.args[3] in ("max", "min")}:
                if d > 4 and s > 0 and y.args[3] in ("max", "min") and self.ge(sub(a.args[0], y.args[0]), frozenset(), 4):
                    out.append(sub(a, y))
            return out
        if op == "aggr" and a.args[0] in ("max", "min") and a.args[1].series:
            s = 1 if a.args[0] == "max" else -1
            out.append(scale(sub(a, a.args[1]), s))
            return out
        if op == "rowagg" and a.args[0] == "mean" and all(isinstance(y, T) and y.op == "col" for y in a.args[2:]):
            e = scale(a, F(len(a.args) - 2))
            for y in a.args[2:]:
                e = sub(e, y)
            return [e, neg(e)]
        if op == "round":
            for k in self.levels:
                if d > 3 and self.ge(sub(a.args[0], mk("const", k)), H, d - 2):
                    out.append(sub(a, mk("const", k)))
                if d > 3 and self.ge(sub(mk("const", k), a.args[0]), H, d - 2):
                    out.append(sub(mk("const", k), a))
            return out
        if op == "rec":
            if self.ge(a, H, d - 2):
                out.append(a)
            for k in self.levels:
                if k > 0 and d > 3 and self.induct(a, H, d - 2, mk("const", k), -1):
                    out.append(sub(mk("const", k), a))
                    break
            return out
        if op in ("row", "lv", "n", "param", "const"):
            return [a] if op in ("row", "n") else []
        if op == "cell" and a.args[0].op == "muS":
            return []
        if d > 3 and self.ge(a, H, d - 3):
            out.append(a)
        elif d > 3 and op not in ("poly",) and self.ge(neg(a), H, d - 3):
            out.append(neg(a))
        if op in CARRIERS or op in ("ewm", "align"):
            for k in self.levels:
                if k != 0 and d > 5 and self.ge(sub(mk("const", k), a), H, d - 4):
                    out.append(sub(mk("const", k), a))
                    break
            for k in reversed(self.levels):
                if k != 0 and d > 5 and self.ge(sub(a, mk("const", k)), H, d - 4):
                    out.append(sub(a, mk("const", k)))
                    break
        return out

    # ---------------------------------------------------------------- magnitudes, extrema
    def cases(self, t, H, d):
        at = [x for x in top_atoms(t) if x.op == "abs" or (x.op == "rowagg" and x.args[0] in ("max", "min") and x.args[1] is False)]
        if not at:
            return False
        a = min(at, key=lambda x: (len(list(subterms(x))), x.id))
        if a.op == "abs":
            x = a.args[0]
            return all(self.ge(choose(t, {a: y}), frozenset(choose(h, {a: y}) for h in H) | {y}, d - 1) for y in (x, neg(x)))
        s = 1 if a.args[0] == "max" else -1
        xs = [y for y in a.args[2:] if isinstance(y, T)]
        for y in xs:
            hyp = frozenset(scale(sub(y, z), s) for z in xs if z is not y)
            if not self.ge(choose(t, {a: y}), frozenset(choose(h, {a: y}) for h in H) | hyp, d - 1):
                return False
        return True
