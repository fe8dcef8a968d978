"""Linear-arithmetic abstract domain (conjunctions of linear inequalities).

Used to decide emptiness / entailment of guards made of comparisons.  Atoms are
opaque sub-terms of the value-flow graph; integer atoms are tightened.
Elimination is Fourier-Motzkin with a size cut-off; a cut-off answers
"not empty", i.e. it never proves anything.
"""
from fractions import Fraction as F
import math
from .terms import T, CMP_OPS, _as_poly

LIMIT = 700


def linear(t):
    """poly -> (dict atom-key -> coeff, const); nonlinear monomials are atoms."""
    d, c = {}, F(0)
    for m, k in _as_poly(t).items():
        if m == ():
            c += k
        elif len(m) == 1 and m[0][1] == 1:
            d[m[0][0].id] = d.get(m[0][0].id, 0) + k
        else:
            key = ("m",) + tuple((a.id, e) for a, e in m)
            d[key] = d.get(key, 0) + k
    return d, c


_atoms = {}


def note(t):
    for m, k in _as_poly(t).items():
        for a, e in m:
            _atoms[a.id] = a


def mono_int(t):
    return t.intk


class Ineq:
    """sum coeff*x + const <= 0  (or < 0 when strict)"""
    __slots__ = ("d", "c", "strict", "isint")

    def __init__(self, d, c, strict, isint):
        self.d = {k: v for k, v in d.items() if v != 0}
        self.c, self.strict, self.isint = c, strict, isint
        if isint and self.d:
            # scale to integers and tighten
            m = 1
            for v in self.d.values():
                m = m * v.denominator // math.gcd(m, v.denominator)
            g = 0
            for v in self.d.values():
                g = math.gcd(g, abs(int(v * m)))
            if g:
                s = F(m, g)
                dd = {k: v * s for k, v in self.d.items()}
                cc = self.c * s
                # sum ints <= -cc  (or < -cc)
                b = -cc
                if strict:
                    b = F(math.ceil(b) - 1)
                else:
                    b = F(math.floor(b))
                self.d, self.c, self.strict = dd, -b, False

    def key(self):
        return (tuple(sorted(((str(k), v) for k, v in self.d.items()))), self.c, self.strict)


def lit_ineqs(lit):
    """literal -> list of alternatives (each a list of Ineq) or None if not linear.

    A single alternative is a conjunction; a disequality gives two."""
    neg = False
    t = lit
    if t.op == "not":
        neg = True
        t = t.args[0]
    if t.op not in CMP_OPS:
        return None
    L, c = t.args
    if L.series:
        return None
    if neg and not L.intk:
        return None        # a missing value satisfies every negated comparison
    note(L)
    d, k = linear(L)
    k = k - c
    isint = L.intk
    op = t.op
    if neg:
        if op == "eq":
            return [[Ineq(d, k, True, isint)], [Ineq({x: -v for x, v in d.items()}, -k, True, isint)]]
        op = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt"}[op]
    if op == "lt":
        return [[Ineq(d, k, True, isint)]]
    if op == "le":
        return [[Ineq(d, k, False, isint)]]
    nd = {x: -v for x, v in d.items()}
    if op == "gt":
        return [[Ineq(nd, -k, True, isint)]]
    if op == "ge":
        return [[Ineq(nd, -k, False, isint)]]
    return [[Ineq(d, k, False, isint), Ineq(nd, -k, False, isint)]]


def empty(ineqs):
    """True only if the conjunction has no (real / tightened integer) solution."""
    cur = {}
    for q in ineqs:
        if not q.d:
            if q.c > 0 or (q.strict and q.c >= 0):
                return True
            continue
        cur[q.key()] = q
    qs = list(cur.values())
    while qs:
        occ = {}
        for q in qs:
            for k, v in q.d.items():
                p = occ.setdefault(k, [0, 0])
                p[0 if v > 0 else 1] += 1
        if not occ:
            break
        var = min(occ, key=lambda k: (occ[k][0] * occ[k][1], str(k)))
        up = [q for q in qs if q.d.get(var, 0) > 0]
        lo = [q for q in qs if q.d.get(var, 0) < 0]
        rest = {q.key(): q for q in qs if var not in q.d}
        if len(up) * len(lo) > LIMIT:
            return False
        for a in up:
            for b in lo:
                ka, kb = a.d[var], -b.d[var]
                d = {}
                for k, v in a.d.items():
                    d[k] = d.get(k, 0) + v * kb
                for k, v in b.d.items():
                    d[k] = d.get(k, 0) + v * ka
                d.pop(var, None)
                q = Ineq(d, a.c * kb + b.c * ka, a.strict or b.strict, a.isint and b.isint)
                if not q.d:
                    if q.c > 0 or (q.strict and q.c >= 0):
                        return True
                    continue
                rest[q.key()] = q
        qs = list(rest.values())
        if len(qs) > LIMIT:
            return False
    return False


def empty_lits(lits, depth=0):
    """Emptiness of a conjunction of literals (disequalities are split)."""
    base, alts = [], []
    for l in lits:
        r = lit_ineqs(l)
        if r is None:
            continue
        if len(r) == 1:
            base += r[0]
        else:
            alts.append(r)
    if empty(base):
        return True

    def go(base, alts):
        if empty(base):
            return True
        if not alts or len(alts) > 6:
            return False
        return all(go(base + a, alts[1:]) for a in alts[0])

    return go(base, alts) if alts else False
