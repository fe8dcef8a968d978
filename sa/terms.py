"""Hash-consed value-flow terms with semantic normal forms.

A term is a node of the value-flow graph.  Arithmetic is kept in polynomial
(Laurent) normal form over non-arithmetic atoms, comparisons in the form
`homogeneous polynomial <op> constant`, booleans in negation normal form.
Element-wise series arithmetic uses the same operators; `is_series` tells
series terms from scalar ones.
"""
from fractions import Fraction as F
import math

_tab = {}
_count = [0]


class T:
    __slots__ = ("op", "args", "id", "series", "intk", "boolk", "opq", "h")

    def __repr__(self):
        return show(self)


SERIES_OPS = {"col", "subcol", "shift", "roll", "ewm", "cum", "slice", "filter",
              "muS", "loopS", "rec", "seq", "align", "row", "ols", "rowagg", "opS", "ffill", "bfill",
              "listlit", "concat0", "posof", "index", "place", "seqf", "np", "sfn"}
SCALAR_OPS = {"cell", "aggr", "param", "n", "lv", "mu", "loopX", "search", "const", "none", "nan",
              "inf", "str", "opq", "exists", "typ", "isinst", "label", "count", "subsig", "pcell",
              "sumrange", "raises", "dictget", "psum", "aggrange"}
INT_OPS = {"n", "lv", "count", "row", "posof"}


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    _count[0] += 1
    t.id = _count[0]
    t.h = hash(key)
    if op in SERIES_OPS:
        t.series = True
    elif op in SCALAR_OPS:
        t.series = False
    else:
        t.series = any(_sub_series(a) for a in args)
    if op == "poly":
        t.intk = all(c.denominator == 1 and all(e >= 1 and a.intk for a, e in m) for m, c in args)
    elif op == "const":
        t.intk = args[0].denominator == 1
    elif op in INT_OPS:
        t.intk = True
    elif op == "param":
        t.intk = args[1] == "int"
    elif op in ("max", "min"):
        t.intk = all(a.intk for a in args)
    elif op in ("floor", "mod"):
        t.intk = True
    elif op == "abs":
        t.intk = args[0].intk
    elif op == "ite":
        t.intk = args[1].intk and args[2].intk
    elif op == "aggr":
        t.intk = args[0] in ("argmin", "argmax", "count", "lastpos", "firstpos")
    elif op in ("search",):
        t.intk = False
    else:
        t.intk = False
    t.boolk = op in ("lt", "le", "eq", "and", "or", "not", "bool", "isinst", "exists", "isnan",
                     "isnone", "raises", "truthy", "in", "nonempty")
    t.opq = op == "opq" or any(_sub_opq(a) for a in args)
    _tab[key] = t
    return t


def _sub_series(a):
    if isinstance(a, T):
        return a.series
    if isinstance(a, tuple):
        return any(_sub_series(x) for x in a)
    return False


def _sub_opq(a):
    if isinstance(a, T):
        return a.opq
    if isinstance(a, tuple):
        return any(_sub_opq(x) for x in a)
    return False


# ---------------------------------------------------------------- constants
def const(v):
    """Python value -> term."""
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, str):
        return mk("str", v)
    if isinstance(v, F):
        return mk("const", v)
    if isinstance(v, int):
        return mk("const", F(v))
    if isinstance(v, float):
        if math.isnan(v):
            return NAN
        if math.isinf(v):
            return mk("inf", 1 if v > 0 else -1)
        return mk("const", F(repr(v)))
    return mk("opq", "const", repr(v))


NONE = mk("none")
NAN = mk("nan")
TRUE = mk("bool", True)
FALSE = mk("bool", False)
ZERO = mk("const", F(0))
ONE = mk("const", F(1))
ROW = mk("row")


def is_const(t):
    return t.op in ("const", "str", "bool", "none", "nan", "inf")


def is_num(t):
    return t.op == "const"


def num(t):
    return t.args[0]


def pyval(t):
    """Constant term -> python value (ints as int)."""
    if t.op == "const":
        f = t.args[0]
        return int(f) if f.denominator == 1 else float(f)
    if t.op == "str":
        return t.args[0]
    if t.op == "bool":
        return t.args[0]
    if t.op == "none":
        return None
    if t.op == "nan":
        return float("nan")
    raise ValueError(t)


# --------------------------------------------------------------- polynomials
MAXMONO = 80


def _as_poly(t):
    """-> dict monomial -> coeff; monomial = tuple of (atom, exp) sorted by id"""
    if t.op == "const":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args)
    if t.op == "bool":
        return {(): F(1)} if t.args[0] else {}
    return {((t, 1),): F(1)}


def _mono_key(m):
    return tuple((skey(a), e) for a, e in m)


_skeys = {}


def skey(t):
    """Structure-based sort key, stable across runs and code variants."""
    k = _skeys.get(t.id)
    if k is None:
        k = (t.op, tuple(_akey(a) for a in t.args))
        k = _intern_key(k)
        _skeys[t.id] = k
    return k


def _akey(a):
    if isinstance(a, T):
        return skey(a)
    if isinstance(a, tuple):
        return "(" + ",".join(_akey(x) for x in a) + ")"
    return repr(a)


def _intern_key(k):
    op, ks = k
    s = op + "[" + "|".join(ks) + "]"
    if len(s) > 400:
        import hashlib
        s = op + "#" + hashlib.sha1(s.encode()).hexdigest()
    return s


def _from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk("const", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(d.items(), key=lambda mc: _mono_key(mc[0]))
    return mk("poly", *items)


def add(a, b):
    if a.op == "nan" or b.op == "nan":
        return NAN
    if a.op == "ite" and not a.series and is_const(b):
        return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    if b.op == "ite" and not b.series and is_const(a):
        return ite(b.args[0], add(a, b.args[1]), add(a, b.args[2]))
    if a.op == "ite" and b.op == "ite" and not a.series and not b.series and _small_ite(a) and _small_ite(b):
        return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    pa, pb = _as_poly(a), _as_poly(b)
    d = dict(pa)
    for m, c in pb.items():
        d[m] = d.get(m, 0) + c
    return _from_poly(d)


def _small_ite(t):
    return t.op == "ite" and all(is_num(x) or _small_ite(x) for x in t.args[1:])


def scale(a, c):
    if a.op == "nan":
        return NAN
    c = F(c)
    if c == 0:
        return ZERO
    return _from_poly({m: k * c for m, k in _as_poly(a).items()})


def neg(a):
    if _small_ite(a):
        return ite(a.args[0], neg(a.args[1]), neg(a.args[2]))
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def _mul_mono(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: skey(ae[0])))


def mul(a, b):
    if a.op == "nan" or b.op == "nan":
        return NAN
    if is_num(a):
        return scale(b, num(a))
    if is_num(b):
        return scale(a, num(b))
    pa, pb = _as_poly(a), _as_poly(b)
    if len(pa) * len(pb) > MAXMONO:
        x, y = sorted((a, b), key=skey)
        return mk("bigmul", x, y)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mul_mono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _from_poly(d)


def recip(b):
    if b.op == "nan":
        return NAN
    if is_num(b):
        if num(b) == 0:
            return mk("inf", 1)
        return mk("const", 1 / num(b))
    pb = _as_poly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        return _from_poly({tuple((a, -e) for a, e in m): 1 / c})
    # factor common monomial content and leading coefficient
    items = sorted(pb.items(), key=lambda mc: _mono_key(mc[0]))
    lead = items[0][1]
    norm = _from_poly({m: c / lead for m, c in items})
    return _from_poly({((norm, -1),): 1 / lead})


def div(a, b):
    if a is b and not is_const(a):
        pass  # x/x is not 1 for 0 or missing values
    if a.op == "nan" or b.op == "nan":
        return NAN
    if is_num(b) and num(b) == 0:
        return mk("opq", "div0", a)
    return mul(a, recip(b))


def power(a, b):
    if is_num(b) and num(b).denominator == 1 and 0 <= num(b) <= 4:
        r = ONE
        for _ in range(int(num(b))):
            r = mul(r, a)
        return r
    if is_num(b) and num(b) == F(1, 2):
        return mk("sqrt", a)
    return mk("pow", a, b)


def absv(a):
    if is_num(a):
        return mk("const", abs(num(a)))
    if a.op == "abs":
        return a
    p = _as_poly(a)
    items = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
    if not items:
        return ZERO
    lead = items[0][1]
    norm = scale(a, 1 / lead)
    if abs(lead) == 1:
        return mk("abs", norm)
    return scale(mk("abs", norm), abs(lead))


def nary(op, xs):
    """max / min over terms (order-free, idempotent)."""
    fl = []
    for x in xs:
        if x.op == op:
            fl.extend(x.args)
        else:
            fl.append(x)
    cs = [x for x in fl if is_num(x)]
    rest = [x for x in fl if not is_num(x)]
    if cs:
        rest.append(mk("const", (max if op == "max" else min)(num(x) for x in cs)))
    u = sorted(set(rest), key=skey)
    if len(u) == 1:
        return u[0]
    if not any(x.series for x in u):
        # simplify when differences are constant
        keep = list(u)
        for x in u:
            for y in keep:
                if y is not x and x in keep:
                    d = sub(y, x)
                    if is_num(d) and ((op == "max" and num(d) >= 0) or (op == "min" and num(d) <= 0)):
                        keep.remove(x)
                        break
        u = keep
        if len(u) == 1:
            return u[0]
    return mk(op, *u)


def tmax(*xs):
    return nary("max", xs)


def tmin(*xs):
    return nary("min", xs)


def floor_(a):
    """int()/floor for non-negative quantities."""
    if is_num(a):
        return mk("const", F(math.floor(num(a))))
    if a.intk:
        return a
    # pull integer part out of polynomial
    p = _as_poly(a)
    ip = {}
    fp = {}
    for m, c in p.items():
        if all(e >= 1 and x.intk for x, e in m):
            k = math.floor(c)
            if k:
                ip[m] = F(k)
            if c - k:
                fp[m] = c - k
        else:
            fp[m] = c
    if ip:
        return add(_from_poly(ip), mk("floor", _from_poly(fp)))
    return mk("floor", a)


def roundt(a, n):
    if is_num(a) and is_num(n):
        return mk("const", F(round(num(a), int(num(n)))))
    if a.op == "nan":
        return NAN
    if a.op == "round" and a.args[1] is n:
        return a
    return mk("round", a, n)


# --------------------------------------------------------------- comparisons
def _norm_cmp(a, b):
    """a ? b -> (L, c, flipped): sign-normalised homogeneous L compared with c.

    a - b = k * (L - c), flipped = (k < 0)."""
    p = _as_poly(sub(a, b))
    c0 = p.pop((), F(0))
    if not p:
        return None, c0, False
    items = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
    lead = items[0][1]
    L = _from_poly({m: c / abs(lead) if lead > 0 else c / lead for m, c in p.items()})
    # after division: if lead>0 L has lead 1; if lead<0 L = p/lead (lead 1), flipped
    k = lead if lead < 0 else abs(lead)
    return L, -c0 / k, lead < 0


def _cmpable(t):
    return t.op not in ("str", "none")


def compare(op, a, b):
    """op in lt le gt ge eq ne."""
    if op == "gt":
        return compare("lt", b, a)
    if op == "ge":
        return compare("le", b, a)
    if op == "ne":
        return not_(compare("eq", a, b))
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if op == "eq" and (a.op in ("str", "none", "bool") or b.op in ("str", "none", "bool")):
        return _eq_sym(a, b)
    # distribute over selections
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x.op == "ite" and not x.series:
            f = (lambda v: compare(op, v, y)) if not sw else (lambda v: compare(op, y, v))
            return ite(x.args[0], f(x.args[1]), f(x.args[2]))
    if op in ("lt", "le"):
        # expand max/min
        if a.op == "max":
            return and_(*[compare(op, x, b) for x in a.args])
        if a.op == "min":
            return or_(*[compare(op, x, b) for x in a.args])
        if b.op == "max":
            return or_(*[compare(op, a, x) for x in b.args])
        if b.op == "min":
            return and_(*[compare(op, a, x) for x in b.args])
        if a.op == "inf" or b.op == "inf":
            return mk("opq", "cmpinf", a, b)
    if op == "eq" and a is not b and a.intk and b.intk and ({a.op, b.op} & {"max", "min"}):
        return and_(compare("le", a, b), compare("le", b, a))
    if a.op in ("str", "none") or b.op in ("str", "none"):
        return mk("opq", "cmp", op, a, b)
    L, c, fl = _norm_cmp(a, b)
    if L is None:  # constant difference: a-b == c0
        v = {"lt": c < 0, "le": c <= 0, "eq": c == 0}[op]
        if v and a is b and not a.intk and a.op in ("cell", "col", "param", "shift", "round", "store", "slice"):
            return not_(mk("isnan", a))         # x == x is false for a missing x
        return const(bool(v))
    if L.op in ("count", "n"):
        v = _nonneg(op, c, fl)
        if v is not None:
            return v
        if op == "eq" and c == 0:
            op, fl = "le", False
    if L.intk:
        # integer tightening (all atoms integral and integral coefficients)
        if op == "lt":
            if not fl:
                return mk("le", L, F(math.ceil(c) - 1))
            return mk("not", mk("le", L, F(math.floor(c))))
        if op == "le":
            if not fl:
                return mk("le", L, F(math.floor(c)))
            return mk("not", mk("le", L, F(math.ceil(c) - 1)))
        if c.denominator != 1:
            return FALSE
        return mk("eq", L, c)
    if op == "eq":
        return mk("eq", L, c)
    if not fl:
        return mk(op, L, c)          # L < c / L <= c
    return mk("g" + op[1], L, c)     # L > c / L >= c   (gt / ge)


def _nonneg(op, c, fl):
    """comparison of a count (>= 0) decided by its sign"""
    if op == "eq":
        return FALSE if c < 0 else None
    if not fl:                       # L < c, L <= c
        return FALSE if c < 0 or (c == 0 and op == "lt") else None
    return TRUE if c < 0 or (c == 0 and op == "le") else None    # L > c, L >= c


def _eq_sym(a, b):
    if is_const(a) and is_const(b):
        if a.op == "bool" or b.op == "bool":
            try:
                return const(pyval(a) == pyval(b))
            except ValueError:
                return FALSE
        return const(a is b)
    if is_const(a):
        a, b = b, a
    if a.op == "ite" and not a.series:
        return ite(a.args[0], _eq_sym(a.args[1], b), _eq_sym(a.args[2], b))
    if b.op == "bool":
        if a.boolk:
            return a if b is TRUE else not_(a)
        return mk("seq_eq", a, b)
    if b.op == "none":
        return mk("isnone", a)
    return mk("seq_eq", a, b)


CMP_OPS = ("lt", "le", "gt", "ge", "eq")


def truth(a):
    """Truthiness of a scalar term."""
    if a.op == "bool":
        return a
    if a.op == "const":
        return const(num(a) != 0)
    if a.op == "str":
        return const(bool(a.args[0]))
    if a.op == "none":
        return FALSE
    if a.op == "nan":
        return TRUE
    if is_boolish(a):
        return a
    if a.op == "ite":
        return ite(a.args[0], truth(a.args[1]), truth(a.args[2]))
    if a.intk:
        return not_(compare("eq", a, ZERO))
    if a.opq:
        return mk("truthy", a)
    return mk("truthy", a)


def is_boolish(a):
    return (a.op in CMP_OPS + ("and", "or", "not", "bool", "isinst", "exists", "isnan", "isnone",
                               "raises", "truthy", "seq_eq", "in", "strin", "nonempty", "opb")
            or (a.op == "ite" and is_boolish(a.args[1]) and is_boolish(a.args[2])))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    if a.op == "ite":
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    if a.op == "const":
        return const(num(a) == 0)
    return mk("not", a)


def _junc(op, xs):
    unit, zero = (TRUE, FALSE) if op == "and" else (FALSE, TRUE)
    fl = []
    for x in xs:
        if x.op == op:
            fl.extend(x.args)
        else:
            fl.append(x)
    s = []
    seen = set()
    for x in fl:
        if x is zero:
            return zero
        if x is unit or x.id in seen:
            continue
        seen.add(x.id)
        s.append(x)
    for x in s:
        nx = x.args[0] if x.op == "not" else None
        if nx is not None and nx.id in seen:
            return zero
    if not s:
        return unit
    if len(s) == 1:
        return s[0]
    s.sort(key=skey)
    # absorption: and(x, or(x, y)) = x
    dual = "or" if op == "and" else "and"
    drop = [x for x in s if x.op == dual and any(y.id in seen and y is not x for y in x.args)]
    if drop:
        s = [x for x in s if x not in drop]
        return _junc(op, s)
    return mk(op, *s)


def and_(*xs):
    return _junc("and", xs)


def or_(*xs):
    return _junc("or", xs)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is TRUE:
        return or_(c, b) if is_boolish(b) else mk("ite", c, a, b)
    if b is FALSE and is_boolish(a):
        return and_(c, a)
    if a is FALSE and is_boolish(b):
        return and_(not_(c), b)
    if b is TRUE and is_boolish(a):
        return or_(not_(c), a)
    if a.op == "store" and not c.series:
        if b.op == "store" and a.args[1] is b.args[1] and a.args[0] is b.args[0]:
            return mk("store", a.args[0], a.args[1], ite(c, a.args[2], b.args[2]))
        if a.args[0] is b:
            return mk("store", b, a.args[1], ite(c, a.args[2], cell(b, a.args[1])))
    if b.op == "store" and not c.series and b.args[0] is a:
        return mk("store", a, b.args[1], ite(c, cell(a, b.args[1]), b.args[2]))
    if a is NAN and b.series and c.op == "le" and _lead_covers(b, c):
        return b
    # ite(c, ite(c,x,y), b)
    if a.op == "ite" and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == "ite" and b.args[0] is c:
        return ite(c, a, b.args[2])
    return mk("ite", c, a, b)


def _row_bound(c):
    """c == (row <= K) -> K, else None"""
    if c.op != "le":
        return None
    p = dict(_as_poly(c.args[0]))
    k = p.pop(((ROW, 1),), None)
    if k != 1:
        return None
    rest = _from_poly(p)
    if any(x is ROW for x in subterms(rest)):
        return None
    return sub(mk("const", c.args[1]), rest)


def leads(t):
    """counts of guaranteed missing leading rows of a series (lower bounds)"""
    op, a = t.op, t.args
    if op == "shift":
        if is_num(a[1]) and num(a[1]) < 0:
            return []
        return [add(a[1], x) for x in (leads(a[0]) or [ZERO])]
    if op == "roll":
        return [add(sub(a[2], ONE), x) for x in (leads(a[0]) or [ZERO])]
    if op == "ewm":
        return [add(sub(a[2], ONE), x) for x in (leads(a[0]) or [ZERO])] if is_num(a[2]) else leads(a[0])
    if op == "poly":
        out = []
        for m, _ in a:
            for x, _e in m:
                if x.series:
                    out += leads(x)
        return out
    if op in ("round", "abs", "sqrt", "log", "exp"):
        return leads(a[0])
    if op == "ite" and a[1] is NAN:
        k = _row_bound(a[0])
        return ([add(k, ONE)] if k is not None else []) + leads(a[2])
    return []


def _lead_covers(b, c):
    k = _row_bound(c)
    if k is None:
        return False
    for x in leads(b):
        d = sub(x, k)
        if is_num(d) and num(d) >= 1:
            return True
    return False


# ------------------------------------------------------------------ traversal
ELEMENTWISE = {"poly", "bigmul", "abs", "max", "min", "floor", "mod", "round", "sqrt", "pow", "lt", "le",
               "gt", "ge", "eq", "and", "or", "not", "ite", "isnan", "log", "exp", "sign",
               "truthy", "seq_eq", "isnone", "opE", "astype", "fillna"}


def rebuild(t, f):
    """Rebuild t with f applied to the direct sub-terms (smart constructors)."""
    op = t.op
    if op == "poly":
        r = ZERO
        for m, c in t.args:
            x = mk("const", c)
            for a, e in m:
                fa = f(a)
                if e > 0:
                    for _ in range(e):
                        x = mul(x, fa)
                else:
                    for _ in range(-e):
                        x = div(x, fa)
            r = add(r, x)
        return r
    if op == "abs":
        return absv(f(t.args[0]))
    if op in ("max", "min"):
        return nary(op, [f(a) for a in t.args])
    if op in CMP_OPS:
        return compare(op, f(t.args[0]), mk("const", t.args[1]))
    if op == "and":
        return and_(*[f(a) for a in t.args])
    if op == "or":
        return or_(*[f(a) for a in t.args])
    if op == "not":
        return not_(f(t.args[0]))
    if op == "ite":
        return ite(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if op == "floor":
        return floor_(f(t.args[0]))
    if op == "round":
        return roundt(f(t.args[0]), f(t.args[1]))
    if op == "truthy":
        return truth(f(t.args[0]))
    if op == "cell":
        return cell(f(t.args[0]), f(t.args[1]))
    if op == "shift":
        return shift(f(t.args[0]), f(t.args[1]))
    if op == "slice":
        return slice_(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if op == "place":
        return place(f(t.args[0]), f(t.args[1]))
    if op == "seq_eq":
        return _eq_sym(f(t.args[0]), f(t.args[1]))
    if op == "isnone":
        return _eq_sym(f(t.args[0]), NONE)
    return mk(op, *[_reb(a, f) for a in t.args])


def _reb(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_reb(x, f) for x in a)
    return a


def subst(t, m, memo=None):
    """Substitute terms by identity: m maps T -> T."""
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            if x in m:
                r = m[x]
            elif not any(isinstance(a, (T, tuple)) for a in x.args):
                r = x
            else:
                r = rebuild(x, go)
            memo[x.id] = r
        return r

    return go(t)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for a in x.args:
            _push(a, stack)


def _push(a, stack):
    if isinstance(a, T):
        stack.append(a)
    elif isinstance(a, tuple):
        for y in a:
            _push(y, stack)


def children(t):
    out = []
    for a in t.args:
        _push(a, out)
    return out


def has_op(t, *ops):
    return any(x.op in ops for x in subterms(t))


# ------------------------------------------------------------------ series ops
def _distribute(t, f):
    """Apply f to the series operands of an element-wise term, keep scalars."""
    return rebuild(t, lambda a: f(a) if a.series else a)


STRICT = ("poly", "bigmul", "abs", "max", "min", "floor", "mod", "round", "sqrt", "pow", "log", "exp", "sign", "astype")


def strict(s):
    """missing operands give a missing value, so that shifting the operands shifts the value"""
    if s.op in STRICT:
        return True
    return s.op == "ite" and not is_boolish(s) and all(a.series or a is NAN for a in s.args[1:]) and s.args[0].series


def shift(s, k):
    if not s.series:
        return s
    if is_num(k) and num(k) == 0:
        return s
    if s.op == "shift":
        k2 = add(s.args[1], k)
        a, b = s.args[1], k
        if is_num(a) and is_num(b) and (num(a) >= 0) == (num(b) >= 0):
            return shift(s.args[0], k2)
        if not (is_num(a) and is_num(b)):
            return mk("shift", s, k)
        return mk("shift", s, k)
    if strict(s):
        return _distribute(s, lambda a: shift(a, k))
    return mk("shift", s, k)


def place(s, lo):
    """Series s positioned at row lo of a longer axis."""
    if not s.series or (is_num(lo) and num(lo) == 0):
        return s
    if s.op == "slice" and s.args[1] is lo:
        return s.args[0]
    if s.op == "row":
        return sub(ROW, lo)
    if s.op in ELEMENTWISE:
        return _distribute(s, lambda a: place(a, lo))
    return mk("place", s, lo)


def slice_(s, lo, hi):
    """Positions lo..hi (hi may be NONE for the end)."""
    if not s.series:
        return s
    if is_num(lo) and num(lo) == 0 and hi is NONE:
        return s
    if s.op == "slice":
        l2 = add(s.args[1], lo)
        if hi is NONE:
            return slice_(s.args[0], l2, s.args[2])
        return slice_(s.args[0], l2, add(s.args[1], hi))
    if s.op == "row" and hi is NONE:
        return add(ROW, lo)
    if s.op in ELEMENTWISE:
        return _distribute(s, lambda a: slice_(a, lo, hi))
    return mk("slice", s, lo, hi)


def cell(s, r):
    """Value of series s at row r (a normalised non-negative position)."""
    if not s.series:
        return s
    if r.op == "ite":
        return ite(r.args[0], cell(s, r.args[1]), cell(s, r.args[2]))
    op = s.op
    if op in ELEMENTWISE:
        return _distribute(s, lambda a: cell(a, r))
    if op == "row":
        return r
    if op == "shift":
        return cell(s.args[0], sub(r, s.args[1]))
    if op == "slice":
        return cell(s.args[0], add(s.args[1], r))
    if op == "store":
        base, row, v = s.args
        d = sub(row, r)
        if is_num(d):
            return v if num(d) == 0 else cell(base, r)
        return ite(compare("eq", row, r), v, cell(base, r))
    if op == "place":
        return cell(s.args[0], sub(r, s.args[1]))
    if op == "seq":
        # seq(n, depth, body): body with lv(depth) := r
        return subst(s.args[2], {mk("lv", s.args[1]): r})
    return mk("cell", s, r)


def store(s, row, v):
    if s is v and not s.series:
        return s
    return mk("store", s if isinstance(s, T) else s, row, v)


# store is a series by construction
SERIES_OPS.add("store")


def linear_split(s):
    """poly of series -> list of (scalar coefficient term, series part)."""
    p = _as_poly(s)
    out = []
    for m, c in p.items():
        sc = tuple((a, e) for a, e in m if not a.series)
        se = tuple((a, e) for a, e in m if a.series)
        out.append((_from_poly({sc: c}), _from_poly({se: F(1)}) if se else ONE))
    return out


def linear_map(s, f):
    """Apply a linear series operator f to s, distributing over sums."""
    if not s.series:
        return f(s)
    if s.op != "poly":
        return f(s)
    r = ZERO
    for c, x in linear_split(s):
        r = add(r, mul(c, f(x)))
    return r


def scalar_map(s, f):
    """Apply a homogeneous (not additive: missing values are skipped) operator: scalar factors move out."""
    if not s.series or s.op != "poly":
        return f(s)
    parts = linear_split(s)
    scs = [dict(next(iter(_as_poly(c)))) if is_num(c) or c.op != "poly" or len(c.args) == 1 else {} for c, _ in parts]
    com = dict(scs[0])
    for d in scs[1:]:
        com = {a: e for a, e in com.items() if d.get(a) == e}
    p = _as_poly(s)
    lead = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))[0][1]
    k = _from_poly({tuple(sorted(com.items(), key=lambda ae: skey(ae[0]))): lead})
    inner = _from_poly({_mul_mono(m, tuple((a, -e) for a, e in com.items())): c / lead for m, c in p.items()})
    return mul(k, f(inner))


def roll(s, w, minp, agg):
    if agg == "mean" and minp is w:
        return div(roll(s, w, minp, "sum"), w)
    if agg in ("sum",) and minp is w:
        return linear_map(s, lambda x: mk("roll", x, w, minp, agg))
    return mk("roll", s, w, minp, agg)


def ewm(s, alpha, minp, adjust, ignore=None):
    if ignore is not None and ignore is not FALSE:
        return scalar_map(s, lambda x: mk("ewm", x, alpha, minp, adjust, ignore))
    return scalar_map(s, lambda x: mk("ewm", x, alpha, minp, adjust))


# -------------------------------------------------------------------- printing
_budget = [0]


def show(t, depth=0):
    if depth == 0:
        _budget[0] = 400
    _budget[0] -= 1
    if depth > 14 or _budget[0] < 0:
        return "..."
    op, a = t.op, t.args
    s = lambda x: show(x, depth + 1) if isinstance(x, T) else (
        "(" + ",".join(s(y) for y in x) + ")" if isinstance(x, tuple) else str(x))
    if op == "const":
        f = a[0]
        return str(f) if f.denominator == 1 else ("%g" % float(f))
    if op == "str":
        return repr(a[0])
    if op == "bool":
        return str(a[0])
    if op == "none":
        return "None"
    if op == "nan":
        return "NaN"
    if op == "row":
        return "#row"
    if op == "param":
        return a[0]
    if op == "n":
        return "n_" + str(a[0])
    if op == "lv":
        return "i%s" % a[0]
    if op == "col":
        return "%s.%s" % (a[0], a[1])
    if op == "cell":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "poly":
        out = []
        for m, c in a:
            fs = []
            for x, e in m:
                fs.append(s(x) + ("" if e == 1 else "^%d" % e))
            cs = str(c) if c.denominator == 1 else "%g" % float(c)
            if fs and c == 1:
                out.append("*".join(fs))
            elif fs and c == -1:
                out.append("-" + "*".join(fs))
            else:
                out.append("*".join([cs] + fs))
        return "(" + " + ".join(out).replace("+ -", "- ") + ")"
    if op in ("lt", "le", "gt", "ge", "eq"):
        sym = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "=="}[op]
        f = a[1]
        return "(%s %s %s)" % (s(a[0]), sym, f if f.denominator == 1 else "%g" % float(f))
    if op == "ite":
        return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if op in ("and", "or"):
        return "(" + (" %s " % op).join(s(x) for x in a) + ")"
    return op + "(" + ", ".join(s(x) for x in a) + ")"
