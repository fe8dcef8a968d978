"""C09, C15, C16: what input validation makes of any caller's object.

The transformer extracted from validateInputData (guards of its exits, term of the returned frame) is applied to abstract
frames: the kind of object, the kind of index, the row order, labels and kinds of the columns, and for each cell the input
cell it comes from (or a gap).  Nothing numeric is computed; the oracle states, per abstract frame, which documented error
or which provenance every cell must have."""
import ast
from .common import *
from . import effects
from .effects import validate_run, find_fn, caller_frame, alias_tag
from ..interp import State, Ctx, Exit

GAP = None
FOREIGN = "value not in the input"


class Unk(Exception):
    """an operation the abstract domain does not cover"""


class Err(Exception):
    """the operation fails with this class of error"""

    def __init__(self, cls):
        self.cls = cls


class AF:
    """abstract frame: kind of object, kind of index, dates of the rows (ranks), columns (label, dtype, cells)"""

    def __init__(self, dates, cols, kind="DataFrame", idx="DatetimeIndex", tz=False, clock=False, moved=None):
        self.kind, self.idx, self.dates, self.cols = kind, idx, list(dates), [(a, b, list(c)) for a, b, c in cols]
        self.tz, self.clock, self.moved = tz, clock, moved      # time zone, times of day, what changed the dates

    def like(self, dates=None, cols=None, **kw):
        f = AF(self.dates if dates is None else dates, self.cols if cols is None else cols, self.kind, self.idx, self.tz, self.clock,
               self.moved)
        f.__dict__.update(kw)
        return f

    def need(self, *kinds):
        if self.kind not in kinds:
            raise Err("AttributeError")

    def labels(self):
        return [a for a, _, _ in self.cols]

    def col(self, name):
        for a, b, c in self.cols:
            if a == name and isinstance(a, str) == isinstance(name, str):
                return a, b, c
        raise Err("KeyError")


NUMERIC = ("float64", "int64", "float32", "int32")
DFS = ("DataFrame",)
KINDS = {"float": "f", "int": "i", "uint": "u", "bool": "b", "complex": "c", "datetime64[ns]": "M"}
DTYPES = {"is_numeric_dtype": lambda d: d in NUMERIC or d in ("bool", "complex128"),
          "is_float_dtype": lambda d: d.startswith("float"),
          "is_integer_dtype": lambda d: d.startswith(("int", "uint")),
          "is_signed_integer_dtype": lambda d: d.startswith("int"),
          "is_int64_dtype": lambda d: d == "int64",
          "is_bool_dtype": lambda d: d == "bool",
          "is_object_dtype": lambda d: d == "object",
          "is_string_dtype": lambda d: d in ("object", "string"),
          "is_categorical_dtype": lambda d: d == "category",
          "is_complex_dtype": lambda d: d == "complex128",
          "is_any_real_numeric_dtype": lambda d: d in NUMERIC,
          "is_datetime64_any_dtype": lambda d: d.startswith("datetime64"),
          "is_datetime64_dtype": lambda d: d == "datetime64[ns]",
          "is_datetime64_ns_dtype": lambda d: d.startswith("datetime64")}
PANDAS = ("DataFrame", "Series")


def date_prop(name, d):
    """properties of an index with these dates (none is missing)"""
    if name == "is_monotonic_increasing":
        return list(d) == sorted(d)
    if name == "is_monotonic_decreasing":
        return list(d) == sorted(d, reverse=True)
    if name == "hasnans":
        return False
    return (len(set(d)) == len(d)) == (name == "is_unique")


PYCMP = {"Lt": lambda x, y: x < y, "LtE": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "GtE": lambda x, y: x >= y,
         "Eq": lambda x, y: x == y, "NotEq": lambda x, y: x != y}


def value(tok):
    """the number a cell stands for in comparisons with constants"""
    if tok is FOREIGN:
        raise Unk("comparison of a changed value")
    return float(tok.split("=")[1]) if "=" in tok else 10 + int(tok.split("@")[1])


class Ev:
    """abstract evaluation of the extracted terms on one abstract frame"""

    def __init__(self, frame, params):
        self.f, self.params, self.env, self.mus = frame, params, {}, {}

    # ------------------------------------------------------------- booleans
    def b(self, t):
        o = t.op
        if o == "eq" and t.args[0].op == "poly":
            ks = [x for mono, _ in lin._as_poly(t.args[0]).items() for x, _ in mono]
            if len(ks) == 2 and t.args[1] == 0 and any(x.op == "opL" and x.args[0] == "dtype" for x in ks):
                d, k = ks if ks[0].op == "opL" and ks[0].args[0] == "dtype" else ks[::-1]
                while k.op == "opq" and k.args[0] == "align":
                    k = k.args[1]
                nm = {"ext:object": "object", "ext:float": "float64", "ext:int": "int64", "ext:bool": "bool", "ext:numpy.float64": "float64",
                      "ext:numpy.int64": "int64", "ext:numpy.object_": "object", "ext:str": "object"}.get(str(k.args[0]))
                if nm is None:
                    raise Unk("dtype")
                return self.dtype(d) == nm
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if o == "not":
            return not self.b(t.args[0])
        if o in ("and", "or"):
            stop = o == "or"
            pend = None
            for a in t.args:
                try:
                    if self.b(a) is stop:
                        return stop
                except (Unk, Err) as e:
                    pend = pend or e
            if pend:
                raise pend
            return not stop
        if o == "ite":
            return self.b(t.args[1]) if self.b(t.args[0]) else self.b(t.args[2])
        if o == "isinst":
            return self.isinst(t.args[0], t.args[1])
        if o == "truthy":
            return self.truthy(t.args[0])
        if o == "in":
            return self.label(t.args[0]) in self.labelset(t.args[1])
        if o == "strin":
            x, y = self.label(t.args[0]), self.label(t.args[1])
            if not isinstance(x, str) or not isinstance(y, str):
                raise Err("TypeError")
            return x in y
        if o in ("seq_eq", "eq") and len(t.args) == 2 and isinstance(t.args[1], T):
            return self.label(t.args[0]) == self.label(t.args[1])
        if o in ("lt", "le", "gt", "ge", "eq"):
            x, c = self.num(t.args[0]), t.args[1]
            return {"lt": x < c, "le": x <= c, "gt": x > c, "ge": x >= c, "eq": x == c}[o]
        if o == "opb" and t.args[0] in IDX_PROPS and isinstance(t.args[1], T):
            return date_prop(t.args[0], self.dates_of(t.args[1]))
        if o in ("exists", "forall", "all", "any"):
            uid, lo, hi, body = t.args[0], t.args[1], t.args[2], t.args[-1]
            return self.quant(o, uid, lo, hi, body)
        raise Unk(o)

    def dates_of(self, t):
        if t.op == "opL" and t.args[0] == "index":
            f = self.frame(t.args[1])
            f.need(*PANDAS)
            return f.dates
        if hasattr(self, "dates"):
            return self.dates(t)
        raise Unk("dates")

    def quant(self, o, uid, lo, hi, body):
        stop = o in ("exists", "any")
        for k in range(int(self.num(lo)), int(self.num(hi))):
            self.env[uid] = k
            if self.b(body) is stop:
                return stop
        return not stop

    def isinst(self, x, name):
        if not isinstance(name, str):
            raise Unk("isinst")
        if x.op in ("opF", "ite"):
            return self.frame(x).kind == name
        if x.op == "opL" and x.args[0] == "index":
            f = self.frame(x.args[1])
            f.need(*PANDAS)
            return f.idx == name or (name == "Index")
        if x.op == "colname" or x.op == "strop":
            v = self.label(x)
            return {"str": isinstance(v, str), "int": isinstance(v, int)}.get(name, False)
        if x.op == "param":
            v = self.params.get(x.args[0])
            return type(v).__name__ == name or (name == "int" and isinstance(v, bool))
        raise Unk("isinst")

    def truthy(self, x):
        o = x.op
        if o == "truthy":
            return self.truthy(x.args[0])
        if o == "param":
            if x.args[0] in self.params:
                return bool(self.params[x.args[0]])
            raise Unk("param")
        if o == "opL":
            nm = x.args[0]
            if nm == "empty":
                f = self.frame(x.args[1])
                f.need(*PANDAS)
                return not f.dates or (f.kind == "DataFrame" and not f.cols)
            if nm in DTYPES and len(x.args) == 2:
                return DTYPES[nm](self.dtype(x.args[1]))
            if nm.startswith("issubdtype:"):
                d, k = self.dtype(x.args[1]), nm.split(":")[1]
                g = {"number": lambda d: d in NUMERIC, "floating": lambda d: d.startswith("float"), "integer": lambda d: d.startswith(("int", "uint")),
                     "signedinteger": lambda d: d.startswith("int"), "float64": lambda d: d == "float64", "int64": lambda d: d == "int64",
                     "inexact": lambda d: d.startswith(("float", "complex")), "object_": lambda d: d == "object", "bool_": lambda d: d == "bool",
                     "datetime64": lambda d: d.startswith("datetime64")}.get(k)
                if g is None:
                    raise Unk(nm)
                return g(d)
        if o in ("and", "or", "not", "isinst", "in", "seq_eq", "ite"):
            return self.b(x)
        if o == "strop" and x.args[0] in ("startswith", "endswith", "isupper", "islower", "isdigit", "isalpha", "istitle"):
            v = self.label(x.args[1])
            if not isinstance(v, str):
                raise Err("AttributeError")
            return bool(getattr(v, x.args[0])(*[self.label(y) for y in x.args[2:]]))
        v = self.data(x)
        if isinstance(v, (bool, int)):
            return bool(v)
        if v is not None:
            raise Err("ValueError")         # truth value of a column or frame
        raise Unk("truthy " + o + (str(x.args[0]) if x.args and isinstance(x.args[0], str) else ""))

    def data(self, t):
        """columns, frames of flags and their aggregates: bool | number | list | ("frm", columns); None when not covered"""
        if t.op == "opSF" and t.args[0] == "col":
            f = self.frame(t.args[1])
            f.need(*DFS)
            return list(f.col(self.label(t.args[2]))[2])
        if t.op == "truthy":
            return self.data(t.args[0])
        if t.op == "not" or t.op in ("opE", "opSF", "opL") and t.args[0] == "invert":
            v = self.data(t.args[-1])
            inv = lambda x: (not x) if isinstance(x, bool) else None
            if isinstance(v, tuple):
                return (v[0], [[inv(x) for x in c] for c in v[1]])
            return None if v is None else [inv(x) for x in v] if isinstance(v, list) else inv(v)
        if t.op not in ("opSF", "opL") or not isinstance(t.args[0], str):
            return None
        nm = t.args[0].split(".")[-1]
        opts = t.args[2:]
        if nm in ("values", "to_numpy") and t.args[0].startswith("."):
            v = self.data(t.args[1])
            return ("npf", v[1]) if isinstance(v, tuple) else v
        axis = 0
        if t.args[0] == "frm.cmp":
            opts = ()
        if t.args[0].startswith("."):
            v = self.data(t.args[1])
            if isinstance(v, tuple) and v[0] == "npf":
                axis = None
        for x in opts:
            if x.op == "opL" and x.args[0] == "kw:axis":
                x = x.args[1]
            if is_num(x) and int(x.args[0]) in (0, 1):
                axis = int(x.args[0])
            elif x.op == "str" and x.args[0] in ("index", "columns"):
                axis = int(x.args[0] == "columns")
            elif x is NONE:
                axis = None
            else:
                return None
        if t.args[0] == "frm.cmp":
            f = self.frame(t.args[1])
            f.need(*DFS)
            op, c = PYCMP[t.args[2].args[0]], self.num(t.args[3])
            if any(d not in NUMERIC for _, d, _ in f.cols):
                raise Unk("comparison of texts")
            return ("frm", [[x is not GAP and bool(op(value(x), c)) for x in c2] for _, _, c2 in f.cols])
        if t.args[0].startswith("frm."):
            f = self.frame(t.args[1])
            f.need(*DFS)
            v = ("frm", [list(c) for _, _, c in f.cols])
        elif t.args[0].startswith("."):
            v = self.data(t.args[1])
        else:
            return None
        if v is None:
            return None
        if nm in ("isna", "isnull", "notna", "notnull"):
            g = lambda x: (x is GAP) == nm.startswith("is")
            return ("frm", [[g(x) for x in c] for c in v[1]]) if isinstance(v, tuple) else [g(x) for x in v] \
                if isinstance(v, list) else None
        if nm in ("any", "all", "sum"):
            h = {"any": any, "all": all, "sum": sum}[nm]
            if isinstance(v, tuple):
                cols = v[1]
                if not all(isinstance(x, bool) for c in cols for x in c):
                    return None
                if axis is None:
                    return h(x for c in cols for x in c)
                return [h(c) for c in cols] if axis == 0 else [h(r) for r in zip(*cols)]
            if isinstance(v, list) and all(isinstance(x, (bool, int)) for x in v):
                return h(v)
        return None

    def dtype(self, t):
        if t.op == "opL" and t.args[0] == "dtype":
            return self.dtype(t.args[1])
        if t.op == "opSF" and t.args[0] == "col":
            f = self.frame(t.args[1])
            f.need(*DFS)
            return f.col(self.label(t.args[2]))[1]
        raise Unk("dtype")

    # -------------------------------------------------------------- numbers
    def num(self, t):
        if t.op == "const":
            return t.args[0]
        if t.op == "opI":
            if t.args[0] == "ncols":
                f = self.frame(t.args[1])
                f.need(*DFS)
                return len(f.cols)
            if t.args[0] == "len":
                if t.args[1].op == "opL" and t.args[1].args[0] == "index":
                    return len(self.dates_of(t.args[1]))
                if t.args[1].op == "colset":
                    return len(self.labelset(t.args[1]))
                f = self.frame(t.args[1])
                f.need(*PANDAS)
                return len(f.dates)
            if t.args[0] == "filtlen":
                _, nm, lo, hi, c = t.args
                n, old = 0, self.env.get(nm)
                for k in range(int(self.num(lo)), int(self.num(hi))):
                    self.env[nm] = k
                    n += self.b(c)
                self.env[nm] = old
                return n
            raise Unk("opI")
        if t.op == "lv":
            if t.args[0] in self.env:
                return self.env[t.args[0]]
            raise Unk("lv")
        if t.op == "item" and t.args[0].op == "opL" and t.args[0].args[0] == "index":
            f = self.frame(t.args[0].args[1])
            f.need(*PANDAS)
            k = int(self.num(t.args[1]))
            if not -len(f.dates) <= k < len(f.dates):
                raise Err("IndexError")
            return f.dates[k]
        if t.op == "aggr" and t.args[0] in ("min", "max") and t.args[1].op == "opL" and t.args[1].args[0] == "index":
            f = self.frame(t.args[1].args[1])
            if not f.dates:
                raise Unk("extreme of no dates")
            return (min if t.args[0] == "min" else max)(f.dates)
        if t.op in ("opSF", "opL"):
            v = self.data(t)
            if isinstance(v, (bool, int)):
                return int(v)
        m = lin._as_poly(t).items()
        s = 0
        for mono, c in m:
            if mono == ((t, 1),):
                raise Unk(t.op)
            x = c
            for a, e in mono:
                x *= self.num(a) ** e
            s += x
        return s

    # --------------------------------------------------------------- labels
    def label(self, t):
        o = t.op
        if o == "str":
            return t.args[0]
        if o == "const":
            return int(t.args[0])
        if o == "colname":
            f = self.frame(t.args[0])
            f.need(*DFS)
            k = int(self.num(t.args[1]))
            return f.labels()[k]
        if o == "strop" and len(t.args) == 2:
            v = self.label(t.args[1])
            if not isinstance(v, str):
                raise Err("AttributeError")
            f = {"lower": str.lower, "upper": str.upper, "strip": str.strip, "casefold": str.casefold, "title": str.title,
                 "capitalize": str.capitalize, "lstrip": str.lstrip, "rstrip": str.rstrip, "swapcase": str.swapcase}.get(t.args[0])
            if f is None:
                raise Unk("strop")
            return f(v)
        if o == "strop" and t.args[0] in ("replace", "removeprefix", "removesuffix", "strip", "lstrip", "rstrip"):
            v = self.label(t.args[1])
            if not isinstance(v, str):
                raise Err("AttributeError")
            return getattr(v, t.args[0])(*[self.label(x) for x in t.args[2:]])
        if o == "opL" and t.args[0] in ("dtkind", "dtname"):
            d = self.dtype(t.args[1])
            return d if t.args[0] == "dtname" else KINDS.get(d.rstrip("0123456789"), "O")
        if o == "opL" and t.args[0] == "dtype":
            return self.dtype(t)
        if o == "tostr":
            return str(self.label(t.args[0]))
        if o == "ite":
            return self.label(t.args[1]) if self.b(t.args[0]) else self.label(t.args[2])
        if o == "item":
            return self.labels(t.args[0])[int(self.num(t.args[1]))]
        if o == "cell":
            return self.labels(t.args[0])[int(self.num(t.args[1]))]
        raise Unk("label " + o)

    def labelset(self, t):
        if t.op == "colset":
            f = self.frame(t.args[0])
            f.need(*DFS)
            return f.labels()
        return self.labels(t)

    def labels(self, t):
        """a sequence of labels"""
        o = t.op
        if o == "colmap":
            f = self.frame(t.args[0])
            f.need(*DFS)
            out, old = [], self.env.get("bC")
            for k in range(len(f.cols)):
                self.env["bC"] = k
                if t.args[2] is TRUE or self.b(t.args[2]):
                    out.append(self.label(t.args[1]))
            self.env["bC"] = old
            return out
        if o == "seq":
            n = self.nlabels(t)
            out = []
            for k in range(n):
                self.env[t.args[1]] = k
                out.append(self.label(t.args[2]))
            return out
        if o == "ite":
            n = self.nlabels(t)
            return [self.at(t, k) for k in range(n)]
        if o == "opS" and t.args[0] == "gen" and len(t.args) == 6:
            _, c, x, nm, lo, hi = t.args
            out, old = [], self.env.get(nm)
            for k in range(int(self.num(lo)), int(self.num(hi))):
                self.env[nm] = k
                if self.b(c):
                    out.append(self.label(x))
            self.env[nm] = old
            return out
        if o == "colset":
            return self.labelset(t)
        if o == "opq" and t.args[0] in ("list", "tuple", "set"):
            return [self.label(a) for a in t.args[1:]]
        if o == "opL" and t.args[0] in ("coldifference", "colintersection", "colisin"):
            f = self.frame(t.args[1])
            ys = self.labels(t.args[2])
            return [x for x in f.labels() if (x in ys) == (t.args[0] != "coldifference")]
        if o == "str":
            return [t.args[0]]
        if o in ("colname", "strop", "cell", "item"):
            return [self.label(t)]
        raise Unk("labels " + o)

    def nlabels(self, t):
        ns = set()
        for x in subterms(t):
            if x.op == "colname":
                f = self.frame(x.args[0])
                f.need(*DFS)
                ns.add(len(f.cols))
        if len(ns) != 1:
            raise Unk("length of a label sequence")
        return ns.pop()

    def at(self, t, k):
        if t.op == "seq":
            self.env[t.args[1]] = k
            return self.label(t.args[2]) if not is_boolish(t.args[2]) else self.b(t.args[2])
        if t.op == "ite":
            return self.at(t.args[1], k) if self.at(t.args[0], k) is True else self.at(t.args[2], k)
        if t.op in ("and", "or", "not"):
            xs = [self.at(a, k) for a in t.args]
            return all(xs) if t.op == "and" else any(xs) if t.op == "or" else not xs[0]
        if t.op == "truthy" and t.args[0].op == "seq":
            self.env[t.args[0].args[1]] = k
            return self.truthy(t.args[0].args[2])
        if t.op == "isinst" or t.op in ("in", "seq_eq", "truthy"):
            return self.b(t)
        return self.label(t)

    # --------------------------------------------------------------- frames
    def frame(self, t):
        o = t.op
        if o == "ite":
            return self.frame(t.args[1]) if self.b(t.args[0]) else self.frame(t.args[2])
        if o == "mu":
            k = (t.args[0], t.args[1])
            if k in self.mus:
                return self.mus[k]
            raise Unk("mu")
        if o == "opSF" and t.args[0] == "col":
            f = self.frame(t.args[1])
            f.need(*DFS)
            return f.like(cols=[f.col(self.label(t.args[2]))])
        if o != "opF" and not (o == "opSF" and str(t.args[0]).startswith(".")):
            raise Unk("frame " + o)
        nm, a = t.args[0], t.args[1:]
        if o == "opSF":
            nm = nm[1:]
        if nm == "caller":
            return self.f
        if nm == "loop":
            uid, lo, hi, body, init = a
            cur = self.frame(init)
            n = int(self.num(hi))
            k = (uid, 0)
            old = self.mus.get(k)
            for i in range(0, n):
                self.env[uid], self.mus[k] = i, cur
                cur = self.frame(body)
            if old is None:
                self.mus.pop(k, None)
            else:
                self.mus[k] = old
            return cur
        if nm in ("last", "first", "mean", "max", "min", "sum", "median") and len(a) == 1 and a[0].op == "opF" and a[0].args[0] == "resample" \
                and len(a[0].args) == 3:
            return self.daily(self.frame(a[0].args[1]), a[0].args[2], nm)
        f = self.frame(a[0])
        f.need(*DFS)
        if nm == "setcols":
            ls = self.labels(a[1])
            if len(ls) != len(f.cols):
                raise Err("ValueError")
            return f.like(cols=[(l, d, c) for l, (_, d, c) in zip(ls, f.cols)])
        if nm == "drop":
            ls = self.labels(a[1])
            for l in ls:
                f.col(l)
            return f.like(cols=[x for x in f.cols if x[0] not in ls])
        if nm == "getitem":
            m = self.mask(a[1], f)
            if m is not None:
                return f.like([d for d, k in zip(f.dates, m) if k], [(l, d, [x for x, k in zip(c, m) if k]) for l, d, c in f.cols])
            return f.like(cols=[f.col(l) for l in self.labels(a[1])])
        if nm == "loc" and len(a) == 2 and a[1].op != "opT":
            m = self.mask(a[1], f)
            if m is not None:
                return f.like([d for d, k in zip(f.dates, m) if k], [(l, d, [x for x, k in zip(c, m) if k]) for l, d, c in f.cols])
        if nm in ("loc", "iloc") and a[1].op == "opT":
            return self.select(nm, f, a[1].args)
        if nm == "sort_index":
            if len(a) > 1 and a[1] is not TRUE and a[1] is not FALSE:
                if a[1].op in ("const",):
                    asc = bool(a[1].args[0])
                elif a[1].op == "param":
                    asc = self.truthy(a[1])
                else:
                    raise Unk("ascending")
            else:
                asc = len(a) < 2 or a[1] is TRUE
            o = sorted(range(len(f.dates)), key=lambda i: f.dates[i], reverse=not asc)
            return f.like([f.dates[i] for i in o], [(l, d, [c[i] for i in o]) for l, d, c in f.cols])
        if nm == "sortcols":
            if len({type(l) for l in f.labels()}) > 1:
                raise Err("TypeError")
            return f.like(cols=sorted(f.cols, key=lambda x: x[0]))
        if nm in ("ffill", "bfill"):
            lim = None
            if len(a) > 1:
                if not (a[1] is NONE or a[1].op == "const"):
                    raise Unk("limit")
                lim = None if a[1] is NONE else int(a[1].args[0])
                if len(a) > 2 and not (a[2] is NONE or (is_num(a[2]) and int(a[2].args[0]) == 0)
                                       or (a[2].op == "str" and a[2].args[0] in ("index", "rows"))):
                    return self.across(f, nm, lim)
            return f.like(cols=[(l, d, fill(c, nm, lim)) for l, d, c in f.cols])
        if nm == "to_numeric":
            out = []
            for l, d, c in f.cols:
                if d in NUMERIC:
                    out.append((l, d, c))
                elif a[1].op == "str" and a[1].args[0] in ("raise", "coerce"):
                    if a[1].args[0] == "raise":
                        raise Err("ValueError")
                    out.append((l, "float64", [GAP] * len(c)))
                elif a[1].op == "str" and a[1].args[0] == "ignore":
                    out.append((l, d, c))
                else:
                    raise Unk("to_numeric")
            return f.like(cols=out)
        if nm in ("where", "mask") and len(a) == 2 or nm in ("where", "mask") and len(a) == 3 and (is_num(a[2]) or a[2] is NAN) or \
                nm == "setitem" and len(a) == 3 and a[1].op == "opL" and (is_num(a[2]) or a[2] is NAN):
            keep = self.data(a[1])
            if not isinstance(keep, tuple) or not all(isinstance(x, bool) for c in keep[1] for x in c):
                raise Unk(nm)
            new = FOREIGN if len(a) == 3 and is_num(a[2]) else GAP
            return f.like(cols=[(l, d, [x if k == (nm == "where") else new for x, k in zip(c, ks)])
                                for (l, d, c), ks in zip(f.cols, keep[1])])
        if nm == "setitem" and len(a) == 3:
            l, v = self.label(a[1]), self.frame(a[2])
            if len(v.cols) != 1 or v.dates != f.dates:
                raise Unk("column written")
            _, d, c = v.cols[0]
            if l in f.labels():
                return f.like(cols=[(l, d, c) if x[0] == l else x for x in f.cols])
            return f.like(cols=f.cols + [(l, d, c)])
        if nm in ("set:index", "set_index") and len(a) == 2:
            return self.redated(f, a[1])
        if nm in ("tz_localize", "tz_convert") and len(a) == 2:
            return self.zoned(f, nm, a[1])
        if nm == "rename_axis":
            return f
        if nm == "asfreq" and len(a) == 2:
            return self.daily(f, a[1], "asfreq")
        if nm in ("where", "mask", "combine_first"):
            g = self.frame(a[-1])
            if g.dates != f.dates or g.labels() != f.labels():
                raise Unk(nm + " of frames of other shape")
            if nm == "combine_first":
                keep = [[x is not GAP for x in c] for _, _, c in f.cols]
            else:
                keep = self.data(a[1])
                if not isinstance(keep, tuple) or not all(isinstance(x, bool) for c in keep[1] for x in c):
                    raise Unk(nm)
                keep = [[x == (nm == "where") for x in c] for c in keep[1]]
            return f.like(cols=[(l, d, [x if k else y for x, k, y in zip(c, ks, c2)])
                                for (l, d, c), ks, (_, _, c2) in zip(f.cols, keep, g.cols)])
        if nm == "fillna" or nm in ("interpolate",):
            return f.like(cols=[(l, d, [FOREIGN if x is GAP else x for x in c]) for l, d, c in f.cols])
        if nm == "dropna":
            how, sub = all, [c for _, _, c in f.cols]
            for x in a[1:]:
                k, x = (x.args[0], x.args[1]) if x.op == "opL" and str(x.args[0]).startswith("kw:") else ("", x)
                if k in ("kw:how", "") and x.op == "str" and x.args[0] in ("any", "all"):
                    how = all if x.args[0] == "any" else any
                elif k == "kw:subset":
                    sub = [f.col(l)[2] for l in self.labels(x)]
                elif k == "kw:axis" and (is_num(x) and int(x.args[0]) == 0 or x.op == "str" and x.args[0] in ("index", "rows")):
                    pass
                else:
                    raise Unk("dropna options")
            keep = [i for i in range(len(f.dates)) if how(c[i] is not GAP for c in sub)]
            return f.like([f.dates[i] for i in keep], [(l, d, [c[i] for i in keep]) for l, d, c in f.cols])
        if nm in ("round", "abs", "clip", "add", "sub", "mul", "div", "mod", "pow", "cumsum", "cumprod", "cummax", "cummin",
                  "diff", "pct_change", "rank", "floordiv", "truediv", "rolling", "ewm"):
            return f.like(cols=[(l, d, [FOREIGN if x is not GAP else GAP for x in c]) for l, d, c in f.cols])
        if nm == "shift":
            return f.like(cols=[(l, d, [GAP] + c[:-1]) for l, d, c in f.cols])
        if nm in ("infer_objects", "convert_dtypes"):
            return f
        if nm == "replace" and len(a) == 3:
            # some input holds the value that is replaced: every value may be affected
            old = self.values_named(a[1])
            new = FOREIGN if a[2] is not NAN else GAP
            gap, val = any(x is NAN for x in old), any(x is not NAN for x in old)
            return f.like(cols=[(l, d, [new if (gap if x is GAP else val) else x for x in c]) for l, d, c in f.cols])
        if nm == "astype" and len(a) == 2:
            s = a[1].args[0] if a[1].op == "str" else a[1].args[0] if a[1].op == "opq" else ""
            if isinstance(s, str) and s.split(".")[-1].split(":")[-1] in ("float", "float64", "double"):
                for l, d, c in f.cols:
                    if d not in NUMERIC:
                        raise Err("ValueError")
                return f
            if isinstance(s, str) and s.split(".")[-1].split(":")[-1] in ("int", "int64", "int32"):
                for l, d, c in f.cols:
                    if d not in NUMERIC or any(x is GAP for x in c):
                        raise Err("ValueError")
                return f.like(cols=[(l, d, [FOREIGN] * len(c)) for l, d, c in f.cols])
            if isinstance(s, str) and s.split(".")[-1].split(":")[-1] in ("float32", "float16"):
                return f.like(cols=[(l, d, [FOREIGN if x is not GAP else GAP for x in c]) for l, d, c in f.cols])
        if nm in ("head", "tail"):
            n = 5 if len(a) < 2 else int(self.num(a[1]))
            s = slice(0, n) if nm == "head" else slice(max(0, len(f.dates) - n), None)
            return f.like(f.dates[s], [(l, d, c[s]) for l, d, c in f.cols])
        if nm == "iloc" and len(a) == 2 and a[1].op == "opT" and a[1].args and a[1].args[0] is const("slice"):
            return self.rows(f, a[1].args[1:])
        raise Unk("frame." + nm)

    def redated(self, f, t):
        """the frame with the index t describes, a function of its own index"""
        if t.op == "ite":
            return self.redated(f, t.args[1] if self.b(t.args[0]) else t.args[2])
        if t.op != "opL" or not isinstance(t.args[0], str) or len(t.args) < 2:
            raise Unk("frame.set:index")
        nm, x, opts = t.args[0], t.args[1], t.args[2:]
        if nm == "index":
            g = self.frame(x)
            g.need(*PANDAS)
            if len(g.dates) != len(f.dates):
                raise Err("ValueError")
            return f.like(g.dates, tz=g.tz, clock=g.clock, moved=f.moved or g.moved)
        g = self.redated(f, x)
        nm = nm.lstrip(".").split(".")[-1]
        if g.idx != "DatetimeIndex":
            raise Unk("index." + nm)
        if nm in ("copy", "rename", "as_unit", "to_datetime", "DatetimeIndex", "set_names") and not any(
                y.op == "opL" and y.args[0] in ("kw:utc", "kw:tz", "kw:unit", "kw:freq", "kw:format") for y in opts):
            return g
        if nm in ("tz_localize", "tz_convert") and len(opts) == 1:
            return self.zoned(g, nm, opts[0])
        if nm == "sort_values" and not opts:
            return g.like(sorted(g.dates))
        if nm == "normalize" or nm in ("floor", "ceil", "round") and len(opts) == 1 and opts[0].op == "str" and opts[0].args[0] in ("D", "1D"):
            return g.like(clock=False, moved=nm) if g.clock else g
        raise Unk("index." + nm)

    def zoned(self, f, nm, t):
        if t is NONE:
            if nm == "tz_convert" and not f.tz:
                raise Err("TypeError")
            return f.like(tz=False, moved=nm) if f.tz else f
        if t.op != "str":
            raise Unk(nm)
        if f.tz == (nm == "tz_localize"):
            raise Err("TypeError")
        return f.like(tz=True, moved=nm)

    def daily(self, f, freq, how):
        """one row per day between the first and the last"""
        f.need(*DFS)
        if freq.op == "opL" and str(freq.args[0]).startswith("kw:") and freq.args[0] in ("kw:freq", "kw:rule"):
            freq = freq.args[1]
        if freq.op != "str" or freq.args[0] not in ("D", "1D", "B") or f.idx != "DatetimeIndex" or not f.dates:
            raise Unk(how)
        if how == "asfreq" and len(set(f.dates)) < len(f.dates):
            raise Err("ValueError")
        days = [d for d in range(min(f.dates), max(f.dates) + 1) if freq.args[0] != "B" or d % 7 < 5]
        out = []
        for l, dt, c in f.cols:
            cells = []
            for d in days:
                x = [v for v, e in zip(c, f.dates) if e == d and (v is not GAP or how == "asfreq")]
                cells.append(GAP if not x else x[-1] if how in ("last", "asfreq") else x[0] if how == "first" or len(x) == 1 else FOREIGN)
            out.append((l, dt, cells))
        return f.like(days, out)

    def values_named(self, t):
        if t.op == "opq" and t.args[0] in ("list", "tuple"):
            return [y for x in t.args[1:] for y in self.values_named(x)]
        if t.op in ("const", "inf", "nan", "poly", "none"):
            return [t]
        raise Unk("values replaced")

    def mask(self, t, f):
        """row mask over the dates of a frame"""
        if t.op in ("opE", "not") and t.args[0] in ("invert",) or t.op == "not":
            m = self.mask(t.args[-1], f)
            return None if m is None else [not x for x in m]
        if t.op == "truthy":
            return self.mask(t.args[0], f)
        if t.op == "ite" and not is_boolish(t.args[1]):
            return self.mask(t.args[1] if self.b(t.args[0]) else t.args[2], f)
        if t.op == "opL" and t.args[0] == ".duplicated" and t.args[1].op == "opL":
            d = self.frame(t.args[1].args[1]).dates
            keep = "first"
            for x in t.args[2:]:
                if x.op == "opL" and x.args[0] == "kw:keep":
                    x = x.args[1]
                if x.op == "str" and x.args[0] in ("first", "last"):
                    keep = x.args[0]
                elif x is FALSE:
                    keep = None
                else:
                    raise Unk("duplicated options")
            if keep is None:
                return [list(d).count(x) > 1 for x in d]
            seen, out = set(), []
            for x in d if keep == "first" else list(d)[::-1]:
                out.append(x in seen)
                seen.add(x)
            return out if keep == "first" else out[::-1]
        if t.op in ("and", "or"):
            ms = [self.mask(x, f) for x in t.args]
            return None if None in ms else [(all if t.op == "and" else any)(r) for r in zip(*ms)]
        if t.op in ("lt", "le", "gt", "ge", "eq") and len(t.args) == 2:
            x, c = t.args
            if x.op == "opSF" and x.args[0] == "col":
                v = self.data(x)
                v = None if v is None else [None if y is GAP else value(y) for y in v]
            elif x.op == "opL" and str(x.args[0]).startswith("dt."):
                v = [d % 7 for d in self.frame(x.args[1].args[1]).dates] if x.args[1].op == "opL" else None
            else:
                v = None
            if v is None or len(v) != len(f.dates):
                return None
            op = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq"}[t.op]
            return [y is not None and bool(PYCMP[op](y, c)) for y in v]
        if t.op == "opL" and t.args[0] in (".notna", ".notnull", ".isna", ".isnull") and t.args[1].op == "opL" and t.args[1].args[0] == "index":
            return [t.args[0].startswith(".not")] * len(f.dates)
        if t.op in ("opSF", "opL"):
            v = self.data(t)
            if isinstance(v, list) and len(v) == len(f.dates) and all(isinstance(x, bool) for x in v):
                return v
        return None

    def across(self, f, how, lim):
        n = len(f.dates)
        rows = [fill([c[i] for _, _, c in f.cols], how, lim) for i in range(n)]
        return f.like(cols=[(l, d, [rows[i][k] for i in range(n)]) for k, (l, d, _) in enumerate(f.cols)])

    def rows(self, f, sl):
        xs = [None if x is NONE else int(self.num(x)) for x in sl]
        s = slice(*xs)
        return f.like(f.dates[s], [(l, d, c[s]) for l, d, c in f.cols])

    def select(self, nm, f, args):
        """loc / iloc with a tuple key (rows, columns)"""
        if len(args) == 3 and args[0].op == "str" and args[0].args[0] == "multi" and args[1].op == "opT" and nm == "loc":
            if all(x is NONE for x in args[1].args[1:]):
                k = args[2]
                if k.op == "opL" and k.args[0] in ("coldifference", "colintersection", "colisin"):
                    return f.like(cols=[x for x in f.cols if x[0] in self.labels(k)])
                return f.like(cols=[f.col(l) for l in self.labels(k)])
        if len(args) == 3 and args[0].op == "str" and args[0].args[0] == "multi" and nm == "iloc" and args[1].op == "opT" and \
                args[2].op == "opT" and args[2].args[0].op == "str" and args[2].args[0].args[0] == "slice":
            g = f if all(x is NONE for x in args[1].args[1:]) else self.rows(f, args[1].args[1:])
            xs = [None if x is NONE else int(self.num(x)) for x in args[2].args[1:]]
            return g.like(cols=g.cols[slice(*xs)])
        if args and args[0] is const("slice"):
            if nm == "iloc":
                return self.rows(f, args[1:])
            raise Unk("loc slice")
        raise Unk(nm)


def fill(c, how, lim):
    c = list(c)
    order = range(len(c)) if how == "ffill" else range(len(c) - 1, -1, -1)
    last, run = GAP, 0
    for i in order:
        if c[i] is GAP:
            run += 1
            if last is not GAP and (lim is None or run <= lim):
                c[i] = last
        else:
            last, run = c[i], 0
    return c


def outcome(q, frame, params):
    """('raise', class, exit) | ('frame', AF, None); Unk when not covered"""
    E = Ev(frame, params)
    pend = err = None
    for e in q.ctx.exits:
        if e.kind != "raise" or e.pc is FALSE:
            continue
        try:
            if E.b(e.pc):
                return "raise", e.value.cls if isinstance(e.value, ExcV) else "?", e
        except Unk as x:
            pend = pend or x
        except Err as x:
            err = err or x
    if pend:
        raise pend
    for g, v in leaf_pairs(q.value):
        try:
            if not E.b(g):
                continue
        except Unk as x:
            raise
        except Err as x:
            err = err or x
            continue
        if not isinstance(v, RFrmV):
            raise Unk("returned value")
        try:
            return "frame", E.frame(q.st.heap[v.oid].t), None
        except Err as x:
            return "raise", x.cls, None
    if err:
        return "raise", err.cls, None
    raise Unk("no outcome")


# ------------------------------------------------------------------- oracle
def faults(f, req):
    """documented error classes that may be raised for this object (empty: it is valid)"""
    if f.kind != "DataFrame":
        return ["WrongTypeForInputParameter"]
    out = []
    if f.idx != "DatetimeIndex":
        out.append("TypeError")
    low = {(l.lower() if isinstance(l, str) else l): d for l, d, _ in f.cols}
    if not f.dates or not f.cols or any(c not in low for c in req) or any(low[c] not in NUMERIC for c in req if c in low):
        out.append("ValueError")
    return out


def expected(f, req, filled):
    """the canonical frame: {column: cells in date order}, dates"""
    o = sorted(range(len(f.dates)), key=lambda i: f.dates[i])
    low = {(l.lower() if isinstance(l, str) else l): c for l, _, c in f.cols}
    cols = {}
    for c in req:
        x = [low[c][i] for i in o]
        cols[c] = fill(fill(x, "ffill", None), "bfill", None) if filled else x
    return [f.dates[i] for i in o], cols


def token(c, d):
    return "%s@%s" % (c, d)


def build(req, order, rename=None, extra=(), gaps=(), cols=None, dtype=None, zeros=(), sizes=(), **kw):
    """abstract frame with the required columns; gaps: {column: dates without value}; sizes: {date: value}"""
    names = list(cols if cols is not None else req)
    out = []
    for c in names:
        g = dict(gaps).get(c, ())
        out.append(((rename or (lambda x: x))(c), (dtype or {}).get(c, "float64"), [GAP if d in g else token(c, d) + ("=0" if d in dict(zeros).get(c, ()) else
                                                                                "=%s" % sizes[d] if d in dict(sizes) else "") for d in order]))
    for pos, l, dt in extra:
        out.insert(min(pos, len(out)), (l, dt, [token("extra", d) if d % 3 else GAP for d in order]))
    return AF(order, out, **kw)


def family(req, long):
    """[(group, description, frame)]"""
    F = []
    n = 9
    up = list(range(n))
    down = up[::-1]
    mixed = [4, 0, 7, 2, 8, 1, 5, 3, 6]
    A = lambda g, d, f: F.append((g, d, f))
    A("valid", "the plain frame", build(req, up))
    A("valid", "a single row", build(req, [0]))
    A("valid", "rows in descending order", build(req, down))
    A("valid", "rows in mixed order", build(req, mixed))
    A("valid", "two rows, unsorted", build(req, [1, 0]))
    A("valid", "columns in reverse order", build(req[::-1], up))
    A("valid", "upper-case labels", build(req, up, str.upper))
    A("valid", "capitalised labels", build(req, up, str.title))
    A("valid", "labels in mixed case", build(req, up, lambda c: "".join(x.upper() if i % 2 else x for i, x in enumerate(c))))
    for what, ex in (("an unrelated column first", [(0, "foo", "float64")]), ("an unrelated column last", [(99, "Bar", "float64")]),
                     ("an unrelated text column", [(1, "name", "object")]), ("unrelated columns around", [(0, "zzz", "object"), (99, "Adj Close", "float64"), (1, "aaa", "int64")]),
                     ("a column whose label is a number", [(0, 7, "float64")]), ("two adjacent unrelated columns", [(0, "x", "int64"), (1, "y", "object")]),
                     ("columns whose labels are parts of a required label", [(0, req[0][:-1], "float64"), (99, req[-1][1:], "object"), (1, req[0][1:3], "int64")]),
                     ("columns whose labels contain a required label", [(0, "adj_" + req[0], "float64"), (99, req[-1] + "_2", "object")]),
                     ("another price column", [(99, "vwap", "float64")]), ("all usual columns", [(0, c, "float64") for c in ("open", "high", "low", "close", "volume") if c not in req])):
        A("valid", what, build(req, up, extra=ex))
        A("valid", what + ", rows and case mixed", build(req, mixed, str.upper, extra=ex))
    A("valid", "whole-number columns", build(req, up, dtype={c: "int64" for c in req}))
    A("valid", "one whole-number column", build(req, up, dtype={req[-1]: "int64"}))
    A("valid", "single-precision columns", build(req, up, dtype={c: "float32" for c in req}))
    A("valid", "a value of zero in the last column", build(req, up, zeros={req[-1]: (3,)}))
    A("valid", "values of zero, rows mixed", build(req, mixed, str.upper, zeros={c: (0, 4, 8) for c in req}))
    A("valid", "no value but zero in one column", build(req, up, zeros={req[0]: up}))
    A("valid", "values of every size", build(req, mixed, sizes={0: -5, 2: 1e9, 3: 1e-5, 5: -1e7, 7: 0.4}))
    A("valid", "dates with a time zone", build(req, up, tz=True))
    A("valid", "dates with a time zone, rows mixed", build(req, mixed, str.upper, tz=True))
    A("valid", "dates with times of day", build(req, up, clock=True))
    A("valid", "days left out", build(req, [0, 1, 4, 7, 8, 11]))
    A("valid", "days left out, rows mixed", build(req, [4, 0, 12, 1, 11, 8]))
    A("gaps", "days left out and gaps", build(req, [0, 1, 4, 7, 8, 11], gaps={c: (4, 8) for c in req}))
    A("gaps", "values of zero beside gaps", build(req, up, zeros={c: (2, 5) for c in req}, gaps={c: (3, 4) for c in req}))
    A("gaps", "leading zeros and gaps", build(req, down, zeros={c: (0, 2) for c in req}, gaps={c: (1, 7, 8) for c in req}))
    A("twice", "one date twice", build(req, [0, 1, 2, 2, 3, 4]))
    A("twice", "dates twice, rows mixed", build(req, [4, 0, 2, 4, 1, 3, 0], str.upper, extra=[(0, "foo", "float64")]))
    A("twice", "the same date only", build(req, [3, 3, 3]))
    # malformed objects
    for k in ("Series", "list", "dict", "ndarray", "NoneType", "str"):
        A("bad", "a %s instead of a data frame" % k, AF(up, [("close", "float64", [token("close", d) for d in up])], kind=k))
    for k in ("RangeIndex", "Index", "PeriodIndex", "TimedeltaIndex", "MultiIndex"):
        A("bad", "an index of type %s" % k, build(req, up, idx=k))
        A("bad", "an index of type %s, no rows" % k, build(req, [], idx=k))
    A("bad", "no rows", build(req, []))
    A("bad", "no rows and a missing column", build(req[1:] or ["x"], []))
    A("bad", "no columns", build([], up))
    A("bad", "all rows without columns, in descending order", build([], down))
    for what, pad in (("a leading blank", " %s"), ("a trailing blank", "%s "), ("a suffix", "%s_x"), ("a prefix", "x%s"), ("a digit", "%s2")):
        for k in range(len(req)):
            A("bad", "column %r with %s in its label" % (req[k], what), build(req, up, lambda c: pad % c if c == req[k] else c))
    for c in req:
        rest = [x for x in req if x != c]
        A("bad", "no column %r" % c, build(rest or ["other"], up))
        A("bad", "no column %r, unrelated ones present" % c, build(rest, up, extra=[(0, c + "x", "float64"), (99, "x" + c, "float64"), (1, 3, "float64")]))
        for dt in ("object", "string", "datetime64[ns]", "category"):
            A("bad", "column %r of type %s" % (c, dt), build(req, up, dtype={c: dt}))
            A("bad", "column %r of type %s without any value" % (c, dt), build(req, up, dtype={c: dt}, gaps={c: up}))
            A("bad", "column %r of type %s without first and last value" % (c, dt), build(req, up, dtype={c: dt}, gaps={c: (0, 8)}))
        A("bad", "upper-case column %r of type object, unsorted" % c, build(req, mixed, str.upper, dtype={c: "object"}, extra=[(0, "foo", "float64")]))
    # missing values
    pats = {"the first row": (0,), "leading rows": (0, 1, 2), "the last row": (8,), "trailing rows": (6, 7, 8), "a single inner row": (4,),
            "inner rows": (3, 4, 5), "all but one row": tuple(x for x in range(9) if x != 5), "alternate rows": (1, 3, 5, 7),
            "alternate rows from the first": (0, 2, 4, 6, 8), "every row": tuple(range(9)), "leading and trailing rows": (0, 1, 7, 8)}
    for what, g in pats.items():
        for name, order in (("", up), (", rows descending", down), (", rows mixed", mixed)):
            A("gaps", "no value in %s of every column%s" % (what, name), build(req, order, gaps={c: g for c in req}))
            A("gaps", "no value in %s of %r%s" % (what, req[0], name), build(req, order, gaps={req[0]: g}))
            A("gaps", "no value in %s of %r%s" % (what, req[-1], name), build(req, order, str.upper, gaps={req[-1]: g}, extra=[(0, "foo", "float64")]))
    if len(req) > 1:
        A("gaps", "different gaps per column", build(req, mixed, gaps={c: [(i + k) % 9 for k in range(1 + i)] for i, c in enumerate(req)}))
    big = list(range(long))
    A("gaps", "a very long gap", build(req, big, gaps={c: big[1:-1] for c in req}))
    A("gaps", "a very long leading gap", build(req, big[::-1], gaps={c: big[:-2] for c in req}))
    return F


def judge(f, req, filled, out):
    """None when the outcome is as documented, else (property, text)"""
    kind, v, e = out
    fl = faults(f, req)
    if kind == "raise":
        if fl:
            return None if v in fl else ("C15", "raises %s instead of %s" % (v, " or ".join(fl)))
        if len(set(f.dates)) < len(f.dates):
            return None             # whether a date may occur twice is not documented
        return "C15", "valid input is refused with %s" % v
    if fl:
        return "C15", "is accepted; documented is %s" % " or ".join(fl)
    dates, cols = expected(f, req, filled)
    got = {l: c for l, _, c in v.cols}
    if sorted(got, key=str) != sorted(cols, key=str):
        return "C09", "is reduced to columns %s instead of %s" % (sorted(got, key=str), sorted(cols))
    if v.dates != dates:
        few = sorted(v.dates) != dates
        gaps, dup = any(GAP in z[2] for z in f.cols), len(set(f.dates)) < len(f.dates)
        return ("C11" if dup else "C09 C11 C16" if gaps else "C09 C11") if few else "C09", "rows come out as %s" % ("%d of %d" % (len(v.dates), len(dates)) if few else "unsorted")
    if v.moved:
        return "C11 C21", "the dates come out changed (%s)" % v.moved
    for c in cols:
        if len(set(dates)) < len(dates):
            break                   # the order of rows with one date is not documented
        for d, x, y in zip(dates, got[c], cols[c]):
            if x != y:
                was = dict(zip(f.dates, next(z for l, _, z in f.cols if (l.lower() if isinstance(l, str) else l) == c)))[d]
                who = "C16" if any(GAP in z[2] for z in f.cols) else "C09"
                return who + " C19" * (was is not GAP), "%s of day %d becomes %s instead of %s" % (
                    c, d, x or "missing", y or "missing")
    return None


REQS = (["close"], ["high", "low", "close", "volume"], ["open", "close"])


def constants(q):
    out = [12]
    ts = [e.pc for e in q.ctx.exits] + [q.st.heap[v.oid].t for _, v in leaf_pairs(q.value) if isinstance(v, RFrmV)]
    for t in ts:
        for x in subterms(t):
            if x.op == "const" and isinstance(x.args[0], (int, type(ZERO.args[0]))):
                out.append(min(5000, abs(int(x.args[0])) + 3))
    return max(out)


def table(W):
    """[(req, fill, group, what, verdict or Unk)] of the whole family; cached on the world"""
    t = getattr(W, "_valtab", None)
    if t is not None:
        return t
    out = []
    W._valtab = (out, [])
    for req in REQS:
        q = validate_run(W, req)
        W._valtab[1].append(q)
        long = constants(q)
        for group, what, f in family(req, long):
            for filled in (True, False):
                try:
                    o = outcome(q, f, {"fill": filled})
                    out.append((req, filled, group, what, judge(f, req, filled, o), o))
                except Unk as e:
                    out.append((req, filled, group, what, e, None))
    # default of the flag
    return W._valtab


def where_validate(W):
    m, f = find_fn(W, "validateInputData")
    return m.path, f.fn.lineno, "validateInputData"


def apply_table(W, R, pid, rule):
    out, runs = table(W)
    w = where_validate(W)
    for req, filled, group, what, v, o in out:
        R.count("abstract frames")
        if isinstance(v, Unk):
            R.skip("validateInputData", "operation not covered: %s" % v)
            continue
        if v is None:
            continue
        if pid in v[0].split() or (pid == "C09" and "C15" in v[0].split() and group == "valid" and what != "the plain frame" and o[0] == "raise"):
            ex = o[2]
            loc = (ex.file, getattr(ex.node, "lineno", w[1]), w[2]) if ex is not None else w
            R.bad(*loc, rule, "%s (required %s, filling %s): %s" % (what, req, "on" if filled else "off", v[1]),
                  key="%s|%s|%s" % (w[0], rule, v[1].split(" of day")[0]))
    R.sample("validateInputData: %d exits, result %s" % (len(runs[0].ctx.exits), show(runs[0].st.heap[
        [x for _, x in leaf_pairs(runs[0].value) if isinstance(x, RFrmV)][0].oid].t)[:140]
        if any(isinstance(x, RFrmV) for _, x in leaf_pairs(runs[0].value)) else "?"))


# --------------------------------------------------------------------------- C15
LABS = (("wrong-type", "WrongTypeForInputParameter"), ("wrong-index", "TypeError"), ("wrong-value", "ValueError"))
BASES = {"TypeError": ("Exception", "BaseException"), "ValueError": ("Exception", "BaseException"),
         "WrongTypeForInputParameter": ("Exception", "BaseException")}


def raising(ret, only=None):
    """stand-in for validateInputData that may refuse with each documented error"""

    def h(I, f, args, kw, st, ctx, node):
        names = ["input_data", "required_columns", "indicator_name", "fill_missing_values"]
        d = dict(zip(names, args))
        d.update(kw)
        src = d.get("input_data")
        if only is None or only(src, st):
            for lab, exc in LABS:
                c = mk("raises", lab)
                s = st.copy()
                ctx.exits.append(Exit("raise", ExcV(exc, {}, BASES[exc]), and_(st.pc(), c), s, node, ctx.module.path))
                st.rel = and_(st.rel, not_(c))
        return ret(I, f, args, kw, st, ctx, node)

    return h


def is_caller(v, st):
    return any(isinstance(x, RFrmV) and st.heap[x.oid].tag in ("caller", ("share", "caller")) for _, x in leaf_pairs(v))


def uses_raw(t):
    return any(x.op == "opF" and x.args[0] == "caller" for x in subterms(t))


def c15(W, R):
    R.rules.append("Abstract interpretation of validateInputData over frame shapes (object and index kind, emptiness, labels, "
                   "column kinds): each malformed shape must leave through a documented error, each well-formed one must not.")
    R.rules.append("Dominance: in every constructor the validation of the caller's object precedes every use of it, its errors "
                   "leave unchanged and nothing outside the new object is modified; no other error class is raised.")
    R.rules.append("Wrapping: every validation error and every difference of dates leaves the simulation as "
                   "NotValidInputDataForSimulation; accepted arguments with equal dates leave by no exception.")
    apply_table(W, R, "C15", "refusal")
    for c in W.names():
        with R.unit(c):
            R.count("constructors")
            constructor_validates(W, R, c)
    simulation_wraps(W, R)
    if R.counts["constructors"] < 40:
        raise Broken("constructors not found")


def constructor_validates(W, R, c):
    log = []
    ps, _ = typed_params(W.tree.interp(), W.classes[c])
    hooks = {"validateInputData": raising(drive.validate_hook(log), is_caller)}
    r = run_ctor(W.tree, c, ps, [compare("ge", N_IN, ONE)], hooks=hooks, root_src=caller_frame)
    fn, owner = r.info.find("__init__")
    where = (owner.module.path, fn.fn.lineno, c + ".__init__")
    roots = [v for v in log if is_caller(v["src"], r.st)]
    if not roots:
        if r.unknown:
            R.skip(c, "constructor not modelled: %s" % str(r.unknown[0])[:100])
        else:
            R.bad(*where, "not-validated", "the caller's object is not validated", key="%s|unvalidated" % c)
        return
    base0 = drive.base_state(r.I).heap
    for lab, exc in LABS:
        t = mk("raises", lab)
        hit = [e for e in r.ctx.exits if e.kind == "raise" and any(x is t for x in conj(e.pc))]
        R.count("error paths")
        if not hit:
            if not r.unknown:
                R.bad(roots[0]["file"], roots[0]["line"], c, "error-swallowed", "a %s from input validation does not leave the "
                      "constructor" % exc, key="%s|swallow" % roots[0]["line"])
            continue
        for e in hit:
            if not isinstance(e.value, ExcV) or e.value.cls != exc:
                R.bad(e.file, getattr(e.node, "lineno", 0), c, "error-changed", "a %s from input validation leaves as %s"
                      % (exc, e.value.cls if isinstance(e.value, ExcV) else "?"), key="%s|changed" % getattr(e.node, "lineno", 0))
            ch = effects.base_changes(r.I, base0, e.st, tables=True)
            if ch:
                ev = effects.where_written(r.events, ch, ())
                if ev is not None:
                    R.bad(ev.file, ev.line, c, "changed-before-refusal", "a module-level table is changed although the input is "
                          "refused", key="%s|%s|table" % (ev.file, ev.line))
    # use of the unvalidated object
    for e in r.ctx.exits:
        if e.kind == "raise" and e.pc is not FALSE and uses_raw(e.pc):
            R.bad(e.file, getattr(e.node, "lineno", 0), c, "unvalidated-use", "decides on the caller's object before it is "
                  "validated: %s" % show(e.pc)[:120], key="%s|%s|raw" % (e.file, getattr(e.node, "lineno", 0)))
    for e in r.events:
        if e.kind == "col_read" and e.info.get("frame") in ("caller", ("share", "caller")):
            R.bad(e.file, e.line, c, "unvalidated-use", "reads column %s of the caller's object, which is not validated"
                  % e.info.get("col"), key="%s|%s|raw" % (e.file, e.line))
    for k, v in r.rec.attrs.items():
        for t in terms_of(v, r.st):
            if uses_raw(t):
                R.bad(*where, "unvalidated-use", "attribute %s is computed from the object as handed in, not as validated" % k,
                      key="%s|%s|raw-attr" % (where[0], k))
    # nothing else refuses: the only errors of a constructor are the documented ones
    for e in r.ctx.exits:
        if e.kind != "raise" or e.pc is FALSE or not isinstance(e.value, ExcV):
            continue
        if e.value.cls in PARAM_EXC or e.value.cls == "NotEnoughInputData" or any(x.op == "raises" for x in conj(e.pc)):
            continue
        g = and_(e.pc, *[not_(mk("raises", l)) for l, _ in LABS])
        acc = [compare("ge", N_IN, ONE)] + [not_(x.pc) for x in r.ctx.exits if x.kind == "raise" and isinstance(x.value, ExcV)
                                            and x.value.cls in PARAM_EXC]
        s = sat(and_(g, *acc), ())
        R.count("other exits")
        if s is True and not g.opq and not any(x.op in ("param",) and x.args[1] == "any" for x in subterms(g)):
            R.bad(e.file, getattr(e.node, "lineno", 0), c, "valid-refused", "valid input is refused with %s when %s"
                  % (e.value.cls, show(e.pc)[:160]), key="%s|%s|refused" % (e.file, getattr(e.node, "lineno", 0)))
        elif s is not False:
            R.skip(c, "%s at line %s" % (e.value.cls, getattr(e.node, "lineno", 0)))


def terms_of(v, st):
    for _, x in leaf_pairs(v):
        if isinstance(x, T):
            yield x
        elif isinstance(x, FrmV):
            rec = st.heap[x.oid]
            for _, a in rec.cols:
                yield st.heap[a].t
        elif isinstance(x, RFrmV):
            yield st.heap[x.oid].t
        elif isinstance(x, (SerV, NpV)):
            yield st.heap[x.arr].t


CLOSE_IDX, CLOSE_N = mk("idx", "close"), mk("n", "close")
ANY_IDX = mk("opL", "index", mk("param", "input_data_index", "index"))


def close_frame(I, f, args, kw, st, ctx, node):
    d = dict(zip(["input_data", "required_columns", "indicator_name", "fill_missing_values"], args))
    d.update(kw)
    I.emit("validate", st, node, ctx, required=(), fill=d.get("fill_missing_values"), src=None)
    return I.frame(st, [("close", mk("col", "close", "close"))], CLOSE_IDX, CLOSE_N, order="known")


# situations of the two date lists: (description, dates of the close prices, dates of the indicator's input)
DATES = [("the same dates", (0, 1, 2, 3, 4), (0, 1, 2, 3, 4)), ("one same date", (3,), (3,)),
         ("the first date differs", (9, 11, 12, 13), (10, 11, 12, 13)), ("the last date differs", (10, 11, 12, 14), (10, 11, 12, 13)),
         ("an inner date differs", (10, 12, 13, 14), (10, 11, 13, 14)), ("all dates differ", (1, 2, 3), (4, 5, 6)),
         ("the last day is missing", (1, 2, 3), (1, 2, 3, 4)), ("the first day is missing", (2, 3, 4), (1, 2, 3, 4)),
         ("an inner day is missing", (1, 3, 4), (1, 2, 3, 4)), ("one day more at the end", (1, 2, 3, 4), (1, 2, 3)),
         ("one day more at the start", (0, 1, 2, 3), (1, 2, 3)), ("one inner day more", (1, 2, 3, 4), (1, 2, 4)),
         ("many days more", tuple(range(30)), tuple(range(10, 20))), ("a single other date", (1,), (2,))]


UNSORTED = [("the same dates, the input's in descending order", (1, 2, 3, 4), (4, 3, 2, 1), set(), None),
            ("the same dates, the input's in mixed order", (1, 2, 3, 4), (3, 1, 4, 2), set(), None),
            ("another date, the input's in mixed order", (1, 2, 3, 5), (3, 1, 4, 2), set(), "NotValidInputDataForSimulation")]


class EvDates(Ev):
    """guards over two date lists and the simulation's arguments"""

    def __init__(self, close, inp, params, labels):
        Ev.__init__(self, None, params)
        self.close, self.inp, self.labs = close, inp, labels

    def dates(self, t):
        if t is CLOSE_IDX:
            return list(self.close)
        if t is IDX_IN or t is ANY_IDX:
            return list(self.inp)
        if t.op == "opL" and t.args[0] == "idxrsorted":
            return sorted(self.dates(t.args[1]), reverse=True)
        if t.op == "opL" and t.args[0] in ("idxsorted", "sorted", "idxunique") and isinstance(t.args[1], T):
            return sorted(self.dates(t.args[1]))
        raise Unk("index " + t.op)

    def b(self, t):
        if t.op == "raises":
            return t.args[0] in self.labs
        if t.op == "isinst" and t.args[0].op == "param":
            v = self.params.get(t.args[0].args[0])
            return {"NoneType": v is None, "int": isinstance(v, int), "float": isinstance(v, float), "bool": isinstance(v, bool)}[t.args[1]]
        if t.op in ("eq", "seq_eq") and len(t.args) == 2 and isinstance(t.args[1], T) and t.args[0].op == "label":
            return self.date(t.args[0]) == self.date(t.args[1])
        return Ev.b(self, t)

    def date(self, t):
        if t.op == "cell" and t.args[0].op == "index":
            t = mk("label", t.args[0].args[0], t.args[1])
        if t.op == "label":
            d = self.dates(t.args[0])
            k = int(self.num(t.args[1]))
            if not 0 <= k < len(d):
                raise Err("IndexError")
            return d[k]
        raise Unk("date " + t.op)

    def truthy(self, x):
        if x.op == "opE" and x.args[0] == "dateisin":
            return self.date(x.args[1]) in self.dates(x.args[2])
        if x.op == "opL" and x.args[0] == "idxequals":
            return self.dates(x.args[1]) == self.dates(x.args[2])
        if x.op == "param":
            return bool(self.params[x.args[0]])
        return Ev.truthy(self, x)

    def num(self, t):
        if t is CLOSE_N:
            return len(self.close)
        if t is N_IN:
            return len(self.inp)
        if t.op == "label":
            return self.date(t)
        if t.op == "param":
            v = self.params[t.args[0]]
            if v is None:
                raise Err("TypeError")
            return v
        return Ev.num(self, t)


def simulation_runs(W, R):
    """[(name, file, line, ctx, events, unknown, through an indicator)]"""
    cls = next((v for m in W.tree.project.modules.values() for v in [m.env.get("TradingSimulation")]
                if isinstance(v, ClsV) and v.info.module is m), None)
    if cls is None:
        raise Broken("class TradingSimulation not found")
    runs = []
    I = W.tree.interp()
    st = drive.base_state(I)
    I.facts_extra, I.hooks = (), {"validateInputData": raising(close_frame)}
    ctx = Ctx("<entry>", cls.info.module, None)
    args = {"max_exposure": mk("param", "max_exposure", "any"), "short_exposure_factor": mk("param", "short_exposure_factor", "any")}
    I.construct(cls, [], dict(args, input_data_index=IdxV(ANY_IDX, N_IN), close_values=caller_frame(I, st)), st, ctx, cls.info.node)
    runs.append(("TradingSimulation", cls.info.module.path, cls.info.node.lineno, ctx, list(I.events), list(I.unknown), 0))
    done = set()
    for c in W.names():
        with R.unit(c):
            fn, owner = W.classes[c].find("getTiSimulation")
            if not isinstance(fn, FnV) or id(fn.fn) in done:
                continue
            done.add(id(fn.fn))
            r = W.fresh(c)
            leaf_frames(r)
            src = caller_frame(r.I, r.st)
            sig, sowner = r.info.find("getTiSignal")
            hooks = {sowner.name + ".getTiSignal": lambda I, f, a, k, s, cx, n: mk("opq", "signal"),
                     "TradingSimulation.runSimulationRound": lambda I, f, a, k, s, cx, n: NONE,
                     "TradingSimulation.closeSimulation": lambda I, f, a, k, s, cx, n: TupV([mk("opq", "sim"), mk("opq", "st")]),
                     "TechnicalIndicator._getSimulationGraph": lambda I, f, a, k, s, cx, n: mk("opq", "graph"),
                     "validateInputData": raising(close_frame)}
            q = run_method(r, "getTiSimulation", [], dict(args, close_values=src), facts=[], hooks=hooks)
            runs.append((c + ".getTiSimulation", owner.module.path, fn.fn.lineno, q.ctx, q.events, q.unknown, 1))
    return runs


def simulation_fill(W, R):
    """the simulation's own close prices are filled"""
    _, f = find_fn(W, "validateInputData")
    a = f.fn.args
    names = [x.arg for x in a.posonlyargs + a.args]
    dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults)).get("fill_missing_values")
    for name, path, line, ctx, events, unknown, full in simulation_runs(W, R):
        R.count("simulations")
        vs = [e for e in events if e.kind == "validate" and e.guard is not FALSE]
        if not vs or unknown:
            R.skip(name, "not modelled")
        for e in vs:
            fl = e.info.get("fill")
            if fl is None:
                fl = const(dflt.value) if isinstance(dflt, ast.Constant) else TRUE
            if isinstance(fl, T) and (fl is FALSE or fl is not TRUE and not fl.opq):
                R.bad(e.file, e.line, name, "simulation-fill", "the close prices are validated with fill_missing_values = %s"
                      % show(fl), key="%s|%s|simulation" % (e.file, name))


def simulation_wraps(W, R):
    for name, path, line, ctx, events, unknown, full in simulation_runs(W, R):
        R.count("simulations")
        if unknown:
            R.skip(name, "not modelled: %s" % str(unknown[0])[:100])
        if not any(e.kind == "validate" for e in events):
            R.bad(path, line, name, "not-validated", "the close prices are not validated", key=name + "|unvalidated")
            continue
        raises = [e for e in ctx.exits if e.kind == "raise" and e.pc is not FALSE]
        cases = [("close prices refused with %s" % exc, (0, 1, 2), (0, 1, 2), {lab}, "NotValidInputDataForSimulation") for lab, exc in LABS]
        cases += [(w, a, b, set(), "NotValidInputDataForSimulation" if a != b else None) for w, a, b in DATES]
        for params in ({"max_exposure": None, "short_exposure_factor": 1.5}, {"max_exposure": 1000, "short_exposure_factor": 2},
                       {"max_exposure": 0.5, "short_exposure_factor": 1.0}):
            for what, a, b, labs, want in cases + ([] if full else UNSORTED):
                E = EvDates(a, b, params, labs)
                got, at, unk = None, None, None
                for e in raises:
                    try:
                        if E.b(e.pc):
                            got, at = (e.value.cls if isinstance(e.value, ExcV) else "?"), e
                            break
                    except Unk as x:
                        unk = unk or x
                    except Err as x:
                        got = got or x.cls
                R.count("simulation cases")
                if got == want:
                    continue
                if unk is not None and at is None:
                    R.skip(name, "%s: %s" % (what, unk))
                    continue
                if at is not None and full and got not in ("NotValidInputDataForSimulation",) and want is None:
                    pass
                R.bad(at.file if at else path, getattr(at.node, "lineno", line) if at else line, name, "simulation-refusal",
                      "%s: %s instead of %s" % (what, "raises " + got if got else "is accepted", want or "being accepted"),
                      key="%s|%s|%s" % (name, got, want))


# --------------------------------------------------------------------------- C16
def c16(W, R):
    from .formula import ti_series, spec_series, grossly, STRS, variants, name_of
    from .. import fingerprint as fp
    R.rules.append("Provenance: for every gap pattern, row order and both settings of the flag, each cell of the validated "
                   "frame comes from the documented input cell (abstract interpretation of validateInputData and "
                   "fillMissingValues over provenance-labelled frames).")
    R.rules.append("Flag flow: the flag handed to validation is the constructor's own argument, unchanged; nested indicators get "
                   "that argument or False (their input is already filled when filling was requested).")
    R.rules.append("No other replacement: where a day's value depends on a missing price, the extracted expression and the "
                   "reference formula are missing together; a value only in the code is a replaced missing value.")
    apply_table(W, R, "C16", "fill")
    fill_function(W, R)
    simulation_fill(W, R)
    m = specs.load(W.tree, "formulas")
    for c in W.names():
        with R.unit(c):
            for va in variants(c):
                flag_flow(W, R, c, va)
                f = m.env.get(c)
                if f is None:
                    continue
                r = W.ctor(c, va)
                fn, owner = r.info.find("_calculateTi")
                where = (owner.module.path, fn.fn.lineno, c + "._calculateTi")
                ts = ti_series(r)
                sp, why = spec_series(W, m, r, f) if ts is not None else (None, "calculated frame not modelled")
                if sp is None or len(sp) != len(ts):
                    R.skip(c, why or "other columns")
                    continue
                for (nm, t), (nm2, t2) in zip(ts, sp):
                    R.count("columns")
                    if t is t2 or t2 is None:
                        continue
                    if t.opq:
                        R.skip("%s.%s" % (c, name_of(nm)), "expression contains an operation that is not modelled")
                        continue
                    try:
                        w = replaced(t, t2, r.facts + r.valid, 300 if R.thorough else 150)
                    except fp.Unev as e:
                        R.skip("%s.%s" % (c, name_of(nm)), "expression not interpretable: %s" % e)
                        continue
                    if w:
                        v, row, x, y = w
                        if x != x:
                            R.bad(*where, "replaced-gap", "column %r compares missing with known prices (row %d of %d): the outcome is a "
                                  "value whenever the first of them is known" % (name_of(nm), row, v.ns["in"]),
                                  key="%s|%s|gap" % (where[2], name_of(nm)))
                            continue
                        R.bad(*where, "replaced-gap", "column %r has the value %.6g on row %d of %d %s" % (
                              name_of(nm), x, row, v.ns["in"], "although a price it depends on is missing" if y is None or y != y else
                              "instead of %.6g: a missing price is replaced" % y), key="%s|%s|gap" % (where[2], name_of(nm)))
    if R.counts["flags followed"] < 40:
        raise Broken("constructors not found")


FILLS = ("fillna", "ffill", "bfill", "interp")


def replaced(t, t2, facts, count):
    """a valuation with gaps on which t has a value and t2 has none (twice, to be sure); where t fills something that t2 does
    not fill, a different value counts as well"""
    from .formula import STRS, confirm, grossly
    from .. import fingerprint as fp
    vals = [v for i, v in enumerate(fp.valuations([t, t2], facts, count=count, strs=STRS, seed=5, scale=True)) if i % 5 in (2, 3)]
    fills = {x.id for x in subterms(t) if x.op in FILLS} - {x.id for x in subterms(t2) if x.op in FILLS}
    if fills and confirm(t, t2, facts, 60)[0]:
        fills = set()              # differs without gaps as well: not a matter of filling
    hits, mixed = [], []
    for v in vals:
        ea, eb = fp.Eval(v), fp.Eval(v)
        for row in range(v.ns["in"]):
            try:
                y = eb.at(t2, row if t2.series else None)
                x = ea.at(t, row if t.series else None)
            except fp.Undef as e:
                # the larger of missing and known prices, in Python's order: a value whenever the first of them is known
                if "order dependent" in str(e) and "order" not in mixed_ref(eb, t2, row) and (not mixed or mixed[-1][0] is not v):
                    mixed.append((v, row))
                continue
            if isinstance(x, (int, float)) and x == x and (y is None or y != y or fills and grossly(x, y)):
                hits.append((v, row, x, y))
                break
        if len(hits) >= 2:
            return hits[0]
    if len(mixed) >= 6:
        return mixed[0] + (float("nan"), None)
    return None


def mixed_ref(e, t, row):
    """how the reference is undefined on a row: empty where it is missing there, as it should be"""
    from .. import fingerprint as fp
    try:
        y = e.at(t, row if t.series else None)
        return "" if y is None or y != y else "order"
    except fp.Undef:
        return "order"


def flag_flow(W, R, c, va):
    flag = mk("param", "fill_missing_values", "bool")
    I = W.tree.interp()
    ps, _ = typed_params(I, W.classes[c], {k: const(v) for k, v in va.items()})
    if "fill_missing_values" not in ps:
        R.skip(c, "no argument fill_missing_values")
        return
    r = W.ctor(c, va)
    seen = 0
    nested = []
    with R.unit(c + ".getTiSignal"):
        rs = W.fresh(c, va)
        k = len(rs.validates)
        W.signal_of(rs)
        nested = rs.validates[k:]
        R.count("flags followed in signals", len(nested))
    for v in list(r.validates) + nested:
        R.count("flags followed")
        root = not isinstance(v["src"], (FrmV, SerV)) and not any(isinstance(x, (FrmV, SerV)) for _, x in leaf_pairs(v["src"]))
        f = v["fill"]
        if root:
            seen += 1
        alone = {x for _, x in leaf_pairs(f)} if not isinstance(f, T) else {f}
        flat = set()
        for x in alone:
            flat |= ites(x)
        ok = flat <= ({flag, mk("truthy", flag)} if root else {flag, mk("truthy", flag), FALSE})
        if ok:
            continue
        if any(isinstance(x, T) and x.opq for x in flat):
            R.skip(c, "flag expression not modelled: %s" % ", ".join(show(x) for x in flat))
            continue
        bad = [show(x) if isinstance(x, T) else str(x) for x in flat if x is not flag]
        R.bad(v["file"], v["line"], c, "flag", "%s is validated with fill_missing_values = %s instead of the constructor's "
              "argument" % ("the input" if root else "a nested indicator's input", ", ".join(bad)),
              key="%s|%s|flag" % (c, "root" if root else "nested"))
    # default of the argument
    d = dict(init_params(W.classes[c])).get("fill_missing_values")
    if d is not None and not (isinstance(d, ast.Constant) and d.value is True):
        init, owner = W.classes[c].find("__init__")
        if isinstance(d, ast.Constant):
            R.bad(owner.module.path, init.fn.lineno, c + ".__init__", "flag-default", "filling is the documented default, but the "
                  "default is %r" % d.value, key="%s|default" % c)


def ites(x):
    if isinstance(x, T) and x.op == "ite":
        return ites(x.args[1]) | ites(x.args[2])
    return {x}


def fill_function(W, R):
    """fillMissingValues on any frame"""
    m, f = find_fn(W, "fillMissingValues")
    I = W.tree.interp()
    st = drive.base_state(I)
    I.facts_extra, I.hooks = (), {}
    I.events.clear()
    I.unknown.clear()
    ctx = Ctx("<entry>", m, None)
    v = I.call(f, [caller_frame(I, st)], {}, st, ctx, f.fn)
    q = drive.Run()
    q.I, q.st, q.ctx, q.value = I, st, ctx, v
    where = (m.path, f.fn.lineno, "fillMissingValues")
    long = constants(q)
    for req in REQS:
        for group, what, fr in family(req, long):
            if group == "bad" and fr.idx not in ("DatetimeIndex",):
                continue
            R.count("abstract frames")
            try:
                kind, got, e = outcome(q, fr, {})
            except Unk as x:
                R.skip("fillMissingValues", "operation not covered: %s" % x)
                continue
            if fr.kind != "DataFrame":
                if kind != "raise" or got != "TypeError":
                    R.bad(*where, "fill", "%s: %s instead of TypeError" % (what, "raises %s" % got if kind == "raise" else "is accepted"),
                          key="fill|type")
                continue
            if kind == "raise":
                R.bad(*where, "fill", "%s: refused with %s" % (what, got), key="fill|raise")
                continue
            o = sorted(range(len(fr.dates)), key=lambda i: fr.dates[i])
            want = {l: fill(fill([c[i] for i in o], "ffill", None), "bfill", None) for l, _, c in fr.cols}
            if got.dates != [fr.dates[i] for i in o]:
                R.bad(*where, "fill", "%s: rows come out as %s" % (what, got.dates), key="fill|rows")
            elif {l: c for l, _, c in got.cols} != want:
                R.bad(*where, "fill", "%s: cells come out as %s instead of %s" % (what, [c for _, _, c in got.cols][:1], list(want.values())[:1]),
                      key="fill|cells")


# --------------------------------------------------------------------------- C09
def c09(W, R):
    R.rules.append("Canonical form: for every row order, column order, letter case and set of unrelated columns, validation "
                   "returns exactly the required columns, lower-case, in date order, each cell from its own input cell "
                   "(abstract interpretation over provenance-labelled frames).")
    R.rules.append("No column of a frame in the caller's column order is addressed by position in any constructor, helper or "
                   "signal, and nothing but the canonical frame is read.")
    apply_table(W, R, "C09", "canonical-form")
    for c in W.names():
        with R.unit(c):
            from .formula import variants
            for va in variants(c):
                r, q = W.signal(c, va)
                R.count("constructors and signals")
                for e in list(r.events) + list(q.events):
                    if e.kind == "pos_col" and e.guard is not FALSE:
                        R.bad(e.file, e.line, c, "by-position", "addresses a column of the input by its position, which depends on the "
                              "order the caller's columns come in", key="%s|%s|pos" % (e.file, e.line))
                if not r.validates:
                    R.skip(c, "validation not seen")
    if R.counts["constructors and signals"] < 40:
        raise Broken("constructors not found")
