"""Transfer functions of the library operations used by the package.

Frames and series are views on array records, so that aliasing (and therefore
in-place mutation of foreign data) is visible; element values are terms.
"""
import ast
import re
from .terms import *
from .values import *
from . import lin

SLICE_ALL = ("slice", NONE, NONE, NONE)


def share_of(tag):
    """tag of an object that shares its buffers with a tagged one"""
    return ("share", tag) if isinstance(tag, str) else tag


ROW_FLAGS = (".isna", ".isnull", ".notna", ".notnull", ".any", ".all", ".duplicated", "frm.any", "frm.all", "invert")
VALUE_WRITES = ("fillna", "ffill", "bfill", "replace", "clip", "where", "mask", "interpolate", "update")
NUMERIC = {"int", "float", "number"}

BUILTINS = {
    "len", "int", "float", "bool", "str", "round", "abs", "min", "max", "sum", "sorted", "reversed",
    "enumerate", "zip", "map", "filter", "any", "all", "list", "tuple", "dict", "set", "range", "type",
    "isinstance", "hasattr", "getattr", "print", "super", "id", "repr", "callable", "setattr", "object",
    "frozenset", "iter", "next", "divmod", "pow", "property", "staticmethod", "classmethod", "issubclass",
    "vars", "hash", "open", "input", "exec", "eval", "globals", "locals", "complex", "bytes", "format", "slice",
}
EXC_NAMES = {"Exception", "BaseException", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError",
             "NotImplementedError", "RuntimeError", "ZeroDivisionError", "StopIteration", "AssertionError",
             "LookupError", "ArithmeticError", "OSError", "ImportError", "Warning", "UserWarning", "DeprecationWarning",
             "OverflowError", "FutureWarning", "RuntimeWarning"}
BINM = {"add": "Add", "sub": "Sub", "subtract": "Sub", "mul": "Mult", "multiply": "Mult", "div": "Div",
        "truediv": "Div", "divide": "Div", "pow": "Pow", "floordiv": "FloorDiv", "mod": "Mod",
        "radd": "RAdd", "rsub": "RSub", "rmul": "RMult", "rdiv": "RDiv", "rtruediv": "RDiv"}
CMPM = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}
PURE_MODULES = ("pandas", "numpy", "math", "statsmodels", "matplotlib", "abc", "warnings", "importlib", "typing",
                "functools", "itertools", "collections", "operator", "copy", "datetime", "re", "dataclasses", "enum")
NONDET = ("random", "numpy.random", "time", "datetime.datetime.now", "datetime.datetime.today",
          "datetime.date.today", "os.urandom", "os.environ", "os.getenv", "uuid", "secrets",
          "pandas.Timestamp.now", "pandas.Timestamp.today", "os.getpid", "numpy.random.default_rng",
          "pandas.get_option", "pandas.options", "numpy.geterr", "locale", "gc", "platform", "getpass", "os.cpu_count",
          "os.getcwd", "os.listdir", "os.path.exists", "os.path.isfile", "os.stat", "sys.argv", "sys.flags", "sys.modules",
          "sys.getrefcount", "sys.getrecursionlimit", "threading", "datetime.datetime.utcnow", "pandas.Timestamp.utcnow",
          "inspect.stack", "inspect.currentframe", "traceback")
VALUE_SOURCES = ("sys.modules", "sys.argv", "sys.flags", "sys.path", "os.environ", "pandas.options", "os.name", "sys.platform",
                 "sys.maxsize")
IO = ("open", "os.remove", "os.unlink", "shutil", "subprocess", "socket", "requests", "urllib", "pathlib")


def none_to_nan(t):
    if t is NONE:
        return NAN
    if t.op == "ite":
        return ite(t.args[0], none_to_nan(t.args[1]), none_to_nan(t.args[2]))
    if t.op == "seq":
        b = none_to_nan(t.args[2])
        return t if b is t.args[2] else mk("seq", t.args[0], t.args[1], b)
    return t


PERCENT = re.compile(r"%(?:\(([^)]*)\))?([-#0 +]*\d*(?:\.\d+)?)([sdirfgGeExXuc%])")
FLIPPED = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE", "Eq": "Eq", "NotEq": "NotEq"}


class Model:
    facts_extra = ()

    # ---------------------------------------------------------------- facts
    def base_facts(self):
        return list(self.facts_extra)

    def lv_facts(self, terms):
        out, done = [], set()
        todo = list(terms)
        while todo:
            t = todo.pop()
            for x in subterms(t):
                if x.id in done:
                    continue
                done.add(x.id)
                if x.op == "lv" and x.args[0] in self.lvrange:
                    lo, hi, step = self.lvrange[x.args[0]]
                    if is_num(step) and num(step) < 0:
                        fs = [compare("le", x, lo), compare("lt", hi, x)]
                    else:
                        fs = [compare("le", lo, x), compare("lt", x, hi)]
                    out += fs
                    todo += [lo, hi]
                elif x.op == "max" and not x.series:
                    out += [compare("ge", x, a) for a in x.args]
                elif x.op == "min" and not x.series:
                    out += [compare("le", x, a) for a in x.args]
                elif x.op == "floor" and not x.series:
                    out += [compare("le", x, x.args[0]), compare("gt", add(x, ONE), x.args[0])]
                elif x.op == "count" or x.op == "n":
                    out.append(compare("ge", x, ZERO))
        return [f for f in out if f is not TRUE]

    def facts(self, st):
        fs = []
        g = st.guard()
        fs += list(g.args) if g.op == "and" else [g]
        return fs + self.base_facts()

    def entails(self, st, cond):
        """Guard of st implies cond (linear reasoning only)."""
        if cond is TRUE:
            return True
        if cond is FALSE:
            return False
        if cond.op == "and":
            return all(self.entails(st, c) for c in cond.args)
        key = (st.guard().id, cond.id, len(self.lvrange), id(self.facts_extra))
        memo = self.__dict__.setdefault("_ent", {})
        r = memo.get(key)
        if r is None:
            nc = not_(cond)
            fs = self.facts(st)
            if cond in fs:
                r = True
            else:
                lits = fs + (list(nc.args) if nc.op == "and" else [nc])
                lits = lits + self.lv_facts(lits)
                r = lin.empty_lits(lits)
            memo[key] = r
        return r

    def norm_row(self, k, n, st):
        """Python position -> non-negative position term."""
        if is_num(k):
            return k if num(k) >= 0 else add(n, k)
        if k.op == "ite":
            return ite(k.args[0], self.norm_row(k.args[1], n, st), self.norm_row(k.args[2], n, st))
        if self.entails(st, compare("ge", k, ZERO)):
            return k
        if self.entails(st, compare("lt", k, ZERO)):
            return add(n, k)
        return ite(compare("lt", k, ZERO), add(n, k), k)

    def check_row(self, k, n, st, node, ctx, what):
        """Record the obligation that position k exists."""
        if not isinstance(k, T) or k.op in ("str", "none"):
            return
        oob = or_(compare("ge", k, n), compare("lt", k, neg(n)))
        if oob is FALSE:
            return
        if self.entails(st, not_(oob)):
            self.emit("row_access", st, node, ctx, cond=FALSE, row=k, n=n, what=what)
            return
        # drop the half which is excluded
        hi, lo = compare("ge", k, n), compare("lt", k, neg(n))
        cond = or_(*[c for c in (hi, lo) if not self.entails(st, not_(c))])
        self.emit("row_access", st, node, ctx, cond=cond, row=k, n=n, what=what, caught=ctx.catches("IndexError"))
        self.may_raise("IndexError", cond, st, node, ctx)

    # -------------------------------------------------------------- builders
    def ser(self, st, t, n, idx, name=None, tag=None):
        t = none_to_nan(t)
        return SerV(self.new(st, ArrRec(t, n, tag)), idx, name)

    def npv(self, st, t, n, tag=None):
        return NpV(self.new(st, ArrRec(t, n, tag)))

    def arr(self, v, st):
        return st.heap[v.arr]

    def rng_idx(self, n):
        return mk("irange", n)

    def frame(self, st, cols, idx, n, order="known", tag=None):
        """cols: list of (name, term)"""
        cs = [(c, self.new(st, ArrRec(t, n))) for c, t in cols]
        return FrmV(self.new(st, FrmRec(cs, idx, n, order, tag)))

    def frm(self, v, st):
        return st.heap[v.oid]

    def col_oid(self, rec, name):
        """name: python str/int or T"""
        for c, o in rec.cols:
            if isinstance(c, T) or isinstance(name, T):
                if c is name or (isinstance(c, T) and is_const(c) and pyval(c) == name):
                    return o
            elif c == name and type(c) is type(name):
                return o
        if isinstance(name, str) and name[-1:].isdigit():
            # a level rendered from an integral float: "50" and "50.0" name the same number
            alt = name[:-2] if name.endswith(".0") else name + ".0"
            for c, o in rec.cols:
                if c == alt:
                    return o
        return None

    def colname(self, k):
        """label term -> python name or T"""
        if isinstance(k, T) and is_const(k) and k.op in ("str", "const"):
            return pyval(k)
        return k

    def frm_term(self, rec, st):
        return mk("opq", "frame", *[st.heap[o].t for _, o in rec.cols])

    def slice_bounds(self, lo, hi, n, st):
        """normalised (lo, hi) with hi NONE when open; plus resulting length"""
        def nb(k, default):
            if k is NONE:
                return default
            if k.op == "ite":
                return ite(k.args[0], nb(k.args[1], default), nb(k.args[2], default))
            if is_num(k) and num(k) < 0 or (not is_num(k) and self.entails(st, compare("lt", k, ZERO))):
                r = add(n, k)
                if self.entails(st, compare("ge", r, ZERO)):
                    return r
                return tmax(ZERO, r)
            if is_num(k) or self.entails(st, compare("ge", k, ZERO)):
                return k
            return ite(compare("lt", k, ZERO), tmax(ZERO, add(n, k)), k)
        l = nb(lo, ZERO)
        h = nb(hi, NONE)
        if h is not NONE:
            if sub(h, n) is ZERO:
                h = NONE
            elif self.entails(st, compare("ge", h, n)):
                h = NONE
        end = n if h is NONE else (h if self.entails(st, compare("le", h, n)) else tmin(h, n))
        ln = sub(end, l)
        if not (is_num(ln) and num(ln) >= 0) and not self.entails(st, compare("ge", ln, ZERO)):
            ln = tmax(ZERO, ln)
        return l, h, ln

    def islice(self, idx, lo, hi):
        if is_num(lo) and num(lo) == 0 and hi is NONE:
            return idx
        if idx.op == "islice":
            l2 = add(idx.args[1], lo)
            if hi is NONE:
                return self.islice(idx.args[0], l2, idx.args[2])
            return self.islice(idx.args[0], l2, add(idx.args[1], hi))
        return mk("islice", idx, lo, hi)

    # ------------------------------------------------------------- alignment
    def align(self, v, idx, n, st, node, ctx):
        """Element term of v re-indexed to the rows of (idx, n)."""
        if isinstance(v, T):
            if v.series:
                return v
            return v
        if isinstance(v, SerV):
            r = st.heap[v.arr]
            return self.align_term(r.t, v.idx, r.n, idx, n, st, node, ctx)
        if isinstance(v, NpV):
            return st.heap[v.arr].t
        if isinstance(v, RefV):
            r = st.heap.get(v.oid)
            if isinstance(r, ListRec):
                return self.list_term(r, st)
        if isinstance(v, RangeV):
            return add(v.lo, mul(ROW, v.step))
        if isinstance(v, SeqV):
            return self.seq_term(v, st)
        if isinstance(v, FrmV):
            rec = st.heap[v.oid]
            if len(rec.cols) == 1:
                r = st.heap[rec.cols[0][1]]
                return self.align_term(r.t, rec.idx, r.n, idx, n, st, node, ctx)
        if isinstance(v, Np2V) and len(v.arrs) == 1:
            return st.heap[v.arrs[0]].t
        if isinstance(v, TupV):
            return mk("listlit", *[self.sig(x, st) for x in v.items])
        if isinstance(v, ChoiceV):
            return ite(v.c, self.align(v.a, idx, n, st, node, ctx), self.align(v.b, idx, n, st, node, ctx))
        return self.opaque("align", st, node, ctx, v)

    def align_term(self, t, si, sn, idx, n, st, node, ctx):
        if not t.series and si is idx:
            return t
        if si is idx:
            return t
        if idx is None or si is None:
            return t
        # the source covers a suffix / window of the destination axis
        off = self.offset_of(si, idx)
        if off is not None:
            lo, hi = off
            p = place(t, lo)
            c = compare("ge", ROW, lo) if not (is_num(lo) and num(lo) == 0) else TRUE
            if hi is not NONE:
                c = and_(c, compare("lt", ROW, hi))
            return ite(c, p, NAN)
        # the destination is a window of the source axis
        off = self.offset_of(idx, si)
        if off is not None:
            return slice_(t, off[0], off[1])
        return mk("align", t, si, idx)

    def offset_of(self, inner, outer):
        """inner == outer[lo:hi] -> (lo, hi)"""
        if inner is outer:
            return ZERO, NONE
        if inner.op == "islice" and inner.args[0] is outer:
            return inner.args[1], inner.args[2]
        if inner.op == "islice" and outer.op == "islice" and inner.args[0] is outer.args[0]:
            lo = sub(inner.args[1], outer.args[1])
            if is_num(lo) and num(lo) < 0:
                return None
            if not is_num(lo):
                return None
            hi = NONE
            if inner.args[2] is not outer.args[2]:
                if inner.args[2] is NONE:
                    return None
                hi = sub(inner.args[2], outer.args[1])
            return lo, hi
        return None

    def list_term(self, r, st):
        if r.items is None:
            return r.t
        ts = [self.sig(x, st) for x in r.items]
        if ts and all(t is ts[0] for t in ts) and is_const(ts[0]):
            return ts[0]
        if len(ts) == 1:
            return ts[0]
        return mk("opS", "list", *ts)

    def seq_term(self, v, st):
        """Term of a comprehension as a positional sequence."""
        if v.tag and v.tag[0] == "gen":
            _, uid, lo, hi, step, filt, t, _v = v.tag
            if filt is not TRUE:
                return mk("opq", "filtered", filt, t)
            m = {mk("lv", uid): add(lo, mul(step, ROW))}
            return self.lift_rows(t, mk("lv", uid), lo, step)
        if v.fn is not None:
            return mk("opq", "seq")
        return mk("opq", "seq")

    def lift_rows(self, t, lv, lo, step):
        """scalar term over loop variable lv -> series term over positions"""
        if not any(x is lv for x in subterms(t)):
            return t
        if t is lv:
            return add(lo, mul(step, ROW))
        if t.op == "cell":
            d = sub(t.args[1], lv)
            if not any(x is lv for x in subterms(d)) and not any(x is lv for x in subterms(t.args[0])) \
                    and is_num(step) and num(step) == 1:
                off = add(lo, d)
                return slice_(t.args[0], off, NONE)
        if t.op in ELEMENTWISE:
            return rebuild(t, lambda a: self.lift_rows(a, lv, lo, step))
        return self.seq_of(t, lv, lo, step)

    def seq_of(self, t, lv, lo, step):
        """series whose row r is t at iteration lo + step*r"""
        t = subst(t, {lv: add(lo, mul(step, lv))})
        nm, (b,) = self.close(lv.args[0], t)
        return mk("seq", ZERO, nm, b)

    def lift_abs(self, t, lv):
        """scalar term over row variable lv -> series term whose row r is t[lv := r]"""
        if t is lv:
            return ROW
        if not any(x is lv for x in subterms(t)):
            return t
        if t.op == "cell" and not any(x is lv for x in subterms(t.args[0])):
            d = sub(t.args[1], lv)
            if not any(x is lv for x in subterms(d)):
                return shift(t.args[0], neg(d))
        if t.op in ELEMENTWISE:
            return rebuild(t, lambda a: self.lift_abs(a, lv))
        return self.seq_of(t, lv, ZERO, ONE)

    # ---------------------------------------------------------------- writes
    def write_arr(self, oid, t, st, ctx, node, what="array"):
        r = st.heap.get(oid)
        if r is None:
            return
        self.emit("write_arr", st, node, ctx, oid=oid, tag=r.tag, what=what)
        dt = self.kept.get(oid) or self.np_write and self.kept_np.get(oid)
        if dt:
            t = self.converted(t, r.t, dt)
        st.heap[oid] = ArrRec(t, r.n, r.tag)

    def converted(self, t, old, dt):
        """t, of which the parts not in old are converted to dt"""
        if t is old or t.op == "opq":
            return t
        if t.op == "store":
            return store(self.converted(t.args[0], old, dt), t.args[1], self.astype_term(t.args[2], dt, "raise"))
        if t.op == "ite":
            return ite(t.args[0], self.converted(t.args[1], old, dt), self.converted(t.args[2], old, dt))
        return t if t.op == "astype" and t.args[1] == dt else self.astype_term(t, dt, "raise")

    def write_rows(self, oid, lo, hi, val, st, ctx, node):
        """rows lo..hi := val (series term relative to lo, or scalar)"""
        r = st.heap[oid]
        p = place(val, lo)
        c = compare("ge", ROW, lo) if not (is_num(lo) and num(lo) == 0) else TRUE
        if hi is not NONE:
            c = and_(c, compare("lt", ROW, hi))
        self.write_arr(oid, ite(c, p, r.t), st, ctx, node)

    def set_col(self, o, name, v, st, ctx, node):
        rec = st.heap[o.oid]
        idx, n = rec.idx, rec.n
        if isinstance(v, FrmV):
            r2 = st.heap[v.oid]
            if len(r2.cols) == 1:
                v = SerV(r2.cols[0][1], r2.idx)
        if not rec.cols and isinstance(v, SerV) and rec.idx.op == "irange":
            idx, n = v.idx, st.heap[v.arr].n
        t = self.align(v, idx, n, st, node, ctx)
        if t.series and isinstance(v, T):
            pass
        self.emit("write_frame", st, node, ctx, oid=o.oid, tag=rec.tag, col=name, val=t)
        noid = self.new(st, ArrRec(t, n))
        cols, done = [], False
        for c, oid in rec.cols:
            if c == name or c is name:
                cols.append((c, noid))
                done = True
            else:
                cols.append((c, oid))
        if not done:
            cols.append((name, noid))
        st.heap[o.oid] = FrmRec(cols, idx, n, rec.order, rec.tag)

    # ------------------------------------------------------------- sequences
    def concrete_items(self, v, st):
        if isinstance(v, TupV):
            return list(v.items)
        if isinstance(v, RefV):
            r = st.heap.get(v.oid)
            if isinstance(r, ListRec) and r.items is not None:
                if v.kind == "set" and r.meta == "set" and len(r.items) > 1:
                    self.set_iterated = True
                    if self.set_reverse:
                        return list(reversed(r.items))
                return list(r.items)
            if isinstance(r, DictRec) and not r.open:
                return [self.unkey(k) for k in r.items]
        if isinstance(v, RangeV):
            if is_num(v.lo) and is_num(v.hi) and is_num(v.step):
                rg = range(int(num(v.lo)), int(num(v.hi)), int(num(v.step)))
                if len(rg) <= 64:
                    return [const(i) for i in rg]
            return None
        if isinstance(v, T) and v.op == "str":
            return [const(c) for c in v.args[0]]
        if isinstance(v, SeqV):
            if v.tag and v.tag[0] == "items":
                return list(v.tag[1])
            if v.fn is not None and is_num(v.n) and num(v.n) <= 64:
                return [v.fn(const(i), st) for i in range(int(num(v.n)))]
        if isinstance(v, FrmV):
            return [const(c) if not isinstance(c, T) else c for c, _ in st.heap[v.oid].cols]
        if isinstance(v, IxrV) and v.kind == "columns":
            if isinstance(v.obj, FrmV):
                return [const(c) if not isinstance(c, T) else c for c, _ in st.heap[v.obj.oid].cols]
        if isinstance(v, SerV):
            r = st.heap[v.arr]
            if is_num(r.n) and num(r.n) <= 64:
                return [cell(r.t, const(i)) for i in range(int(num(r.n)))]
        if isinstance(v, NpV):
            r = st.heap[v.arr]
            if is_num(r.n) and num(r.n) <= 64:
                return [cell(r.t, const(i)) for i in range(int(num(r.n)))]
        return None

    def unkey(self, k):
        if k[0] == "c":
            return mk(k[1], *k[2])
        if k[0] == "tup":
            return TupV([self.unkey(x) for x in k[1:]])
        if k[0] == "t":
            return k[1]
        return mk("opq", "key", const(str(k)))

    def as_seq(self, v, st, ctx, node):
        if isinstance(v, RangeV):
            return v.lo, v.hi, v.step, (lambda lv, b: lv)
        if isinstance(v, (SerV, NpV)):
            r = st.heap[v.arr]
            return ZERO, r.n, ONE, (lambda lv, b, t=r.t: cell(t, lv))
        if isinstance(v, IdxV):
            return ZERO, v.n, ONE, (lambda lv, b, t=v.t: LabelV(t, lv))
        if isinstance(v, RefV):
            r = st.heap.get(v.oid)
            if isinstance(r, ListRec) and r.items is None and r.t is not None:
                return ZERO, r.n, ONE, (lambda lv, b, t=r.t: cell(t, lv))
        if isinstance(v, SeqV):
            if v.tag and v.tag[0] == "gen" and v.tag[5] is TRUE:
                _, uid, lo, hi, step, filt, t, val = v.tag
                if isinstance(val, T):
                    return lo, hi, step, (lambda lv, b: subst(t, {mk("lv", uid): lv}))
                return None
            if v.fn is not None:
                return ZERO, v.n, ONE, (lambda lv, b: v.fn(lv, b))
        if isinstance(v, IxrV) and v.kind == "columns" and isinstance(v.obj, RFrmV):
            t = st.heap[v.obj.oid].t
            return ZERO, mk("opI", "ncols", t), ONE, (lambda lv, b: mk("colname", t, lv))
        if isinstance(v, T) and v.op in ("param", "opL"):
            return ZERO, mk("opI", "len", v), ONE, (lambda lv, b: mk("item", v, lv))
        return None

    def seq_to_list(self, v, st, ctx):
        if v.tag and v.tag[0] == "gen":
            _, uid, lo, hi, step, filt, t, val = v.tag
            if filt is TRUE and isinstance(val, T):
                return RefV(self.new(st, ListRec(t=self.seq_term(v, st), n=self.range_count(lo, hi, step))), "list")
            if filt is TRUE and isinstance(val, RefV) and isinstance(st.heap.get(val.oid), ListRec) \
                    and st.heap[val.oid].items is not None:
                # list of equally long rows: keep column-wise
                cols = []
                for x in st.heap[val.oid].items:
                    cols.append(self.lift_rows(self.sig(x, st), mk("lv", uid), lo, step))
                n = self.range_count(lo, hi, step)
                return RefV(self.new(st, ListRec(t=mk("opS", "rows", *cols), n=n, meta=("rows", tuple(cols)))), "list")
            if step is ONE and isinstance(t, T) and not any(x.op in ("mu", "muS") and x.args[0] == uid for x in subterms(filt)):
                nm, (f2, t2) = self.close(uid, filt, t)
                return RefV(self.new(st, ListRec(t=mk("opS", "gen", f2, t2, nm, lo, hi), n=v.n, meta=("gen", v))), "list")
            return RefV(self.new(st, ListRec(t=mk("opS", "gen", filt, t), n=v.n, meta=("gen", v))), "list")
        if v.tag and v.tag[0] == "cond":
            return v
        if v.fn is not None:
            lv = mk("lv", self.fresh())
            self.lvrange[lv.args[0]] = (ZERO, v.n, ONE)
            x = v.fn(lv, st)
            if isinstance(x, T):
                return RefV(self.new(st, ListRec(t=self.lift_rows(x, lv, ZERO, ONE), n=v.n)), "list")
            return RefV(self.new(st, ListRec(t=mk("opS", "gen", self.sig(x, st)), n=v.n)), "list")
        return RefV(self.new(st, ListRec(t=mk("opq", "list"), n=v.n)), "list")

    def frame_comp(self, n, elt, g, it, st, ctx):
        """[expr for c in frame.columns] on a frame with unknown columns"""
        if isinstance(it, IxrV) and it.kind == "columns" and isinstance(it.obj, RFrmV):
            t = st.heap[it.obj.oid].t
            x = mk("colname", t, mk("lv", "bC"))
            b = st.enter({"__parent__": st.env})
            self.assign(g.target, x, b, ctx)
            filt = and_(*[self.cond(c, b, ctx) for c in g.ifs]) if g.ifs else TRUE
            v = self.eval(elt, b, ctx)
            return mk("colmap", t, self.sig(v, st), filt)
        return None

    def list_extend(self, o, v, st, ctx, node):
        r = st.heap[o.oid]
        if r.tag is not None:
            self.emit("write_list", st, node, ctx, oid=o.oid, tag=r.tag)
        items = self.concrete_items(v, st)
        if r.items is not None and items is not None:
            st.heap[o.oid] = ListRec(tuple(r.items) + tuple(items), tag=r.tag, meta=r.meta)
        else:
            st.heap[o.oid] = ListRec(t=mk("opq", "extend", self.sig(o, st), self.sig(v, st)), n=mk("opq", "len"), tag=r.tag)

    def list_append(self, o, v, st, ctx, node):
        r = st.heap[o.oid]
        if r.tag is not None:
            self.emit("write_list", st, node, ctx, oid=o.oid, tag=r.tag)
        if r.items is not None and not self.in_loop(ctx):
            st.heap[o.oid] = ListRec(tuple(r.items) + (v,), tag=r.tag, meta=r.meta)
        elif r.items is not None:
            # may be inside an unrolled or a symbolic loop: both shapes are handled by the loop driver
            st.heap[o.oid] = ListRec(tuple(r.items) + (v,), tag=r.tag, meta=r.meta)
        else:
            x = self.sig(v, st)
            st.heap[o.oid] = ListRec(t=store(r.t, r.n, x), n=add(r.n, ONE), tag=r.tag, meta=r.meta)

    def in_loop(self, ctx):
        return bool(ctx.loops)

    # ---------------------------------------------------------------- getattr
    def getattr(self, o, name, st, ctx, node):
        return self.lift(lambda s, x: self._getattr(x, name, s, ctx, node), st, o)

    def _getattr(self, o, name, st, ctx, node):
        if isinstance(o, ExtV):
            return self.ext_attr(o, name)
        if isinstance(o, ModV):
            sub_ = o.name + "." + name
            if o.name in self.project.modules:
                m = self.load_module(o.name)
                if name in m.env:
                    return m.env[name]
            if sub_ in self.project.modules:
                self.load_module(sub_)
                return ModV(sub_)
            return mk("opq", "modattr:" + sub_)
        if isinstance(o, RefV):
            r = st.heap.get(o.oid)
            if isinstance(r, InstRec):
                return self.inst_attr(o, r, name, st, ctx, node)
            return BoundV(o, name)
        if isinstance(o, SuperV):
            mro = None
            if isinstance(o.inst, RefV) and isinstance(st.heap.get(o.inst.oid), InstRec):
                mro = st.heap[o.inst.oid].cls.mro()
            elif o.cls is not None:
                mro = o.cls.mro()
            if mro:
                k = [c.qual for c in mro].index(o.cls.qual) if o.cls.qual in [c.qual for c in mro] else 0
                for c in mro[k + 1:]:
                    if name in c.members:
                        m = c.members[name]
                        if isinstance(m, FnV):
                            return FnV(m.fn, None if self.fn_kind(m.fn) == "staticmethod" else o.inst,
                                       m.closure, m.module, c)
                        return m
            return ExtV("object." + name)
        if isinstance(o, ClsV):
            if name == "__name__":
                return const(o.info.name)
            m, c = o.info.find(name)
            if isinstance(m, FnV):
                k = self.fn_kind(m.fn)
                return FnV(m.fn, o if k == "classmethod" else None, m.closure, m.module, c)
            if m is not None:
                return m
            return mk("opq", "clsattr:" + name)
        if isinstance(o, IxrV) and o.kind == "type":
            if name == "__name__":
                if isinstance(o.obj, RefV) and isinstance(st.heap.get(o.obj.oid), InstRec):
                    return const(st.heap[o.obj.oid].cls.name)
                return mk("typename", self.sig(o.obj, st))
            return mk("opq", "type." + name)
        if isinstance(o, FrmV):
            return self.frame_attr(o, name, st, ctx, node)
        if isinstance(o, RFrmV):
            return self.rframe_attr(o, name, st, ctx, node)
        if isinstance(o, SerV):
            r = st.heap[o.arr]
            if name in ("iat", "iloc", "loc", "at"):
                return IxrV(name, o)
            if name == "values" or name == "array":
                return NpV(o.arr)
            if name == "index":
                return IdxV(o.idx, r.n)
            if name == "size":
                return r.n
            if name == "shape":
                return TupV([r.n])
            if name == "empty":
                return compare("le", r.n, ZERO)
            if name == "name":
                return const(o.name) if isinstance(o.name, (str, int)) else (o.name if isinstance(o.name, T) else NONE)
            if name == "T":
                return o
            if name == "dtype":
                return mk("opq", "dtype", r.t)
            if name in IDX_PROPS:
                return mk("opb", name, r.t)
            return BoundV(o, name)
        if isinstance(o, NpV):
            r = st.heap[o.arr]
            if name == "size":
                return r.n
            if name == "shape":
                return TupV([r.n])
            if name == "T":
                return o
            return BoundV(o, name)
        if isinstance(o, Np2V):
            n = st.heap[o.arrs[0]].n if o.arrs else ZERO
            if name == "shape":
                return TupV([n, const(len(o.arrs))])
            if name == "size":
                return mul(n, const(len(o.arrs)))
            return BoundV(o, name)
        if isinstance(o, IdxV):
            if name == "size":
                return o.n
            if name == "shape":
                return TupV([o.n])
            if name == "values":
                return o
            if name == "empty":
                return compare("le", o.n, ZERO)
            if name in IDX_PROPS:
                if name == "is_monotonic_increasing" and self.sorted_idx(o.t):
                    return TRUE
                return mk("opb", name, o.t)
            return BoundV(o, name)
        if isinstance(o, OlsV):
            if name == "params":
                n = mk("n", "ols")
                a = [self.new(st, ArrRec(mk("ols", o.y, o.x, o.w, o.opts, k), self.ols_n(o))) for k in (0, 1)]
                return Np2V(a)
            return BoundV(o, name)
        if isinstance(o, IxrV) and o.kind == "columns":
            if name == "values":
                return o
            if name == "str":
                return IxrV("columns.str", o.obj)
            return BoundV(o, name)
        if isinstance(o, IxrV) and o.kind == "str":
            return BoundV(o, name)
        if isinstance(o, FnV):
            if name == "__name__":
                return const(o.fn.name)
            if name == "__func__":
                return o
            return mk("opq", "fnattr:" + name)
        if isinstance(o, T):
            if name == "size" and not o.series:
                return ONE
            if name in IDX_PROPS:
                return mk("opb", name, o)
            if o.op == "opL" and o.args[0] == "index" and name in ("dayofweek", "weekday", "day_of_week", "month", "year", "day", "hour"):
                return mk("opL", "dt." + name, o)
            if o.op == "opSF" and o.args[0] == "col" and name in ("dtype", "dtypes"):
                return mk("opL", "dtype", o)
            if o.op == "opL" and o.args[0] == "dtype" and name in ("kind", "name"):
                return mk("opL", "dt" + name, o)
            if o.op in ("opSF", "opL") and name == "values" and str(o.args[0]).startswith(("frm.", ".")):
                return mk(o.op, ".values", o)
            return BoundV(o, name)
        if isinstance(o, ExcV):
            if name == "args":
                return mk("opq", "excargs")
            return BoundV(o, name)
        return BoundV(o, name)

    def ols_n(self, o):
        return o.n if o.n is not None else mk("opI", "len", o.y)

    def inst_attr(self, o, r, name, st, ctx, node):
        if name in r.attrs:
            if name in r.gone and r.cls.find(name)[0] is None:
                self.no_attr(r, name, r.gone[name], st, ctx, node)
            return r.attrs[name]
        if name == "__class__":
            return ClsV(r.cls)
        if name == "__dict__":
            return mk("opq", "__dict__")
        m, c = r.cls.find(name)
        if isinstance(m, FnV):
            k = self.fn_kind(m.fn)
            if k == "staticmethod":
                return FnV(m.fn, None, m.closure, m.module, c)
            if k == "classmethod":
                return FnV(m.fn, ClsV(r.cls), m.closure, m.module, c)
            f = FnV(m.fn, o, m.closure, m.module, c)
            if k in ("property", "cached_property"):
                return self.call_fn(f, [], {}, st, ctx, node)
            return f
        if m is not None:
            return m
        h = self.hooks.get("attr:*")
        if h is not None:
            x = h(self, o, r, name, st, ctx, node)
            if x is not None:
                return x
        self.emit("missing_attr", st, node, ctx, cls=r.cls.name, attr=name)
        if r.cls.find("__getattr__")[0] is None and not name.startswith("__"):
            self.no_attr(r, name, TRUE, st, ctx, node)
        return mk("opq", "attr:" + name)

    def no_attr(self, r, name, cond, st, ctx, node):
        """an attribute is read that (under cond) nothing has been assigned to"""
        if not ctx.catches("AttributeError"):
            self.emit("unbound", st, node, ctx, cond=cond, row=None, n=None, what="attribute '%s' of %s has no value"
                      % (name, r.cls.name))

    def ext_attr(self, o, name):
        p = o.path + "." + name
        if p in ("numpy.nan", "numpy.NaN", "math.nan", "numpy.NAN", "pandas.NA", "pandas.NaT"):
            return NAN
        if p in ("numpy.inf", "math.inf"):
            return mk("inf", 1)
        if p in ("math.pi", "numpy.pi"):
            return mk("const", F("3.141592653589793"))
        if p in VALUE_SOURCES:
            return mk("opq", "nondet:" + p)
        return ExtV(p)

    def frame_attr(self, o, name, st, ctx, node):
        rec = st.heap[o.oid]
        if name in ("iat", "iloc", "loc", "at"):
            return IxrV(name, o)
        if name == "columns":
            return IxrV("columns", o)
        if name == "index":
            return IdxV(rec.idx, rec.n)
        if name == "values":
            return Np2V([a for _, a in rec.cols], o.oid)
        if name == "shape":
            return TupV([rec.n, const(len(rec.cols))])
        if name == "size":
            return mul(rec.n, const(len(rec.cols)))
        if name == "empty":
            return compare("le", rec.n, ZERO)
        if name == "T":
            return mk("opq", "frame.T", self.frm_term(rec, st))
        oid = self.col_oid(rec, name)
        if oid is not None:
            self.emit("col_read", st, node, ctx, frame=rec.tag, col=name)
            return SerV(oid, rec.idx, name)
        return BoundV(o, name)

    # ---------------------------------------------------------------- setattr
    def setattr(self, o, name, v, st, ctx, node):
        if isinstance(o, ChoiceV):
            self.setattr(o.a, name, v, st, ctx, node)
            self.setattr(o.b, name, v, st, ctx, node)
            return
        if isinstance(o, RefV) and isinstance(st.heap.get(o.oid), InstRec):
            r = st.heap[o.oid]
            self.emit("write_attr", st, node, ctx, oid=o.oid, cls=r.cls.name, attr=name, tag=r.tag, val=v)
            at = dict(r.attrs)
            at[name] = v
            st.heap[o.oid] = InstRec(r.cls, at, r.tag, r.sub, {k: g for k, g in r.gone.items() if k != name})
            return
        if isinstance(o, FrmV) and name == "columns":
            rec = st.heap[o.oid]
            items = self.concrete_items(v, st)
            self.emit("write_frame", st, node, ctx, oid=o.oid, tag=rec.tag, col=None, what="columns")
            if items is not None and len(items) == len(rec.cols):
                cols = [(self.colname(x), a) for x, (_, a) in zip(items, rec.cols)]
            else:
                cols = [(mk("opq", "col%d" % i), a) for i, (_, a) in enumerate(rec.cols)]
                self.unknown.append(("columns", ctx.module.path, getattr(node, "lineno", 0)))
            st.heap[o.oid] = FrmRec(cols, rec.idx, rec.n, rec.order, rec.tag)
            return
        if isinstance(o, FrmV) and name == "index":
            rec = st.heap[o.oid]
            self.emit("write_frame", st, node, ctx, oid=o.oid, tag=rec.tag, col=None, what="index")
            idx = v.t if isinstance(v, IdxV) else mk("opq", "index", self.sig(v, st))
            st.heap[o.oid] = FrmRec(rec.cols, idx, rec.n, rec.order, rec.tag)
            return
        if isinstance(o, RFrmV):
            rec = st.heap[o.oid]
            self.emit("write_frame", st, node, ctx, oid=o.oid, tag=rec.tag, col=None, what=name)
            if name == "columns":
                st.heap[o.oid] = RFrmRec(mk("opF", "setcols", rec.t, self.sig(v, st)), rec.tag, rec.extra)
            else:
                st.heap[o.oid] = RFrmRec(mk("opF", "set:" + name, rec.t, self.sig(v, st)), rec.tag, rec.extra)
            return
        if isinstance(o, SerV) and name in ("name", "index"):
            if name == "name":
                nm = NONE if v is NONE else self.colname(v) if isinstance(v, T) else mk("opq", "name")
                new = SerV(o.arr, o.idx, None if nm is NONE else nm)
            else:
                new = SerV(o.arr, v.t if isinstance(v, IdxV) else mk("opq", "index", self.sig(v, st)), o.name)
            for k, x in list(st.env.items()):
                if isinstance(x, SerV) and x.arr == o.arr and x.idx is o.idx:
                    st.env[k] = new
            return
        if isinstance(o, ClsV):
            self.emit("write_global", st, node, ctx, name=o.info.name + "." + name)
            self.outlive(o.info.members, name, v, st)
            return
        if isinstance(o, (ModV, ExtV)):
            self.emit("write_global", st, node, ctx, name=getattr(o, "name", None) or o.path + "." + name)
            return
        if isinstance(o, T):
            self.emit("unknown_write", st, node, ctx, obj=o, attr=name)

    # ---------------------------------------------------------------- getitem
    def getitem(self, o, k, st, ctx, node):
        if isinstance(k, tuple):
            return self.lift(lambda s, x: self._getitem(x, k, s, ctx, node), st, o)
        return self.lift(lambda s, x, kk: self._getitem(x, kk, s, ctx, node), st, o, k)

    def dict_get(self, o, k, st, ctx, node, default=None):
        r = st.heap[o.oid]
        kk = self.dkey(k, st)
        varied = any(not self.fixed_key(x) for x in r.items)
        if r.open:
            other = mk("opq", "dictget", self.sig(k, st))
            return choice(self.held(r.items[kk]), r.items[kk], other) if kk in r.items else other
        if kk in r.items and not varied and default is None:
            return r.items[kk]
        if kk in r.items and not varied:
            return choice(self.held(r.items[kk]), r.items[kk], default)
        if varied and not r.open:
            out, there = default if default is not None else mk("opq", "nokey"), FALSE
            for k2, v2 in r.items.items():
                c = and_(self.same_key(k2, kk), self.held(v2))
                out = v2 if c is TRUE else out if c is FALSE else choice(c, v2, out)
                there = or_(there, c)
            if default is None and there is not TRUE:
                self.emit("maybe_key", st, node, ctx, key=k, cond=not_(there))
            return out
        if isinstance(k, T) and k.op == "ite":
            return choice(k.args[0], self.dict_get(o, k.args[1], st, ctx, node, default),
                          self.dict_get(o, k.args[2], st, ctx, node, default))
        if default is not None:
            if isinstance(k, T) and is_const(k):
                return default
            out = default
            for kk2, vv in r.items.items():
                if kk2[0] == "c":
                    out = choice(compare("eq", k, mk(kk2[1], *kk2[2])), vv, out)
            return out
        if isinstance(k, T) and is_const(k) and not r.open:
            self.emit("missing_key", st, node, ctx, key=k)
            return mk("opq", "nokey", k)
        if isinstance(k, T) and all(kk2[0] == "c" for kk2 in r.items) and r.items and not r.open:
            # unknown key: one of the entries
            cond = FALSE
            out = None
            for kk2, vv in r.items.items():
                c = compare("eq", k, mk(kk2[1], *kk2[2]))
                out = vv if out is None else choice(c, vv, out)
                cond = or_(cond, c)
            self.emit("maybe_key", st, node, ctx, key=k, cond=not_(cond))
            return out
        return mk("opq", "dictget", self.sig(k, st))

    @staticmethod
    def is_gfx(v):
        """an object of the plotting library"""
        return isinstance(v, T) and (v.op == "ax" or v.op == "opq" and str(v.args[0]).startswith("ext:")) \
            or isinstance(v, ExtV) and v.path.startswith("matplotlib")

    def _getitem(self, o, k, st, ctx, node):
        if isinstance(k, FnV) and isinstance(o, (SerV, FrmV)):
            k = self.call(k, [o], {}, st, ctx, node)
        if isinstance(o, RefV):
            r = st.heap.get(o.oid)
            if isinstance(r, DictRec):
                return self.dict_get(o, k, st, ctx, node)
            if isinstance(r, ListRec):
                return self.list_get(r, k, st, ctx, node)
        if isinstance(o, TupV):
            return self.list_get(ListRec(o.items), k, st, ctx, node, tup=True)
        if isinstance(o, FrmV):
            return self.frame_get(o, k, st, ctx, node)
        if isinstance(o, RFrmV):
            rec = st.heap[o.oid]
            if isinstance(k, T) and (is_boolish(k) or k.op in ("opL", "opSF") and k.args[0] in ROW_FLAGS or
                                     k.op == "opE" and k.args[0] == "invert"):
                return RFrmV(self.new(st, RFrmRec(mk("opF", "getitem", rec.t, k), None)))
            if isinstance(k, T) and not k.series:
                self.emit("col_read", st, node, ctx, frame=rec.tag, col=k)
                v = mk("opSF", "col", rec.t, k)
                self.views[v.id] = share_of(rec.tag)
                return v
            if k == SLICE_ALL:
                return RFrmV(self.new(st, RFrmRec(rec.t, share_of(rec.tag), rec.extra)))
            if isinstance(k, tuple):
                return RFrmV(self.new(st, RFrmRec(mk("opF", "iloc", rec.t, self.keyterm(k, st)), share_of(rec.tag))))
            return RFrmV(self.new(st, RFrmRec(mk("opF", "getitem", rec.t, self.sig(k, st)), None)))
        if isinstance(o, SerV):
            r = st.heap[o.arr]
            if isinstance(k, tuple) and k[0] == "slice":
                return self.pos_slice(o, k, st)
            if isinstance(k, (SerV, NpV)):
                m = self.align(k, o.idx, r.n, st, node, ctx)
                if is_boolish(m) or m.op == "opq":
                    return self.filter_ser(o, m, st)
            if isinstance(k, T) and not k.series:
                self.emit("label_get", st, node, ctx, row=k)
                self.check_row(k, r.n, st, node, ctx, "series[]")
                return cell(r.t, self.norm_row(k, r.n, st)) if o.idx.op == "irange" else \
                    mk("opq", "lblget", r.t, k)
            if isinstance(k, LabelV):
                return self.cell_of_label(o, k, st, node, ctx)
            return self.opaque("series[]", st, node, ctx, o, k if not isinstance(k, tuple) else NONE)
        if isinstance(o, NpV):
            return self.np_get(o, k, st, ctx, node)
        if isinstance(o, Np2V):
            return self.np2_get(o, k, st, ctx, node)
        if isinstance(o, IdxV):
            if isinstance(k, tuple):
                if k[3] is NONE:
                    lo, hi, n = self.slice_bounds(k[1], k[2], o.n, st)
                    return IdxV(self.islice(o.t, lo, hi), n)
                return self.opaque("idx[::]", st, node, ctx, o)
            if isinstance(k, T) and not k.series:
                self.check_row(k, o.n, st, node, ctx, "index[]")
                return LabelV(o.t, self.norm_row(k, o.n, st))
            if isinstance(k, (SerV, NpV)):
                m = st.heap[k.arr].t
                return IdxV(mk("ifilter", o.t, m), self.count_of(m))
            return self.opaque("idx[]", st, node, ctx, o)
        if isinstance(o, IxrV):
            return self.ixr_get(o, k, st, ctx, node)
        if isinstance(o, SeqV):
            if o.fn is not None and isinstance(k, T):
                return o.fn(self.norm_row(k, o.n, st), st)
            if o.tag and o.tag[0] == "gen":
                return self._getitem(self.seq_to_list(o, st, ctx), k, st, ctx, node)
            if o.tag and o.tag[0] == "where":
                return o.tag[1]
        if isinstance(o, RangeV):
            if isinstance(k, T):
                self.check_row(k, self.range_count(o.lo, o.hi, o.step), st, node, ctx, "range[]")
                return add(o.lo, mul(o.step, self.norm_row(k, self.range_count(o.lo, o.hi, o.step), st)))
        if isinstance(o, BoundV) and self.is_gfx(o.obj):
            return mk("opq", "ext:" + o.name + "[]")
        if isinstance(o, WinV):
            obj = o.obj
            return WinV(o.kind, self._getitem(obj, k, st, ctx, node), o.p)
        if isinstance(o, T):
            if o.op == "str" and isinstance(k, T) and is_num(k):
                try:
                    return const(o.args[0][int(num(k))])
                except IndexError:
                    pass
            if o.op == "opT" and isinstance(k, T) and is_num(k) and 0 <= num(k) < len(o.args) - 1:
                return o.args[1 + int(num(k))]
            if isinstance(k, T):
                return mk("item", o, k) if not o.opq else mk("opq", "item", o, k)
        return self.opaque("getitem", st, node, ctx, o, k if not isinstance(k, tuple) else NONE)

    def list_get(self, r, k, st, ctx, node, tup=False):
        if isinstance(k, TupV):
            k = ("multi",) + tuple(k.items)
        if isinstance(k, tuple) and k[0] == "multi":
            if len(k) == 3 and r.items and all(isinstance(x, RefV) and isinstance(st.heap.get(x.oid), ListRec) and
                                               st.heap[x.oid].items is not None for x in r.items):
                rows = self.list_get(r, k[1], st, ctx, node)          # a grid of panels
                if not isinstance(k[1], tuple):
                    return self.list_get(st.heap[rows.oid], k[2], st, ctx, node) if isinstance(rows, RefV) else \
                        self.opaque("list[]", st, node, ctx)
                return self.mklist([self.list_get(st.heap[x.oid], k[2], st, ctx, node)
                                    for x in st.heap[rows.oid].items], st)
            return self.opaque("list[]", st, node, ctx)
        if isinstance(k, tuple):
            if r.items is not None and all(isinstance(x, T) and (x is NONE or is_num(x)) for x in k[1:]):
                s = slice(*[None if x is NONE else int(num(x)) for x in k[1:]])
                it = tuple(r.items)[s]
                return TupV(it) if tup else self.mklist(it, st)
            if r.items is None and k[3] is NONE:
                lo, hi, n = self.slice_bounds(k[1], k[2], r.n, st)
                return RefV(self.new(st, ListRec(t=slice_(r.t, lo, hi), n=n)), "list")
            return self.opaque("list[:]", st, node, ctx)
        if r.items is not None:
            if isinstance(k, T) and is_num(k) and num(k).denominator == 1:
                i = int(num(k))
                if -len(r.items) <= i < len(r.items):
                    return r.items[i]
                self.emit("row_access", st, node, ctx, cond=TRUE, row=k, n=const(len(r.items)), what="list[]",
                          caught=ctx.catches("IndexError"))
                self.may_raise("IndexError", TRUE, st, node, ctx)
                return mk("opq", "index_error")
            if isinstance(k, T) and k.op == "ite":
                return choice(k.args[0], self.list_get(r, k.args[1], st, ctx, node),
                              self.list_get(r, k.args[2], st, ctx, node))
            if isinstance(k, T) and r.items:
                if is_boolish(k):
                    return choice(k, r.items[1], r.items[0]) if len(r.items) > 1 else r.items[0]
                out = r.items[-1]
                for i in range(len(r.items) - 2, -1, -1):
                    out = choice(compare("eq", k, const(i)), r.items[i], out)
                return out
            return mk("opq", "list[]")
        if isinstance(k, T):
            self.check_row(k, r.n, st, node, ctx, "list[]")
            kk = self.norm_row(k, r.n, st)
            return cell(r.t, kk)
        return self.opaque("list[?]", st, node, ctx)

    def down_bounds(self, k):
        """[a:b:-1] as bounds of the ascending slice it reverses"""
        if not (is_num(k[3]) and num(k[3]) == -1) or (k[1] is NONE and k[2] is NONE):
            return None
        if not all(x is NONE or is_num(x) for x in k[1:3]):
            return None
        hi = NONE if k[1] is NONE or num(k[1]) == -1 else add(k[1], ONE)
        if k[2] is not NONE and num(k[2]) == -1:
            return None
        return (NONE if k[2] is NONE else add(k[2], ONE)), hi

    def pos_slice(self, o, k, st):
        """positional slice of a series: a view of the parent buffer when it is the full range"""
        r = st.heap[o.arr]
        if k[3] is not NONE and not (is_num(k[3]) and num(k[3]) == 1):
            if is_num(k[3]) and num(k[3]) == -1 and k[1] is NONE and k[2] is NONE:
                return self.ser(st, mk("opS", "reverse", r.t, r.n), r.n, mk("opq", "revidx", o.idx), o.name)
            b = self.down_bounds(k)
            if b is not None:
                return self.pos_slice(self.pos_slice(o, ("slice",) + b + (NONE,), st), ("slice", NONE, NONE, k[3]), st)
            return self.ser(st, mk("opq", "stepslice", r.t), mk("opq", "n"), mk("opq", "idx"), o.name)
        lo, hi, n = self.slice_bounds(k[1], k[2], r.n, st)
        if lo is ZERO and hi is NONE:
            return SerV(o.arr, o.idx, o.name)
        oid = self.new(st, ArrRec(slice_(r.t, lo, hi), n, ("view", o.arr, lo, hi)))
        return SerV(oid, self.islice(o.idx, lo, hi), o.name)

    def count_of(self, m):
        m = self.canon_mask(m)
        if m is FALSE:
            return ZERO
        return mk("count", m)

    def canon_mask(self, m):
        """conjunction with equalities: drop implied comparisons over the same quantity"""
        if m.op != "and":
            return m
        eqs = {x.args[0]: x.args[1] for x in m.args if x.op == "eq"}
        if not eqs:
            return m
        out = []
        for x in m.args:
            y = x
            ng = False
            if y.op == "not":
                ng, y = True, y.args[0]
            if y.op in CMP_OPS and y.args[0] in eqs and x.op != "eq":
                v, c = eqs[y.args[0]], y.args[1]
                b = {"lt": v < c, "le": v <= c, "gt": v > c, "ge": v >= c, "eq": v == c}[y.op]
                if b == ng:
                    return FALSE
                continue
            out.append(x)
        vals = {}
        for x in out:
            if x.op == "eq":
                if x.args[0] in vals and vals[x.args[0]] != x.args[1]:
                    return FALSE
                vals[x.args[0]] = x.args[1]
        return and_(*out)

    def filter_ser(self, o, m, st):
        r = st.heap[o.arr]
        m = self.canon_mask(m)
        return self.ser(st, mk("filter", r.t, m) if r.t.series else r.t, self.count_of(m), mk("ifilter", o.idx, m), o.name)

    def row_of_label(self, k, idx, st, node, ctx):
        """position on axis idx of the label k"""
        if isinstance(k, LabelV):
            if k.idx is idx:
                return k.row
            off = self.offset_of(k.idx, idx)
            if off is not None:
                return add(off[0], k.row)
            off = self.offset_of(idx, k.idx)
            if off is not None:
                return sub(k.row, off[0])
        return None

    def cell_of_label(self, o, k, st, node, ctx):
        r = st.heap[o.arr]
        row = self.row_of_label(k, o.idx, st, node, ctx)
        if row is None:
            return self.opaque("label", st, node, ctx, o)
        return cell(r.t, row)

    def np_get(self, o, k, st, ctx, node):
        r = st.heap[o.arr]
        if isinstance(k, tuple) and k[0] == "slice":
            if k[3] is NONE:
                lo, hi, n = self.slice_bounds(k[1], k[2], r.n, st)
                if lo is ZERO and hi is NONE:
                    return o
                return NpV(self.new(st, ArrRec(slice_(r.t, lo, hi), n, ("view", o.arr, lo, hi))))
            if is_num(k[3]) and num(k[3]) == -1 and k[1] is NONE and k[2] is NONE:
                return self.npv(st, mk("opS", "reverse", r.t, r.n), r.n)
            b = self.down_bounds(k)
            if b is not None:
                return self.np_get(self.np_get(o, ("slice",) + b + (NONE,), st, ctx, node),
                                   ("slice", NONE, NONE, k[3]), st, ctx, node)
            return self.opaque("np[::]", st, node, ctx, o)
        if isinstance(k, (SerV, NpV)):
            m = st.heap[k.arr].t
            if is_boolish(m):
                return self.npv(st, mk("filter", r.t, self.canon_mask(m)) if r.t.series else r.t, self.count_of(m))
        if isinstance(k, T) and not k.series:
            self.check_row(k, r.n, st, node, ctx, "values[]")
            if r.t.op == "posof" and is_num(k) and num(k) in (0, -1):
                return mk("aggr", "firstpos" if num(k) == 0 else "lastpos", r.t.args[0])
            return cell(r.t, self.norm_row(k, r.n, st))
        return self.opaque("np[]", st, node, ctx, o)

    def np2_get(self, o, k, st, ctx, node):
        n = st.heap[o.arrs[0]].n
        if isinstance(k, TupV) and len(k.items) == 2:
            k = ("multi",) + tuple(k.items)
        if isinstance(k, tuple) and k[0] == "multi" and len(k) == 3:
            rk, ck = k[1], k[2]
            if isinstance(ck, tuple):
                if ck == SLICE_ALL:
                    cols = list(o.arrs)
                else:
                    if all(x is NONE or is_num(x) for x in ck[1:]):
                        cols = list(o.arrs)[slice(*[None if x is NONE else int(num(x)) for x in ck[1:]])]
                    else:
                        return self.opaque("np2", st, node, ctx)
                one = False
            elif isinstance(ck, T) and is_num(ck):
                i = int(num(ck))
                if not -len(o.arrs) <= i < len(o.arrs):
                    self.emit("row_access", st, node, ctx, cond=TRUE, row=ck, n=const(len(o.arrs)), what="column")
                    return mk("opq", "badcol")
                self.pos_col(o, i, st, ctx, node)
                cols = [o.arrs[i]]
                one = True
            else:
                return self.opaque("np2", st, node, ctx)
            if one:
                return self.np_get(NpV(cols[0]), rk, st, ctx, node)
            if isinstance(rk, T) and not rk.series:
                self.check_row(rk, n, st, node, ctx, "values[]")
                row = self.norm_row(rk, n, st)
                return TupV([cell(st.heap[a].t, row) for a in cols])
            if isinstance(rk, tuple) and rk == SLICE_ALL:
                return Np2V(cols, None)
            if isinstance(rk, (NpV, SerV)):
                return Np2V([self.np_get(NpV(a), rk, st, ctx, node).arr for a in cols])
            if isinstance(rk, tuple) and rk[3] is NONE:
                return Np2V([self.np_get(NpV(a), rk, st, ctx, node).arr for a in cols])
            return self.opaque("np2", st, node, ctx)
        if isinstance(k, T) and not k.series:
            self.check_row(k, n, st, node, ctx, "values[]")
            row = self.norm_row(k, n, st)
            return TupV([cell(st.heap[a].t, row) for a in o.arrs])
        if isinstance(k, tuple) and k[0] == "slice" and k[3] is NONE:
            return Np2V([self.np_get(NpV(a), k, st, ctx, node).arr for a in o.arrs])
        if isinstance(k, (NpV, SerV)):
            return Np2V([self.np_get(NpV(a), k, st, ctx, node).arr for a in o.arrs])
        return self.opaque("np2[]", st, node, ctx)

    def pos_col(self, o, i, st, ctx, node):
        """positional column selection: depends on the order of the caller's columns"""
        if isinstance(o, Np2V):
            oid = o.frame
        else:
            oid = o.oid
        rec = st.heap.get(oid) if oid is not None else None
        if isinstance(rec, FrmRec) and rec.order == "caller" and len(rec.cols) > 1:
            k = pyval(i) if isinstance(i, T) and is_num(i) else i
            if isinstance(k, (int, F)) and -len(rec.cols) <= k < len(rec.cols) and not any(
                    st.heap[a].t.op == "col" for _, a in rec.cols[int(k) % len(rec.cols):]):
                return          # columns added by the package follow the caller's
            self.emit("pos_col", st, node, ctx, pos=i, ncols=len(rec.cols))

    def frame_get(self, o, k, st, ctx, node):
        rec = st.heap[o.oid]
        if isinstance(k, tuple) and k[0] == "slice":
            return self.frame_rows(o, k, st, ctx, node)
        if isinstance(k, T) and not k.series:
            if k.op == "ite":
                return self.join(k.args[0], self.frame_get(o, k.args[1], st, ctx, node),
                                 self.frame_get(o, k.args[2], st, ctx, node), st)
            name = self.colname(k)
            oid = self.col_oid(rec, name)
            if oid is not None:
                self.emit("col_read", st, node, ctx, frame=rec.tag, col=name)
                return SerV(oid, rec.idx, name)
            self.emit("col_missing", st, node, ctx, frame=rec.tag, col=name, cols=[c for c, _ in rec.cols])
            self.may_raise("KeyError", TRUE, st, node, ctx)
            return self.ser(st, mk("opq", "nocol", k), rec.n, rec.idx)
        if isinstance(k, (RefV, TupV)) or (isinstance(k, IxrV) and k.kind == "columns"):
            items = self.concrete_items(k, st)
            if items is not None and all(isinstance(x, T) for x in items):
                cols = []
                for x in items:
                    name = self.colname(x)
                    oid = self.col_oid(rec, name)
                    if oid is None:
                        self.emit("col_missing", st, node, ctx, frame=rec.tag, col=name, cols=[c for c, _ in rec.cols])
                        t = mk("opq", "nocol", x if isinstance(x, T) else const(str(x)))
                    else:
                        self.emit("col_read", st, node, ctx, frame=rec.tag, col=name)
                        t = st.heap[oid].t
                    cols.append((name, self.new(st, ArrRec(t, rec.n))))
                return FrmV(self.new(st, FrmRec(cols, rec.idx, rec.n)))
        if isinstance(k, (SerV, NpV)):
            m = self.align(k, rec.idx, rec.n, st, node, ctx)
            return self.filter_frame(o, m, st)
        if isinstance(k, FrmV):
            return IxrV("framemask", TupV([o, k]))
        return self.opaque("frame[]", st, node, ctx, o)

    def filter_frame(self, o, m, st, cols=None):
        rec = st.heap[o.oid]
        m = self.canon_mask(m)
        n = self.count_of(m)
        cs = []
        for c, a in rec.cols:
            t = st.heap[a].t
            cs.append((c, self.new(st, ArrRec(mk("filter", t, m) if t.series else t, n))))
        return FrmV(self.new(st, FrmRec(cs, mk("ifilter", rec.idx, m), n, rec.order)))

    def frame_rows(self, o, k, st, ctx, node):
        rec = st.heap[o.oid]
        if k[3] is not NONE and not (is_num(k[3]) and num(k[3]) == 1):
            if is_num(k[3]) and num(k[3]) == -1 and k[1] is NONE and k[2] is NONE:
                cs = [(c, self.new(st, ArrRec(mk("opS", "reverse", st.heap[a].t, rec.n), rec.n))) for c, a in rec.cols]
                return FrmV(self.new(st, FrmRec(cs, mk("opq", "revidx", rec.idx), rec.n, rec.order)))
            b = self.down_bounds(k)
            if b is not None:
                return self.frame_rows(self.frame_rows(o, ("slice",) + b + (NONE,), st, ctx, node),
                                       ("slice", NONE, NONE, k[3]), st, ctx, node)
            return self.opaque("frame[::]", st, node, ctx, o)
        lo, hi, n = self.slice_bounds(k[1], k[2], rec.n, st)
        cs = [(c, self.new(st, ArrRec(slice_(st.heap[a].t, lo, hi), n, ("view", a, lo, hi)))) for c, a in rec.cols]
        return FrmV(self.new(st, FrmRec(cs, self.islice(rec.idx, lo, hi), n, rec.order)))

    def ixr_get(self, o, k, st, ctx, node):
        if o.kind == "columns":
            items = self.concrete_items(o, st)
            if items is not None and isinstance(k, T):
                return self.list_get(ListRec(items), k, st, ctx, node)
            if items is not None and isinstance(k, tuple):
                return self.list_get(ListRec(items), k, st, ctx, node)
            return self.opaque("columns[]", st, node, ctx)
        obj = o.obj
        if isinstance(obj, ChoiceV):
            return self.lift(lambda s, x: self.ixr_get(IxrV(o.kind, x), k, s, ctx, node), st, obj)
        if isinstance(obj, SerV):
            r = st.heap[obj.arr]
            if o.kind in ("iat", "iloc"):
                if isinstance(k, tuple) and k[0] == "slice":
                    return self.pos_slice(obj, k, st)
                if isinstance(k, (SerV, NpV)):
                    return self.filter_ser(obj, self.align(k, obj.idx, r.n, st, node, ctx), st)
                if isinstance(k, T) and not k.series:
                    self.check_row(k, r.n, st, node, ctx, o.kind)
                    return cell(r.t, self.norm_row(k, r.n, st))
                if isinstance(k, TupV) and len(k.items) == 1:
                    return self.ixr_get(o, k.items[0], st, ctx, node)
            else:
                if isinstance(k, LabelV):
                    return self.cell_of_label(obj, k, st, node, ctx)
                if isinstance(k, (SerV, NpV)):
                    m = self.align(k, obj.idx, r.n, st, node, ctx)
                    if is_boolish(m):
                        return self.filter_ser(obj, m, st)
                if isinstance(k, IdxV):
                    off = self.offset_of(k.t, obj.idx)
                    if off is not None:
                        return self.ser(st, slice_(r.t, off[0], off[1]), k.n, k.t, obj.name)
                if isinstance(k, tuple) and k[0] == "slice":
                    lo = self.row_of_label(k[1], obj.idx, st, node, ctx) if k[1] is not NONE else ZERO
                    hi = self.row_of_label(k[2], obj.idx, st, node, ctx) if k[2] is not NONE else NONE
                    if lo is not None and hi is not None:
                        return self.pos_slice(obj, ("slice", lo, add(hi, ONE) if hi is not NONE else NONE, NONE), st)
                if isinstance(k, T) and not k.series:
                    return mk("lblget", mk("opq", "series", r.t), k) if False else mk("opq", "lbl", r.t, k)
            return self.opaque("series." + o.kind, st, node, ctx, obj)
        if isinstance(obj, FrmV):
            return self.frame_ix(o.kind, obj, k, st, ctx, node)
        if isinstance(obj, RFrmV):
            rec = st.heap[obj.oid]
            if k == SLICE_ALL or (isinstance(k, TupV) and len(k.items) == 2 and all(x == SLICE_ALL for x in k.items)):
                return RFrmV(self.new(st, RFrmRec(rec.t, share_of(rec.tag), rec.extra)))
            sl = isinstance(k, tuple) and k[0] == "slice"
            return RFrmV(self.new(st, RFrmRec(mk("opF", o.kind, rec.t, self.keyterm(k, st)), share_of(rec.tag) if sl else None)))
        return self.opaque("ixr." + o.kind, st, node, ctx, obj)

    def keyterm(self, k, st):
        if isinstance(k, tuple):
            return mk("opT", *[self.keyterm(x, st) if isinstance(x, tuple) else (const(x) if isinstance(x, str) else self.sig(x, st)) for x in k])
        return self.sig(k, st)

    def sel_cols(self, rec, ck, st, ctx, node, kind, obj):
        """column selector -> list of (name, oid), scalar?"""
        if isinstance(ck, tuple) and ck == SLICE_ALL:
            return list(rec.cols), False
        if kind in ("iloc", "iat"):
            if isinstance(ck, T) and is_num(ck):
                i = int(num(ck))
                if -len(rec.cols) <= i < len(rec.cols):
                    self.pos_col(obj, i, st, ctx, node)
                    return [rec.cols[i]], True
                self.emit("row_access", st, node, ctx, cond=TRUE, row=ck, n=const(len(rec.cols)), what="column")
                return None, False
            if isinstance(ck, tuple) and all(x is NONE or is_num(x) for x in ck[1:]):
                self.pos_col(obj, 0, st, ctx, node)
                return list(rec.cols)[slice(*[None if x is NONE else int(num(x)) for x in ck[1:]])], False
            items = self.concrete_items(ck, st) if not isinstance(ck, (T, tuple)) else None
            if items is not None and all(isinstance(x, T) and is_num(x) for x in items):
                self.pos_col(obj, 0, st, ctx, node)
                return [rec.cols[int(num(x))] for x in items], False
            return None, False
        if isinstance(ck, T):
            name = self.colname(ck)
            oid = self.col_oid(rec, name)
            if oid is None:
                return [(name, None)], True
            self.emit("col_read", st, node, ctx, frame=rec.tag, col=name)
            return [(name, oid)], True
        items = self.concrete_items(ck, st) if not isinstance(ck, tuple) else None
        if items is not None:
            out = []
            for x in items:
                name = self.colname(x)
                out.append((name, self.col_oid(rec, name)))
                self.emit("col_read", st, node, ctx, frame=rec.tag, col=name)
            return out, False
        return None, False

    def frame_ix(self, kind, obj, k, st, ctx, node):
        rec = st.heap[obj.oid]
        if isinstance(k, TupV) and len(k.items) == 2:
            k = ("multi",) + tuple(k.items)
        if isinstance(k, tuple) and k[0] == "multi" and len(k) == 3:
            rk, ck = k[1], k[2]
            cols, one = self.sel_cols(rec, ck, st, ctx, node, kind, obj)
            if cols is None or any(oid is None for _, oid in cols):
                return self.opaque("frame.%s col" % kind, st, node, ctx, obj)
            if one:
                return self.ixr_get(IxrV(kind, SerV(cols[0][1], rec.idx, cols[0][0])), rk, st, ctx, node)
            sub_ = FrmV(self.new(st, FrmRec(cols, rec.idx, rec.n, rec.order)))
            return self.frame_ix(kind, sub_, rk, st, ctx, node)
        if isinstance(k, tuple) and k[0] == "slice":
            if kind in ("iloc", "iat"):
                return self.frame_rows(obj, k, st, ctx, node)
            if k == SLICE_ALL:
                return self.frame_rows(obj, k, st, ctx, node)
            lo = self.row_of_label(k[1], rec.idx, st, node, ctx) if k[1] is not NONE else ZERO
            hi = self.row_of_label(k[2], rec.idx, st, node, ctx) if k[2] is not NONE else NONE
            if lo is not None and hi is not None:
                return self.frame_rows(obj, ("slice", lo, add(hi, ONE) if hi is not NONE else NONE, NONE), st, ctx, node)
            ends = [x for x in k[1:3] if x is not NONE]
            if kind == "loc" and k[3] is NONE and all(isinstance(x, T) and not x.opq and any(
                    y.op == "opL" and y.args[0] == "to_datetime" for y in subterms(x)) for x in ends):
                ix = mk("index", rec.idx)
                return self.filter_frame(obj, and_(*[compare(o, ix, x) for o, x in (("ge", k[1]), ("le", k[2])) if x is not NONE]), st)
            return self.opaque("frame.loc[:]", st, node, ctx, obj)
        if isinstance(k, (SerV, NpV)):
            m = self.align(k, rec.idx, rec.n, st, node, ctx)
            if is_boolish(m):
                return self.filter_frame(obj, m, st)
        if isinstance(k, IdxV):
            off = self.offset_of(k.t, rec.idx)
            if off is not None:
                return self.frame_rows(obj, ("slice", off[0], off[1], NONE), st, ctx, node)
        row = None
        if kind in ("iloc", "iat") and isinstance(k, T) and not k.series:
            self.check_row(k, rec.n, st, node, ctx, kind)
            row = self.norm_row(k, rec.n, st)
        elif isinstance(k, LabelV):
            row = self.row_of_label(k, rec.idx, st, node, ctx)
        if row is not None:
            items = [cell(st.heap[a].t, row) for _, a in rec.cols]
            return SeqV(const(len(items)), None, ("items", tuple(items), tuple(c for c, _ in rec.cols), ("row", rec, row)))
        if kind in ("loc", "at") and isinstance(k, (LabelV, ChoiceV)) and self.date_term(k) is not None:
            k = self.date_term(k)
        if kind in ("loc", "at") and isinstance(k, T) and not k.series:
            # lookup by value
            self.emit("label_lookup", st, node, ctx, key=k)
            self.may_raise("KeyError", mk("not", mk("in", k, rec.idx)), st, node, ctx)
            items = [mk("lookup", st.heap[a].t, k) for _, a in rec.cols]
            return SeqV(const(len(items)), None, ("items", tuple(items), tuple(c for c, _ in rec.cols), ("lookup", rec, k)))
        one = self.concrete_items(k, st) if kind == "loc" and isinstance(k, (RefV, TupV)) else None
        if one is not None and len(one) == 1 and isinstance(one[0], (LabelV, ChoiceV)) and self.date_term(one[0]) is not None:
            one = [self.date_term(one[0])]
        if one is not None and len(one) == 1 and isinstance(one[0], T) and one[0].op not in ("str", "const"):
            # lookup of a list of one date: the rows of that date, or a failure
            self.emit("label_lookup", st, node, ctx, key=one[0])
            self.may_raise("KeyError", mk("not", mk("in", one[0], rec.idx)), st, node, ctx)
            return self.filter_frame(obj, mk("seq_eq", mk("index", rec.idx), one[0]), st)
        return self.opaque("frame." + kind, st, node, ctx, obj)

    # ---------------------------------------------------------------- setitem
    def setitem(self, o, k, v, st, ctx, node):
        if isinstance(o, ChoiceV):
            s1, s2 = st.fork(o.c), st.fork(not_(o.c))
            self.setitem(o.a, k, v, s1, ctx, node)
            self.setitem(o.b, k, v, s2, ctx, node)
            st.become(self.merge(st, o.c, s1, s2))
            return
        if isinstance(o, RefV):
            r = st.heap.get(o.oid)
            if isinstance(r, DictRec):
                self.emit("write_dict", st, node, ctx, oid=o.oid, tag=r.tag)
                d = dict(r.items)
                d[self.dkey(k, st)] = v
                st.heap[o.oid] = DictRec(d, r.tag, r.open)
                return
            if isinstance(r, ListRec):
                if r.tag is not None:
                    self.emit("write_list", st, node, ctx, oid=o.oid, tag=r.tag)
                if r.items is not None and isinstance(k, T) and is_num(k):
                    it = list(r.items)
                    i = int(num(k))
                    if -len(it) <= i < len(it):
                        it[i] = v
                        st.heap[o.oid] = ListRec(tuple(it), tag=r.tag, meta=r.meta)
                        return
                if r.items is None and isinstance(k, T):
                    self.check_row(k, r.n, st, node, ctx, "list[]=")
                    st.heap[o.oid] = ListRec(t=store(r.t, self.norm_row(k, r.n, st), self.sig(v, st)), n=r.n, tag=r.tag, meta=r.meta)
                    return
                st.heap[o.oid] = ListRec(t=mk("opq", "liststore"), n=r.n if r.n is not None else const(len(r.items)), tag=r.tag)
                return
        if isinstance(o, FrmV):
            return self.frame_set(o, k, v, st, ctx, node)
        if isinstance(o, RFrmV):
            rec = st.heap[o.oid]
            self.emit("write_frame", st, node, ctx, oid=o.oid, tag=rec.tag, col=self.keyterm(k, st), what="column")
            st.heap[o.oid] = RFrmRec(mk("opF", "setitem", rec.t, self.keyterm(k, st), self.sig(v, st)), rec.tag, rec.extra)
            return
        if isinstance(o, (SerV, NpV)):
            return self.arr_set(o, k, v, st, ctx, node)
        if isinstance(o, Np2V):
            return self.np2_set(o, k, v, st, ctx, node)
        if isinstance(o, IxrV):
            return self.ixr_set(o, k, v, st, ctx, node)
        if isinstance(o, SeqV) and o.tag and o.tag[0] == "items":
            return
        if isinstance(o, T) and o.op in ("opSF", "opL") and o.id in self.views:
            self.emit("write_series", st, node, ctx, obj=o, what="[]=", tag=self.views.get(o.id))
            return
        self.emit("unknown_write", st, node, ctx, obj=o)
        self.unknown.append(("setitem", ctx.module.path, getattr(node, "lineno", 0)))

    def val_term(self, v, oid, idx, st, node, ctx):
        n = st.heap[oid].n
        return self.align(v, idx, n, st, node, ctx)

    def arr_set(self, o, k, v, st, ctx, node, scalar_col=True):
        """o[k] = v on a 1-D buffer (through views); a buffer keeps its dtype when written through numpy"""
        was, self.np_write = self.np_write, isinstance(o, NpV)
        try:
            return self.arr_store(o, k, v, st, ctx, node, scalar_col)
        finally:
            self.np_write = was

    def arr_store(self, o, k, v, st, ctx, node, scalar_col=True):
        oid = o.arr
        r = st.heap[oid]
        idx = o.idx if isinstance(o, SerV) else None
        if r.tag is not None and isinstance(r.tag, tuple) and r.tag[0] == "view":
            # write through to the parent buffer
            _, parent, lo, hi = r.tag
            if parent in st.heap and isinstance(k, T) and not k.series:
                row = self.norm_row(k, r.n, st)
                self.check_row(k, r.n, st, node, ctx, "[]=")
                p = st.heap[parent]
                vt = self.sig(v, st)
                self.write_arr(parent, store(p.t, add(lo, row), vt), st, ctx, node)
                st.heap[oid] = ArrRec(store(r.t, row, vt), r.n, r.tag)
                return
            if parent in st.heap and isinstance(k, tuple) and k[0] == "slice":
                l2, h2, n2 = self.slice_bounds(k[1], k[2], r.n, st)
                vt = self.plain(v, st, node, ctx)
                self.write_rows(parent, add(lo, l2), hi if h2 is NONE else add(lo, h2), vt, st, ctx, node)
                return
        if isinstance(k, tuple) and k[0] == "slice":
            if k[3] is not NONE and not (is_num(k[3]) and num(k[3]) == 1):
                self.write_arr(oid, mk("opq", "stepstore", r.t), st, ctx, node)
                return
            lo, hi, n = self.slice_bounds(k[1], k[2], r.n, st)
            if isinstance(o, SerV) and isinstance(v, SerV):
                vt = self.align(v, self.islice(o.idx, lo, hi), n, st, node, ctx)
            else:
                vt = self.plain(v, st, node, ctx)
            self.write_rows(oid, lo, hi, vt, st, ctx, node)
            return
        if isinstance(k, (SerV, NpV)):
            m = self.align(k, idx, r.n, st, node, ctx) if idx is not None else st.heap[k.arr].t
            if is_boolish(m):
                vt = self.align(v, idx, r.n, st, node, ctx) if idx is not None else self.plain(v, st, node, ctx)
                self.write_arr(oid, ite(m, vt, r.t), st, ctx, node)
                return
        if isinstance(k, LabelV) and idx is not None:
            row = self.row_of_label(k, idx, st, node, ctx)
            if row is not None:
                self.write_arr(oid, store(r.t, row, self.sig(v, st)), st, ctx, node)
                return
        if isinstance(k, T) and not k.series:
            self.check_row(k, r.n, st, node, ctx, "[]=")
            self.write_arr(oid, store(r.t, self.norm_row(k, r.n, st), self.sig(v, st)), st, ctx, node)
            return
        if isinstance(k, T) and is_boolish(k):
            self.write_arr(oid, ite(k, self.plain(v, st, node, ctx), r.t), st, ctx, node)
            return
        self.write_arr(oid, self.opaque("store", st, node, ctx, o), st, ctx, node)

    def plain(self, v, st, node, ctx):
        if isinstance(v, T):
            return v
        return self.align(v, None, None, st, node, ctx)

    def np2_set(self, o, k, v, st, ctx, node):
        if isinstance(k, TupV) and len(k.items) == 2:
            k = ("multi",) + tuple(k.items)
        if isinstance(k, T) and not k.series:
            k = ("multi", k, SLICE_ALL)
        if isinstance(k, tuple) and k[0] == "multi" and len(k) == 3:
            rk, ck = k[1], k[2]
            if isinstance(ck, tuple):
                cols = list(o.arrs) if ck == SLICE_ALL else \
                    (list(o.arrs)[slice(*[None if x is NONE else int(num(x)) for x in ck[1:]])]
                     if all(x is NONE or is_num(x) for x in ck[1:]) else None)
            elif isinstance(ck, T) and is_num(ck):
                self.pos_col(o, int(num(ck)), st, ctx, node)
                cols = [o.arrs[int(num(ck))]]
            else:
                cols = None
            if cols is not None:
                items = self.concrete_items(v, st) if not isinstance(v, T) else None
                if items is not None and len(items) == len(cols) and not (len(cols) == 1 and isinstance(v, (SerV, NpV))):
                    for a, x in zip(cols, items):
                        self.arr_set(NpV(a), rk, x, st, ctx, node)
                elif isinstance(v, ChoiceV) and isinstance(rk, T):
                    for j, a in enumerate(cols):
                        self.arr_set(NpV(a), rk, self.item_of(v, j, st), st, ctx, node)
                elif isinstance(v, (T, SerV, NpV)):
                    for a in cols:
                        self.arr_set(NpV(a), rk, v, st, ctx, node)
                elif isinstance(v, Np2V) and len(v.arrs) == len(cols):
                    for a, b in zip(cols, v.arrs):
                        self.arr_set(NpV(a), rk, NpV(b), st, ctx, node)
                else:
                    for a in cols:
                        self.write_arr(a, self.opaque("store2", st, node, ctx, v), st, ctx, node)
                return
        if isinstance(k, tuple) and k == SLICE_ALL:
            return self.np2_set(o, ("multi", SLICE_ALL, SLICE_ALL), v, st, ctx, node)
        if isinstance(k, (NpV, SerV)):
            return self.np2_set(o, ("multi", k, SLICE_ALL), v, st, ctx, node)
        for a in o.arrs:
            self.write_arr(a, self.opaque("store2", st, node, ctx, v), st, ctx, node)

    def item_of(self, v, j, st):
        if isinstance(v, ChoiceV):
            return choice(v.c, self.item_of(v.a, j, st), self.item_of(v.b, j, st))
        it = self.concrete_items(v, st)
        return it[j] if it is not None and j < len(it) else mk("opq", "item")

    def frame_set(self, o, k, v, st, ctx, node):
        rec = st.heap[o.oid]
        if isinstance(k, T) and not k.series:
            self.set_col(o, self.colname(k), v, st, ctx, node)
            return
        if isinstance(k, FrmV):
            mrec = st.heap[k.oid]
            self.emit("write_frame", st, node, ctx, oid=o.oid, tag=rec.tag, col=None, what="mask")
            cols = []
            for c, a in rec.cols:
                mo = self.col_oid(mrec, c)
                if mo is None:
                    continue
                x = self.align(v, rec.idx, rec.n, st, node, ctx)
                self.write_arr(a, ite(st.heap[mo].t, x, st.heap[a].t), st, ctx, node)
            return
        if isinstance(k, (SerV, NpV)):
            m = self.align(k, rec.idx, rec.n, st, node, ctx)
            for c, a in rec.cols:
                self.write_arr(a, ite(m, self.align(v, rec.idx, rec.n, st, node, ctx), st.heap[a].t), st, ctx, node)
            return
        items = self.concrete_items(k, st) if not isinstance(k, tuple) else None
        if items is not None:
            if isinstance(v, FrmV):
                r2 = st.heap[v.oid]
                if len(r2.cols) == len(items):
                    for x, (_, a) in zip(items, r2.cols):
                        self.set_col(o, self.colname(x), SerV(a, r2.idx), st, ctx, node)
                    return
            for x in items:
                self.set_col(o, self.colname(x), v, st, ctx, node)
            return
        self.emit("unknown_write", st, node, ctx, obj=o)
        for c, a in rec.cols:
            self.write_arr(a, self.opaque("framestore", st, node, ctx), st, ctx, node)

    def ixr_set(self, o, k, v, st, ctx, node):
        obj = o.obj
        if isinstance(obj, (SerV, NpV)):
            return self.arr_set(obj, k if o.kind not in ("loc", "at") or not (isinstance(k, T) and not k.series)
                                else k, v, st, ctx, node)
        if isinstance(obj, RFrmV):
            rec = st.heap[obj.oid]
            self.emit("write_frame", st, node, ctx, oid=obj.oid, tag=rec.tag, col=None, what=o.kind)
            st.heap[obj.oid] = RFrmRec(mk("opF", "set" + o.kind, rec.t, self.keyterm(k, st), self.sig(v, st)), rec.tag, rec.extra)
            return
        if isinstance(obj, T) and obj.op in ("opSF", "opL"):
            self.emit("write_series", st, node, ctx, obj=obj, what=o.kind, tag=self.views.get(obj.id))
            return
        if isinstance(obj, FrmV):
            rec = st.heap[obj.oid]
            if isinstance(k, TupV) and len(k.items) == 2:
                k = ("multi",) + tuple(k.items)
            if not (isinstance(k, tuple) and k[0] == "multi"):
                k = ("multi", k, SLICE_ALL)
            rk, ck = k[1], k[2]
            cols, one = self.sel_cols(rec, ck, st, ctx, node, o.kind, obj)
            if cols is None:
                for c, a in rec.cols:
                    self.write_arr(a, self.opaque("framestore", st, node, ctx), st, ctx, node)
                return
            self.emit("write_frame", st, node, ctx, oid=obj.oid, tag=rec.tag, col=[c for c, _ in cols], what=o.kind)
            for c, oid in cols:
                if oid is None:
                    self.set_col(obj, c, NAN, st, ctx, node)
            rec = st.heap[obj.oid]
            items = None
            if not isinstance(v, (T, SerV, NpV, FrmV, Np2V)):
                items = self.concrete_items(v, st)
            for j, (c, _) in enumerate(cols):
                oid = self.col_oid(rec, c)
                x = v
                if items is not None and (isinstance(rk, (T, LabelV))) and len(items) == len(cols):
                    x = items[j]
                elif isinstance(v, ChoiceV) and isinstance(rk, (T, LabelV)) and len(cols) > 1:
                    x = self.item_of(v, j, st)
                elif isinstance(v, FrmV):
                    r2 = st.heap[v.oid]
                    if len(r2.cols) == 1:
                        x = SerV(r2.cols[0][1], r2.idx)
                    elif self.col_oid(r2, c) is not None:
                        x = SerV(self.col_oid(r2, c), r2.idx)
                elif isinstance(v, Np2V):
                    x = NpV(v.arrs[j if j < len(v.arrs) else -1])
                if isinstance(rk, IdxV):
                    off = self.offset_of(rk.t, rec.idx)
                    if off is not None:
                        if isinstance(x, SerV):
                            vt = self.align(x, rk.t, rk.n, st, node, ctx)
                        else:
                            vt = self.plain(x, st, node, ctx)
                        self.write_rows(oid, off[0], off[1], vt, st, ctx, node)
                        continue
                if isinstance(rk, tuple) and rk[0] == "slice" and o.kind in ("loc", "at") and rk != SLICE_ALL:
                    lo = self.row_of_label(rk[1], rec.idx, st, node, ctx) if rk[1] is not NONE else ZERO
                    hi = self.row_of_label(rk[2], rec.idx, st, node, ctx) if rk[2] is not NONE else NONE
                    if lo is not None and hi is not None:
                        rk = ("slice", lo, add(hi, ONE) if hi is not NONE else NONE, NONE)
                self.arr_set(SerV(oid, rec.idx, c), rk, x, st, ctx, node)
            return
        self.emit("unknown_write", st, node, ctx, obj=obj)

    def del_item(self, o, k, st, ctx, node):
        if isinstance(o, FrmV):
            rec = st.heap[o.oid]
            self.emit("write_frame", st, node, ctx, oid=o.oid, tag=rec.tag, col=self.colname(k) if isinstance(k, T) else None, what="del")
            name = self.colname(k)
            st.heap[o.oid] = FrmRec([(c, a) for c, a in rec.cols if c != name], rec.idx, rec.n, rec.order, rec.tag)
        elif isinstance(o, RFrmV):
            rec = st.heap[o.oid]
            self.emit("write_frame", st, node, ctx, oid=o.oid, tag=rec.tag, col=self.sig(k, st), what="del")
            st.heap[o.oid] = RFrmRec(mk("opF", "drop", rec.t, self.sig(k, st)), rec.tag, rec.extra)
        elif isinstance(o, RefV) and isinstance(st.heap.get(o.oid), DictRec):
            r = st.heap[o.oid]
            self.emit("write_dict", st, node, ctx, oid=o.oid, tag=r.tag)
            d = dict(r.items)
            d.pop(self.dkey(k, st), None)
            st.heap[o.oid] = DictRec(d, r.tag, r.open)
        elif isinstance(o, RefV):
            self.emit("write_list", st, node, ctx, oid=o.oid, tag=getattr(st.heap.get(o.oid), "tag", None))

    # ------------------------------------------------------------- arithmetic
    def scalar_bin(self, op, a, b, st, ctx, node):
        if op == "Add":
            if a.op in ("str", "strcat") or b.op in ("str", "strcat") or (a.op == "param" and a.args[1] == "str") \
                    or a.op == "tostr" or b.op == "tostr" or a.op in ("typename", "colname") or b.op in ("typename", "colname"):
                return self.strcat([a, b])
            if a.op == "ite" and self.stringy(a) or b.op == "ite" and self.stringy(b):
                return self.strcat([a, b])
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mult":
            if is_boolish(a) and not is_const(a) and not a.series:
                a = ite(a, ONE, ZERO)
            if is_boolish(b) and not is_const(b) and not b.series:
                b = ite(b, ONE, ZERO)
            return mul(a, b)
        if op == "Div":
            if not a.series and not b.series:
                self.emit("div", st, node, ctx, den=b)
                if b.op == "const" and num(b) == 0:
                    self.may_raise("ZeroDivisionError", TRUE, st, node, ctx)
            return div(a, b)
        if op == "FloorDiv":
            return floor_(div(a, b))
        if op == "Mod":
            if a.op == "str":
                return self.percent(a.args[0], b, st)
            if is_num(a) and is_num(b) and num(b) != 0:
                return mk("const", num(a) % num(b))
            return mk("mod", a, b)
        if op == "Pow":
            return power(a, b)
        if op == "BitAnd":
            return and_(a, b) if is_boolish(a) and is_boolish(b) else mk("opE", "bitand", a, b)
        if op == "BitOr":
            return or_(a, b) if is_boolish(a) and is_boolish(b) else mk("opE", "bitor", a, b)
        if op == "BitXor":
            if is_boolish(a) and is_boolish(b):
                return or_(and_(a, not_(b)), and_(not_(a), b))
        return mk("opE", op, a, b)

    def stringy(self, t):
        return t.op in ("str", "strcat", "tostr") or (t.op == "ite" and self.stringy(t.args[1]))

    def percent(self, fmt, b, st):
        """fmt % b"""
        parts, at, left = [], 0, list(b.items) if isinstance(b, TupV) else None
        d = st.heap.get(b.oid) if isinstance(b, RefV) else None
        for m in PERCENT.finditer(fmt):
            if m.start() > at:
                parts.append(const(fmt[at:m.start()]))
            at = m.end()
            key, spec, kind = m.groups()
            if kind == "%":
                parts.append(const("%"))
                continue
            if key is not None:
                v = d.items.get(("c", "str", (key,))) if isinstance(d, DictRec) else None
            elif left is None:
                v, b = b, None
            else:
                v = left.pop(0) if left else None
            if v is None:
                return mk("opq", "format", const(fmt))
            parts.append(self.spelled(v, spec, kind, "%" + spec + kind, st))
        if at < len(fmt):
            parts.append(const(fmt[at:]))
        return self.strcat(parts)

    def spelled(self, v, spec, kind, how, st):
        """text of v under a format"""
        if isinstance(v, T) and is_const(v) and v is not NONE:
            try:
                x = pyval(v)
                return const(how % x if how.startswith("%") else format(x, how))
            except (TypeError, ValueError):
                pass
        if not spec and (kind in ("s", "") or kind in ("d", "i") and isinstance(v, T) and v.intk):
            return self.to_str(v, st)
        return mk("strop", "format:" + how, self.to_str(v, st))

    def binop(self, op, a, b, st, ctx, node):
        if op.startswith("R") and op != "Rshift" and op[1:] in ("Add", "Sub", "Mult", "Div"):
            return self.binop(op[1:], b, a, st, ctx, node)
        if isinstance(a, T) and isinstance(b, T):
            return self.scalar_bin(op, a, b, st, ctx, node)
        fa, fb = isinstance(a, FrmV), isinstance(b, FrmV)
        if fa or fb:
            return self.frame_bin(op, a, b, st, ctx, node)
        la = self.lst(a, st)
        lb = self.lst(b, st)
        if op == "Add" and (la is not None or isinstance(a, TupV)) and (lb is not None or isinstance(b, TupV)):
            ia, ib = self.concrete_items(a, st), self.concrete_items(b, st)
            if ia is not None and ib is not None:
                return TupV(ia + ib) if isinstance(a, TupV) else self.mklist(ia + ib, st)
            # [x] + [f(i) ...]: keep pieces for max/min
            return RefV(self.new(st, ListRec(t=mk("opS", "listadd", self.piece(a, st), self.piece(b, st)),
                                             n=add(self.length(a, st), self.length(b, st)),
                                             meta=("pieces", self.pieces(a, st) + self.pieces(b, st)))), "list")
        if op == "Mult" and (la is not None or lb is not None):
            l, k = (a, b) if la is not None else (b, a)
            if isinstance(k, T) and not k.series:
                r = st.heap[l.oid]
                if r.items is not None and is_num(k) and num(k) * len(r.items) <= 64:
                    return self.mklist(list(r.items) * int(num(k)), st)
                if r.items is not None:
                    t = self.list_term(r, st) if len(r.items) == 1 and isinstance(r.items[0], T) else mk("opS", "rep")
                    return RefV(self.new(st, ListRec(t=t, n=mul(const(len(r.items)), k), meta=("rep", r.items))), "list")
        if op == "Mod" and isinstance(a, T) and a.op == "str":
            return self.percent(a.args[0], b, st)
        va, vb = self.vec(a, st), self.vec(b, st)
        if va or vb:
            return self.ser_bin(lambda x, y: self.scalar_bin(op, x, y, st, ctx, node), a, b, st, ctx, node)
        if isinstance(a, IxrV) and isinstance(a.obj, (SerV,)):
            return self.opaque("binop", st, node, ctx, a, b)
        return self.opaque("binop:" + op, st, node, ctx, a, b)

    def pieces(self, v, st):
        r = st.heap.get(v.oid) if isinstance(v, RefV) else None
        if isinstance(r, ListRec) and r.meta and r.meta[0] == "pieces":
            return r.meta[1]
        return (v,)

    def piece(self, v, st):
        return self.sig(v, st)

    def lst(self, v, st):
        if isinstance(v, RefV) and isinstance(st.heap.get(v.oid), ListRec) and v.kind == "list":
            return st.heap[v.oid]
        return None

    def vec(self, v, st):
        return isinstance(v, (SerV, NpV)) or (isinstance(v, T) and v.series)

    def ser_bin(self, f, a, b, st, ctx, node):
        idx = n = name = None
        for v in (a, b):
            if isinstance(v, SerV):
                if idx is None:
                    idx, n, name = v.idx, st.heap[v.arr].n, v.name
                elif v.idx is not idx:
                    # outer alignment
                    o1 = self.offset_of(v.idx, idx)
                    o2 = self.offset_of(idx, v.idx)
                    if o1 is None and o2 is not None:
                        idx, n = v.idx, st.heap[v.arr].n
        if idx is not None:
            ta = self.align(a, idx, n, st, node, ctx)
            tb = self.align(b, idx, n, st, node, ctx)
            if isinstance(a, SerV) and isinstance(b, SerV) and a.name != b.name:
                name = None
            return self.ser(st, f(ta, tb), n, idx, name)
        for v in (a, b):
            if isinstance(v, NpV):
                n = st.heap[v.arr].n
                break
        ta, tb = self.plain(a, st, node, ctx), self.plain(b, st, node, ctx)
        return self.npv(st, f(ta, tb), n)

    def frame_bin(self, op, a, b, st, ctx, node):
        f = (lambda x, y: self.cmp_term(op[4:], x, y)) if op.startswith("cmp:") else \
            (lambda x, y: self.scalar_bin(op, x, y, st, ctx, node))
        if isinstance(a, FrmV) and isinstance(b, FrmV):
            ra, rb = st.heap[a.oid], st.heap[b.oid]
            cols = []
            names = [c for c, _ in ra.cols]
            for c, o in ra.cols:
                o2 = self.col_oid(rb, c)
                if o2 is None:
                    cols.append((c, NAN))
                else:
                    x = st.heap[o].t
                    y = self.align_term(st.heap[o2].t, rb.idx, rb.n, ra.idx, ra.n, st, node, ctx)
                    cols.append((c, f(x, y)))
            for c, o in rb.cols:
                if self.col_oid(ra, c) is None:
                    cols.append((c, NAN))
            return self.frame(st, cols, ra.idx, ra.n, ra.order)
        fr, other, left = (a, b, True) if isinstance(a, FrmV) else (b, a, False)
        rec = st.heap[fr.oid]
        if isinstance(other, T):
            cols = []
            for c, o in rec.cols:
                x = st.heap[o].t
                cols.append((c, f(x, other) if left else f(other, x)))
            return self.frame(st, cols, rec.idx, rec.n, rec.order)
        if isinstance(other, (NpV, Np2V)) and len(rec.cols) == 1:
            y = self.plain(other, st, node, ctx)
            x = st.heap[rec.cols[0][1]].t
            return self.frame(st, [(rec.cols[0][0], f(x, y) if left else f(y, x))], rec.idx, rec.n, rec.order)
        return self.opaque("framebin:" + op, st, node, ctx, a, b)

    def unary(self, op, v, st, ctx, node):
        if isinstance(v, T):
            if op == "USub":
                if v.op == "inf":
                    return mk("inf", -v.args[0])
                return neg(v)
            if op == "UAdd":
                return v
            if op == "Invert":
                return not_(v) if is_boolish(v) else mk("opE", "invert", v)
        if isinstance(v, (SerV, NpV)):
            r = st.heap[v.arr]
            t = neg(r.t) if op == "USub" else r.t if op == "UAdd" else \
                (not_(r.t) if is_boolish(r.t) else mk("opE", "invert", r.t))
            if isinstance(v, SerV):
                return self.ser(st, t, r.n, v.idx, v.name)
            return self.npv(st, t, r.n)
        if isinstance(v, FrmV):
            rec = st.heap[v.oid]
            f = (lambda t: neg(t)) if op == "USub" else (lambda t: not_(t) if is_boolish(t) else mk("opE", "invert", t))
            return self.frame(st, [(c, f(st.heap[a].t)) for c, a in rec.cols], rec.idx, rec.n, rec.order)
        return self.opaque("unary", st, node, ctx, v)

    # ------------------------------------------------------------ comparisons
    def cmp_term(self, op, a, b):
        return compare({"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge", "Eq": "eq", "NotEq": "ne"}[op], a, b)

    def compare1(self, op, a, b, st, ctx, node):
        if op in ("Is", "IsNot"):
            r = self.is_same(a, b, st)
            return r if op == "Is" else not_(r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a, st, ctx, node)
            return r if op == "In" else not_(r)
        if isinstance(a, T) and isinstance(b, T):
            if op in ("Eq", "NotEq") and (is_boolish(a) and is_boolish(b)) and not is_const(a) and not is_const(b):
                r = or_(and_(a, b), and_(not_(a), not_(b)))
                return r if op == "Eq" else not_(r)
            return self.cmp_term(op, a, b)
        if isinstance(a, FrmV) or isinstance(b, FrmV):
            return self.frame_bin("cmp:" + op, a, b, st, ctx, node)
        if isinstance(a, RFrmV) and isinstance(b, T) and op in FLIPPED:
            return mk("opL", "frm.cmp", st.heap[a.oid].t, mk("str", op), b)
        if isinstance(b, RFrmV) and isinstance(a, T) and op in FLIPPED:
            return mk("opL", "frm.cmp", st.heap[b.oid].t, mk("str", FLIPPED[op]), a)
        if self.vec(a, st) or self.vec(b, st):
            return self.ser_bin(lambda x, y: self.cmp_term(op, x, y), a, b, st, ctx, node)
        if isinstance(a, IdxV) and isinstance(b, (LabelV, T)) or isinstance(b, IdxV) and isinstance(a, (LabelV, T)):
            iv = a if isinstance(a, IdxV) else b
            ta = mk("index", a.t) if isinstance(a, IdxV) else self.sig(a, st)
            tb = mk("index", b.t) if isinstance(b, IdxV) else self.sig(b, st)
            return self.npv(st, self.cmp_term(op, ta, tb), iv.n)
        if isinstance(a, LabelV) and isinstance(b, LabelV) and a.idx is b.idx:
            return self.cmp_term(op, a.row, b.row)
        if isinstance(a, LabelV) and isinstance(b, LabelV):
            return self.cmp_term(op, mk("label", a.idx, a.row), mk("label", b.idx, b.row))
        if isinstance(a, LabelV) and isinstance(b, T) and self.date_term(b) is not None or \
                isinstance(b, LabelV) and isinstance(a, T) and self.date_term(a) is not None:
            return self.cmp_term(op, self.date_term(a), self.date_term(b))
        if isinstance(a, TupV) and isinstance(b, TupV) and op in ("Eq", "NotEq"):
            if len(a.items) != len(b.items):
                r = FALSE
            else:
                r = and_(*[truth(self.sig(self.compare1("Eq", x, y, st, ctx, node), st)) for x, y in zip(a.items, b.items)])
            return r if op == "Eq" else not_(r)
        if isinstance(a, IxrV) and a.kind == "type" or isinstance(b, IxrV) and b.kind == "type":
            x, y = (a, b) if isinstance(a, IxrV) and a.kind == "type" else (b, a)
            r = self.type_is(x, y, st)
            if r is not None:
                return r if op == "Eq" else not_(r) if op == "NotEq" else mk("opq", "typecmp")
        if isinstance(a, (ClsV, ExtV, FnV)) and isinstance(b, (ClsV, ExtV, FnV)):
            r = const(vkey(a) == vkey(b))
            return r if op == "Eq" else not_(r)
        if op in ("Eq", "NotEq"):
            ia = self.concrete_items(a, st) if isinstance(a, (RefV, TupV)) else None
            ib = self.concrete_items(b, st) if isinstance(b, (RefV, TupV)) else None
            if ia is not None and ib is not None and all(isinstance(x, T) for x in ia + ib):
                r = FALSE if len(ia) != len(ib) else and_(*[compare("eq", x, y) for x, y in zip(ia, ib)])
                return r if op == "Eq" else not_(r)
        return mk("truthy", self.opaque("cmp:" + op, st, node, ctx, a, b))

    def type_is(self, x, y, st):
        """type(v) == T"""
        nm = self.type_name(y)
        if nm is None:
            return None
        if isinstance(x.obj, T):
            v = x.obj
            if v.op == "param" and v.args[1] == "any":
                return mk("isinst", v, nm) if nm in ("bool", "NoneType") else mk("typ", v, nm)
            k = self.static_type(v)
            return const(k == nm) if k else mk("opq", "typ", v, const(nm))
        k = self.static_type(x.obj, st)
        return const(k == nm) if k else mk("truthy", mk("opq", "typ", const(nm)))

    def type_name(self, v):
        if isinstance(v, ExtV):
            return v.path.split(".")[-1]
        if isinstance(v, ClsV):
            return v.info.name
        return None

    def static_type(self, v, st=None):
        if isinstance(v, T):
            if v.op == "const":
                return "int" if v.intk else "float"
            if v.op == "bool" or is_boolish(v):
                return "bool"
            if v.op in ("str", "strcat", "tostr"):
                return "str"
            if v.op == "none":
                return "NoneType"
            if v.op == "param":
                return v.args[1] if v.args[1] != "any" else None
            return None
        if isinstance(v, FrmV):
            return "DataFrame"
        if isinstance(v, SerV):
            return "Series"
        if isinstance(v, (NpV, Np2V)):
            return "ndarray"
        if isinstance(v, TupV):
            return "tuple"
        if isinstance(v, RefV):
            if v.kind in ("list", "dict", "set"):
                return v.kind
        if isinstance(v, IdxV):
            return "DatetimeIndex"
        return None

    def is_same(self, a, b, st):
        if isinstance(b, T) and b.op in ("none", "bool") or isinstance(a, T) and a.op in ("none", "bool"):
            if isinstance(a, T) and a.op in ("none", "bool") and not (isinstance(b, T) and b.op in ("none", "bool")):
                a, b = b, a
            if isinstance(a, T):
                if a.op == "param":
                    if b.op == "none":
                        if a.args[1] in ("any", "numopt"):
                            return mk("isinst", a, "NoneType")
                        return FALSE
                    if a.args[1] == "any":
                        return and_(mk("isinst", a, "bool"), a if b is TRUE else not_(mk("truthy", a)))
                if b.op == "none":
                    if a.op == "none":
                        return TRUE
                    if a.op == "ite":
                        return ite(a.args[0], self.is_same(a.args[1], b, st), self.is_same(a.args[2], b, st))
                    if is_const(a) or is_boolish(a) or a.op in ("poly", "cell", "n", "aggr", "count"):
                        return FALSE
                    return mk("isnone", a)
                if is_boolish(a):
                    return a if b is TRUE else not_(a)
                if is_const(a):
                    return const(a is b)
                return mk("seq_eq", a, b)
            return FALSE
        if isinstance(a, T) and isinstance(b, T):
            return compare("eq", a, b)
        if isinstance(a, IxrV) and a.kind == "type" or isinstance(b, IxrV) and b.kind == "type":
            x, y = (a, b) if isinstance(a, IxrV) and a.kind == "type" else (b, a)
            r = self.type_is(x, y, st)
            return r if r is not None else mk("truthy", mk("opq", "typecmp"))
        return const(vkey(a) == vkey(b))

    def contains(self, c, x, st, ctx, node):
        if isinstance(c, RefV) and isinstance(st.heap.get(c.oid), DictRec):
            r = st.heap[c.oid]
            kx = self.dkey(x, st)
            if r.open:
                unknown = mk("truthy", mk("opq", "haskey", self.sig(x, st), *[const(keytext(k)) for k in r.items]))
                return or_(self.held(r.items[kx]), unknown) if kx in r.items else unknown
            return or_(*[and_(self.same_key(k, kx), self.held(v)) for k, v in r.items.items()])
        if isinstance(c, RefV) and isinstance(st.heap.get(c.oid), ListRec) and st.heap[c.oid].items is None:
            return mk("in", self.sig(x, st), st.heap[c.oid].t)
        if isinstance(c, RFrmV):
            return mk("in", self.sig(x, st), mk("colset", st.heap[c.oid].t))
        if isinstance(c, IxrV) and c.kind == "columns" and isinstance(c.obj, RFrmV):
            return mk("in", self.sig(x, st), mk("colset", st.heap[c.obj.oid].t))
        items = self.concrete_items(c, st)
        if items is not None and not (isinstance(c, T) and c.op == "str"):
            if isinstance(x, T) and all(isinstance(i, T) for i in items):
                return or_(*[compare("eq", x, i) for i in items])
            return or_(*[truth(self.sig(self.compare1("Eq", x, i, st, ctx, node), st)) for i in items])
        if isinstance(c, T) and isinstance(x, T):
            if c.op == "str" and x.op == "str":
                return const(x.args[0] in c.args[0])
            if c.op in ("param", "opL", "colmap"):
                return mk("in", x, c)
            if x.op == "opL" and x.args[0] in ("dtkind", "dtname") and c.op == "str":
                return mk("strin", x, c)
            if x.op in ("colname", "strop", "param") and c.op in ("str", "colname", "strop"):
                return mk("strin", x, c)
        if isinstance(c, IdxV):
            return mk("in", self.sig(x, st), c.t)
        if isinstance(c, RangeV) and isinstance(x, T) and is_num(c.step) and num(c.step) == 1:
            return and_(compare("ge", x, c.lo), compare("lt", x, c.hi))
        return mk("truthy", self.opaque("in", st, node, ctx, x, c))

    def builtin(self, name):
        if name in BUILTINS:
            return ExtV(name)
        if name in EXC_NAMES:
            return ExtV(name)
        if name == "__name__":
            return const("module")
        if name == "NotImplemented":
            return mk("opq", "NotImplemented")
        if name == "__class__":
            return mk("opq", "__class__")
        return None

    def length(self, v, st):
        if isinstance(v, (SerV, NpV)):
            return st.heap[v.arr].n
        if isinstance(v, FrmV):
            return st.heap[v.oid].n
        if isinstance(v, IdxV):
            return v.n
        if isinstance(v, TupV):
            return const(len(v.items))
        if isinstance(v, RefV):
            r = st.heap.get(v.oid)
            if isinstance(r, ListRec):
                return const(len(r.items)) if r.items is not None else r.n
            if isinstance(r, DictRec):
                return const(len(r.items))
        if isinstance(v, Np2V):
            return st.heap[v.arrs[0]].n
        if isinstance(v, RangeV):
            c = self.range_count(v.lo, v.hi, v.step)
            if is_num(c):
                return tmax(ZERO, c)
            return c
        if isinstance(v, SeqV):
            return v.n
        if isinstance(v, IxrV) and v.kind == "columns" and isinstance(v.obj, FrmV):
            return const(len(st.heap[v.obj.oid].cols))
        if isinstance(v, T) and v.op == "str":
            return const(len(v.args[0]))
        if isinstance(v, RFrmV):
            return mk("opI", "len", st.heap[v.oid].t)
        if isinstance(v, ChoiceV):
            return ite(v.c, self.length(v.a, st), self.length(v.b, st))
        if isinstance(v, T):
            return mk("opI", "len", v)
        if isinstance(v, IxrV) and v.kind == "columns" and isinstance(v.obj, RFrmV):
            return mk("opI", "ncols", st.heap[v.obj.oid].t)
        return mk("opq", "len", self.sig(v, st))

    # ------------------------------------------------------------ aggregations
    def aggr(self, kind, t, n, st):
        """aggregate of series term t with n rows"""
        if kind == "mean_np":
            return div(self.aggr("sum_np", t, n, st), n)
        if not t.series:
            if kind in ("sum", "sum_np"):
                return mul(t, n)
            if kind in ("mean", "min", "max", "median", "min_np", "max_np"):
                return t
        # expand short windows into cells
        if is_num(n) and 1 <= num(n) <= 8 and kind in ("max", "min", "max_np", "min_np", "sum_np", "sum", "mean"):
            cs = [cell(t, const(i)) for i in range(int(num(n)))]
            if kind[:3] in ("max", "min"):
                return nary(kind[:3], cs)
            r = ZERO
            for c in cs:
                r = add(r, c)
            return div(r, n) if kind == "mean" else r
        # a window of fixed length is one cell of the rolling aggregate
        if kind in ("sum", "mean", "sum_np", "min", "max", "min_np", "max_np", "median", "var1", "var0", "var0_np", "var1_np") \
                and self.fixed_len(n) and t.series:
            lo = self.window_of(t)
            if lo is not None:
                base, lo = lo
                r = add(lo, sub(n, ONE))
                k = kind.split("_")[0]
                if k in ("sum", "mean"):
                    v = linear_map(base, lambda x: cell(mk("roll", x, n, n, "sum"), r) if x.series else mul(x, n))
                    return div(v, n) if k == "mean" else v
                return cell(mk("roll", base, n, n, k), r)
        if kind in ("sum", "sum_np") and t.op == "filter":
            base, m = t.args
            return linear_map(base, lambda x: mk("psum", x, m) if x.series else mul(x, self.count_of(m)))
        if kind == "sum_np":
            return linear_map(t, lambda x: mk("aggr", kind, x, n) if x.series else mul(x, n))
        if kind == "sum":
            return scalar_map(t, lambda x: mk("aggr", kind, x, n)) if t.series else mul(t, n)
        return mk("aggr", kind, t, n)

    def fixed_len(self, n):
        return is_num(n) or not any(x.op in ("n", "lv", "count", "opq") for x in subterms(n))

    def window_of(self, t):
        """t == base[lo:...] element-wise -> (base, lo) or None"""
        found = []

        def go(x):
            if not x.series:
                return x
            if x.op == "slice":
                found.append(x.args[1])
                return x.args[0]
            if x.op in ELEMENTWISE:
                return rebuild(x, go)
            found.append(ZERO)
            return x

        base = go(t)
        if found and all(f is found[0] for f in found) and not has_op(t, "row", "place"):
            return base, found[0]
        return None

    def roll_agg(self, agg, t, p, st):
        w, minp = p["window"], p["minp"]
        if p.get("lag", ZERO) is not ZERO:
            p2 = dict(p)
            p2["lag"] = ZERO
            return shift(self.roll_agg(agg, t, p2, st), p["lag"])
        if p.get("center") is not None:
            if p.get("bad") or p.get("win") not in (None, NONE) or not t.series:
                return mk("opq", "rolling", t)
            return mk("sfn", "rollc", t, w, minp, const(agg))
        if p.get("bad"):
            return mk("opq", "rolling", t, p["bad"])
        if p.get("win") is not None and p["win"] is not NONE:
            win = p["win"]
            if win.op == "ite":
                p1, p2 = dict(p), dict(p)
                p1["win"], p2["win"] = win.args[1], win.args[2]
                return ite(win.args[0], self.roll_agg(agg, t, p1, st), self.roll_agg(agg, t, p2, st))
            return mk("roll", t, w, minp, "win-" + agg, win)
        if not t.series:
            # constant column
            if agg == "sum":
                return mk("roll", mk("opS", "constcol", t), w, minp, agg)
            return mk("roll", mk("opS", "constcol", t), w, minp, agg)
        return roll(t, w, minp, agg)

    def win_method(self, o, name, args, kw, st, ctx, node):
        p = o.p
        obj = o.obj
        if o.kind == "rolling":
            def f(t):
                if name in ("mean", "sum", "min", "max", "median", "count"):
                    return self.roll_agg(name, t, p, st)
                if name in ("std", "var"):
                    ddof = kw.get("ddof", args[0] if args else ONE)
                    d = str(pyval(ddof)) if is_const(ddof) else "?"
                    if p.get("win") not in (None, NONE) or p.get("bad"):
                        return self.roll_agg(name + d, t, p, st)
                    if p.get("center") is not None or p.get("lag", ZERO) is not ZERO:
                        v = self.roll_agg("var" + d, t, p, st)
                        return power(v, mk("const", F(1, 2))) if name == "std" else v
                    v = mk("roll", t if t.series else mk("opS", "constcol", t), p["window"], p["minp"], "var" + d)
                    return power(v, mk("const", F(1, 2))) if name == "std" else v
                if name == "quantile" and args and isinstance(args[0], T) and is_num(args[0]) and not kw and len(args) == 1 \
                        and p.get("win") in (None, NONE) and not p.get("bad") and p.get("center") is None \
                        and p.get("lag", ZERO) is ZERO and t.series:
                    if num(args[0]) in (0, 1):
                        return self.roll_agg("min" if num(args[0]) == 0 else "max", t, p, st)
                    return mk("roll", t, p["window"], p["minp"], "quantile:%s" % num(args[0]))
                return mk("opq", "rolling." + name, t, p["window"], p["minp"],
                          *[self.sig(a, st) for a in list(args) + [kw[k] for k in sorted(kw)]])
        elif o.kind == "ewm":
            def f(t):
                if name == "mean":
                    if not t.series:
                        return t
                    return ewm(t, p["alpha"], p["minp"], p["adjust"], p.get("ignore", FALSE))
                return mk("opq", "ewm." + name, t, p["alpha"], p["minp"])
        else:
            def f(t):
                return mk("cum", "x" + name, t, p["minp"])
        if name in ("agg", "aggregate") and args and isinstance(args[0], T) and args[0].op == "str":
            return self.win_method(o, args[0].args[0], [], kw, st, ctx, node)
        if name in ("apply", "agg", "aggregate") and o.kind in ("rolling", "expanding"):
            v = self.win_apply(o, args, kw, st, ctx, node)
            if v is not None:
                return v
            self.unknown.append(("rolling.apply", ctx.module.path, getattr(node, "lineno", 0)))
        return self.mapv(obj, f, st)

    def win_apply(self, o, args, kw, st, ctx, node):
        """a Python function applied to every window: a comprehension over the rows"""
        p, obj = o.p, o.obj
        f = args[0] if args else kw.get("func")
        if not isinstance(obj, SerV) or not isinstance(f, (FnV, ExtV, BoundV)) or set(kw) - {"raw", "func", "engine"} \
                or len(args) > 2:
            return None
        if p.get("win") not in (None, NONE) or p.get("bad") or p.get("center") is not None or p.get("lag", ZERO) is not ZERO:
            return None
        raw = kw.get("raw", args[1] if len(args) > 1 else FALSE)
        r = st.heap[obj.arr]
        minp = p.get("minp")
        w = p.get("window") if o.kind == "rolling" else None
        if not isinstance(minp, T) or o.kind == "rolling" and not isinstance(w, T):
            return None
        uid = self.fresh()
        lv = mk("lv", uid)
        first = sub(minp, ONE)
        self.lvrange[uid] = (first, r.n, ONE)
        b = st.enter(dict(st.env))
        b.rel = and_(compare("le", first, lv), compare("lt", lv, r.n))
        lo = ZERO if w is None else sub(add(lv, ONE), w) if w is minp else tmax(ZERO, sub(add(lv, ONE), w))
        x = self.pos_slice(obj, ("slice", lo, add(lv, ONE), NONE), b)
        if self.is_true(raw):
            x = NpV(x.arr)
        v = self.call(f, [x], {}, b, ctx, node)
        if not isinstance(v, T):
            return None
        val = self.lift_rows(v, lv, ZERO, ONE)
        if w is not None:
            val = ite(self.isnan_t(roll(r.t, w, minp, "sum")), NAN, val)
        else:
            val = ite(compare("ge", ROW, first), val, NAN)
        return self.ser(st, val, r.n, obj.idx, obj.name)

    def mapv(self, v, f, st, keep_name=True):
        """map an element-wise / series term function over a series, array or frame"""
        if isinstance(v, SerV):
            r = st.heap[v.arr]
            return self.ser(st, f(r.t), r.n, v.idx, v.name)
        if isinstance(v, NpV):
            r = st.heap[v.arr]
            return self.npv(st, f(r.t), r.n)
        if isinstance(v, FrmV):
            rec = st.heap[v.oid]
            return self.frame(st, [(c, f(st.heap[a].t)) for c, a in rec.cols], rec.idx, rec.n, rec.order)
        if isinstance(v, Np2V):
            return Np2V([self.new(st, ArrRec(f(st.heap[a].t), st.heap[a].n)) for a in v.arrs])
        if isinstance(v, T):
            return f(v)
        if isinstance(v, ChoiceV):
            return choice(v.c, self.mapv(v.a, f, st), self.mapv(v.b, f, st))
        return mk("opq", "map", self.sig(v, st))

    def row_agg(self, rec, kind, skipna, st):
        ts = [st.heap[a].t for _, a in rec.cols]
        return self.row_agg_terms(ts, kind, skipna)

    def row_agg_terms(self, ts, kind, skipna):
        if kind == "mean" and skipna is TRUE and len(ts) > 1:
            return mk("rowagg", kind, skipna, *sorted(ts, key=skey))
        if kind in ("sum", "mean"):
            r = ZERO
            for t in ts:
                r = add(r, mk("fillna", t, ZERO) if skipna is TRUE and kind == "sum" and t.series and not t.intk and not is_boolish(t) else t)
            return div(r, const(len(ts))) if kind == "mean" else r
        if len(ts) == 1:
            return ts[0]
        if kind in ("max", "min"):
            u = sorted(set(ts), key=skey)
            return mk("rowagg", kind, skipna, *u)
        return mk("rowagg", kind, skipna, *ts)
