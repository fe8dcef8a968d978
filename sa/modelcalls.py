"""Transfer functions of library methods and functions (second half of the model)."""
import ast
from .terms import *
from .values import *
from .model import Model, BINM, CMPM, NONDET, IO, SLICE_ALL, share_of, VALUE_WRITES

AGG = {"sum": "sum", "mean": "mean", "min": "min", "max": "max", "median": "median", "std": "std", "var": "var",
       "prod": "prod", "product": "prod", "nunique": "nunique", "skew": "skew", "kurt": "kurt", "sem": "sem"}
NOTNEG = ("sum", "mean")


def ite_leaves(t):
    if t.op == "ite":
        return ite_leaves(t.args[1]) + ite_leaves(t.args[2])
    return [t]


STR_METHODS = {"lower", "upper", "strip", "lstrip", "rstrip", "replace", "format", "join", "split", "startswith",
               "endswith", "title", "capitalize", "casefold", "isdigit", "count", "find", "encode", "zfill", "ljust",
               "rjust", "center", "isnumeric", "isalpha", "splitlines", "partition", "swapcase"}
INPLACE_ONLY = {"insert", "update", "pop", "setdefault", "popitem", "__setitem__", "sort", "fill", "put", "itemset",
                "resize", "setflags", "partition"}
NUMDTYPE = {"float": "float", "float64": "float", "double": "float", "float_": "float", "int": "int64",
            "int64": "int64", "int32": "int32", "int_": "int64", "str": "str", "object": "object", "bool": "bool",
            "bool_": "bool", "float32": "float32", "float16": "float16", "category": "category"}


def whole(t):
    """values are whole numbers (or missing)"""
    if not isinstance(t, T):
        return False
    if t.intk or t.op in ("trunc", "sign", "row") or t.op == "const" and t.args[0].denominator == 1 or t.op == "nan":
        return True
    if t.op == "opE":
        return t.args[0] in ("floor", "ceil")
    if t.op == "round":
        return t.args[1] is NONE or is_num(t.args[1]) and num(t.args[1]) <= 0
    if t.op == "poly":
        return all(c.denominator == 1 and all(e >= 1 and whole(a) for a, e in m) for m, c in t.args)
    if t.op == "ite":
        return whole(t.args[1]) and whole(t.args[2])
    if t.op in ("shift", "place", "slice", "fillna", "max", "min", "abs"):
        return all(whole(x) for x in children(t))
    if t.op == "cum":
        return whole(t.args[1])
    return False


def leaf_of(path):
    return path.split(".")[-1]


class CallModel(Model):

    # ------------------------------------------------------------- arguments
    def arg(self, args, kw, i, name, default=None):
        if i is not None and i < len(args):
            return args[i]
        if name in kw:
            return kw[name]
        return default

    def is_true(self, v):
        return isinstance(v, T) and v is TRUE or (isinstance(v, T) and is_num(v) and num(v) == 1)

    def dtype_name(self, v):
        if isinstance(v, T) and v.op == "str":
            return NUMDTYPE.get(v.args[0], v.args[0])
        if isinstance(v, ExtV):
            nm = v.path.split(".")[-1]
            return NUMDTYPE.get(nm, nm)
        return "?"

    def astype_term(self, t, dt, errors):
        if dt == "float":
            return t if not is_boolish(t) else ite(t, ONE, ZERO)
        if dt == "int64" and t.intk and not t.series:
            return t
        if is_num(t) and num(t).denominator == 1 and abs(num(t)) < 100 and (dt.startswith("int") or dt.startswith("float")):
            return t
        if dt.startswith("int") and errors == "ignore" and t.series and whole(t):
            return t
        return mk("astype", t, dt, errors)

    def narrow(self, dt):
        """a dtype that cannot hold every number exactly"""
        nm = "" if dt is NONE else self.dtype_name(dt)
        return nm in ("float32", "float16") or nm.startswith(("int", "uint"))

    def np_of(self, st, t, n, dt):
        """a new array of dtype dt; values stored later are converted"""
        o = self.npv(st, t, n)
        if self.narrow(dt):
            self.kept[o.arr] = self.dtype_name(dt)
        return o

    def inplace(self, o, kw, new, st, ctx, node, what):
        """Write back when inplace=True, otherwise return the new value."""
        ip = kw.get("inplace", FALSE)
        if not self.is_true(ip):
            return new
        if isinstance(o, FrmV) and isinstance(new, FrmV):
            rec, nr = st.heap[o.oid], st.heap[new.oid]
            self.emit("write_frame", st, node, ctx, oid=o.oid, tag=rec.tag, col=None, what=what)
            st.heap[o.oid] = FrmRec(nr.cols, nr.idx, nr.n, nr.order, rec.tag)
            return NONE
        if isinstance(o, RFrmV) and isinstance(new, RFrmV):
            rec, nr = st.heap[o.oid], st.heap[new.oid]
            self.emit("write_frame", st, node, ctx, oid=o.oid, tag=rec.tag, col=None, what=what)
            st.heap[o.oid] = RFrmRec(nr.t, rec.tag if what in VALUE_WRITES or rec.tag == "caller" else None, nr.extra)
            return NONE
        if isinstance(o, (SerV, NpV)) and isinstance(new, (SerV, NpV)):
            self.write_arr(o.arr, st.heap[new.arr].t, st, ctx, node, what)
            r = st.heap[new.arr]
            rec = st.heap[o.arr]
            st.heap[o.arr] = ArrRec(r.t, r.n, rec.tag)
            return NONE
        self.emit("unknown_write", st, node, ctx, obj=o)
        return NONE

    def isnan_t(self, t):
        if is_const(t):
            return const(t.op == "nan")
        if t.op == "row" or t.intk:
            return FALSE
        return mk("isnan", t)

    def fillna_t(self, t, v):
        if not t.series and is_const(t):
            return v if t.op == "nan" else t
        return mk("fillna", t, v)

    # -------------------------------------------------------------- dispatch
    def call_method(self, o, name, args, kw, st, ctx, node):
        if isinstance(o, WinV):
            return self.win_method(o, name, args, kw, st, ctx, node)
        if isinstance(o, (SerV, NpV)):
            return self.vec_method(o, name, args, kw, st, ctx, node)
        if isinstance(o, FrmV):
            return self.frm_method(o, name, args, kw, st, ctx, node)
        if isinstance(o, RFrmV):
            return self.rfrm_method(o, name, args, kw, st, ctx, node)
        if isinstance(o, Np2V):
            return self.np2_method(o, name, args, kw, st, ctx, node)
        if isinstance(o, IdxV):
            return self.idx_method(o, name, args, kw, st, ctx, node)
        if isinstance(o, RefV):
            r = st.heap.get(o.oid)
            if isinstance(r, ListRec):
                return self.list_method(o, r, name, args, kw, st, ctx, node)
            if isinstance(r, DictRec):
                return self.dict_method(o, r, name, args, kw, st, ctx, node)
        if isinstance(o, TupV):
            return self.items_method(list(o.items), o, name, args, kw, st, ctx, node)
        if isinstance(o, SeqV):
            if o.tag and o.tag[0] == "items":
                return self.rowv_method(o, name, args, kw, st, ctx, node)
            l = self.seq_to_list(o, st, ctx)
            if isinstance(l, RefV):
                return self.list_method(l, st.heap[l.oid], name, args, kw, st, ctx, node)
        if isinstance(o, IxrV):
            return self.ixr_method(o, name, args, kw, st, ctx, node)
        if isinstance(o, OlsV):
            if name == "fit":
                return OlsV(o.y, o.x, o.w, "fit", o.opts, o.n)
        if isinstance(o, LabelV):
            return mk("opL", "label." + name, self.sig(o, st))
        if isinstance(o, RangeV):
            items = self.concrete_items(o, st)
            if items is not None:
                return self.items_method(items, o, name, args, kw, st, ctx, node)
        if isinstance(o, T):
            return self.t_method(o, name, args, kw, st, ctx, node)
        if isinstance(o, (ExcV, FnV, ClsV)):
            return mk("opq", "excm")
        if isinstance(o, SeqV) and o.tag and o.tag[0] == "cond" and name in ("tolist", "to_list") and not args:
            return self.b_list([o], {}, st, ctx, node)
        return self.opaque("method:" + name, st, node, ctx, o, *args)

    # ------------------------------------------------------------- 1-D values
    def vec_method(self, o, name, args, kw, st, ctx, node):
        r = st.heap[o.arr]
        t, n = r.t, r.n
        ser = isinstance(o, SerV)
        A = lambda i, nm, d=None: self.arg(args, kw, i, nm, d)

        def new(t2, n2=None, idx=None, name_=True):
            if ser:
                return self.ser(st, t2, n if n2 is None else n2, o.idx if idx is None else idx,
                                o.name if name_ else None)
            return self.npv(st, t2, n if n2 is None else n2)

        if name in BINM and args:
            fv = kw.get("fill_value", NONE)
            if fv is not NONE and isinstance(fv, T) and not fv.series:
                def filled(s, x):
                    xt = self.align(x, o.idx if ser else None, n, s, node, ctx)
                    if not isinstance(xt, T) or not xt.series:
                        return self.binop(BINM[name], o, x, s, ctx, node)
                    op = BINM[name]
                    p, q = self.fillna_t(t, fv), self.fillna_t(xt, fv)
                    v = self.scalar_bin(op[1:], q, p, s, ctx, node) if op[0] == "R" else self.scalar_bin(op, p, q, s, ctx, node)
                    return new(ite(and_(self.isnan_t(t), self.isnan_t(xt)), NAN, v))
                return self.lift(filled, st, args[0])
            if fv is not NONE:
                return new(self.opaque("bin fill_value", st, node, ctx, o, args[0], fv))
            return self.lift(lambda s, x: self.binop(BINM[name], o, x, s, ctx, node), st, args[0])
        if name in CMPM and args:
            return self.lift(lambda s, x: self.compare1(CMPM[name], o, x, s, ctx, node), st, args[0])
        if name in AGG or name in ("idxmin", "idxmax", "argmin", "argmax", "count", "any", "all", "ptp", "quantile",
                                   "first_valid_index", "last_valid_index"):
            return self.vec_agg(o, name, args, kw, st, ctx, node)
        if name in ("rolling", "ewm", "expanding"):
            return self.window(o, name, args, kw, st, ctx, node)
        if name == "shift":
            k = A(0, "periods", ONE)
            if "freq" in kw and kw["freq"] is not NONE:
                return new(self.opaque("shift freq", st, node, ctx, o))
            fv = A(3, "fill_value", None)
            s = shift(t, k)
            if fv is not None and not (isinstance(fv, T) and fv.op in ("none", "nan")):
                if isinstance(fv, T) and isinstance(k, T) and not fv.series and not (is_num(k) and num(k) < 0):
                    return new(ite(compare("lt", ROW, k), fv, s))
                return new(mk("opq", "shiftfill", s))
            return new(s)
        if name == "diff":
            k = A(0, "periods", ONE)
            return new(sub(t, shift(t, k)))
        if name == "pct_change":
            k = A(0, "periods", ONE)
            fm = A(1, "fill_method", const("pad"))          # without the argument, missing values are filled first
            if isinstance(fm, T) and fm.op == "str":
                fm = {"ffill": "ffill", "pad": "ffill", "bfill": "bfill", "backfill": "bfill"}.get(fm.args[0])
                t = mk(fm, t) if fm else mk("opq", "pct_change")
            elif fm is not NONE:
                t = mk("opq", "pct_change")
            b = shift(t, k)
            return new(sub(div(t, b), ONE))
        if name == "abs" or name == "__abs__":
            return new(absv(t))
        if name in ("cumsum", "cumprod", "cummax", "cummin"):
            return new(self.cum(name[3:], t))
        if name == "round":
            return new(roundt(t, A(0, "decimals", ZERO)))
        if name == "astype":
            dt = self.dtype_name(A(0, "dtype"))
            er = A(2, "errors", const("raise"))
            return new(self.astype_term(t, dt, er.args[0] if isinstance(er, T) and er.op == "str" else "?"))
        if name == "copy":
            return new(t)
        if name in ("to_numpy",):
            if self.narrow(A(0, "dtype", NONE)):
                return self.np_of(st, self.astype_term(t, self.dtype_name(A(0, "dtype")), "raise"), n, A(0, "dtype"))
            if self.is_true(A(1, "copy", FALSE)):
                return self.npv(st, t, n)
            return NpV(o.arr)
        if name in ("to_list", "tolist"):
            return RefV(self.new(st, ListRec(t=t, n=n)), "list")
        if name == "ravel" or name == "flatten" or name == "squeeze" or name == "infer_objects":
            return o if name in ("ravel", "squeeze") else new(t)
        if name == "to_frame":
            nm = A(0, "name", None)
            nm = self.colname(nm) if nm is not None else (o.name if o.name is not None else 0)
            return FrmV(self.new(st, FrmRec([(nm, o.arr)], o.idx, n)))
        if name in ("isna", "isnull"):
            return new(self.isnan_t(t))
        if name in ("notna", "notnull"):
            return new(not_(self.isnan_t(t)))
        if name == "fillna":
            v = A(0, "value", NONE)
            m = A(1, "method", NONE)
            if isinstance(m, T) and m.op == "str":
                k = {"ffill": "ffill", "pad": "ffill", "bfill": "bfill", "backfill": "bfill"}.get(m.args[0])
                nv = new(mk(k, t) if k else mk("opq", "fill", t))
            else:
                vt = self.align(v, o.idx if ser else None, n, st, node, ctx)
                nv = new(self.fillna_t(t, vt))
            self.emit("fill", st, node, ctx, how="fillna", t=t, val=v)
            return self.inplace(o, kw, nv, st, ctx, node, "fillna")
        if name in ("ffill", "bfill", "pad", "backfill", "interpolate"):
            k = {"pad": "ffill", "backfill": "bfill"}.get(name, name)
            lim = A(None, "limit", NONE)
            self.emit("fill", st, node, ctx, how=k, t=t)
            if k == "interpolate":
                me = A(0, "method", const("linear"))
                plain = isinstance(me, T) and me.op == "str" and me.args[0] == "linear" and isinstance(lim, T) and \
                    all(q in ("method", "axis", "inplace", "limit", "limit_area") for q in kw) and isinstance(A(None, "limit_area", NONE), T)
                me = me.args[0] if isinstance(me, T) and me.op == "str" else "?"
                nv = new(mk("sfn", "interp", t, lim, A(None, "limit_area", NONE))) if plain else new(mk(me, t)) if me in ("ffill", "bfill") else \
                    new(self.opaque(k, st, node, ctx, o))
            elif lim is not NONE and isinstance(lim, T):
                nv = new(mk("sfn", k, t, lim))
            elif lim is not NONE:
                nv = new(self.opaque(k, st, node, ctx, o))
            else:
                nv = new(mk(k, t))
            return self.inplace(o, kw, nv, st, ctx, node, k)
        if name == "rank" and not (set(kw) - {"axis"}) and not args and ser:
            return new(mk("sfn", "rank", t))
        if name == "replace" and args and len(args) <= 2:
            new_v = A(1, "value", None)
            olds = args[0]
            lst_ = self.concrete_items(olds, st) if not isinstance(olds, T) else [olds]
            if new_v is not None and isinstance(new_v, T) and not new_v.series and lst_ is not None and \
                    all(isinstance(x, T) and x.op in ("const", "inf", "nan") for x in lst_) and new_v is not NONE:
                c = or_(*[self.isnan_t(t) if x.op == "nan" else compare("eq", t, x) if x.op == "const" else
                          and_(mk("isinf", t), compare("gt" if x.args[0] > 0 else "lt", t, ZERO)) for x in lst_])
                if {x.args[0] for x in lst_ if x.op == "inf"} == {1, -1} and len(lst_) == 2:
                    c = mk("isinf", t)
                return self.inplace(o, kw, new(ite(c, new_v, t)), st, ctx, node, name)
        if name == "dropna":
            m = not_(self.isnan_t(t))
            nv = self.filter_ser(o, m, st) if ser else self.npv(st, mk("filter", t, m), self.count_of(m))
            return self.inplace(o, kw, nv, st, ctx, node, "dropna")
        if name in ("where", "mask") and args and isinstance(args[0], FnV):
            return self.call_method(o, name, [self.call(args[0], [o], {}, st, ctx, node)] + list(args[1:]), kw, st, ctx, node)
        if name in ("where", "mask"):
            c = A(0, "cond")
            other = A(1, "other", NAN)
            ct = self.align(c, o.idx if ser else None, n, st, node, ctx) if not isinstance(c, T) else c
            ot = self.align(other, o.idx if ser else None, n, st, node, ctx)
            if ot.op == "none":
                ot = NAN
            nv = new(ite(ct, t, ot) if name == "where" else ite(ct, ot, t))
            return self.inplace(o, kw, nv, st, ctx, node, name)
        if name == "clip":
            lo, hi = A(0, "lower", NONE), A(1, "upper", NONE)
            x = t
            for v, f in ((lo, tmax), (hi, tmin)):
                vt = self.align(v, o.idx if ser else None, n, st, node, ctx)
                if vt is not NONE:
                    x = f(x, vt)
            return new(x)
        if name in ("apply", "map", "transform"):
            f = A(0, "func" if name != "map" else "arg")
            k = len(self.unknown)
            v = self.map_fn(o, f, args[1:], st, ctx, node)
            if name == "transform" and any(str(u[0]).startswith("scalar.") for u in self.unknown[k:]):
                del self.unknown[k:]          # the function fails on single values: it is given the whole series
                return self.call(f, [o] + list(args[1:]), {}, st, ctx, node)
            return v
        if name == "pipe":
            return self.call(args[0], [o] + list(args[1:]), kw, st, ctx, node)
        if name == "combine" and ser and len(args) == 2 and not kw and isinstance(args[0], SerV) and args[0].idx is o.idx:
            v = self.elementwise(args[1], [NpV(o.arr), NpV(args[0].arr)], st, ctx, node)
            if v is not None:
                return self.ser(st, st.heap[v.arr].t, n, o.idx, o.name)
        if name in ("agg", "aggregate"):
            f = A(0, "func")
            if isinstance(f, T) and f.op == "str":
                return self.call_method(o, f.args[0], [], {}, st, ctx, node)
            if isinstance(f, (FnV, ExtV)):
                return self.call(f, [o], {}, st, ctx, node)
        if name == "head":
            return self.pos_slice(o, ("slice", NONE, A(0, "n", const(5)), NONE), st) if ser else o
        if name == "tail":
            k = A(0, "n", const(5))
            return self.pos_slice(o, ("slice", neg(k), NONE, NONE), st)
        if name == "truncate" or name == "first" or name == "last":
            return new(self.opaque("." + name, st, node, ctx, o))
        if name == "reset_index":
            if self.is_true(A(None, "drop", FALSE)):
                return self.ser(st, t, n, self.rng_idx(n), o.name if ser else None)
            return self.opaque("reset_index", st, node, ctx, o)
        if name == "rename":
            nm = A(0, "index", NONE)
            return SerV(self.new(st, ArrRec(t, n)), o.idx, self.colname(nm) if isinstance(nm, T) and nm is not NONE else None)
        if name == "set_axis":
            ix = A(0, "labels")
            if isinstance(ix, IdxV):
                return self.ser(st, t, n, ix.t, o.name)
        if name == "sort_index":
            if ser and self.sorted_idx(o.idx) and A(None, "ascending", TRUE) is TRUE:
                return self.inplace(o, kw, new(t), st, ctx, node, name)
            return self.inplace(o, kw, new(mk("opS", "sort_index", t)), st, ctx, node, name)
        if name == "sort_values" or name == "sort":
            nv = new(mk("opS", "sort", t, A(None, "ascending", TRUE)), idx=mk("opq", "sortidx", o.idx) if ser else None)
            if name == "sort":
                kw = {"inplace": TRUE}
            return self.inplace(o, kw, nv, st, ctx, node, name)
        if name == "reindex":
            ix = A(0, "index")
            it = self.concrete_items(ix, st) if isinstance(ix, (RefV, TupV)) else None
            if ser and it is not None and len(it) == 1 and isinstance(it[0], T) and self.datelike(it[0]) and not (set(kw) - {"index", "method"}):
                how = A(None, "method", NONE)
                how = (how,) if isinstance(how, T) and how.op == "str" else ()
                return self.ser(st, mk("lookupnan", t, it[0], *how), ONE, mk("idx", "one"), o.name)
            if isinstance(ix, IdxV):
                return self.ser(st, self.align(o, ix.t, ix.n, st, node, ctx), ix.n, ix.t, o.name)
        if name == "item":
            return cell(t, ZERO)
        if name == "between":
            a, b = A(0, "left"), A(1, "right")
            inc = A(2, "inclusive", const("both"))
            inc = inc.args[0] if isinstance(inc, T) and inc.op == "str" else "?"
            at = self.align(a, o.idx if ser else None, n, st, node, ctx)
            bt = self.align(b, o.idx if ser else None, n, st, node, ctx)
            if inc in ("both", "left", "right", "neither"):
                return new(and_(compare("ge" if inc in ("both", "left") else "gt", t, at),
                                compare("le" if inc in ("both", "right") else "lt", t, bt)))
        if name == "isin":
            items = self.concrete_items(A(0, "values"), st)
            if items is not None and all(isinstance(x, T) for x in items):
                return new(or_(*[compare("eq", t, x) for x in items]))
        if name in ("items", "iteritems"):
            if ser:
                return SeqV(n, lambda i, s: TupV([LabelV(o.idx, i), cell(t, i)]))
        if name == "keys":
            return IdxV(o.idx, n) if ser else o
        if name == "equals":
            return self.equals(o, A(0, "other"), st, node, ctx)
        if name == "get":
            k = A(0, "key")
            if isinstance(k, LabelV):
                return self.cell_of_label(o, k, st, node, ctx)
        if name in ("combine_first", "update"):
            b = A(0, "other")
            bt = self.align(b, o.idx if ser else None, n, st, node, ctx)
            if name == "combine_first":
                return new(self.fillna_t(t, bt))
            self.write_arr(o.arr, self.fillna_t(bt, t), st, ctx, node, "update")
            return NONE
        if name in ("add_suffix", "add_prefix"):
            return o
        if name == "unique":
            return self.npv(st, mk("opS", "unique", t), mk("opq", "nunique", t))
        if name in ("dot",):
            b = A(0, "other")
            bt = self.align(b, o.idx if ser else None, n, st, node, ctx)
            return self.aggr("sum", mul(t, bt), n, st)
        if name == "nonzero":
            return self.where1(o, t, n, st)
        if name == "repeat" or name == "reshape":
            if name == "reshape":
                dims = list(args)
                if len(dims) == 1 and isinstance(dims[0], TupV):
                    dims = list(dims[0].items)
                if len(dims) == 2 and isinstance(dims[1], T) and is_num(dims[1]) and num(dims[1]) == 1:
                    return Np2V([o.arr])
                if len(dims) == 1:
                    return o
            return self.opaque("." + name, st, node, ctx, o)
        if name == "take":
            return self.opaque("take", st, node, ctx, o)
        if name == "fill":
            self.write_arr(o.arr, self.plain(A(0, "value"), st, node, ctx), st, ctx, node)
            return NONE
        if name in INPLACE_ONLY:
            self.write_arr(o.arr, self.opaque("." + name, st, node, ctx, o), st, ctx, node)
            return self.opaque("." + name, st, node, ctx, o)
        if name in ("sum", "plot", "hist"):
            return mk("opq", "." + name)
        nv = new(self.opaque("." + name, st, node, ctx, o, *[a for a in args]))
        return self.inplace(o, kw, nv, st, ctx, node, name) if "inplace" in kw else nv

    def cum(self, kind, t):
        if kind == "sum":
            return scalar_map(t, lambda x: mk("cum", "sum", x)) if t.series else mul(t, add(ROW, ONE))
        return mk("cum", kind, t)

    def sorted_idx(self, idx):
        if idx.op in ("idx", "irange"):
            return True
        if idx.op in ("islice", "ifilter"):
            return self.sorted_idx(idx.args[0])
        if idx.op == "opL" and idx.args[0] == "idxsorted":
            return True
        return False

    def where1(self, o, m, n, st):
        c = self.canon_mask(m if is_boolish(m) else not_(compare("eq", m, ZERO)))
        return SeqV(ONE, None, ("where", self.npv(st, mk("posof", c), self.count_of(c))))

    def equals(self, a, b, st, node, ctx):
        if isinstance(a, (SerV, NpV)) and isinstance(b, (SerV, NpV)):
            return const(True) if st.heap[a.arr].t is st.heap[b.arr].t else \
                mk("truthy", mk("opb", "equals", st.heap[a.arr].t, st.heap[b.arr].t))
        ta, tb = self.sig(a, st), self.sig(b, st)
        x, y = sorted((ta, tb), key=skey)
        return mk("truthy", mk("opS1", "equals", x, y)) if not (x.series or y.series) else mk("truthy", mk("opb", "equals", x, y))

    def vec_agg(self, o, name, args, kw, st, ctx, node):
        r = st.heap[o.arr]
        t, n = r.t, r.n
        ser = isinstance(o, SerV)
        skip = kw.get("skipna", TRUE)
        suffix = "" if ser and skip is TRUE else "_np"
        if name in ("any", "all"):
            m = t if is_boolish(t) else None
            if m is None:
                if not t.series:
                    return truth(t)
                return mk("truthy", mk("aggr", name, t, n))
            return self.any_of(m, n) if name == "any" else not_(self.any_of(not_(m), n))
        if name == "count":
            if isinstance(t, T) and self.isnan_t(t) is FALSE:
                return n
            return self.count_of(not_(self.isnan_t(t))) if t.series else n
        if name in ("idxmin", "idxmax"):
            p = mk("aggr", "arg" + name[3:], t, n)
            return LabelV(o.idx, p) if ser else p
        if name in ("argmin", "argmax"):
            return mk("aggr", name, t, n)
        if name in ("first_valid_index", "last_valid_index"):
            return LabelV(o.idx, mk("aggr", "firstpos" if name[0] == "f" else "lastpos", not_(self.isnan_t(t))))
        if name in ("std", "var"):
            dd = self.arg(args, kw, None, "ddof", ONE if ser else ZERO)
            v = self.aggr("var%s%s" % (pyval(dd) if is_const(dd) else "?", suffix), t, n, st)
            return power(v, mk("const", F(1, 2))) if name == "std" else v
        if name == "quantile":
            q = self.arg(args, kw, 0, "q", mk("const", F(1, 2)))
            return mk("aggr", "quantile", t, n, q)
        if name == "ptp":
            return sub(self.aggr("max_np", t, n, st), self.aggr("min_np", t, n, st))
        if name in ("min", "max") and not self.nonempty(n, st):
            self.emit("empty_agg", st, node, ctx, cond=compare("le", n, ZERO), what=name)
        if name == "mean":
            pass
        return self.aggr(AGG[name] + suffix, t, n, st)

    def nonempty(self, n, st):
        return self.entails(st, compare("ge", n, ONE))

    def any_of(self, m, n):
        if m is TRUE:
            return compare("ge", n, ONE)
        if m is FALSE:
            return FALSE
        if not m.series:
            return and_(m, compare("ge", n, ONE))
        if is_num(n) and 1 <= num(n) <= 8:
            return or_(*[cell(m, const(i)) for i in range(int(num(n)))])
        return mk("exists", "b1", ZERO, n, ONE, cell(m, mk("lv", "b1"))) if not has_op(m, "exists", "search", "sumrange", "loopX", "loopS", "seq") \
            else mk("exists", "b9", ZERO, n, ONE, cell(m, mk("lv", "b9")))

    def elementwise(self, f, vs, st, ctx, node):
        """a Python function applied to the elements of several arrays, row by row"""
        vs = [self.lst_vec(v, st) for v in vs]
        vecs = [v for v in vs if isinstance(v, (SerV, NpV))]
        if not vecs or any(not isinstance(v, (SerV, NpV, T)) or isinstance(v, T) and v.series for v in vs):
            return None
        n = st.heap[vecs[0].arr].n
        if any(st.heap[v.arr].n is not n for v in vecs):
            return None
        uid = self.fresh()
        lv = mk("lv", uid)
        self.lvrange[uid] = (ZERO, n, ONE)
        b = st.enter(dict(st.env))
        b.rel = and_(compare("le", ZERO, lv), compare("lt", lv, n))
        x = self.call(f, [v if isinstance(v, T) else cell(st.heap[v.arr].t, lv) for v in vs], {}, b, ctx, node)
        if not isinstance(x, T):
            return None
        return self.npv(st, self.lift_rows(x, lv, ZERO, ONE), n)

    def map_fn(self, o, f, extra, st, ctx, node):
        """element-wise application of a Python function"""
        r = st.heap[o.arr]
        if isinstance(f, RefV):
            d = st.heap.get(f.oid)
            if isinstance(d, DictRec) and all(k[0] == "c" for k in d.items) and \
                    all(isinstance(v, T) for v in d.items.values()):
                out = NAN
                for k, v in d.items.items():
                    out = ite(compare("eq", r.t, mk(k[1], *k[2])), v, out)
                return self.mapv(o, lambda t: out, st)
            return self.mapv(o, lambda t: mk("opq", "mapdict", t), st)
        if isinstance(f, T) and f.op == "str":
            return self.call_method(o, f.args[0], [], {}, st, ctx, node)
        uid = self.fresh()
        lv = mk("lv", uid)
        self.lvrange[uid] = (ZERO, r.n, ONE)
        b = st.enter(dict(st.env))
        b.rel = and_(compare("le", ZERO, lv), compare("lt", lv, r.n))
        x = self.call(f, [cell(r.t, lv)] + list(extra), {}, b, ctx, node)
        if isinstance(x, T):
            return self.mapv(o, lambda t: self.lift_rows(x, lv, ZERO, ONE), st)
        return self.mapv(o, lambda t: mk("opq", "apply", t), st)

    def closed(self, v):
        return v.args[0] if isinstance(v, T) and v.op == "str" else None

    def window(self, o, kind, args, kw, st, ctx, node):
        A = lambda i, nm, d=None: self.arg(args, kw, i, nm, d)
        if kind == "rolling":
            w = A(0, "window")
            mp = A(1, "min_periods", NONE)
            bad = None
            if not isinstance(w, T):
                bad = self.sig(w, st)
                w = mk("opq", "window")
            if mp is NONE:
                mp = w
            center, lag = None, ZERO
            over = compare("gt", mp, w) if isinstance(mp, T) and not mp.opq and not w.opq else FALSE
            if over is not FALSE and not self.entails(st, compare("le", mp, w)):
                if self.may_raise("ValueError", over, st, node, ctx) is False:
                    self.emit("bad_window", st, node, ctx, cond=over, what="more required values than the window has")
            for k in ("center", "on", "closed", "step", "axis"):
                v = kw.get(k)
                if k == "center" and v is TRUE:
                    center = TRUE
                    continue
                if k == "closed" and v is not None and self.closed(v) in ("right", "left", "both", "neither"):
                    cl = self.closed(v)
                    if cl in ("left", "neither"):
                        lag = ONE
                    w = add(w, ONE) if cl == "both" else sub(w, ONE) if cl == "neither" else w
                    continue
                if v is not None and not (isinstance(v, T) and (v is FALSE or v is NONE or v is ZERO)):
                    bad = mk("opq", "rolling " + k, self.sig(v, st))
            if is_num(mp) and num(mp) == 0:
                mp = ONE        # only the empty window differs
            win = A(None, "win_type", NONE)
            return WinV("rolling", o, {"window": w, "minp": mp, "win": None if win is NONE else win, "bad": bad, "center": center, "lag": lag})
        if kind == "ewm":
            com, span, hl, al = A(0, "com", NONE), A(1, "span", NONE), A(2, "halflife", NONE), A(3, "alpha", NONE)
            if span is not NONE:
                alpha = div(const(2), add(span, ONE))
            elif com is not NONE:
                alpha = div(ONE, add(com, ONE))
            elif al is not NONE:
                alpha = al
            elif isinstance(hl, T) and hl is not NONE and is_num(hl) and num(hl) > 0:
                alpha = sub(ONE, mk("pow", mk("const", F(1, 2)), div(ONE, hl)))
            else:
                alpha = mk("opq", "halflife", hl)
            mp = A(4, "min_periods", ZERO)
            if mp is NONE:
                mp = ZERO
            mp = tmax(ONE, mp) if is_num(mp) else mp
            adj = A(5, "adjust", TRUE)
            ig = A(6, "ignore_na", FALSE)
            return WinV("ewm", o, {"alpha": alpha, "minp": mp, "adjust": adj, "ignore": ig})
        mp = A(0, "min_periods", ONE)
        return WinV("expanding", o, {"minp": mp})

    # ----------------------------------------------------------------- frames
    def frm_method(self, o, name, args, kw, st, ctx, node):
        rec = st.heap[o.oid]
        A = lambda i, nm, d=None: self.arg(args, kw, i, nm, d)
        terms = lambda: [(c, st.heap[a].t) for c, a in rec.cols]

        def axis1(v):
            return isinstance(v, T) and ((is_num(v) and num(v) == 1) or (v.op == "str" and v.args[0] == "columns"))

        def newf(cols, n=None, idx=None, order=None):
            return self.frame(st, cols, rec.idx if idx is None else idx, rec.n if n is None else n,
                              rec.order if order is None else order)

        if name in BINM and args:
            ax = A(1, "axis", const("columns"))
            b = args[0]
            if isinstance(b, SerV) and not axis1(ax):
                cols = []
                for c, t in terms():
                    y = self.align(b, rec.idx, rec.n, st, node, ctx)
                    op = BINM[name]
                    cols.append((c, self.scalar_bin(op[1:], y, t, st, ctx, node) if op[0] == "R"
                                 else self.scalar_bin(op, t, y, st, ctx, node)))
                return newf(cols)
            return self.binop(BINM[name], o, b, st, ctx, node)
        if name in CMPM and args:
            return self.compare1(CMPM[name], o, args[0], st, ctx, node)
        if name in AGG or name in ("any", "all", "count", "idxmax", "idxmin"):
            ax = A(0, "axis", ZERO)
            if axis1(ax):
                sk = kw.get("skipna", TRUE)
                ts = [t for _, t in terms()]
                if name in ("any", "all") and all(is_boolish(t) for t in ts):
                    return self.ser(st, (or_ if name == "any" else and_)(*ts), rec.n, rec.idx)
                if name in ("sum", "mean", "min", "max", "median", "std", "prod"):
                    if name in ("sum", "mean") and sk is TRUE:
                        # missing cells count as zero / are left out; only complete rows are modelled as a sum
                        return self.ser(st, self.row_agg_terms(ts, name, sk), rec.n, rec.idx)
                    return self.ser(st, self.row_agg_terms(ts, name, sk), rec.n, rec.idx)
                return self.ser(st, self.opaque("row." + name, st, node, ctx, o), rec.n, rec.idx)
            items = [self.vec_agg(SerV(a, rec.idx, c), name, [], kw, st, ctx, node) for c, a in rec.cols]
            return SeqV(const(len(items)), None, ("items", tuple(items), tuple(c for c, _ in rec.cols), ("agg",)))
        if name in ("rolling", "ewm", "expanding"):
            return self.window(o, name, args, kw, st, ctx, node)
        if name in ("shift", "diff", "pct_change", "abs", "cumsum", "cumprod", "cummax", "cummin", "round",
                    "isna", "isnull", "notna", "notnull", "clip", "applymap", "map"):
            cols = []
            for c, a in rec.cols:
                aa = args
                if name == "round" and isinstance(A(0, "decimals"), RefV):
                    d = st.heap[A(0, "decimals").oid]
                    k = ("c", "str", (c,))
                    if k not in d.items:
                        cols.append((c, st.heap[a].t))
                        continue
                    aa = [d.items[k]]
                v = self.vec_method(SerV(a, rec.idx, c), "apply" if name in ("applymap",) else name, aa, kw, st, ctx, node)
                cols.append((c, st.heap[v.arr].t))
            return newf(cols)
        if name == "astype":
            er = A(2, "errors", const("raise"))
            ers = er.args[0] if isinstance(er, T) and er.op == "str" else "?"
            dt = A(0, "dtype")
            cols = []
            if isinstance(dt, RefV) and isinstance(st.heap.get(dt.oid), DictRec):
                d = st.heap[dt.oid].items
                for c, t in terms():
                    k = ("c", "str", (c,))
                    cols.append((c, self.astype_term(t, self.dtype_name(d[k]), ers) if k in d else t))
            else:
                cols = [(c, self.astype_term(t, self.dtype_name(dt), ers)) for c, t in terms()]
            return newf(cols)
        if name in ("copy", "infer_objects"):
            deep = A(0, "deep", TRUE)
            if deep is FALSE:
                return FrmV(self.new(st, FrmRec(rec.cols, rec.idx, rec.n, rec.order)))
            return newf(terms())
        if name == "to_numpy":
            dt = A(0, "dtype", NONE)
            if self.narrow(dt):
                return Np2V([self.np_of(st, self.astype_term(st.heap[a].t, self.dtype_name(dt), "raise"), rec.n, dt).arr
                             for _, a in rec.cols])
            return Np2V([a for _, a in rec.cols], o.oid)
        if name in ("fillna", "ffill", "bfill", "pad", "backfill", "interpolate"):
            kw2 = {k: v for k, v in kw.items() if k != "inplace"}
            cols = []
            val = A(0, "value", NONE)
            for c, a in rec.cols:
                aa, k2 = args, kw2
                if name == "fillna" and isinstance(val, FrmV):
                    co = self.col_oid(st.heap[val.oid], c)
                    if co is None:
                        cols.append((c, st.heap[a].t))
                        continue
                    aa, k2 = [SerV(co, st.heap[val.oid].idx)], {}
                v = self.vec_method(SerV(a, rec.idx, c), name, aa, k2, st, ctx, node)
                cols.append((c, st.heap[v.arr].t))
            return self.inplace(o, kw, newf(cols), st, ctx, node, name)
        if name == "dropna":
            sub_ = A(None, "subset", NONE)
            how = A(None, "how", const("any"))
            ax = A(0, "axis", ZERO)
            if axis1(ax):
                return self.opaque("dropna axis=1", st, node, ctx, o)
            if sub_ is NONE:
                cs = [a for _, a in rec.cols]
            else:
                its = [sub_] if isinstance(sub_, T) else self.concrete_items(sub_, st)
                cs = [self.col_oid(rec, self.colname(x)) for x in its]
            ms = [self.isnan_t(st.heap[a].t) for a in cs if a is not None]
            m = and_(*[not_(x) for x in ms]) if not (isinstance(how, T) and how.op == "str" and how.args[0] == "all") \
                else or_(*[not_(x) for x in ms])
            return self.inplace(o, kw, self.filter_frame(o, m, st), st, ctx, node, "dropna")
        if name == "drop":
            names = A(None, "columns", None)
            if names is None and (axis1(A(1, "axis", ZERO))):
                names = A(0, "labels")
            if names is not None:
                its = [names] if isinstance(names, T) else self.concrete_items(names, st)
                if its is not None:
                    ns = [self.colname(x) for x in its]
                    nf = FrmV(self.new(st, FrmRec([(c, self.new(st, ArrRec(st.heap[a].t, rec.n))) for c, a in rec.cols
                                                   if c not in ns], rec.idx, rec.n, rec.order)))
                    for x in ns:
                        if self.col_oid(rec, x) is None:
                            self.emit("col_missing", st, node, ctx, frame=rec.tag, col=x, cols=[c for c, _ in rec.cols])
                    return self.inplace(o, kw, nf, st, ctx, node, "drop")
            lab = A(0, "labels", A(None, "index"))
            if isinstance(lab, IdxV):
                off = self.offset_of(lab.t, rec.idx)
                if off is not None and off[0] is ZERO and off[1] is not NONE:
                    return self.inplace(o, kw, self.frame_rows(o, ("slice", off[1], NONE, NONE), st, ctx, node), st, ctx, node, "drop")
                if off is not None and off[1] is NONE:
                    return self.inplace(o, kw, self.frame_rows(o, ("slice", NONE, off[0], NONE), st, ctx, node), st, ctx, node, "drop")
            if isinstance(lab, LabelV):
                row = self.row_of_label(lab, rec.idx, st, node, ctx)
                if row is ZERO:
                    return self.inplace(o, kw, self.frame_rows(o, ("slice", ONE, NONE, NONE), st, ctx, node), st, ctx, node, "drop")
            return self.opaque("drop", st, node, ctx, o)
        if name == "rename":
            cm = A(None, "columns", None)
            if cm is None and axis1(A(None, "axis", ZERO)):
                cm = A(0, "mapper")
            if isinstance(cm, RefV) and isinstance(st.heap.get(cm.oid), DictRec):
                d = st.heap[cm.oid].items
                cols = []
                for c, a in rec.cols:
                    k = ("c", "str", (c,)) if isinstance(c, str) else ("c", "const", (F(c),)) if isinstance(c, int) else None
                    nc = self.colname(d[k]) if k in d else c
                    cols.append((nc, self.new(st, ArrRec(st.heap[a].t, rec.n))))
                nf = FrmV(self.new(st, FrmRec(cols, rec.idx, rec.n, rec.order)))
                return self.inplace(o, kw, nf, st, ctx, node, "rename")
            if isinstance(cm, (FnV, ExtV, BoundV)):
                cols = []
                for c, a in rec.cols:
                    x = self.call(cm, [const(c) if not isinstance(c, T) else c], {}, st, ctx, node)
                    cols.append((self.colname(x) if isinstance(x, T) else c, self.new(st, ArrRec(st.heap[a].t, rec.n))))
                nf = FrmV(self.new(st, FrmRec(cols, rec.idx, rec.n, rec.order)))
                return self.inplace(o, kw, nf, st, ctx, node, "rename")
        if name == "set_axis" and isinstance(A(0, "labels"), IdxV) and not axis1(A(1, "axis", ZERO)):
            f2 = FrmRec([(c, self.new(st, ArrRec(st.heap[a].t, rec.n))) for c, a in rec.cols], A(0, "labels").t, rec.n, rec.order)
            return FrmV(self.new(st, f2))
        if name == "set_axis":
            its = self.concrete_items(A(0, "labels"), st)
            if its is not None and len(its) == len(rec.cols) and axis1(A(1, "axis", ZERO)):
                return newf([(self.colname(x), t) for x, (_, t) in zip(its, terms())])
        if name == "assign":
            f2 = newf(terms())
            for k, v in kw.items():
                if isinstance(v, FnV):
                    v = self.call(v, [f2], {}, st, ctx, node)
                self.set_col(f2, k, v, st, ctx, node)
            return f2
        if name == "insert":
            pos, nm, v = A(0, "loc"), A(1, "column"), A(2, "value")
            self.set_col(o, self.colname(nm), v, st, ctx, node)
            r2 = st.heap[o.oid]
            if isinstance(pos, T) and is_num(pos):
                cols = list(r2.cols)
                x = cols.pop()
                cols.insert(int(num(pos)), x)
                st.heap[o.oid] = FrmRec(cols, r2.idx, r2.n, r2.order, r2.tag)
            return NONE
        if name == "pop":
            c = A(0, "item")
            v = self.frame_get(o, c, st, ctx, node)
            self.del_item(o, c, st, ctx, node)
            return v
        if name == "head":
            return self.frame_rows(o, ("slice", NONE, A(0, "n", const(5)), NONE), st, ctx, node)
        if name == "tail":
            return self.frame_rows(o, ("slice", neg(A(0, "n", const(5))), NONE, NONE), st, ctx, node)
        if name == "reset_index":
            if self.is_true(kw.get("drop", FALSE)):
                return self.inplace(o, kw, newf(terms(), idx=self.rng_idx(rec.n)), st, ctx, node, name)
        if name == "set_index":
            ix = A(0, "keys")
            if isinstance(ix, IdxV):
                return self.inplace(o, kw, newf(terms(), idx=ix.t), st, ctx, node, name)
        if name in ("asof", "xs", "truncate") and args and isinstance(args[0], T) and self.datelike(args[0]) and name == "asof":
            items = [mk("asof", st.heap[a].t, args[0]) for _, a in rec.cols]
            return SeqV(const(len(items)), None, ("items", tuple(items), tuple(c for c, _ in rec.cols), ("asof", rec, args[0])))
        if name == "truncate":
            ends = [A(0, "before", NONE), A(1, "after", NONE)]
            if all(x is NONE or isinstance(x, T) and self.date_term(x) is not None and x.op != "param" for x in ends):
                ix = mk("index", rec.idx)
                return self.filter_frame(o, and_(*[compare(p, ix, x) for p, x in zip(("ge", "le"), ends) if x is not NONE]), st)
        if name == "xs" and len(args) == 1 and not kw and isinstance(args[0], T) and self.datelike(args[0]):
            return self.frame_ix("loc", o, args[0], st, ctx, node)
        if name == "reindex":
            ix = A(None, "index", args[0] if args else None)
            it = self.concrete_items(ix, st) if isinstance(ix, (RefV, TupV)) else None
            if it is not None and len(it) == 1 and isinstance(it[0], T) and self.datelike(it[0]) and not (set(kw) - {"index", "method"}):
                how = A(None, "method", NONE)
                how = (how,) if isinstance(how, T) and how.op == "str" else ()
                return self.frame(st, [(c, mk("lookupnan", st.heap[a].t, it[0], *how)) for c, a in rec.cols], mk("idx", "one"), ONE, rec.order)
            cs = A(None, "columns", None)
            f2 = o
            if isinstance(ix, IdxV):
                f2 = self.frame(st, [(c, self.align_term(st.heap[a].t, rec.idx, rec.n, ix.t, ix.n, st, node, ctx))
                                     for c, a in rec.cols], ix.t, ix.n, rec.order)
            if cs is not None:
                return self.frame_get(f2, cs, st, ctx, node)
            if f2 is not o:
                return f2
        if name == "sort_index":
            if axis1(A(0, "axis", ZERO)):
                cols = sorted(terms(), key=lambda ct: str(ct[0]))
                return self.inplace(o, kw, newf(cols, order="known"), st, ctx, node, name)
            if self.sorted_idx(rec.idx) and A(None, "ascending", TRUE) is TRUE:
                return self.inplace(o, kw, newf(terms()), st, ctx, node, name)
        if name == "sort_values":
            by = A(0, "by")
            return self.inplace(o, kw, newf([(c, mk("opS", "sortby", t, self.sig(by, st))) for c, t in terms()],
                                            idx=mk("opq", "sortidx")), st, ctx, node, name)
        if name in ("where", "mask"):
            c = A(0, "cond")
            other = A(1, "other", NAN)
            cols = []
            for nm, a in rec.cols:
                if isinstance(c, FrmV):
                    co = self.col_oid(st.heap[c.oid], nm)
                    ct = st.heap[co].t if co is not None else FALSE
                else:
                    ct = self.align(c, rec.idx, rec.n, st, node, ctx)
                ot = other
                if isinstance(other, FrmV):
                    oo = self.col_oid(st.heap[other.oid], nm)
                    ot = st.heap[oo].t if oo is not None else NAN
                else:
                    ot = self.align(other, rec.idx, rec.n, st, node, ctx)
                t = st.heap[a].t
                cols.append((nm, ite(ct, t, ot) if name == "where" else ite(ct, ot, t)))
            return self.inplace(o, kw, newf(cols), st, ctx, node, name)
        if name == "pipe":
            return self.call(args[0], [o] + list(args[1:]), kw, st, ctx, node)
        if name in ("apply", "agg", "aggregate", "transform"):
            f = A(0, "func")
            if axis1(A(1, "axis", ZERO)):
                if isinstance(f, (FnV, ExtV, BoundV)):
                    uid = self.fresh()
                    lv = mk("lv", uid)
                    self.lvrange[uid] = (ZERO, rec.n, ONE)
                    row = SeqV(const(len(rec.cols)), None,
                               ("items", tuple(cell(t, lv) for _, t in terms()), tuple(c for c, _ in rec.cols), ("row",)))
                    b = st.enter(dict(st.env))
                    b.rel = and_(compare("le", ZERO, lv), compare("lt", lv, rec.n))
                    x = self.call(f, [row], {}, b, ctx, node)
                    if isinstance(x, T):
                        return self.ser(st, self.lift_rows(x, lv, ZERO, ONE), rec.n, rec.idx)
                return self.ser(st, self.opaque("apply1", st, node, ctx, o), rec.n, rec.idx)
            if isinstance(f, T) and f.op == "str":
                return self.frm_method(o, f.args[0], [], {}, st, ctx, node)
            if isinstance(f, (FnV, ExtV)):
                vs = [self.call(f, [SerV(a, rec.idx, c)], {}, st, ctx, node) for c, a in rec.cols]
                if all(isinstance(v, SerV) for v in vs):
                    return newf([(c, st.heap[v.arr].t) for (c, _), v in zip(rec.cols, vs)])
                return SeqV(const(len(vs)), None, ("items", tuple(vs), tuple(c for c, _ in rec.cols), ("agg",)))
        if name in ("iterrows", "itertuples"):
            def row(i, s, tt=terms()):
                it = SeqV(const(len(tt)), None, ("items", tuple(cell(t, i) for _, t in tt), tuple(c for c, _ in tt), ("row",)))
                return TupV([LabelV(rec.idx, i), it]) if name == "iterrows" else it
            return SeqV(rec.n, row)
        if name in ("items", "iteritems"):
            return TupV([TupV([const(c) if not isinstance(c, T) else c, SerV(a, rec.idx, c)]) for c, a in rec.cols])
        if name == "keys":
            return IxrV("columns", o)
        if name in ("join", "merge"):
            b = A(0, "other", A(0, "right"))
            if isinstance(b, (FrmV, SerV)):
                return self.concat([o, b], ONE, st, ctx, node)
        if name == "equals":
            return self.equals(o, A(0, "other"), st, node, ctx)
        if name == "squeeze":
            if len(rec.cols) == 1:
                return SerV(rec.cols[0][1], rec.idx, rec.cols[0][0])
        if name == "get":
            return self.frame_get(o, A(0, "key"), st, ctx, node)
        if name == "filter" and "items" in kw:
            return self.frame_get(o, kw["items"], st, ctx, node)
        if name == "transpose":
            return mk("opq", "frame.T", self.frm_term(rec, st))
        if name in ("update",):
            b = A(0, "other")
            self.emit("write_frame", st, node, ctx, oid=o.oid, tag=rec.tag, col=None, what="update")
            for c, a in rec.cols:
                self.write_arr(a, self.opaque("update", st, node, ctx, b), st, ctx, node)
            return NONE
        if name == "eval" or name == "query":
            return self.opaque("." + name, st, node, ctx, o)
        nv = newf([(c, self.opaque("." + name, st, node, ctx, SerV(a, rec.idx, c), *args)) for c, a in rec.cols])
        if "inplace" in kw:
            return self.inplace(o, kw, nv, st, ctx, node, name)
        return nv

    # --------------------------------------------- frames with unknown columns
    def rframe_attr(self, o, name, st, ctx, node):
        rec = st.heap[o.oid]
        if name in ("iat", "iloc", "loc", "at"):
            return IxrV(name, o)
        if name == "columns":
            return IxrV("columns", o)
        if name == "index":
            return mk("opL", "index", rec.t)
        if name == "empty":
            return mk("truthy", mk("opL", "empty", rec.t))
        if name == "shape":
            return TupV([mk("opI", "len", rec.t), mk("opI", "ncols", rec.t)])
        if name == "size":
            return mul(mk("opI", "len", rec.t), mk("opI", "ncols", rec.t))
        if name in ("values", "dtypes", "T"):
            v = mk("opL", name, rec.t)
            if name != "dtypes":
                self.views[v.id] = share_of(rec.tag)
            return v
        return BoundV(o, name)

    RENAMES = {"pad": "ffill", "backfill": "bfill"}

    def rfrm_method(self, o, name, args, kw, st, ctx, node):
        rec = st.heap[o.oid]
        t = rec.t
        A = lambda i, nm, d=None: self.arg(args, kw, i, nm, d)

        def new(t2):
            return RFrmV(self.new(st, RFrmRec(t2, None, rec.extra)))

        def axis1(v):
            return isinstance(v, T) and ((is_num(v) and num(v) == 1) or (v.op == "str" and v.args[0] == "columns"))
        name = self.RENAMES.get(name, name)
        if name == "copy":
            if A(0, "deep", TRUE) is FALSE:
                return RFrmV(self.new(st, RFrmRec(t, share_of(rec.tag), rec.extra)))
            return new(t)
        if name == "sort_index":
            asc = A(None, "ascending", TRUE)
            if axis1(A(0, "axis", ZERO)):
                return self.inplace(o, kw, new(mk("opF", "sortcols", t)), st, ctx, node, name)
            return self.inplace(o, kw, new(mk("opF", "sort_index", t, self.sig(asc, st))), st, ctx, node, name)
        if name in ("ffill", "bfill"):
            lim = kw.get("limit", NONE)
            ax = A(None, "axis", ZERO)
            self.emit("fill", st, node, ctx, how=name, t=t)
            if lim is not NONE or axis1(ax):
                return self.inplace(o, kw, new(mk("opF", name, t, self.sig(lim, st), self.sig(ax, st))), st, ctx, node, name)
            return self.inplace(o, kw, new(mk("opF", name, t)), st, ctx, node, name)
        if name == "fillna":
            m = A(1, "method", NONE)
            self.emit("fill", st, node, ctx, how="fillna", t=t)
            if args and isinstance(args[0], RFrmV) and len(args) == 1 and set(kw) <= {"inplace"}:
                return self.inplace(o, kw, new(mk("opF", "combine_first", t, st.heap[args[0].oid].t)), st, ctx, node, name)
            if isinstance(m, T) and m.op == "str":
                k = {"ffill": "ffill", "pad": "ffill", "bfill": "bfill", "backfill": "bfill"}.get(m.args[0], "?")
                return self.inplace(o, kw, new(mk("opF", k, t)), st, ctx, node, name)
            return self.inplace(o, kw, new(mk("opF", "fillna", t, self.sig(A(0, "value", NONE), st))), st, ctx, node, name)
        if name == "drop":
            cols = A(None, "columns", None)
            if cols is None and axis1(A(1, "axis", ZERO)):
                cols = A(0, "labels")
            if cols is not None:
                return self.inplace(o, kw, new(mk("opF", "drop", t, self.sig(cols, st))), st, ctx, node, name)
        if name == "rename":
            m = A(None, "columns", A(0, "mapper"))
            if isinstance(m, (ExtV,)) and m.path.split(".")[-1] in ("lower", "casefold"):
                mm = mk("colmap", t, mk("strop", "lower", mk("colname", t, mk("lv", "bC"))), TRUE)
                return self.inplace(o, kw, new(mk("opF", "setcols", t, mm)), st, ctx, node, name)
            if isinstance(m, FnV):
                x = self.call(m, [mk("colname", t, mk("lv", "bC"))], {}, st, ctx, node)
                mm = mk("colmap", t, self.sig(x, st), TRUE)
                return self.inplace(o, kw, new(mk("opF", "setcols", t, mm)), st, ctx, node, name)
            if isinstance(m, T) and m.op == "dictcols":
                mm = mk("colmap", t, m.args[1], TRUE)
                return self.inplace(o, kw, new(mk("opF", "setcols", t, mm)), st, ctx, node, name)
            return self.inplace(o, kw, new(mk("opF", "setcols", t, self.sig(m, st))), st, ctx, node, name)
        if name == "set_axis":
            m = A(0, "labels")
            return self.inplace(o, kw, new(mk("opF", "setcols", t, self.sig(m, st))), st, ctx, node, name)
        if name == "filter" and "items" in kw:
            return new(mk("opF", "getitem", t, self.sig(kw["items"], st)))
        if name == "pipe":
            return self.call(args[0], [o] + list(args[1:]), kw, st, ctx, node)
        if name in ("apply", "transform", "agg") and len(args) == 1 and isinstance(args[0], (FnV, ExtV)) and \
                (not kw or list(kw) == ["axis"] and is_num(kw["axis"]) and num(kw["axis"]) == 0):
            v = self.call(args[0], [o], {}, st, ctx, node)      # column by column
            if isinstance(v, RFrmV):
                return v
        if name in ("where", "mask", "combine_first", "fillna", "update") and args:
            b = args[0] if name in ("combine_first", "fillna", "update") else args[1] if len(args) > 1 else None
            if isinstance(b, RFrmV) and not kw and name != "update":
                c = self.sig(args[0], st)
                return new(mk("opF", name, t, c, st.heap[b.oid].t) if name in ("where", "mask")
                           else mk("opF", "combine_first", t, st.heap[b.oid].t))
        if name in ("reindex",):
            cols = A(None, "columns", None)
            if cols is not None:
                return new(mk("opF", "getitem", t, self.sig(cols, st)))
        if name in ("isna", "isnull", "notna", "notnull", "sum", "any", "all", "equals", "duplicated", "max", "min", "mean"):
            return mk("opL", "frm." + name, t, *([self.sig(a, st) for a in args] +
                                                 [mk("opL", "kw:" + k, self.sig(v, st)) for k, v in sorted(kw.items())]))
        if name in ("insert", "pop", "update", "__setitem__"):
            self.emit("write_frame", st, node, ctx, oid=o.oid, tag=rec.tag, col=None, what=name)
            st.heap[o.oid] = RFrmRec(mk("opF", name, t, *[self.sig(a, st) for a in args]), rec.tag, rec.extra)
            return NONE
        if name in ("get",):
            return mk("opSF", "col", t, self.sig(A(0, "key"), st))
        if name in ("itertuples", "iterrows", "items", "keys"):
            return mk("opL", name, t)
        nv = new(mk("opF", name, t, *([self.sig(a, st) for a in args] +
                                      [mk("opL", "kw:" + k, self.sig(v, st)) for k, v in sorted(kw.items()) if k != "inplace"])))
        return self.inplace(o, kw, nv, st, ctx, node, name)

    # -------------------------------------------------------------- 2-D arrays
    def np2_method(self, o, name, args, kw, st, ctx, node):
        n = st.heap[o.arrs[0]].n
        ax = self.arg(args, kw, 0, "axis", NONE)
        if name in ("max", "min", "sum", "mean"):
            if isinstance(ax, T) and is_num(ax) and num(ax) in (1, -1):
                return self.npv(st, self.row_agg_terms([st.heap[a].t for a in o.arrs], name, FALSE), n)
            if isinstance(ax, T) and is_num(ax) and num(ax) == 0:
                return TupV([self.aggr(name + "_np", st.heap[a].t, n, st) for a in o.arrs])
            if ax is NONE and len(o.arrs) == 1:
                return self.aggr(name + "_np", st.heap[o.arrs[0]].t, n, st)
        if name in ("flatten", "ravel", "squeeze") and len(o.arrs) == 1:
            return NpV(o.arrs[0])
        if name == "reshape" and len(o.arrs) == 1:
            return NpV(o.arrs[0])
        if name == "copy":
            return Np2V([self.new(st, ArrRec(st.heap[a].t, st.heap[a].n)) for a in o.arrs])
        if name == "tolist" and len(o.arrs) == 1:
            return RefV(self.new(st, ListRec(t=mk("opS", "rows", st.heap[o.arrs[0]].t), n=n,
                                             meta=("rows", (st.heap[o.arrs[0]].t,)))), "list")
        return self.opaque("np2." + name, st, node, ctx, o)

    # ------------------------------------------------------------------ index
    @staticmethod
    def datelike(t):
        """a date given by the caller"""
        return t.op == "opL" and t.args[0] in ("to_datetime", ".normalize", ".floor", "idxasof") or t.op == "param" and t.args[1] == "any"

    def date_term(self, v):
        """a date as an expression: one of the caller, a row label, or one of two"""
        if isinstance(v, LabelV):
            return mk("label", v.idx, v.row)
        if isinstance(v, ChoiceV):
            a, b = self.date_term(v.a), self.date_term(v.b)
            return ite(v.c, a, b) if a is not None and b is not None else None
        if isinstance(v, T) and (self.datelike(v) or v.op == "label"):
            return v
        if isinstance(v, T) and v.op == "ite":
            return v if self.date_term(v.args[1]) is not None and self.date_term(v.args[2]) is not None else None
        return None

    def idx_method(self, o, name, args, kw, st, ctx, node):
        if name == "normalize" and not args or name == "floor" and len(args) == 1 and args[0] is const("D"):
            return IdxV(mk("opL", "idxnormal", o.t), o.n)
        A = lambda i, nm, d=None: self.arg(args, kw, i, nm, d)
        if name == "get_loc":
            k = A(0, "key")
            if isinstance(k, LabelV):
                r = self.row_of_label(k, o.t, st, node, ctx)
                if r is not None:
                    return r
            if isinstance(k, T) and self.datelike(k) and len(args) < 2 and not kw:
                self.may_raise("KeyError", mk("not", mk("in", k, o.t)), st, node, ctx)
                return mk("opI", "getloc", o.t, k)
        if name == "searchsorted" and args and isinstance(args[0], T) and self.datelike(args[0]):
            return mk("opI", "searchsorted", o.t, args[0], A(1, "side", mk("str", "left")))
        if name in ("get_indexer", "get_indexer_for") and args:
            it = self.concrete_items(args[0], st)
            if it is not None and len(it) == 1 and isinstance(it[0], T) and self.datelike(it[0]):
                return TupV([mk("opI", "getindexer", o.t, it[0], A(1, "method", NONE))])
        if name == "asof" and args and isinstance(args[0], T) and self.datelike(args[0]):
            return mk("opL", "idxasof", o.t, args[0])
        if name in ("tolist", "to_list", "to_series", "to_numpy", "to_pydatetime"):
            return SeqV(o.n, lambda i, s: LabelV(o.t, i))
        if name in ("max", "min") and self.sorted_idx(o.t):
            return LabelV(o.t, sub(o.n, ONE) if name == "max" else ZERO)
        if name == "equals" or name == "identical":
            b = A(0, "other")
            if isinstance(b, IdxV) and b.t is o.t:
                return TRUE
            return mk("truthy", mk("opL", "idxequals", *sorted((o.t, self.sig(b, st)), key=skey)))
        if name == "copy":
            return o
        if name == "isin":
            b = A(0, "values")
            if isinstance(b, IdxV):
                off = self.offset_of(b.t, o.t)
                if off is not None:
                    c = compare("ge", ROW, off[0])
                    if off[1] is not NONE:
                        c = and_(c, compare("lt", ROW, off[1]))
                    return self.npv(st, c, o.n)
                return self.npv(st, mk("truthy", mk("opE", "dateisin", mk("index", o.t), b.t)), o.n)
        if name == "sort_values" and not (set(kw) - {"ascending"}):
            asc = A(1, "ascending", TRUE)
            if asc is TRUE and len(args) < 2:
                return o if self.sorted_idx(o.t) else IdxV(mk("opL", "idxsorted", o.t), o.n)
            if asc is FALSE:
                return IdxV(mk("opL", "idxrsorted", o.t), o.n)
        if name in ("is_unique", "is_monotonic_increasing"):
            return mk("opb", name)
        if name in ("unique", "drop_duplicates") and not args and not kw:
            return IdxV(mk("opL", "idxuniq", o.t), mk("opI", "nuniq", o.n))
        if name == "nunique" and not args and not kw:
            return mk("opI", "nuniq", o.n)
        return self.opaque("idx." + name, st, node, ctx, o)

    # ------------------------------------------------------------ python values
    def items_method(self, items, o, name, args, kw, st, ctx, node):
        if name == "index" and args:
            x = args[0]
            if all(isinstance(i, T) for i in items) and isinstance(x, T):
                out = const(len(items) - 1)
                for k in range(len(items) - 2, -1, -1):
                    out = ite(compare("eq", items[k], x), const(k), out)
                nf = and_(*[not_(compare("eq", i, x)) for i in items])
                self.may_raise("ValueError", nf, st, node, ctx)
                return out
        if name == "count" and args and isinstance(args[0], T) and all(isinstance(i, T) for i in items):
            out = ZERO
            for i in items:
                out = add(out, ite(compare("eq", i, args[0]), ONE, ZERO))
            return out
        if name == "copy":
            return self.mklist(items, st)
        if name in ("issubset", "difference", "isdisjoint", "intersection") and len(args) == 1:
            gs = [self.contains(args[0], x, st, ctx, node) for x in items]
            if name == "issubset":
                return and_(*gs)
            if name == "isdisjoint":
                return and_(*[not_(g) for g in gs])
            gs = [not_(g) if name == "difference" else g for g in gs]
            n = ZERO
            for g in gs:
                n = add(n, ite(g, ONE, ZERO))
            return SeqV(n, None, ("cond", list(zip(gs, items))))
        if name == "tolist" and not args:
            return self.mklist(items, st)
        return self.opaque("tuple." + name, st, node, ctx, o)

    def rowv_method(self, o, name, args, kw, st, ctx, node):
        items, names = list(o.tag[1]), list(o.tag[2])
        if name in ("to_list", "tolist"):
            return self.mklist(items, st)
        if name in ("to_numpy", "copy", "ravel", "flatten"):
            return o
        if name in ("sum", "mean", "min", "max") and all(isinstance(x, T) for x in items):
            if name in ("min", "max"):
                return nary(name, items)
            r = ZERO
            for x in items:
                r = add(r, x)
            return div(r, const(len(items))) if name == "mean" else r
        if name in ("any", "all") and all(isinstance(x, T) for x in items):
            return (or_ if name == "any" else and_)(*[truth(x) for x in items])
        if name in ("isna", "isnull", "notna", "notnull", "round", "abs"):
            f = {"isna": self.isnan_t, "isnull": self.isnan_t, "notna": lambda t: not_(self.isnan_t(t)),
                 "notnull": lambda t: not_(self.isnan_t(t)), "abs": absv,
                 "round": lambda t: roundt(t, args[0] if args else ZERO)}[name]
            return SeqV(o.n, None, ("items", tuple(f(self.sig(x, st)) for x in items), tuple(names), ("row",)))
        if name == "astype" and len(args) == 1 and all(isinstance(x, T) for x in items):
            return SeqV(o.n, None, ("items", tuple(mk("astype", x, const(str(vkey(args[0])))) for x in items), tuple(names), ("row",)))
        if name == "fillna" and len(args) == 1 and isinstance(args[0], T) and all(isinstance(x, T) for x in items):
            return SeqV(o.n, None, ("items", tuple(ite(self.isnan_t(x), args[0], x) for x in items), tuple(names), ("row",)))
        if name == "dropna" and not args and all(isinstance(x, T) for x in items):
            gs = [not_(self.isnan_t(x)) for x in items]
            n = ZERO
            for g in gs:
                n = add(n, ite(g, ONE, ZERO))
            return SeqV(n, None, ("cond", list(zip(gs, items))))
        if name == "equals" and args and isinstance(args[0], SeqV) and args[0].tag and args[0].tag[0] == "items" \
                and all(isinstance(x, T) for x in items + list(args[0].tag[1])):
            if list(args[0].tag[2]) != names:
                return FALSE
            return and_(*[or_(compare("eq", x, y), and_(self.isnan_t(x), self.isnan_t(y)))
                          for x, y in zip(items, args[0].tag[1])])
        if name in ("to_dict",):
            return RefV(self.new(st, DictRec({("c", "str", (c,)): v for c, v in zip(names, items)})), "dict")
        if name == "items":
            return TupV([TupV([const(c), v]) for c, v in zip(names, items)])
        if name == "get" and args and isinstance(args[0], T):
            return self.row_get(o, args[0], st, ctx, node)
        if name in BINM and args and isinstance(args[0], T):
            return SeqV(o.n, None, ("items", tuple(self.binop(BINM[name], x, args[0], st, ctx, node) for x in items),
                                    tuple(names), ("row",)))
        if name == "index":
            return self.items_method(items, o, name, args, kw, st, ctx, node)
        return self.opaque("rowv." + name, st, node, ctx, TupV(items))

    def row_get(self, o, k, st, ctx, node):
        items, names = o.tag[1], o.tag[2]
        if isinstance(k, T) and is_const(k):
            nm = self.colname(k)
            for c, v in zip(names, items):
                if c == nm and type(c) is type(nm):
                    return v
            if isinstance(nm, int) and -len(items) <= nm < len(items):
                return items[nm]
        return self.opaque("rowget", st, node, ctx, k)

    def _getitem(self, o, k, st, ctx, node):
        if isinstance(o, SeqV) and o.tag and o.tag[0] == "items":
            if isinstance(k, T):
                return self.row_get(o, k, st, ctx, node)
            if isinstance(k, tuple) and k[0] == "slice" and all(x is NONE or is_num(x) for x in k[1:]):
                s = slice(*[None if x is NONE else int(num(x)) for x in k[1:]])
                return SeqV(const(len(o.tag[1][s])), None, ("items", o.tag[1][s], o.tag[2][s], ("row",)))
        if isinstance(o, SeqV) and o.tag and o.tag[0] == "where":
            if isinstance(k, T):
                self.check_row(k, ONE, st, node, ctx, "where()[]")
            return o.tag[1]
        return Model._getitem(self, o, k, st, ctx, node)

    def _getattr(self, o, name, st, ctx, node):
        if isinstance(o, SeqV) and o.tag and o.tag[0] == "items":
            if name in ("iloc", "iat", "loc", "at", "values", "array"):
                return o
            if name == "index":
                return TupV([const(c) for c in o.tag[2]])
            if name in o.tag[2]:
                return o.tag[1][list(o.tag[2]).index(name)]
        if isinstance(o, SeqV) and o.tag and o.tag[0] == "where" and name in ("size",):
            return st.heap[o.tag[1].arr].n
        return Model._getattr(self, o, name, st, ctx, node)

    def list_method(self, o, r, name, args, kw, st, ctx, node):
        A = lambda i, nm, d=None: self.arg(args, kw, i, nm, d)

        def wr():
            if r.tag is not None:
                self.emit("write_list", st, node, ctx, oid=o.oid, tag=r.tag)
        if name == "append":
            self.list_append(o, args[0], st, ctx, node)
            return NONE
        if name in ("ravel", "flatten") and r.items is not None:      # a grid of panels
            out = []
            for x in r.items:
                out += st.heap[x.oid].items if isinstance(x, RefV) and isinstance(st.heap.get(x.oid), ListRec) and \
                    st.heap[x.oid].items is not None else [x]
            return self.mklist(out, st)
        if name in ("extend",):
            self.list_extend(o, args[0], st, ctx, node)
            return NONE
        if name in ("add", "update", "discard", "remove", "insert", "pop", "clear", "reverse", "sort"):
            wr()
            items = list(r.items) if r.items is not None else None
            if name == "add" and items is not None:
                items.append(args[0])
            elif name == "insert" and items is not None and isinstance(args[0], T) and is_num(args[0]):
                items.insert(int(num(args[0])), args[1])
            elif name == "pop" and items is not None and (not args or is_num(args[0])):
                k = int(num(args[0])) if args else -1
                if items:
                    v = items.pop(k)
                    st.heap[o.oid] = ListRec(tuple(items), tag=r.tag, meta=r.meta)
                    return v
            elif name == "clear":
                items = []
            elif name == "reverse" and items is not None:
                items.reverse()
            elif name == "sort":
                if items is not None and all(isinstance(x, T) for x in items) and not kw:
                    st.heap[o.oid] = ListRec(self.sorted_items(items), tag=r.tag, meta="sorted")
                    return NONE
                items = None
            elif name == "remove" and items is not None and isinstance(args[0], T) and is_const(args[0]) \
                    and all(isinstance(x, T) and is_const(x) for x in items) and args[0] in items:
                items.remove(args[0])
            else:
                items = None
            if items is not None:
                st.heap[o.oid] = ListRec(tuple(items), tag=r.tag, meta=r.meta)
            else:
                st.heap[o.oid] = ListRec(t=mk("opS", "list." + name, self.list_term(r, st)),
                                         n=mk("opq", "len") if name != "sort" and name != "reverse" else
                                         (r.n if r.n is not None else const(len(r.items))), tag=r.tag)
                if name == "pop":
                    return mk("opq", "pop")
            return NONE
        if name == "copy":
            return RefV(self.new(st, ListRec(r.items, r.t, r.n, None, r.meta)), o.kind)
        if r.items is not None:
            if name == "index" and r.meta == "sorted":
                x = args[0]
                return mk("opL", "rankin", x, *[i for i in r.items])
            return self.items_method(list(r.items), o, name, args, kw, st, ctx, node)
        if name == "index":
            return mk("aggr", "firstpos", self.compare1("Eq", NpV(self.new(st, ArrRec(r.t, r.n))), args[0], st, ctx, node)
                      if False else compare("eq", r.t, self.sig(args[0], st)))
        return self.opaque("list." + name, st, node, ctx, o)

    def sorted_items(self, items):
        """ascending order statistics of a finite list"""
        if all(is_const(x) and x.op == "const" for x in items):
            return tuple(sorted(items, key=lambda x: num(x)))
        if all(x.op == "str" for x in items):
            return tuple(sorted(items, key=lambda x: x.args[0]))
        u = tuple(sorted(items, key=skey))
        return tuple(mk("opL", "orderstat", const(i), *u) for i in range(len(items)))

    def dict_method(self, o, r, name, args, kw, st, ctx, node):
        if name == "get":
            return self.dict_get(o, args[0], st, ctx, node, default=args[1] if len(args) > 1 else kw.get("default", NONE))
        if name == "keys":
            return TupV([self.unkey(k) for k in r.items])
        if name == "values":
            return TupV(list(r.items.values()))
        if name == "items":
            return TupV([TupV([self.unkey(k), v]) for k, v in r.items.items()])
        if name == "copy":
            return RefV(self.new(st, DictRec(r.items, None, r.open)), "dict")
        if name in ("update", "setdefault", "pop", "clear", "popitem"):
            self.emit("write_dict", st, node, ctx, oid=o.oid, tag=r.tag)
            d = dict(r.items)
            res = NONE
            if name == "update":
                src = args[0] if args else None
                if isinstance(src, RefV) and isinstance(st.heap.get(src.oid), DictRec):
                    d.update(st.heap[src.oid].items)
                for k, v in kw.items():
                    d[("c", "str", (k,))] = v
            elif name == "setdefault":
                k = self.dkey(args[0], st)
                res = d.setdefault(k, args[1] if len(args) > 1 else NONE)
            elif name == "pop":
                res = d.pop(self.dkey(args[0], st), args[1] if len(args) > 1 else mk("opq", "popped"))
            elif name == "clear":
                d = {}
            st.heap[o.oid] = DictRec(d, r.tag, r.open)
            return res
        return self.opaque("dict." + name, st, node, ctx, o)

    def ixr_method(self, o, name, args, kw, st, ctx, node):
        if o.kind in ("columns", "columns.str"):
            if isinstance(o.obj, RFrmV):
                t = st.heap[o.obj.oid].t
                x = mk("colname", t, mk("lv", "bC"))
                if name in ("tolist", "to_list", "copy"):
                    return o
                if o.kind == "columns.str":
                    return mk("colmap", t, mk("strop", name if name != "casefold" else "lower", x,
                                              *[self.sig(a, st) for a in args]), TRUE)
                if name == "map" and args:
                    f = args[0]
                    v = self.call(f, [x], {}, st, ctx, node)
                    return mk("colmap", t, self.sig(v, st), TRUE)
                if name == "isin":
                    return mk("opL", "colisin", t, self.sig(args[0], st))
                if name in ("difference", "intersection", "union"):
                    return mk("opL", "col" + name, t, self.sig(args[0], st))
                if name in ("get_loc",):
                    return mk("opL", "colloc", t, self.sig(args[0], st))
                return mk("opL", "col." + name, t, *[self.sig(a, st) for a in args])
            items = self.concrete_items(o, st)
            if items is not None:
                if o.kind == "columns.str":
                    return self.mklist([self.t_method(x, name, args, kw, st, ctx, node) for x in items], st)
                if name in ("tolist", "to_list", "copy"):
                    return self.mklist(items, st)
                if name in ("unique", "drop_duplicates") and all(is_const(x) for x in items):
                    return self.mklist([x for i, x in enumerate(items) if x not in items[:i]], st)
                if name in ("sort_values",) and not args and not kw and all(x.op == "str" for x in items if isinstance(x, T)):
                    return self.mklist(sorted(items, key=lambda x: x.args[0]), st)
                if name == "get_loc" and isinstance(args[0], T) and args[0] in items:
                    return const(items.index(args[0]))
                if name == "map":
                    return self.mklist([self.call(args[0], [x], {}, st, ctx, node) for x in items], st)
                if name in ("difference", "drop"):
                    its = [args[0]] if isinstance(args[0], T) else self.concrete_items(args[0], st)
                    if its is not None:
                        return self.mklist([x for x in items if x not in its], st)
        return self.opaque("ixr." + name, st, node, ctx, o.obj)

    def axes(self, args, kw, st):
        """panels of a figure: one, or a list of them"""
        r = self.arg(args, kw, 0, "nrows", ONE)
        c = self.arg(args, kw, 1, "ncols", ONE)
        if not (isinstance(r, T) and isinstance(c, T) and is_num(r) and is_num(c)):
            return mk("opq", "ext:axes")
        r, c = int(num(r)), int(num(c))
        sq = kw.get("squeeze", TRUE) is TRUE
        if sq and r * c == 1:
            return mk("ax", 0)
        if sq and (r == 1 or c == 1):
            return self.mklist([mk("ax", i) for i in range(r * c)], st)
        return self.mklist([self.mklist([mk("ax", i * c + j) for j in range(c)], st) for i in range(r)], st)

    def t_method(self, o, name, args, kw, st, ctx, node):
        if o.op == "ax" or self.is_gfx(o):
            self.emit("plot", st, node, ctx, what="." + name, args=args, kw=kw, ax=o.args[0] if o.op == "ax" else None)
            if name in ("twinx", "twiny"):
                return o
            if name == "get_legend_handles_labels":
                return TupV([mk("opq", "ext:handles"), mk("opq", "ext:labels")])
            return mk("opq", "ext:." + name)
        if o.op == "ite" and not o.series:
            return choice(o.args[0], self.t_method(o.args[1], name, args, kw, st, ctx, node),
                          self.t_method(o.args[2], name, args, kw, st, ctx, node))
        if o.op == "str" and name in STR_METHODS:
            if all(isinstance(a, T) and is_const(a) for a in args) and not kw:
                try:
                    r = getattr(o.args[0], name)(*[pyval(a) for a in args])
                    if isinstance(r, (str, bool, int)):
                        return const(r)
                    if isinstance(r, (list, tuple)):
                        return self.mklist([const(x) for x in r], st)
                except Exception:
                    pass
            if name == "format":
                return self.format(o.args[0], args, kw, st)
            if name == "join" and args:
                items = self.concrete_items(args[0], st)
                if items is not None and all(isinstance(x, T) for x in items):
                    parts = []
                    for i, x in enumerate(items):
                        if i and o.args[0]:
                            parts.append(o)
                        parts.append(x)
                    return self.strcat(parts)
        if name in STR_METHODS:
            if name == "casefold":
                name = "lower"
            return mk("strop", name, o, *[self.sig(a, st) for a in args])
        if name in ("item", "copy", "tolist", "conjugate"):
            return o
        if name == "is_integer":
            return const(True) if o.intk else mk("truthy", mk("opL", "is_integer", o))
        if name == "round" or name == "__round__":
            return roundt(o, args[0] if args else ZERO)
        if name in ("any", "all") and is_boolish(o) and not o.opq and o.op != "truthy":
            return o
        if name in BINM and args and isinstance(args[0], T):
            return self.binop(BINM[name], o, args[0], st, ctx, node)
        if name in ("max", "min", "sum", "mean") and not o.series and not args:
            return o
        if name in ("fit", "plot", "add_subplot"):
            pass
        if o.op == "ite" and all(x.op in ("opL", "opSF") for x in ite_leaves(o)):
            a, b = (self.t_method(x, name, args, kw, st, ctx, node) for x in o.args[1:])
            if isinstance(a, T) and isinstance(b, T):
                return ite(o.args[0], a, b)
        if o.op in ("opL", "opq") or o.opq:
            if not (o.op == "opq" and str(o.args[0]).startswith("ext:")):
                if o.op == "opL":
                    return mk("opL", "." + name, o, *([self.sig(a, st) for a in args] +
                                                      [mk("opL", "kw:" + k, self.sig(v, st)) for k, v in sorted(kw.items())]))
            return mk("opq", "ext:." + name, o) if len(args) > 6 else \
                mk("opq", "ext:." + name, o, *[self.sig(a, st) for a in args])
        if o.op == "opSF":
            if name in ("fillna", "ffill", "bfill"):
                self.emit("fill", st, node, ctx, how=name, t=o)
            if self.is_true(kw.get("inplace", FALSE)):
                self.emit("write_series", st, node, ctx, obj=o, what=name, tag=self.views.get(o.id))
            return mk("opSF", "." + name, o, *([self.sig(a, st) for a in args] + [mk("opL", "kw:" + k, self.sig(v, st))
                                                                                  for k, v in sorted(kw.items())]))
        return self.opaque("scalar." + name, st, node, ctx, o, *args)

    def format(self, fmt, args, kw, st):
        import string
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if field == "":
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                else:
                    v = kw[field]
                parts.append(self.to_str(v, st) if not spec and conv in (None, "s") else
                             self.spelled(v, spec, conv if conv not in (None, "s") else "", "%" + conv if conv and not spec else spec, st))
        except (KeyError, IndexError, ValueError):
            return mk("opq", "format", const(fmt))
        return self.strcat(parts)

    # ---------------------------------------------------------------- functions
    def call_ext(self, path, args, kw, st, ctx, node):
        A = lambda i, nm, d=None: self.arg(args, kw, i, nm, d)
        for p in NONDET:
            if path == p or path.startswith(p + "."):
                mut = [a for a in list(args) + list(kw.values()) if isinstance(a, (SerV, NpV, FrmV, Np2V, RefV, RFrmV))]
                self.emit("nondet", st, node, ctx, what=path, mutable=bool(mut) and leaf_of(path) in ("shuffle", "fill"))
                return mk("opq", "nondet:" + path)
        for p in IO:
            if path == p or path.startswith(p + "."):
                self.emit("io", st, node, ctx, what=path)
                return mk("opq", "io:" + path)
        top = path.split(".")[0]
        leaf = path.split(".")[-1]
        if "." not in path:
            h = getattr(self, "b_" + path, None)
            if h is not None:
                # distribute over selections in the arguments
                if any(isinstance(a, ChoiceV) for a in args) and path not in ("isinstance", "list", "str", "type", "print", "hasattr"):
                    return self.lift(lambda s, *aa: h(list(aa), kw, s, ctx, node), st, *args)
                return h(args, kw, st, ctx, node)
            from .interp import EXC_BASES
            if leaf in EXC_BASES or leaf.endswith(("Error", "Exception", "Warning")):
                return ExcV(leaf, {i: a for i, a in enumerate(args)}, EXC_BASES.get(leaf, ("Exception",)))
            return self.opaque("builtin:" + path, st, node, ctx, *args)
        if path == "numpy.issubdtype" and len(args) == 2 and isinstance(args[0], T) and args[0].op == "opL" \
                and args[0].args[0] == "dtype" and isinstance(args[1], ExtV):
            return mk("truthy", mk("opL", "issubdtype:" + args[1].path.split(".")[-1], args[0]))
        if top == "pandas":
            r = self.pd_call(leaf, path, args, kw, st, ctx, node)
            if r is not None:
                return r
        if top == "numpy":
            r = self.np_call(leaf, path, args, kw, st, ctx, node)
            if r is not None:
                return r
        if top == "math":
            r = self.math_call(leaf, args, kw, st, ctx, node)
            if r is not None:
                return r
        if top == "statsmodels":
            r = self.sm_call(leaf, args, kw, st, ctx, node)
            if r is not None:
                return r
        if top == "matplotlib":
            self.emit("plot", st, node, ctx, what=path, args=args, kw=kw, ax=None)
            if leaf == "subplots":
                return TupV([mk("opq", "ext:figure"), self.axes(args, kw, st)])
            return mk("opq", "ext:" + path)
        if top == "copy" and args:
            return self.deepcopy(args[0], st)
        if top == "warnings":
            return NONE
        if top == "str" and args and isinstance(args[0], T):
            return self.t_method(args[0], leaf, args[1:], kw, st, ctx, node)
        if top == "object":
            return NONE
        if top == "dict" and leaf == "fromkeys":
            items = self.concrete_items(args[0], st)
            if items is not None:
                return RefV(self.new(st, DictRec({self.dkey(k, st): (args[1] if len(args) > 1 else NONE) for k in items})), "dict")
        if top == "functools" and leaf in ("partial",):
            f = args[0]
            rest, k0 = list(args[1:]), dict(kw)
            return self.mk_partial(f, rest, k0, st, ctx, node)
        if top == "functools" and leaf == "reduce" and len(args) >= 2:
            items = self.concrete_items(args[1], st)
            if items is not None:
                acc = args[2] if len(args) > 2 else items.pop(0)
                for x in items:
                    acc = self.call(args[0], [acc, x], {}, st, ctx, node)
                return acc
        if top == "operator" and len(args) == 2:
            m = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div"}.get(leaf)
            if m:
                return self.binop(m, args[0], args[1], st, ctx, node)
            m = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}.get(leaf)
            if m:
                return self.compare1(m, args[0], args[1], st, ctx, node)
        if top == "importlib" or top == "typing" or top == "abc" or top == "collections" or top == "dataclasses":
            return mk("opq", "ext:" + path)
        if top == "contextlib":
            return mk("opq", "ext:" + path)
        self.emit("unknown_call", st, node, ctx, what=path, args=args)
        return self.opaque("call:" + path, st, node, ctx, *args)

    def mk_partial(self, f, rest, k0, st, ctx, node):
        fn = ast.parse("lambda *a, **k: None", mode="eval").body
        return mk("opq", "partial")

    def deepcopy(self, v, st):
        if isinstance(v, FrmV):
            rec = st.heap[v.oid]
            return self.frame(st, [(c, st.heap[a].t) for c, a in rec.cols], rec.idx, rec.n, rec.order)
        if isinstance(v, RFrmV):
            rec = st.heap[v.oid]
            return RFrmV(self.new(st, RFrmRec(rec.t, None, rec.extra)))
        if isinstance(v, SerV):
            r = st.heap[v.arr]
            return self.ser(st, r.t, r.n, v.idx, v.name)
        if isinstance(v, NpV):
            r = st.heap[v.arr]
            return self.npv(st, r.t, r.n)
        if isinstance(v, RefV):
            r = st.heap.get(v.oid)
            if isinstance(r, ListRec):
                return RefV(self.new(st, ListRec(tuple(self.deepcopy(x, st) for x in r.items) if r.items is not None else None,
                                                 r.t, r.n, None, r.meta)), v.kind)
            if isinstance(r, DictRec):
                return RefV(self.new(st, DictRec({k: self.deepcopy(x, st) for k, x in r.items.items()}, None, r.open)), v.kind)
        return v

    # builtins ----------------------------------------------------------------
    def b_len(self, args, kw, st, ctx, node):
        return self.length(args[0], st)

    def b_int(self, args, kw, st, ctx, node):
        if not args:
            return ZERO
        v = args[0]
        if isinstance(v, T):
            if is_boolish(v):
                return ite(v, ONE, ZERO) if not is_const(v) else const(1 if v is TRUE else 0)
            if v.op == "ite" and not v.series:
                return ite(v.args[0], self.b_int([v.args[1]], kw, st, ctx, node), self.b_int([v.args[2]], kw, st, ctx, node))
            if is_num(v):
                return const(int(num(v)))
            if v.intk:
                return v
            self.emit("needs_number", st, node, ctx, arg=v, what="int()", caught=ctx.catches("ValueError"))
            if self.entails(st, compare("ge", v, ZERO)):
                return floor_(v)
            return mk("trunc", v)
        return self.opaque("int", st, node, ctx, v)

    def b_float(self, args, kw, st, ctx, node):
        v = args[0] if args else ZERO
        if isinstance(v, T):
            if v.op == "str":
                s = v.args[0].strip().lower()
                if s in ("nan",):
                    return NAN
                if s in ("inf", "+inf", "infinity"):
                    return mk("inf", 1)
                if s == "-inf":
                    return mk("inf", -1)
            if is_boolish(v):
                return ite(v, ONE, ZERO)
            if v.op == "param" and v.args[1] == "any":
                return mk("opL", "float", v)
            return v
        return self.opaque("float", st, node, ctx, v)

    def b_bool(self, args, kw, st, ctx, node):
        return self.truthv(args[0], st, ctx, node) if args else FALSE

    def b_str(self, args, kw, st, ctx, node):
        if not args:
            return const("")
        return self.to_str(args[0], st, node.args[0] if isinstance(node, ast.Call) and node.args else None)

    def b_repr(self, args, kw, st, ctx, node):
        return mk("strop", "repr", self.sig(args[0], st))

    def b_round(self, args, kw, st, ctx, node):
        v = args[0]
        nd = self.arg(args, kw, 1, "ndigits", ZERO)
        if nd is NONE:
            nd = ZERO
        if isinstance(v, T):
            if len(args) < 2 and "ndigits" not in kw and not v.series and not v.intk:
                self.emit("needs_number", st, node, ctx, arg=v, what="round()", caught=ctx.catches("ValueError"))
            return roundt(v, nd)
        if isinstance(v, (SerV, NpV, FrmV)):
            return self.call_method(v, "round", [nd], {}, st, ctx, node)
        return self.opaque("round", st, node, ctx, v)

    def b_abs(self, args, kw, st, ctx, node):
        v = args[0]
        if isinstance(v, T):
            return absv(v)
        return self.mapv(v, absv, st)

    def seq_items_for_agg(self, v, st):
        """finite pieces + symbolic sequences of v"""
        items = self.concrete_items(v, st)
        if items is not None:
            return items, []
        if isinstance(v, RefV) and isinstance(st.heap.get(v.oid), ListRec):
            r = st.heap[v.oid]
            if r.meta and isinstance(r.meta, tuple) and r.meta[0] == "pieces":
                fin, sym = [], []
                for p in r.meta[1]:
                    f, s = self.seq_items_for_agg(p, st)
                    if f is None:
                        return None, None
                    fin += f
                    sym += s
                return fin, sym
            return [], [(r.t, r.n)]
        if isinstance(v, (SerV, NpV)):
            r = st.heap[v.arr]
            return [], [(r.t, r.n)]
        if isinstance(v, SeqV) and v.tag and v.tag[0] == "gen" and v.tag[5] is TRUE and isinstance(v.tag[7], T):
            _, uid, lo, hi, step, filt, t, val = v.tag
            return [], [(self.seq_term(v, st), self.range_count(lo, hi, step))]
        return None, None

    def minmax(self, kind, args, kw, st, ctx, node):
        if len(args) == 1:
            v = args[0]
            fin, sym = self.seq_items_for_agg(v, st)
            if fin is None:
                if isinstance(v, SeqV) and v.tag and v.tag[0] == "cond":
                    return mk("opq", "condminmax")
                return self.opaque(kind, st, node, ctx, v)
            if all(isinstance(x, T) for x in fin):
                xs = list(fin)
                for t, n in sym:
                    if not fin and not self.nonempty(n, st):
                        self.emit("empty_agg", st, node, ctx, cond=compare("le", n, ZERO), what="builtin " + kind)
                        if "default" not in kw:
                            self.may_raise("ValueError", compare("le", n, ZERO), st, node, ctx)
                    xs.append(self.aggr(kind + "_py", t, n, st) if not (is_num(n) and num(n) <= 8)
                              else self.aggr(kind + "_np", t, n, st))
                if xs:
                    return nary(kind, xs)
            return self.opaque(kind, st, node, ctx, v)
        ds = [self.date_term(a) for a in args]
        if len(ds) == 2 and all(d is not None for d in ds) and any(not (isinstance(a, T) and a.op == "param") for a in args):
            return ite(compare("le" if kind == "min" else "ge", ds[0], ds[1]), ds[0], ds[1])
        if all(isinstance(a, T) for a in args):
            return nary(kind, list(args))
        return self.opaque(kind, st, node, ctx, *args)

    def b_max(self, args, kw, st, ctx, node):
        return self.minmax("max", args, kw, st, ctx, node)

    def b_min(self, args, kw, st, ctx, node):
        return self.minmax("min", args, kw, st, ctx, node)

    def b_sum(self, args, kw, st, ctx, node):
        v = args[0]
        init = self.arg(args, kw, 1, "start", ZERO)
        if isinstance(v, SeqV) and v.tag and v.tag[0] == "gen":
            _, uid, lo, hi, step, filt, t, val = v.tag
            if isinstance(val, T):
                if is_boolish(t):
                    t = ite(t, ONE, ZERO)
                body = t if filt is TRUE else ite(filt, t, ZERO)
                return add(init, self.mk_sumrange(uid, lo, hi, step, body))
        if isinstance(v, SeqV) and v.tag and v.tag[0] == "cond":
            r = init
            for c, x in v.tag[1]:
                if not isinstance(x, T):
                    return self.opaque("sum", st, node, ctx, v)
                r = add(r, ite(c, x if not is_boolish(x) else ite(x, ONE, ZERO), ZERO))
            return r
        fin, sym = self.seq_items_for_agg(v, st)
        if fin is not None and all(isinstance(x, T) for x in fin):
            r = init
            for x in fin:
                r = add(r, ite(x, ONE, ZERO) if is_boolish(x) and not is_const(x) else x)
            for t, n in sym:
                r = add(r, self.count_of(t) if is_boolish(t) else self.aggr("sum_np", t, n, st))
            return r
        if fin and not sym and all(isinstance(x, (T, SerV, NpV)) for x in fin):
            r = init
            for x in fin:
                r = self.binop("Add", r, x, st, ctx, node)
            return r
        return self.opaque("sum", st, node, ctx, v)

    def gen_bool(self, v, st, isany, ctx, node):
        if isinstance(v, SeqV) and v.tag and v.tag[0] == "gen":
            _, uid, lo, hi, step, filt, t, val = v.tag
            t = truth(t)
            if isany:
                return self.mk_exists(uid, lo, hi, step, and_(filt, t))
            return not_(self.mk_exists(uid, lo, hi, step, and_(filt, not_(t))))
        if isinstance(v, SeqV) and v.tag and v.tag[0] == "cond":
            ts = [(c, self.truthv(x, st, ctx, node)) for c, x in v.tag[1]]
            return or_(*[and_(c, x) for c, x in ts]) if isany else and_(*[or_(not_(c), x) for c, x in ts])
        items = self.concrete_items(v, st)
        if items is not None:
            ts = [self.truthv(x, st, ctx, node) for x in items]
            return or_(*ts) if isany else and_(*ts)
        if isinstance(v, (SerV, NpV)):
            return self.vec_agg(v, "any" if isany else "all", [], {}, st, ctx, node)
        return mk("truthy", self.opaque("any" if isany else "all", st, node, ctx, v))

    def b_any(self, args, kw, st, ctx, node):
        return self.gen_bool(args[0], st, True, ctx, node)

    def b_all(self, args, kw, st, ctx, node):
        return self.gen_bool(args[0], st, False, ctx, node)

    def b_list(self, args, kw, st, ctx, node):
        if not args:
            return self.mklist([], st)
        v = args[0]

        def f(s, v):
            items = self.concrete_items(v, s)
            if items is not None:
                return self.mklist(items, s)
            if isinstance(v, SeqV):
                return self.seq_to_list(v, s, ctx)
            if isinstance(v, RangeV):
                return RefV(self.new(s, ListRec(t=add(v.lo, mul(v.step, ROW)), n=self.range_count(v.lo, v.hi, v.step))), "list")
            if isinstance(v, (SerV, NpV)):
                r = s.heap[v.arr]
                return RefV(self.new(s, ListRec(t=r.t, n=r.n)), "list")
            if isinstance(v, RefV) and isinstance(s.heap.get(v.oid), ListRec):
                r = s.heap[v.oid]
                return RefV(self.new(s, ListRec(r.items, r.t, r.n, None, r.meta)), "list")
            if isinstance(v, IdxV):
                return SeqV(v.n, lambda i, s2: LabelV(v.t, i))
            if isinstance(v, IxrV) and v.kind == "columns":
                return v
            if isinstance(v, T):
                return mk("opL", "list", v) if not v.opq else mk("opq", "ext:list", v)
            return self.opaque("list", s, node, ctx, v)
        return self.lift(f, st, v)

    def b_tuple(self, args, kw, st, ctx, node):
        if not args:
            return TupV([])
        items = self.concrete_items(args[0], st)
        if items is not None:
            return TupV(items)
        return self.b_list(args, kw, st, ctx, node)

    def b_set(self, args, kw, st, ctx, node):
        items = self.concrete_items(args[0], st) if args else []
        if items is not None:
            out = []
            for x in items:
                if not any(vkey(x) == vkey(y) for y in out):
                    out.append(x)
            return RefV(self.new(st, ListRec(tuple(out), meta="set")), "set")
        if isinstance(args[0], (IxrV, T)):
            return mk("opL", "set", self.sig(args[0], st) if not isinstance(args[0], IxrV) else
                      mk("colset", self.sig(args[0].obj, st)))
        return self.opaque("set", st, node, ctx, args[0])

    b_frozenset = b_set

    def b_dict(self, args, kw, st, ctx, node):
        d = {}
        if args:
            v = args[0]
            if isinstance(v, RefV) and isinstance(st.heap.get(v.oid), DictRec):
                d.update(st.heap[v.oid].items)
            else:
                items = self.concrete_items(v, st)
                if items is None:
                    return self.opaque("dict", st, node, ctx, v)
                for it in items:
                    p = self.concrete_items(it, st)
                    if p is None or len(p) != 2:
                        return self.opaque("dict", st, node, ctx, v)
                    d[self.dkey(p[0], st)] = p[1]
        for k, v in kw.items():
            d[("c", "str", (k,))] = v
        return RefV(self.new(st, DictRec(d)), "dict")

    def b_range(self, args, kw, st, ctx, node):
        if not all(isinstance(a, T) for a in args):
            return self.opaque("range", st, node, ctx, *args)
        if len(args) == 1:
            return RangeV(ZERO, args[0], ONE)
        return RangeV(args[0], args[1], args[2] if len(args) > 2 else ONE)

    def b_enumerate(self, args, kw, st, ctx, node):
        start = self.arg(args, kw, 1, "start", ZERO)
        items = self.concrete_items(args[0], st)
        if items is not None:
            return TupV([TupV([add(start, const(i)), x]) for i, x in enumerate(items)])
        s = self.as_seq(args[0], st, ctx, node)
        if s is not None:
            lo, hi, step, g = s
            if is_num(step) and num(step) == 1:
                return SeqV(sub(hi, lo), lambda i, b: TupV([add(start, i), g(add(lo, i), b)]))
            return SeqV(self.range_count(lo, hi, step),
                        lambda i, b: TupV([add(start, i), g(add(lo, mul(step, i)), b)]))
        return self.opaque("enumerate", st, node, ctx, args[0])

    def b_zip(self, args, kw, st, ctx, node):
        its = [self.concrete_items(a, st) for a in args]
        if all(i is not None for i in its):
            return TupV([TupV(x) for x in zip(*its)])
        ss = []
        for a, i in zip(args, its):
            s = self.as_seq(a, st, ctx, node)
            if s is None:
                return self.opaque("zip", st, node, ctx, *args)
            lo, hi, step, g = s
            ss.append((self.range_count(lo, hi, step),
                       (lambda i, b, lo=lo, step=step, g=g: g(add(lo, mul(step, i)), b))))
        n = tmin(*[c for c, _ in ss])
        for c, _ in ss:
            if all(self.entails(st, compare("le", c, d)) for d, _ in ss):
                n = c
                break
        return SeqV(n, lambda i, b: TupV([f(i, b) for _, f in ss]))

    def b_reversed(self, args, kw, st, ctx, node):
        items = self.concrete_items(args[0], st)
        if items is not None:
            return TupV(items[::-1])
        v = args[0]
        if isinstance(v, RangeV) and is_num(v.step) and num(v.step) in (1, -1):
            return RangeV(sub(v.hi, v.step), sub(v.lo, v.step), neg(v.step))
        s = self.as_seq(v, st, ctx, node)
        if s is not None and is_num(s[2]) and num(s[2]) == 1:
            lo, hi, step, g = s
            return SeqV(sub(hi, lo), lambda i, b: g(sub(sub(hi, ONE), i), b))
        return self.opaque("reversed", st, node, ctx, v)

    def b_sorted(self, args, kw, st, ctx, node):
        items = self.concrete_items(args[0], st)
        if items is not None and all(isinstance(x, T) for x in items) and "key" not in kw:
            out = list(self.sorted_items(items))
            if self.is_true(kw.get("reverse", FALSE)):
                out = out[::-1]
            r = self.mklist(out, st)
            return r
        if isinstance(args[0], (SerV, NpV)):
            r = st.heap[args[0].arr]
            return RefV(self.new(st, ListRec(t=mk("opS", "sort", r.t, TRUE), n=r.n)), "list")
        return self.opaque("sorted", st, node, ctx, args[0])

    def b_map(self, args, kw, st, ctx, node):
        items = self.concrete_items(args[1], st)
        if items is not None and len(args) == 2:
            return self.mklist([self.call(args[0], [x], {}, st, ctx, node) for x in items], st)
        if isinstance(args[1], IxrV) and args[1].kind == "columns" and isinstance(args[1].obj, RFrmV):
            t = st.heap[args[1].obj.oid].t
            v = self.call(args[0], [mk("colname", t, mk("lv", "bC"))], {}, st, ctx, node)
            return mk("colmap", t, self.sig(v, st), TRUE)
        s = self.as_seq(args[1], st, ctx, node)
        if s is not None and len(args) == 2:
            lo, hi, step, g = s
            uid = self.fresh()
            lv = mk("lv", uid)
            self.lvrange[uid] = (lo, hi, step)
            v = self.call(args[0], [g(lv, st)], {}, st, ctx, node)
            return SeqV(self.range_count(lo, hi, step), None, ("gen", uid, lo, hi, step, TRUE, self.sig(v, st), v))
        return self.opaque("map", st, node, ctx, *args)

    def b_filter(self, args, kw, st, ctx, node):
        items = self.concrete_items(args[1], st)
        if items is not None:
            out = []
            for x in items:
                c = truth(self.sig(self.call(args[0], [x], {}, st, ctx, node), st)) if not (isinstance(args[0], T)) else self.truthv(x, st, ctx, node)
                if c is TRUE:
                    out.append(x)
                elif c is not FALSE:
                    return self.opaque("filter", st, node, ctx)
            return self.mklist(out, st)
        return self.opaque("filter", st, node, ctx, args[1])

    def b_type(self, args, kw, st, ctx, node):
        if len(args) == 1:
            if isinstance(args[0], RefV) and isinstance(st.heap.get(args[0].oid), InstRec):
                return ClsV(st.heap[args[0].oid].cls)
            return IxrV("type", args[0])
        return mk("opq", "type3")

    TYPES = {"int": "int", "float": "float", "str": "str", "bool": "bool", "NoneType": "NoneType",
             "DataFrame": "DataFrame", "Series": "Series", "ndarray": "ndarray", "list": "list", "tuple": "tuple",
             "dict": "dict", "DatetimeIndex": "DatetimeIndex", "complex": "complex", "object": "object",
             "Number": "Number", "Real": "Real", "Integral": "Integral", "integer": "npint", "floating": "npfloat",
             "int64": "npint64", "float64": "npfloat64"}

    def type_names(self, v, st):
        if isinstance(v, TupV):
            out = []
            for x in v.items:
                r = self.type_names(x, st)
                if r is None:
                    return None
                out += r
            return out
        if isinstance(v, IxrV) and v.kind == "type":
            if v.obj is NONE:
                return ["NoneType"]
            k = self.static_type(v.obj, st) if not isinstance(v.obj, T) else self.static_type(v.obj)
            return [k] if k else None
        nm = self.type_name(v)
        return [nm] if nm is not None else None

    def b_isinstance(self, args, kw, st, ctx, node):
        v, c = args
        names = self.type_names(c, st)
        if names is None:
            return mk("truthy", self.opaque("isinstance", st, node, ctx, v, c))
        return self.isinst(v, names, st)

    def isinst(self, v, names, st):
        if isinstance(v, ChoiceV):
            return ite(v.c, self.isinst(v.a, names, st), self.isinst(v.b, names, st))
        if "object" in names:
            return TRUE
        if isinstance(v, T):
            if v.op == "ite" and not v.series:
                return ite(v.args[0], self.isinst(v.args[1], names, st), self.isinst(v.args[2], names, st))
            if v.op == "param" and v.args[1] == "any":
                return or_(*[mk("isinst", v, self.TYPES.get(n, n)) for n in names])
            if v.op in ("opL", "opSF", "colname") :
                return or_(*[mk("isinst", v, self.TYPES.get(n, n)) for n in names])
            k = self.static_type(v)
            if k is None:
                if v.opq:
                    return mk("truthy", mk("opq", "isinst", v, const(names[0])))
                k = "float"
            return const(k in names or (k == "bool" and "int" in names))
        if isinstance(v, RFrmV):
            return or_(*[mk("isinst", st.heap[v.oid].t, self.TYPES.get(n, n)) for n in names])
        if isinstance(v, RefV) and isinstance(st.heap.get(v.oid), InstRec):
            return const(any(c.name in names for c in st.heap[v.oid].cls.mro()))
        if isinstance(v, ExcV):
            return const(v.cls in names or any(b in names for b in v.bases))
        k = self.static_type(v, st)
        return const(k in names) if k else FALSE

    def b_issubclass(self, args, kw, st, ctx, node):
        return mk("truthy", mk("opq", "issubclass"))

    def b_hasattr(self, args, kw, st, ctx, node):
        o, nm = args
        if isinstance(o, RefV) and isinstance(st.heap.get(o.oid), InstRec) and isinstance(nm, T) and nm.op == "str":
            r = st.heap[o.oid]
            return const(nm.args[0] in r.attrs or r.cls.find(nm.args[0])[0] is not None)
        if isinstance(o, ClsV) and isinstance(nm, T) and nm.op == "str":
            return const(o.info.find(nm.args[0])[0] is not None)
        return mk("truthy", mk("opL", "hasattr", self.sig(o, st), self.sig(nm, st)))

    def b_getattr(self, args, kw, st, ctx, node):
        o, nm = args[0], args[1]
        if isinstance(nm, T) and nm.op == "str":
            if len(args) > 2 and isinstance(o, RefV) and isinstance(st.heap.get(o.oid), InstRec):
                r = st.heap[o.oid]
                if nm.args[0] not in r.attrs and r.cls.find(nm.args[0])[0] is None:
                    return args[2]
            if len(args) > 2 and isinstance(o, ClsV) and o.info.find(nm.args[0])[0] is None:
                return args[2]
            return self.getattr(o, nm.args[0], st, ctx, node)
        if isinstance(nm, T) and nm.op == "ite":
            return self.join(nm.args[0], self.b_getattr([o, nm.args[1]] + list(args[2:]), kw, st, ctx, node),
                             self.b_getattr([o, nm.args[2]] + list(args[2:]), kw, st, ctx, node), st)
        return self.opaque("getattr", st, node, ctx, o)

    def b_setattr(self, args, kw, st, ctx, node):
        o, nm, v = args
        if isinstance(nm, T) and nm.op == "str":
            self.setattr(o, nm.args[0], v, st, ctx, node)
        else:
            self.emit("unknown_write", st, node, ctx, obj=o)
        return NONE

    def b_print(self, args, kw, st, ctx, node):
        return NONE

    def b_id(self, args, kw, st, ctx, node):
        self.emit("nondet", st, node, ctx, what="id()")
        return mk("opq", "nondet:id")

    def b_hash(self, args, kw, st, ctx, node):
        self.emit("nondet", st, node, ctx, what="hash()")
        return mk("opq", "nondet:hash")

    def b_callable(self, args, kw, st, ctx, node):
        return const(isinstance(args[0], (FnV, ClsV, ExtV, BoundV)))

    def b_divmod(self, args, kw, st, ctx, node):
        return TupV([self.binop("FloorDiv", args[0], args[1], st, ctx, node),
                     self.binop("Mod", args[0], args[1], st, ctx, node)])

    def b_pow(self, args, kw, st, ctx, node):
        return self.binop("Pow", args[0], args[1], st, ctx, node)

    def b_iter(self, args, kw, st, ctx, node):
        return args[0]

    def b_next(self, args, kw, st, ctx, node):
        """next(generator[, default]): first element satisfying the filter"""
        v = args[0]
        dflt = args[1] if len(args) > 1 else None
        if isinstance(v, SeqV) and v.tag and v.tag[0] == "gen":
            _, uid, lo, hi, step, filt, t, val = v.tag
            if isinstance(val, T):
                if dflt is not None and not isinstance(dflt, T):
                    c = self.mk_exists(uid, lo, hi, step, filt)
                    return choice(c, self.mk_search(uid, lo, hi, step, filt, t, NONE), dflt)
                d = dflt if dflt is not None else NONE
                if dflt is None:
                    self.may_raise("StopIteration", not_(self.mk_exists(uid, lo, hi, step, filt)), st, node, ctx)
                return self.mk_search(uid, lo, hi, step, filt, t, d)
        if isinstance(v, SeqV) and v.tag and v.tag[0] == "cond":
            out = dflt if dflt is not None else mk("opq", "stop")
            for c, x in reversed(v.tag[1]):
                out = choice(c, x, out)
            return out
        items = self.concrete_items(v, st)
        if items:
            return items[0]
        if items == [] and dflt is not None:
            return dflt
        return self.opaque("next", st, node, ctx, v)

    def b_slice(self, args, kw, st, ctx, node):
        a = list(args)
        if len(a) == 1:
            a = [NONE] + a
        a += [NONE] * (3 - len(a))
        return SeqV(const(3), None, ("slice", a))

    def b_vars(self, args, kw, st, ctx, node):
        self.emit("unknown_write", st, node, ctx, obj=args[0] if args else NONE)
        return mk("opq", "vars")

    def b_super(self, args, kw, st, ctx, node):
        return mk("opq", "super")

    def b_property(self, args, kw, st, ctx, node):
        return mk("opq", "property")

    # pandas -----------------------------------------------------------------
    def to_index(self, ix, st):
        """-> (index term, n) or None"""
        if isinstance(ix, IdxV):
            return ix.t, ix.n
        if isinstance(ix, RangeV):
            return self.rng_idx(self.range_count(ix.lo, ix.hi, ix.step)), self.range_count(ix.lo, ix.hi, ix.step)
        if isinstance(ix, RefV):
            items = self.concrete_items(ix, st)
            if items is not None:
                return mk("ilabels", *[self.sig(x, st) for x in items]), const(len(items))
        if isinstance(ix, SeqV) and ix.fn is not None:
            x = ix.fn(ZERO, st)
            if isinstance(x, LabelV):
                return x.idx, ix.n
        return None

    def pd_call(self, leaf, path, args, kw, st, ctx, node):
        A = lambda i, nm, d=None: self.arg(args, kw, i, nm, d)
        if leaf == "DataFrame":
            return self.pd_frame(A(0, "data", NONE), A(1, "index", NONE), A(2, "columns", NONE), A(3, "dtype", NONE),
                                 st, ctx, node, copy=A(4, "copy", NONE))
        if leaf == "Series":
            return self.pd_series(A(0, "data", NONE), A(1, "index", NONE), A(3, "name", NONE), st, ctx, node,
                                  A(2, "dtype", NONE))
        if leaf == "concat":
            objs = A(0, "objs")
            d = st.heap.get(objs.oid) if isinstance(objs, RefV) else None
            if isinstance(d, DictRec) and not d.open and "keys" not in kw and all(k[0] == "c" for k in d.items):
                kw = dict(kw, keys=self.mklist([mk(k[1], *k[2]) for k in d.items], st))
                return self.concat(list(d.items.values()), A(1, "axis", ZERO), st, ctx, node, kw)
            items = self.concrete_items(objs, st) if not isinstance(objs, FrmV) else None
            if items is not None:
                return self.concat(items, A(1, "axis", ZERO), st, ctx, node, kw)
            return self.opaque("concat", st, node, ctx, objs)
        if leaf in ("to_datetime", "Timestamp"):
            v = args[0]
            if isinstance(v, (LabelV, IdxV)):
                return v
            if isinstance(v, T) and v.op == "str" and v.args[0].strip().lower() in ("now", "today"):
                self.emit("nondet", st, node, ctx, what="the current time")
                return mk("opq", "nondet:the current time")
            if isinstance(v, T) and any(x.op == "param" and x.args[1] == "any" for x in subterms(v)) and "errors" not in kw:
                strict = [mk("opL", "kw:" + k, kw[k]) for k in ("format", "unit") if isinstance(kw.get(k), T) and kw[k] is not NONE]
                self.may_raise("ValueError", mk("opb", "notdate", v, *strict), st, node, ctx)
            return mk("opL", "to_datetime", self.sig(v, st), *([mk("opL", "kw:" + k, self.sig(x, st)) for k, x in sorted(kw.items())]))
        if leaf in ("Timedelta", "DateOffset") and not args and len(kw) == 1 and set(kw) <= {"days", "hours", "minutes"}:
            return mul(next(iter(kw.values())), mk("opL", "span", const(next(iter(kw)))))
        if leaf in ("isna", "isnull", "notna", "notnull"):
            v = args[0]
            f = self.isnan_t if leaf in ("isna", "isnull") else (lambda t: not_(self.isnan_t(t)))
            if isinstance(v, T):
                if v.op == "none":
                    return const(leaf in ("isna", "isnull"))
                return f(v)
            return self.mapv(v, f, st)
        if leaf == "is_numeric_dtype":
            return mk("truthy", mk("opL", "is_numeric_dtype", self.sig(args[0], st)))
        if leaf in ("to_numeric",):
            if isinstance(args[0], T) and args[0].op == "opSF":
                return mk("opSF", ".to_numeric", args[0], A(1, "errors", mk("str", "raise")))
            return args[0]
        if leaf.startswith("is_") and len(args) == 1:
            return mk("truthy", mk("opL", leaf, self.sig(args[0], st)))
        if leaf in ("merge",):
            a, b = A(0, "left"), A(1, "right")
            if isinstance(a, FrmV) and isinstance(b, FrmV) and self.is_true(kw.get("left_index", FALSE)):
                return self.concat([a, b], ONE, st, ctx, node)
        if leaf in ("set_option", "option_context"):
            self.emit("write_global", st, node, ctx, name="pandas." + leaf)
            return mk("opq", "ext:pd." + leaf)
        if leaf == "Index" or leaf == "DatetimeIndex":
            return args[0] if args else mk("opq", "index")
        if "read_" in leaf:
            self.emit("io", st, node, ctx, what=path)
            return mk("opq", "io:" + path)
        # unbound method: pd.Series.abs(x)
        if ".Series." in path or ".DataFrame." in path:
            return self.call_method(args[0], leaf, args[1:], kw, st, ctx, node)
        return None

    def pd_series(self, data, index, name, st, ctx, node, dtype=NONE):
        nm = self.colname(name) if isinstance(name, T) and name is not NONE else None
        ix = self.to_index(index, st) if index is not NONE else None

        def f(s, data):
            if isinstance(data, SerV):
                r = s.heap[data.arr]
                if ix is None:
                    return self.ser(s, r.t, r.n, data.idx, nm or data.name)
                return self.ser(s, self.align(data, ix[0], ix[1], s, node, ctx), ix[1], ix[0], nm or data.name)
            if isinstance(data, T) and not data.series:
                if ix is None:
                    return self.ser(s, NAN if data is NONE else data, ONE if data is not NONE else ZERO,
                                    self.rng_idx(ONE), nm)
                return self.ser(s, NAN if data is NONE else data, ix[1], ix[0], nm)
            if isinstance(data, RefV) and isinstance(s.heap.get(data.oid), DictRec):
                d = s.heap[data.oid]
                return SeqV(const(len(d.items)), None, ("items", tuple(d.items.values()),
                                                        tuple(k[2][0] if k[0] == "c" else str(k) for k in d.items), ("row",)))
            n = self.length(data, s)
            t = self.plain(data, s, node, ctx)
            return self.ser(s, t, ix[1] if ix is not None else n, ix[0] if ix is not None else self.rng_idx(n), nm)
        r = self.lift(f, st, data)
        if dtype is not NONE and isinstance(r, SerV):
            dt = self.dtype_name(dtype)
            if dt not in ("float", "object"):
                r = self.mapv(r, lambda t: self.astype_term(t, dt, "raise"), st)
        return r

    def pd_frame(self, data, index, columns, dtype, st, ctx, node, copy=NONE):
        ix = self.to_index(index, st) if index is not NONE else None
        cols = None
        if columns is not NONE:
            its = self.concrete_items(columns, st)
            if its is None:
                return self.opaque("DataFrame columns", st, node, ctx, data)
            cols = [self.colname(x) for x in its]

        def f(s, data):
            if isinstance(data, T) and not data.series:
                if ix is None:
                    return self.frame(s, [(c, NAN) for c in (cols or [])], self.rng_idx(ZERO), ZERO)
                v = NAN if data is NONE else data
                return self.frame(s, [(c, v) for c in (cols or [])], ix[0], ix[1])
            if isinstance(data, FrmV):
                rec = s.heap[data.oid]
                src = data
                if ix is not None and ix[0] is not rec.idx:
                    src = self.frame(s, [(c, self.align_term(s.heap[a].t, rec.idx, rec.n, ix[0], ix[1], s, node, ctx))
                                         for c, a in rec.cols], ix[0], ix[1], rec.order)
                    rec = s.heap[src.oid]
                if cols is not None:
                    out = []
                    for c in cols:
                        o = self.col_oid(rec, c)
                        out.append((c, self.new(s, ArrRec(s.heap[o].t if o is not None else NAN, rec.n))))
                    return FrmV(self.new(s, FrmRec(out, rec.idx, rec.n)))
                if src is data and not self.is_true(copy):
                    return FrmV(self.new(s, FrmRec(rec.cols, rec.idx, rec.n, rec.order)))
                return src
            if isinstance(data, RFrmV):
                rec = s.heap[data.oid]
                t = rec.t if cols is None else mk("opF", "getitem", rec.t, mk("opq", "list", *[const(c) for c in cols]))
                # shares its buffers with the source unless copied
                return RFrmV(self.new(s, RFrmRec(t, None if self.is_true(copy) else share_of(rec.tag), rec.extra)))
            if isinstance(data, SerV):
                r = s.heap[data.arr]
                nm = cols[0] if cols else (data.name if data.name is not None else 0)
                t, n2, i2 = r.t, r.n, data.idx
                if ix is not None:
                    t, n2, i2 = self.align(data, ix[0], ix[1], s, node, ctx), ix[1], ix[0]
                if cols and data.name is not None and not isinstance(data.name, T) and data.name not in cols:
                    t = NAN
                return self.frame(s, [(nm, t)], i2, n2)
            if isinstance(data, RefV) and isinstance(s.heap.get(data.oid), DictRec):
                d = s.heap[data.oid]
                i2 = ix
                if i2 is None:
                    for v in d.items.values():
                        if isinstance(v, SerV):
                            i2 = (v.idx, s.heap[v.arr].n)
                            break
                if i2 is None:
                    for v in d.items.values():
                        n0 = self.length(v, s)
                        i2 = (self.rng_idx(n0), n0)
                        break
                out = []
                for k, v in d.items.items():
                    c = self.colname(self.unkey(k))
                    out.append((c, self.align(v, i2[0], i2[1], s, node, ctx)))
                if cols is not None:
                    dd = dict((str(c), t) for c, t in out)
                    out = [(c, dd.get(str(c), NAN)) for c in cols]
                return self.frame(s, out, i2[0], i2[1])
            if isinstance(data, Np2V):
                n = s.heap[data.arrs[0]].n
                i2 = ix or (self.rng_idx(n), n)
                return self.frame(s, [(c, s.heap[a].t) for c, a in zip(cols or list(range(len(data.arrs))), data.arrs)], i2[0], i2[1])
            if isinstance(data, NpV):
                r = s.heap[data.arr]
                i2 = ix or (self.rng_idx(r.n), r.n)
                return self.frame(s, [((cols or [0])[0], r.t)], i2[0], i2[1])
            if isinstance(data, RefV) and isinstance(s.heap.get(data.oid), ListRec):
                r = s.heap[data.oid]
                n = const(len(r.items)) if r.items is not None else r.n
                i2 = ix or (self.rng_idx(n), n)
                if r.meta and isinstance(r.meta, tuple) and r.meta[0] == "rows":
                    ts = r.meta[1]
                    return self.frame(s, list(zip(cols or list(range(len(ts))), ts)), i2[0], i2[1])
                if r.meta and isinstance(r.meta, tuple) and r.meta[0] == "rep":
                    it = r.meta[1]
                    if len(it) == 1:
                        row = self.concrete_items(it[0], s) if not isinstance(it[0], T) else [it[0]]
                        if row is not None:
                            return self.frame(s, list(zip(cols or list(range(len(row))), [self.sig(x, s) for x in row])), i2[0], i2[1])
                if r.items is not None:
                    rows = [self.concrete_items(x, s) if not isinstance(x, T) else [x] for x in r.items]
                    if rows and all(x is not None and len(x) == len(rows[0]) for x in rows):
                        out = []
                        for j in range(len(rows[0])):
                            out.append(((cols or list(range(len(rows[0]))))[j], self.list_term(ListRec([x[j] for x in rows]), s)))
                        return self.frame(s, out, i2[0], i2[1])
                if cols is None or len(cols) == 1:
                    return self.frame(s, [((cols or [0])[0], self.list_term(r, s))], i2[0], i2[1])
            if isinstance(data, (SeqV, RangeV)):
                n = self.length(data, s)
                i2 = ix or (self.rng_idx(n), n)
                if cols is None or len(cols) == 1:
                    return self.frame(s, [((cols or [0])[0], self.plain(data, s, node, ctx))], i2[0], i2[1])
            i2 = ix or (mk("opq", "index"), mk("opq", "n"))
            o = self.opaque("DataFrame", s, node, ctx, data)
            return self.frame(s, [(c, mk("opq", "col", o, const(str(c)))) for c in (cols or [])], i2[0], i2[1])
        r = self.lift(f, st, data)
        if dtype is not NONE and isinstance(r, FrmV):
            dt = self.dtype_name(dtype)
            if dt not in ("float", "object"):
                self.emit("dtype", st, node, ctx, dt=dt)
            if self.narrow(dtype) and data is not r and isinstance(st.heap.get(r.oid), FrmRec):
                rec, out = st.heap[r.oid], []
                for c, a in rec.cols:
                    t = st.heap[a].t
                    t = t if is_const(t) or t.op == "nan" else self.converted(t, None, dt)
                    o = self.new(st, ArrRec(t, st.heap[a].n, st.heap[a].tag))
                    self.kept_np[o] = dt
                    out.append((c, o))
                return FrmV(self.new(st, FrmRec(out, rec.idx, rec.n, rec.order, rec.tag)))
        return r

    def concat(self, items, axis, st, ctx, node, kw=None):
        kw = kw or {}
        ax1 = isinstance(axis, T) and ((is_num(axis) and num(axis) == 1) or (axis.op == "str" and axis.args[0] == "columns"))
        parts = []
        for v in items:
            if isinstance(v, ChoiceV):
                return self.lift(lambda s, *xs: self.concat(list(xs), axis, s, ctx, node, kw), st, *items)
            if isinstance(v, FrmV):
                r = st.heap[v.oid]
                parts.append((r.idx, r.n, [(c, a, SerV(a, r.idx, c)) for c, a in r.cols], v))
            elif isinstance(v, SerV):
                parts.append((v.idx, st.heap[v.arr].n, [(v.name, v.arr, v)], v))
            elif v is NONE:
                continue
            else:
                return self.opaque("concat", st, node, ctx, *items)
        if not parts:
            return self.opaque("concat", st, node, ctx)
        if ax1:
            idx, n = parts[0][0], parts[0][1]
            for i2, n2, _, _ in parts[1:]:
                if i2 is not idx and self.offset_of(idx, i2) is not None:
                    idx, n = i2, n2
            inner = isinstance(kw.get("join"), T) and kw["join"].op == "str" and kw["join"].args[0] == "inner"
            if inner:
                for i2, n2, _, _ in parts:
                    if i2 is not idx and self.offset_of(i2, idx) is not None:
                        idx, n = i2, n2
            cols, k = [], 0
            order = "known"
            for i2, n2, cs, v in parts:
                if isinstance(v, FrmV):
                    if st.heap[v.oid].order == "caller" and len(cs) > 1:
                        order = "caller"
                for c, a, sv in cs:
                    if c is None:
                        c = k
                        k += 1
                    cols.append((c, self.align(sv, idx, n, st, node, ctx)))
            if "keys" in kw and kw["keys"] is not NONE:
                if any(isinstance(v, FrmV) for _, _, _, v in parts):
                    return self.opaque("concat", st, node, ctx, *items)
                ks = self.concrete_items(kw["keys"], st)
                if ks is not None and len(ks) == len(cols):
                    cols = [(self.colname(x), t) for x, (_, t) in zip(ks, cols)]
            return self.frame(st, cols, idx, n, order)
        # axis 0
        isser = all(isinstance(v, SerV) for _, _, _, v in parts)
        names = [c for c, _, _ in parts[0][2]]
        # contiguous windows of one axis?
        base = lo0 = None
        pos = None
        ok = True
        for i2, n2, _, _ in parts:
            b, lo, hi = (i2.args if i2.op == "islice" else (i2, ZERO, NONE))
            if base is None:
                base, lo0 = b, lo
            elif b is not base or pos is NONE or not (pos is lo or sub(pos, lo) is ZERO):
                ok = False
                break
            pos = hi
        tot = ZERO
        for _, n2, _, _ in parts:
            tot = add(tot, n2)
        if self.is_true(kw.get("ignore_index", FALSE)):
            ok = False
        out = []
        for j, c in enumerate(names):
            ts = []
            start = ZERO
            for i2, n2, cs, v in parts:
                if isser:
                    a = cs[0][1]
                else:
                    m = [x for x in cs if x[0] == c]
                    if not m:
                        ts.append((start, NAN))
                        start = add(start, n2)
                        continue
                    a = m[0][1]
                ts.append((start, st.heap[a].t))
                start = add(start, n2)
            t = place(ts[-1][1], ts[-1][0])
            for k in range(len(ts) - 2, -1, -1):
                t = ite(compare("lt", ROW, ts[k + 1][0]), place(ts[k][1], ts[k][0]), t)
            out.append((c, t))
        if ok:
            idx = self.islice(base, lo0, pos) if pos is not None else base
        else:
            idx = mk("iconcat", *[p[0] for p in parts])
            if self.is_true(kw.get("ignore_index", FALSE)):
                idx = self.rng_idx(tot)
        if isser:
            return self.ser(st, out[0][1], tot, idx, names[0] if all(p[2][0][0] == names[0] for p in parts) else None)
        return self.frame(st, out, idx, tot)

    # numpy ------------------------------------------------------------------
    UF1 = {"abs": absv, "absolute": absv, "fabs": absv, "negative": neg, "square": lambda t: mul(t, t),
           "sqrt": lambda t: power(t, mk("const", F(1, 2))), "log": lambda t: mk("log", t), "exp": lambda t: mk("exp", t),
           "floor": lambda t: mk("opE", "floor", t) if t.series else floor_(t), "ceil": lambda t: neg(floor_(neg(t))) if not t.series else mk("opE", "ceil", t),
           "sign": lambda t: mk("sign", t), "positive": lambda t: t, "logical_not": not_, "log10": lambda t: mk("opE", "log10", t),
           "trunc": lambda t: mk("trunc", t), "log1p": lambda t: mk("log", add(t, ONE)), "expm1": lambda t: sub(mk("exp", t), ONE),
           "reciprocal": lambda t: div(ONE, t), "log2": lambda t: div(mk("log", t), mk("log", const(2))), "nan_to_num": lambda t: mk("fillna", t, ZERO) if t.series else t}
    UF2 = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow",
           "floor_divide": "FloorDiv", "mod": "Mod", "remainder": "Mod"}
    CF2 = {"less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE", "equal": "Eq", "not_equal": "NotEq"}

    def np_call(self, leaf, path, args, kw, st, ctx, node):
        A = lambda i, nm, d=None: self.arg(args, kw, i, nm, d)
        if any(isinstance(a, ChoiceV) for a in args):
            return self.lift(lambda s, *aa: self.np_call(leaf, path, list(aa), kw, s, ctx, node), st, *args)
        if leaf in self.UF1 and len(args) >= 1:
            return self.mapv(self.lst_vec(args[0], st), self.UF1[leaf], st)
        if leaf in ("isnan",):
            return self.mapv(args[0], self.isnan_t, st)
        if leaf in ("isfinite", "isinf"):
            return self.mapv(args[0], lambda t: mk("opb", leaf, t), st)
        if leaf in self.UF2 and len(args) == 2:
            return self.binop(self.UF2[leaf], self.lst_vec(args[0], st), self.lst_vec(args[1], st), st, ctx, node)
        if leaf in self.CF2 and len(args) == 2:
            return self.compare1(self.CF2[leaf], args[0], args[1], st, ctx, node)
        if leaf in ("logical_and", "logical_or", "bitwise_and", "bitwise_or"):
            return self.binop("BitAnd" if leaf.endswith("and") else "BitOr", args[0], args[1], st, ctx, node)
        if leaf in ("maximum", "minimum", "fmax", "fmin"):
            k = "max" if "max" in leaf else "min"
            sk = const(leaf.startswith("f"))
            return self.ser_or_scalar2(lambda x, y: nary(k, [x, y]) if not (x.series or y.series) else
                                       self.row_agg_terms([x, y], k, sk) if not (is_const(x) or is_const(y)) else nary(k, [x, y]),
                                       args[0], args[1], st, node, ctx)
        if leaf == "where":
            c = A(0, "condition")
            if len(args) == 1:
                if isinstance(c, (SerV, NpV)):
                    return self.where1(c, st.heap[c.arr].t, st.heap[c.arr].n, st)
                return self.opaque("np.where", st, node, ctx, c)
            if isinstance(c, T) and not c.series:
                return self.join(truth(c), args[1], args[2], st)
            if isinstance(c, (SerV, NpV)):
                n = st.heap[c.arr].n
                idx = c.idx if isinstance(c, SerV) else None
                if idx is None:
                    for v in args[1:]:
                        if isinstance(v, SerV):
                            pass
                ct = st.heap[c.arr].t
                f = lambda v: self.align(v, idx, n, st, node, ctx) if idx is not None else self.plain_any(v, st, node, ctx)
                a, b = f(args[1]), f(args[2])
                if a.op == "none":
                    a = NAN
                if b.op == "none":
                    b = NAN
                return self.npv(st, ite(ct, a, b) if is_boolish(ct) else mk("opq", "where", ct, a, b), n)
            return self.opaque("np.where", st, node, ctx, *args)
        if leaf in ("flatnonzero", "argwhere", "nonzero"):
            c = args[0]
            if isinstance(c, (SerV, NpV)):
                w = self.where1(c, st.heap[c.arr].t, st.heap[c.arr].n, st)
                return w.tag[1] if leaf == "flatnonzero" else w
        if leaf == "select":
            cs, vs = self.concrete_items(args[0], st), self.concrete_items(args[1], st)
            d = A(2, "default", ZERO)
            if cs is not None and vs is not None and cs and isinstance(cs[0], (SerV, NpV)):
                idx = cs[0].idx if isinstance(cs[0], SerV) else None
                n = st.heap[cs[0].arr].n
                f = lambda v: self.align(v, idx, n, st, node, ctx)
                t = f(d)
                for c, v in reversed(list(zip(cs, vs))):
                    t = ite(f(c), f(v), t)
                return self.npv(st, t, n)
        if leaf in ("max", "amax", "min", "amin", "sum", "mean", "nanmax", "nanmin", "nansum", "nanmean", "median", "std",
                    "var", "any", "all", "prod", "argmax", "argmin", "cumsum", "diff", "ptp", "round", "around"):
            v = self.lst_vec(args[0], st)
            nm = {"amax": "max", "amin": "min", "around": "round"}.get(leaf, leaf)
            nan = nm.startswith("nan")
            nm = nm[3:] if nan else nm
            if isinstance(v, Np2V):
                return self.np2_method(v, nm, args[1:], kw, st, ctx, node)
            if isinstance(v, FrmV):
                if nm in ("max", "min", "sum", "mean") and ("axis" in kw or len(args) > 1):
                    return self.frm_method(v, nm, args[1:], kw, st, ctx, node)
            if isinstance(v, (SerV, NpV)):
                if nm == "cumsum":
                    return self.vec_method(v, "cumsum", [], {}, st, ctx, node)
                if nm == "diff":
                    r = st.heap[v.arr]
                    return self.npv(st, sub(slice_(r.t, ONE, NONE), r.t), sub(r.n, ONE))
                if nm == "round":
                    return self.vec_method(v, "round", args[1:], kw, st, ctx, node)
                if isinstance(v, SerV) or nan:
                    return self.vec_agg(SerV(v.arr, mk("irange", ZERO)) if isinstance(v, NpV) else v, nm, [], {k: x for k, x in kw.items() if k == "ddof"} or
                                        ({"ddof": ZERO} if nm in ("std", "var") else {}), st, ctx, node)
                return self.vec_agg(v, nm, [], kw, st, ctx, node)
            items = self.concrete_items(v, st)
            if items is not None and all(isinstance(x, T) for x in items) and items:
                if nm in ("max", "min"):
                    return nary(nm, items)
                if nm in ("sum", "mean"):
                    r = ZERO
                    for x in items:
                        r = add(r, ite(x, ONE, ZERO) if is_boolish(x) and not is_const(x) else x)
                    return div(r, const(len(items))) if nm == "mean" else r
                if nm in ("any", "all"):
                    return (or_ if nm == "any" else and_)(*[truth(x) for x in items])
            if isinstance(v, SeqV) and v.tag and v.tag[0] == "gen" and nm == "sum":
                return self.b_sum([v], {}, st, ctx, node)
            if isinstance(v, T) and nm == "round":
                return roundt(v, A(1, "decimals", ZERO))
            return self.opaque("np." + leaf, st, node, ctx, v)
        if leaf == "count_nonzero":
            v = args[0]
            if isinstance(v, (SerV, NpV)):
                t = st.heap[v.arr].t
                if not is_boolish(t):
                    t = not_(compare("eq", t, ZERO))
                return self.count_of(t)
            if isinstance(v, T) and v.series:
                return self.count_of(v if is_boolish(v) else not_(compare("eq", v, ZERO)))
            return self.opaque("count_nonzero", st, node, ctx, v)
        if leaf in ("zeros", "ones", "full", "empty", "full_like", "zeros_like", "ones_like", "empty_like"):
            val = {"zeros": ZERO, "ones": ONE, "empty": mk("opq", "uninit")}.get(leaf.replace("_like", ""))
            if leaf.startswith("full"):
                val = A(1, "fill_value")
            if leaf.startswith("empty"):
                self.emit("nondet", st, node, ctx, what="uninitialised memory (numpy.%s)" % leaf)
            if leaf.endswith("_like"):
                v = args[0]
                if isinstance(v, Np2V):
                    return Np2V([self.new(st, ArrRec(val, st.heap[a].n)) for a in v.arrs])
                if isinstance(v, FrmV):
                    rec = st.heap[v.oid]
                    return Np2V([self.new(st, ArrRec(val, rec.n)) for a in rec.cols])
                return self.npv(st, val, self.length(v, st))
            sh = A(0, "shape")
            dims = self.concrete_items(sh, st) if not isinstance(sh, T) else [sh]
            if dims is None:
                return self.opaque("np." + leaf, st, node, ctx)
            dt = A(2 if leaf == "full" else 1, "dtype", NONE)
            if len(dims) == 1:
                return self.np_of(st, val, dims[0], dt)
            if len(dims) == 2 and is_num(dims[1]):
                return Np2V([self.np_of(st, val, dims[0], dt).arr for _ in range(int(num(dims[1])))])
        if leaf in ("array", "asarray", "asanyarray", "fromiter", "ascontiguousarray"):
            v = args[0]
            if leaf != "fromiter" and self.narrow(A(1, "dtype", NONE)) and isinstance(v, (NpV, SerV, Np2V, FrmV)):
                dt = A(1, "dtype")
                arrs = [v.arr] if isinstance(v, (NpV, SerV)) else v.arrs if isinstance(v, Np2V) else [
                    a for _, a in st.heap[v.oid].cols]
                new = [self.np_of(st, self.astype_term(st.heap[a].t, self.dtype_name(dt), "raise"), st.heap[a].n, dt).arr for a in arrs]
                return NpV(new[0]) if isinstance(v, (NpV, SerV)) else Np2V(new)
            if isinstance(v, (NpV, Np2V)):
                if leaf == "array":
                    return self.deepcopy(v, st) if isinstance(v, NpV) else self.np2_method(v, "copy", [], {}, st, ctx, node)
                return v
            if isinstance(v, SerV):
                return self.npv(st, st.heap[v.arr].t, st.heap[v.arr].n) if leaf == "array" else NpV(v.arr)
            if isinstance(v, FrmV):
                return Np2V([a for _, a in st.heap[v.oid].cols], v.oid)
            if isinstance(v, RefV) and isinstance(st.heap.get(v.oid), ListRec):
                r = st.heap[v.oid]
                if r.meta and isinstance(r.meta, tuple) and r.meta[0] == "rows":
                    return Np2V([self.new(st, ArrRec(t, r.n)) for t in r.meta[1]])
                if r.items is not None and r.items and all(isinstance(x, (NpV, SerV)) for x in r.items):
                    return self.opaque("array2", st, node, ctx, v)
            lv = self.lst_vec(v, st, force=True)
            if isinstance(lv, NpV):
                return lv
        if leaf == "arange":
            a = list(args)
            lo, hi, stp = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ONE)
            if all(isinstance(x, T) for x in (lo, hi, stp)):
                return self.npv(st, add(lo, mul(stp, ROW)), self.range_count(lo, hi, stp))
        if leaf in ("column_stack", "vstack", "hstack", "stack", "concatenate", "append", "r_", "c_"):
            items = self.concrete_items(args[0], st) if leaf != "append" else list(args)
            if leaf == "column_stack" and items is not None:
                out = []
                for v in items:
                    v = self.lst_vec(v, st)
                    if isinstance(v, (SerV, NpV)):
                        out.append(v.arr)
                    elif isinstance(v, Np2V):
                        out += list(v.arrs)
                    else:
                        return self.opaque("column_stack", st, node, ctx, *items)
                return Np2V(out)
            if leaf == "stack" and items is not None:
                ax = A(1, "axis", ZERO)
                if is_num(ax) and num(ax) in (1, -1) and all(isinstance(v, (SerV, NpV)) for v in items):
                    return Np2V([v.arr for v in items])
            if leaf in ("concatenate", "hstack", "append") and items is not None:
                vs = [self.lst_vec(v, st, force=True) for v in items]
                if all(isinstance(v, (SerV, NpV)) for v in vs):
                    start, ts = ZERO, []
                    for v in vs:
                        r = st.heap[v.arr]
                        ts.append((start, r.t))
                        start = add(start, r.n)
                    t = place(ts[-1][1], ts[-1][0])
                    for k in range(len(ts) - 2, -1, -1):
                        t = ite(compare("lt", ROW, ts[k + 1][0]), place(ts[k][1], ts[k][0]), t)
                    return self.npv(st, t, start)
            if leaf in ("maximum",):
                pass
        if leaf == "reduce" and (".maximum." in path or ".minimum." in path):
            items = self.concrete_items(args[0], st)
            k = "max" if "maximum" in path else "min"
            if items is not None:
                if all(isinstance(x, T) for x in items):
                    return nary(k, items)
                acc = items[0]
                for x in items[1:]:
                    acc = self.np_call(k + "imum", path, [acc, x], {}, st, ctx, node)
                return acc
        if leaf == "clip":
            return self.vec_method(args[0], "clip", args[1:], kw, st, ctx, node) if isinstance(args[0], (SerV, NpV)) \
                else tmin(tmax(args[0], args[1]), args[2])
        if leaf == "roll" and len(args) == 2 and not kw and isinstance(args[0], (SerV, NpV)) and isinstance(args[1], T):
            r, k = st.heap[args[0].arr], args[1]
            if r.t.series and (is_num(k) and num(k) > 0 or self.entails(st, compare("ge", k, ONE))):
                return self.npv(st, ite(compare("ge", ROW, k), shift(r.t, k), shift(r.t, sub(k, r.n))), r.n)
            if r.t.series and is_num(k) and num(k) < 0:
                return self.npv(st, ite(compare("lt", ROW, add(r.n, k)), shift(r.t, k), shift(r.t, add(k, r.n))), r.n)
        if leaf == "accumulate" and path.split(".")[-2] in ("maximum", "minimum", "add", "multiply") and len(args) == 1 and not kw:
            v = self.lst_vec(args[0], st)
            if isinstance(v, (SerV, NpV)):
                nm = {"maximum": "cummax", "minimum": "cummin", "add": "cumsum", "multiply": "cumprod"}[path.split(".")[-2]]
                return self.vec_method(v, nm, [], {}, st, ctx, node)
        if leaf in ("vectorize",) and args and isinstance(args[0], FnV):
            return BoundV(args[0], "__vectorized__")
        if leaf == "convolve" and len(args) + len(kw) == 3 and isinstance(args[0], (SerV, NpV)) and isinstance(args[1], (SerV, NpV)):
            r, q = st.heap[args[0].arr], st.heap[args[1].arr]
            m = A(2, "mode")
            if isinstance(m, T) and m.op == "str" and m.args[0] == "valid" and not q.t.series and r.t.series:
                return self.npv(st, slice_(roll(mul(r.t, q.t), q.n, q.n, "sum"), sub(q.n, ONE), NONE), add(sub(r.n, q.n), ONE))
        if leaf == "isclose" and len(args) == 2 and not kw and any(isinstance(a, (SerV, NpV)) for a in args):
            return self.ser_or_scalar2(lambda x, y: compare("le", absv(sub(x, y)), add(mk("const", F(1, 10 ** 8)), mul(
                mk("const", F(1, 10 ** 5)), absv(y)))), args[0], args[1], st, node, ctx)
        if leaf == "isclose" or leaf == "allclose":
            return mk("truthy", mk("opL", leaf, *[self.sig(a, st) for a in args])) if not any(isinstance(a, (SerV, NpV)) for a in args) \
                else self.opaque("np." + leaf, st, node, ctx, *args)
        if leaf in ("float64", "float32", "float_"):
            v = self.b_float(args, kw, st, ctx, node)
            return self.astype_term(v, leaf, "raise") if leaf == "float32" and isinstance(v, T) else v
        if leaf in ("int64", "int32", "int_"):
            return self.b_int(args, kw, st, ctx, node)
        if leaf in ("bool_",):
            return self.b_bool(args, kw, st, ctx, node)
        if leaf in ("seterr", "errstate", "set_printoptions"):
            if leaf != "errstate":
                self.emit("write_global", st, node, ctx, name="numpy." + leaf)
            return mk("opq", "ext:np." + leaf)
        if leaf in ("dot", "inner") and len(args) == 2 and all(isinstance(a, (SerV, NpV)) for a in args):
            r = st.heap[args[0].arr]
            return self.aggr("sum_np", mul(r.t, st.heap[args[1].arr].t), r.n, st)
        if leaf in ("copyto", "put", "place", "fill_diagonal", "putmask"):
            v = args[0]
            if isinstance(v, (SerV, NpV)):
                self.write_arr(v.arr, self.opaque("np." + leaf, st, node, ctx, *args), st, ctx, node)
            else:
                self.emit("unknown_write", st, node, ctx, obj=v)
            return NONE
        return None

    def ser_or_scalar2(self, f, a, b, st, node, ctx):
        a, b = self.lst_vec(a, st), self.lst_vec(b, st)
        if isinstance(a, T) and isinstance(b, T):
            return f(a, b)
        if isinstance(a, FrmV) or isinstance(b, FrmV):
            return self.opaque("np2arg", st, node, ctx, a, b)
        return self.ser_bin(f, a, b, st, ctx, node)

    def lst_vec(self, v, st, force=False):
        """list / range / comprehension -> 1-D array value"""
        if isinstance(v, RefV) and isinstance(st.heap.get(v.oid), ListRec):
            r = st.heap[v.oid]
            if r.items is None and r.t is not None and not (isinstance(r.meta, tuple) and r.meta[0] == "rows"):
                return self.npv(st, r.t, r.n)
            if r.items is not None and force:
                return self.npv(st, self.list_term(r, st), const(len(r.items)))
        if isinstance(v, RangeV):
            if force or self.concrete_items(v, st) is None:
                return self.npv(st, add(v.lo, mul(v.step, ROW)), self.range_count(v.lo, v.hi, v.step))
        if isinstance(v, SeqV) and v.tag and v.tag[0] == "gen" and v.tag[5] is TRUE and isinstance(v.tag[7], T):
            return self.npv(st, self.seq_term(v, st), self.range_count(v.tag[2], v.tag[3], v.tag[4]))
        return v

    def plain_any(self, v, st, node, ctx):
        return self.plain(v, st, node, ctx)

    def math_call(self, leaf, args, kw, st, ctx, node):
        v = args[0] if args else None
        if not isinstance(v, T):
            return None
        if leaf in ("floor", "ceil", "log", "sqrt") and not v.intk:
            self.emit("needs_number", st, node, ctx, arg=v, what="math." + leaf, caught=ctx.catches("ValueError"))
        if leaf == "floor":
            return floor_(v)
        if leaf == "ceil":
            return neg(floor_(neg(v)))
        if leaf == "sqrt":
            self.emit("sqrt", st, node, ctx, arg=v)
            return power(v, mk("const", F(1, 2)))
        if leaf == "fabs":
            return absv(v)
        if leaf == "isnan":
            return self.isnan_t(v) if not (v.op == "param" and v.args[1] == "any") else mk("isnan", v)
        if leaf == "isfinite":
            return mk("isfin", v)
        if leaf == "isinf":
            return mk("isinf", v)
        if leaf == "log":
            return mk("log", v)
        if leaf == "exp":
            return mk("exp", v)
        if leaf == "trunc":
            return self.b_int([v], {}, st, ctx, node)
        if leaf == "pow":
            return power(v, args[1])
        if leaf == "fsum":
            return self.b_sum(args, kw, st, ctx, node)
        return None

    def sm_call(self, leaf, args, kw, st, ctx, node):
        A = lambda i, nm, d=None: self.arg(args, kw, i, nm, d)
        if leaf == "add_constant":
            v = self.lst_vec(args[0], st, force=True)
            t = self.plain(v, st, node, ctx) if not isinstance(v, T) else v
            return mk("opL", "addconst", t) if not t.series else mk("opS", "addconst", t)
        if leaf == "RollingOLS":
            y, x, w = A(0, "endog"), A(1, "exog"), A(2, "window")
            yt = self.plain(y, st, node, ctx)
            xt = self.plain(x, st, node, ctx) if not isinstance(x, T) else x
            opts = tuple(sorted((k, self.sig(v, st)) for k, v in kw.items() if k not in ("endog", "exog", "window")))
            n = self.length(y, st)
            return OlsV(yt, xt, w, "model", opts, n)
        return None
