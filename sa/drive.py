"""Analysis drivers: what is interpreted, from which abstract entry state."""
import ast
from .terms import *
from .values import *
from .interp import Project, Interp, State, Ctx, ClassInfo, AnalysisLimit

N_IN = mk("n", "in")
N_TI = mk("n", "ti")
IDX_IN = mk("idx", "input")
IDX_TI = mk("idx", "ti")


def names_of(v, I, st):
    items = I.concrete_items(v, st)
    return [pyval(x) for x in items] if items is not None else None


class Tree:
    """The parsed package plus its statically evaluated module constants."""

    def __init__(self, root="/repo"):
        self.project = Project(root)
        I = self.proto = Interp(self.project)
        for m in sorted(self.project.modules):
            I.load_module(m)
        self.defaults(I)
        self.project.undo.clear()
        for r in I.base_heap.values():
            if isinstance(r, (ListRec, DictRec)) and r.tag is None:
                r.tag = "module"

    def defaults(self, I):
        """mutable defaults of parameters: made once, when the function is defined, and shared by all its calls"""
        for m in self.project.modules.values():
            for b in [m.tree] + [c for c in m.tree.body if isinstance(c, ast.ClassDef)]:
                for f in b.body:
                    if not isinstance(f, ast.FunctionDef):
                        continue
                    for d in list(f.args.defaults) + [x for x in f.args.kw_defaults if x is not None]:
                        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
                            v = I.eval(d, State({}, I.base_heap), Ctx("<defaults>", m, None))
                            r = I.base_heap.get(v.oid) if isinstance(v, RefV) else None
                            if isinstance(r, (ListRec, DictRec)):
                                r.tag = "default"
                                self.project.defaults[id(d)] = v

    def interp(self):
        I = Interp(self.project)
        I.base_heap = dict(self.proto.base_heap)
        I.next_oid, I.uid = self.proto.next_oid, self.proto.uid
        I.lvrange = dict(self.proto.lvrange)
        I.loopinfo = dict(self.proto.loopinfo)
        return I

    def indicator_classes(self, I):
        """Public indicator classes: concrete descendants of the base class exported by tti.indicators."""
        base = None
        for m in self.project.modules.values():
            v = m.env.get("TechnicalIndicator")
            if isinstance(v, ClsV):
                base = v.info
                break
        out = {}
        pkg = self.project.modules.get(self.project.package + ".indicators")
        for nm, v in sorted(pkg.env.items()):
            if isinstance(v, ClsV) and v.info is not base and base in v.info.mro():
                out[v.info.name] = v.info
        return base, out


def base_state(I):
    return State({}, dict(I.base_heap))


def ctx_of(info, name):
    return Ctx("<entry %s>" % name, info.module, None)


def init_params(info):
    """Constructor parameters [(name, default-node)] except self/input_data."""
    init, c = info.find("__init__")
    a = init.fn.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    for x, dn in zip(a.kwonlyargs, a.kw_defaults):
        names.append(x.arg)
        d[x.arg] = dn
    return [(n, d.get(n)) for n in names]


def validate_hook(log, out_tag=None):
    """Stand-in for validateInputData inside an indicator: required columns, any row history."""

    def h(I, f, args, kw, st, ctx, node):
        names = ["input_data", "required_columns", "indicator_name", "fill_missing_values"]
        d = dict(zip(names, args))
        d.update(kw)
        req = I.concrete_items(d.get("required_columns"), st) if d.get("required_columns") is not None else None
        if req is None:
            I.emit("unknown_call", st, node, ctx, what="required_columns")
            return NotImplemented
        req = [pyval(x) for x in req]
        src = d.get("input_data")
        fill = d.get("fill_missing_values", TRUE)
        log.append(dict(required=req, name=d.get("indicator_name"), fill=fill, src=src, guard=st.guard(),
                        depth=ctx.depth, fn=ctx.chain(), line=getattr(node, "lineno", 0),
                        file=ctx.module.path))
        I.emit("validate", st, node, ctx, required=tuple(req), fill=fill, src=src)

        def go(s, src):
            if isinstance(src, FrmV):
                rec = s.heap[src.oid]
                cols = []
                for c in req:
                    o = I.col_oid(rec, c)
                    if o is None:
                        o = next((a for nm, a in rec.cols if isinstance(nm, str) and nm.lower() == c), None)
                    if o is None:
                        I.emit("col_missing", s, node, ctx, frame=rec.tag, col=c)
                        cols.append((c, mk("opq", "missingcol", const(c))))
                    else:
                        cols.append((c, s.heap[o].t))
                return I.frame(s, cols, rec.idx, rec.n, order=rec.order, tag=None)
            if isinstance(src, RFrmV) and s.heap[src.oid].tag in ("caller", ("share", "caller")):
                return I.frame(s, [(c, mk("col", "input", c)) for c in req], IDX_IN, N_IN, order="caller", tag=out_tag)
            if isinstance(src, T):
                tag = "input"
                return I.frame(s, [(c, mk("col", "input", c)) for c in req], IDX_IN, N_IN, order="caller", tag=None)
            if isinstance(src, SerV):
                I.emit("bad_input", s, node, ctx, what="series passed as input data")
            return mk("opq", "validated", I.sig(src, s))

        return I.lift(go, st, src)

    return h


class Run:
    pass


def run_ctor(tree, cls, params, facts=(), hooks=None, root_src=None, out_tag=None, keep=False):
    """Interpret the constructor with abstract parameters; returns Run."""
    if not keep:
        tree.project.restore()
    I = tree.interp()
    base, classes = tree.indicator_classes(I)
    info = classes[cls]
    st = base_state(I)
    r = Run()
    r.I, r.info, r.validates = I, info, []
    I.facts_extra = tuple(facts)
    I.hooks = {"validateInputData": validate_hook(r.validates, out_tag)}
    I.hooks.update(hooks or {})
    ctx = ctx_of(info, cls)
    I.events.clear()
    I.unknown.clear()
    args = {"input_data": mk("opq", "caller_frame") if root_src is None else root_src(I, st) if callable(root_src) else root_src}
    args.update(params)
    r.inst = I.construct(ClsV(info), [], args, st, ctx, info.node)
    r.st, r.ctx = st, ctx
    r.rec = st.heap[r.inst.oid]
    r.events, r.unknown = list(I.events), list(I.unknown)
    return r


def typed_params(I, info, values=None):
    """Parameter leaves of the calculation phase: value kinds follow the documented defaults."""
    ps, facts = {}, []
    for n, d in init_params(info):
        if n in ("input_data",):
            continue
        if values and n in values:
            ps[n] = values[n]
            continue
        try:
            dv = ast.literal_eval(d) if d is not None else None
        except ValueError:
            dv = None
        kind = type(dv).__name__ if isinstance(dv, (bool, int, float, str)) else "float"
        ps[n] = mk("param", n, kind)
    return ps, facts


def leaf_frames(r):
    """Replace the calculated values by leaves; rows of a simulation prefix."""
    st, rec = r.st, r.rec
    td = rec.attrs.get("_ti_data")
    ind = rec.attrs.get("_input_data")
    r.ti_cols, r.ti_n, r.ti_idx = None, None, None
    if isinstance(td, FrmV):
        fr = st.heap[td.oid]
        r.ti_cols = [(c, st.heap[a].t) for c, a in fr.cols]
        r.ti_n, r.ti_idx = fr.n, fr.idx
        same = fr.idx is IDX_IN and fr.n is N_IN
        n, idx = (N_IN, IDX_IN) if same else (N_TI, IDX_TI)
        r.same_axis = same
        cols = []
        for c, a in fr.cols:
            nm = c if isinstance(c, (str, int)) else show(c)
            r.I.emit
            cols.append((c, mk("col", "ti", nm)))
        at = dict(rec.attrs)
        at["_ti_data"] = r.I.frame(st, cols, idx, n, order="known", tag="ti_data")
        if isinstance(ind, FrmV):
            fi = st.heap[ind.oid]
            st.heap[ind.oid] = FrmRec(fi.cols, fi.idx, fi.n, fi.order, "input_data")
            for c, a in fi.cols:
                x = st.heap[a]
                st.heap[a] = ArrRec(x.t, x.n, "input_data")
        for c, a in st.heap[at["_ti_data"].oid].cols:
            x = st.heap[a]
            st.heap[a] = ArrRec(x.t, x.n, "ti_data")
        st.heap[r.inst.oid] = InstRec(rec.cls, at, "self", rec.sub, rec.gone)
        r.rec = st.heap[r.inst.oid]


def run_method(r, name, args=(), kw=None, facts=(), hooks=None, out_tag=None, keep=False):
    """Interpret a query of the analysed instance; returns (value, ctx, events)."""
    I, st = r.I, r.st.copy()
    if not keep:
        I.project.restore()
    I.facts_extra = tuple(facts)
    I.hooks = {"validateInputData": validate_hook(r.validates, out_tag)}
    I.hooks.update(hooks or {})
    I.events, I.unknown = [], []
    ctx = ctx_of(r.info, r.info.name)
    st.rel = TRUE
    st.pc0 = TRUE
    st.entry = TRUE
    f = I.getattr(r.inst, name, st, ctx, r.info.node)
    v = I.call(f, list(args), dict(kw or {}), st, ctx, r.info.node)
    q = Run()
    q.value, q.ctx, q.st, q.events, q.unknown, q.I = v, ctx, st, I.events, I.unknown, I
    return q
