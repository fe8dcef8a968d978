"""Value-flow construction: syntax-directed abstract interpretation of the package.

Joins become guarded selections, loops over symbolic ranges become recurrence
nodes, calls inside the package are inlined, library operations go through the
transfer functions of model.py, anything else becomes an `opq` node.
"""
import ast
import builtins
import copy
import os
from .terms import *
from .values import *

MAX_UNROLL = 64
MAX_DEPTH = 24


STRICT = bool(os.environ.get("SA_STRICT"))
INTERNAL = (AttributeError, TypeError, LookupError, ValueError, ArithmeticError, AssertionError)


class AnalysisLimit(Exception):
    pass


class ClassInfo:
    def __init__(self, name, module, node, bases):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.qual = module.name + "." + name
        self.members = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClsV):
                for c in b.info.mro():
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, ExtV):
                    out.append(b.path)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.members:
                return c.members[name], c
        return None, None


class ModuleInfo:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.env = {}
        self.loaded = False
        self.star = any(isinstance(x, ast.ImportFrom) and any(a.name == "*" for a in x.names) or
                        isinstance(x, (ast.Match, ast.Delete)) for x in ast.walk(tree))


CONST_OPS = ("const", "bool", "str", "none")
# settings of library calls that choose between behaviours; a setting decided by a condition splits the call
SETTINGS = {"center", "adjust", "ignore_na", "inplace", "ascending", "skipna", "ddof", "closed", "limit", "axis", "bias",
            "dayfirst", "yearfirst", "drop", "raw", "method", "how", "copy", "deep"}


class Project:
    """All modules of /repo/tti, parsed from the working tree."""

    def restore(self):
        while self.undo:
            where, name, old = self.undo.pop()
            if old is UNSET:
                where.pop(name, None)
            else:
                where[name] = old

    def __init__(self, root, package="tti"):
        self.root, self.package = root, package
        self.defaults = {}          # shared mutable defaults of parameters
        self.undo = []              # module and class variables assigned by the analysed run
        self.modules = {}
        self.files = []
        base = os.path.join(root, package)
        for d, dirs, fs in os.walk(base):
            dirs.sort()
            if "__pycache__" in dirs:
                dirs.remove("__pycache__")
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    mod = rel[:-3].replace(os.sep, ".")
                    ispkg = False
                    if mod.endswith(".__init__"):
                        mod, ispkg = mod[:-9], True
                    with open(p, encoding="utf-8") as fh:
                        src = fh.read()
                    m = ModuleInfo(mod, rel, ast.parse(src, rel))
                    m.ispkg = ispkg
                    m.src = src
                    self.modules[mod] = m
                    self.files.append(rel)


class State:
    __slots__ = ("env", "heap", "entry", "pc0", "rel", "dead")

    def __init__(self, env, heap, entry=TRUE, pc0=TRUE, rel=TRUE):
        self.env, self.heap, self.entry, self.pc0, self.rel = env, heap, entry, pc0, rel
        self.dead = False

    def pc(self):
        return and_(self.pc0, self.rel)

    def guard(self):
        return and_(self.entry, self.pc0, self.rel)

    def fork(self, c):
        return State(dict(self.env), dict(self.heap), self.entry, and_(self.pc0, self.rel, c))

    def enter(self, env=None):
        return State(dict(self.env) if env is None else env, dict(self.heap), self.guard())

    def copy(self):
        s = State(dict(self.env), dict(self.heap), self.entry, self.pc0, self.rel)
        s.dead = self.dead
        return s

    def become(self, o):
        self.env, self.heap, self.rel, self.dead = o.env, o.heap, o.rel, o.dead


class Exit:
    __slots__ = ("kind", "value", "pc", "st", "node", "file")

    def __init__(self, kind, value, pc, st, node, file):
        self.kind, self.value, self.pc, self.st, self.node, self.file = kind, value, pc, st, node, file


class Ctx:
    def __init__(self, name, module, cls, parent=None):
        self.name, self.module, self.cls, self.parent = name, module, cls, parent
        self.exits = []
        self.loops = []
        self.trys = []
        self.depth = 0 if parent is None else parent.depth + 1
        self.globals_ = set()

    def catches(self, kind):
        """Is an implicit exception of this kind caught in this or an outer frame?"""
        c = self
        while c is not None:
            for names in reversed(c.trys):
                if names is None or any(exc_match(kind, n) for n in names):
                    return True
            c = c.parent
        return False

    def chain(self):
        c, out = self, []
        while c is not None:
            out.append(c.name)
            c = c.parent
        return " < ".join(out)


EXC_BASES = {
    "IndexError": ("LookupError", "Exception"), "KeyError": ("LookupError", "Exception"),
    "ValueError": ("Exception",), "TypeError": ("Exception",), "ZeroDivisionError": ("ArithmeticError", "Exception"),
    "AttributeError": ("Exception",), "NotImplementedError": ("RuntimeError", "Exception"),
    "RuntimeError": ("Exception",), "AssertionError": ("Exception",), "StopIteration": ("Exception",),
    "LookupError": ("Exception",), "ArithmeticError": ("Exception",), "Exception": (),
    "OSError": ("Exception",), "UnicodeError": ("ValueError", "Exception"), "any": (),
    "ImportError": ("Exception",), "Warning": ("Exception",), "OverflowError": ("ArithmeticError", "Exception"),
}


def exc_match(kind, handler):
    if handler in ("Exception", "BaseException") or kind == handler:
        return True
    return handler in EXC_BASES.get(kind, ())


class Event:
    __slots__ = ("kind", "guard", "file", "line", "fn", "info", "chain")

    def __init__(self, kind, guard, file, line, fn, info, chain):
        self.kind, self.guard, self.file, self.line, self.fn, self.info, self.chain = \
            kind, guard, file, line, fn, info, chain

    def __repr__(self):
        return "%s@%s:%s(%s) %r" % (self.kind, self.file, self.line, self.fn, self.info)


from .modelcalls import CallModel  # noqa: E402
from .model import VALUE_SOURCES  # noqa: E402


class Interp(CallModel):
    def __init__(self, project):
        self.project = project
        self.events = []
        self.mute = 0
        self.next_oid = 1
        self.uid = 0
        self.hooks = {}
        self.call_stack = []
        self.lvrange = {}
        self.loopinfo = {}
        self.base_heap = {}
        self.unknown = []
        self.kept_np = {}           # oid of a frame's column -> dtype that writes through numpy are converted to
        self.np_write = False
        self.kept = {}              # oid of an array -> dtype its values are converted to
        self.views = {}             # id of a column term -> tag of the frame it is a view of
        self.set_reverse = self.set_iterated = False
        self.steps = 0
        self.axis_n = {}
        self.static_env = {}
        for m in project.modules.values():
            pass

    # ------------------------------------------------------------- utilities
    def new(self, st, rec):
        oid = self.next_oid
        self.next_oid += 1
        st.heap[oid] = rec
        return oid

    def fresh(self):
        self.uid += 1
        return self.uid

    def emit(self, kind, st, node, ctx, **info):
        if self.mute:
            return
        self.events.append(Event(kind, st.guard(), ctx.module.path if ctx.module else "?",
                                 getattr(node, "lineno", 0), ctx.name, info, ctx.chain()))

    def opaque(self, what, st, node, ctx, *args):
        ts = []
        for a in args:
            ts.append(self.sig(a, st))
        if not self.mute:
            self.unknown.append((what, ctx.module.path if ctx.module else "?", getattr(node, "lineno", 0)))
        return mk("opq", what, *ts)

    def sig(self, v, st, seen=()):
        """A term summarising an abstract value (for opaque nodes, keys)."""
        if isinstance(v, T):
            return v
        if v is None:
            return NONE
        if isinstance(v, (SerV, NpV)):
            r = st.heap.get(v.arr)
            return r.t if r is not None else mk("opq", "arr")
        if isinstance(v, FrmV):
            r = st.heap[v.oid]
            return mk("opq", "frame", *[mk("opq", str(c), st.heap[a].t) for c, a in r.cols])
        if isinstance(v, RFrmV):
            return st.heap[v.oid].t
        if isinstance(v, TupV):
            return mk("opq", "tuple", *[self.sig(x, st) for x in v.items])
        if isinstance(v, ChoiceV):
            return ite(v.c, self.sig(v.a, st), self.sig(v.b, st))
        if isinstance(v, RefV):
            r = st.heap.get(v.oid)
            if isinstance(r, ListRec):
                if r.items is None:
                    return r.t
                return mk("opq", "list", *[self.sig(x, st) for x in r.items]) if len(seen) < 3 else mk("opq", "list")
            if isinstance(r, InstRec):
                return mk("opq", "inst:" + r.cls.name)
            return mk("opq", v.kind)
        if isinstance(v, IdxV):
            return v.t
        if isinstance(v, LabelV):
            return mk("label", v.idx, v.row)
        if isinstance(v, BoundV):
            return mk("opq", "BoundV", self.sig(v.obj, st), const(v.name)) if isinstance(v.obj, (T, BoundV)) else mk("opq", "BoundV")
        if isinstance(v, ExtV):
            return mk("opq", ("nondet:" if v.path in VALUE_SOURCES else "ext:") + v.path)
        if isinstance(v, ClsV):
            return mk("opq", "cls:" + v.info.name)
        return mk("opq", type(v).__name__)

    def lift(self, f, st, *vals):
        """Distribute f(state, *vals) over guarded selections in vals."""
        for k, v in enumerate(vals):
            if isinstance(v, ChoiceV):
                s1 = st.fork(v.c)
                s2 = st.fork(not_(v.c))
                r1 = self.lift(f, s1, *(vals[:k] + (v.a,) + vals[k + 1:]))
                r2 = self.lift(f, s2, *(vals[:k] + (v.b,) + vals[k + 1:]))
                m = self.merge(st, v.c, s1, s2)
                st.become(m)
                if r1 is UNSET:
                    return r2
                if r2 is UNSET:
                    return r1
                return self.join(v.c, r1, r2, st)
        return f(st, *vals)

    def join(self, c, a, b, st):
        """choice() which also joins equally shaped series values."""
        if isinstance(a, SerV) and isinstance(b, SerV) and a.idx is b.idx and a.arr != b.arr:
            ra, rb = st.heap.get(a.arr), st.heap.get(b.arr)
            if ra is not None and rb is not None and ra.n is rb.n and ra.tag is None and rb.tag is None:
                oid = self.new(st, ArrRec(ite(c, ra.t, rb.t), ra.n))
                return SerV(oid, a.idx, a.name if a.name == b.name else None)
        if isinstance(a, FrmV) and isinstance(b, FrmV) and a.oid != b.oid:
            ra, rb = st.heap.get(a.oid), st.heap.get(b.oid)
            if type(ra) is type(rb) and ra.tag is None and rb.tag is None:
                if isinstance(ra, RFrmRec):
                    return FrmV(self.new(st, RFrmRec(ite(c, ra.t, rb.t), None, ra.extra + rb.extra)))
                if isinstance(ra, FrmRec) and ra.idx is rb.idx and ra.n is rb.n and len(ra.cols) == len(rb.cols) \
                        and [str(k) for k, _ in ra.cols] == [str(k) for k, _ in rb.cols] \
                        and all(st.heap[x].tag is None for _, x in ra.cols + rb.cols):
                    cols = [(k, x if x == y else self.new(st, ArrRec(ite(c, st.heap[x].t, st.heap[y].t), st.heap[x].n)))
                            for (k, x), (_, y) in zip(ra.cols, rb.cols)]
                    return FrmV(self.new(st, FrmRec(cols, ra.idx, ra.n, ra.order if ra.order == rb.order else "caller")))
        return choice(c, a, b)

    # ---------------------------------------------------------------- merging
    def merge(self, st, c, a, b):
        """Merge states a (under c) and b (under not c), both forked from st."""
        if a.dead and b.dead:
            m = st.copy()
            m.dead = True
            m.rel = FALSE
            return m
        m = State(None, None, st.entry, st.pc0, st.rel)
        if a.dead:
            m.env, m.heap = b.env, b.heap
            m.rel = and_(st.rel, not_(c), b.rel)
            return m
        if b.dead:
            m.env, m.heap = a.env, a.heap
            m.rel = and_(st.rel, c, a.rel)
            return m
        m.rel = and_(st.rel, ite(c, a.rel, b.rel)) if not (a.rel is TRUE and b.rel is TRUE) else st.rel
        heap = dict(b.heap)
        m.heap = heap
        for oid, ra in a.heap.items():
            rb = b.heap.get(oid)
            if rb is None:
                heap[oid] = ra
            elif rb is not ra:
                heap[oid] = self.merge_rec(c, ra, rb, a.heap, b.heap, heap)
        env = dict()
        gone = {}
        ua, ub = a.env.get("__unset__") or {}, b.env.get("__unset__") or {}
        for k in list(b.env) + [k for k in a.env if k not in b.env]:
            va, vb = a.env.get(k, UNSET), b.env.get(k, UNSET)
            if not k.startswith("__") and (va is UNSET or vb is UNSET or k in ua or k in ub):
                g = ite(c, TRUE if va is UNSET else ua.get(k, FALSE), TRUE if vb is UNSET else ub.get(k, FALSE))
                if g is not FALSE:
                    gone[k] = g
            if va is vb:
                env[k] = va
            elif k.startswith("__"):
                env[k] = va if va is not UNSET else vb
            elif va is UNSET:
                env[k] = vb
            elif vb is UNSET:
                env[k] = va
            else:
                env[k] = self.join(c, va, vb, m)
        env.pop("__unset__", None)
        if gone:
            env["__unset__"] = gone
        m.env = env
        return m

    def merge_rec(self, c, ra, rb, ha, hb, heap):
        if ra.key() == rb.key() and type(ra) is type(rb):
            return ra
        if isinstance(ra, ArrRec) and isinstance(rb, ArrRec):
            return ArrRec(ite(c, ra.t, rb.t), ra.n if ra.n is rb.n else ite(c, ra.n, rb.n), ra.tag or rb.tag)
        if isinstance(ra, FrmRec) and isinstance(rb, FrmRec):
            da, db = dict((str(k), (k, o)) for k, o in ra.cols), dict((str(k), (k, o)) for k, o in rb.cols)
            cols = []
            names = [str(k) for k, _ in ra.cols] + [str(k) for k, _ in rb.cols if str(k) not in da]
            if len(ra.cols) == len(rb.cols) and [str(k) for k, _ in ra.cols] != [str(k) for k, _ in rb.cols] \
                    and not set(da) & set(db):
                # same shape, other labels: positional join with selected labels
                for (ka, oa), (kb, ob) in zip(ra.cols, rb.cols):
                    k = ite(c, const(ka) if not isinstance(ka, T) else ka, const(kb) if not isinstance(kb, T) else kb)
                    cols.append((k, self._join_arr(c, oa, ob, ha, hb, heap)))
            else:
                for k in names:
                    ka, oa = da.get(k, (None, None))
                    kb, ob = db.get(k, (None, None))
                    if oa == ob:
                        cols.append((ka, oa))
                    elif oa is None or ob is None:
                        o = oa if oa is not None else ob
                        h = ha if oa is not None else hb
                        r = h[o]
                        t = ite(c, r.t, NAN) if oa is not None else ite(c, NAN, r.t)
                        oid = self.next_oid
                        self.next_oid += 1
                        heap[oid] = ArrRec(mk("opq", "maybecol", t), r.n, r.tag)
                        cols.append((ka if oa is not None else kb, oid))
                    else:
                        cols.append((ka, self._join_arr(c, oa, ob, ha, hb, heap)))
            return FrmRec(cols, ra.idx if ra.idx is rb.idx else ite(c, ra.idx, rb.idx),
                          ra.n if ra.n is rb.n else ite(c, ra.n, rb.n),
                          ra.order if ra.order == rb.order else "caller", ra.tag or rb.tag)
        if isinstance(ra, RFrmRec) and isinstance(rb, RFrmRec):
            return RFrmRec(ite(c, ra.t, rb.t), ra.tag or rb.tag, ra.extra + rb.extra)
        if isinstance(ra, ListRec) and isinstance(rb, ListRec):
            if ra.items is not None and rb.items is not None and len(ra.items) == len(rb.items):
                return ListRec([choice(c, x, y) for x, y in zip(ra.items, rb.items)], tag=ra.tag or rb.tag)
            ta, na = self._list_tn(ra, ha)
            tb, nb = self._list_tn(rb, hb)
            if ta is not None and tb is not None and na is nb:
                return ListRec(t=ite(c, ta, tb), n=na, tag=ra.tag or rb.tag, meta=ra.meta or rb.meta)
            m = self.seq_of_list(ra), self.seq_of_list(rb)
            return ListRec(t=mk("opq", "listjoin", c, *[x for x in m if x is not None]),
                           n=mk("opq", "listlen", c), tag=ra.tag or rb.tag)
        if isinstance(ra, DictRec) and isinstance(rb, DictRec):
            items = {}
            for k in list(ra.items) + [k for k in rb.items if k not in ra.items]:
                va, vb = ra.items.get(k), rb.items.get(k)
                if va is None or vb is None:
                    items[k] = choice(c, va if va is not None else mk("opq", "missing"),
                                      vb if vb is not None else mk("opq", "missing"))
                else:
                    items[k] = choice(c, va, vb)
            return DictRec(items, ra.tag or rb.tag, ra.open or rb.open)
        if isinstance(ra, InstRec) and isinstance(rb, InstRec):
            at, gone = {}, {}
            for k in list(ra.attrs) + [k for k in rb.attrs if k not in ra.attrs]:
                va, vb = ra.attrs.get(k, UNSET), rb.attrs.get(k, UNSET)
                if va is UNSET or vb is UNSET or k in ra.gone or k in rb.gone:
                    g = ite(c, TRUE if va is UNSET else ra.gone.get(k, FALSE), TRUE if vb is UNSET else rb.gone.get(k, FALSE))
                    if g is not FALSE:
                        gone[k] = g
                at[k] = vb if va is UNSET else va if vb is UNSET else choice(c, va, vb)
            return InstRec(ra.cls, at, ra.tag, ra.sub, gone)
        return ra

    def _join_arr(self, c, oa, ob, ha, hb, heap):
        r1, r2 = ha[oa], hb[ob]
        oid = self.next_oid
        self.next_oid += 1
        heap[oid] = ArrRec(ite(c, r1.t, r2.t), r1.n, r1.tag or r2.tag)
        return oid

    def _list_tn(self, r, heap):
        if r.items is None:
            return r.t, r.n
        if not all(isinstance(x, T) for x in r.items):
            return None, None
        return self.list_term(r, None), const(len(r.items))

    def seq_of_list(self, r):
        if r.items is None:
            return r.t
        return None

    # -------------------------------------------------------------- modules
    def load_module(self, name):
        m = self.project.modules[name]
        if m.loaded:
            return m
        m.loaded = True
        st = State(m.env, self.base_heap)
        m.env["__name__"] = const(name)
        ctx = Ctx("<module>", m, None)
        self.mute += 1
        try:
            st = self.exec_block(m.tree.body, st, ctx)
        finally:
            self.mute -= 1
        if st.env is not m.env:
            m.env.update(st.env)
        self.base_heap.update(st.heap)
        return m

    def resolve_import(self, ctx, level, module):
        if level == 0:
            return module
        parts = ctx.module.name.split(".")
        if not ctx.module.ispkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts + ([module] if module else []))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, ctx):
        for s in stmts:
            if st.dead:
                break
            st = self.exec_stmt(s, st, ctx)
        return st

    def exec_stmt(self, s, st, ctx):
        self.steps += 1
        if self.steps > 400000:
            raise AnalysisLimit("analysis budget exceeded")
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.unknown.append(("stmt:" + type(s).__name__, ctx.module.path, s.lineno))
            return st
        mute = self.mute
        try:
            return m(s, st, ctx)
        except INTERNAL as e:
            if STRICT:
                raise
            self.mute = mute
            self.unknown.append(("internal:%s:%s" % (type(e).__name__, e), ctx.module.path, s.lineno))
            self.emit("unknown_call", st, s, ctx, args=())
            return self.lose(s, st, ctx)

    def lose(self, s, st, ctx):
        """after a statement that could not be interpreted: what it may have changed is unknown"""
        if isinstance(s, (ast.For, ast.While)):
            try:
                return self.havoc_loop(s, st, ctx)
            except INTERNAL:
                pass
        for nm in self.assigned_names([s]):
            st.env[nm] = self.havoc_value(None, st, ("hv", s.lineno, nm))
        for x in ast.walk(s):
            if not (isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del))):
                continue
            b = x.value
            while isinstance(b, (ast.Attribute, ast.Subscript)) and not (isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name)):
                b = b.value
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                b = x
            try:
                if isinstance(b, ast.Name):
                    v = st.env.get(b.id)
                    if v is not None and b.id != "self":
                        st.env[b.id] = self.havoc_value(v, st, ("hv", s.lineno, b.id))
                elif isinstance(b, ast.Attribute):
                    o = st.env.get(b.value.id)
                    r = st.heap.get(getattr(o, "oid", None))
                    if isinstance(r, InstRec):
                        st.heap[o.oid] = InstRec(r.cls, dict(r.attrs, **{b.attr: mk("opq", "havoc", const(s.lineno))}), r.tag, r.sub)
            except INTERNAL:
                pass
        return st

    def x_Expr(self, s, st, ctx):
        if isinstance(s.value, ast.Constant):
            return st
        self.eval(s.value, st, ctx)
        return st

    def x_Pass(self, s, st, ctx):
        return st

    def x_Import(self, s, st, ctx):
        for a in s.names:
            top = a.name.split(".")[0]
            if top == self.project.package:
                st.env[a.asname or top] = ModV(a.name if a.asname else top)
            else:
                st.env[a.asname or top] = ExtV(a.name if a.asname else top)
        return st

    def x_ImportFrom(self, s, st, ctx):
        mod = self.resolve_import(ctx, s.level, s.module)
        for a in s.names:
            nm = a.asname or a.name
            if mod.split(".")[0] == self.project.package:
                sub = mod + "." + a.name
                if mod in self.project.modules:
                    mi = self.load_module(mod)
                    if a.name in mi.env:
                        st.env[nm] = mi.env[a.name]
                        continue
                if sub in self.project.modules:
                    self.load_module(sub)
                    st.env[nm] = ModV(sub)
                    continue
                if a.name == "*":
                    if mod in self.project.modules:
                        st.env.update(self.project.modules[mod].env)
                    continue
                st.env[nm] = mk("opq", "import:" + sub)
            else:
                st.env[nm] = ExtV(mod + "." + a.name)
        return st

    def x_FunctionDef(self, s, st, ctx):
        v = FnV(s, None, st.env if ctx.name != "<module>" else None, ctx.module, ctx.cls)
        st.env[s.name] = self.decorate(s, v, st, ctx)
        return st

    def decorate(self, s, v, st, ctx):
        """decorators written in the package are applied; those of the libraries keep the function"""
        for d in reversed(s.decorator_list):
            x = d.func if isinstance(d, ast.Call) else d
            while isinstance(x, ast.Attribute):
                x = x.value
            if not isinstance(x, ast.Name) or self.fn_kind(s) is not None or \
                    (isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter")):
                continue
            try:
                f = self.eval(d, st, ctx)
            except Exception:
                if os.environ.get("SA_STRICT"):
                    raise
                f = None
            if not isinstance(f, FnV):
                continue
            w = self.call(f, [v], {}, st, ctx, d)
            if isinstance(w, FnV) and w.fn is not s:
                g = copy.copy(w.fn)
                g.name, g.decorator_list = s.name, []
                g.lineno = s.lineno
                w = FnV(g, None, w.closure, w.module, v.cls)
            if isinstance(w, FnV):
                v = w
            else:
                self.unknown.append(("decorator", ctx.module.path, d.lineno))
        return v

    def x_ClassDef(self, s, st, ctx):
        bases = [self.eval(b, st, ctx) for b in s.bases]
        info = ClassInfo(s.name, ctx.module, s, bases)
        cst = State({"__parent__": st.env}, st.heap, st.entry, st.pc0, st.rel)
        cctx = Ctx("<class %s>" % s.name, ctx.module, info, ctx)
        cst = self.exec_block(s.body, cst, cctx)
        for k, v in cst.env.items():
            if k.startswith("__parent__"):
                continue
            if isinstance(v, FnV):
                v.cls = info
                if v.fn in s.body:
                    v.closure = None
            info.members[k] = v
        st.env[s.name] = ClsV(info)
        return st

    def x_Return(self, s, st, ctx):
        v = self.eval(s.value, st, ctx) if s.value is not None else NONE
        if not st.dead:
            ctx.exits.append(Exit("return", v, st.pc(), st.copy(), s, ctx.module.path))
        st.dead = True
        return st

    def x_Raise(self, s, st, ctx):
        if s.exc is None:
            v = st.env.get("__exc__", ExcV("any", {}, ()))
        else:
            v = self.eval(s.exc, st, ctx)
            if isinstance(v, ClsV):
                v = self.make_exc(v, [], {}, st, ctx, s)
            elif isinstance(v, ExtV):
                v = ExcV(v.path.split(".")[-1], {}, EXC_BASES.get(v.path.split(".")[-1], ("Exception",)))
        if not st.dead:
            self.emit("raise", st, s, ctx, exc=v)
            ctx.exits.append(Exit("raise", v, st.pc(), st.copy(), s, ctx.module.path))
        st.dead = True
        return st

    def x_Assert(self, s, st, ctx):
        c = self.cond(s.test, st, ctx)
        if st.dead or c is TRUE:
            return st
        a = st.fork(not_(c))
        self.fail("AssertionError", a, s, ctx)
        if c is FALSE:
            st.dead = True
        else:
            st.rel = and_(st.rel, c)
        return st

    def x_Global(self, s, st, ctx):
        ctx.globals_.update(s.names)
        return st

    def x_Nonlocal(self, s, st, ctx):
        return st

    def x_Delete(self, s, st, ctx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, ctx)
                k = self.eval(t.slice, st, ctx)
                self.del_item(o, k, st, ctx, s)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st, ctx)
                self.emit("write_attr", st, s, ctx, obj=o, attr=t.attr)
        return st

    def x_Assign(self, s, st, ctx):
        v = self.eval(s.value, st, ctx)
        if st.dead:
            return st
        for t in s.targets:
            self.assign(t, v, st, ctx)
        return st

    def x_AnnAssign(self, s, st, ctx):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, ctx), st, ctx)
        return st

    def x_AugAssign(self, s, st, ctx):
        if isinstance(s.target, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(s.target.id, ast.Load()), s), st, ctx)
            v = self.eval(s.value, st, ctx)
            if isinstance(cur, RefV) and isinstance(st.heap.get(cur.oid), ListRec) and isinstance(s.op, ast.Add):
                self.list_extend(cur, v, st, ctx, s)
                return st
            if isinstance(cur, (SerV, NpV)):
                # in-place on the buffer
                nv = self.binop(type(s.op).__name__, cur, v, st, ctx, s)
                self.write_arr(cur.arr, self.sig(nv, st), st, ctx, s)
                return st
            if isinstance(cur, RFrmV):
                self.emit("write_frame", st, s, ctx, oid=cur.oid, tag=st.heap[cur.oid].tag, col=None, what="where")
            elif isinstance(cur, T) and cur.id in self.views:
                self.emit("write_series", st, s, ctx, obj=cur, what="augmented assignment", tag=self.views[cur.id])
            self.assign(s.target, self.binop(type(s.op).__name__, cur, v, st, ctx, s), st, ctx)
            return st
        if isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, st, ctx)
            cur = self.getattr(o, s.target.attr, st, ctx, s)
            v = self.eval(s.value, st, ctx)
            if isinstance(cur, RefV) and isinstance(st.heap.get(cur.oid), ListRec) and isinstance(s.op, ast.Add):
                self.list_extend(cur, v, st, ctx, s)
                return st
            if isinstance(cur, (SerV, NpV)):
                nv = self.binop(type(s.op).__name__, cur, v, st, ctx, s)
                self.write_arr(cur.arr, self.sig(nv, st), st, ctx, s)
                return st
            self.setattr(o, s.target.attr, self.binop(type(s.op).__name__, cur, v, st, ctx, s), st, ctx, s)
            return st
        if isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, st, ctx)
            k = self.eval_index(s.target.slice, st, ctx)
            cur = self.getitem(o, k, st, ctx, s)
            v = self.eval(s.value, st, ctx)
            self.setitem(o, k, self.binop(type(s.op).__name__, cur, v, st, ctx, s), st, ctx, s)
        return st

    def outlive(self, where, name, v, st):
        """an assignment to a module or class variable: kept until the next run is started (Project.restore)"""
        old = where.get(name, UNSET)
        self.project.undo.append((where, name, old))
        g = st.pc()
        where[name] = v if old is UNSET or g is TRUE else choice(g, v, old)

    def assign(self, t, v, st, ctx):
        if isinstance(t, ast.Name):
            if t.id in ctx.globals_:
                self.emit("write_global", st, t, ctx, name=t.id)
                self.outlive(ctx.module.env, t.id, v, st)
                return
            st.env[t.id] = v
            gone = st.env.get("__unset__")
            if gone and t.id in gone:
                st.env["__unset__"] = {k: g for k, g in gone.items() if k != t.id}
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, ctx, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, ctx)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, ctx)
            self.setattr(o, t.attr, v, st, ctx, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, ctx)
            k = self.eval_index(t.slice, st, ctx)
            self.setitem(o, k, v, st, ctx, t)

    def unpack(self, elts, v, st, ctx, node):
        def f(st, v):
            items = self.concrete_items(v, st)
            if items is not None and any(isinstance(e, ast.Starred) for e in elts):
                k = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)][0]
                tail = len(elts) - k - 1
                mid = items[k:len(items) - tail]
                items = items[:k] + [self.mklist(mid, st)] + (items[len(items) - tail:] if tail else [])
            if items is None or len(items) != len(elts):
                items = [self.getitem(v, const(i), st, ctx, node) if not isinstance(v, T) or not v.opq
                         else mk("opq", "unpack%d" % i, self.sig(v, st)) for i in range(len(elts))]
            return TupV(items)
        r = self.lift(f, st, v)
        if isinstance(r, ChoiceV):
            r = TupV([self.choice_item(r, i) for i in range(len(elts))])
        for e, x in zip(elts, r.items):
            self.assign(e, x, st, ctx)

    def choice_item(self, v, i):
        if isinstance(v, ChoiceV):
            return choice(v.c, self.choice_item(v.a, i), self.choice_item(v.b, i))
        return v.items[i]

    def x_If(self, s, st, ctx):
        c = self.cond(s.test, st, ctx)
        if st.dead:
            return st
        if c is TRUE:
            return self.exec_block(s.body, st, ctx)
        if c is FALSE:
            return self.exec_block(s.orelse, st, ctx)
        a = self.exec_block(s.body, st.fork(c), ctx)
        b = self.exec_block(s.orelse, st.fork(not_(c)), ctx)
        return self.merge(st, c, a, b)

    def x_With(self, s, st, ctx):
        for it in s.items:
            v = self.eval(it.context_expr, st, ctx)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, ctx)
        return self.exec_block(s.body, st, ctx)

    def x_Match(self, s, st, ctx):
        subj = self.eval(s.subject, st, ctx)

        def go(cases, st):
            if not cases:
                return st
            c = cases[0]
            p = self.pattern(c.pattern, subj, st, ctx)
            if p is None:
                self.unknown.append(("match", ctx.module.path, s.lineno))
                return st
            cond, binds = p
            a = st.fork(cond)
            for k, v in binds:
                a.env[k] = v
            if c.guard is not None:
                g = self.cond(c.guard, a, ctx)
                a = st.fork(and_(cond, g))
                for k, v in binds:
                    a.env[k] = v
                cond = and_(cond, g)
            if cond is FALSE:
                return go(cases[1:], st)
            a = self.exec_block(c.body, a, ctx)
            if cond is TRUE:
                st.become(a) if False else None
                m = self.merge(st, TRUE, a, self._deadst(st))
                return m
            b = go(cases[1:], st.fork(not_(cond)))
            return self.merge(st, cond, a, b)

        return go(s.cases, st)

    def _deadst(self, st):
        d = st.copy()
        d.dead = True
        return d

    def pattern(self, p, v, st, ctx):
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ([(p.name, v)] if p.name else [])
            r = self.pattern(p.pattern, v, st, ctx)
            return None if r is None else (r[0], r[1] + ([(p.name, v)] if p.name else []))
        if isinstance(p, ast.MatchValue):
            return truth(self.compare1("Eq", v, self.eval(p.value, st, ctx), st, ctx, p)), []
        if isinstance(p, ast.MatchSingleton):
            return truth(self.compare1("Is", v, const(p.value), st, ctx, p)), []
        if isinstance(p, ast.MatchOr):
            rs = [self.pattern(q, v, st, ctx) for q in p.patterns]
            if any(r is None for r in rs):
                return None
            return or_(*[r[0] for r in rs]), []
        if isinstance(p, ast.MatchSequence):
            items = self.concrete_items(v, st)
            if items is None or len(items) != len(p.patterns):
                return None
            cs, bs = [], []
            for q, x in zip(p.patterns, items):
                r = self.pattern(q, x, st, ctx)
                if r is None:
                    return None
                cs.append(r[0])
                bs += r[1]
            return and_(*cs), bs
        return None

    # -- try
    def x_Try(self, s, st, ctx):
        names_all = []
        bare = False
        for h in s.handlers:
            if h.type is None:
                bare = True
            else:
                names_all += self.handler_names(h.type, st, ctx)
        saved = ctx.exits
        ctx.exits = []
        saved_loops = ctx.loops
        body = st.enter()
        if s.handlers:
            ctx.trys.append(None if bare else names_all)
        inner_loops = [([], []) for _ in saved_loops]
        ctx.loops = inner_loops
        body = self.exec_block(s.body, body, ctx)
        if s.handlers:
            ctx.trys.pop()
        if not body.dead and s.orelse:
            body = self.exec_block(s.orelse, body, ctx)
        captured = ctx.exits
        # build result: list of (local pc, state) alternatives
        alts = []
        out = []
        for e in captured:
            handled = False
            if e.kind == "raise":
                for h in s.handlers:
                    if h.type is None or any(self.exc_isa(e.value, n) for n in self.handler_names(h.type, st, ctx)):
                        hs = State(dict(e.st.env), dict(e.st.heap), body.entry, e.pc)
                        hs.env["__exc__"] = e.value
                        if h.name:
                            hs.env[h.name] = e.value
                        ctx.exits = []
                        hs = self.exec_block(h.body, hs, ctx)
                        out.extend(ctx.exits)
                        if not hs.dead:
                            alts.append((and_(hs.pc0, hs.rel), hs))
                        handled = True
                        break
            if not handled:
                out.append(e)
        ctx.exits = []
        ctx.loops = saved_loops

        def run_final(state, pc):
            if not s.finalbody:
                return state
            fs = State(dict(state.env), dict(state.heap), body.entry, pc)
            fs = self.exec_block(s.finalbody, fs, ctx)
            return fs

        # fall-through state
        cur = None
        if not body.dead:
            cur = body
        for pc, hs in alts:
            if cur is None:
                cur = hs
                cur.pc0, cur.rel = TRUE, pc
            else:
                base = State(None, None, body.entry)
                m = self.merge(base, pc, hs_clean(hs), cur_clean(cur))
                m.rel = or_(pc, cur.pc())
                m.pc0 = TRUE
                cur = m
        res_exits = []
        P = st.pc()
        for e in out:
            fs = run_final(e.st, e.pc)
            if s.finalbody:
                if fs.dead:
                    continue
                e = Exit(e.kind, e.value, fs.pc(), fs, e.node, e.file)
            e.pc = and_(P, e.pc)
            e.st.pc0, e.st.rel, e.st.entry = e.pc, TRUE, st.entry
            res_exits.append(e)
        extra = ctx.exits
        for e in extra:
            e.pc = and_(P, e.pc)
        # loop exits inside the try body
        for (outer, inner) in zip(saved_loops, inner_loops):
            for dst, src in zip(outer, inner):
                for (pc, ls) in src:
                    fs = run_final(ls, pc)
                    if not fs.dead:
                        ls2 = State(fs.env, fs.heap, st.entry, and_(P, fs.pc()))
                        dst.append((and_(P, fs.pc()), ls2))
        ctx.exits = saved
        ctx.exits.extend(res_exits)
        ctx.exits.extend(extra)
        if cur is None:
            st.dead = True
            return st
        lp = cur.pc()
        if s.finalbody:
            e0 = ctx.exits
            ctx.exits = []
            cur = run_final(cur, lp)
            for e in ctx.exits:
                e.pc = and_(P, e.pc)
            e0.extend(ctx.exits)
            ctx.exits = e0
            lp = cur.pc()
            if cur.dead:
                st.dead = True
                return st
        m = State(cur.env, cur.heap, st.entry, st.pc0, and_(st.rel, lp))
        m.env.pop("__exc__", None)
        return m

    x_TryStar = x_Try

    def handler_names(self, node, st, ctx):
        if isinstance(node, ast.Tuple):
            return [n for e in node.elts for n in self.handler_names(e, st, ctx)]
        v = self.eval(node, st, ctx)
        if isinstance(v, ClsV):
            return [v.info.name]
        if isinstance(v, ExtV):
            return [v.path.split(".")[-1]]
        if isinstance(v, TupV):
            return [x.path.split(".")[-1] if isinstance(x, ExtV) else x.info.name for x in v.items
                    if isinstance(x, (ExtV, ClsV))]
        return ["Exception"]

    def exc_isa(self, v, name):
        if isinstance(v, ExcV):
            if v.cls == "any":
                return True
            return v.cls == name or name in v.bases or name in ("Exception", "BaseException")
        return name in ("Exception", "BaseException")

    def may_raise(self, kind, cond, st, node, ctx, implicit=True):
        """An operation raises `kind` under cond: add an exit if somebody catches it."""
        if cond is FALSE or st.dead:
            return
        if ctx.catches(kind):
            v = ExcV(kind, {}, EXC_BASES.get(kind, ("Exception",)))
            s2 = st.fork(cond)
            ctx.exits.append(Exit("raise", v, s2.pc(), s2, node, ctx.module.path))
            st.rel = and_(st.rel, not_(cond))
            return True
        self.emit("uncaught", st, node, ctx, cls=kind, cond=cond)
        return False

    # -- loops
    def x_Break(self, s, st, ctx):
        ctx.loops[-1][0].append((st.pc(), st.copy()))
        st.dead = True
        return st

    def x_Continue(self, s, st, ctx):
        ctx.loops[-1][1].append((st.pc(), st.copy()))
        st.dead = True
        return st

    def settle_unset(self, s, st):
        """names a loop assigns: their state at its start is not tracked into it"""
        gone = st.env.get("__unset__")
        if gone:
            names = self.assigned_names([s])
            st.env["__unset__"] = {k: g for k, g in gone.items() if k not in names}

    def x_For(self, s, st, ctx):
        self.settle_unset(s, st)
        it = self.eval(s.iter, st, ctx)
        if st.dead:
            return st
        items = self.concrete_items(it, st)
        if items is not None and len(items) <= MAX_UNROLL:
            return self.unrolled(s, items, st, ctx)
        seq = self.as_seq(it, st, ctx, s)
        if seq is None:
            return self.havoc_loop(s, st, ctx)
        return self.symbolic_loop(s, seq, st, ctx)

    def unrolled(self, s, items, st, ctx):
        base = st
        cur = st
        breaks = []
        for x in items:
            ctx.loops.append(([], []))
            body = cur.fork(TRUE)
            self.assign(s.target, x, body, ctx)
            body = self.exec_block(s.body, body, ctx)
            brk, cont = ctx.loops.pop()
            for pc, cs in cont:
                body = self.merge_alt(cur, pc, cs, body)
            breaks += brk
            if body.dead:
                cur = body
                break
            body.rel = and_(cur.rel, body.rel)
            body.pc0 = cur.pc0
            cur = body
        if s.orelse and not cur.dead:
            cur = self.exec_block(s.orelse, cur, ctx)
        for pc, bs in reversed(breaks):
            cur = self.merge_alt(base, pc, bs, cur)
        if cur.dead:
            base.dead = True
            return base
        m = State(cur.env, cur.heap, base.entry, base.pc0, cur.rel)
        return m

    def merge_alt(self, base, pc, alt, cur):
        """Alternative state `alt` holding under absolute-in-function pc, else cur."""
        a = State(alt.env, alt.heap, base.entry)
        c = strip(pc, base)
        if cur.dead:
            b = State(cur.env, cur.heap, base.entry)
            b.dead = True
            m = State(a.env, a.heap, base.entry, base.pc0, and_(base.rel, c))
            return m
        b = State(cur.env, cur.heap, base.entry)
        m = self.merge(State(None, None, base.entry), c, a, b)
        m.pc0 = base.pc0
        m.rel = or_(and_(base.rel, c), cur.rel) if not (cur.rel is TRUE) else TRUE
        if cur.rel is not TRUE:
            # complement merge: if the two alternatives cover each other the guard is unchanged
            if and_(base.rel, not_(c)) is cur.rel:
                m.rel = base.rel
        return m

    def x_While(self, s, st, ctx):
        self.settle_unset(s, st)
        r = self.counted_while(s, st, ctx)
        if r is not None:
            return r
        # try bounded concrete unrolling
        cur = st.copy()
        n_ex = len(ctx.exits)
        cp = (len(self.events), len(self.unknown))
        for k in range(MAX_UNROLL):
            c = self.cond(s.test, cur, ctx)
            if c is FALSE:
                if s.orelse:
                    cur = self.exec_block(s.orelse, cur, ctx)
                return cur
            if c is not TRUE:
                break
            ctx.loops.append(([], []))
            body = self.exec_block(s.body, cur, ctx)
            brk, cont = ctx.loops.pop()
            if brk or cont:
                break
            cur = body
            if cur.dead:
                return cur
        del ctx.exits[n_ex:]
        del self.events[cp[0]:]
        del self.unknown[cp[1]:]
        return self.havoc_loop(s, st, ctx)

    def counted_while(self, s, st, ctx):
        """while i < hi: ...; i += k   ->  symbolic range loop."""
        t = s.test
        extra = None
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            extra = t.values[1:]
            t = t.values[0]
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        l, op, r = t.left, t.ops[0], t.comparators[0]
        var = None
        if isinstance(l, ast.Name) and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.NotEq)):
            var, bound = l.id, r
        elif isinstance(r, ast.Name) and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            var, bound = r.id, l
            op = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(op)]()
        if var is None:
            return None
        if var not in st.env and isinstance(bound, ast.Name):
            return None
        # the only update of var is a top-level `var += const`
        ups = [x for x in ast.walk(ast.Module(s.body, [])) if isinstance(x, (ast.AugAssign, ast.Assign, ast.For))
               and any(isinstance(y, ast.Name) and y.id == var and isinstance(y.ctx, ast.Store)
                       for y in ast.walk(x.target if not isinstance(x, ast.Assign) else ast.Tuple(x.targets, ast.Store())))]
        if len(ups) != 1 or ups[0] not in s.body:
            return None
        up = ups[0]
        step = None
        if isinstance(up, ast.AugAssign) and isinstance(up.value, ast.Constant) and isinstance(up.value.value, int):
            if isinstance(up.op, ast.Add):
                step = up.value.value
            elif isinstance(up.op, ast.Sub):
                step = -up.value.value
        elif isinstance(up, ast.Assign) and isinstance(up.value, ast.BinOp) and isinstance(up.value.left, ast.Name) \
                and up.value.left.id == var and isinstance(up.value.right, ast.Constant) \
                and isinstance(up.value.right.value, int):
            if isinstance(up.value.op, ast.Add):
                step = up.value.right.value
            elif isinstance(up.value.op, ast.Sub):
                step = -up.value.right.value
        if step not in (1, -1):
            return None
        # body mustn't read var after the update (other than as var+step): require update last,
        # or no later reads, and no `continue` before the update
        k = s.body.index(up)
        later = s.body[k + 1:]
        has_cont = any(isinstance(x, ast.Continue) for b in s.body[:k] for x in ast.walk(b))
        if has_cont:
            return None
        init = st.env.get(var)
        if not isinstance(init, T):
            return None
        hi = self.eval(bound, st, ctx)
        if not isinstance(hi, T):
            return None
        if step == 1:
            if isinstance(op, ast.LtE):
                hi = add(hi, ONE)
            elif isinstance(op, ast.Lt) or isinstance(op, ast.NotEq):
                pass
            else:
                return None
        else:
            if isinstance(op, ast.GtE):
                hi = sub(hi, ONE)
            elif isinstance(op, (ast.Gt, ast.NotEq)):
                pass
            else:
                return None
        body = s.body[:k] + later
        if later:
            # reads after the update see var+step: rename
            class R(ast.NodeTransformer):
                def visit_Name(self, n):
                    if n.id == var and isinstance(n.ctx, ast.Load):
                        return ast.copy_location(ast.BinOp(ast.copy_location(ast.Name(var, ast.Load()), n), ast.Add(),
                                                           ast.copy_location(ast.Constant(step), n)), n)
                    return n
            import copy
            later = [R().visit(copy.deepcopy(x)) for x in later]
            body = s.body[:k] + later
        if extra:
            brk = ast.If(ast.UnaryOp(ast.Not(), ast.BoolOp(ast.And(), extra) if len(extra) > 1 else extra[0]),
                         [ast.Break()], [])
            ast.copy_location(brk, s)
            ast.fix_missing_locations(brk)
            body = [brk] + body
        fs = ast.For(ast.Name(var, ast.Store()), ast.Constant(None), body, s.orelse)
        ast.copy_location(fs, s)
        ast.fix_missing_locations(fs)
        rng = RangeV(init, hi, const(step))
        items = self.concrete_items(rng, st)
        if items is not None and len(items) <= MAX_UNROLL:
            st2 = self.unrolled(fs, items, st, ctx)
            if not st2.dead and not any(isinstance(x, ast.Break) for b in body for x in ast.walk(b)):
                st2.env[var] = hi
            return st2
        st2 = self.symbolic_loop(fs, self.as_seq(rng, st, ctx, s), st, ctx)
        if not st2.dead:
            st2.env[var] = ite(compare("lt", init, hi) if step == 1 else compare("lt", hi, init), hi, init) \
                if not any(isinstance(x, ast.Break) for b in body for x in ast.walk(b)) else mk("opq", "whilevar", init, hi)
        return st2

    def assigned_names(self, stmts):
        out = set()
        for b in stmts:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    out.add(x.id)
        return out

    def read_before_assigned(self, s):
        """names of the loop body whose value may come from an earlier iteration: read where the iteration has not
        certainly assigned them, assigned elsewhere in the body"""
        got = set()

        def reads(e, D):
            bound = set()
            for x in ast.walk(e):
                if isinstance(x, ast.comprehension):
                    bound |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
                elif isinstance(x, ast.Lambda):
                    bound |= {y.arg for y in x.args.args}
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in D and x.id not in bound:
                    got.add(x.id)

        def targets(t):
            return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

        def meet(*ds):
            ds = [d for d in ds if d is not None]
            return set.intersection(*ds) if ds else None

        def flow(stmts, D):
            for x in stmts:
                if D is None:
                    return None
                if isinstance(x, ast.If):
                    reads(x.test, D)
                    D |= targets(x.test)
                    D = meet(flow(x.body, set(D)), flow(x.orelse, set(D)))
                elif isinstance(x, ast.For):
                    reads(x.iter, D)
                    flow(x.body, D | targets(x.target))
                    flow(x.orelse, set(D))
                elif isinstance(x, ast.While):
                    reads(x.test, D)
                    flow(x.body, set(D))
                elif isinstance(x, ast.Try):
                    b = flow(x.body, set(D))
                    b = flow(x.orelse, b) if b is not None else None
                    D = meet(b, *[flow(h.body, D | ({h.name} if h.name else set())) for h in x.handlers])
                    if D is not None:
                        D = flow(x.finalbody, D)
                elif isinstance(x, ast.With):
                    for it in x.items:
                        reads(it.context_expr, D)
                        if it.optional_vars is not None:
                            D |= targets(it.optional_vars)
                    D = flow(x.body, D)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    D.add(x.name)
                elif isinstance(x, ast.AugAssign):
                    reads(x.value, D)
                    if isinstance(x.target, ast.Name):
                        if x.target.id not in D:
                            got.add(x.target.id)
                        D.add(x.target.id)
                    else:
                        reads(x.target, D)
                else:
                    reads(x, D)
                    D |= targets(x)
                    if isinstance(x, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                        return None
            return D
        flow(s.body, targets(s.target))
        return got & self.assigned_names(s.body)

    def havoc_loop(self, s, st, ctx):
        """Loop of unknown shape: everything it may change becomes opaque."""
        self.unknown.append(("loop", ctx.module.path, s.lineno))
        if isinstance(s, ast.For):
            names = self.assigned_names(s.body + [ast.Expr(s.target)]) | self.assigned_names([ast.Assign([s.target], ast.Constant(0))])
        else:
            names = self.assigned_names(s.body)
        before = st.copy()
        uid = self.fresh()

        def havoc(state):
            for nm in names:
                v = state.env.get(nm)
                state.env[nm] = self.havoc_value(v, state, ("hv", s.lineno, nm))
        s1 = st.fork(mk("opq", "loopguard", const(s.lineno)))
        havoc(s1)
        if isinstance(s, ast.For):
            self.assign(s.target, mk("opq", "iter", const(s.lineno)), s1, ctx)
        # two passes so that writes to heap objects are seen and become opaque
        for _ in range(2):
            ctx.loops.append(([], []))
            s2 = self.exec_block(s.body, s1.copy(), ctx)
            brk, cont = ctx.loops.pop()
            alts = [x for _, x in brk + cont] + ([] if s2.dead else [s2])
            changed = {}
            for a in alts:
                for oid, r in a.heap.items():
                    r0 = s1.heap.get(oid)
                    if r0 is not None and r0.key() != r.key():
                        changed.setdefault(oid, []).append(r)
            for oid, rs in changed.items():
                s1.heap[oid] = self.havoc_rec(s1.heap[oid], s.lineno, rs)
            self.mute += 1
        self.mute -= 2
        m = State(s1.env, s1.heap, st.entry, st.pc0, st.rel)
        havoc(m)
        return m

    def havoc_value(self, v, st, tag):
        t = mk("opq", "havoc", const(str(tag[-1])))
        if isinstance(v, SerV):
            r = st.heap[v.arr]
            return SerV(self.new(st, ArrRec(mk("opq", "havocS", const(str(tag[-1]))), r.n)), v.idx, v.name)
        return t

    def havoc_rec(self, r, line, news=()):
        t = mk("opq", "havoc", const(line))
        if isinstance(r, ArrRec):
            return ArrRec(t, r.n, r.tag)
        if isinstance(r, ListRec):
            return ListRec(t=t, n=mk("opq", "havoclen", const(line)), tag=r.tag)
        if isinstance(r, RFrmRec):
            return RFrmRec(t, r.tag, r.extra)
        if isinstance(r, InstRec):
            at = dict(r.attrs)
            for x in news:
                for k, v in x.attrs.items():
                    if k not in at or vkey(at[k]) != vkey(v):
                        at[k] = t
            return InstRec(r.cls, at, r.tag, r.sub)
        return r

    # symbolic loops -------------------------------------------------------
    def symbolic_loop(self, s, seq, st, ctx):
        """for target in seq (n unknown): summarise as recurrences."""
        uid = self.fresh()
        lv = mk("lv", uid)
        lo, hi, step, getter = seq
        self.lvrange[uid] = (lo, hi, step)
        down = is_num(step) and num(step) < 0
        rng = and_(compare("le", lo, lv), compare("lt", lv, hi)) if not down else \
            and_(compare("le", lv, lo), compare("lt", hi, lv))
        keys = []          # ordered loop-carried locations
        inits = {}
        for nm in self.read_before_assigned(s):
            if nm not in st.env:
                st.env[nm] = mk("opq", "unbound:" + nm)

        def start(fin):
            b = st.enter()
            if fin:
                b.rel = rng
            for j, k in enumerate(keys):
                self.set_loc(k, self.mu_value(k, uid, j, st, lv, seq), b)
            self.assign(s.target, getter(lv, b), b, ctx)
            return b

        saved = ctx.exits
        self.mute += 1
        try:
            for _ in range(5):
                ctx.exits = []
                ctx.loops.append(([], []))
                b = start(False)
                pre = b.copy()
                b = self.exec_block(s.body, b, ctx)
                brk, cont = ctx.loops.pop()
                alts = [x for _, x in cont + brk] + ([] if b.dead else [b]) + [e.st for e in ctx.exits]
                newk = []
                tnames = self.assigned_names([ast.Assign([s.target], ast.Constant(0))])
                for a in alts:
                    for k, v in a.env.items():
                        if k in tnames or k.startswith("__"):
                            continue
                        v0 = pre.env.get(k, UNSET)
                        if v0 is UNSET:
                            continue
                        if v is not v0 and vkey(v) != vkey(v0):
                            key = ("env", k)
                            if key not in keys and key not in newk:
                                newk.append(key)
                    for oid, r in a.heap.items():
                        r0 = pre.heap.get(oid)
                        if r0 is None or r0 is r:
                            continue
                        for key in self.diff_rec(oid, r0, r):
                            if key not in keys and key not in newk:
                                newk.append(key)
                if not newk:
                    break
                keys += newk
        finally:
            self.mute -= 1
            ctx.exits = saved
        # final pass
        saved = ctx.exits
        ctx.exits = []
        ctx.loops.append(([], []))
        b = start(True)
        body = self.exec_block(s.body, b, ctx)
        brk, cont = ctx.loops.pop()
        it_exits = ctx.exits
        ctx.exits = saved
        for pc, cs in reversed(cont):
            if body.dead:
                body = State(cs.env, cs.heap, cs.entry, TRUE, pc)
            else:
                m = self.merge(State(None, None, body.entry), pc, State(cs.env, cs.heap, cs.entry),
                               State(body.env, body.heap, body.entry))
                m.rel = or_(pc, body.pc())
                body = m
        P = st.pc()
        res = State(dict(st.env), dict(st.heap), st.entry, st.pc0, st.rel)
        # heap objects created in the body stay reachable through modified locations
        for src in ([body] if not body.dead else []) + [x for _, x in brk] + [e.st for e in it_exits]:
            for oid, r in src.heap.items():
                if oid not in res.heap:
                    res.heap[oid] = r
        strip_r = lambda pc: strip_facts(pc, rng)
        brk_pc = or_(*[strip_r(pc) for pc, _ in brk]) if brk else FALSE
        bodyterms = {}
        for j, k in enumerate(keys):
            bodyterms[j] = self.get_loc_term(k, body) if not body.dead else None
        inits = {j: self.get_loc_term(k, st) for j, k in enumerate(keys)}
        mus = {j: self.mu_term(k, uid, j, st) for j, k in enumerate(keys)}
        self.loopinfo[uid] = (lo, hi, step, rng, dict(inits), dict(bodyterms), dict(mus))
        rets = [e for e in it_exits if e.kind == "return"]
        raises = [e for e in it_exits if e.kind == "raise"]
        for j, k in enumerate(keys):
            v = None
            if brk:
                bv = None
                for pc, bs in reversed(brk):
                    t = self.get_loc_term(k, bs)
                    if t is None:
                        bv = None
                        break
                    bv = t if bv is None else ite(strip_r(pc), t, bv)
                if body.dead or bodyterms[j] is mus[j]:
                    if bv is not None and inits[j] is not None:
                        bv2 = subst(bv, {mus[j]: inits[j]})
                        v = self.mk_search(uid, lo, hi, step, brk_pc, bv2, inits[j], keys, mus)
                if v is None:
                    v = mk("opq", "loopbrk", const(s.lineno), const(j))
            else:
                v = self.loop_value(uid, j, k, lo, hi, step, inits, bodyterms, mus, st)
            self.set_loc(k, self.loc_value(k, v, st, res, lo, hi, step, uid, bodyterms.get(j)), res)
        # body-local temporaries have no meaning after the loop
        live = body.env if not body.dead else (brk[0][1].env if brk else {})
        for k in live:
            if k not in res.env and not k.startswith("__"):
                res.env[k] = mk("opq", "looptemp", const(k))
        # exits
        def any_pc(pcs):
            return self.mk_exists(uid, lo, hi, step, or_(*[strip_r(p) for p in pcs]), mus)
        if raises:
            for e in raises:
                pc = any_pc([e.pc])
                ctx.exits.append(Exit("raise", e.value, and_(P, pc), State(st.env, e.st.heap, st.entry, and_(P, pc)),
                                      e.node, e.file))
        if rets:
            pc = any_pc([e.pc for e in rets])
            allp = or_(*[strip_r(e.pc) for e in rets] + ([brk_pc] if brk else []))
            if brk:
                pc = self.mk_search(uid, lo, hi, step, allp, or_(*[strip_r(e.pc) for e in rets]), FALSE, keys, mus)
            val = None
            for e in reversed(rets):
                if val is None:
                    val = e.value
                elif isinstance(val, T) and isinstance(e.value, T):
                    val = ite(strip_r(e.pc), e.value, val)
                else:
                    ck = self.mk_search(uid, lo, hi, step, allp, strip_r(e.pc), FALSE, keys, mus)
                    val = choice(ck, e.value, val)
            if isinstance(val, T) and not is_const(val):
                val = self.mk_search(uid, lo, hi, step, allp, val, NONE, keys, mus)
            hs = State(dict(st.env), rets[-1].st.heap, st.entry, and_(P, pc))
            ctx.exits.append(Exit("return", val, and_(P, pc), hs, rets[0].node, rets[0].file))
            res.rel = and_(res.rel, not_(pc))
        if raises:
            res.rel = and_(res.rel, not_(any_pc([e.pc for e in raises])))
        if s.orelse:
            if brk:
                c = self.mk_exists(uid, lo, hi, step, brk_pc, mus)
                r2 = res.fork(not_(c))
                r2 = self.exec_block(s.orelse, r2, ctx)
                return self.merge(res, not_(c), r2, res.fork(c))
            return self.exec_block(s.orelse, res, ctx)
        return res

    def mu_term(self, k, uid, j, st):
        kind = self.loc_kind(k, st)
        return mk("muS" if kind == "arr" else "mu", uid, j)

    def loc_kind(self, k, st):
        if k[0] == "arr" or k[0] == "list":
            return "arr"
        if k[0] == "env":
            v = st.env.get(k[1])
            if isinstance(v, (SerV, NpV)):
                return "arr"
            if isinstance(v, RFrmV):
                return "rfrm"
        if k[0] == "rfrm":
            return "rfrm"
        return "scalar"

    def mu_value(self, k, uid, j, st, lv, seq):
        kind = self.loc_kind(k, st)
        if k[0] in ("arr", "rfrm"):
            return mk("muS" if kind == "arr" else "mu", uid, j)
        if k[0] == "list":
            return ("listmu", mk("muS", uid, j), lv, seq)
        if k[0] == "env":
            v = st.env.get(k[1])
            if isinstance(v, SerV):
                return ("ser", v.idx, st.heap[v.arr].n, mk("muS", uid, j), v.name)
            if isinstance(v, NpV):
                return ("np", st.heap[v.arr].n, mk("muS", uid, j))
            if isinstance(v, RFrmV):
                return ("rfrm", st.heap[v.oid], mk("mu", uid, j))
            if isinstance(v, RefV) or isinstance(v, FrmV):
                return mk("opq", "loopref", const(k[1]))
            return mk("mu", uid, j)
        return mk("mu", uid, j)

    def set_loc(self, k, v, st):
        if k[0] == "env":
            if isinstance(v, tuple):
                if v[0] == "ser":
                    oid = self.new(st, ArrRec(v[3], v[2]))
                    st.env[k[1]] = SerV(oid, v[1], v[4])
                elif v[0] == "np":
                    st.env[k[1]] = NpV(self.new(st, ArrRec(v[2], v[1])))
                elif v[0] == "rfrm":
                    r = v[1]
                    st.env[k[1]] = RFrmV(self.new(st, RFrmRec(v[2], r.tag, r.extra)))
                return
            st.env[k[1]] = v
        elif k[0] == "arr":
            r = st.heap[k[1]]
            st.heap[k[1]] = ArrRec(v, r.n, r.tag)
        elif k[0] == "rfrm":
            r = st.heap[k[1]]
            st.heap[k[1]] = RFrmRec(v, r.tag, r.extra)
        elif k[0] == "attr":
            r = st.heap[k[1]]
            at = dict(r.attrs)
            at[k[2]] = v
            st.heap[k[1]] = InstRec(r.cls, at, r.tag, r.sub)
        elif k[0] == "dict":
            st.heap[k[1]] = DictRec({}, st.heap[k[1]].tag, True)       # keys that vary: any content
        elif k[0] == "item":
            r = st.heap[k[1]]
            it = dict(r.items)
            it[k[2]] = v
            st.heap[k[1]] = DictRec(it, r.tag, r.open)
        elif k[0] == "list":
            r = st.heap[k[1]]
            if isinstance(v, tuple) and v[0] == "listmu":
                _, mu, lv, (lo, hi, step, _g) = v
                base = const(len(r.items)) if r.items is not None else r.n
                st.heap[k[1]] = ListRec(t=mu, n=add(base, sub(lv, lo)), tag=r.tag, meta="grow")
            elif isinstance(v, ListRec):
                st.heap[k[1]] = v
            else:
                st.heap[k[1]] = ListRec(t=v, n=mk("opq", "len"), tag=r.tag)

    def get_loc_term(self, k, st):
        if k[0] == "env":
            v = st.env.get(k[1])
            if isinstance(v, T):
                return v
            if isinstance(v, (SerV, NpV)):
                return st.heap[v.arr].t
            if isinstance(v, RFrmV):
                return st.heap[v.oid].t
            if isinstance(v, ChoiceV):
                return self.sig(v, st)
            return mk("opq", "locval", self.sig(v, st) if v is not None else NONE)
        r = st.heap.get(k[1])
        if r is None:
            return None
        if k[0] in ("arr", "rfrm"):
            return r.t
        if k[0] == "dict":
            return mk("opq", "dict", *[const(keytext(x)) for x in r.items], *[self.sig(v, st) for v in r.items.values()])
        if k[0] == "list":
            if r.items is not None:
                return mk("listlit", *[self.sig(x, st) for x in r.items])
            return r.t
        if k[0] == "attr":
            v = r.attrs.get(k[2])
            return self.sig(v, st) if v is not None else mk("opq", "unset")
        if k[0] == "item":
            v = r.items.get(k[2])
            return self.sig(v, st) if v is not None else mk("opq", "unset")

    def loc_value(self, k, v, st0, st, lo, hi, step, uid, body):
        """Turn the summary term v back into the kind of value living at k."""
        if k[0] == "env":
            o = st0.env.get(k[1])
            if isinstance(o, SerV):
                return ("ser", o.idx, st0.heap[o.arr].n, v, o.name)
            if isinstance(o, NpV):
                return ("np", st0.heap[o.arr].n, v)
            if isinstance(o, RFrmV):
                return ("rfrm", st0.heap[o.oid], v)
        if k[0] == "list":
            r0 = st0.heap[k[1]]
            base = const(len(r0.items)) if r0.items is not None else r0.n
            cnt = self.range_count(lo, hi, step)
            if v.op == "opq":
                return ListRec(t=v, n=mk("opq", "len", cnt), tag=r0.tag)
            return ListRec(t=v, n=add(base, cnt), tag=r0.tag)
        return v

    def range_count(self, lo, hi, step):
        if is_num(step) and num(step) == 1:
            return sub(hi, lo)
        if is_num(step) and num(step) == -1:
            return sub(lo, hi)
        return mk("floor", div(sub(hi, lo), step))

    def diff_rec(self, oid, r0, r):
        out = []
        if isinstance(r, ArrRec):
            if r.t is not r0.t:
                out.append(("arr", oid))
        elif isinstance(r, RFrmRec):
            if r.t is not r0.t:
                out.append(("rfrm", oid))
        elif isinstance(r, ListRec):
            if r.key() != r0.key():
                out.append(("list", oid))
        elif isinstance(r, InstRec):
            for k, v in r.attrs.items():
                v0 = r0.attrs.get(k)
                if v0 is None or vkey(v0) != vkey(v):
                    out.append(("attr", oid, k))
        elif isinstance(r, DictRec):
            if r.key() != r0.key() and (r.open or not all(self.fixed_key(k) for k in r.items)):
                return [("dict", oid)]
            for k, v in r.items.items():
                v0 = r0.items.get(k)
                if v0 is None or vkey(v0) != vkey(v):
                    out.append(("item", oid, k))
        return out

    def close(self, uid, *ts):
        """Rename the open loop variable to a canonical bound name (by binder height)."""
        h = 0
        for t in ts:
            if t is None:
                continue
            for x in subterms(t):
                if x.op in ("lv", "mu", "muS") and isinstance(x.args[0], str):
                    if x.args[0][1:].isdigit():
                        h = max(h, int(x.args[0][1:]))
        nm = "b%d" % (h + 1)
        m = {mk("lv", uid): mk("lv", nm)}
        for t in ts:
            if t is None:
                continue
            for x in subterms(t):
                if x.op in ("mu", "muS") and x.args[0] == uid:
                    m[x] = mk(x.op, nm, *x.args[1:])
        return nm, [subst(t, m) if t is not None else None for t in ts]

    def norm_range(self, lo, hi, step):
        """Order-free iteration space: ascending."""
        if is_num(step) and num(step) == -1:
            return add(hi, ONE), add(lo, ONE), ONE
        return lo, hi, step

    def mk_exists(self, uid, lo, hi, step, cond, mus=None):
        if cond is FALSE:
            return FALSE
        if not any(x is mk("lv", uid) or (x.op in ("mu", "muS") and x.args[0] == uid) for x in subterms(cond)):
            nonempty = compare("lt", lo, hi) if not (is_num(step) and num(step) < 0) else compare("lt", hi, lo)
            return and_(cond, nonempty)
        if any(x.op in ("mu", "muS") and x.args[0] == uid for x in subterms(cond)):
            return mk("opq", "existsmu", cond)
        lo2, hi2, st2 = self.norm_range(lo, hi, step)
        # canonical positions: shift so that negative row offsets and positions coincide is left to terms
        nm, (c,) = self.close(uid, cond)
        return mk("exists", nm, lo2, hi2, st2, c)

    def filtered(self, uid, lo, hi, step, filt):
        """number of positions that satisfy a condition"""
        if step is not ONE or any(x.op in ("mu", "muS") and x.args[0] == uid for x in subterms(filt)):
            return mk("opq", "filtlen", filt)
        nm, (c,) = self.close(uid, filt)
        return mk("opI", "filtlen", nm, lo, hi, c)

    def mk_search(self, uid, lo, hi, step, cond, val, default, keys=None, mus=None):
        for x in subterms(cond):
            if x.op in ("mu", "muS") and x.args[0] == uid:
                return mk("opq", "searchmu", cond)
        for x in subterms(val):
            if x.op in ("mu", "muS") and x.args[0] == uid:
                return mk("opq", "searchmu", val)
        if is_boolish(val) and default is FALSE:
            if and_(cond, val) is cond or val is TRUE:
                return self.mk_exists(uid, lo, hi, step, cond, mus)
        if val is default:
            return val
        nm, (c, v) = self.close(uid, cond, val)
        return mk("search", nm, lo, hi, step, c, v, default)

    def loop_value(self, uid, j, k, lo, hi, step, inits, bodies, mus, st):
        lv = mk("lv", uid)
        body, init, mu = bodies.get(j), inits[j], mus[j]
        if body is None or init is None:
            return mk("opq", "loopdead")
        if body is mu:
            return init
        nonempty = compare("lt", lo, hi) if not (is_num(step) and num(step) < 0) else compare("lt", hi, lo)
        uses_mu = any(x.op in ("mu", "muS") and x.args[0] == uid for x in subterms(body))
        if k[0] in ("arr", "list") or mu.op == "muS":
            r0 = st.heap.get(k[1]) if k[0] in ("arr", "list") else st.heap.get(st.env[k[1]].arr) \
                if k[0] == "env" and isinstance(st.env.get(k[1]), (SerV, NpV)) else None
            n0 = None
            if isinstance(r0, ArrRec):
                n0 = r0.n
            elif isinstance(r0, ListRec):
                n0 = add(const(len(r0.items)) if r0.items is not None else r0.n, self.range_count(lo, hi, step))
            v = self.vector_loop(uid, j, lo, hi, step, inits, bodies, mus, n0)
            if v is not None:
                return v
            return self.loopS(uid, j, lo, hi, step, inits, bodies, mus)
        if self.loc_kind(k, st) == "rfrm":
            # frame pipelines: recognised by the typestate fold
            nm, (b, i) = self.close(uid, body, init)
            return mk("opF", "loop", nm, lo, hi, b, i)
        if not uses_mu:
            last = sub(hi, step)
            return ite(nonempty, subst(body, {lv: last}), init)
        own = all(not (x.op in ("mu", "muS") and x.args[0] == uid and x is not mu) for x in subterms(body))
        if own:
            # accumulating flag / last match / sum
            if is_boolish(body) or body.op in ("or", "and"):
                if body.op == "or" and mk("truthy", mu) in body.args:
                    rest = or_(*[a for a in body.args if a is not mk("truthy", mu)])
                    return or_(truth(init), self.mk_exists(uid, lo, hi, step, rest, mus))
                if body.op == "and" and mk("truthy", mu) in body.args:
                    rest = and_(*[a for a in body.args if a is not mk("truthy", mu)])
                    return and_(truth(init), not_(self.mk_exists(uid, lo, hi, step, not_(rest), mus)))
            if body.op == "ite":
                c, a, b2 = body.args
                if b2 is mu and not self.mentions(c, mu) and not self.mentions(a, mu):
                    return self.last_match(uid, lo, hi, step, c, a, init)
                if a is mu and not self.mentions(c, mu) and not self.mentions(b2, mu):
                    return self.last_match(uid, lo, hi, step, not_(c), b2, init)
            if body.op == "or" and mu in body.args:
                rest = or_(*[a for a in body.args if a is not mu])
                return or_(init, self.mk_exists(uid, lo, hi, step, rest, mus))
            inc = sub(body, mu)
            if not self.mentions(inc, mu) and not inc.opq:
                return add(init, self.mk_sumrange(uid, lo, hi, step, inc))
        return self.loopX(uid, j, lo, hi, step, inits, bodies, mus)

    def vector_loop(self, uid, j, lo, hi, step, inits, bodies, mus, n0):
        """Loops that write exactly row lv: independent rows are element-wise terms,
        dependent ones a recurrence in canonical form."""
        if not is_num(step) or abs(num(step)) != 1:
            return None
        lv = mk("lv", uid)
        need, todo = [], [j]
        vals = {}
        off = None
        while todo:
            k = todo.pop(0)
            if k in need:
                continue
            b = bodies.get(k)
            if b is None or inits.get(k) is None:
                return None
            need.append(k)
            if mus[k].op == "muS":
                if b.op != "store" or b.args[0] is not mus[k]:
                    return None
                d = sub(b.args[1], lv)
                if self.mentions(d, lv) or (off is not None and d is not off):
                    return None
                off = d
                vals[k] = b.args[2]
            else:
                vals[k] = b
            for x in subterms(vals[k]):
                if x.op in ("mu", "muS") and x.args[0] == uid and x.args[1] not in need:
                    todo.append(x.args[1])
        if off is not None and off is not ZERO:
            m = {lv: sub(lv, off)}
            vals = {k: subst(v, m) for k, v in vals.items()}
            lo, hi = add(lo, off), add(hi, off)
        # the row about to be written still holds its initial value
        cur = {cell(mus[k], lv): cell(inits[k], lv) for k in need if mus[k].op == "muS"}
        vals = {k: subst(v, cur) for k, v in vals.items()}
        # carried scalars that equal the previously written row
        for k in need:
            if mus[k].op != "mu":
                continue
            for a in need:
                if mus[a].op == "muS" and vals[a] is vals[k] and num(step) == 1 and \
                        cell(inits[a], sub(lo, ONE)) is inits[k]:
                    m = {mus[k]: cell(mus[a], sub(lv, ONE))}
                    vals = {q: subst(v, m) for q, v in vals.items()}
                    break
        used = set()
        for x in subterms(vals[j]):
            if x.op in ("mu", "muS") and x.args[0] == uid:
                used.add(x.args[1])
        lo2, hi2, st2 = self.norm_range(lo, hi, step)
        if not used:
            c = and_(compare("ge", ROW, lo2) if lo2 is not ZERO else TRUE,
                     compare("lt", ROW, hi2) if hi2 is not n0 else TRUE)
            return ite(c, self.lift_abs(vals[j], lv), inits[j])
        # keep only what j needs, in discovery order
        need2, todo = [], [j]
        while todo:
            k = todo.pop(0)
            if k in need2:
                continue
            need2.append(k)
            for x in subterms(vals[k]):
                if x.op in ("mu", "muS") and x.args[0] == uid and x.args[1] not in need2:
                    todo.append(x.args[1])
        ren = {mus[k]: mk(mus[k].op, uid, "#%d" % i) for i, k in enumerate(need2)}
        ts = [subst(vals[k], ren) for k in need2] + [inits[k] for k in need2]
        nm, cl = self.close(uid, *ts)
        n = len(need2)
        return mk("rec", nm, lo, hi, step, tuple((cl[i], cl[n + i]) for i in range(n)))

    def mentions(self, t, x):
        return any(y is x for y in subterms(t))

    def last_match(self, uid, lo, hi, step, c, v, init):
        """value of the last iteration satisfying c = first in reversed order"""
        if is_num(step):
            if is_const(v):
                if is_boolish(v) and v is TRUE and init is FALSE:
                    return self.mk_exists(uid, lo, hi, step, c)
                if not is_boolish(v):
                    return ite(self.mk_exists(uid, lo, hi, step, c), v, init)
                return ite(self.mk_exists(uid, lo, hi, step, c), v, init)
            last = sub(hi, step)
            rlo, rhi, rst = last, sub(lo, step), neg(step)
            return self.mk_search(uid, rlo, rhi, rst, c, v, init)
        return mk("opq", "lastmatch", c, v)

    def mk_sumrange(self, uid, lo, hi, step, body):
        if not self.mentions(body, mk("lv", uid)):
            return mul(body, self.range_count(lo, hi, step))
        lo2, hi2, st2 = self.norm_range(lo, hi, step)
        nm, (b,) = self.close(uid, body)
        return mk("sumrange", nm, lo2, hi2, st2, b)

    def loopX(self, uid, j, lo, hi, step, inits, bodies, mus):
        defs = self.loop_defs(uid, j, inits, bodies, mus)
        if defs is None:
            return mk("opq", "loopX", const(j))
        nm, js, ds = defs
        return mk("loopX", nm, js.index(j), lo, hi, step, ds)

    def loopS(self, uid, j, lo, hi, step, inits, bodies, mus):
        defs = self.loop_defs(uid, j, inits, bodies, mus)
        if defs is None:
            return mk("opq", "loopS", const(j))
        nm, js, ds = defs
        return mk("loopS", nm, js.index(j), lo, hi, step, ds)

    def loop_defs(self, uid, j, inits, bodies, mus):
        need, todo = [], [j]
        while todo:
            k = todo.pop(0)
            if k in need:
                continue
            if bodies.get(k) is None or inits.get(k) is None:
                return None
            need.append(k)
            for x in subterms(bodies[k]):
                if x.op in ("mu", "muS") and x.args[0] == uid and x.args[1] not in need:
                    todo.append(x.args[1])
        # canonical numbering: discovery order from j
        ren = {}
        for i, k in enumerate(need):
            ren[mus[k]] = mk(mus[k].op, uid, "#%d" % i)
        ts = [subst(bodies[k], ren) for k in need] + [inits[k] for k in need]
        nm, cl = self.close(uid, *ts)
        n = len(need)
        ds = tuple((cl[i], cl[n + i]) for i in range(n))
        return nm, need, ds

    # ----------------------------------------------------------- expressions
    def cond(self, node, st, ctx):
        return self.truthv(self.eval(node, st, ctx), st, ctx, node)

    def seq_nonempty(self, v):
        if v.tag and v.tag[0] == "cond":
            return or_(*[g for g, _ in v.tag[1]])
        if v.tag and v.tag[0] == "gen" and v.tag[5] is not TRUE:
            _, uid, lo, hi, step, filt = v.tag[:6]
            return self.mk_exists(uid, lo, hi, step, filt)
        return compare("lt", ZERO, v.n)

    def truthv(self, v, st, ctx, node):
        if isinstance(v, T):
            return truth(v)
        if isinstance(v, ChoiceV):
            return ite(v.c, self.truthv(v.a, st, ctx, node), self.truthv(v.b, st, ctx, node))
        if isinstance(v, TupV):
            return const(len(v.items) > 0)
        if isinstance(v, RefV):
            r = st.heap.get(v.oid)
            if isinstance(r, ListRec):
                if r.items is not None:
                    return const(len(r.items) > 0)
                if r.meta and r.meta[0] == "gen" and isinstance(r.meta[1], SeqV):
                    return self.seq_nonempty(r.meta[1])
                return compare("lt", ZERO, r.n)
            if isinstance(r, DictRec) and not r.open:
                return const(len(r.items) > 0)
            if isinstance(r, InstRec):
                return TRUE
        if isinstance(v, SeqV):
            return self.seq_nonempty(v)
        if isinstance(v, RangeV):
            return compare("lt", v.lo, v.hi)
        if isinstance(v, (FnV, ClsV, ExtV)):
            return TRUE
        if isinstance(v, BoundV):              # a method, or an attribute that is not modelled
            return mk("truthy", mk("opq", "attr:" + v.name, self.sig(v.obj, st)))
        if isinstance(v, IdxV):
            return compare("lt", ZERO, v.n)
        return mk("truthy", self.sig(v, st))

    def eval(self, node, st, ctx):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            return self.opaque("expr:" + type(node).__name__, st, node, ctx)
        mute = self.mute
        try:
            return m(node, st, ctx)
        except INTERNAL as e:
            if STRICT:
                raise
            self.mute = mute
            # an operation the model does not cover: its value is unknown
            self.emit("unknown_call", st, node, ctx, args=())
            return self.opaque("internal:%s:%s" % (type(e).__name__, e), st, node, ctx)

    def e_Constant(self, n, st, ctx):
        if n.value is Ellipsis:
            return mk("opq", "ellipsis")
        return const(n.value)

    def e_Name(self, n, st, ctx):
        v = self.lookup(n.id, st, ctx)
        gone = st.env.get("__unset__")
        if gone and n.id in gone and n.id in st.env:
            self.unbound(n, gone[n.id], st, ctx)
        if v is None:
            if not hasattr(builtins, n.id) and ctx.module is not None and not ctx.module.star:
                self.unbound(n, TRUE, st, ctx)
            return self.opaque("name:" + n.id, st, n, ctx)
        return v

    def unbound(self, n, cond, st, ctx):
        """a name is read that (under cond) nothing has been assigned to"""
        if not ctx.catches("NameError"):
            self.emit("unbound", st, n, ctx, cond=cond, row=None, n=None, what="name '%s' has no value" % n.id)

    def lookup(self, name, st, ctx):
        env = st.env
        while env is not None:
            if name in env:
                return env[name]
            env = env.get("__parent__")
        c = ctx
        if c.module is not None and name in c.module.env:
            v = c.module.env[name]
            return v
        return self.builtin(name)

    def e_NamedExpr(self, n, st, ctx):
        v = self.eval(n.value, st, ctx)
        self.assign(n.target, v, st, ctx)
        return v

    def e_Attribute(self, n, st, ctx):
        o = self.eval(n.value, st, ctx)
        return self.getattr(o, n.attr, st, ctx, n)

    def e_Subscript(self, n, st, ctx):
        o = self.eval(n.value, st, ctx)
        k = self.eval_index(n.slice, st, ctx)
        if st.dead:
            return mk("opq", "dead")
        return self.getitem(o, k, st, ctx, n)

    def eval_index(self, n, st, ctx):
        if isinstance(n, ast.Slice):
            return ("slice",
                    self.eval(n.lower, st, ctx) if n.lower is not None else NONE,
                    self.eval(n.upper, st, ctx) if n.upper is not None else NONE,
                    self.eval(n.step, st, ctx) if n.step is not None else NONE)
        if isinstance(n, ast.Tuple) and any(isinstance(e, ast.Slice) for e in n.elts):
            return ("multi",) + tuple(self.eval_index(e, st, ctx) for e in n.elts)
        v = self.eval(n, st, ctx)
        return v

    def e_Slice(self, n, st, ctx):
        return mk("opq", "slice")

    def e_Tuple(self, n, st, ctx):
        return TupV(self.eval_items(n.elts, st, ctx))

    def e_List(self, n, st, ctx):
        return self.mklist(self.eval_items(n.elts, st, ctx), st)

    def eval_items(self, elts, st, ctx):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st, ctx)
                it = self.concrete_items(v, st)
                if it is None:
                    out.append(self.opaque("star", st, e, ctx, v))
                else:
                    out.extend(it)
            else:
                out.append(self.eval(e, st, ctx))
        return out

    def mklist(self, items, st, tag=None):
        return RefV(self.new(st, ListRec(tuple(items), tag=tag)), "list")

    def e_Set(self, n, st, ctx):
        items = self.eval_items(n.elts, st, ctx)
        return RefV(self.new(st, ListRec(tuple(items), meta="set")), "set")

    def e_Dict(self, n, st, ctx):
        d = {}
        open_ = False
        for k, v in zip(n.keys, n.values):
            vv = self.eval(v, st, ctx)
            if k is None:
                if isinstance(vv, RefV) and isinstance(st.heap.get(vv.oid), DictRec):
                    d.update(st.heap[vv.oid].items)
                else:
                    open_ = True
                continue
            kk = self.eval(k, st, ctx)
            d[self.dkey(kk, st)] = vv
        return RefV(self.new(st, DictRec(d, open_=open_)), "dict")

    def dkey(self, v, st):
        if isinstance(v, T):
            if is_const(v):
                return ("c", v.op, v.args)
            return ("t", v)
        if isinstance(v, TupV):
            return ("tup",) + tuple(self.dkey(x, st) for x in v.items)
        return ("v",) + (vkey(v),)

    @staticmethod
    def fixed_key(k):
        """is the key a constant of the program?"""
        return k[0] == "c" or k[0] == "tup" and all(Interp.fixed_key(x) for x in k[1:])

    def same_key(self, a, b):
        """condition that two keys of a dictionary are equal"""
        if a == b:
            return TRUE
        if a[0] in ("c", "t") and b[0] in ("c", "t"):
            x, y = (k[1] if k[0] == "t" else mk(k[1], *k[2]) for k in (a, b))
            return compare("eq", x, y)
        if a[0] == b[0] == "tup" and len(a) == len(b):
            return and_(*[self.same_key(x, y) for x, y in zip(a[1:], b[1:])])
        if "v" in (a[0], b[0]) and a[0] != "c" and b[0] != "c":
            return mk("opq", "samekey", *[k[1] for k in (a, b) if k[0] == "t"])
        return FALSE

    @staticmethod
    def held(v):
        """condition under which an entry that one branch made is there"""
        if isinstance(v, T) and v.op == "opq" and v.args[:1] == ("missing",):
            return FALSE
        if isinstance(v, ChoiceV):
            return ite(v.c, Interp.held(v.a), Interp.held(v.b))
        if isinstance(v, T) and v.op == "ite":
            return ite(v.args[0], Interp.held(v.args[1]), Interp.held(v.args[2]))
        return TRUE

    def e_JoinedStr(self, n, st, ctx):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value, st, ctx)
                spec = v.format_spec
                spec = "" if spec is None else "".join(y.value if isinstance(y, ast.Constant) else "?" for y in spec.values)
                if spec or v.conversion not in (-1, 115):
                    kind = chr(v.conversion) if v.conversion > 0 else ""
                    parts.append(self.spelled(x, spec, kind, "%" + kind if kind and not spec else spec, st))
                else:
                    parts.append(self.to_str(x, st, v.value))
        return self.strcat(parts)

    def strcat(self, parts):
        out = []
        for p in parts:
            if p.op == "strcat":
                out.extend(p.args)
            else:
                out.append(p)
        res = []
        for p in out:
            if p.op == "str" and res and res[-1].op == "str":
                res[-1] = mk("str", res[-1].args[0] + p.args[0])
            elif p.op == "str" and p.args[0] == "":
                continue
            else:
                res.append(p)
        if not res:
            return const("")
        if len(res) == 1 and (res[0].op == "str"):
            return res[0]
        if len(res) == 1:
            return res[0]
        # push constants through selections of strings
        for i, p in enumerate(res):
            if p.op == "ite" and all(q.op in ("str", "ite") for q in res):
                return ite(p.args[0], self.strcat(res[:i] + [p.args[1]] + res[i + 1:]),
                           self.strcat(res[:i] + [p.args[2]] + res[i + 1:]))
        return mk("strcat", *res)

    def floaty(self, node):
        """Does the expression text make its value a float (so that str() shows a decimal point)?"""
        for x in ast.walk(node):
            if isinstance(x, ast.Constant) and isinstance(x.value, float):
                return True
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Div):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and (
                    x.func.id == "float" or (x.func.id == "round" and len(x.args) > 1)):
                return True
        return False

    def to_str(self, v, st, node=None):
        if isinstance(v, T):
            if v.op == "const" and v.intk and node is not None and self.floaty(node):
                return const(str(float(pyval(v))))
            if v.op == "str" or v.op == "strcat":
                return v
            if v.op == "param" and v.args[1] == "str":
                return v
            if v.op == "const":
                return const(str(pyval(v)))
            if v.op in ("bool", "none"):
                return const(str(pyval(v)))
            return mk("tostr", v)
        return mk("tostr", self.sig(v, st))

    def e_BinOp(self, n, st, ctx):
        a = self.eval(n.left, st, ctx)
        b = self.eval(n.right, st, ctx)
        if st.dead:
            return mk("opq", "dead")
        if self.no_operator(type(n.op).__name__, a, b, st):
            return self.fail("TypeError", st, n, ctx)
        return self.lift(lambda s, x, y: self.binop(type(n.op).__name__, x, y, s, ctx, n), st, a, b)

    def fail(self, kind, st, node, ctx):
        """the operation raises `kind` whenever it is reached"""
        v = ExcV(kind, {}, EXC_BASES.get(kind, ("Exception",)))
        self.emit("raise", st, node, ctx, exc=v)
        ctx.exits.append(Exit("raise", v, st.pc(), st.copy(), node, ctx.module.path))
        st.dead = True
        return mk("opq", "dead")

    def no_operator(self, op, a, b, st):
        """one operand is a text, the other one or the operator does not go with it"""
        ta, tb = self.is_text(a), self.is_text(b)
        if not ta and not tb or op == "Mod" and ta:
            return False
        if ta and tb:
            return op != "Add"
        o = b if ta else a
        other = isinstance(o, T) and (is_const(o) and o.op != "str" or o is NONE or o is TRUE or o is FALSE) \
            or isinstance(o, (TupV, ClsV, FnV, ExtV, RangeV)) or isinstance(o, IxrV) and o.kind == "type" \
            or isinstance(o, RefV) and isinstance(st.heap.get(o.oid), (ListRec, DictRec))
        if isinstance(o, T) and o.op == "opq" and o.args and o.args[0] == "dtype":
            other = True
        return other and not (op == "Mult" and isinstance(o, T) and (o in (TRUE, FALSE) or o.op == "const"))

    def is_text(self, v):
        return isinstance(v, T) and v.op in ("str", "strcat", "tostr", "typename")

    def e_UnaryOp(self, n, st, ctx):
        v = self.eval(n.operand, st, ctx)
        if isinstance(n.op, ast.Not):
            return not_(self.truthv(v, st, ctx, n))
        return self.lift(lambda s, x: self.unary(type(n.op).__name__, x, s, ctx, n), st, v)

    def e_BoolOp(self, n, st, ctx):
        isand = isinstance(n.op, ast.And)
        rel0 = st.rel
        acc = []
        vals = []
        for i, e in enumerate(n.values):
            v = self.eval(e, st, ctx)
            if st.dead:
                return mk("opq", "dead")
            t = self.truthv(v, st, ctx, e)
            vals.append((v, t))
            acc.append(t)
            if (t is FALSE and isand) or (t is TRUE and not isand):
                break
            if i < len(n.values) - 1:
                st.rel = and_(st.rel, t if isand else not_(t))
        # restore guard but keep narrowing caused by exceptions in later operands (approximation: dropped)
        st.rel = rel0 if not self._raised_since(rel0, st) else rel0
        if all(isinstance(v, T) and (is_boolish(v) or v.op == "bool") for v, _ in vals):
            return and_(*acc) if isand else or_(*acc)
        r, t = vals[-1]
        for v, tt in reversed(vals[:-1]):
            r = choice(tt, r, v) if isand else choice(tt, v, r)
        return r

    def _raised_since(self, rel0, st):
        return False

    def e_Compare(self, n, st, ctx):
        left = self.eval(n.left, st, ctx)
        out = []
        rel0 = st.rel
        for k, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(c, st, ctx)
            if st.dead:
                return mk("opq", "dead")
            r = self.lift(lambda s, x, y: self.compare1(type(op).__name__, x, y, s, ctx, n), st, left, right)
            out.append(r)
            if len(n.ops) > 1 and isinstance(r, T) and not r.series and k < len(n.ops) - 1:
                st.rel = and_(st.rel, truth(r))
            left = right
        st.rel = rel0
        if len(out) == 1:
            return out[0]
        return and_(*[self.truthv(x, st, ctx, n) for x in out])

    def e_IfExp(self, n, st, ctx):
        c = self.cond(n.test, st, ctx)
        if c is TRUE:
            return self.eval(n.body, st, ctx)
        if c is FALSE:
            return self.eval(n.orelse, st, ctx)
        s1, s2 = st.fork(c), st.fork(not_(c))
        a = self.eval(n.body, s1, ctx)
        b = self.eval(n.orelse, s2, ctx)
        m = self.merge(st, c, s1, s2)
        st.become(m)
        if s1.dead:
            return b
        if s2.dead:
            return a
        return self.join(c, a, b, st)

    def e_Lambda(self, n, st, ctx):
        fn = ast.FunctionDef("<lambda>", n.args, [ast.copy_location(ast.Return(n.body), n)], [], None)
        ast.copy_location(fn, n)
        fn._lambda = True
        return FnV(fn, None, st.env, ctx.module, ctx.cls)

    def e_Starred(self, n, st, ctx):
        return self.eval(n.value, st, ctx)

    def e_Await(self, n, st, ctx):
        return self.opaque("await", st, n, ctx)

    # comprehensions
    def e_ListComp(self, n, st, ctx):
        r = self.comp(n, n.elt, st, ctx)
        if isinstance(r, list):
            return self.mklist(r, st)
        if isinstance(r, SeqV):
            return self.seq_to_list(r, st, ctx)
        return r

    def e_GeneratorExp(self, n, st, ctx):
        r = self.comp(n, n.elt, st, ctx)
        if isinstance(r, list):
            return TupV(r)
        return r

    def e_SetComp(self, n, st, ctx):
        r = self.comp(n, n.elt, st, ctx)
        if isinstance(r, list):
            return RefV(self.new(st, ListRec(tuple(r), meta="set")), "set")
        return self.opaque("setcomp", st, n, ctx)

    def e_DictComp(self, n, st, ctx):
        r = self.comp(n, ast.copy_location(ast.Tuple([n.key, n.value], ast.Load()), n), st, ctx)
        if isinstance(r, list):
            d = {}
            for t in r:
                d[self.dkey(t.items[0], st)] = t.items[1]
            return RefV(self.new(st, DictRec(d)), "dict")
        if isinstance(r, SeqV) and r.tag and r.tag[0] == "gen" and isinstance(n.key, ast.Name) and isinstance(r.tag[7], TupV) \
                and isinstance(r.tag[7].items[0], T) and r.tag[7].items[0].op == "colname" and isinstance(r.tag[7].items[1], T):
            # {label: new label for label in frame.columns}
            lab, new = r.tag[7].items
            if lab.args[1] is mk("lv", r.tag[1]):
                m = {lab.args[1]: mk("lv", "bC")}
                return mk("dictcols", lab.args[0], subst(ite(r.tag[5], new, lab), m))
        return self.opaque("dictcomp", st, n, ctx)

    def comp(self, n, elt, st, ctx):
        """list of items (concrete) or SeqV or opaque"""
        def go(gens, s):
            if not gens:
                return [self.eval(elt, s, ctx)]
            g = gens[0]
            it = self.eval(g.iter, s, ctx)
            items = self.concrete_items(it, s)
            if items is None or len(items) > MAX_UNROLL:
                return ("sym", g, it)
            out = []
            for x in items:
                s.env = dict(s.env)
                self.assign(g.target, x, s, ctx)
                ok = TRUE
                for c in g.ifs:
                    ok = and_(ok, self.cond(c, s, ctx))
                if ok is FALSE:
                    continue
                if ok is not TRUE:
                    return ("cond", g, it)
                r = go(gens[1:], s)
                if not isinstance(r, list):
                    return ("nested", g, it)
                out += r
            return out

        env0 = st.env
        st.env = {"__parent__": env0}
        try:
            r = go(n.generators, st)
        finally:
            st.env = env0
        if isinstance(r, list):
            return r
        if r[0] == "sym" and r[1] is n.generators[0] and len(n.generators) == 1:
            g, it = r[1], r[2]
            return self.sym_comp(n, elt, g, it, st, ctx)
        if r[0] == "cond" and len(n.generators) == 1:
            return self.cond_comp(n, elt, r[1], r[2], st, ctx)
        return self.opaque("comp", st, n, ctx)

    def cond_comp(self, n, elt, g, it, st, ctx):
        """finite generator with symbolic filters: list of guarded items"""
        items = self.concrete_items(it, st)
        out = []
        env0 = st.env
        st.env = {"__parent__": env0}
        for x in items:
            st.env = {"__parent__": env0}
            self.assign(g.target, x, st, ctx)
            ok = TRUE
            for c in g.ifs:
                ok = and_(ok, self.cond(c, st, ctx))
            out.append((ok, self.eval(elt, st, ctx)))
        st.env = env0
        n = ZERO
        for ok, _ in out:
            n = add(n, ite(ok, ONE, ZERO))
        return SeqV(n, None, ("cond", out))

    def sym_comp(self, n, elt, g, it, st, ctx):
        seq = self.as_seq(it, st, ctx, n)
        if seq is None:
            rf = self.frame_comp(n, elt, g, it, st, ctx)
            if rf is not None:
                return rf
            return self.opaque("comp", st, n, ctx, it)
        lo, hi, step, getter = seq
        uid = self.fresh()
        lv = mk("lv", uid)
        self.lvrange[uid] = (lo, hi, step)
        down = is_num(step) and num(step) < 0
        rng = and_(compare("le", lo, lv), compare("lt", lv, hi)) if not down else \
            and_(compare("le", lv, lo), compare("lt", hi, lv))
        b = st.enter({"__parent__": st.env})
        b.rel = rng
        self.assign(g.target, getter(lv, b), b, ctx)
        filt = TRUE
        for c in g.ifs:
            filt = and_(filt, self.cond(c, b, ctx))
        b.rel = and_(b.rel, filt)
        v = self.eval(elt, b, ctx)
        for oid, r in b.heap.items():
            if oid not in st.heap:
                st.heap[oid] = r
        t = v if isinstance(v, T) else None
        return SeqV(self.range_count(lo, hi, step) if filt is TRUE else self.filtered(uid, lo, hi, step, filt),
                    None, ("gen", uid, lo, hi, step, filt, t if t is not None else self.sig(v, st), v))

    # calls
    def e_Call(self, n, st, ctx):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and self.lookup("super", st, ctx) is not None:
            slf = self.lookup_self(st, ctx)
            if not n.args:
                return SuperV(slf, ctx.cls)
            a = [self.eval(x, st, ctx) for x in n.args]
            return SuperV(a[1], a[0].info if isinstance(a[0], ClsV) else ctx.cls)
        f = self.eval(n.func, st, ctx)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, ctx)
                it = self.concrete_items(v, st)
                if it is None:
                    args.append(self.opaque("starargs", st, a, ctx, v))
                else:
                    args += it
            else:
                args.append(self.eval(a, st, ctx))
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value, st, ctx)
            if k.arg is None:
                if isinstance(v, RefV) and isinstance(st.heap.get(v.oid), DictRec):
                    for kk, vv in st.heap[v.oid].items.items():
                        if kk[0] == "c" and kk[1] == "str":
                            kwargs[kk[2][0]] = vv
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        if st.dead:
            return mk("opq", "dead")
        return self.lift(lambda s, fv: self.call(fv, args, kwargs, s, ctx, n), st, f)

    def lookup_self(self, st, ctx):
        env = st.env
        while env is not None:
            if "__self__" in env:
                return env["__self__"]
            env = env.get("__parent__")
        return mk("opq", "self")

    def call(self, f, args, kwargs, st, ctx, node):
        if isinstance(f, FnV):
            return self.call_fn(f, args, kwargs, st, ctx, node)
        if isinstance(f, ClsV):
            return self.construct(f, args, kwargs, st, ctx, node)
        if isinstance(f, (ExtV, BoundV)):
            for k in SETTINGS.intersection(kwargs):
                v = kwargs[k]
                if isinstance(v, T) and v.op == "ite" and all(x.op in CONST_OPS for x in v.args[1:]):
                    v = ChoiceV(v.args[0], v.args[1], v.args[2])
                elif isinstance(v, T) and v.op != "bool" and is_boolish(v):
                    v = ChoiceV(v, TRUE, FALSE)
                else:
                    continue
                return self.lift(lambda s, x: self.call(f, args, dict(kwargs, **{k: x}), s, ctx, node), st, v)
        if isinstance(f, ExtV):
            return self.call_ext(f.path, args, kwargs, st, ctx, node)
        if isinstance(f, BoundV) and f.name == "__vectorized__" and not kwargs:
            v = self.elementwise(f.obj, args, st, ctx, node)
            if v is not None:
                return v
        if isinstance(f, BoundV):
            return self.lift(lambda s, o: self.call_method(o, f.name, args, kwargs, s, ctx, node), st, f.obj)
        if isinstance(f, RefV) and isinstance(st.heap.get(f.oid), InstRec):
            m, c = st.heap[f.oid].cls.find("__call__")
            if m is not None:
                return self.call_fn(FnV(m.fn, f, m.closure, m.module, c), args, kwargs, st, ctx, node)
        self.emit("unknown_call", st, node, ctx, args=args)
        return self.opaque("call", st, node, ctx, f, *args)

    def bind(self, fn, args, kwargs, st, ctx, f):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        rest = []
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
            else:
                rest.append(v)
        if a.vararg is not None:
            env[a.vararg.arg] = TupV(rest)
        extra = {}
        allk = set(names) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in allk:
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            d = {("c", "str", (k,)): v for k, v in extra.items()}
            env[a.kwarg.arg] = RefV(self.new(st, DictRec(d)), "dict")
        # defaults
        dn = names[len(names) - len(a.defaults):]
        dctx = Ctx("<defaults>", f.module, f.cls)
        for nm, d in zip(dn, a.defaults):
            if nm not in env:
                env[nm] = self.default_value(d, f, st, dctx)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.default_value(d, f, st, dctx)
        env["__bad__"] = (rest and a.vararg is None) or (extra and a.kwarg is None)
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm not in env:
                env[nm] = mk("opq", "unbound:" + nm)
                env["__bad__"] = True
        return env

    def plain_call(self, node, fn):
        """the node calls this function, every argument is written out"""
        if not isinstance(node, ast.Call) or any(d for d in getattr(fn, "decorator_list", [])
                                                 if not isinstance(d, ast.Name) or d.id not in ("staticmethod", "classmethod")):
            return False
        name = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, "id", None)
        return (name == fn.name or fn.name == "__init__") and not any(isinstance(x, ast.Starred) for x in node.args) \
            and all(k.arg is not None for k in node.keywords)

    def default_value(self, d, f, st, dctx):
        """default of a parameter; a mutable one is shared by all calls"""
        v = self.project.defaults.get(id(d))
        if v is not None and v.oid in st.heap:
            return v
        v = self.eval(d, State({"__parent__": f.closure} if f.closure else {}, st.heap), dctx)
        r = st.heap.get(v.oid) if isinstance(v, RefV) else None
        if isinstance(r, (ListRec, DictRec)):
            r.tag = "default"
        return v

    def fn_kind(self, fn):
        for d in getattr(fn, "decorator_list", []):
            if isinstance(d, ast.Call):
                d = d.func
            nm = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if nm in ("staticmethod", "classmethod", "property", "abstractmethod", "cached_property", "lru_cache", "cache"):
                return nm
        return None

    def call_fn(self, f, args, kwargs, st, ctx, node):
        fn = f.fn
        qual = (f.cls.name + "." if f.cls else "") + fn.name
        h = self.hooks.get(qual)
        if h is not None:
            r = h(self, f, args, kwargs, st, ctx, node)
            if r is not NotImplemented:
                return r
        if f.self_ is not None:
            args = [f.self_] + list(args)
        if len(self.call_stack) > MAX_DEPTH or self.call_stack.count(id(fn)) > 3:
            self.emit("recursion", st, node, ctx)
            return self.opaque("recursion:" + fn.name, st, node, ctx)
        if self.fn_kind(fn) in ("cached_property", "lru_cache", "cache"):
            self.emit("cached", st, fn, Ctx(qual, f.module, f.cls), method=f.self_ is not None or f.cls is not None)
        env = self.bind(fn, args, kwargs, st, ctx, f)
        if env.pop("__bad__") and self.plain_call(node, fn):
            return self.fail("TypeError", st, node, ctx)
        if f.closure is not None:
            env["__parent__"] = f.closure
        if f.self_ is not None:
            env["__self__"] = f.self_
        elif f.cls is not None and args and self.fn_kind(fn) not in ("staticmethod",):
            env["__self__"] = args[0]
        c2 = Ctx(fn.name if not f.cls else f.cls.name + "." + fn.name, f.module, f.cls, ctx)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)):
            return self.opaque("generator:" + fn.name, st, node, ctx, *args)
        s2 = State(env, dict(st.heap), st.guard())
        self.call_stack.append(id(fn))
        try:
            s2 = self.exec_block(fn.body, s2, c2)
        finally:
            self.call_stack.pop()
        rets = [e for e in c2.exits if e.kind == "return"]
        raises = [e for e in c2.exits if e.kind == "raise"]
        if not s2.dead:
            rets.append(Exit("return", NONE, s2.pc(), s2, fn, f.module.path))
            if not getattr(fn, "_lambda", False) and rets and len(rets) > 1:
                self.emit("fallthrough", st, fn, c2, pc=s2.pc())
        P = st.pc()
        for e in raises:
            es = State(dict(st.env), e.st.heap, st.entry, and_(P, e.pc))
            ctx.exits.append(Exit("raise", e.value, and_(P, e.pc), es, e.node, e.file))
        if not rets:
            st.dead = True
            return mk("opq", "noreturn")
        # order-preserving guarded selection of the results
        chain = []
        facts = []
        for e in rets:
            chain.append((strip_all(e.pc, facts), e))
            facts += conj(not_(chain[-1][0]))
        val, cur = chain[-1][1].value, chain[-1][1].st
        cur = State(cur.env, cur.heap, TRUE)
        for pc, e in reversed(chain[:-1]):
            a = State(e.st.env, e.st.heap, TRUE)
            cur.env = a.env = {}
            m = self.merge(State(None, None, TRUE), pc, a, cur)
            cur = m
            if val is not None:
                val = self.join(pc, e.value, val, cur)
        st.heap = cur.heap
        if raises:
            st.rel = and_(st.rel, *[not_(e.pc) for e in raises])
        return val

    def make_exc(self, cls, args, kwargs, st, ctx, node):
        info = cls.info
        init, c = info.find("__init__")
        bases = tuple(x.name for x in info.mro()[1:]) + tuple(p.split(".")[-1] for p in info.ext_bases())
        d = {}
        if isinstance(init, FnV):
            names = [x.arg for x in init.fn.args.args][1:]
            for i, v in enumerate(args):
                if i < len(names):
                    d[names[i]] = v
            d.update(kwargs)
        else:
            for i, v in enumerate(args):
                d[i] = v
        return ExcV(info.name, d, bases)

    def is_exc_class(self, info):
        return any(p.split(".")[-1] in EXC_BASES or p.split(".")[-1].endswith(("Error", "Exception"))
                   for p in info.ext_bases())

    def construct(self, f, args, kwargs, st, ctx, node):
        info = f.info
        if self.is_exc_class(info):
            return self.make_exc(f, args, kwargs, st, ctx, node)
        h = self.hooks.get("new:" + info.name) or self.hooks.get("new:*")
        if h is not None:
            r = h(self, f, args, kwargs, st, ctx, node)
            if r is not NotImplemented:
                return r
        inst = RefV(self.new(st, InstRec(info, {})), "inst")
        init, c = info.find("__init__")
        if isinstance(init, FnV):
            self.call_fn(FnV(init.fn, inst, init.closure, init.module, c), args, kwargs, st, ctx, node)
        return inst


def hs_clean(s):
    return State(s.env, s.heap, s.entry)


def cur_clean(s):
    return State(s.env, s.heap, s.entry)


def conj(t):
    return list(t.args) if t.op == "and" else [t]


def strip_all(pc, facts):
    """Drop conjuncts of pc already known."""
    fs = set(x.id for x in facts)
    return and_(*[x for x in conj(pc) if x.id not in fs])


def strip(pc, base):
    return strip_all(pc, conj(base.pc()))


def strip_facts(pc, rng):
    return strip_all(pc, conj(rng))
