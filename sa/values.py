"""Abstract values and heap records of the analyser."""
from .terms import *


class V:
    pass


class SerV(V):
    """pandas Series: view of an array record, labelled by an index term."""
    __slots__ = ("arr", "idx", "name")

    def __init__(self, arr, idx, name=None):
        self.arr, self.idx, self.name = arr, idx, name

    def key(self):
        return ("Ser", self.arr, self.idx.id)


class NpV(V):
    """1-D positional array (numpy array, list-like buffer)."""
    __slots__ = ("arr",)

    def __init__(self, arr):
        self.arr = arr

    def key(self):
        return ("Np", self.arr)


class Np2V(V):
    """2-D positional array made of column buffers (possibly backed by a frame)."""
    __slots__ = ("arrs", "frame", "rows")

    def __init__(self, arrs, frame=None, rows=False):
        self.arrs, self.frame, self.rows = tuple(arrs), frame, rows

    def key(self):
        return ("Np2", self.arrs, self.frame, self.rows)


class FrmV(V):
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def key(self):
        return ("Frm", self.oid)


class RFrmV(V):
    """Frame with unknown columns (a caller's frame in flight)."""
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def key(self):
        return ("RFrm", self.oid)


class IdxV(V):
    """Row index (dates)."""
    __slots__ = ("t", "n")

    def __init__(self, t, n):
        self.t, self.n = t, n

    def key(self):
        return ("Idx", self.t.id)


class LabelV(V):
    """One row label: index term + row."""
    __slots__ = ("idx", "row")

    def __init__(self, idx, row):
        self.idx, self.row = idx, row

    def key(self):
        return ("Label", self.idx.id, self.row.id)


class TupV(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def key(self):
        return ("Tup",) + tuple(vkey(x) for x in self.items)


class RefV(V):
    """list / dict / set / instance by object id."""
    __slots__ = ("oid", "kind")

    def __init__(self, oid, kind):
        self.oid, self.kind = oid, kind

    def key(self):
        return (self.kind, self.oid)


class ClsV(V):
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info

    def key(self):
        return ("Cls", self.info.qual)


IDX_PROPS = ("is_monotonic_increasing", "is_monotonic_decreasing", "is_unique", "has_duplicates", "hasnans")


class FnV(V):
    __slots__ = ("fn", "self_", "closure", "module", "cls")

    def __init__(self, fn, self_=None, closure=None, module=None, cls=None):
        self.fn, self.self_, self.closure, self.module, self.cls = fn, self_, closure, module, cls

    def key(self):
        return ("Fn", id(self.fn), vkey(self.self_) if self.self_ is not None else None)


class ExtV(V):
    """External name: dotted path."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def key(self):
        return ("Ext", self.path)


class BoundV(V):
    """Method of a modelled value."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def key(self):
        return ("Bound", vkey(self.obj), self.name)


class ModV(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def key(self):
        return ("Mod", self.name)


class IxrV(V):
    """iat / iloc / loc / at accessor."""
    __slots__ = ("kind", "obj")

    def __init__(self, kind, obj):
        self.kind, self.obj = kind, obj

    def key(self):
        return ("Ixr", self.kind, vkey(self.obj))


class WinV(V):
    """rolling / ewm / expanding window object."""
    __slots__ = ("kind", "obj", "p")

    def __init__(self, kind, obj, p):
        self.kind, self.obj, self.p = kind, obj, p

    def key(self):
        return ("Win", self.kind, vkey(self.obj), tuple(sorted((k, str(v)) for k, v in self.p.items())))


class RangeV(V):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def key(self):
        return ("Range", self.lo.id, self.hi.id, self.step.id)


class SeqV(V):
    """Lazily described sequence: n elements, element i = fn(i)."""
    __slots__ = ("n", "fn", "tag")

    def __init__(self, n, fn, tag=None):
        self.n, self.fn, self.tag = n, fn, tag

    def key(self):
        return ("SeqV", id(self))


class ExcV(V):
    __slots__ = ("cls", "args", "bases")

    def __init__(self, cls, args, bases):
        self.cls, self.args, self.bases = cls, args, bases

    def key(self):
        return ("Exc", self.cls, tuple(sorted((str(k), vkey(v)) for k, v in self.args.items())))


class OlsV(V):
    __slots__ = ("y", "x", "w", "stage", "opts", "n")

    def __init__(self, y, x, w, stage, opts=(), n=None):
        self.y, self.x, self.w, self.stage, self.opts, self.n = y, x, w, stage, opts, n

    def key(self):
        return ("Ols", self.y.id, self.x.id, self.w.id, self.stage, self.opts)


class ChoiceV(V):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def key(self):
        return ("Choice", self.c.id, vkey(self.a), vkey(self.b))


class SuperV(V):
    __slots__ = ("inst", "cls")

    def __init__(self, inst, cls):
        self.inst, self.cls = inst, cls

    def key(self):
        return ("Super", vkey(self.inst), self.cls.qual)


class UnsetV(V):
    def key(self):
        return ("Unset",)


UNSET = UnsetV()


def vkey(v):
    if isinstance(v, T):
        return ("T", v.id)
    if v is None:
        return None
    return v.key()


def choice(c, a, b):
    """Guarded selection of two abstract values."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b or vkey(a) == vkey(b):
        return a
    if isinstance(a, T) and isinstance(b, T):
        return ite(c, a, b)
    if c.op == "not":
        return choice(c.args[0], b, a)
    if isinstance(a, ChoiceV) and a.c is c:
        a = a.a
    if isinstance(b, ChoiceV) and b.c is c:
        b = b.b
    if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items):
        if not (all(isinstance(x, T) and is_const(x) for x in a.items)
                and all(isinstance(x, T) and is_const(x) for x in b.items)):
            return TupV([choice(c, x, y) for x, y in zip(a.items, b.items)])
    if vkey(a) == vkey(b):
        return a
    return ChoiceV(c, a, b)


# ------------------------------------------------------------------- records
class ArrRec:
    __slots__ = ("t", "n", "tag")

    def __init__(self, t, n, tag=None):
        self.t, self.n, self.tag = t, n, tag

    def key(self):
        return (self.t.id, self.n.id)


class FrmRec:
    """cols: tuple of (name, arr-oid); name is a str, int or T."""
    __slots__ = ("cols", "idx", "n", "order", "tag")

    def __init__(self, cols, idx, n, order="known", tag=None):
        self.cols, self.idx, self.n, self.order, self.tag = tuple(cols), idx, n, order, tag

    def key(self):
        return (tuple((str(c), a) for c, a in self.cols), self.idx.id, self.n.id)


class RFrmRec:
    """t: frame term (pipeline of operations); tag: alias root; share: shares buffers with root."""
    __slots__ = ("t", "tag", "extra")

    def __init__(self, t, tag=None, extra=()):
        self.t, self.tag, self.extra = t, tag, extra

    def key(self):
        return (self.t.id, self.extra)


class ListRec:
    """Python list: items (tuple) or symbolic array (t, n)."""
    __slots__ = ("items", "t", "n", "tag", "meta")

    def __init__(self, items=None, t=None, n=None, tag=None, meta=None):
        self.items, self.t, self.n, self.tag, self.meta = items, t, n, tag, meta

    def key(self):
        if self.items is not None:
            return tuple(vkey(x) for x in self.items)
        return (self.t.id, self.n.id)


def keytext(k):
    """a key of a dictionary as comparable text"""
    if k[0] == "t":
        return "t%d" % k[1].id
    if k[0] == "tup":
        return "(%s)" % ",".join(keytext(x) for x in k[1:])
    return repr(k)


class DictRec:
    __slots__ = ("items", "tag", "open")

    def __init__(self, items, tag=None, open_=False):
        self.items, self.tag, self.open = dict(items), tag, open_

    def key(self):
        return tuple((keytext(k), vkey(v)) for k, v in self.items.items())


class InstRec:
    __slots__ = ("cls", "attrs", "tag", "sub", "gone")

    def __init__(self, cls, attrs, tag=None, sub=None, gone=None):
        self.cls, self.attrs, self.tag, self.sub = cls, dict(attrs), tag, sub
        self.gone = gone or {}          # attribute -> condition under which nothing was assigned to it

    def key(self):
        return tuple(sorted((k, g.id) for k, g in self.gone.items())), tuple((k, vkey(v)) for k, v in sorted(self.attrs.items()))
