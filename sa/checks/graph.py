"""C10, C21, C22: descriptions, value lookup and graphs."""
from .common import *
from . import effects
from .effects import find_fn
from .formula import variants, name_of
from .validation import Ev, Unk, Err
from ..interp import Ctx

PARTS = ("long_name", "short_name", "required_input_data", "graph_input_columns", "graph_y_label", "graph_lines_color",
         "graph_alpha_values", "graph_areas", "graph_subplots")
ABSENT = object()


def py(I, v, st):
    """Python value of an abstract constant structure; ABSENT when it is not constant"""
    if isinstance(v, T):
        if v is NONE:
            return None
        return pyval(v) if is_const(v) else ABSENT
    if isinstance(v, RefV):
        r = st.heap.get(v.oid)
        if isinstance(r, DictRec):
            return {k[2][0] if k[0] == "c" and k[2] else k: py(I, x, st) for k, x in r.items.items()}
        if isinstance(r, ListRec) and r.items is not None:
            return [py(I, x, st) for x in r.items]
    if isinstance(v, TupV):
        return [py(I, x, st) for x in v.items]
    return ABSENT


def registry(W):
    """(module, I, st, oid of the table) of the descriptions"""
    for m in W.tree.project.modules.values():
        v = m.env.get("INDICATORS_PROPERTIES")
        if isinstance(v, RefV):
            I = W.tree.interp()
            st = drive.base_state(I)
            return m, py(I, v, st)
    raise Broken("table of indicator descriptions not found")


def strings(v):
    return isinstance(v, list) and all(isinstance(x, str) for x in v)


# --------------------------------------------------------------------------- C10
def c10(W, R):
    R.rules.append("Description table: every exported class has an entry with every documented part, of the documented shape; "
                   "required columns are lower-case names (validation lower-cases labels).")
    R.rules.append("Column-existence typestate: every column access of every constructor, helper, nested indicator, signal and "
                   "graph refers to a column that the accessed frame has, where the input frame has exactly the declared "
                   "required columns; for every parameter setting.")
    m, P = registry(W)
    lines = entry_lines(m)
    for c in W.names():
        with R.unit(c):
            R.count("descriptions")
            at = (m.path, lines.get(c, 1), "INDICATORS_PROPERTIES[%r]" % c)
            p = P.get(c, ABSENT)
            if p is ABSENT or not isinstance(p, dict):
                R.bad(*at, "no-description", "the exported indicator %s has no description" % c, key="%s|none" % c)
                continue
            if any(v is ABSENT for v in p.values()):
                R.skip(c, "description is not constant")
                continue
            for k in PARTS:
                if k not in p:
                    R.bad(*at, "part-missing", "the description has no %s" % k, key="%s|%s" % (c, k))
            shape(R, at, c, p)
            for va in variants(c):
                reads(W, R, c, va, p)
                if all(k in p for k in PARTS):
                    drawn_columns(W, R, c, va, p, at)
    if R.counts["descriptions"] < 40:
        raise Broken("indicator classes not found")


def entry_lines(m):
    import ast
    out = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant) and isinstance(k.value, str) and isinstance(v, ast.Dict):
                    out.setdefault(k.value, k.lineno)
    return out


def shape(R, at, c, p):
    def wrong(k, what):
        R.bad(*at, "shape", "%s %s" % (k, what), key="%s|%s|shape" % (c, k))
    r = p.get("required_input_data")
    if "required_input_data" in p:
        if not strings(r) or not r:
            wrong("required_input_data", "is not a list of column names")
        else:
            for x in r:
                if x != x.lower():
                    wrong("required_input_data", "names the column %r, which no validated input has (labels are lower-cased)" % x)
            if len(set(r)) != len(r):
                wrong("required_input_data", "names a column twice")
    for k in ("long_name", "short_name", "graph_y_label"):
        if k in p and not (isinstance(p[k], str) and p[k].strip()):
            wrong(k, "is not a text")
    if "graph_input_columns" in p and not (strings(p["graph_input_columns"])):
        wrong("graph_input_columns", "is not a list of column names")
    if "graph_subplots" in p and not isinstance(p["graph_subplots"], bool):
        wrong("graph_subplots", "is not True or False")
    if p.get("graph_areas") is not None:
        if not isinstance(p["graph_areas"], list):
            wrong("graph_areas", "is not a list of areas")
        else:
            for a in p["graph_areas"]:
                for k in ("x", "y1", "y2"):
                    if not isinstance(a, dict) or k not in a:
                        wrong("graph_areas", "has an area without %s" % k)


def reads(W, R, c, va, p):
    r, q = W.signal(c, va)
    seen = set()
    for where, evs, unknown in (("construction", r.events, r.unknown), ("signal", q.events, q.unknown)):
        for e in evs:
            if e.kind == "col_read":
                R.count("column accesses")
            if e.kind != "col_missing" or e.guard is FALSE:
                continue
            s = sat(e.guard, r.facts if where == "construction" else r.sigfacts)
            col = e.info.get("col")
            if s is True or s is None and not e.guard.opq:
                R.bad(e.file, e.line, e.fn, "undeclared-column", "%s reads column %r, which is not among the columns %s of the "
                      "frame (%s declares %s as required)" % (c, col, [x if isinstance(x, str) else show(x) for x in
                                                              e.info.get("cols", p.get("required_input_data"))], c,
                                                              p.get("required_input_data")), key="%s|%s|%s" % (e.file, e.line, col))
            elif s is None:
                R.skip(c, "access of column %r not decided" % (col,))
        for u in unknown:
            if u[0] not in seen:
                seen.add(u[0])
                R.skip(c, "not modelled: %s" % str(u)[:80])


def drawn_columns(W, R, c, va, p, at):
    """columns of the graph part exist"""
    r = W.fresh(c, va)
    leaf_frames(r)
    if r.ti_cols is None:
        R.skip(c, "calculated frame not modelled")
        return
    ind = r.rec.attrs.get("_input_data")
    have = [x for x, _ in r.st.heap[ind.oid].cols] if isinstance(ind, FrmV) else None
    ti = [name_of(x) for x, _ in r.ti_cols]
    if have is not None and strings(p["graph_input_columns"]):
        for x in p["graph_input_columns"]:
            R.count("graph columns")
            if x not in have:
                R.bad(*at, "graph-column", "the graph shows input column %r, but the indicator's input has %s" % (x, have),
                      key="%s|%s|graph" % (c, x))
    if isinstance(p["graph_areas"], list) and have is not None:
        frames = [p["graph_input_columns"], ti] if p["graph_subplots"] else [list(p["graph_input_columns"]) + ti]
        for a in p["graph_areas"]:
            for k, v in (a.items() if isinstance(a, dict) else ()):
                if not isinstance(v, list):
                    continue
                R.count("area references")
                ok = len(v) == 3 and isinstance(v[0], int) and 0 <= v[0] < len(frames) and v[2] in frames[v[0]]
                if not ok:
                    R.bad(*at, "area-column", "area part %s refers to %s; the panels have the columns %s" % (k, v, frames),
                          key="%s|%s|area" % (c, k))
    q = run_method(r, "getTiGraph", facts=sig_facts(r))
    for e in q.ctx.exits:
        if e.kind == "raise" and isinstance(e.value, ExcV) and e.value.cls in ("KeyError", "IndexError", "ValueError", "AttributeError"):
            s = sat(e.pc, sig_facts(r))
            if s is True and not e.pc.opq:
                R.bad(e.file, getattr(e.node, "lineno", 0), c, "graph-fails", "the graph fails with %s" % e.value.cls,
                      key="%s|%s|graph-fails" % (e.file, getattr(e.node, "lineno", 0)))
    for e in q.events:
        if e.kind in ("col_missing", "missing_key") and e.guard is not FALSE and sat(e.guard, sig_facts(r)) is True:
            R.bad(e.file, e.line, c, "graph-column", "the graph uses %s %s, which does not exist"
                  % (("column", e.info.get("col")) if e.kind == "col_missing" else ("description part", show(e.info.get("key"))
                     if isinstance(e.info.get("key"), T) else str(e.info.get("key")))),
                  key="%s|%s|%s" % (c, e.line, e.kind))


# --------------------------------------------------------------------------- C21
class Look(Ev):
    """the extracted lookup on a list of dates and one argument; cells are (column, row)"""

    def __init__(self, dates, arg, missing=()):
        Ev.__init__(self, None, {})
        self.dates, self.arg, self.row, self.missing, self.same = list(dates), arg, None, set(missing), True

    def is_idx(self, t):
        return self.axis(t) is not None

    def axis(self, t):
        """the dates of an index; the input of an indicator with fewer values goes on for two days"""
        if t.op == "idx":
            if t is IDX_IN and not self.same:
                last = max(self.dates, default=0)
                return self.dates + [last + 1, last + 2]
            return self.dates
        if t.op == "opL" and t.args[0] == "idxnormal":
            xs = self.axis(t.args[1])
            return xs and [x // 1 for x in xs]
        if t.op == "ifilter":
            xs = self.axis(t.args[0])
            return xs and [xs[i] for i in self.rows(t.args[1], len(xs))]
        return None

    def n(self):
        return len(self.dates)

    def date(self, t):
        o = t.op
        if o == "opL" and t.args[0] == "to_datetime":
            kws = {x.args[0][3:]: x.args[1] for x in t.args[2:] if x.op == "opL" and str(x.args[0]).startswith("kw:")}
            turned = [k for k in ("dayfirst", "yearfirst") if kws.get(k, FALSE) is not FALSE]
            if kws.get("utc") is FALSE:
                kws.pop("utc")
            if kws.get("unit") is NONE:
                kws.pop("unit")
            if "unit" in kws and t.args[1].op == "param" and self.arg[0] in ("text", "month"):
                raise Err("ValueError")
            how = kws.pop("format", None)
            if how is not None and how.op == "str" and how.args[0] == "%Y-%m-%d" and t.args[1].op == "param":
                if self.arg[0] == "month" or self.arg[0] == "text" and len(self.arg) > 2:
                    raise Err("ValueError")
            elif how is not None and how is not NONE:
                raise Unk("to_datetime options")
            if set(kws) - {"errors", "dayfirst", "yearfirst", "utc", "unit"} or any(kws[k] is not TRUE for k in turned):
                raise Unk("to_datetime options")
            x = t.args[1]
            if x.op == "param":
                k = self.arg[0]
                if k == "text" and len(self.arg) > 2 and "dayfirst" in turned:
                    return self.arg[2]          # day and month read the other way round
                if k == "junk":
                    if "errors" in kws:
                        return "NaT"
                    raise Err("ValueError")
                if k in ("none", "empty", "nat"):
                    return "NaT"
                return ("utc", self.arg[1]) if "utc" in kws else self.arg[1]
            return self.date(x)
        if o == "opL" and (t.args[0] in (".normalize", ".date") and len(t.args) == 2 or t.args[0] == ".floor" and t.args[2:] == (const("D"),)):
            d = self.date(t.args[1])
            return d if d == "NaT" else d // 1
        if o == "opL" and t.args[0] in (".floor", ".ceil", ".round"):
            raise Unk("rounding of a date")
        if o == "ite":
            return self.date(t.args[1]) if self.b(t.args[0]) else self.date(t.args[2])
        if o == "opL" and t.args[0] == "idxasof":
            d, ax = self.date(t.args[2]), self.axis(t.args[1])
            return "NaT" if d == "NaT" else max([x for x in ax if x <= d], default="NaT")
        if o == "param":
            if self.arg[0] == "date":
                return self.arg[1]
            if self.arg[0] == "nat":
                return "NaT"
            raise Unk("date as text")
        if o == "index" and self.row is not None and self.is_idx(t.args[0]):
            return self.axis(t.args[0])[self.row]
        if o == "label" and self.is_idx(t.args[0]):
            k, ax = int(self.num(t.args[1])), self.axis(t.args[0])
            if not -len(ax) <= k < len(ax):
                raise Err("IndexError")
            return ax[k]
        if o == "cell" and t.args[0].op == "index" and self.is_idx(t.args[0].args[0]):
            return self.date(mk("label", t.args[0].args[0], t.args[1]))
        raise Unk("date " + o)

    def num(self, t):
        if t.op == "n":
            return len(self.axis(IDX_IN)) if t is N_IN else self.n()
        if t.op == "row" and self.row is not None:
            return self.row
        if t.op == "count":
            return len(self.rows(t.args[0]))
        if t.op == "opL" and t.args[0] == "span":
            return {"days": 1, "hours": 1 / 24, "minutes": 1 / 1440}[t.args[1].args[0]]
        if t.op in ("label", "index") or t.op == "opL" and t.args[0] in ("to_datetime", ".normalize", ".floor", ".date", "idxasof") or t.op == "cell" and t.args[0].op == "index":
            d = self.date(t)
            if isinstance(d, tuple):
                raise Err("TypeError")
            return float("nan") if d == "NaT" else d
        if t.op == "opI" and t.args[0] == "searchsorted":
            import bisect
            ax = self.axis(t.args[1])
            if ax is None or sorted(ax) != ax or t.args[3].op != "str":
                raise Unk("searchsorted")
            d = self.date(t.args[2])
            if d == "NaT":
                return len(ax)
            return (bisect.bisect_left if t.args[3].args[0] == "left" else bisect.bisect_right)(ax, d)
        if t.op == "opI" and t.args[0] == "getindexer":
            if len(set(self.dates)) < len(self.dates):
                raise Err("InvalidIndexError")
            if t.args[3] is not NONE and t.args[3].op != "str":
                raise Unk("get_indexer")
            return self.nearest(self.date(t.args[2]), "" if t.args[3] is NONE else t.args[3].args[0])
        if t.op == "opI" and t.args[0] == "getloc":
            hit = [i for i, d in enumerate(self.dates) if d == self.date(t.args[2])]
            if len(hit) != 1:
                raise Unk("position of a repeated date") if hit else Err("KeyError")
            return hit[0]
        return Ev.num(self, t)

    def rows(self, m, n=None):
        if n is None:
            ns = {len(x) for x in (self.axis(t.args[0]) for t in subterms(m) if t.op == "index") if x is not None} or {self.n()}
            if len(ns) > 1:
                raise Unk("rows of two indexes")
            n = ns.pop()
        out, old = [], self.row
        for i in range(n):
            self.row = i
            if self.b(m):
                out.append(i)
        self.row = old
        return out

    def b(self, t):
        o = t.op
        if o == "isinst" and t.args[0].op == "param":
            k, nm = self.arg[0], t.args[1]
            return {"NoneType": k == "none", "str": k in ("text", "month", "junk", "empty")}.get(nm, False) \
                if nm in ("NoneType", "str", "int", "float", "bool", "list", "tuple", "dict") else self.unk("isinst")
        if o == "isnone" and t.args[0].op == "param":
            return self.arg[0] == "none"
        if o == "opb" and t.args[0] == "notdate":
            form = [x.args[1] for x in t.args[2:] if x.args[0] == "kw:format"]
            if any(x.op != "str" or x.args[0] != "%Y-%m-%d" for x in form):
                raise Unk("to_datetime options")
            if form and (self.arg[0] == "month" or self.arg[0] == "text" and len(self.arg) > 2):
                return True
            if any(x.args[0] == "kw:unit" for x in t.args[2:]) and self.arg[0] in ("text", "month"):
                return True
            return self.arg[0] == "junk"
        if o == "in" and self.is_idx(t.args[1]):
            if t.args[0].op == "param" and self.arg[0] != "date":
                if self.arg[0] in ("text",):
                    return self.arg[1] in self.dates
                if self.arg[0] in ("month",):
                    return any(d // 31 == self.arg[1] // 31 for d in self.dates)
                if self.arg[0] in ("junk", "empty", "nat"):
                    return False
                raise Unk("date as text")
            return self.date(t.args[0]) in self.axis(t.args[1])
        if o in ("seq_eq", "eq") and len(t.args) == 2 and isinstance(t.args[1], T):
            return self.date(t.args[0]) == self.date(t.args[1])
        if o == "truthy" and t.args[0].op == "param":
            return self.arg[0] not in ("none", "empty")
        if o in ("isnan", "isna") and t.args[0].op == "param":
            return self.arg[0] in ("none", "nat")
        if o == "isnan" and t.args[0].op in ("cell", "col", "row", "filter"):
            if t.args[0].op == "col" and self.row is not None:
                return ("%s.%s" % t.args[0].args[:2], self.row) in self.missing
            if t.args[0].op == "cell":
                return self.prov(t.args[0]) in self.missing
        if o == "truthy" and t.args[0].op == "opE" and t.args[0].args[0] == "dateisin":
            raise Unk("dateisin")
        return Ev.b(self, t)

    def unk(self, w):
        raise Unk(w)

    def cells(self, t):
        """series -> provenance of its cells"""
        if t.op == "col":
            return [("%s.%s" % t.args[:2], i) for i in range(self.n())]
        if t.op == "filter":
            xs = self.cells(t.args[0])
            return [xs[i] for i in self.rows(t.args[1], len(xs))]
        if t.op == "ite":
            return self.cells(t.args[1]) if self.b(t.args[0]) else self.cells(t.args[2])
        if t.op == "slice":
            xs = self.cells(t.args[0])
            lo = int(self.num(t.args[1]))
            hi = None if t.args[2] is NONE else int(self.num(t.args[2]))
            return xs[lo:hi]
        if t.op in ("ffill", "bfill"):
            xs = self.cells(t.args[0])
            from .validation import fill, GAP
            ys = fill([GAP if x in self.missing else x for x in xs], t.op, None)
            return [x if y is GAP else y for x, y in zip(xs, ys)]
        if t.op == "fillna":
            return [("a replacement", 0) if x in self.missing else x for x in self.cells(t.args[0])]
        if t.op == "lookupnan":
            return [self.reindexed(t)]
        raise Unk("series " + t.op)

    def nearest(self, d, how):
        """position found by get_indexer"""
        if d in self.dates:
            return self.dates.index(d)
        if how in ("", "none"):
            return -1
        if d == "NaT":
            raise Unk("get_indexer")
        if how in ("pad", "ffill"):
            return max([i for i, x in enumerate(self.dates) if x <= d], default=-1)
        if how in ("bfill", "backfill"):
            return min([i for i, x in enumerate(self.dates) if x >= d], default=-1)
        if how == "nearest":
            return min(range(len(self.dates)), key=lambda i: abs(self.dates[i] - d), default=-1)
        raise Unk("get_indexer")

    def reindexed(self, t):
        if len(set(self.dates)) < len(self.dates):
            raise Err("ValueError")
        k = self.nearest(self.date(t.args[1]), t.args[2].args[0] if len(t.args) > 2 else "")
        return self.cells(t.args[0])[k] if k >= 0 else "nan"

    def prov(self, t):
        if t.op == "cell":
            xs = self.cells(t.args[0])
            k = int(self.num(t.args[1]))
            if not -len(xs) <= k < len(xs):
                raise Err("IndexError")
            return xs[k]
        if t.op == "ite":
            return self.prov(t.args[1]) if self.b(t.args[0]) else self.prov(t.args[2])
        if t.op == "lookup":
            if t.args[1].op == "param" and self.arg[0] == "month":
                return "the label of a column"
            if t.args[1].op == "param" and self.arg[0] == "junk":
                raise Err("KeyError")
            if t.args[1].op == "param" and self.arg[0] == "empty":
                raise Err("KeyError")
            d = self.arg[1] if t.args[1].op == "param" and self.arg[0] in ("text",) else self.date(t.args[1])
            hit = [i for i, x in enumerate(self.dates) if x == d]
            if not hit:
                raise Err("KeyError")
            if len(hit) > 1:
                return "the label of a column"
            return self.cells(t.args[0])[hit[0]]
        if t.op == "asof":
            d = self.date(t.args[1])
            xs = self.cells(t.args[0])
            k = max([i for i, x in enumerate(self.dates) if d != "NaT" and x <= d], default=None)
            return "nan" if k is None else xs[k]
        if t.op == "lookupnan":
            return self.reindexed(t)
        if t.op in ("nan", "none"):
            return "nan"
        if t.op in ("const", "bool"):
            return "a constant"
        if t.op == "str":
            return "a text"
        if t.op in ("round", "astype"):
            x = self.prov(t.args[0])
            return "rounded %s" % (x,)
        raise Unk("value " + t.op)


# (description, dates, argument, row expected or None)
LOOKUPS = [("no date", (0, 1, 2, 3), ("none",), 3), ("no date, one row", (0,), ("none",), 0), ("no date, no rows", (), ("none",), None),
           ("the first date", (0, 1, 2, 3), ("date", 0), 0), ("an inner date", (0, 1, 2, 3), ("date", 2), 2),
           ("the last date", (0, 1, 2, 3), ("date", 3), 3), ("an inner date as text", (0, 1, 2, 3), ("text", 1), 1),
           ("the last date as text", (0, 1, 5, 9), ("text", 9), 3), ("the first date as text", (4, 5, 9), ("text", 4), 0),
           ("a date between two rows", (0, 1, 5, 9), ("date", 3), None), ("a date between two rows, as text", (0, 1, 5, 9), ("text", 3), None),
           ("a date before the first", (5, 6, 7), ("date", 2), None), ("a date before the first, as text", (5, 6, 7), ("text", 2), None),
           ("a date after the last", (5, 6, 7), ("date", 9), None), ("a date after the last, as text", (5, 6, 7), ("text", 9), None),
           ("a time of day that is not in the data", (0, 1, 2, 3), ("date", 1.5), None),
           ("a time of day of the data", (0.5, 1, 1.5, 2), ("date", 1.5), 2),
           ("a month as text whose first day is absent", (1, 2, 3, 40), ("month", 0), None),
           ("a month as text whose first day is present", (0, 1, 2, 40), ("month", 0), 0),
           ("an argument that is no date", (0, 1, 2), ("junk",), None), ("an argument that is no date, one row", (0,), ("junk",), None),
           ("an empty text", (0, 1, 2), ("empty",), None), ("a missing date", (0, 1, 2), ("nat",), None),
           ("no date, values missing on the last rows", (0, 1, 2, 3), ("none",), 3),
           ("a date with a missing value", (0, 1, 2, 3), ("date", 2), 2),
           ("a date with a missing value, as text", (0, 1, 2, 3), ("text", 3), 3),
           ("a text in the form month/day/year", (0, 1, 5, 9), ("text", 5, 9), 2),
           ("any date, no rows", (), ("date", 3), None),
           ("a repeated date", (0, 1, 1, 2), ("date", 1), (1, 2)), ("a repeated last date", (0, 1, 2, 2), ("date", 2), (2, 3)),
           ("a date next to a repeated one", (0, 1, 1, 2), ("date", 2), 3),
           ("one row, its date", (7,), ("date", 7), 0), ("many rows, an inner date", tuple(range(300)), ("date", 150), 150)]


def c21(W, R):
    R.rules.append("Lookup transformer: the value returned by getTiValue is extracted as an expression over the calculated rows "
                   "(lookup failures included) and decided on every situation of a finite partition: argument absent, present, "
                   "between, before, after, repeated, a partial date, no date; no or some rows. The provenance of every list "
                   "item must be the documented cell.")
    R.rules.append("Exception flow: no path through the lookup leaves by an exception.")
    from .validation import apply_table
    apply_table(W, R, "C21", "dates-changed")
    for c in W.names():
        with R.unit(c):
            fn, owner = W.classes[c].find("getTiValue")
            if not isinstance(fn, FnV):
                raise Broken("%s.getTiValue not found" % c)
            where = (owner.module.path, fn.fn.lineno, "%s.getTiValue" % owner.name)
            r = W.fresh(c)
            leaf_frames(r)
            if r.ti_cols is None:
                R.skip(c, "calculated frame not modelled")
                continue
            R.count("indicators")
            names = [name_of(x) for x, _ in r.ti_cols]
            a = fn.fn.args
            d = [x for x in a.args if x.arg != "self"]
            import ast
            if not (a.defaults and isinstance(a.defaults[-1], ast.Constant) and a.defaults[-1].value is None):
                R.bad(*where, "default", "without an argument the lookup does not mean the last row", key="default")
            q = run_method(r, "getTiValue", [mk("param", "date", "any")])
            for what, dates, arg, want in LOOKUPS:
                R.count("situations")
                E = Look(dates, arg, [("ti.%s" % x, i) for x in names[-1:] for i in (2, 3)] if "missing" in what else ())
                E.same = r.same_axis
                try:
                    got = looked_up(E, q, q.I)
                except Unk as e:
                    R.skip("%s.getTiValue" % c, "%s: operation not covered: %s" % (what, e))
                    continue
                if isinstance(got, tuple) and got[0] == "raises":
                    R.bad(*where, "raises", "%s: raises %s" % (what, got[1]), key="%s|%s" % (where[2], got[1]))
                    continue
                rows = [want] if not isinstance(want, tuple) else list(want)
                exp = [None if w is None else [("ti.%s" % x, w) for x in names] for w in rows]
                if got in exp:
                    continue
                R.bad(*where, "lookup", "%s of %d rows: gives %s instead of %s" % (what, len(dates), tell(got), tell(exp[0])),
                      key="%s|%s" % (where[2], what))
    if R.counts["indicators"] < 40:
        raise Broken("indicator classes not found")


def tell(x):
    if x is None:
        return "nothing"
    if isinstance(x, list):
        return "[%s]" % ", ".join("%s of row %s" % y if isinstance(y, tuple) else str(y) for y in x[:4])
    return str(x)


def looked_up(E, q, I):
    for e in q.events:
        if e.kind == "uncaught":
            try:
                if E.b(and_(e.guard, e.info["cond"])):
                    return "raises", e.info["cls"]
            except (Err, Unk):
                pass
        if e.kind == "row_access" and not e.info.get("caught"):
            try:
                if E.b(and_(e.guard, e.info["cond"])):
                    return "raises", "IndexError"
            except (Err, Unk):
                pass
    for e in q.ctx.exits:
        if e.kind == "raise" and e.pc is not FALSE:
            try:
                if E.b(e.pc):
                    return "raises", e.value.cls if isinstance(e.value, ExcV) else "?"
            except Err:
                pass
    pend = None
    for g, v in leaf_pairs(q.value):
        try:
            if not E.b(g):
                continue
        except Unk as e:
            pend = pend or e
            continue
        except Err as e:
            pend = pend or Unk("fails: " + e.cls)
            continue
        if v is NONE:
            return None
        if isinstance(v, T) and v.op in ("cell", "lookup", "const", "bool", "str", "nan", "round", "astype"):
            return "something that is not a list"
        items = I.concrete_items(v, q.st) if isinstance(v, RefV) else None
        rec = q.st.heap.get(v.oid) if isinstance(v, RefV) else None
        m = rec.meta[1] if items is None and isinstance(rec, ListRec) and rec.meta and rec.meta[0] == "gen" else None
        if items is None and isinstance(m, SeqV) and m.tag and m.tag[0] == "cond" and all(isinstance(x, T) for _, x in m.tag[1]):
            try:
                items = [x for g, x in m.tag[1] if E.b(g)]
            except Err as e:
                return "raises", e.cls
        if items is None:
            if isinstance(v, (SeqV, TupV, SerV, FrmV)):
                return "something that is not a list"
            raise Unk("returned value")
        if items and all(isinstance(x, RefV) and x.kind == "list" for x in items):
            return "a list of lists"
        if not all(isinstance(x, T) for x in items):
            raise Unk("list item")
        try:
            return [E.prov(x) for x in items]
        except Err as e:
            return "raises", e.cls
    raise pend or Unk("no outcome")


# --------------------------------------------------------------------------- C22
DRAW = (".plot", ".step", ".plot_date", "matplotlib.pyplot.plot", "matplotlib.pyplot.step")


def y_term(v, st):
    if isinstance(v, (SerV, NpV)):
        r = st.heap.get(v.arr)
        return r.t if r is not None else None
    if isinstance(v, RefV):
        r = st.heap.get(v.oid)
        if isinstance(r, ListRec) and r.items is None:
            return r.t
    if isinstance(v, T):
        return v
    return None


def bare(t):
    """the values of a series whatever its container"""
    while t is not None and (t.op == "opS" and t.args[0] in ("rows", "list") or t.op in ("astype", "align")):
        t = t.args[1] if t.op == "opS" else t.args[0]
    if t is not None and t.op == "seq" and t.args[2].op == "cell" and t.args[2].args[1] is mk("lv", t.args[1]):
        t = t.args[2].args[0]
    return t


def lines_of(q):
    """[(event, panel, label, x, y term)] of the drawn lines"""
    out = []
    for e in q.events:
        if e.kind != "plot" or e.info["what"] not in DRAW or e.guard is FALSE:
            continue
        args, kw = list(e.info["args"]), e.info["kw"]
        while args and isinstance(args[-1], T) and args[-1].op == "str":
            args.pop()
        x, y = (args[0], args[1]) if len(args) > 1 else (None, args[0] if args else None)
        if isinstance(y, FrmV):
            for nm, a in q.st.heap[y.oid].cols:
                out.append((e, e.info["ax"], nm, x, q.st.heap[a].t))
            continue
        lab = kw.get("label")
        out.append((e, e.info["ax"], pyval(lab) if isinstance(lab, T) and is_const(lab) else None, x, bare(y_term(y, q.st))))
    return out


def c22(W, R):
    R.rules.append("Drawing-call typestate: getTiGraph and linesGraph are interpreted for every indicator with the calculated and "
                   "input columns as leaves; each declared input column and each calculated column must reach exactly one line "
                   "call, in its panel, under its label, over its dates, in its declared colour, on every path.")
    R.rules.append("Effects: at every exit the content of the indicator equals that on entry (same analysis as C02, for graphs).")
    m, P = registry(W)
    for c in W.names():
        with R.unit(c):
            fn, owner = W.classes[c].find("getTiGraph")
            if not isinstance(fn, FnV):
                raise Broken("%s.getTiGraph not found" % c)
            p = P.get(c)
            if not isinstance(p, dict) or any(k not in p or p[k] is ABSENT for k in PARTS):
                R.skip(c, "description not constant")
                continue
            for va in variants(c):
                one_graph(W, R, c, va, p, (owner.module.path, fn.fn.lineno, "%s.getTiGraph" % owner.name))
    simulation_graph(W, R)
    drawn_data(W, R)
    effects.query_effects(W, R, {"getTiGraph"})
    if R.counts["graphs"] < 40:
        raise Broken("indicator classes not found")


def one_graph(W, R, c, va, p, where):
    r = W.fresh(c, va)
    leaf_frames(r)
    ind = r.rec.attrs.get("_input_data")
    if r.ti_cols is None or not isinstance(ind, FrmV):
        R.skip(c, "calculated frame not modelled")
        return
    td = r.rec.attrs["_ti_data"]
    tr, ir = r.st.heap[td.oid], r.st.heap[ind.oid]
    R.count("graphs")
    split = bool(p["graph_subplots"])
    want = []
    icols = dict((nm, r.st.heap[a].t) for nm, a in ir.cols)
    for x in p["graph_input_columns"]:
        if x in icols:
            want.append((0, x, icols[x], ir.idx))
    for nm, a in tr.cols:
        want.append((1 if split else 0, name_of(nm), r.st.heap[a].t, tr.idx))
    facts = sig_facts(r)
    q = run_method(r, "getTiGraph", facts=facts)
    unknown = [u for u in q.unknown if u[0] not in DECOR]
    got = lines_of(q)
    for k, (panel, name, t, idx) in enumerate(want):
        R.count("lines")
        mine = [g for g in got if g[4] is t]
        right = [g for g in mine if g[1] == panel or g[1] is None]
        vague = bool(unknown) or any(g[4] is None or g[4].opq for g in got)
        if not mine:
            other = [g for g in got if g[2] == name and g[4] is not None and not g[4].opq]
            if other:
                e = other[0][0]
                R.bad(e.file, e.line, c, "other-values", "under the label %r the graph draws %s instead of the column's values"
                      % (name, show(other[0][4])[:100]), key="%s|%s|values" % (e.file, e.line))
            elif any(u[0] == "dropna axis=1" for u in unknown):
                u = next(u for u in unknown if u[0] == "dropna axis=1")
                R.bad(u[1], u[2], where[2], "line-missing", "a column with missing values is left out of the graph", key="%s|%s|left-out" % u[1:3])
            elif vague:
                R.skip(c, "line of column %r not seen; not modelled: %s" % (name, str(unknown[:1])[:80]))
            else:
                R.bad(*where, "not-drawn", "%s: column %r is not drawn" % (c, name), key="%s|not-drawn" % where[0])
            continue
        if not right:
            e = mine[0][0]
            R.bad(e.file, e.line, c, "panel", "column %r is drawn in panel %s instead of %s" % (name, mine[0][1] + 1, panel + 1),
                  key="%s|%s|panel" % (e.file, e.line))
            continue
        cover = or_(*[g[0].guard for g in mine])
        s = sat(not_(cover), facts)
        if s is None and any(x.op in ("col", "aggr", "cell") for x in subterms(cover)):
            s = True               # depends on the values themselves
        if s is True and not cover.opq:
            e = mine[0][0]
            R.bad(e.file, e.line, c, "not-always-drawn", "column %r is drawn only when %s" % (name, show(cover)[:120]),
                  key="%s|%s|sometimes" % (e.file, e.line))
        elif s is not False:
            R.skip(c, "line of column %r drawn conditionally" % name)
        for i in range(len(mine)):
            for j in range(i):
                if mine[i][0] is not mine[j][0] and sat(and_(mine[i][0].guard, mine[j][0].guard), facts) is True:
                    e = mine[i][0]
                    R.bad(e.file, e.line, c, "drawn-twice", "column %r is drawn more than once" % name, key="%s|%s|twice" % (e.file, e.line))
        for g in right:
            e = g[0]
            if g[2] is not None and g[2] != name:
                R.bad(e.file, e.line, c, "label", "column %r is drawn under the label %r" % (name, g[2]), key="%s|%s|label" % (e.file, e.line))
            if isinstance(g[3], IdxV) and g[3].t is not idx and not g[3].t.opq:
                R.bad(e.file, e.line, c, "dates", "column %r is drawn over %s instead of its dates" % (name, show(g[3].t)[:80]),
                      key="%s|%s|dates" % (e.file, e.line))
            for part, key in (("color", "graph_lines_color"), ("alpha", "graph_alpha_values")):
                v = e.info["kw"].get(part)
                decl = p[key]
                if isinstance(v, T) and is_const(v) and isinstance(decl, list) and decl and None not in decl:
                    x = decl[k % len(decl)] if part == "color" or k < len(decl) else ABSENT
                    if x is ABSENT:
                        R.bad(e.file, e.line, c, "style", "no %s is declared for the line of column %r" % (part, name),
                              key="%s|%s|%s" % (c, name, part))
                    elif not same_value(pyval(v), x):
                        R.bad(e.file, e.line, c, "style", "column %r is drawn with %s %s instead of the declared %s"
                              % (name, part, pyval(v), x), key="%s|%s|%s" % (e.file, e.line, part))
    areas(R, c, p, q, want, where, unknown)
    for text, arg, names in (("title", "long_name", (".suptitle", ".set_title", "matplotlib.pyplot.title", "matplotlib.pyplot.suptitle")),
                             ("axis label", "graph_y_label", (".supylabel", ".set_ylabel", "matplotlib.pyplot.ylabel"))):
        said = [e for e in q.events if e.kind == "plot" and e.info["what"] in names and e.guard is not FALSE]
        vals = [e.info["args"][0] for e in said if e.info["args"] and isinstance(e.info["args"][0], T) and is_const(e.info["args"][0])]
        R.count("texts")
        if vals and all(pyval(v) != p[arg] for v in vals):
            R.bad(said[0].file, said[0].line, c, "text", "the %s is %r instead of %r" % (text, pyval(vals[0]), p[arg]),
                  key="%s|%s" % (said[0].line, text))
    for e in q.ctx.exits:
        if e.kind == "raise" and isinstance(e.value, ExcV) and not e.pc.opq and sat(e.pc, facts) is True:
            R.bad(e.file, getattr(e.node, "lineno", 0), c, "graph-fails", "the graph fails with %s" % e.value.cls,
                  key="%s|%s|fails" % (e.file, getattr(e.node, "lineno", 0)))
    for e in q.events:
        if e.kind == "row_access" and e.info.get("what") == "list[]" and not e.info.get("caught") and sat(
                and_(e.guard, e.info["cond"]), facts) is True:
            R.bad(e.file, e.line, c, "graph-fails", "the graph addresses panel or item %s of %s" % (show(e.info["row"]), show(e.info["n"])),
                  key="%s|%s|fails" % (e.file, e.line))
    v = [x for _, x in leaf_pairs(q.value)]
    if all(x is NONE for x in v):
        R.bad(*where, "no-graph", "nothing is returned", key="%s|none" % where[2])
    R.sample("%s: %s" % (c, "; ".join("panel %s %s" % (g[1], g[2]) for g in got)))


def same_value(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return abs(a - b) < 1e-12
    return a == b or str(a) == str(b)


# calls that draw no line and touch no data: ticks, their text, the frame of a panel
DECOR = {"method:" + x for x in ("set_major_locator", "set_major_formatter", "set_minor_locator", "set_minor_formatter", "tick_params",
                                 "set_visible", "set_alpha", "set_linewidth", "set_tick_params", "autofmt_xdate", "set_label_position",
                                 "set_ticks_position", "tick_right", "tick_left", "tick_top", "tick_bottom")}


def areas(R, c, p, q, want, where, unknown):
    decl = p["graph_areas"] or []
    drawn = [e for e in q.events if e.kind == "plot" and e.info["what"] in (".fill_between", "matplotlib.pyplot.fill_between")
             and e.guard is not FALSE]
    if not isinstance(decl, list):
        return
    left = list(drawn)
    for a in decl:
        R.count("areas")
        t = [next((x[2] for x in want if isinstance(a.get(k), list) and len(a[k]) == 3 and x[1] == a[k][2]), None) for k in ("y1", "y2")]
        if None in t:
            continue
        hit = None
        for e in left:
            args = dict(zip(("x", "y1", "y2"), e.info["args"]))
            args.update(e.info["kw"])
            ys = [bare(y_term(args.get(k), q.st)) for k in ("y1", "y2")]
            if ys[0] is t[0] and ys[1] is t[1] or ys[0] is t[1] and ys[1] is t[0]:
                hit = e
            elif any(y is None or y.opq for y in ys):
                hit = hit or ABSENT
        if hit is None:
            if unknown:
                R.skip(c, "area not seen")
            else:
                R.bad(*where, "area-not-drawn", "%s: the declared area between %s and %s is not drawn" % (c, a["y1"][2], a["y2"][2]),
                      key="%s|area" % where[0])
        elif hit is not ABSENT and dict(hit.info["kw"]).get("where", NONE) not in (NONE, TRUE):
            R.bad(hit.file, hit.line, where[2], "area-not-drawn", "%s: the declared area between %s and %s is filled on some rows only"
                  % (c, a["y1"][2], a["y2"][2]), key="%s|area-where" % where[0])
            left.remove(hit)
        elif hit is not ABSENT:
            left.remove(hit)
            args = dict(zip(("x", "y1", "y2"), hit.info["args"]))
            args.update(hit.info["kw"])
            x = args.get("x", ABSENT)
            idxs = {w[3] for w in want}
            said = pyval(x) if isinstance(x, T) and is_const(x) else None
            if x is ABSENT or isinstance(said, (str, int, float)) or isinstance(x, IdxV) and x.t not in idxs and not x.t.opq:
                R.bad(hit.file, hit.line, c, "area-dates", "the declared area is drawn over %s instead of the dates"
                      % ("nothing" if x is ABSENT else repr(said) if said is not None else show(x.t)[:60]),
                      key="%s|%s|area-dates" % (hit.file, hit.line))
            col = args.get("color", args.get("facecolor", ABSENT))
            if isinstance(col, T) and is_const(col) and isinstance(a.get("color"), str) and pyval(col) != a["color"]:
                R.bad(hit.file, hit.line, c, "area-colour", "the declared area is drawn in %r instead of %r" % (pyval(col), a["color"]),
                      key="%s|%s|area-colour" % (hit.file, hit.line))


SIM_COLS = ("signal", "open_trading_action", "stock_value", "exposure", "portfolio_value", "earnings", "balance")


def drawn_data(W, R):
    """what getTiSimulation hands to the graph"""
    from . import simulation
    done = set()
    for c in W.names():
        with R.unit(c):
            fn, owner = W.classes[c].find("getTiSimulation")
            sf, _ = W.classes[c].find("_getSimulationGraph")
            if not isinstance(fn, FnV) or (id(fn.fn), id(getattr(sf, "fn", None))) in done:
                continue
            done.add((id(fn.fn), id(getattr(sf, "fn", None))))
            t = simulation.trace(W, c)
            if not t.graph:
                R.skip(c, "no graph of the simulation seen")
            simulation.graph_data(R, t, c)


def simulation_graph(W, R):
    """the graph of a simulation: close price, exposure and balance, each once, in a panel of its own, every day"""
    done = set()
    for c in W.names():
        with R.unit(c):
            fn, owner = W.classes[c].find("_getSimulationGraph")
            if not isinstance(fn, FnV) or id(fn.fn) in done:
                continue
            done.add(id(fn.fn))
            r = W.fresh(c)
            n = mk("n", "sim")
            fr = r.I.frame(r.st, [(x, mk("col", "sim", x)) for x in SIM_COLS], mk("idx", "sim"), n, order="known", tag="sim")
            where = (owner.module.path, fn.fn.lineno, "%s._getSimulationGraph" % owner.name)
            q = run_method(r, "_getSimulationGraph", [fr, mk("str", "Title")], facts=[compare("ge", n, ONE)])
            got = lines_of(q)
            used = []
            for x in ("stock_value", "exposure", "balance"):
                R.count("simulation lines")
                mine = [g for g in got if g[4] is mk("col", "sim", x)]
                if not mine:
                    if [u for u in q.unknown if u[0] not in DECOR] or any(g[4] is None or g[4].opq for g in got):
                        R.skip(where[2], "line of %s not seen" % x)
                    else:
                        R.bad(*where, "not-drawn", "the simulation's %s is not drawn" % x, key="sim|%s" % x)
                elif len(mine) > 1 and all(g[0].guard is TRUE for g in mine):
                    R.bad(mine[1][0].file, mine[1][0].line, where[2], "drawn-twice", "the simulation's %s is drawn more than once" % x,
                          key="sim|%s|twice" % x)
                elif mine[0][0].guard is not TRUE and not mine[0][0].guard.opq:
                    R.bad(mine[0][0].file, mine[0][0].line, where[2], "not-always-drawn", "the simulation's %s is drawn only when %s"
                          % (x, show(mine[0][0].guard)[:100]), key="sim|%s|sometimes" % x)
                else:
                    if mine[0][1] is not None and mine[0][1] in used:
                        R.bad(mine[0][0].file, mine[0][0].line, where[2], "panel", "the simulation's %s shares a panel" % x, key="sim|%s|panel" % x)
                    used.append(mine[0][1])
            for e in q.events:
                if e.kind.startswith("write_") and e.info.get("tag") == "sim" and e.guard is not FALSE:
                    R.bad(e.file, e.line, where[2], "changes-data", "drawing changes the simulation data", key="sim|write|%s" % e.line)
