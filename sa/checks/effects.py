"""C01 (caller's frames), C02 (queries are read-only), C17 (results depend on the arguments only): effect analysis."""
import contextlib
from .common import *
from ..interp import Exit, State, Ctx, CONST_OPS
from ..model import VALUE_WRITES

IN_BUFFER = ("loc", "iloc", "at", "iat", "where", "[]=", "augmented assignment") + tuple(VALUE_WRITES)
WRITES = ("write_frame", "write_series", "write_arr")


# --------------------------------------------------------------------------- C01
def hits_caller(e):
    """does this write reach the caller's frame?"""
    if e.kind not in WRITES or e.guard is FALSE:
        return False
    tag = e.info.get("tag")
    if tag == "caller":
        return True
    if isinstance(tag, tuple) and tag[:2] == ("share", "caller"):
        return e.kind != "write_frame" or e.info.get("what") in IN_BUFFER
    return False


def find_fn(W, name):
    for m in W.tree.project.modules.values():
        v = m.env.get(name)
        if isinstance(v, FnV) and v.fn.name == name and v.module is m:
            return m, v
    raise Broken("function %s not found" % name)


def caller_frame(I, st):
    return RFrmV(I.new(st, RFrmRec(mk("opF", "caller"), "caller", ())))


def validate_run(W, req=("close", "high"), fill=None, src=None, hooks=None):
    """interpret validateInputData on an arbitrary caller's object"""
    I = W.tree.interp()
    st = drive.base_state(I)
    I.facts_extra, I.hooks = (), hooks or {}
    m, f = find_fn(W, "validateInputData")
    src = src(I, st) if src else caller_frame(I, st)
    ctx = Ctx("<entry>", m, None)
    I.events.clear()
    I.unknown.clear()
    lst = RefV(I.new(st, ListRec(tuple(const(x) for x in req))), "list")
    v = I.call(f, [src, lst, const("NAME")], {"fill_missing_values": fill if fill is not None else mk("param", "fill", "bool")},
               st, ctx, f.fn)
    r = drive.Run()
    r.I, r.st, r.ctx, r.value, r.m, r.f, r.src = I, st, ctx, v, m, f, src
    r.events, r.unknown = list(I.events), list(I.unknown)
    return r


def alias_tag(v, st):
    """how the returned frame is related to the caller's: 'caller', ('share','caller') or None"""
    out = None
    for g, x in leaf_pairs(v):
        if g is FALSE or not isinstance(x, (RFrmV, FrmV)):
            continue
        t = st.heap[x.oid].tag
        if t == "caller":
            return t
        if isinstance(t, tuple):
            out = t
    return out


def report_caller(R, events, key):
    for e in events:
        if hits_caller(e):
            fn = e.fn.name if hasattr(e.fn, "name") else str(e.fn)
            R.bad(e.file, e.line, fn, "caller-frame", "writes to the data frame the caller handed in (%s%s)"
                  % (e.info.get("what") or "column", "" if e.guard is TRUE else ", when %s" % show(e.guard)[:160]),
                  key="%s|%s|caller" % (e.file, e.line))


def c01(W, R):
    R.rules.append("Alias and effect analysis: the caller's frame is an object of its own; copies are new objects, slices, "
                   "columns and shallow copies share its buffers. No write (item, column, label, in-place method) of any "
                   "path of input validation, constructors and simulations, error paths included, may reach it.")
    q = validate_run(W)
    R.count("functions analysed")
    report_caller(R, q.events, "validate")
    R.count("write sites seen", sum(1 for e in q.events if e.kind in WRITES))
    if q.unknown:
        R.skip("validateInputData", "not modelled: %s" % str(q.unknown[0])[:120])
    tag = alias_tag(q.value, q.st)
    R.sample("validateInputData: %d exits, result %s" % (len(q.ctx.exits) + 1, "aliases the input" if tag else "is a new frame"))
    m, f = find_fn(W, "fillMissingValues")
    I = W.tree.interp()
    st = drive.base_state(I)
    I.facts_extra, I.hooks = (), {}
    I.call(f, [caller_frame(I, st)], {}, st, Ctx("<entry>", m, None), f.fn)
    R.count("functions analysed")
    report_caller(R, I.events, "fill")
    seen = set()
    for c in W.names():
        with R.unit(c):
            tree = W.tree
            I = tree.interp()
            ps, _ = typed_params(I, W.classes[c])
            r = run_ctor(tree, c, ps, [compare("ge", N_IN, ONE)], root_src=caller_frame, out_tag=tag)
            R.count("constructors analysed")
            R.count("write sites seen", sum(1 for e in r.events if e.kind in WRITES))
            report_caller(R, r.events, c)
            for e in r.events:
                if e.kind == "unknown_write":
                    R.skip(c, "write not modelled at line %s" % e.line)
    # simulations: the class and every override of getTiSimulation
    done = set()
    for c in W.names():
        with R.unit(c):
            fn, owner = W.classes[c].find("getTiSimulation")
            if not isinstance(fn, FnV) or id(fn.fn) in done:
                continue
            done.add(id(fn.fn))
            r = W.fresh(c)
            leaf_frames(r)
            src = caller_frame(r.I, r.st)
            sig, sowner = r.info.find("getTiSignal")
            hooks = {sowner.name + ".getTiSignal": lambda I, f, a, k, s, cx, n: mk("opq", "signal"),
                     "TechnicalIndicator._getSimulationGraph": lambda I, f, a, k, s, cx, n: mk("opq", "graph")}
            q = run_method(r, "getTiSimulation", [], {"close_values": src, "max_exposure": mk("param", "max_exposure", "any"),
                                                      "short_exposure_factor": mk("param", "short_exposure_factor", "any")},
                           facts=sig_facts(r), hooks=hooks, out_tag=tag)
            R.count("simulations analysed")
            R.count("write sites seen", sum(1 for e in q.events if e.kind in WRITES))
            report_caller(R, q.events, c)
            for e in q.events:
                if e.kind == "unknown_write":
                    R.skip(c, "write not modelled at line %s" % e.line)
    # the constructor of the simulation on its own, on all its error paths
    cls = next((v for m in W.tree.project.modules.values() for v in [m.env.get("TradingSimulation")]
                if isinstance(v, ClsV) and v.info.module is m), None)
    if cls is None:
        raise Broken("class TradingSimulation not found")
    I = W.tree.interp()
    st = drive.base_state(I)
    log = []
    I.facts_extra, I.hooks = (), {"validateInputData": drive.validate_hook(log, tag)}
    I.construct(cls, [], {"input_data_index": IdxV(IDX_IN, N_IN), "close_values": caller_frame(I, st),
                          "max_exposure": mk("param", "max_exposure", "any"),
                          "short_exposure_factor": mk("param", "short_exposure_factor", "any")},
                st, Ctx("<entry>", cls.info.module, None), cls.info.node)
    R.count("simulations analysed")
    report_caller(R, I.events, "sim")
    if R.counts["constructors analysed"] < 40:
        raise Broken("constructors not found")


# --------------------------------------------------------------------------- C02
def content(v, st, depth=0):
    """structural content of a value reachable from the instance"""
    if isinstance(v, FrmV):
        r = st.heap[v.oid]
        return ("frame", r.idx.id, r.n.id if isinstance(r.n, T) else r.n,
                tuple((c.id if isinstance(c, T) else c, st.heap[a].t.id) for c, a in r.cols))
    if isinstance(v, (SerV, NpV)):
        return (type(v).__name__, st.heap[v.arr].t.id)
    if isinstance(v, RFrmV):
        return ("rframe", st.heap[v.oid].t.id)
    if isinstance(v, RefV) and depth < 4:
        return ("ref", v.oid, rec_content(st.heap.get(v.oid), st, depth + 1))
    if isinstance(v, TupV):
        return ("tup",) + tuple(content(x, st, depth + 1) for x in v.items)
    if isinstance(v, ChoiceV):
        return ("choice", v.c.id, content(v.a, st, depth), content(v.b, st, depth))
    return vkey(v)


def rec_content(r, st, depth=0):
    if isinstance(r, ListRec):
        if r.items is not None:
            return ("list",) + tuple(content(x, st, depth) for x in r.items)
        return ("list", r.t.id, r.n.id if isinstance(r.n, T) else None)
    if isinstance(r, DictRec):
        return ("dict",) + tuple((keytext(k), content(x, st, depth)) for k, x in r.items.items())
    if isinstance(r, InstRec):
        return ("inst",) + tuple((k, content(x, st, depth)) for k, x in sorted(r.attrs.items()))
    if isinstance(r, ArrRec):
        return ("arr", r.t.id)
    if isinstance(r, FrmRec):
        return ("frm", r.idx.id, tuple(str(c) for c, _ in r.cols))
    return None


def may_raise(lab, value):
    """hook: the call returns `value` or fails"""

    def h(I, f, args, kw, st, ctx, node):
        c = mk("raises", lab)
        s = st.copy()
        ctx.exits.append(Exit("raise", ExcV("Exception", {}, ()), and_(st.pc(), c), s, node, ctx.module.path))
        st.rel = and_(st.rel, not_(c))
        return value(I, st) if callable(value) else value

    return h


def base_changes(I, base, st, tables=False):
    """module-level containers whose content differs from the state after import; tables: those filled at import"""
    out = []
    for oid, rec in base.items():
        if not isinstance(rec, (ListRec, DictRec, InstRec)):
            continue
        now = st.heap.get(oid)
        if now is rec or now is None:
            continue
        if tables and not (isinstance(rec, InstRec) or rec.items):
            continue
        s0 = State({}, base)
        if rec_content(rec, s0) != rec_content(now, st):
            out.append(oid)
    return out


def where_written(events, oids, attrs):
    for e in events:
        if e.kind in ("write_dict", "write_list") and e.info.get("oid") in oids:
            return e
        if e.kind == "write_attr" and e.info.get("attr") in attrs:
            return e
    return None


def queries(r, nth=""):
    fn, owner = r.info.find("getTiSignal")
    tuple_ = lambda I, s: TupV([mk("opq", "simdata" + nth), mk("opq", "stats" + nth)])
    sim = {owner.name + ".getTiSignal": may_raise("signal", mk("opq", "signal")),
           "TradingSimulation.__init__": may_raise("simulation", NONE),
           "TradingSimulation.runSimulationRound": may_raise("round", NONE),
           "TradingSimulation.closeSimulation": may_raise("close", tuple_)}
    args = {"close_values": mk("opq", "caller_closes" + nth), "max_exposure": mk("param", "max_exposure" + nth, "any"),
            "short_exposure_factor": mk("param", "short_exposure_factor" + nth, "any")}
    plotted = {"linesGraph": may_raise("linesGraph", mk("opq", "graph"))}
    return [("getTiData", [], {}, {}), ("getTiValue", [], {}, {}), ("getTiValue", [mk("param", "date", "any")], {}, {}),
            ("getTiSignal", [], {}, {}), ("getTiGraph", [], {}, plotted), ("getTiGraph", [], {}, {}),
            ("getTiSimulation", [], args, sim)]


def settings(at):
    """attributes that hold the indicator's input, values, settings and description"""
    out = set()
    for k, v in at.items():
        if isinstance(v, (FrmV, SerV, NpV, RefV)):
            out.add(k)
        elif isinstance(v, T) and any(x.op == "param" for x in subterms(v)):
            out.add(k)
    return out


def c02(W, R):
    R.rules.append("State comparison: at every exit of every query (normal and failing, with a simulation, plot or signal "
                   "that may fail at any call), the content of every attribute of the indicator and of every module-level "
                   "table equals that on entry; an attribute a query adds or changes must not alter the answer of a later "
                   "query (the later query is interpreted from the changed state, on the same and on shortened data).")
    proven = query_effects(W, R)
    R.count("queries proven", len(proven))


class Only:
    """a result that records only some rules"""

    def __init__(self, R, rules):
        self.R, self.rules = R, rules

    def bad(self, file, line, fn, rule, what, key=None):
        if rule in self.rules:
            self.R.bad(file, line, fn, rule, what, key)

    def count(self, *a):
        self.R.count(*a)

    def skip(self, *a):
        self.R.skip(*a)

    def unit(self, where):
        return self.R.unit(where)


def query_effects(W, R, which=None):
    proven = set()
    for c in W.names():
        with R.unit(c):
            base0 = None
            for name, args, kw, hooks in queries(W.ctor(c)):
                if which is not None and name not in which:
                    continue
                fn, owner = W.classes[c].find(name)
                if not isinstance(fn, FnV):
                    raise Broken("%s.%s not found" % (c, name))
                r = W.fresh(c)
                base = dict(r.I.base_heap)
                if base0 is None:
                    base0 = True
                    ch = base_changes(r.I, base, r.st, True)
                    if ch:
                        e = where_written(r.events, ch, ())
                        R.bad(e.file if e else owner.module.path, e.line if e else 0, "%s.__init__" % c, "module-state",
                              "construction changes a module-level table", key="%s|ctor" % (e.line if e else c))
                    for e in r.events:
                        if e.kind == "write_global" and e.guard is not FALSE:
                            pass
                leaf_frames(r)
                at0 = dict(r.st.heap[r.inst.oid].attrs)
                st0 = r.st.copy()
                c0 = {k: content(v, st0) for k, v in at0.items()}
                ctxs = "%s.%s" % (owner.name, name)
                q = run_method(r, name, list(args), dict(kw), facts=sig_facts(r), hooks=hooks)
                R.count("queries analysed")
                exits = [(None, q.st, "return")] if not q.st.dead else []
                exits += [(e.pc, e.st, "failure at line %s" % getattr(e.node, "lineno", 0)) for e in q.ctx.exits
                          if e.kind == "raise" and e.pc is not FALSE and e.st is not None]
                R.count("exits compared", len(exits))
                pend = []
                for pc, st, how in exits:
                    rec = st.heap.get(r.inst.oid)
                    if rec is None:
                        continue
                    ch = [k for k in at0 if k not in rec.attrs or content(rec.attrs[k], st) != c0[k]]
                    new = [k for k in rec.attrs if k not in at0]
                    direct = [k for k in ch if k in settings(at0)]
                    if direct:
                        e = where_written(q.events, (), direct)
                        R.bad(e.file if e else owner.module.path, e.line if e else fn.fn.lineno, ctxs, "state-changed",
                              "leaves %s changed after %s" % (", ".join(direct), how), key="%s|%s|%s" % (ctxs, direct, how[:7]))
                    elif ch or new:
                        pend.append((st, ch + new, how))
                    bs = base_changes(r.I, base, st, True)
                    if bs:
                        e = where_written(q.events, bs, ())
                        R.bad(e.file if e else owner.module.path, e.line if e else fn.fn.lineno, ctxs, "module-state",
                              "changes a module-level table", key="%s|module" % ctxs)
                if not pend and not any(u[0] == "setitem" for u in q.unknown):
                    proven.add((c, name))
                for u in q.unknown:
                    if u[0] == "setitem":          # other unmodelled constructs only yield opaque values
                        R.skip("%s.%s" % (c, name), "not modelled: %s" % str(u)[:100])
                for e in q.events:
                    if e.kind == "unknown_write" and e.guard is not FALSE:
                        R.skip("%s.%s" % (c, name), "write not modelled at line %s" % e.line)
                    if e.kind == "cached" and e.info.get("method") and reads_frames(e, W):
                        R.bad(e.file, e.line, ctxs, "stale-answer", "a cached method reads the indicator's data, which a simulation "
                              "replaces day by day", key="%s|cached|%s" % (e.file, e.line))
                for st, attrs, how in pend[:3]:
                    stale(W, R, r, st0, st, attrs, ctxs, q, fn, owner)
    return proven


def reads_frames(e, W):
    import ast
    for m in W.tree.project.modules.values():
        if m.path == e.file:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef) and n.lineno == e.line or isinstance(n, ast.FunctionDef) and any(
                        d.lineno == e.line for d in n.decorator_list):
                    return any(isinstance(x, ast.Attribute) and x.attr in ("_ti_data", "_input_data") for x in ast.walk(n))
    return False


def answers(r, st, name, facts, uid):
    """answer of a query from a given state, as one comparable term"""
    x = drive.Run()
    x.__dict__.update(r.__dict__)
    x.st = st.copy()
    x.I.uid = uid
    q = run_method(x, name, [], {}, facts=facts)
    if q.st.dead:
        return None, q
    return x.I.sig(q.value, q.st), q


def cut(r, st):
    """the state of a simulation round: other, shorter data in place"""
    s = st.copy()
    rec = s.heap[r.inst.oid]
    at = dict(rec.attrs)
    n, idx = mk("n", "cut"), mk("idx", "cut")
    for k, nm in (("_ti_data", "ti_cut"), ("_input_data", "input_cut")):
        v = at.get(k)
        if isinstance(v, FrmV):
            f = s.heap[v.oid]
            at[k] = r.I.frame(s, [(c, mk("col", nm, c if isinstance(c, (str, int)) else show(c))) for c, _ in f.cols],
                              idx, n, order="known", tag=None)
    s.heap[r.inst.oid] = InstRec(rec.cls, at, rec.tag, rec.sub, rec.gone)
    return s


def stale(W, R, r, s0, s1, attrs, ctxs, q, fn, owner):
    """do later answers depend on what the query left in the instance?"""
    uid = r.I.uid + 1000
    e = where_written(q.events, (), attrs)
    at = (e.file, e.line) if e else (owner.module.path, fn.fn.lineno)
    facts = sig_facts(r)
    # a later simulation with other arguments
    _, args, kw, hooks = queries(r, " of the later simulation")[-1]
    x = drive.Run()
    x.__dict__.update(r.__dict__)
    x.st = s1.copy()
    later_q = run_method(x, "getTiSimulation", list(args), kw, facts=facts, hooks=hooks)
    R.count("later answers compared")
    if not later_q.st.dead:
        held = [t for t in module_terms(later_q.value, later_q.st, [])]
        if any(t.op == "opq" and t.args[:1] in (("simdata",), ("stats",)) for h in held for t in subterms(h)):
            R.bad(at[0], at[1], ctxs, "stale-answer", "keeps %s, and a later getTiSimulation with other arguments answers the "
                  "earlier simulation" % ", ".join(attrs), key="%s|stale simulation|%s" % (ctxs, attrs))
            return
    for name in ("getTiSignal", "getTiData", "getTiValue"):
        for shorter in (False, True):
            a0, q0 = answers(r, cut(r, s0) if shorter else s0, name, [] if shorter else facts, uid)
            a1, q1 = answers(r, cut(r, s1) if shorter else s1, name, [] if shorter else facts, uid)
            R.count("later answers compared")
            if a0 is None or a1 is None or a0 is a1:
                continue
            old = {x for x in subterms(a1) if x.op == "col" and x.args[0] in ("ti", "input")
                   or x.op == "n" and x.args[0] in ("in", "ti")}
            if shorter and old and not any(x.op == "col" and x.args[0] in ("ti", "input") for x in subterms(a0)):
                R.bad(at[0], at[1], ctxs, "stale-answer", "keeps %s, and %s on other data then answers from the earlier data "
                      "(reads %s)" % (", ".join(attrs), name, show(next(iter(old)))), key="%s|stale|%s" % (ctxs, attrs))
                return
            if not shorter and not a1.opq and not a0.opq:
                R.bad(at[0], at[1], ctxs, "later-answer", "changes %s, and a later %s answers %s instead of %s"
                      % (", ".join(attrs), name, show(a1)[:120], show(a0)[:120]), key="%s|later|%s" % (ctxs, attrs))
                return
            R.skip(ctxs, "%s: later %s differs in form" % (", ".join(attrs), name))


# --------------------------------------------------------------------------- C17
def tainted(t):
    """external, time, random or identity dependent part of a term"""
    for x in subterms(t):
        if x.op == "opq" and isinstance(x.args[0], str) and x.args[0].startswith(("nondet:", "io:", "uninit")):
            return x.args[0]
    return None


def result_terms(r):
    """named value terms of a constructed indicator"""
    out = []
    rec = r.st.heap[r.inst.oid]
    for k, v in sorted(rec.attrs.items()):
        if isinstance(v, FrmV):
            f = r.st.heap[v.oid]
            for c, a in f.cols:
                out.append(("%s[%s]" % (k, c if not isinstance(c, T) else show(c)), r.st.heap[a].t))
            out.append((k + ".columns", mk("opq", "cols", *[c if isinstance(c, T) else const(c) for c, _ in f.cols])))
            out.append((k + ".rows", f.n))
        elif isinstance(v, T):
            out.append((k, v))
    for e in r.ctx.exits:
        if e.kind == "raise" and isinstance(e.pc, T):
            out.append(("refusal %s" % (e.value.cls if isinstance(e.value, ExcV) else ""), e.pc))
    return out


SOURCES = ("nondet", "io")


def c17(W, R):
    R.rules.append("Taint analysis: values read from a clock, random source, environment, file, object identity, "
                   "uninitialised memory or set order are sources; indicator values, refusals, signals, simulation rows and "
                   "statistics are sinks, explicit and implicit (branch) flows included. State that outlives a call (module "
                   "or class variables, mutable defaults, cached functions) is carried into a second construction with other "
                   "data, whose values must be the same expressions.")
    for c in W.names():
        with R.unit(c):
            r = W.fresh(c)
            R.count("constructors analysed")
            where = (r.info.module.path, r.info.node.lineno, c)
            res = result_terms(r)
            flows(R, r.events, res, where, c)
            carried(W, R, c, r, res, where)
            if getattr(r.I, "set_iterated", False):
                r2 = set_order(W, c)
                compare_runs(R, where, c, res, result_terms(r2), "the iteration order of a set")
            for nm in ("getTiSignal", "getTiData"):
                carried_query(W, R, c, nm)
            carried_query(W, R, c, "getTiValue", [mk("param", "date", "any")])
            leaf_frames(r)
            q = run_method(r, "getTiSignal", facts=sig_facts(r))
            R.count("queries analysed")
            sres = [("the signal", q.I.sig(q.value, q.st))] + [("signal path", e.pc) for e in q.ctx.exits if isinstance(e.pc, T)]
            flows(R, q.events, sres, where, c + ".getTiSignal")
    with R.unit("simulation"):
        carried_simulation(W, R)
    query_effects(W, Only(R, ("stale-answer", "later-answer", "module-state")))
    for c, q, res, where in simulations(W, R):
        R.count("simulations analysed")
        flows(R, q.events, res, where, c)


def flows(R, events, res, where, c):
    src = [e for e in events if e.kind in SOURCES and e.guard is not FALSE]
    R.count("sources seen", len(src))
    R.count("result expressions", len(res))
    for e in events:
        if e.guard is FALSE:
            continue
        if e.kind == "nondet" and e.info.get("mutable"):
            R.bad(e.file, e.line, c, "nondeterminism", "%s changes data in place" % e.info.get("what"))
        if e.kind == "write_global" and e.info.get("name", "").split(".")[0] in ("pandas", "numpy"):
            R.bad(e.file, e.line, c, "process-state", "changes a process-wide setting (%s)" % e.info["name"])
    for nm, t in res:
        w = tainted(t)
        if w:
            e = next((e for e in src if str(e.info.get("what", "")).split("(")[0].split(".")[-1] in w), src[0] if src else None)
            at = (e.file, e.line) if e else where[:2]
            R.bad(at[0], at[1], c, "nondeterminism", "%s depends on %s" % (nm, w.split(":", 1)[-1]), key="%s|%s" % at)


def set_order(W, c):
    I0 = W.tree.interp
    try:
        def interp():
            I = I0()
            I.set_reverse = True
            return I
        W.tree.interp = interp
        return W.fresh(c)
    finally:
        del W.tree.interp


def rename(t, ren):
    return subst(t, ren) if isinstance(t, T) else t


def rename_v(v, ren):
    if isinstance(v, T):
        return subst(v, ren)
    if isinstance(v, TupV):
        return TupV([rename_v(x, ren) for x in v.items])
    if isinstance(v, ChoiceV):
        return choice(subst(v.c, ren), rename_v(v.a, ren), rename_v(v.b, ren))
    return v


def leaf_renaming(terms):
    ren = {}
    for t in terms:
        for x in subterms(t):
            if x.op == "col" and x.args[0] == "input":
                ren[x] = mk("col", "earlier_input", *x.args[1:])
            elif x.op == "param":
                ren[x] = mk("param", "earlier_" + str(x.args[0]), *x.args[1:])
            elif x.op == "col" and x.args[0] == "ti":
                ren[x] = mk("col", "earlier_ti", *x.args[1:])
            elif x is N_IN or x is N_TI:
                ren[x] = mk("n", "earlier" + ("" if x is N_IN else "_ti"))
            elif x is IDX_IN or x is IDX_TI:
                ren[x] = mk("idx", "earlier" + ("" if x is IDX_IN else "_ti"))
    return ren


def module_terms(v, st, out, depth=0):
    if isinstance(v, T):
        out.append(v)
        return out
    elif isinstance(v, (SerV, NpV)):
        out.append(st.heap[v.arr].t)
    elif isinstance(v, FrmV):
        out.extend(st.heap[a].t for _, a in st.heap[v.oid].cols)
    elif isinstance(v, TupV):
        for x in v.items:
            module_terms(x, st, out, depth)
    elif isinstance(v, ChoiceV):
        out.append(v.c)
        module_terms(v.a, st, out, depth)
        module_terms(v.b, st, out, depth)
    elif isinstance(v, RefV) and depth < 4:
        r = st.heap.get(v.oid)
        if isinstance(r, ListRec):
            for x in r.items or ():
                module_terms(x, st, out, depth + 1)
            if r.t is not None:
                out.append(r.t)
        elif isinstance(r, DictRec):
            for k, x in r.items.items():
                key_terms(k, out)
                module_terms(x, st, out, depth + 1)
    return out


def key_terms(k, out):
    if k[0] == "t":
        out.append(k[1])
    elif k[0] == "tup":
        for x in k[1:]:
            key_terms(x, out)


def rename_key(k, ren):
    if k[0] == "t":
        t = subst(k[1], ren)
        return ("c", t.op, t.args) if t.op in CONST_OPS else ("t", t)
    if k[0] == "tup":
        return ("tup",) + tuple(rename_key(x, ren) for x in k[1:])
    return k


def carried(W, R, c, r, res, where):
    """does what a construction leaves behind reach a later one?"""
    base = r.I.base_heap
    ch = set(base_changes(r.I, base, r.st))
    dflt = [o for o, x in r.st.heap.items() if isinstance(x, (ListRec, DictRec)) and x.tag == "default" and o not in base]
    wrote = [e for e in r.events if e.kind in ("write_dict", "write_list") and e.info.get("tag") in ("default", "module")
             and e.guard is not FALSE]
    glob = [e for e in r.events if e.kind == "write_global" and e.guard is not FALSE]
    cached = [e for e in r.events if e.kind == "cached" and e.info.get("method")]
    if not ch and not wrote and not glob and not cached:
        R.count("constructions leaving nothing behind")
        return
    for e in wrote:
        if e.info["tag"] == "default":
            R.bad(e.file, e.line, e.fn if isinstance(e.fn, str) else c, "carried-state",
                  "a mutable parameter default is changed and kept for later calls", key="%s|%s" % (e.file, e.line))
    if not ch and not glob:
        return
    with later(W, r.st, ch, r.I.next_oid):
        r2 = W.fresh(c, keep=True)
    e = (glob + [x for x in wrote if x.info["tag"] == "module"] + [None])[0]
    at = (e.file, e.line, c) if e else where
    compare_runs(R, at, c, res, result_terms(r2), "what an earlier construction left in a module or class variable")


@contextlib.contextmanager
def later(W, st0, ch, next_oid):
    """a later use of the package, from the module and class variables an earlier use (state st0) left behind; what that
    use knew is renamed to `earlier_...`"""
    undo = W.tree.project.undo
    olds = []
    for o in ch:
        module_terms(RefV(o, "list"), st0, olds)
    touched = []
    for where, name, _ in undo:
        if (id(where), name) not in [(id(w), n) for w, n in touched]:
            touched.append((where, name))
    for where, name in touched:
        if name in where:
            module_terms(where[name], st0, olds)
    ren = leaf_renaming(olds)
    st = State({}, dict(st0.heap))
    base = W.tree.proto.base_heap
    for o, rec in list(st.heap.items()):
        own = o in ch or o not in base
        if isinstance(rec, ArrRec):
            st.heap[o] = ArrRec(rename(rec.t, ren), rename(rec.n, ren), rec.tag)
        elif own and isinstance(rec, ListRec):
            st.heap[o] = ListRec([rename_v(x, ren) for x in rec.items] if rec.items is not None else None,
                                 rename(rec.t, ren), rename(rec.n, ren), rec.tag, rec.meta)
        elif own and isinstance(rec, DictRec):
            st.heap[o] = DictRec({rename_key(k, ren): rename_v(v, ren) for k, v in rec.items.items()}, rec.tag, rec.open)
        elif own and isinstance(rec, InstRec):
            st.heap[o] = InstRec(rec.cls, {k: rename_v(v, ren) for k, v in rec.attrs.items()}, rec.tag, rec.sub, rec.gone)
    for where, name in touched:
        if name in where:
            where[name] = rename_v(where[name], ren)
    keep = W.tree.proto.base_heap, W.tree.proto.next_oid
    W.tree.proto.base_heap, W.tree.proto.next_oid = st.heap, next_oid + 10
    try:
        yield
    finally:
        W.tree.proto.base_heap, W.tree.proto.next_oid = keep
        W.tree.project.restore()


def carried_query(W, R, c, name, args=(), kw=None):
    """does what a query leaves behind in module or class variables reach the answer of another object?"""
    r = W.fresh(c)
    leaf_frames(r)
    q = run_method(r, name, list(args), kw, facts=sig_facts(r))
    ch = set(base_changes(r.I, r.I.base_heap, q.st))
    if not ch and not W.tree.project.undo:
        return
    res = answer_terms(q)
    with later(W, q.st, ch, r.I.next_oid):
        r2 = W.fresh(c, keep=True)
        leaf_frames(r2)
        q2 = run_method(r2, name, list(args), kw, facts=sig_facts(r2), keep=True)
        res2 = answer_terms(q2)
    e = next((e for e in q.events if e.guard is not FALSE and (
        e.kind == "write_global" or e.kind in ("write_dict", "write_list") and e.info.get("oid") in ch)), None)
    fn, owner = W.classes[c].find(name)
    at = (e.file, e.line, c) if e else (owner.module.path, fn.fn.lineno, c)
    compare_runs(R, at, "%s.%s" % (c, name), res, res2, "what an earlier query left in a module or class variable")


def sim_life(W, keep, meths):
    """one simulation object: construction, then the given methods one after the other; yields what each of them computes"""
    from . import simulation as S
    r = S.ctor_run(W, maximum=mk("param", "max_exposure", "numopt"), keep=keep)
    facts = [compare("ge", N_IN, ONE), compare("ge", S.ROW, ZERO), compare("lt", S.ROW, N_IN)]
    ev = list(r.I.events)
    out = [("refusal", e.pc) for e in r.ctx.exits if e.kind == "raise" and isinstance(e.pc, T)]
    q = r
    for m in meths:
        kw = {} if m == "closeSimulation" else {"i_index": S.ROW, "signal": TupV([const(m[0]), const(m[1])])}
        q = run_method(r, "closeSimulation" if m == "closeSimulation" else "runSimulationRound", [], kw, facts=facts, keep=True)
        out += answer_terms(q)
        ev += q.events
        r.st = q.st
    at = q.st.heap[r.inst.oid].attrs
    for k, v in sorted(at.items()):
        for i, t in enumerate(module_terms(v, q.st, [])):
            out.append(("%s %d" % (k, i), t))
    return r, q.st, out, ev


def carried_simulation(W, R):
    """does what an earlier simulation leaves behind reach a later one?"""
    from . import simulation as S
    steps = [[]] + [[x] for x in S.SIGNALS] + [["closeSimulation"]]
    r, st, _, ev = sim_life(W, False, list(S.SIGNALS) + ["closeSimulation"])
    if not base_changes(r.I, r.I.base_heap, st) and not W.tree.project.undo:
        R.count("simulations leaving nothing behind")
        return
    for s in steps:
        _, _, first, _ = sim_life(W, False, s)
        r, st, _, ev = sim_life(W, False, list(S.SIGNALS) + ["closeSimulation"])
        ch = set(base_changes(r.I, r.I.base_heap, st))
        with later(W, st, ch, r.I.next_oid):
            _, _, second, _ = sim_life(W, True, s)
        e = next((e for e in ev if e.guard is not FALSE and (
            e.kind == "write_global" or e.kind in ("write_dict", "write_list") and e.info.get("oid") in ch)), None)
        at = (e.file, e.line, S.CLS) if e else (r.info.module.path, r.info.node.lineno, S.CLS)
        compare_runs(R, at, S.CLS, first, second, "what an earlier simulation left in a module or class variable")


def answer_terms(q):
    res = [("the answer", q.I.sig(q.value, q.st))] if not q.st.dead else []
    for i, e in enumerate(e for e in q.ctx.exits if e.kind == "raise" and isinstance(e.pc, T)):
        res.append(("failure %d" % i, e.pc))
    return res


def compare_runs(R, where, c, a, b, what):
    da, db = dict(a), dict(b)
    for k, t in db.items():
        R.count("second-run expressions compared")
        if k in da and da[k] is t:
            continue
        if any(x.op in ("col", "param", "n", "idx") and str(x.args[0]).startswith("earlier") for x in subterms(t)):
            R.bad(where[0], where[1], c, "carried-state", "%s depends on %s" % (k, what), key="%s|%s" % where[:2])
            return
        if k in da and not t.opq and not da[k].opq:
            R.bad(where[0], where[1], c, "carried-state", "%s differs with %s" % (k, what), key="%s|%s" % where[:2])
            return
        R.skip(c, "%s differs in form with %s" % (k, what))


def simulations(W, R):
    from . import simulation as S
    for c in W.names():
        with R.unit(c):
            fn, owner = W.classes[c].find("getTiSimulation")
            if owner is not W.base and isinstance(fn, FnV):
                pass
            elif c != W.names()[0]:
                continue
            r = W.fresh(c)
            leaf_frames(r)
            sig, sowner = r.info.find("getTiSignal")
            hooks = {sowner.name + ".getTiSignal": lambda I, f, a, k, s, cx, n: mk("opq", "signal")}
            sg, so = r.info.find("_getSimulationGraph")
            if isinstance(sg, FnV):
                hooks[so.name + "._getSimulationGraph"] = lambda I, f, a, k, s, cx, n: mk("opq", "graph")
            q = run_method(r, "getTiSimulation", [], {"close_values": caller_frame(r.I, r.st),
                                                      "max_exposure": mk("param", "max_exposure", "any"),
                                                      "short_exposure_factor": mk("param", "short_exposure_factor", "any")},
                           facts=sig_facts(r), hooks=hooks)
            res = [("the simulation", q.I.sig(q.value, q.st))]
            res += [("simulation path", e.pc) for e in q.ctx.exits if isinstance(e.pc, T)]
            for o, x in q.st.heap.items():
                if isinstance(x, ArrRec):
                    res.append(("simulation data", x.t))
            yield c, q, res, (owner.module.path, fn.fn.lineno, c)
    info = S.sim_info(W)
    for name, k in S.SIGNALS:
        for meth in ("runSimulationRound", "closeSimulation"):
            if meth == "closeSimulation" and name != "hold":
                continue
            r = S.ctor_run(W, maximum=mk("param", "max_exposure", "numopt"))
            ev = list(r.I.events)
            kw = {}
            if meth == "runSimulationRound":
                kw = {"i_index": S.ROW, "signal": TupV([const(name), const(k)])}
            facts = [compare("ge", N_IN, ONE), compare("ge", S.ROW, ZERO), compare("lt", S.ROW, N_IN)]
            q = run_method(r, meth, [], kw, facts=facts)
            q.events = ev + q.events
            res = [("the result", q.I.sig(q.value, q.st))] + [("path", e.pc) for e in q.ctx.exits if isinstance(e.pc, T)]
            res += [("simulation data", x.t) for o, x in q.st.heap.items() if isinstance(x, ArrRec)]
            for k_, v in q.st.heap[r.inst.oid].attrs.items():
                res += [(k_, t) for t in module_terms(v, q.st, [])]
            fn, owner = info.find(meth)
            yield "%s.%s" % (S.CLS, meth), q, res, (owner.module.path, fn.fn.lineno, S.CLS)
