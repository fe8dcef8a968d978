"""C03 / C04 / C05: what the trading signals return, when they fail, which rule they follow."""
from .common import *
from .invariants import relations, excluded, repairer
from .. import numbering, fingerprint as fp


def c03(W, R):
    R.rules.append("Return-value enumeration: every value reachable at a return of getTiSignal (through helpers, "
                   "super calls and nested indicators) is one of the three constant pairs; falling off the end is "
                   "the value None.")
    for c in W.names():
        with R.unit(c):
            r, q = W.signal(c)
            info = r.info
            f, owner = info.find("getTiSignal")
            file, line = owner.module.path, f.fn.lineno
            R.count("signal methods")
            n = 0
            for g, leaf in leaf_pairs(q.value):
                p = pair_of(leaf)
                n += 1
                R.count("return paths")
                if p in PAIRS:
                    continue
                s = sat(g, r.sigfacts)
                if s is False:
                    continue
                if isinstance(leaf, T) and leaf.opq or s is None:
                    R.skip(c, "value %s under %s not decided" % (leaf, show(g)[:120]))
                    continue
                if p is None and not (isinstance(leaf, T) and is_const(leaf)) and not isinstance(leaf, TupV):
                    R.skip(c, "value %r not constant" % (leaf,))
                    continue
                if isinstance(leaf, TupV) and p is None and any(not is_const(x) for x in leaf.items if isinstance(x, T)):
                    R.skip(c, "pair %r not constant" % (leaf,))
                    continue
                R.bad(file, line, c + ".getTiSignal", "three-pairs",
                      "can return %s when %s" % (p if p is not None else showv(leaf), show(g)[:300]))
            R.sample("%s: %d return paths" % (c, n))


def showv(v):
    if isinstance(v, TupV):
        return "(" + ", ".join(showv(x) for x in v.items) + ")"
    return show(v) if isinstance(v, T) else repr(v)


def exit_where(e):
    return e.file, getattr(e.node, "lineno", 0)


def c04(W, R):
    R.rules.append("Exception-reachability: every raise and every out-of-range row access / empty reduction in the "
                   "call graph of getTiSignal that is not caught has an unsatisfiable guard for a history (or "
                   "simulation cut) of 1..N rows.")
    for c in W.names():
        with R.unit(c):
            r, q = W.signal(c)
            R.count("signal methods")
            if not {"_input_data", "_ti_data"} <= set(r.st.heap[r.inst.oid].attrs):
                R.skip(c, "the constructor is not modelled to its end")
                continue
            for e in q.ctx.exits:
                if e.kind != "raise" or e.pc is FALSE:
                    continue
                R.count("raise obligations")
                s = sat(e.pc, r.sigfacts)
                if s is True and not e.pc.opq:
                    fl, ln = exit_where(e)
                    nm = e.value.cls if isinstance(e.value, ExcV) else "exception"
                    R.bad(fl, ln, c + ".getTiSignal", "signal-never-fails",
                          "%s can be raised when %s" % (nm, show(e.pc)[:300]))
                elif s is None:
                    R.skip(c, "raise at line %s not decided" % exit_where(e)[1])
            access_obligations(R, c, c + ".getTiSignal", q.events, r.sigfacts, "signal-never-fails", I=q.I)
            number_obligations(W, R, c, q.events)


def number_obligations(W, R, c, events):
    """Conversions that fail on a missing or infinite number: is there a history that leads one there?"""
    es = [e for e in events if e.kind == "needs_number" and not e.info.get("caught") and e.guard is not FALSE
          and not is_const(e.info["arg"])]
    if not es:
        return
    from .formula import ti_series, name_of, STRS
    r = W.fresh(c)
    ts = ti_series(r)
    R.count("number obligations", len(es))
    if not ts or any(t.opq for _, t in ts):
        R.skip(c, "conversion of a value to a whole number: calculated values not modelled")
        return
    seen = set()
    for v in fp.valuations([t for _, t in ts] + [e.info["arg"] for e in es], r.facts + r.valid, count=200, strs=STRS, seed=4, scale=True):
        E = fp.Eval(v)
        n = v.ns["in"]
        try:
            full = {name_of(nm): [cell_at(E, t, i) for i in range(E.length(t) if E.length(t) is not None else n)] for nm, t in ts}
        except (fp.Unev, fp.Undef, TypeError):
            continue
        for k in sorted({n, max(1, n // 2), max(1, n - 1)}):
            cols = {key: xs[:k] for key, xs in v.cols.items() if key[0] != "ti"}
            cols.update({("ti", nm): xs[:k] for nm, xs in full.items()})
            cut = fp.Val({"in": k, "ti": max([len(xs[:k]) for xs in full.values()] or [k])}, cols, v.params)
            for e in es:
                if (e.file, e.line) in seen:
                    continue
                C = fp.Eval(cut)
                try:
                    if not C.truth(e.guard):
                        continue
                    x = C.num(e.info["arg"])
                except (fp.Unev, fp.Undef):
                    continue
                w = e.info["what"]
                if x != x and w not in ("math.log", "math.sqrt") or x in (fp.INF, -fp.INF) and w not in ("math.log", "math.sqrt") \
                        or w == "math.sqrt" and x < -1e-9 or w == "math.log" and x <= 0:
                    seen.add((e.file, e.line))
                    R.bad(e.file, e.line, c + ".getTiSignal", "signal-never-fails", "%s of %s fails: it is %s on e.g. a history of "
                          "%d rows" % (w, show(e.info["arg"])[:120], "missing" if x != x else "%g" % x, k))


def cell_at(E, t, i):
    try:
        x = E.at(t, i if t.series else None)
        return fp.NANF if x is None else x
    except fp.Undef:
        return fp.NANF


ACCESS = {"row_access": "IndexError", "empty_agg": "ValueError", "bad_window": "ValueError", "unbound": "NameError"}


def access_obligations(R, c, fn, events, facts, rule, extra=TRUE, *, I):
    """Row lookups and reductions that may fail: the failing condition must be impossible under the guard."""
    for e in events:
        if e.kind not in ACCESS:
            continue
        R.count("access obligations")
        cond = e.info.get("cond", FALSE)
        if cond is FALSE or e.info.get("caught"):
            continue
        g = and_(e.guard, cond, extra)
        if g is FALSE:
            continue
        s = sat(plain(I, g), facts + loop_facts(I, g, facts))
        if s is True and not g.opq:
            if e.kind == "unbound":
                R.bad(e.file, e.line, fn, rule, "NameError: %s when %s" % (e.info["what"], show(g)[:300]))
                continue
            R.bad(e.file, e.line, fn, rule, "%s: row %s of %s (%s) when %s"
                  % (ACCESS[e.kind], show(e.info["row"]) if isinstance(e.info.get("row"), T) else "-",
                     show(e.info["n"]) if isinstance(e.info.get("n"), T) else "-", e.info.get("what"), show(g)[:300]))
        elif s is not False:
            R.skip(c, "lookup at line %s not decided: %s" % (e.line, show(g)[:160]))


def c05(W, R):
    R.rules.append("Decision-diagram equivalence: the guarded outcome tree of getTiSignal (helpers, loops and nested "
                   "indicators inlined, comparisons normalised over the rows they read) equals the reference rule in "
                   "spec/signals.py on every path, in the linear / interval / missing-value domain.")
    m = specs.load(W.tree, "signals")
    for c in W.names():
        with R.unit(c):
            f = m.env.get(c)
            r, q = W.signal(c)
            if f is None:
                R.skip(c, "no reference rule (indicator added after the rules were written)")
                continue
            I, st = q.I, r.st.copy()
            st.rel = st.pc0 = st.entry = TRUE
            inp = I.frame(st, [(x, mk("col", "input", x)) for x in required(r)], IDX_IN, N_IN, order="known", tag=None)
            same = getattr(r, "same_axis", True)
            tcols = [(x if isinstance(x, (str, int)) else x, mk("col", "ti", x if isinstance(x, (str, int)) else show(x)))
                     for x, _ in (r.ti_cols or [])]
            ti = I.frame(st, tcols, IDX_IN if same else IDX_TI, N_IN if same else N_TI, order="known", tag=None)
            I.facts_extra = tuple(r.sigfacts)
            kw = {p: r.params[p] for p in specs.fn_params(f)[2:] if p in r.params}
            v, ctx = specs.call(I, m, f, [inp, ti], kw, st)
            ta = decide.tree_of(q.value, q.ctx.exits)
            tb = decide.tree_of(v, [])
            R.count("signal methods")
            fn, owner = r.info.find("getTiSignal")
            if I.unknown:
                R.skip(c, "constructs not modelled: %s" % (sorted(set(str(u) for u in I.unknown))[:3],))
            diffs, und, n = decide.compare_trees(ta, tb, same_outcome, r.sigfacts)
            R.count("joint paths compared", n)
            if not diffs and not und:
                R.sample("%s: %d joint paths agree with the reference rule" % (c, n))
                continue
            where = (owner.module.path, fn.fn.lineno, c + ".getTiSignal")
            rel = relations(W, c)
            if rel:
                diffs, und, n = decide.compare_trees(ta, tb, same_outcome, r.sigfacts, extra=lambda A: excluded(A, rel))
                if not diffs and not und:
                    R.skip(c, "agrees with the rule where the relations between its columns hold (%d of them, seen on "
                           "every interpretation)" % len(rel))
                    continue
            exact = [d for d in diffs if not d.odd]
            for d in exact:
                R.bad(*where, "documented-rule", "gives %s where the rule gives %s: when %s"
                      % (show_outcome(d.a), show_outcome(d.b), show_world(d.A)))
            if exact:
                continue
            # the two functions compare different quantities: separate them by value numbering
            try:
                first, sep, cmpd = None, 0, 0
                for seed in range(11, 31 if R.thorough else 17):
                    a, s, k = numbering.separate(ta, tb, same_outcome, r.sigfacts + r.valid, 1200, seed=seed, fix=repairer(rel),
                                                 aim=[d.A.order for d in (diffs + und)[:3]],
                                                 n_ti=None if same else n_ti_of(r))
                    first, sep, cmpd = first or a, sep + s, cmpd + k
                    if sep >= 2:
                        break
            except fp.Unev as e:
                R.skip(c, "path not decided and not interpretable (%s)" % e)
                continue
            if sep >= 2:
                v, a, b = first
                d = (diffs + und)[0]
                R.bad(*where, "documented-rule", "gives %s where the rule gives %s (compares other quantities than the rule: "
                      "%s)" % (show_outcome(a), show_outcome(b), show_world(d.A)))
            else:
                R.skip(c, "normal forms differ; not separated by %d interpretations" % cmpd)


def n_ti_of(r):
    """row count of the calculated frame as a function of the input's (documented tail cut)"""
    t = r.ti_n

    def f(n, ps):
        try:
            return max(0, int(fp.Eval(fp.Val({"in": n}, {}, ps)).num(t)))
        except (fp.Unev, fp.Undef):
            return max(0, n - 1)

    return f


def required(r):
    """columns the registry / validation declares for this indicator"""
    for v in r.validates:
        return v["required"]
    return []


def same_outcome(a, b, A):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return None           # exceptions are C04's business
    pa, pb = pair_of(a), pair_of(b)
    if pa is None:
        return None
    return pa == pb


def show_outcome(x):
    p = pair_of(x)
    return str(p) if p else str(x)
