"""C08: a history that is too short is refused exactly below the documented minimum."""
from .common import *
from .signals import access_obligations
from .formula import variants


def minimum_term(W, r, c):
    """documented minimum as a term over the parameter leaves; None when undocumented"""
    m = specs.load(W.tree, "minimum")
    f = m.env.get(c)
    if f is None:
        none = [pyval(x) for x in r.I.concrete_items(m.env["NO_MINIMUM"], r.st)]
        return ZERO if c in none else None
    st = r.st.copy()
    st.rel = st.pc0 = st.entry = TRUE
    kw = {p: r.params[p] for p in specs.fn_params(f) if p in r.params}
    if len(kw) != len(specs.fn_params(f)):
        return None
    v, ctx = specs.call(r.I, m, f, [], kw, st)
    return v if isinstance(v, T) else None


def decide_false(R, c, g, facts, what, report):
    """g must be impossible; report when satisfiable"""
    R.count("obligations")
    if g is FALSE:
        return True
    s = sat(g, facts)
    if s is True and not g.opq:
        report(g)
        return False
    if s is not False:
        R.skip(c, "%s not decided: %s" % (what, show(g)[:160]))
    return True


def c08(W, R):
    R.rules.append("Minimum-history equivalence: the disjunction of the guards of all not-enough-data exits of the "
                   "constructor is equivalent to 'rows < documented minimum' in the linear-integer domain over row count and "
                   "parameters; the exits quote that minimum and the row count.")
    R.rules.append("Row-lookup obligations: every row access / empty reduction in the constructor's call graph is in range "
                   "for every accepted parameter and every history that passes the guard.")
    for c, va in [(c, va) for c in W.names() for va in variants(c)]:
        with R.unit(c):
            r = W.ctor(c, va)
            acc = and_(*[not_(e.pc) for e in r.ctx.exits if e.kind == "raise" and isinstance(e.value, ExcV)
                         and e.value.cls in PARAM_EXC])
            fn, owner = r.info.find("_calculateTi")
            where = (owner.module.path, fn.fn.lineno, c + "._calculateTi")
            R.count("constructors")
            want = minimum_term(W, r, c)
            if want is None:
                R.skip(c, "no documented minimum")
                continue
            short = compare("lt", N_IN, want)
            ne = [e for e in r.ctx.exits if e.kind == "raise" and isinstance(e.value, ExcV)
                  and e.value.cls == "NotEnoughInputData" and e.pc is not FALSE]
            for e in ne:
                f, l = e.file, getattr(e.node, "lineno", 0)
                R.count("not-enough-data exits")

                def rep(g, f=f, l=l):
                    R.bad(f, l, where[2], "refused-below-minimum", "refuses a history of at least the documented minimum %s: when "
                          "%s" % (show(want), show(g)[:300]), key="%s|%s|refuses" % (where[0], where[2]))
                ok = decide_false(R, c, and_(acc, e.pc, not_(short)), r.accept, "refusal at line %s" % l, rep)
                a = e.value.args
                if not ok:
                    continue
                for arg, t, what in (("required_data_num", want, "the minimum"), ("input_data_num", N_IN, "the number of rows")):
                    v = a.get(arg)
                    if not isinstance(v, T) or v.opq or v.op in ("str", "none"):
                        R.skip(c, "%s at line %s not modelled" % (arg, l))
                        continue

                    def rep2(g, v=v, t=t, what=what, f=f, l=l):
                        R.bad(f, l, where[2], "error-quotes-minimum", "the error quotes %s as %s, it is %s" %
                              (show(v), what, show(t)))
                    decide_false(R, c, and_(acc, e.pc, not_(compare("eq", v, t))), r.accept, "quoted number at line %s" % l, rep2)
            if want is not ZERO:
                def rep3(g):
                    R.bad(where[0], where[1], where[2], "refused-below-minimum", "accepts a history below the documented minimum %s: "
                          "when %s" % (show(want), show(g)[:300]), key="%s|%s|accepts" % (where[0], where[2]))
                decide_false(R, c, and_(acc, short, *[not_(e.pc) for e in ne]), r.accept, "short history", rep3)
            R.sample("%s: rows < %s" % (c, show(want)))
            for e in r.ctx.exits:
                if e.kind != "raise" or e.pc is FALSE or not isinstance(e.value, ExcV):
                    continue
                if e.value.cls in PARAM_EXC or e.value.cls == "NotEnoughInputData":
                    continue
                f, l = e.file, getattr(e.node, "lineno", 0)

                def rep4(g, e=e, f=f, l=l):
                    R.bad(f, l, where[2], "calculated-at-minimum", "%s for a history that is long enough: when %s" %
                          (e.value.cls, show(g)[:300]))
                decide_false(R, c, and_(acc, e.pc), r.accept, "raise at line %s" % l, rep4)
            access_obligations(R, c, where[2], r.I.events, r.accept, "row-in-range", extra=acc, I=r.I)
