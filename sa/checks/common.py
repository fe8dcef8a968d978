"""Shared plumbing of the checks: analysed tree, findings, evidence."""
import contextlib
import sys
import time
import traceback
sys.setrecursionlimit(20000)
from .. import drive, specs, decide, lin, interp
from ..terms import *
from ..values import *
from ..drive import N_IN, N_TI, IDX_IN, IDX_TI, typed_params, run_ctor, run_method, leaf_frames, init_params


class Violation:
    def __init__(self, file, line, fn, rule, what, key=None):
        self.file, self.line, self.fn, self.rule, self.what = file, line, fn, rule, what
        self.key = key or "%s|%s|%s" % (file, fn, rule)

    def text(self):
        return "%s:%s %s: [%s] %s" % (self.file, self.line, self.fn, self.rule, self.what)


class Result:
    """Collected outcome of one check run."""

    def __init__(self, pid, thorough):
        self.pid, self.thorough = pid, thorough
        self.violations = []
        self.undecided = []         # constructs the rule could not decide (quiet)
        self.counts = {}
        self.samples = []           # a few analysed constructs, for the evidence
        self.rules = []
        self.units = self.failed = 0
        self.assumptions = []
        self.t0 = time.time()

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def bad(self, file, line, fn, rule, what, key=None):
        v = Violation(file, line, fn, rule, what, key)
        if all(v.text() != w.text() and (key is None or key != w.key) for w in self.violations):
            self.violations.append(v)

    def skip(self, where, why):
        self.undecided.append("%s: %s" % (where, why))

    @contextlib.contextmanager
    def unit(self, where):
        """One unit of analysis; an operation the analysis cannot represent leaves the unit undecided, not the check."""
        self.units += 1
        try:
            yield
        except (interp.AnalysisLimit, RecursionError) + interp.INTERNAL as e:
            if interp.STRICT:
                raise
            self.failed += 1
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.skip(where, "analysis stopped: %s: %s (%s:%s)" % (type(e).__name__, str(e)[:80], tb.filename.split("/")[-1], tb.lineno))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


class Broken(Exception):
    """The analysis cannot find what it has to analyse (exit 2)."""


class World:
    """Lazily analysed package: constructor and signal runs of every indicator, cached."""

    def __init__(self, root="/repo"):
        self.root = root
        self._ctor = {}
        self.reload()

    def reload(self):
        root = self.root
        self.tree = drive.Tree(root)
        I = self.tree.interp()
        base, self.classes = self.tree.indicator_classes(I)
        self.base = base
        if base is None or len(self.classes) < 40:
            raise Broken("only %d indicator classes found below TechnicalIndicator" % len(self.classes))

    def names(self):
        return sorted(self.classes)

    def facts(self, ps, domain=True):
        f = [compare("ge", N_IN, ONE)]
        return f

    def ctor(self, cls, variant=None):
        """Constructor run in calculation mode; parameters are leaves of their documented kind."""
        key = (cls, tuple(sorted((variant or {}).items())))
        r = self._ctor.get(key)
        if r is None:
            r = self._ctor[key] = self.fresh(cls, variant)
        return r

    def fresh(self, cls, variant=None, keep=False):
        """An uncached constructor run (its heap may be modified)."""
        I = self.tree.interp()
        vals = {k: const(v) if not isinstance(v, T) else v for k, v in (variant or {}).items()}
        ps, _ = typed_params(I, self.classes[cls], vals)
        facts = [compare("ge", N_IN, ONE)]
        r = run_ctor(self.tree, cls, ps, facts, keep=keep)
        r.cls, r.params = cls, ps
        r.accept = facts + accepted(r)
        r.facts = r.accept + calc_facts(r)
        r.valid = valid_facts(r)
        return r

    def signal(self, cls, variant=None):
        """Signal run on leaf frames; cached on the ctor run."""
        return self.signal_of(self.ctor(cls, variant))

    def signal_of(self, r):
        q = getattr(r, "sig", None)
        if q is None:
            leaf_frames(r)
            facts = r.sigfacts = sig_facts(r)
            q = r.sig = run_method(r, "getTiSignal", facts=facts)
        return r, q


PARAM_EXC = ("WrongTypeForInputParameter", "WrongValueForInputParameter")


def conj(t):
    return list(t.args) if t.op == "and" else [t]


def accepted(r):
    """Facts about accepted parameters: negation of the refusing paths (int-linear single atoms)."""
    gs = []
    for e in r.ctx.exits:
        if e.kind != "raise" or not isinstance(e.value, ExcV):
            continue
        g = e.pc
        if any(x.op == "n" for x in subterms(g)):
            continue
        if e.value.cls in PARAM_EXC or not any(x.op in ("n", "cell", "col") for x in subterms(g)):
            gs.append(g)
    return negated(gs, [compare("ge", N_IN, ONE)])


def valid_facts(r):
    """the parameters pass every check of the constructor (conditions of any form, for choosing parameter values)"""
    return [not_(e.pc) for e in r.ctx.exits if e.kind == "raise" and isinstance(e.pc, T) and not e.pc.opq
            and all(x.op not in ("n", "cell", "col", "idx", "raises") for x in subterms(e.pc))]


def negated(gs, known):
    """Unit consequences of "none of the guards gs holds": literals implied by known ones are dropped."""
    out = []
    changed = True
    while changed:
        changed = False
        for g in gs:
            have = set(x.id for k in known + out for x in lin_conj(k))
            left = [c for c in conj(g) if c.id not in have]
            if len(left) == 1:
                for x in lin_conj(not_(left[0])):
                    if x.id not in have:
                        out.append(x)
                        changed = True
    return out


def lin_conj(t):
    """linear integer conjuncts of a boolean term"""
    out = []
    for c in conj(t):
        b = c.args[0] if c.op == "not" else c
        if b.op in CMP_OPS and b.args[0].intk:
            out.append(c)
    return out


def calc_facts(r):
    """Facts true of a successfully calculated full history."""
    gs = [e.pc for e in r.ctx.exits
          if e.kind == "raise" and isinstance(e.value, ExcV) and e.value.cls == "NotEnoughInputData"]
    return negated(gs, list(r.accept))


def sig_facts(r):
    """Entry facts of a signal request: a history of 1..N rows (simulation cuts included)."""
    out = [f for f in r.accept if not any(x.op == "n" for x in subterms(f))]
    out.append(compare("ge", N_IN, ONE))
    if not getattr(r, "same_axis", True):
        out.append(compare("ge", N_TI, ZERO))
        out.append(compare("ge", N_IN, N_TI))
    return out


def value_tree(v):
    """Outcome tree of an analysed value with TupV leaves."""
    return v


def leaf_pairs(v, out=None, guard=TRUE):
    """(guard, leaf) pairs of a guarded value"""
    if out is None:
        out = []
    if isinstance(v, ChoiceV):
        leaf_pairs(v.a, out, and_(guard, v.c))
        leaf_pairs(v.b, out, and_(guard, not_(v.c)))
    elif isinstance(v, T) and v.op == "ite" and not v.series:
        leaf_pairs(v.args[1], out, and_(guard, v.args[0]))
        leaf_pairs(v.args[2], out, and_(guard, not_(v.args[0])))
    else:
        out.append((guard, v))
    return out


def pair_of(v):
    """('buy', -1) from an abstract tuple, else None"""
    if isinstance(v, TupV) and len(v.items) == 2 and all(isinstance(x, T) and is_const(x) for x in v.items):
        return tuple(pyval(x) for x in v.items)
    return None


PAIRS = (("buy", -1), ("hold", 0), ("sell", 1))


def sat(guard, facts, limit=400):
    """Can guard hold (linear integer + interval + missing-value domain)?  True / False / None (undecided)."""
    n = [0]

    def rec(A):
        n[0] += 1
        if n[0] > limit:
            return None
        v = A.ev(guard)
        if v is False:
            return False
        if v is True:
            if not A.consistent():
                return False
            return True if all(decide.safe_term(a) for a, _ in A.order) else None
        atom = A.pick(guard)
        res = False
        for val in (True, False):
            B = A.copy()
            B.set(atom, val)
            if atom.op in CMP_OPS and atom.args[0].intk and lin.empty_lits(B.int_lits()):
                continue
            x = rec(B)
            if x is True:
                return True
            if x is None:
                res = None
        return res

    return rec(decide.Atoms(facts))


def plain(I, g):
    """g with loop-carried integers as integer leaves and scalar max / min split into cases"""
    ren = {}
    for x in subterms(g):
        if x.op == "mu" and x.args[0] in I.loopinfo:
            lo, hi, step, rng, inits, bodies, mus = I.loopinfo[x.args[0]]
            if int_carried(inits.get(x.args[1]), bodies.get(x.args[1]), x):
                ren[x] = mk("lv", "%s.%s" % x.args)
    if ren:
        g = subst(g, ren)
    for _ in range(6):
        m = next((x for x in subterms(g) if x.op in ("max", "min") and not x.series and x.intk and len(x.args) == 2
                  and all(not y.series for y in x.args)), None)
        if m is None:
            m = next((x for x in subterms(g) if x.op == "ite" and not x.series and x.args[1].intk and x.args[2].intk
                      and not x.args[1].boolk), None)
            if m is None:
                return g
            g = or_(and_(m.args[0], subst(g, {m: m.args[1]})), and_(not_(m.args[0]), subst(g, {m: m.args[2]})))
            continue
        a, b = m.args
        c = compare("ge" if m.op == "max" else "le", a, b)
        g = or_(and_(c, subst(g, {m: a})), and_(not_(c), subst(g, {m: b})))
    return g


def int_carried(i0, body, mu):
    if not isinstance(i0, T) or not i0.intk or not isinstance(body, T):
        return False
    seen, todo = set(), [body]
    while todo:                               # every value the slot can take is an integer expression
        t = todo.pop()
        if t is mu or t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "ite":
            todo += [t.args[1], t.args[2]]
        elif not subst(t, {mu: ZERO}).intk:
            return False
    return True


def loop_facts(I, g, facts):
    """Ranges of the loop counters occurring in g and inductive bounds of loop-carried integers."""
    out = list(I.lv_facts([g]))
    todo = sorted({x.args[0] for x in subterms(g) if x.op in ("mu", "muS", "lv") and x.args[0] in I.loopinfo}, key=str)
    for uid in todo:
        inv = I.__dict__.setdefault("_inv", {}).get(uid)
        if inv is None:
            inv = I._inv[uid] = invariants(I, uid, facts)
        have = facts + out + lin_conj(g)
        out += [c for when, c in inv if when is TRUE or lin.empty_lits(have + [not_(when)])]
    ren = {x: mk("lv", "%s.%s" % x.args) for f in out for x in subterms(f) if x.op == "mu"}
    return [subst(f, ren) for f in out] if ren else out


def leaves_of(t, out=None):
    out = [] if out is None else out
    if t.op == "ite" and not t.series:
        leaves_of(t.args[1], out)
        leaves_of(t.args[2], out)
    elif not any(t is x for x in out):
        out.append(t)
    return out


def invariants(I, uid, facts):
    """(when, bound) pairs that hold at every iteration, by induction (linear-integer domain)"""
    lo, hi, step, rng, inits, bodies, mus = I.loopinfo[uid]
    lv = mk("lv", uid)
    cands, ren = [], {}
    for j, m in mus.items():
        if m.op != "mu" or not int_carried(inits.get(j), bodies.get(j), m):
            continue
        v = ren[m] = mk("lv", "%s.%s" % m.args)
        later = compare("gt", lv, lo)
        for w, c in ((TRUE, compare("ge", v, ZERO)), (TRUE, compare("le", v, lv)), (TRUE, compare("ge", v, inits[j])),
                     (later, compare("lt", v, lv)), (TRUE, compare("le", v, hi)), (TRUE, compare("lt", v, hi))):
            if not any(c is x and w is y for y, x in cands):
                cands.append((w, c))
    if not ren:
        return []
    base = list(facts) + list(I.lv_facts([lv])) + lin_conj(rng)
    # a zero-trip loop needs nothing
    at0 = dict([(v, inits[m.args[1]]) for m, v in ren.items()] + [(lv, lo)])
    enter = list(facts) + [compare("lt", lo, hi)]

    def empty(fs, g):
        return lin.empty_lits(fs + lin_conj(g)) if g is not FALSE else True

    keep = [(w, c) for w, c in cands if empty(enter, and_(subst(w, at0), not_(subst(c, at0))))]
    import itertools
    steps = [[(v, subst(l, ren)) for l in leaves_of(bodies[m.args[1]])] for m, v in ren.items()]
    for _ in range(8):
        fs = base + [c for w, c in keep if w is TRUE]

        def stays(w, c):
            for combo in itertools.islice(itertools.product(*steps), 64):
                nx = dict(list(combo) + [(lv, add(lv, step))])
                if not empty(fs, and_(subst(w, nx), not_(subst(c, nx)))):
                    return False
            return True
        new = [(w, c) for w, c in keep if stays(w, c)]
        if len(new) == len(keep):
            break
        keep = new
    return keep


def show_world(A):
    return A.show()[:400]
