"""Deciding whether two guarded-outcome trees agree.

A tree is a guarded selection of outcomes (decision diagram) extracted from
source.  `compare_trees` walks both diagrams in parallel, splitting on their
guard atoms, and reports a path on which the outcomes differ and whose guard
is consistent in the linear / interval / missing-value domain.  Paths that
depend on constructs the analysis does not model are reported as undecided.
"""
from fractions import Fraction as F
from .terms import *
from .values import *
from . import lin

BUDGET = 6000

# operators whose canonical form is unique enough that two different nodes denote different functions
SAFE = {"const", "str", "bool", "none", "nan", "n", "param", "cell", "col", "subcol", "poly", "roll", "ewm", "shift",
        "slice", "aggr", "round", "abs", "sqrt", "max", "min", "lt", "le", "gt", "ge", "eq", "seq_eq", "isnan",
        "row", "and", "or", "not", "ite", "floor", "typ", "isinst", "isnone", "cum", "count", "filter", "label",
        "log", "exp", "pow", "rowagg", "strcat"}


def subject(t):
    """(what is compared, the text it is compared with)"""
    a, b = t.args
    if is_const(a):
        a, b = b, a
    return a, b if is_const(b) else None


class Atoms:
    """Assignment of truth values to atoms with consistency checks."""

    def __init__(self, facts=(), extra=None, domain=None):
        self.asg = {}
        self.order = []
        self.facts = list(facts)
        self.extra = extra          # extra(lits) -> True when inconsistent
        self.domain = domain

    def copy(self):
        a = Atoms(self.facts, self.extra, self.domain)
        a.asg = dict(self.asg)
        a.order = list(self.order)
        return a

    def set(self, atom, val):
        self.asg[atom.id] = val
        self.order.append((atom, val))

    def ev(self, t):
        """TRUE / FALSE / None (undetermined)."""
        if t is TRUE or t is FALSE:
            return t is TRUE
        v = self.asg.get(t.id)
        if v is not None:
            return v
        op = t.op
        if op == "not":
            r = self.ev(t.args[0])
            return None if r is None else not r
        if op == "and":
            out = True
            for a in t.args:
                r = self.ev(a)
                if r is False:
                    return False
                if r is None:
                    out = None
            return out
        if op == "or":
            out = False
            for a in t.args:
                r = self.ev(a)
                if r is True:
                    return True
                if r is None:
                    out = None
            return out
        if op == "ite":
            r = self.ev(t.args[0])
            if r is None:
                a, b = self.ev(t.args[1]), self.ev(t.args[2])
                return a if a is not None and a == b else None
            return self.ev(t.args[1] if r else t.args[2])
        if op == "truthy":
            return None
        return self.implied(t)

    def pick(self, t):
        """an undetermined atom of t"""
        op = t.op
        if op in ("and", "or", "not") or (op == "ite" and is_boolish(t)):
            for a in t.args:
                if self.ev(a) is None:
                    r = self.pick(a)
                    if r is not None:
                        return r
            return None
        return t

    def implied(self, t):
        """single-polynomial interval reasoning (cheap)"""
        if t.op == "seq_eq":
            x, c = subject(t)
            for a, v in self.order:
                if v and a.op == "seq_eq" and c is not None:
                    y, d = subject(a)
                    if y is x and d is not None and d is not c:
                        return False
        if t.op not in CMP_OPS:
            if self.domain is not None:
                return self.domain(self, t)
            return None
        L, c = t.args
        pos = []
        neg = []
        for a, v in self.order:
            if a.op in CMP_OPS and a.args[0] is L:
                (pos if v else neg).append(a)
        for f in self.facts:
            if f.op in CMP_OPS and f.args[0] is L:
                pos.append(f)
            elif f.op == "not" and f.args[0].op in CMP_OPS and f.args[0].args[0] is L and L.intk:
                neg.append(f.args[0])
        if not pos and not neg:
            if L.intk and self.facts:
                return self.lin_implied(t)
            return None
        iv = interval(pos + ([mk("not", a) for a in neg] if (pos or L.intk) else []))
        if iv is None:
            return False
        r = iv_test(iv, t)
        if r is None and not pos and not L.intk:
            # only false comparisons so far: t true would need a real value outside all of them
            iv2 = interval([mk("not", a) for a in neg])
            if iv2 is not None and iv_test(iv2, t) is False:
                return False
            if iv2 is None:
                return False
        if r is None and L.intk:
            return self.lin_implied(t)
        return r

    def lin_implied(self, t):
        lits = self.int_lits()
        if lin.empty_lits(lits + [t]):
            return False
        if lin.empty_lits(lits + [mk("not", t)]):
            return True
        return None

    def int_lits(self):
        out = [a if v else mk("not", a) for a, v in self.order if a.op in CMP_OPS and a.args[0].intk]
        return out + [f for f in self.facts]

    def consistent(self):
        """Can some run of the program produce this combination?"""
        lits = list(self.facts)
        real = set()
        negs = []
        missing = []
        for a, v in self.order:
            if a.op == "isnan":
                xs = cells(a.args[0])
                if v:
                    missing.append(xs)
                else:
                    real |= {x.id for x in xs}
                continue
            if a.op not in CMP_OPS:
                continue
            if v:
                lits.append(a)
                for x in cells(a.args[0]):
                    real.add(x.id)
            elif a.args[0].intk:
                lits.append(mk("not", a))
            else:
                negs.append(a)
        real |= self.always_real()
        if any(all(x.id in real for x in xs) for xs in missing):
            return False
        for a in negs:
            if all(x.id in real for x in cells(a.args[0])):
                r = complement(a)
                lits += r
        if lin.empty_lits(lits):
            return False
        equal = {}
        for a, v in self.order:
            if v and a.op == "seq_eq":
                x, c = subject(a)
                if c is not None and equal.setdefault(x.id, c) is not c:
                    return False
        if any(f.op == "or" and self.ev(f) is False for f in self.facts):
            return False
        if self.extra is not None and self.extra(self):
            return False
        return True

    def always_real(self):
        out = set()
        for a, v in self.order:
            if a.op in CMP_OPS:
                for x in cells(a.args[0]):
                    if x.op in ("param", "n"):
                        out.add(x.id)
        return out

    def show(self):
        return "; ".join(("" if v else "not ") + show(a) for a, v in self.order)


def cells(t):
    """atoms of a polynomial"""
    out = []
    for m, _ in lin._as_poly(t).items():
        for a, _e in m:
            out.append(a)
    return out


NEG = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt"}


def complement(a):
    if a.op == "eq":
        return [mk("not", a)] if a.args[0].intk else []
    return [mk(NEG[a.op], *a.args)]


def interval(lits):
    """-> (lo, lostrict, hi, histrict, excluded) or None if empty"""
    lo = hi = None
    los = his = False
    ex = set()
    for l in lits:
        neg = l.op == "not"
        a = l.args[0] if neg else l
        op, c = a.op, a.args[1]
        if neg:
            if op == "eq":
                ex.add(c)
                continue
            op = NEG[op]
        if op in ("lt", "le"):
            s = op == "lt"
            if hi is None or c < hi or (c == hi and s):
                hi, his = c, s
        elif op in ("gt", "ge"):
            s = op == "gt"
            if lo is None or c > lo or (c == lo and s):
                lo, los = c, s
        else:
            if hi is None or c < hi:
                hi, his = c, False
            if lo is None or c > lo:
                lo, los = c, False
    if lo is not None and hi is not None:
        if lo > hi or (lo == hi and (los or his or lo in ex)):
            return None
    return lo, los, hi, his, ex


def iv_test(iv, t):
    lo, los, hi, his, ex = iv
    op, c = t.op, t.args[1]
    if op == "lt":
        if hi is not None and (hi < c or (hi == c and his)):
            return True
        if lo is not None and lo >= c:
            return False
    elif op == "le":
        if hi is not None and hi <= c:
            return True
        if lo is not None and (lo > c or (lo == c and los)):
            return False
    elif op == "gt":
        if lo is not None and (lo > c or (lo == c and los)):
            return True
        if hi is not None and hi <= c:
            return False
    elif op == "ge":
        if lo is not None and lo >= c:
            return True
        if hi is not None and (hi < c or (hi == c and his)):
            return False
    elif op == "eq":
        if c in ex or (lo is not None and (lo > c or (lo == c and los))) or \
                (hi is not None and (hi < c or (hi == c and his))):
            return False
        if lo is not None and lo == hi == c:
            return True
    return None


# ----------------------------------------------------------------- outcome trees
class Tree_:
    """Outcome tree: list of (guard, outcome) tried in order, or a value."""


def head(tree, A):
    """Resolve a tree under A: ('leaf', outcome) or ('split', atom)."""
    while True:
        if isinstance(tree, list):
            for g, sub in tree:
                r = A.ev(g)
                if r is True:
                    tree = sub
                    break
                if r is None:
                    return "split", A.pick(g)
            else:
                return "leaf", ("unreachable",)
            continue
        if isinstance(tree, ChoiceV):
            r = A.ev(tree.c)
            if r is None:
                return "split", A.pick(tree.c)
            tree = tree.a if r else tree.b
            continue
        if isinstance(tree, T) and tree.op == "ite" and not tree.series:
            r = A.ev(tree.args[0])
            if r is None:
                return "split", A.pick(tree.args[0])
            tree = tree.args[1] if r else tree.args[2]
            continue
        return "leaf", tree


def tree_of(value, exits):
    """Outcome tree of an analysed call: exceptions first, else the value."""
    out = [(e.pc, ("raise", e.value, e)) for e in exits if e.kind == "raise" and e.pc is not FALSE]
    out.append((TRUE, value))
    return out


class Diff:
    def __init__(self, A, a, b, undecided=None):
        self.A, self.a, self.b, self.undecided, self.odd = A, a, b, undecided, []


def safe_term(t, memo={}):
    r = memo.get(t.id)
    if r is None:
        r = not t.opq and all(x.op in SAFE for x in subterms(t))
        memo[t.id] = r
    return r


def tree_atoms(tree, out=None):
    """ids of all guard atoms of a tree"""
    if out is None:
        out = set()
    if isinstance(tree, list):
        for g, s in tree:
            bool_atoms(g, out)
            tree_atoms(s, out)
    elif isinstance(tree, ChoiceV):
        bool_atoms(tree.c, out)
        tree_atoms(tree.a, out)
        tree_atoms(tree.b, out)
    elif isinstance(tree, T) and tree.op == "ite" and not tree.series:
        bool_atoms(tree.args[0], out)
        tree_atoms(tree.args[1], out)
        tree_atoms(tree.args[2], out)
    return out


def bool_atoms(t, out):
    if t.op in ("and", "or", "not") or (t.op == "ite" and is_boolish(t)):
        for a in t.args:
            bool_atoms(a, out)
    elif t.op != "bool":
        out.add(t)


def compare_trees(ta, tb, same, facts=(), extra=None, domain=None, safe=safe_term, limit=3):
    """-> (list of Diff, undecided reasons, number of joint paths)."""
    atoms_a, atoms_b = tree_atoms(ta), tree_atoms(tb)
    shared = {x.id for x in atoms_a & atoms_b}
    diffs, und = [], []
    stats = [0, 0]

    def rec(A):
        if len(diffs) >= limit or stats[0] > BUDGET:
            return
        stats[0] += 1
        ka, va = head(ta, A)
        kb, vb = head(tb, A)
        if ka == "split" or kb == "split":
            # prefer splitting on a shared atom
            cand = []
            if ka == "split":
                cand.append(va)
            if kb == "split":
                cand.append(vb)
            atom = next((x for x in cand if x.id in shared), cand[0])
            for v in (True, False):
                B = A.copy()
                B.set(atom, v)
                if not quick(B):
                    continue
                rec(B)
            return
        stats[1] += 1
        r = same(va, vb, A)
        if r is True:
            return
        if not A.consistent():
            return
        odd = [a for a, _ in A.order if a.id not in shared and not safe(a)]
        if r is None or odd:
            und.append(Diff(A, va, vb, r if r is None else odd))
            return
        d = Diff(A, va, vb)
        d.odd = [a for a, _ in A.order if a.id not in shared]
        diffs.append(d)

    def quick(A):
        a, v = A.order[-1]
        if a.op in CMP_OPS and a.args[0].intk:
            return not lin.empty_lits(A.int_lits())
        return True

    rec(Atoms(facts, extra, domain))
    if stats[0] > BUDGET:
        und.append(Diff(Atoms(), None, None, "budget"))
    return diffs, und, stats[1]
