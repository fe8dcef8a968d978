"""Value numbering of outcome trees by random interpretation of the extracted expressions.

Used only after the structural comparison has found a difference: it separates (or fails to
separate) two extracted decision functions.  Nothing of the analysed program is executed.
"""
from .terms import *
from .values import *
import random
from . import fingerprint as fp


class Unclear(Exception):
    pass


def tree_terms(tree, out=None):
    if out is None:
        out = []
    if isinstance(tree, list):
        for g, s in tree:
            out.append(g)
            tree_terms(s, out)
    elif isinstance(tree, ChoiceV):
        out.append(tree.c)
        tree_terms(tree.a, out)
        tree_terms(tree.b, out)
    elif isinstance(tree, T) and tree.op == "ite" and not tree.series:
        out.append(tree.args[0])
        tree_terms(tree.args[1], out)
        tree_terms(tree.args[2], out)
    return out


def resolve(tree, E):
    """outcome of a tree under one valuation"""
    while True:
        if isinstance(tree, list):
            for g, sub in tree:
                if E.truth(g):
                    tree = sub
                    break
            else:
                return ("unreachable",)
            continue
        if isinstance(tree, ChoiceV):
            tree = tree.a if E.truth(tree.c) else tree.b
            continue
        if isinstance(tree, T) and tree.op == "ite" and not tree.series:
            tree = tree.args[1] if E.truth(tree.args[0]) else tree.args[2]
            continue
        return tree


def separate(ta, tb, same, facts, count, seed=11, n_ti=None, strs=None, fix=None, aim=None):
    """First valuation under which the two trees give different outcomes:
    (valuation, outcome a, outcome b, interpretations compared, number separated); None if none; Unev if uninterpretable."""
    terms = tree_terms(ta) + tree_terms(tb)
    vals = fp.valuations(terms, facts, count=count, seed=seed, n_ti=n_ti, strs=strs)
    if fix is not None:
        vals = [v for v in vals if fix(v)]
    for lits in aim or ():
        vals += approach(lits, vals, facts, random.Random(seed), fix)
    n, first, sep = 0, None, 0
    for v in vals:
        E = fp.Eval(v)
        try:
            a, b = resolve(ta, E), resolve(tb, E)
        except fp.Undef:
            continue
        n += 1
        r = same(a, b, None)
        if r is False:
            sep += 1
            if first is None:
                first = (v, a, b)
    return first, sep, n


def approach(lits, vals, facts, rnd, fix, starts=10, steps=220, want=3):
    """Valuations under which the given literals hold, by local search from the given ones."""
    def score(v):
        E, k = fp.Eval(v), 0
        for t, val in lits:
            try:
                k += E.truth(t) is val
            except fp.Undef:
                k += 0
        return k

    goal = len(lits)
    rest = [(score(v), i) for i, v in enumerate(vals)]
    rest.sort(reverse=True)
    found = []
    consts = [float(t.args[1]) for t, _ in lits if t.op in CMP_OPS]
    for s, i in rest[:starts]:
        v = clone(vals[i])
        if s == goal:
            continue
        for _ in range(steps):
            w = clone(v)
            mutate(w, rnd, consts)
            if fix is not None and not fix(w):
                continue
            k = score(w)
            if k >= s:
                v, s = w, k
                if s == goal:
                    break
        if s == goal:
            found.append(v)
            if len(found) >= want:
                break
    return found


def clone(v):
    return fp.Val(dict(v.ns), {k: list(x) for k, x in v.cols.items()}, dict(v.params))


PRICE = ("open", "high", "low", "close")


def mutate(v, rnd, consts):
    keys = sorted(v.cols, key=str)
    if not keys:
        return
    for _ in range(rnd.choice((1, 1, 2))):
        key = rnd.choice(keys)
        xs = v.cols[key]
        if not xs:
            continue
        i = max(0, len(xs) - rnd.choice((1, 1, 2, 2, 3, 4))) if rnd.random() < 0.75 else rnd.randrange(len(xs))
        other = v.cols[rnd.choice(keys)]
        x = xs[i]
        m = rnd.randrange(9)
        if m == 0:
            xs[i] = xs[max(0, i - 1)]
        elif m == 1:
            xs[i] = x + rnd.choice((-1.0, 1.0))
        elif m == 2:
            xs[i] = x * rnd.choice((0.9, 1.1, -1.0 if key[0] == "ti" else 1.02))
        elif m == 3 and i < len(other):
            xs[i] = other[i]
        elif m == 4:
            xs[i] = (rnd.choice(consts) if consts else 0.0) + rnd.choice((-1.0, 0.0, 0.0, 1.0))
        elif m == 5 and key[1] != "volume":
            for j in range(len(xs)):        # a quiet stretch
                xs[j] = x
        elif m == 6:
            xs[i] = float(round(x)) if x == x else 1.0
        elif m == 7:
            for j in range(i, len(xs)):
                xs[j] = x
        else:
            xs[i] = xs[rnd.randrange(len(xs))]
        if key[0] != "ti" and key[1] != "volume":
            if not (xs[i] > 0) and xs[i] == xs[i]:
                xs[i] = 1.0
            tb = key[0]
            have = {n: v.cols[(tb, n)] for n in PRICE if (tb, n) in v.cols}
            for j in range(len(xs)):
                vs = [c[j] for n, c in have.items() if j < len(c) and c[j] == c[j]]
                if vs and "high" in have and have["high"][j] == have["high"][j]:
                    have["high"][j] = max(vs)
                if vs and "low" in have and have["low"][j] == have["low"][j]:
                    have["low"][j] = min(vs)
