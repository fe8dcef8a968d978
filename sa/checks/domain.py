"""C07: constructor and simulation parameters are accepted exactly on their documented domain."""
import ast
from fractions import Fraction
import importlib.util
import itertools
import math
import os
from .common import *
from ..terms import _as_poly


def load_spec(name):
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "spec", name + ".py")
    sp = importlib.util.spec_from_file_location("spec_" + name, p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


class Unk(Exception):
    """operator outside the guard language"""


class PyErr(Exception):
    """evaluating the guard would raise TypeError"""


TYPES = {"int": int, "float": float, "str": str, "bool": bool, "NoneType": type(None), "list": list, "tuple": tuple,
         "dict": dict, "complex": complex}
ABSTRACT = {"Integral": lambda v: isinstance(v, int), "Real": lambda v: isinstance(v, (int, float)),
            "Number": lambda v: isinstance(v, (int, float, complex)),
            "Rational": lambda v: isinstance(v, int), "Sized": lambda v: hasattr(v, "__len__"),
            "Iterable": lambda v: hasattr(v, "__iter__")}
NONE_OF = ("DataFrame", "Series", "ndarray", "DatetimeIndex", "Index", "Timestamp", "integer", "floating", "number",
           "int64", "int32", "float64", "float32", "bool_", "datetime", "date")


STROPS = ("lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "casefold", "swapcase", "startswith", "endswith",
          "isupper", "islower", "isalpha", "isdigit", "replace", "removeprefix", "removesuffix")


class Ev:
    """Evaluation of an extracted guard for one representative of every parameter class."""

    def __init__(self, ps, n):
        self.ps, self.n = ps, n

    def b(self, t):
        """True / False / None (raises TypeError) with short-circuit in any order"""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.op in ("and", "or"):
            stop = t.op == "or"
            und = False
            unk = None
            for a in t.args:
                try:
                    v = self.b(a)
                except Unk as e:
                    unk = e
                    continue
                if v is stop:
                    return stop
                und |= v is None
            if unk is not None:
                raise unk
            return None if und else not stop
        if t.op == "not":
            v = self.b(t.args[0])
            return None if v is None else not v
        if t.op == "ite" and not t.series:
            c = self.b(t.args[0])
            return None if c is None else self.b(t.args[1 if c else 2])
        try:
            v = self.v(t)
        except PyErr:
            return None
        return bool(v)

    def v(self, t):
        if isinstance(t, Fraction):
            return int(t) if t.denominator == 1 else float(t)
        if t.op == "param":
            if t.args[0] not in self.ps:
                raise Unk(show(t))
            return self.ps[t.args[0]]
        if t.op == "n":
            return self.n
        if is_const(t) or t.op in ("bool", "none", "str"):
            return pyval(t)
        if t.op == "nan":
            return math.nan
        if t.op == "inf":
            return math.inf * t.args[0]
        if t.op in CMP_OPS:
            a, b = self.v(t.args[0]), self.v(t.args[1])
            try:
                return {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b,
                        "eq": lambda: a == b, "ne": lambda: a != b}[t.op]()
            except TypeError:
                raise PyErr
        if t.op == "seq_eq":
            return self.v(t.args[0]) == self.v(t.args[1])
        if t.op == "isinst" or t.op == "typ":
            x, nm = self.v(t.args[0]), t.args[1]
            nm = nm if isinstance(nm, str) else pyval(nm)
            if nm in TYPES:
                return isinstance(x, TYPES[nm]) if t.op == "isinst" else type(x) is TYPES[nm]
            if nm in ABSTRACT and t.op == "isinst":
                return ABSTRACT[nm](x)
            if nm in NONE_OF:
                return False
            raise Unk(show(t))
        if t.op == "isnone":
            return self.v(t.args[0]) is None
        if t.op == "isnan":
            x = self.v(t.args[0])
            return isinstance(x, float) and math.isnan(x)
        if t.op == "truthy":
            return bool(self.v(t.args[0]))
        if t.op in ("and", "or", "not", "ite"):
            r = self.b(t)
            if r is None:
                raise PyErr
            return r
        if t.op in ("max", "min") and not t.series:
            xs = [self.v(a) for a in t.args]
            try:
                return max(xs) if t.op == "max" else min(xs)
            except TypeError:
                raise PyErr
        if t.op == "poly":
            return self.poly(t)
        if t.op == "strop" and t.args[0] in STROPS:
            x, ys = self.v(t.args[1]), [self.v(a) for a in t.args[2:]]
            if not isinstance(x, str) or not all(isinstance(y, str) for y in ys):
                raise PyErr
            return getattr(x, t.args[0])(*ys)
        if t.op == "strin":
            x, y = self.v(t.args[0]), self.v(t.args[1])
            if not isinstance(x, str) or not isinstance(y, str):
                raise PyErr
            return x in y
        if t.op in ("floor", "abs") and len(t.args) == 1 and not t.series:
            x = self.v(t.args[0])
            if not isinstance(x, (int, float)):
                raise PyErr
            try:
                return abs(x) if t.op == "abs" else math.floor(x)
            except (OverflowError, ValueError):
                raise PyErr
        if t.op == "mod" and len(t.args) == 2 and not t.series:
            x, y = self.v(t.args[0]), self.v(t.args[1])
            try:
                return x % y
            except (TypeError, ZeroDivisionError):
                raise PyErr
        raise Unk(show(t)[:80])

    def poly(self, t):
        try:
            tot = 0
            for mono, c in _as_poly(t).items():
                x = int(c) if c.denominator == 1 else float(c)
                for f, e in mono:
                    y = self.v(f)
                    if not isinstance(y, (int, float)):
                        raise PyErr
                    x = x * (y ** e)
                tot = tot + x
            return tot
        except (TypeError, OverflowError, ZeroDivisionError):
            raise PyErr


def boundary_consts(guards):
    """numeric and text constants occurring in the guards"""
    nums, strs = set(), set()
    for g in guards:
        for x in subterms(g):
            if x.op in CMP_OPS:
                for a in x.args:
                    if isinstance(a, Fraction):
                        nums.update((float(a), -float(a)))
                    elif a.op == "const":
                        nums.add(float(a.args[0]))
            elif x.op in ("seq_eq", "strin"):
                for a in x.args:
                    if a.op == "str":
                        strs.add(a.args[0])
    return {x for x in nums if abs(x) < 1e6}, strs


def reps(nums, strs, other_types=True):
    """representatives of every class the guards and the table distinguish"""
    out = []

    def add(v):
        if all(not (type(v) is type(w) and (v == w or v != v and w != w)) for w in out):
            out.append(v)

    for c in sorted(nums):
        i = math.floor(c)
        for v in (i - 1, i, i + 1):
            add(int(v))
        for v in (c - 0.5, c - 1e-9, c, c + 1e-9, c + 0.5):
            add(float(v))
    for v in (10 ** 6, -10 ** 6, 1e6, -1e6, math.inf, -math.inf, math.nan):
        add(v)
    for s in sorted(strs):
        add(s)
        for x in (s.swapcase(), s + " ", s[:-1]):
            add(x)
    for v in ("", "zzz"):
        add(v)
    if other_types:
        for v in (True, False, None, [], (1,), 1j):
            add(v)
    return out


BIG = 10 ** 9


def offending(table, relations, ps):
    """{(parameter, 'type'|'value')} the documentation refuses in this combination"""
    bad = set()
    for p, (kind, default) in table.items():
        name, is_type, in_range = kind
        if not is_type(ps[p]):
            bad.add((p, "type"))
        elif name != "bool" and isinstance(ps[p], bool):
            return None                       # bool given for a number: not documented either way
        else:
            try:
                if not in_range(ps[p], ps):
                    bad.add((p, "value"))
            except TypeError:
                pass
    for group, ok in relations:
        if not any(p in group for p, k in bad):
            if not ok(ps):
                bad.update((g, "value") for g in group)
    return bad


def combos(names, values, defaults, limit=150000):
    total = 1
    for n in names:
        total *= len(values[n])
    if total <= limit:
        for xs in itertools.product(*[values[n] for n in names]):
            yield dict(zip(names, xs))
        return
    base = [d for d in defaults]
    for d in base:
        for a, b in itertools.combinations(names, 2):
            for x in values[a]:
                for y in values[b]:
                    ps = dict(d)
                    ps[a], ps[b] = x, y
                    yield ps


def exit_kind(e):
    if e.value.cls == "WrongTypeForInputParameter":
        return "type"
    if e.value.cls == "WrongValueForInputParameter":
        return "value"
    return None


def arg_text(v):
    return pyval(v) if isinstance(v, T) and v.op == "str" else None


def check_exits(R, cls, fn, where, exits, table, relations, what="constructor"):
    names = list(table)
    exits = [e for e in exits if e.kind == "raise" and isinstance(e.value, ExcV) and e.pc is not FALSE]
    par = [e for e in exits if exit_kind(e)]
    rest = [e for e in exits if not exit_kind(e)]
    nums, strs = boundary_consts([e.pc for e in par])
    nums |= {0.0, 1.0, 2.0, 3.0}
    for p, (kind, d) in table.items():
        if isinstance(d, str):
            strs.add(d)
    docs = {"StochasticOscillator": ("simple", "exponential"), "Performance": ("LONG", "SHORT"),
            "MovingAverage": ("simple", "exponential", "time_series", "triangular", "variable")}
    strs |= set(docs.get(cls, ()))
    text_params = [p for p in names if table[p][0][0] == "str"]
    values = {}
    for p in names:
        if table[p][0][0] == "bool":
            values[p] = [True, False, 0, 1, 2, 0.0, 1.0, "", "True", None, math.nan]
        elif p in text_params:
            values[p] = [v for v in reps(set(), strs)] + [0, 1, 1.5]
        else:
            values[p] = reps(nums, {"1", "zzz"})
    if len(names) > 2:
        for p in names:
            if table[p][0][0] == "bool":
                values[p] = [True, False, 1, 0, "", None]
    good = [{p: table[p][1] for p in names}]
    for p in text_params:
        for s in sorted(strs):
            d = dict(good[0])
            d[p] = s
            good.append(d)
    R.count("parameters", len(names))
    R.count("refusing exits", len(par))
    skipped = set()
    n = 0
    for ps in combos(names, values, good):
        want = offending(table, relations, ps)
        if want is None:
            continue
        n += 1
        for rows in (BIG, 1):
            ev = Ev(ps, rows)
            hit, und = [], None
            for e in par:
                try:
                    if ev.b(e.pc):
                        hit.append(e)
                except Unk as x:
                    und = str(x)
            if und and not hit:
                skipped.add(und)
                continue
            shown = ", ".join("%s=%r" % kv for kv in ps.items())
            if want and not hit:
                p, k = sorted(want)[0]
                R.bad(where[0], where[1], fn, "accepted-outside-domain", "%s(%s) is accepted although %s=%r is not of the "
                      "documented %s" % (cls, shown, p, ps[p], "type" if k == "type" else "range"),
                      key="%s|%s|accepts|%s" % (where[0], fn, p))
                break
            if not want and hit:
                e = hit[0]
                f, l = e.file, getattr(e.node, "lineno", 0)
                R.bad(f, l, fn, "refused-inside-domain", "%s(%s) is refused although every parameter is in its documented "
                      "domain" % (cls, shown), key="%s|%s|refuses|%s" % (where[0], fn, arg_text(e.value.args.get("parameter_name"))))
                break
            if not want:
                break
            bad = False
            for e in hit:
                bad |= judge(R, cls, fn, e, want, ps, shown)
            if bad:
                break
            # refused whatever the input rows: no other failure may come first
            for e in rest:
                try:
                    if ev.b(e.pc):
                        R.bad(e.file, getattr(e.node, "lineno", 0), fn, "calculated-before-refusal",
                              "%s(%s): %s comes before the parameter error" % (cls, shown, e.value.cls),
                              key="%s|%s|late" % (where[0], fn))
                        bad = True
                        break
                except Unk:
                    pass
            if bad:
                break
        if len(R.violations) > 60:
            break
    R.count("parameter classes decided", n)
    for s in sorted(skipped):
        R.skip(cls, "guard not decided: %s" % s)


def judge(R, cls, fn, e, want, ps, shown):
    """the error raised names an offending parameter, of the right kind, and quotes its value / type"""
    f, l = e.file, getattr(e.node, "lineno", 0)
    k = exit_kind(e)
    nm = arg_text(e.value.args.get("parameter_name"))
    if nm is None:
        t = e.value.args.get("parameter_name")
        if t is None:
            R.bad(f, l, fn, "error-names-parameter", "%s raised without a parameter name" % e.value.cls)
            return True
        R.skip(cls, "parameter name not constant at line %s" % l)
        return False
    if (nm, k) not in want:
        R.bad(f, l, fn, "error-names-parameter", "%s(%s) raises %s for %r; the documentation refuses %s" %
              (cls, shown, e.value.cls, nm, ", ".join("%s (%s)" % w for w in sorted(want))),
              key="%s|%s|names|%s|%s" % (f, fn, nm, k))
        return True
    v = e.value.args.get("parameter_value" if k == "value" else "parameter_type")
    ok = None
    if k == "value" and isinstance(v, T):
        if v.op == "param":
            ok = v.args[0] == nm
        elif v.op in ("tostr", "repr") and isinstance(v.args[0], T) and v.args[0].op == "param":
            ok = v.args[0].args[0] == nm
        elif is_const(v) or v.op in ("str", "none", "bool"):
            ok = False
    elif k == "type":
        o = getattr(v, "obj", None)
        if isinstance(v, IxrV) and isinstance(o, T) and o.op == "param":
            ok = o.args[0] == nm
        elif isinstance(v, T) and v.op in ("str", "none", "const", "param", "bool"):
            ok = False
    if ok is False:
        R.bad(f, l, fn, "error-quotes-value", "the %s error of %r quotes %s" %
              (k, nm, show(v) if isinstance(v, T) else "the type of %s" % show(v.obj)))
        return True
    if ok is None:
        R.skip(cls, "quoted value not decided at line %s" % l)
    return False


def c07(W, R):
    R.rules.append("Guard-domain equivalence: the guards of all parameter-refusing exits of the constructor (helpers and "
                   "nested indicators inlined) are evaluated on representatives of every class of values that the guards "
                   "or the documented domain distinguish; accepted iff documented, right error class, right parameter, "
                   "right value, before any other failure.")
    R.rules.append("Default table: every parameter left out has the documented default.")
    R.rules.append("Message flow: the error text contains the value and the name it was given.")
    D = load_spec("domains")
    for c in W.names():
        with R.unit(c):
            info = W.classes[c]
            init, owner = info.find("__init__")
            table = D.DOMAINS.get(c)
            if table is None:
                R.skip(c, "no documented parameter table")
                continue
            sig = init_params(info)
            names = [n for n, d in sig if n != "input_data"]
            where = (owner.module.path, init.fn.lineno)
            fn = c + ".__init__"
            R.count("constructors")
            for p in table:
                if p not in names:
                    R.bad(where[0], where[1], fn, "documented-parameter", "parameter %r is missing" % p)
            extra = [n for n in names if n not in table]
            if extra:
                R.skip(c, "undocumented parameters %s" % extra)
            for n, d in sig:
                if n in table and d is not None:
                    try:
                        dv = ast.literal_eval(d)
                    except ValueError:
                        R.skip(c, "default of %s not literal" % n)
                        continue
                    want = table[n][1]
                    R.count("defaults")
                    if not (type(dv) is type(want) and dv == want):
                        R.bad(where[0], d.lineno, fn, "documented-default", "default of %r is %r, documented %r" % (n, dv, want))
                elif n in table:
                    R.bad(where[0], where[1], fn, "documented-default", "parameter %r has no default" % n)
            I = W.tree.interp()
            ps = {n: mk("param", n, "any") for n in names}
            r = run_ctor(W.tree, c, ps, [compare("ge", N_IN, ONE)])
            tb = {n: table[n] for n in names if n in table}
            if any(p not in names for p in table):
                continue
            check_exits(R, c, fn, where, r.ctx.exits, tb, D.RELATIONS.get(c, []))
    simulation_domain(W, R, D)
    messages(W, R)


# ---------------------------------------------------------------- simulation arguments

def simulation_domain(W, R, D):
    from . import simulation
    r = simulation.ctor_run(W, any_params=True)
    info = r.info
    init, owner = info.find("__init__")
    where = (owner.module.path, init.fn.lineno)
    check_exits(R, "TradingSimulation", "TradingSimulation.__init__", where, r.ctx.exits, D.SIMULATION, [])
    for cls, meth in ((info, "__init__"), (W.base, "getTiSimulation")):
        f, o = cls.find(meth)
        a = f.fn.args
        ns = [x.arg for x in a.args]
        d = dict(zip(ns[len(ns) - len(a.defaults):], a.defaults))
        for p, (kind, want) in D.SIMULATION.items():
            R.count("defaults")
            if p not in ns:
                R.bad(o.module.path, f.fn.lineno, cls.name + "." + meth, "documented-parameter", "parameter %r is missing" % p)
                continue
            try:
                dv = ast.literal_eval(d[p]) if p in d else Ellipsis
            except ValueError:
                continue
            if not (type(dv) is type(want) and dv == want):
                R.bad(o.module.path, f.fn.lineno, cls.name + "." + meth, "documented-default",
                      "default of %r is %r, documented %r" % (p, dv, want))


# ---------------------------------------------------------------- message templates

def messages(W, R):
    """abstract strings: lists of text pieces and argument pieces"""
    need = {"WrongValueForInputParameter": ["parameter_value", "parameter_name", "parameter_supports"],
            "WrongTypeForInputParameter": ["parameter_type", "parameter_name", "parameter_supported_type"],
            "NotEnoughInputData": ["indicator_name", "required_data_num", "input_data_num"],
            "NotValidInputDataForSimulation": ["input_argument", "details"]}
    for cls, args in need.items():
        info = None
        for m in W.tree.project.modules.values():
            v = m.env.get(cls)
            if isinstance(v, ClsV):
                info = v.info
                break
        if info is None:
            raise Broken("exception class %s not found" % cls)
        init, owner = info.find("__init__")
        if init is None:
            R.skip(cls, "no constructor")
            continue
        R.count("error messages")
        text = message_of(init.fn)
        where = (owner.module.path, init.fn.lineno, cls + ".__init__")
        if text is None:
            R.skip(cls, "message not decided")
            continue
        used = [x[1] for x in text if isinstance(x, tuple)]
        if None in used:
            R.skip(cls, "message not decided")
            continue
        for a in args:
            if a not in used:
                R.bad(*where, "error-message", "the message does not quote %s" % a)
        if [a for a in used if a in args] and sorted(used) == sorted(args) and cls == "NotEnoughInputData":
            lo = "".join(x.lower() if isinstance(x, str) else "<%s>" % x[1] for x in text)
            i, j = lo.find("<required_data_num>"), lo.find("<input_data_num>")
            before = lo[:i].rsplit(">", 1)[-1]
            if j < i and ("found" in lo[i:lo.find(".", i) if lo.find(".", i) > 0 else None]) and "requir" not in before:
                R.bad(*where, "error-message", "required and found row counts are swapped in the message")


def message_of(fn):
    a = fn.args
    names = [x.arg for x in a.args]
    env = {n: [("arg", n)] for n in names[1:]}
    for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        try:
            env[n] = ev_str(d, {})
        except Unk:
            pass
    out = [None]
    try:
        for s in fn.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                env[s.targets[0].id] = ev_str(s.value, env)
            elif isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name):
                env[s.target.id] = env[s.target.id] + ev_str(s.value, env)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                    and s.value.func.attr == "__init__":
                xs = [x for x in s.value.args if not (isinstance(x, ast.Name) and x.id == "self")]
                out[0] = ev_str(xs[0], env) if xs else []
            elif isinstance(s, (ast.Pass, ast.Assign)):
                continue
            else:
                return None
    except (Unk, KeyError):
        return None
    return out[0]


def ev_str(n, env):
    if isinstance(n, ast.Constant):
        return [str(n.value)] if isinstance(n.value, str) else _unk()
    if isinstance(n, ast.Name):
        if n.id in env:
            return env[n.id]
        _unk()
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        return ev_str(n.left, env) + ev_str(n.right, env)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("str", "repr") and len(n.args) == 1:
        return ev_str(n.args[0], env)
    if isinstance(n, ast.JoinedStr):
        out = []
        for v in n.values:
            out += [str(v.value)] if isinstance(v, ast.Constant) else ev_str(v.value, env)
        return out
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "replace" and len(n.args) >= 2:
        base = merge(ev_str(n.func.value, env))
        old = merge(ev_str(n.args[0], env))
        new = ev_str(n.args[1], env)
        if len(old) != 1 or not isinstance(old[0], str):
            _unk()
        out = []
        for x in base:
            if not isinstance(x, str):
                out.append(x)
                continue
            parts = x.split(old[0])
            for i, p in enumerate(parts):
                if i:
                    out += new
                if p:
                    out.append(p)
        return out
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format" and not n.args:
        base = merge(ev_str(n.func.value, env))
        kw = {k.arg: ev_str(k.value, env) for k in n.keywords}
        import string
        out = []
        for x in base:
            if not isinstance(x, str):
                out.append(x)
                continue
            for lit, field, spec, conv in string.Formatter().parse(x):
                if lit:
                    out.append(lit)
                if field is not None:
                    out += kw.get(field) or _unk()
        return out
    _unk()


def merge(xs):
    out = []
    for x in xs:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def _unk():
    raise Unk("text")
