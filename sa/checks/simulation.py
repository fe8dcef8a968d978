"""Shared analysis of TradingSimulation / getTiSimulation and C12, C13, C14, C20."""
import os
import random
from .common import *
from .. import fingerprint as fp

CLS = "TradingSimulation"
COLS = ("signal", "open_trading_action", "stock_value", "exposure", "portfolio_value", "earnings", "balance")
SIGNALS = (("hold", 0), ("buy", -1), ("sell", 1))
ROW = mk("param", "i_index", "int")
MAXE = mk("param", "max_exposure", "float")
FACTOR = mk("param", "short_exposure_factor", "float")
CLOSE = mk("col", "input", "close")


def sim_info(W):
    for m in W.tree.project.modules.values():
        v = m.env.get(CLS)
        if isinstance(v, ClsV):
            return v.info
    raise Broken("class TradingSimulation not found")


def ctor_run(W, any_params=False, maximum=None, keep=False, typ="float"):
    """Interpret TradingSimulation.__init__ with valid input data"""
    if not keep:
        W.tree.project.restore()
    I = W.tree.interp()
    info = sim_info(W)
    st = drive.base_state(I)
    r = drive.Run()
    r.I, r.info, r.validates = I, info, []
    I.facts_extra = (compare("ge", N_IN, ONE),)
    I.hooks = {"validateInputData": drive.validate_hook(r.validates)}
    ctx = drive.ctx_of(info, info.name)
    I.events.clear()
    I.unknown.clear()
    if maximum is None:
        maximum = mk("param", "max_exposure", "any" if any_params else "numopt")
    r.args = {"input_data_index": IdxV(IDX_IN, N_IN), "close_values": mk("opq", "caller_close"),
              "max_exposure": maximum,
              "short_exposure_factor": mk("param", "short_exposure_factor", "any" if any_params else typ)}
    r.inst = I.construct(ClsV(info), [], dict(r.args), st, ctx, info.node)
    r.st, r.ctx = st, ctx
    r.rec = st.heap[r.inst.oid]
    return r


class Unmodelled(Exception):
    pass


class Round:
    """State after one analysed round (or after the closing of the simulation)."""


def method(info, name):
    fn, owner = info.find(name)
    if not isinstance(fn, FnV):
        raise Broken("TradingSimulation.%s not found" % name)
    return owner.module.path, fn.fn.lineno, "%s.%s" % (CLS, name)


def leaf_state(r, portfolio=True):
    """Ledger of an arbitrary earlier round: every cell a leaf."""
    st, at = r.st, r.rec.attrs
    pf, sd = at.get("_portfolio"), at.get("_simulation_data")
    if not isinstance(pf, Np2V) or len(pf.arrs) != 3 or not isinstance(sd, FrmV):
        raise Unmodelled("ledger representation not modelled")
    for j, a in enumerate(pf.arrs):
        if portfolio:
            st.heap[a] = ArrRec(mk("col", "pf", j), st.heap[a].n, "portfolio")
    for c, a in st.heap[sd.oid].cols:
        st.heap[a] = ArrRec(mk("col", "sim", c), st.heap[a].n, "simdata")


def reads_back(q, oid, attrs):
    """the ledger of a state: (portfolio terms, {column: term})"""
    at = q.st.heap[oid].attrs
    pf, sd = at.get("_portfolio"), at.get("_simulation_data")
    if not isinstance(pf, Np2V) or len(pf.arrs) != 3 or not isinstance(sd, FrmV):
        raise Unmodelled("ledger representation not modelled")
    return [q.st.heap[a].t for a in pf.arrs], {c: q.st.heap[a].t for c, a in q.st.heap[sd.oid].cols}


def state_reads(terms):
    """attributes of the analysed object other than the ledger would be unbound leaves"""
    for t in terms:
        if t.opq:
            return True
    return False


class Sim:
    """All analysed rounds of the current tree."""

    def __init__(self, W):
        self.W, self.info = W, sim_info(W)
        self.spec = specs.load(W.tree, "simulation")
        self.rounds = {}
        self.where = method(self.info, "runSimulationRound")
        for first in (False, True):
            for name, k in SIGNALS:
                for mx in ((NONE,) if name == "hold" else (NONE, MAXE)):
                    key = (name, mx is MAXE, first)
                    try:
                        self.rounds[key] = self.round(name, k, mx, first)
                    except Unmodelled as e:
                        self.rounds[key] = str(e)

    def round(self, name, k, mx, first):
        r = ctor_run(self.W, maximum=mx)
        before = dict(r.rec.attrs)
        leaf_state(r, not first)
        leaf = [r.st.heap[a].t for a in before["_portfolio"].arrs]
        row = ZERO if first else ROW
        facts = [compare("ge", N_IN, ONE), compare("ge", FACTOR, ONE), compare("gt", MAXE, ZERO)]
        if not first:
            facts += [compare("ge", ROW, ONE), compare("lt", ROW, N_IN)]
        q = run_method(r, "runSimulationRound", [], {"i_index": row, "signal": TupV([const(name), const(k)])}, facts=facts)
        if q.unknown:
            raise Unmodelled("round not modelled: %s" % str(q.unknown[0])[:120])
        if any(e.kind == "raise" for e in q.ctx.exits):
            raise Unmodelled("a round can end with an exception")
        out = Round()
        out.pf, out.cols = reads_back(q, r.inst.oid, before)
        after = q.st.heap[r.inst.oid].attrs
        for a in after:
            if a not in before or (after[a] is not before[a] and not isinstance(after[a], (FrmV, Np2V, NpV))
                                   and not (isinstance(after[a], RefV))):
                raise Unmodelled("a round keeps extra state in %r" % a)
        if not first:
            later = compare("eq", ROW, ZERO)
            out.pf = [assume(t, later, FALSE) for t in out.pf]
            out.cols = {c: assume(t, later, FALSE) for c, t in out.cols.items()}
        for t in out.pf + list(out.cols.values()):
            if t.opq:
                raise Unmodelled("ledger value not modelled")
        out.leaf = leaf
        out.facts, out.row, out.r, out.q = facts, row, r, q
        out.price = cell(CLOSE, row)
        return out

    def call(self, rd, fn, terms, scalars):
        """Reference rule on the given ledger terms."""
        I, st = rd.r.I, rd.r.st.copy()
        st.rel = st.pc0 = st.entry = TRUE
        I.facts_extra = tuple(rd.facts)
        I.unknown, I.events, I.hooks = [], [], {}
        f = self.spec.env[fn]
        args = [I.npv(st, t, N_IN) for t in terms] + list(scalars)
        v, ctx = specs.call(I, self.spec, f, args, {}, st)
        if I.unknown:
            raise Unmodelled("reference rule not interpretable: %s" % (I.unknown[:1],))
        if isinstance(v, TupV):
            return [st.heap[x.arr].t if isinstance(x, (NpV, SerV)) else x for x in v.items]
        return v


# ------------------------------------------------------------------ reachable ledgers
def ledger(rnd, n, upto, factor, maximum, exact=True, old=None):
    """A ledger after rounds 0..upto-1 of a random history, by the reference rules."""
    p = rnd.choice((10.0, 20.0, 4.0))
    fine = 0.0 if rnd.random() < 0.6 else rnd.randrange(1, 1 << 26) / float(1 << 28)
    close = []
    for _ in range(n):
        p = max(0.5, p + rnd.choice((-2, -1, -0.5, 0, 0, 0.5, 1, 2)))
        close.append(p + fine * rnd.choice((1, 1, 2, 3)))
    if old is not None:             # positions of the first days stay open until the last one
        close[:3], close[-1] = [400.0, 0.0625, 300.0], old
    pos, sta, exp = [0.0] * n, [0.0] * n, [0.0] * n
    cols = {c: [None] * n for c in COLS}
    for i in range(upto):
        sig = rnd.choice(("buy", "sell", "buy", "sell", "hold"))
        if old is not None and i < 3:
            sig = ("buy", "sell", "buy")[i]
        ex = ea = 0.0
        act = "none"
        if i:
            ex, ea = cols["exposure"][i - 1], cols["earnings"][i - 1]
            for j in range(i):
                if sta[j] == 1 and pos[j] == 2 and exp[j] < close[i]:
                    sta[j], ea, ex = 2.0, ea + close[i] - exp[j], ex - exp[j]
                elif sta[j] == 1 and pos[j] == 1 and exp[j] > factor * close[i]:
                    sta[j], ea, ex = 2.0, ea + exp[j] / factor - close[i], ex - exp[j]
            own = close[i] if sig == "buy" else factor * close[i]
            if sig != "hold" and not (maximum is not None and maximum < ex + own):
                pos[i], sta[i], exp[i] = (2.0 if sig == "buy" else 1.0), 1.0, own
                ex += own
                act = "long" if sig == "buy" else "short"
        v = close[i] * sum((1 if pos[j] == 2 else -1) for j in range(n) if sta[j] == 1)
        for c, x in zip(COLS, (sig, act, close[i], ex, v, ea, ea + v)):
            cols[c][i] = x
    return close, (pos, sta, exp), cols


def ledgers(count, seed, first=False, total=None, far=()):
    """Valuations of the leaves by ledgers reachable under the reference rules."""
    rnd = random.Random(seed)
    out = []
    for k in range(count + 4 * len(far)):
        n = rnd.choice((2, 3, 4, 6, 8, 12, 16))
        i = 0 if first else rnd.randrange(1, n)
        if k >= count:              # histories that reach the row numbers the expressions mention
            n = far[(k - count) // 4] + rnd.choice((5, 8, 20))
            i = 0 if first else n - 1
        if total is not None:
            i = n if rnd.random() < 0.6 else rnd.randrange(0, n + 1)
        factor = rnd.choice((1.0, 1.25, 1.5, 2.0, 3.0))
        if k >= count:
            close, pf, cols = ledger(rnd, n, i, factor, None, old=(500.0, 0.015625)[k % 2])
        else:
            close, pf, cols = ledger(rnd, n, i, factor, rnd.choice((None, None, 30.0, 60.0)))
        # maxima at and around the exposures that matter
        base = (cols["exposure"][i - 1] or 0.0) if i and total is None else 0.0
        c = close[min(i, n - 1)]
        mx = rnd.choice((base + c, base + factor * c, base + c - 0.5, base + factor * c - 0.25, base + 1, base + 40,
                         c, factor * c, base or 1.0))
        mx = max(mx, 0.25)
        unit = 2.0 ** -36 if k % 6 == 5 and k < count else 1.0      # a currency in which every price is tiny
        if unit != 1.0:
            mx, close = mx * unit, [x * unit for x in close]
            pf = (pf[0], pf[1], [x * unit for x in pf[2]])
            for nm in ("stock_value", "exposure", "portfolio_value", "earnings", "balance"):
                cols[nm] = [None if x is None else x * unit for x in cols[nm]]
        vcols = {("input", "close"): close}
        for j in range(3):
            vcols[("pf", j)] = list(pf[j])
        for nm in COLS:
            vcols[("sim", nm)] = list(cols[nm])
        out.append(fp.Val({"in": n}, vcols, {"i_index": float(i), "max_exposure": mx, "short_exposure_factor": factor}))
        out[-1].unit = unit
    return out


def show_state(v):
    i = int(v.params["i_index"])
    return "close %s, maximum %g, short factor %g, round %d" % (
        [round(x, 3) for x in v.cols[("input", "close")][:i + 1]], v.params["max_exposure"],
        v.params["short_exposure_factor"], i)


def differs(x, y, unit=1.0):
    if x is None:
        x = fp.NANF
    if y is None:
        y = fp.NANF
    if isinstance(x, bool):
        x = float(x)
    if isinstance(y, bool):
        y = float(y)
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        if x != x or y != y:
            return (x != x) != (y != y)
        if x in (fp.INF, -fp.INF) or y in (fp.INF, -fp.INF):
            return x != y
        return abs(x - y) > 1e-9 * (unit + abs(x) + abs(y))
    return x != y


def cases(t):
    """scalar conditions deciding between parts of t"""
    return [x.args[0] for x in subterms(t) if x.op == "ite" and not x.args[0].series]


def equal_terms(a, b, depth=6):
    """structural equality of the normal forms, also per case of their scalar conditions"""
    if a is b:
        return True
    if depth == 0:
        return False
    cs = cases(a) + cases(b)
    if not cs:
        return False
    cs.sort(key=lambda c: len(subterms(c)) if isinstance(subterms(c), (list, set, tuple)) else sum(1 for _ in subterms(c)))
    c = cs[0]
    return all(equal_terms(assume(a, c, v), assume(b, c, v), depth - 1) for v in (TRUE, FALSE))


def assume(t, c, v):
    ren = {c: v}
    if c.op == "not":
        ren[c.args[0]] = not_(v)
    else:
        ren[not_(c)] = not_(v)
    return subst(t, ren)


class Obligation:
    """A term that has to equal another one on the given rows, in every reachable ledger."""

    def __init__(self, what, got, want, rows="scalar"):
        self.what, self.got, self.want, self.rows = what, got, want, rows


def strip_store(t, row):
    return t.args[0] if t.op == "store" and t.args[1] is row else t


def decide_all(R, where, label, obs, first, seed, count, total=None):
    """Proves the obligations by normal-form equality, else separates them over reachable ledgers."""
    for ob in obs:
        R.count("obligations")
        name = "%s: %s" % (label, ob.what)
        if ob.got is None or ob.want is None:
            R.skip(name, "value not modelled")
            continue
        if equal_terms(ob.got, ob.want):
            R.count("obligations with equal normal form")
            continue
        try:
            n, w = 0, None
            far = fp.row_needs([ob.got], 1500)[-3:]
            for v in ledgers(count, seed, first, total, far):
                i = int(v.params["i_index"])
                N = v.ns["in"]
                rows = {"scalar": (None,), "others": [k for k in range(N) if k != i], "row": (i,),
                        "all": list(range(N))}[ob.rows]
                if len(rows) > 60:
                    rows = rows[:12] + rows[12:-12:len(rows) // 20] + rows[-12:]
                E1, E2 = fp.Eval(v), fp.Eval(v)
                for k in rows:
                    try:
                        x = E1.at(ob.got, k)
                        y = E2.at(ob.want, k)
                    except fp.Undef:
                        continue
                    n += 1
                    if differs(x, y, v.unit):
                        w = (v, k, x, y)
                        break
                if w:
                    break
        except fp.Unev as e:
            R.skip(name, "not interpretable: %s" % e)
            continue
        if w:
            v, k, x, y = w
            R.bad(*where, "ledger", "%s: %s%s instead of %s with %s" % (
                name, num(x), "" if k is None or ob.rows == "row" else " in row %d" % k, num(y), show_state(v)),
                key="%s|%s|%s" % (where[0], where[2], name))
        elif n == 0:
            R.skip(name, "no comparable ledger")
        else:
            R.count("obligations equal by value numbering over reachable ledgers")
            R.sample("%s agrees on %d cells of reachable ledgers" % (name, n))


def num(x):
    return "missing" if x is None or (isinstance(x, float) and x != x) else "%.6g" % x if isinstance(x, float) else repr(x)


def sim(W):
    s = getattr(W, "_sim", None)
    if s is None:
        s = W._sim = Sim(W)
    return s


def label_of(key):
    name, mx, first = key
    return "%s signal%s%s" % (name, " with a maximum exposure" if mx else "", " on the first day" if first else "")


def each(R, S, first=None, signals=None):
    for key, rd in S.rounds.items():
        if first is not None and key[2] != first:
            continue
        if signals and key[0] not in signals:
            continue
        if isinstance(rd, str):
            R.skip("round with a " + label_of(key), rd)
            continue
        missing = [c for c in COLS if c not in rd.cols]
        if missing:
            R.skip("round with a " + label_of(key), "columns %s not found" % missing)
            continue
        R.count("rounds analysed")
        yield key, rd


def settings(R):
    return int(os.environ.get("VERIF_SEED", "1") or 1), (1500 if R.thorough else 250)


RULE = ("Ledger transformer: runSimulationRound is interpreted once per signal (helpers inlined) from a ledger whose cells "
        "are all free leaves at a free round index; the extracted new value of every cell is compared with the reference rule "
        "(spec/simulation.py) in normal form, per case of its scalar conditions. A differing normal form is a violation only "
        "if the two expressions are separated on a ledger reachable under the reference rules.")


def passes(R, S, W, pid):
    """constructor arguments kept as given, getTiSimulation hands them over unchanged"""
    want = {"C12": ("max_exposure", "short_exposure_factor"), "C13": ("short_exposure_factor", "close_values"),
            "C20": ("input_data_index", "close_values")}[pid]
    for typ in ("float", "int"):
        passed(R, S, ctor_run(W, maximum=mk("param", "max_exposure", typ), typ=typ), want if typ == "float" else want[:-1 if pid != "C12" else 2])


def passed(R, S, r, want):
    where = method(S.info, "__init__")
    for a in want:
        R.count("obligations")
        at = r.rec.attrs.get("_" + a)
        if a == "close_values":
            t = None
            if isinstance(at, Np2V) and len(at.arrs) == 1:
                t = r.st.heap[at.arrs[0]].t
            elif isinstance(at, NpV):
                t = r.st.heap[at.arr].t
            if t is None:
                R.skip("constructor", "%s not modelled" % a)
            elif t is not CLOSE and not t.opq:
                R.bad(*where, "arguments", "the simulation does not use the given close prices: %s" % show(t)[:80])
            continue
        if a == "input_data_index":
            sd = r.rec.attrs.get("_simulation_data")
            if not isinstance(sd, FrmV):
                R.skip("constructor", "simulation frame not modelled")
                continue
            rec = r.st.heap[sd.oid]
            if rec.n is not N_IN:
                R.skip("constructor", "length of the simulation frame not modelled")
            names = [c for c, _ in rec.cols]
            lost = [c for c in COLS if c not in names]
            if lost:
                R.bad(*where, "columns", "the simulation frame has no column %s" % ", ".join(map(repr, lost)))
            continue
        if not isinstance(at, T):
            R.skip("constructor", "%s not modelled" % a)
        elif at is not r.args[a] and not at.opq:
            ok = None
            for v in ledgers(40, 3):
                try:
                    if differs(fp.Eval(v).ev(at), fp.Eval(v).ev(r.args[a])):
                        ok = v
                        break
                except (fp.Undef, fp.Unev):
                    pass
            if ok is not None:
                R.bad(*where, "arguments", "the argument %s is not used as given: %s" % (a, show(at)[:80]))


def c12(W, R):
    R.rules.append(RULE + " Opening: with e the day's exposure after closings (the exposure a hold leaves), a position is "
                   "recorded as open iff there is no maximum or not (maximum < e + own exposure); position, status, recorded "
                   "exposure, action and the day's exposure follow from that; hold and the first day open nothing.")
    S = sim(W)
    seed, count = settings(R)
    passes(R, S, W, "C12")
    hold = S.rounds[("hold", False, False)]
    for key, rd in each(R, S):
        name, mx, first = key
        row, price = rd.row, rd.price
        where = S.where
        got = {nm: cell(rd.cols[nm], row) for nm in ("open_trading_action", "exposure")}
        pos, sta, exp = [cell(t, row) for t in rd.pf]
        lab = label_of(key)
        if first or name == "hold":
            obs = [Obligation("position of the day", pos, ZERO), Obligation("status of the day", sta, ZERO),
                   Obligation("recorded exposure of the day", exp, ZERO),
                   Obligation("open trading action", got["open_trading_action"], const("none"))]
            if first:
                obs.append(Obligation("exposure", got["exposure"], ZERO))
            decide_all(R, where, lab, obs, first, seed, count)
            continue
        if isinstance(hold, str):
            R.skip(lab, "hold round: " + hold)
            continue
        e0 = cell(hold.cols["exposure"], row)
        own = price if name == "buy" else mul(FACTOR, price)
        if mx:
            refused = S.call(rd, "refused_long" if name == "buy" else "refused_short", [], [e0, price, FACTOR, MAXE])
        else:
            refused = FALSE
        obs = [Obligation("position of the day", pos, ite(refused, ZERO, const(2 if name == "buy" else 1))),
               Obligation("status of the day", sta, ite(refused, ZERO, ONE)),
               Obligation("recorded exposure of the day", exp, ite(refused, ZERO, own)),
               Obligation("open trading action", got["open_trading_action"],
                          ite(refused, const("none"), const("long" if name == "buy" else "short"))),
               Obligation("exposure", got["exposure"], add(e0, ite(refused, ZERO, own)))]
        decide_all(R, where, lab, obs, first, seed, count)


def c13(W, R):
    R.rules.append(RULE + " Closing: status of every earlier position, earnings and exposure after the closings (the exposure "
                   "of a hold), portfolio value and balance of the row; other rows of the ledger and of the simulation data "
                   "stay as they were.")
    S = sim(W)
    seed, count = settings(R)
    passes(R, S, W, "C13")
    for key, rd in each(R, S):
        name, mx, first = key
        row, price = rd.row, rd.price
        lab = label_of(key)
        where = S.where
        base = [strip_store(t, row) for t in rd.pf]
        got = {nm: cell(rd.cols[nm], row) for nm in COLS}
        obs = []
        leaf = rd.leaf
        if first:
            obs.append(Obligation("earnings", got["earnings"], ZERO))
            status = leaf[1]
        else:
            try:
                status, earned, released = S.call(rd, "closing", leaf, [price, FACTOR])
            except Unmodelled as e:
                R.skip(lab, str(e))
                continue
            prev = sub(row, ONE)
            obs.append(Obligation("earnings", got["earnings"], add(cell(mk("col", "sim", "earnings"), prev), earned)))
            if name == "hold":
                obs.append(Obligation("exposure", got["exposure"], sub(cell(mk("col", "sim", "exposure"), prev), released)))
        for j, nm in enumerate(("position", "status", "recorded exposure")):
            obs.append(Obligation("%s of the earlier positions" % nm, base[j], status if j == 1 else leaf[j], "others"))
        try:
            pv = S.call(rd, "portfolio_value", rd.pf[:2], [price])
        except Unmodelled as e:
            pv = None
        obs.append(Obligation("portfolio value", got["portfolio_value"], pv))
        obs.append(Obligation("balance", got["balance"], add(got["earnings"], got["portfolio_value"])))
        for nm in COLS:
            b = rd.cols[nm]
            while b.op == "store" and b.args[1] is row:
                b = b.args[0]
            obs.append(Obligation("earlier rows of column %s" % nm, b, mk("col", "sim", nm), "others"))
        decide_all(R, where, lab, obs, first, seed, count)


def c14(W, R):
    R.rules.append("Statistics: the entries computed by closeSimulation from a ledger of free leaves are compared with the "
                   "reference counts (spec/simulation.py: statistics) on the returned frame, in normal form; a differing "
                   "normal form is a violation only if a ledger reachable under the reference rules separates the two.")
    S = sim(W)
    seed, count = settings(R)
    where = method(S.info, "closeSimulation")
    r = ctor_run(W, maximum=MAXE)
    try:
        leaf_state(r)
    except Unmodelled as e:
        R.skip("closeSimulation", str(e))
        return
    facts = [compare("ge", N_IN, ONE)]
    q = run_method(r, "closeSimulation", facts=facts)
    if q.unknown:
        R.skip("closeSimulation", "not modelled: %s" % str(q.unknown[0])[:120])
        return
    v = q.value
    if not isinstance(v, TupV) or len(v.items) != 2:
        R.bad(*where, "result", "closeSimulation does not return the simulation data and the statistics")
        return
    data, stats = v.items
    rec = q.st.heap.get(stats.oid) if isinstance(stats, RefV) else None
    if not isinstance(data, FrmV) or not isinstance(rec, DictRec) or rec.open:
        R.skip("closeSimulation", "results not modelled")
        return
    rd = Round()
    rd.r, rd.facts = r, facts
    I, st = q.I, q.st.copy()
    st.rel = st.pc0 = st.entry = TRUE
    I.unknown, I.events, I.hooks = [], [], {}
    pf, cols = reads_back(q, r.inst.oid, None)
    for nm in COLS:
        R.count("obligations")
        t = dict((c, q.st.heap[a].t) for c, a in q.st.heap[data.oid].cols).get(nm)
        if t is mk("col", "sim", nm):
            R.count("obligations with equal normal form")
        elif t is None:
            R.bad(*where, "result", "the returned frame has no column %r" % nm)
        else:
            why = "not the recorded rows" if t.opq or q.st.heap[data.oid].idx.opq else returned(
                t, nm, q.st.heap[data.oid].idx, seed, 60, fp.row_needs([t], 1500)[-2:])
            if why is None:
                R.count("obligations equal by value numbering over reachable ledgers")
                continue
            if isinstance(why, tuple):
                R.bad(*where, "result", "the returned frame is not the ledger: %s" % why[0], key="%s|%s|rows" % (where[0], where[2]))
            else:
                R.skip("returned column %s" % nm, why)
            return
    f = S.spec.env["statistics"]
    w, ctx = specs.call(I, S.spec, f, [data] + [I.npv(st, t, N_IN) for t in pf[:2]], {}, st)
    if I.unknown or not isinstance(w, RefV):
        R.skip("closeSimulation", "reference not interpretable: %s" % (I.unknown[:1],))
        return
    want = {k[2][0]: x for k, x in st.heap[w.oid].items.items()}
    got = {k[2][0] if k[0] == "c" else k: x for k, x in rec.items.items()}
    obs = []
    for k, t in want.items():
        R.count("statistics")
        if k not in got and any(x[0] != "c" for x in rec.items):
            R.skip("closeSimulation", "names of the statistics")
            continue
        if k not in got:
            R.bad(*where, "statistics", "the statistics have no entry %r" % k, key="%s|%s|%s" % (where[0], where[2], k))
            continue
        g = got[k]
        obs.append(Obligation(k, g if isinstance(g, T) and not g.series else None, t))
    stat = method(S.info, "closeSimulation")
    decide_all(R, stat, "statistics", obs, False, seed, count, total=True)


# ------------------------------------------------------------------ getTiSimulation
class Trace:
    """Call sites of one getTiSimulation, with the state of the indicator at each."""


def trace(W, cls):
    r = W.fresh(cls)
    leaf_frames(r)
    t = Trace()
    t.r, t.init, t.rounds, t.close, t.sigs, t.graph = r, [], [], [], {}, []
    closes, mx, factor = mk("opq", "caller_closes"), mk("param", "max_exposure", "any"), mk("param", "short_exposure_factor", "any")
    t.args = {"close_values": closes, "max_exposure": mx, "short_exposure_factor": factor}
    fn, owner = r.info.find("getTiSignal")
    gs, gowner = r.info.find("getTiSimulation")
    if not isinstance(gs, FnV):
        raise Broken("%s.getTiSimulation not found" % cls)
    t.where = (gowner.module.path, gs.fn.lineno, gowner.name + ".getTiSimulation")
    sf, sowner = r.info.find("_getSimulationGraph")

    def frames(st):
        at = st.heap[r.inst.oid].attrs
        out = []
        for k in ("_input_data", "_ti_data"):
            v = at.get(k)
            if not isinstance(v, FrmV):
                out.append(None)
                continue
            rec = st.heap[v.oid]
            out.append((rec.idx, rec.n, tuple((c if not isinstance(c, T) else c.id, st.heap[a].t) for c, a in rec.cols)))
        return out

    def h_sig(I, f, args, kw, st, ctx, node):
        fs = frames(st)
        key = repr([x and (x[0].id, x[1].id if isinstance(x[1], T) else x[1], [(c, y.id) for c, y in x[2]]) for x in fs])
        s = mk("opq", "signal", const(key))
        t.sigs[s] = fs
        return s

    def h_round(I, f, args, kw, st, ctx, node):
        kw = dict(kw)
        for nm, v in zip(("i_index", "signal"), args):
            kw[nm] = v
        t.rounds.append((kw.get("i_index"), kw.get("signal"), st.guard(), node, ctx))
        return NONE

    def h_init(I, f, args, kw, st, ctx, node):
        kw = dict(kw)
        for nm, v in zip(("input_data_index", "close_values", "max_exposure", "short_exposure_factor"), args):
            kw[nm] = v
        t.init.append((kw, st.guard()))
        t.sim_oid = f.self_
        return NONE

    def h_close(I, f, args, kw, st, ctx, node):
        t.close.append((st.guard(), node))
        t.nrounds = len(t.rounds)
        n = mk("n", "sim")
        t.data = I.frame(st, [(x, mk("col", "sim", x)) for x in COLS], mk("idx", "sim"), n, order="known", tag="simdata")
        return TupV([t.data, mk("opq", "stats")])

    def h_graph(I, f, args, kw, st, ctx, node):
        names = [x.arg for x in sf.fn.args.posonlyargs + sf.fn.args.args if x.arg not in ("self", "cls")]
        a = dict(kw)
        a.update(zip(names, args))
        t.graph.append((whole_ledger(t, a.get(names[0]) if names else None, st), st.guard(), node, ctx))
        return mk("opq", "graph")

    hooks = {owner.name + ".getTiSignal": h_sig, CLS + ".runSimulationRound": h_round, CLS + ".__init__": h_init,
             CLS + ".closeSimulation": h_close}
    if isinstance(sf, FnV):
        hooks[sowner.name + "._getSimulationGraph"] = h_graph
    t.facts = sig_facts(r)
    t.q = run_method(r, "getTiSimulation", [], dict(t.args), facts=t.facts, hooks=hooks)
    return t


def whole_ledger(t, v, st):
    """True: v holds the ledger that was returned; False: it does not, and which part; None: not modelled"""
    if not isinstance(v, FrmV) or not getattr(t, "data", None):
        return None
    rec = st.heap[v.oid]
    got = dict((c, st.heap[a].t) for c, a in rec.cols)
    if any(x.opq for x in got.values()) or rec.idx.opq:
        return None
    if rec.idx is not mk("idx", "sim"):
        return "the rows %s" % show(rec.idx)[:80]
    for c in COLS:
        if got.get(c) is not mk("col", "sim", c):
            return "%s as the column %s" % (show(got[c])[:80] if c in got else "nothing", c)
    return True


def graph_data(R, t, cls):
    """the graph of a simulation is drawn from the ledger that is returned"""
    R.count("graphs of a simulation", len(t.graph))
    for ok, guard, node, ctx in t.graph:
        if ok is None:
            R.skip(cls + ".getTiSimulation", "data of the graph not modelled")
        elif ok is not True and sat(guard, t.facts) is not False:
            R.bad(ctx.module.path, getattr(node, "lineno", 0), t.where[2], "graph-data",
                  "the graph is drawn from %s of the simulation data" % ok, key="%s|%s|graph-data" % (t.where[0], t.where[2]))


def rows_of(E, idx, n):
    """rows of the frame kept by an index expression, under one valuation"""
    return E.labels(idx)


def returned(t, nm, idx, seed, count, far):
    """None: the returned column holds every row of the ledger; (text,): it does not; str: not decided"""
    n = 0
    for v in ledgers(count, seed, total=True, far=far):
        try:
            E = fp.Eval(v)
            L = list(E.labels(idx))
            if L != list(range(v.ns["in"])):
                return ("%d of %d rows" % (len(L), v.ns["in"]) if len(L) != v.ns["in"] else "its rows are in another order",)
            for k in L:
                x, y = E.at(t, k), v.cols["sim", nm][k]
                n += 1
                if differs(x, y, v.unit):
                    return ("%s %s instead of %s in row %d" % (nm, num(x), num(y), k),)
        except fp.Undef:
            continue
        except fp.Unev as e:
            return "not interpretable: %s" % e
    return None if n else "no comparable ledger"


def final_calls(t):
    """the calls of the last interpretation of every call site (loop bodies are interpreted to a fixpoint)"""
    last = {}
    for x in t.rounds:
        last[id(x[3])] = x
    return list(last.values())


def pick_signal(v):
    """(guard, leaf) pairs of the signal argument"""
    return leaf_pairs(v)


def replay(R, t, cls):
    """getTiSimulation of one class: one round per row in order, on the cut frames"""
    where, I, q = t.where, t.q.I, t.q
    name = cls + ".getTiSimulation"
    bad = lambda what, k: R.bad(*where, "replay", what, key="%s|%s|%s" % (where[0], where[2], k))
    if q.unknown:
        R.skip(name, "not modelled: %s" % str(q.unknown[0])[:120])
        return
    if len(t.init) != 1 or t.init[0][1] is not TRUE:
        R.skip(name, "construction of the simulation not recognised")
        return
    kw = t.init[0][0]
    for a in ("close_values", "max_exposure", "short_exposure_factor"):
        R.count("obligations")
        if kw.get(a) is not t.args[a]:
            v = kw.get(a)
            if v is None or (isinstance(v, T) and not v.opq):
                bad("the argument %s is not handed to the simulation as given (%s)" % (a, show(v)[:60] if isinstance(v, T) else "missing"), a)
            else:
                R.skip(name, "argument %s not modelled" % a)
    ix = kw.get("input_data_index")
    R.count("obligations")
    if not (isinstance(ix, IdxV) and ix.t is IDX_IN):
        R.skip(name, "index handed to the simulation not modelled")
    calls = final_calls(t)
    if len(calls) != 1:
        R.skip(name, "%d call sites of runSimulationRound" % len(calls))
        return
    row, sig, guard, node, ctx = calls[0]
    if len(t.close) != 1 or t.close[0][0] is not TRUE or t.nrounds != len(t.rounds):
        bad("the simulation is not closed exactly once after the last round", "close")
    if not isinstance(row, T) or not row.intk:
        R.skip(name, "round number not modelled")
        return
    lvs = sorted({x.args[0] for x in subterms(row) if x.op == "lv"}, key=str)
    lvs = lvs or sorted({x.args[0] for x in subterms(guard) if x.op == "lv"}, key=str)
    if len(lvs) != 1 or lvs[0] not in I.loopinfo:
        R.skip(name, "the loop over the days is not recognised")
        return
    lo, hi, step, rng, inits, bodies, mus = I.loopinfo[lvs[0]]
    lv = mk("lv", lvs[0])
    leaves = pick_signal(sig) if sig is not None else []
    same = t.r.same_axis
    n_days = N_IN if same else N_TI
    # normal form: one round per row, in order, on frames cut at that row
    proven = row is lv and lo is ZERO and hi is n_days and step is ONE
    if proven and len(leaves) == 1 and leaves[0][1] in t.sigs:
        fs = t.sigs[leaves[0][1]]
        ok = all(f is not None and cut_form(f, k, row, same) and not altered(f, k) for f, k in zip(fs, ("input", "ti")))
        if ok:
            R.count("obligations with equal normal form")
            R.sample("%s: round i for i in 0..%s, signal on input and values with dates <= date i" % (cls, show(n_days)))
            return
    # otherwise under valuations of the row counts
    seen = [lo, hi, step, row, guard] + [g for g, _ in leaves] + [f[0] for _, x in leaves for f in t.sigs.get(x, ()) if f is not None]
    other = {}              # columns whose values are not simply those of the rows kept
    for _, x in leaves:
        for f, tab in zip(t.sigs.get(x, ()), ("input", "ti")):
            if f is not None and altered(f, tab):
                other[f[0].id, tab] = altered(f, tab)
                seen += [y for _, y in altered(f, tab)]
    cols = sorted({x.args for g in seen if isinstance(g, T) for x in subterms(g) if x.op == "col"}, key=str)
    rnd = random.Random(3)
    try:
        for n in list(range(1, 7)) + far_lengths([x for x in seen if isinstance(x, T)]):
            for short in ((0,) if same else (0, 1, 2)) * (6 if cols and n < 7 else 1):
                m = max(0, n - short)
                v = fp.Val({"in": n, "ti": m} if not same else {"in": n}, {
                    k: [rnd.choice((1.0, 1.0, 2.0, 1.23456789, float("nan"))) for _ in range(m if k[0] == "ti" else n)] for k in cols}, {})
                E = fp.Eval(v)
                a, b, s = E.int(lo), E.int(hi), E.int(step)
                got = []
                for k in range(a, b, s):
                    E = fp.Eval(v)
                    E.env[lvs[0]] = (k, None)
                    if not E.truth(guard):
                        continue
                    i = E.int(row)
                    cut = None
                    if n > 6 and 3 < k - a < (b - a) - 4:
                        got.append((i, None))
                        continue
                    for g, leaf in leaves:
                        if E.truth(g):
                            if leaf not in t.sigs and isinstance(leaf, T) and leaf.op == "mu":
                                cut = "earlier"
                                break
                            if leaf not in t.sigs:
                                if isinstance(leaf, TupV) or (isinstance(leaf, T) and not leaf.opq):
                                    cut = "fixed"
                                    break
                                raise fp.Unev("signal of the round")
                            cut = []
                            for f, tab in zip(t.sigs[leaf], ("input", "ti")):
                                if f is None:
                                    raise fp.Unev("frame")
                                L = E.labels(f[0])
                                cut.append(list(L))
                                for nm, y in other.get((f[0].id, tab), ()):
                                    for j, l in enumerate(L):
                                        if 3 < j < len(L) - 3:
                                            continue
                                        try:
                                            x = E.at(y, j)
                                        except fp.Undef:
                                            continue
                                        if differs(x, v.cols[tab, nm][l]):
                                            bad("the signal of day %d of %d is taken with %s for the %s %r of day %d" % (
                                                i, n, num(x), "input" if tab == "input" else "calculated", nm, l), "content")
                                            return
                            break
                    got.append((i, cut))
                want = list(range(m))
                if [i for i, _ in got] != want:
                    bad("rounds %s are run for %d days with values" % ([i for i, _ in got], m), "rounds")
                    return
                for i, cut in got:
                    if cut is None and n > 6:
                        continue
                    if cut == "earlier":
                        bad("the signal of day %d is one requested on an earlier day" % i, "signal")
                        return
                    if cut == "fixed":
                        bad("the signal of day %d is not the indicator's" % i, "signal")
                        return
                    for L, what in zip(cut, ("input data", "indicator values")):
                        if L != list(range(i + 1)):
                            bad("the signal of day %d of %d is taken with the %s of the days %s" % (
                                i, n, what, L if len(L) < 9 else "%d to %d (%d rows)" % (min(L), max(L), len(L))), "cut")
                            return
        R.count("obligations equal by value numbering")
    except (fp.Unev, fp.Undef) as e:
        R.skip(name, "not interpretable: %s" % e)


def far_lengths(terms):
    """history lengths around the large row numbers the expressions mention"""
    return sorted({x + d for x in fp.row_needs(terms, 2000) for d in (0, 5)})[-6:]


def cut_form(f, tab, row, same):
    """index expression keeps exactly the rows 0..row"""
    idx, n, cols = f
    base = IDX_IN if tab == "input" or same else IDX_TI
    if idx.op == "islice":
        return idx.args[0] is base and idx.args[1] is ZERO and idx.args[2] is add(row, ONE)
    if idx.op != "ifilter" or idx.args[0] is not base:
        return False
    m = idx.args[1]
    return m is compare("le", mk("index", base), mk("label", base, row))


def altered(f, tab):
    """[(column, term)] of a frame whose columns hold something else than the values of the rows kept"""
    out = []
    for c, y in f[2]:
        x = y
        while x.op in ("filter", "slice"):
            x = x.args[0]
        if x.op == "col" and x.args == (tab, c) or not isinstance(c, str):
            continue
        src = {z.args[1] for z in subterms(y) if z.op == "col" and z.args[0] == tab}
        if src == {c}:
            out.append((c, y))
    return out


def results(R, t, cls):
    where = t.where
    v = t.q.value
    R.count("obligations")
    if not isinstance(v, TupV):
        R.skip(cls + ".getTiSimulation", "result not modelled")
        return
    graph_data(R, t, cls)
    kept = whole_ledger(t, v.items[0], t.q.st) if v.items else "nothing"
    if len(v.items) != 3 or kept is not True or v.items[1] is not mk("opq", "stats"):
        if len(v.items) != 3 or isinstance(kept, str) or isinstance(v.items[0], T) and not v.items[0].opq \
                or kept is True and isinstance(v.items[1], T):
            R.bad(*where, "result", "the result is not the simulation data, the statistics and the graph",
                  key="%s|%s|result" % (where[0], where[2]))
        else:
            R.skip(cls + ".getTiSimulation", "result not modelled")


def c20(W, R):
    R.rules.append("Replay: getTiSimulation is interpreted with the simulator's methods as call sites; the loop runs round i "
                   "for every row i of the values in order, the signal passed in is the one requested while both frames hold "
                   "exactly the rows with dates up to date i, the arguments are handed over unchanged and the results returned. "
                   "Row: the round writes the signal and the price of the day and every documented column; the first day "
                   "writes a ledger of zeros.")
    R.assumptions.append("the dates of a history are distinct")
    S = sim(W)
    seed, count = settings(R)
    passes(R, S, W, "C20")
    for cls in W.names():
        with R.unit(cls):
            R.count("indicators")
            t = trace(W, cls)
            replay(R, t, cls)
            results(R, t, cls)
    # the signal of a day must not depend on what earlier requests left in the indicator
    from . import effects
    effects.query_effects(W, effects.Only(R, ("stale-answer", "later-answer", "state-changed")), which=("getTiSignal",))
    for key, rd in each(R, S):
        name, mx, first = key
        lab = label_of(key)
        obs = [Obligation("signal of the row", cell(rd.cols["signal"], rd.row), const(name)),
               Obligation("stock value of the row", cell(rd.cols["stock_value"], rd.row), rd.price)]
        for nm in COLS:
            R.count("columns")
            if cell(rd.cols[nm], rd.row) is cell(mk("col", "sim", nm), rd.row):
                R.bad(*S.where, "row", "%s: column %s of the row is not written" % (lab, nm),
                      key="%s|%s|row|%s" % (S.where[0], S.where[2], nm))
        if first:
            obs += [Obligation("column %s of the first row" % nm, cell(rd.cols[nm], rd.row),
                               const("none") if nm == "open_trading_action" else ZERO)
                    for nm in COLS if nm not in ("signal", "stock_value")]
        decide_all(R, S.where, lab, obs, first, seed, count)
