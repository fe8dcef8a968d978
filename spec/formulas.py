"""Reference formulas of the indicators' values (parsed and analysed, never executed).

One function per indicator: input frame and parameters -> [(column, values), ...].
Written from the indicators' documentation (Achelis, Technical Analysis from A
to Z) and the library's documented conventions: EMA = exponential smoothing
with 2/(n+1), blank until n values; SMA blank until n values; four decimals.
"""
import pandas as pd
import numpy as np
import statsmodels.api as sm
from statsmodels.regression.rolling import RollingOLS


def sma(s, n):
    return s.rolling(window=n, min_periods=n).mean()


def total(s, n):
    return s.rolling(window=n, min_periods=n).sum()


def ema(s, n):
    return s.ewm(span=n, min_periods=n, adjust=False).mean()


def highest(s, n):
    return s.rolling(window=n, min_periods=n).max()


def lowest(s, n):
    return s.rolling(window=n, min_periods=n).min()


def deviation(s, n):
    return s.rolling(window=n, min_periods=n).std(ddof=0)


def blank(inp):
    return pd.Series(index=inp.index, data=None, dtype="float64")


def money_flow_volume(inp):
    return inp["volume"] * ((inp["close"] - inp["low"]) - (inp["high"] - inp["close"])) / (inp["high"] - inp["low"])


def adl(inp):
    return money_flow_volume(inp).cumsum()


def AccumulationDistributionLine(inp):
    return [("adl", np.trunc(adl(inp)))]


def AverageTrueRange(inp):
    prev = inp["close"].shift(1)
    tr = pd.concat([inp["high"] - inp["low"], inp["high"] - prev, prev - inp["low"]], axis=1).max(axis=1)
    seed = pd.Series(data=[tr.iloc[:14].mean()], index=[inp.index[13]])
    atr = pd.concat([seed, tr.iloc[14:]]).ewm(alpha=1 / 14, adjust=False).mean()
    out = pd.DataFrame(index=inp.index, columns=["atr"], data=0, dtype="float64")
    out["atr"] = atr.round(4)
    return [("atr", out["atr"])]


def BollingerBands(inp, period, std_number):
    mid = sma(inp["close"], period).round(4)
    sd = deviation(inp["close"], period)
    return [("middle_band", mid),
            ("upper_band", (mid + std_number * sd).round(4)),
            ("lower_band", (mid - std_number * sd).round(4))]


def ChaikinMoneyFlow(inp, period):
    return [("cmf", (total(money_flow_volume(inp), period) / total(inp["volume"], period)).round(4))]


def ChaikinOscillator(inp):
    a = np.trunc(adl(inp))
    return [("co", (ema(a, 3) - ema(a, 10)).round(4))]


def momentum_sums(s, period):
    up = s.diff()
    up[up < 0.0] = 0.0
    down = s.diff()
    down[down > 0.0] = 0.0
    return total(up, period), total(down, period).abs()


def cmo(s, period):
    up, down = momentum_sums(s, period)
    return (100 * (up - down) / (up + down)).round(4)


def ChandeMomentumOscillator(inp, period):
    return [("cmo", cmo(inp["close"], period))]


def CommodityChannelIndex(inp, period):
    tp = (inp["high"] + inp["low"] + inp["close"]) / 3
    avg = sma(tp, period)
    dev = blank(inp)
    for i in range(period - 1, len(inp.index)):
        dev.iat[i] = sum(abs(avg.iat[i] - tp.iat[i - period + 1 + k]) for k in range(period))
    return [("cci", ((tp - avg) / (0.015 * dev / period)).round(4))]


def DetrendedPriceOscillator(inp, period):
    lead = int(period / 2) + 1
    d = inp["close"] - sma(inp["close"], period).shift(-lead)
    return [("dpo", d.iloc[:-lead].round(4))]


def DirectionalMovementIndex(inp):
    h, l, c = inp["high"], inp["low"], inp["close"]
    up, down = h - h.shift(1), l.shift(1) - l
    n = len(inp.index)
    tr, plus, minus = blank(inp), blank(inp), blank(inp)
    y = c.values[:-1]
    tr.values[1:] = np.max(np.column_stack([(h - l).values[1:], h.values[1:] - y, y - l.values[1:]]), axis=1)
    for i in range(1, n):
        plus.iat[i] = up.iat[i] if up.iat[i] > down.iat[i] and up.iat[i] > 0 else 0
        minus.iat[i] = down.iat[i] if up.iat[i] < down.iat[i] and down.iat[i] > 0 else 0
    tr14, p14, m14 = blank(inp), blank(inp), blank(inp)
    tr14.iat[13] = tr.iloc[:14].sum()
    p14.iat[13] = plus.iloc[:14].sum()
    m14.iat[13] = minus.iloc[:14].sum()
    for i in range(14, n):
        tr14.iat[i] = tr14.iat[i - 1] - tr14.iat[i - 1] / 14 + tr.iat[i]
        p14.iat[i] = p14.iat[i - 1] - p14.iat[i - 1] / 14 + plus.iat[i]
        m14.iat[i] = m14.iat[i - 1] - m14.iat[i - 1] / 14 + minus.iat[i]
    pdi, mdi = blank(inp), blank(inp)
    for i in range(14, n):
        pdi.iat[i] = 100 * p14.iat[i] / tr14.iat[i]
        mdi.iat[i] = 100 * m14.iat[i] / tr14.iat[i]
    dx = 100 * (pdi - mdi).abs() / (pdi + mdi).abs()
    adx = blank(inp)
    adx.iat[27] = dx.iloc[:28].sum() / 14
    for i in range(28, n):
        adx.iat[i] = (13 * adx.iat[i - 1] + dx.iat[i]) / 14
    adxr = blank(inp)
    for i in range(40, n):
        adxr.iat[i] = (adx.iat[i] + adx.iat[i - 13]) / 2
    return [("+di", pdi.round(4)), ("-di", mdi.round(4)), ("dx", dx.round(4)),
            ("adx", adx.round(4)), ("adxr", adxr.round(4))]


def DoubleExponentialMovingAverage(inp, period):
    e = ema(inp["close"], period)
    return [("dema", (2 * e - ema(e, period)).round(4))]


def EaseOfMovement(inp, period):
    mid = (inp["high"] + inp["low"]) / 2
    box = inp["volume"] / (10000 * (inp["high"] - inp["low"]))
    emv = (mid - mid.shift(1)) / box
    return [("emv", emv.round(4)), ("emv_ma", sma(emv, period).round(4))]


def Envelopes(inp, period, shift):
    m = sma(inp["close"], period)
    return [("upper_band", ((1 + shift) * m).round(4)), ("lower_band", ((1 - shift) * m).round(4))]


def FibonacciRetracement(inp):
    top, bottom = inp["close"].max(), inp["close"].min()
    out = []
    for name, share in (("rl_0.0", 0.0), ("rl_23.6", 0.236), ("rl_38.2", 0.382), ("rl_50.0", 0.5),
                        ("rl_61.8", 0.618), ("rl_100.0", 1.0)):
        s = blank(inp)
        s[:] = top - share * (top - bottom)
        out.append((name, s.round(4)))
    return out


def regression(s, inp, period):
    """rolling regression of s on the row number: (intercept, slope), blank where prices are missing"""
    p = RollingOLS(endog=s.fillna(value=0).to_list(), exog=sm.add_constant(list(range(len(inp.index)))),
                   window=period).fit(params_only=True).params
    return p[:, 0], p[:, 1]


def lri(inp, period):
    a, b = regression(inp["close"], inp, period)
    out = blank(inp)
    for i in range(len(inp.index)):
        out.iat[i] = round(a[i] + i * b[i], 4)
    out.loc[total(inp["close"], period).isna()] = None
    return out


def LinearRegressionIndicator(inp, period):
    return [("lri", lri(inp, period))]


def lrs(inp, period):
    x = pd.Series(index=inp.index, data=range(1, len(inp.index) + 1))
    y = inp["close"]
    return ((period * total(x * y, period) - total(x, period) * total(y, period))
            / (period * total(x * x, period) - total(x, period) * total(x, period))).round(4)


def LinearRegressionSlope(inp, period):
    return [("lrs", lrs(inp, period))]


def tsf(inp, period):
    out = blank(inp)
    s = lrs(inp, period) + lri(inp, period)
    out.iloc[period - 1:] = s.iloc[period - 1:]
    return out.round(4)


def TimeSeriesForecast(inp, period):
    return [("tsf", tsf(inp, period))]


def ForecastOscillator(inp, period):
    return [("fosc", (100 * (inp["close"] - tsf(inp, period).shift(1)) / inp["close"]).round(4))]


def IchimokuCloud(inp):
    def mid(n):
        return (inp["high"].rolling(window=n, min_periods=1).max() + inp["low"].rolling(window=n, min_periods=1).min()) / 2
    tenkan, kijun = mid(9), mid(26)
    return [("tenkan_sen", tenkan.round(4)), ("kijun_sen", kijun.round(4)),
            ("senkou_a", ((tenkan + kijun) / 2).shift(26).round(4)), ("senkou_b", mid(52).shift(26).round(4))]


def IntradayMomentumIndex(inp, period):
    up = inp["close"] - inp["open"]
    up[up < 0.0] = 0.0
    down = inp["open"] - inp["close"]
    down[down < 0.0] = 0.0
    return [("imi", (100 * total(up, period) / (total(up, period) + total(down, period))).round(4))]


def KlingerOscillator(inp):
    hlc = inp["high"] + inp["low"] + inp["close"]
    trend = hlc - hlc.shift(1)
    trend[trend > 0.0] = 1.0
    trend[trend <= 0.0] = -1.0
    dm = inp["high"] - inp["low"]
    cm = [0.0]
    for i in range(1, len(inp)):
        if trend.iloc[i] == trend.iloc[i - 1]:
            cm.append(cm[i - 1] + dm.iloc[i])
        else:
            cm.append(dm.iloc[i - 1] + dm.iloc[i])
    force = inp["volume"] * abs(2 * (dm / cm) - 1) * trend * 100
    return [("ko", (ema(force, 34) - ema(force, 55)).round(4))]


def MarketFacilitationIndex(inp):
    return [("mfi", ((inp["high"] - inp["low"]) / inp["volume"]).round(10))]


def MassIndex(inp):
    e = ema(inp["high"] - inp["low"], 9)
    return [("mi", total(e / ema(e, 9), 25).round(4))]


def MedianPrice(inp):
    return [("mp", ((inp["high"] + inp["low"]) / 2).round(4))]


def Momentum(inp, period):
    out = blank(inp)
    out.iloc[period:] = (100 * inp["close"] / inp["close"].shift(period)).iloc[period:]
    return [("mom", out.round(4))]


def MovingAverage(inp, period, ma_type):
    c = inp["close"]
    if ma_type == "simple":
        s = sma(c, period)
    elif ma_type == "exponential":
        s = ema(c, period)
    elif ma_type == "time_series":
        s = tsf(inp, period)
    elif ma_type == "triangular":
        s = sma(sma(c, period), period)
    else:
        vr = (cmo(c, 9) / 100).abs()
        k = 2 / (period + 1)
        s = blank(inp)
        s.iat[21] = c.iat[21]
        for i in range(22, len(inp.index)):
            s.iat[i] = k * vr.iat[i] * c.iat[i] + (1 - k * vr.iat[i]) * s.iat[i - 1]
    return [("ma-" + ma_type, s.round(4))]


def MovingAverageConvergenceDivergence(inp):
    macd = ema(inp["close"], 12).round(4) - ema(inp["close"], 26).round(4)
    return [("macd", macd.round(4)), ("signal_line", ema(macd, 9).round(4))]


def NegativeVolumeIndex(inp):
    c, v = inp["close"], inp["volume"]
    out = blank(inp)
    out.iat[0] = 1000.0
    for i in range(1, len(inp.index)):
        if v.iat[i] < v.iat[i - 1]:
            out.iat[i] = out.iat[i - 1] + (c.iat[i] - c.iat[i - 1]) * (out.iat[i - 1] / c.iat[i - 1])
        else:
            out.iat[i] = out.iat[i - 1]
    return [("nvi", out.round(4))]


def PositiveVolumeIndex(inp):
    c, v = inp["close"], inp["volume"]
    out = blank(inp)
    out.iat[0] = 1000.0
    for i in range(1, len(inp.index)):
        if v.iat[i] > v.iat[i - 1]:
            out.iat[i] = out.iat[i - 1] + (c.iat[i] - c.iat[i - 1]) * (out.iat[i - 1] / c.iat[i - 1])
        else:
            out.iat[i] = out.iat[i - 1]
    return [("pvi", out.round(4))]


def OnBalanceVolume(inp):
    obv = pd.DataFrame(index=inp.index, columns=["obv"], data=0, dtype="int64")
    obv.loc[inp["close"] > inp["close"].shift(1), "obv"] = inp["volume"]
    obv.loc[inp["close"] < inp["close"].shift(1), "obv"] = -inp["volume"]
    return [("obv", obv["obv"].cumsum())]


def ParabolicSAR(inp):
    step, top = 0.02, 0.2
    high, low = inp["high"].values, inp["low"].values
    state = pd.DataFrame(index=inp.index, columns=["af", "ep", "sar", "position"], data=None)
    start = 0
    for i in range(len(inp.index)):
        state.values[i, :], start = sar_day(high, low, i, start, state.values[i - 1, :], step, top)
    return [("sar", state["sar"].astype(dtype="float64").round(4))]


def sar_day(high, low, i, start, last, step, top):
    """(acceleration, extreme point, SAR, position) of a day and the first row of its position"""
    if i == 0:
        if high[1] > high[0]:
            return [step, high[0], low[0], "LONG"], 0
        return [step, low[0], high[0], "SHORT"], 0
    was_long, was_short = last[3] == "LONG", last[3] == "SHORT"
    sar = last[2] + last[0] * (last[1] - last[2])
    if was_long:
        sar = min(sar, low[max(0, i - 2):i].min())
    else:
        sar = max(sar, high[max(0, i - 2):i].max())
    if (was_short and high[i] > sar) or (was_long and low[i] < sar):
        if was_long:
            return [step, low[i], high[start:i].max(), "SHORT"], i
        return [step, high[i], low[start:i].min(), "LONG"], i
    if was_long:
        ep = high[start:i + 1].max()
    else:
        ep = low[start:i + 1].min()
    af = last[0]
    if (was_long and ep > last[1]) or (was_short and ep < last[1]):
        af = min(top, af + step)
    return [af, ep, sar, last[3]], start


def Performance(inp, mode, target):
    c = inp["close"]
    t = blank(inp)
    t[:] = target
    return [("prf", ((c - c.iat[0]) / c.iat[0]).round(4)), ("target_" + mode, t.round(4))]


def PriceAndVolumeTrend(inp):
    c, v = inp["close"], inp["volume"]
    out = blank(inp)
    out.iat[0] = 0.0
    for i in range(1, len(inp.index)):
        out.iat[i] = out.iat[i - 1] + v.iat[i] * (c.iat[i] - c.iat[i - 1]) / c.iat[i - 1]
    return [("pvt", out.round(4))]


def PriceChannel(inp, period):
    return [("highest_high", highest(inp["high"], period).shift(1).round(4)),
            ("lowest_low", lowest(inp["low"], period).shift(1).round(4))]


def PriceOscillator(inp, long_ma, short_ma):
    slow, fast = sma(inp["close"], long_ma), sma(inp["close"], short_ma)
    return [("posc", (100 * (fast - slow) / slow).round(4))]


def PriceRateOfChange(inp, period):
    old = inp["close"].shift(period)
    return [("prc", (100 * (inp["close"] - old) / old).round(4))]


def bands(inp, period):
    hs, ls = regression(inp["high"], inp, period)[1], regression(inp["low"], inp, period)[1]
    h, l = inp["high"].values, inp["low"].values
    up, dn = blank(inp), blank(inp)
    for i in range(period - 1, len(inp.index)):
        up.iat[i] = max([h[i]] + [h[i - j] + j * hs[i] for j in range(1, period)])
        dn.iat[i] = min([l[i]] + [l[i - j] + j * ls[i] for j in range(1, period)])
    up.loc[total(inp["high"], period).isna()] = None
    dn.loc[total(inp["low"], period).isna()] = None
    return up.round(4), dn.round(4)


def ProjectionBands(inp, period):
    up, dn = bands(inp, period)
    return [("upper_band", up), ("lower_band", dn)]


def ProjectionOscillator(inp, period):
    up, dn = bands(inp, period)
    p = 100 * (inp["close"] - dn) / (up - dn)
    return [("posc", p.round(4)), ("trigger_line", ema(p, 3).round(4))]


def Qstick(inp, period):
    return [("qstick", sma(inp["close"] - inp["open"], period).round(4))]


def RangeIndicator(inp, range_period, smoothing_period):
    c = inp["close"]
    tr = pd.concat([inp["high"] - inp["low"], inp["high"] - c.shift(1), c.shift(1) - inp["low"]],
                   axis=1).max(axis=1, skipna=False)
    v = blank(inp)
    for i in range(1, len(inp.index)):
        v.iat[i] = tr.iat[i] / (c.iat[i] - c.iat[i - 1]) if c.iat[i] > c.iat[i - 1] else tr.iat[i]
    lo, hi = lowest(v, range_period), highest(v, range_period)
    width = hi - lo
    r = width.mask(width > 0, 100 * (v - lo) / width)
    r = r.mask(r <= 0, 100 * (v - lo))
    return [("ri", ema(r, smoothing_period).round(4))]


def RelativeMomentumIndex(inp, period, momentum_period):
    d = inp["close"] - inp["close"].shift(momentum_period)
    first = momentum_period + period
    up, dn = blank(inp), blank(inp)
    up[d > 0] = d
    up[d <= 0] = 0
    dn[d < 0] = d.abs()
    dn[d >= 0] = 0
    su, sd = blank(inp), blank(inp)
    su.iat[first - 1] = up.iloc[momentum_period:first].mean()
    sd.iat[first - 1] = dn.iloc[momentum_period:first].mean()
    for i in range(first, len(inp.index)):
        su.iat[i] = su.iat[i - 1] + (up.iat[i] - su.iat[i - 1]) / period
        sd.iat[i] = sd.iat[i - 1] + (dn.iat[i] - sd.iat[i - 1]) / period
    rm = su / sd
    return [("rmi", (100 * rm / (1 + rm)).round(4))]


def RelativeStrengthIndex(inp, period):
    c = inp["close"]
    up, dn, su, sd = blank(inp), blank(inp), blank(inp), blank(inp)
    for i in range(1, len(inp.index)):
        up.iat[i] = round(c.iat[i] - c.iat[i - 1] if c.iat[i] > c.iat[i - 1] else 0.0, 4)
        dn.iat[i] = round(c.iat[i - 1] - c.iat[i] if c.iat[i] < c.iat[i - 1] else 0.0, 4)
    su.iat[period] = up.iloc[:period + 1].mean()
    sd.iat[period] = dn.iloc[:period + 1].mean()
    for i in range(period + 1, len(inp.index)):
        su.iat[i] = round(su.iat[i - 1] + (up.iat[i] - su.iat[i - 1]) / period, 4)
        sd.iat[i] = round(sd.iat[i - 1] + (dn.iat[i] - sd.iat[i - 1]) / period, 4)
    return [("rsi", (100 - 100 / (su / sd + 1)).round(4))]


def smoothed(s, inp, period):
    out = blank(inp)
    out.iat[9 + period - 1] = s.iloc[9:9 + period].mean()
    for i in range(9 + period, len(inp.index)):
        out.iat[i] = out.iat[i - 1] + (s.iat[i] - out.iat[i - 1]) / period
    return out


def one_sided(s, inp, period):
    d = s - s.shift(1)
    up, dn = blank(inp), blank(inp)
    up[:] = 0.0
    dn[:] = 0.0
    up[d > 0] = deviation(s, 10)
    dn[d < 0] = deviation(s, 10)
    up, dn = smoothed(up, inp, period), smoothed(dn, inp, period)
    return 100 * up / (up + dn)


def RelativeVolatilityIndex(inp, period):
    return [("rvi", ((one_sided(inp["high"], inp, period) + one_sided(inp["low"], inp, period)) / 2).round(4))]


def StandardDeviation(inp, period):
    return [("sd", deviation(inp["close"], period).round(4))]


def StochasticMomentumIndex(inp, period, smoothing_period, double_smoothing_period):
    hh, ll = highest(inp["high"], period), lowest(inp["low"], period)
    d = ema(ema(inp["close"] - (hh + ll) / 2, smoothing_period), double_smoothing_period)
    r = ema(ema(hh - ll, smoothing_period), double_smoothing_period)
    return [("smi", (100 * d / (0.5 * r)).round(4))]


def StochasticOscillator(inp, k_periods, k_slowing_periods, d_periods, d_method):
    ll, hh = lowest(inp["low"], k_periods), highest(inp["high"], k_periods)
    k = (100 * total(inp["close"] - ll, k_slowing_periods) / total(hh - ll, k_slowing_periods)).round(4)
    d = k.rolling(window=d_periods, min_periods=d_periods, win_type=(None if d_method == "simple" else d_method)).mean()
    return [("%K", k), ("%D", d.round(4))]


def SwingIndex(inp):
    yc, yo = inp["close"].shift(1), inp["open"].shift(1)
    h, l, c, o = inp["high"], inp["low"], inp["close"], inp["open"]
    k = pd.concat([(h - yc).abs(), (l - yc).abs()], axis=1).max(axis=1)
    r = pd.concat([(h - yc).abs(), (l - yc).abs(), h - l], axis=1).max(axis=1) + 0.25 * (yc - yo).abs()
    s = 50 * (((c - yc) + 0.5 * (c - o) + 0.25 * (yc - yo)) / r) * (k / 3)
    s[s > 100.0] = 100.0
    s[s < -100.0] = -100.0
    return [("swi", s.round(4))]


def TripleExponentialMovingAverage(inp, period):
    e = ema(inp["close"], period)
    e2 = ema(e, period)
    return [("tema", (3 * e - 3 * e2 + ema(e2, period)).round(4))]


def TypicalPrice(inp):
    return [("tp", inp[["high", "low", "close"]].mean(axis=1).round(4))]


def UltimateOscillator(inp):
    yc = inp["close"].shift(1)
    high = pd.concat([inp["high"], yc], axis=1).max(axis=1, skipna=False)
    low = pd.concat([inp["low"], yc], axis=1).min(axis=1, skipna=False)
    bp, tr = inp["close"] - low, high - low

    def part(n):
        return total(bp, n) / total(tr, n)
    return [("uosc", (100 * (4 * part(7) + 2 * part(14) + part(28)) / 7).round(4))]


def VerticalHorizontalFilter(inp, period):
    c = inp["close"]
    return [("vhf", ((highest(c, period) - lowest(c, period)).abs()
                     / total((c - c.shift(1)).abs(), period)).round(4))]


def VolatilityChaikins(inp, ema_period, change_period):
    e = ema(inp["high"] - inp["low"], ema_period)
    return [("vch", (100 * (e - e.shift(change_period)) / e.shift(change_period)).round(4))]


def VolumeOscillator(inp, long_period, short_period):
    return [("vosc", (sma(inp["volume"], short_period) - sma(inp["volume"], long_period)).round(4))]


def VolumeRateOfChange(inp, period):
    old = inp["volume"].shift(period)
    return [("vrc", (100 * (inp["volume"] - old) / old).round(4))]


def WeightedClose(inp):
    return [("wc", ((2 * inp["close"] + inp["high"] + inp["low"]) / 4).round(4))]


def WildersSmoothing(inp, period):
    out = blank(inp)
    out.iat[period - 1] = inp["close"].iloc[:period].mean()
    for i in range(period, len(inp.index)):
        out.iat[i] = out.iat[i - 1] + (inp["close"].iat[i] - out.iat[i - 1]) / period
    return [("ws", out.round(4))]


def WilliamsAccumulationDistribution(inp):
    c = inp["close"]
    trh = pd.concat([c.shift(1), inp["high"]], axis=1).max(axis=1, skipna=False)
    trl = pd.concat([c.shift(1), inp["low"]], axis=1).min(axis=1, skipna=False)
    d = c - c.shift(1)
    w = d
    w = w.mask(d > 0, c - trl)
    w = w.mask(d < 0, c - trh)
    return [("wad", w.round(4))]


def WilliamsR(inp, period):
    hh, ll = highest(inp["high"], period), lowest(inp["low"], period)
    return [("wr", (-100 * (hh - inp["close"]) / (hh - ll)).round(4))]
