"""Reference trading rules, one function per indicator (parsed, never executed).

Arguments: `inp` the input rows up to the day asked for (required columns, date
order), `ti` the indicator's values for the same days, then the constructor
parameters the rule depends on.  "Crossing" is strict on both sides.
"""
import numpy as np

BUY = ("buy", -1)
HOLD = ("hold", 0)
SELL = ("sell", 1)


def zero_cross(s, level, up, down):
    if len(s) < 2:
        return HOLD
    if s.iat[-2] < level and s.iat[-1] > level:
        return up
    if s.iat[-2] > level and s.iat[-1] < level:
        return down
    return HOLD


def bands_cross(s, high, low):
    """sell when rising through `high`, buy when falling through `low`"""
    if len(s) < 2:
        return HOLD
    if s.iat[-2] < high and s.iat[-1] > high:
        return SELL
    if s.iat[-2] > low and s.iat[-1] < low:
        return BUY
    return HOLD


def line_cross(price, line, up, down):
    """price crossing the line upwards / downwards"""
    if len(line) < 2:
        return HOLD
    if price.iat[-2] < line.iat[-2] and price.iat[-1] > line.iat[-1]:
        return up
    if price.iat[-2] > line.iat[-2] and price.iat[-1] < line.iat[-1]:
        return down
    return HOLD


def outside(price, upper, lower):
    if len(upper) < 1:
        return HOLD
    if price.iat[-1] > upper.iat[-1]:
        return SELL
    if price.iat[-1] < lower.iat[-1]:
        return BUY
    return HOLD


def three_rows(s, rising, falling):
    if len(s) < 3:
        return HOLD
    if s.iat[-3] < s.iat[-2] and s.iat[-2] < s.iat[-1]:
        return rising
    if s.iat[-3] > s.iat[-2] and s.iat[-2] > s.iat[-1]:
        return falling
    return HOLD


def AccumulationDistributionLine(inp, ti):
    if len(ti) < 2:
        return HOLD
    close = inp["close"]
    moved = close.iat[-1] > close.iat[-2] or close.iat[-1] < close.iat[-2]
    if ti["adl"].iat[-1] > 0 and moved:
        return BUY
    if ti["adl"].iat[-1] < 0 and moved:
        return SELL
    return HOLD


def AverageTrueRange(inp, ti):
    if len(ti) < 10:
        return HOLD
    close = inp["close"]
    last = close.iat[-1]
    sma_05 = close.rolling(window=5, min_periods=5).mean().iat[-1]
    sma_10 = close.rolling(window=10, min_periods=5).mean().iat[-1]
    if ti["atr"].iat[-1] > 0.01 * last:
        if last > sma_05:
            return BUY if last > sma_10 else SELL
        if last < sma_05:
            return BUY
    return HOLD


def BollingerBands(inp, ti):
    return outside(inp["close"], ti["upper_band"], ti["lower_band"])


def ChaikinMoneyFlow(inp, ti):
    if len(ti) < 3:
        return HOLD
    c, f = inp["close"], ti["cmf"]
    if c.iat[-1] > c.iat[-2] and c.iat[-1] > c.iat[-3] and f.iat[-1] < f.iat[-2]:
        return SELL
    if c.iat[-1] < c.iat[-2] and c.iat[-1] < c.iat[-3] and f.iat[-1] > f.iat[-2]:
        return BUY
    return HOLD


def ChaikinOscillator(inp, ti):
    if len(ti) < 90:
        return HOLD
    c, o = inp["close"], ti["co"]
    average = c.iloc[-90:].mean()
    if c.iat[-1] > average and o.iat[-2] < o.iat[-1] and o.iat[-1] < 0:
        return BUY
    if c.iat[-1] < average and o.iat[-2] > o.iat[-1] and o.iat[-1] > 0:
        return SELL
    return HOLD


def ChandeMomentumOscillator(inp, ti):
    return bands_cross(ti["cmo"], 50, -50)


def CommodityChannelIndex(inp, ti):
    if len(ti) < 1:
        return HOLD
    if ti["cci"].iat[-1] < -100:
        return BUY
    if ti["cci"].iat[-1] > 100:
        return SELL
    return HOLD


def DetrendedPriceOscillator(inp, ti):
    return zero_cross(ti["dpo"], 0, BUY, SELL)


def DirectionalMovementIndex(inp, ti):
    if len(ti) < 2:
        return HOLD
    p, m, strength = ti["+di"], ti["-di"], ti["adxr"]
    if p.iat[-2] > m.iat[-2] and p.iat[-1] < m.iat[-1] and strength.iat[-1] >= 20:
        return SELL
    if p.iat[-2] < m.iat[-2] and p.iat[-1] > m.iat[-1] and strength.iat[-1] >= 20:
        return BUY
    return HOLD


def DoubleExponentialMovingAverage(inp, ti):
    if len(ti) < 1:
        return HOLD
    return BUY if inp["close"].iat[-1] < ti["dema"].iat[-1] else HOLD


def EaseOfMovement(inp, ti):
    return zero_cross(ti["emv_ma"], 0, BUY, SELL)


def Envelopes(inp, ti):
    return outside(inp["close"], ti["upper_band"], ti["lower_band"])


def FibonacciRetracement(inp, ti):
    if len(ti) < 2:
        return HOLD
    c = inp["close"]
    for level in ["rl_61.8", "rl_50.0", "rl_38.2", "rl_23.6"]:
        if c.iat[-2] > ti[level].iat[-2] and c.iat[-1] < ti[level].iat[-1]:
            return BUY
    for level in ["rl_61.8", "rl_50.0", "rl_38.2", "rl_23.6"]:
        if c.iat[-2] < ti[level].iat[-2] and c.iat[-1] > ti[level].iat[-1]:
            return SELL
    return HOLD


def ForecastOscillator(inp, ti):
    return zero_cross(ti["fosc"], 0, SELL, BUY)


def IchimokuCloud(inp, ti):
    if len(ti) < 2:
        return HOLD
    a, b = ti["senkou_a"].iat[-1], ti["senkou_b"].iat[-1]
    t, k, c = ti["tenkan_sen"], ti["kijun_sen"], inp["close"].iat[-1]
    tl, kl = t.iat[-1], k.iat[-1]
    if (t.iat[-2] < k.iat[-2] and tl > kl
            and c > a and c > b and tl > a and tl > b and kl > a and kl > b):
        return BUY
    if (t.iat[-2] > k.iat[-2] and tl < kl
            and c < a and c < b and tl < a and tl < b and kl < a and kl < b):
        return SELL
    return HOLD


def IntradayMomentumIndex(inp, ti):
    return bands_cross(ti["imi"], 70, 30)


def KlingerOscillator(inp, ti):
    return zero_cross(ti["ko"], 0, SELL, BUY)


def LinearRegressionIndicator(inp, ti):
    return line_cross(inp["close"], ti["lri"], SELL, BUY)


def LinearRegressionSlope(inp, ti):
    return zero_cross(ti["lrs"], 0, SELL, BUY)


def MarketFacilitationIndex(inp, ti):
    if len(ti) < 2:
        return HOLD
    if ti["mfi"].iat[-1] < ti["mfi"].iat[-2]:
        return BUY
    if ti["mfi"].iat[-1] > ti["mfi"].iat[-2]:
        return SELL
    return HOLD


def MassIndex(inp, ti):
    if len(ti) < 2:
        return HOLD
    ema = inp["close"].ewm(span=9, min_periods=9, adjust=False).mean()
    bulge = False
    if ti["mi"].iat[-1] < 26.5:
        for i in range(-2, -len(ti) - 1, -1):
            if ti["mi"].iat[i] < 26.5:
                break
            elif ti["mi"].iat[i] > 27:
                bulge = True
                break
    if bulge:
        if ema.iat[-2] < ema.iat[-1]:
            return SELL
        if ema.iat[-2] > ema.iat[-1]:
            return BUY
    return HOLD


def MedianPrice(inp, ti, period):
    if len(ti) < period or len(ti) < 2:
        return HOLD
    ema = inp["close"].ewm(span=period, min_periods=period, adjust=False).mean()
    return line_cross(ema, ti["mp"], BUY, SELL)


def Momentum(inp, ti):
    if len(ti) < 9:
        return HOLD
    average = ti["mom"].ewm(span=9, min_periods=9, adjust=False).mean()
    return line_cross(ti["mom"], average, SELL, BUY)


def MovingAverage(inp, ti, ma_type):
    if len(ti) < 1:
        return HOLD
    return BUY if inp["close"].iat[-1] > ti["ma-" + ma_type].iat[-1] else HOLD


def MovingAverageConvergenceDivergence(inp, ti):
    if len(ti) < 2:
        return HOLD
    m, s = ti["macd"], ti["signal_line"]
    if m.iat[-2] < 0 and m.iat[-1] > 0:
        return BUY
    if m.iat[-2] > 0 and m.iat[-1] < 0:
        return SELL
    return line_cross(m, s, BUY, SELL)


def NegativeVolumeIndex(inp, ti):
    if len(ti) < 255:
        return HOLD
    average = ti["nvi"].ewm(span=255, min_periods=255, adjust=False).mean()
    return BUY if ti["nvi"].iat[-1] > average.iat[-1] else HOLD


def OnBalanceVolume(inp, ti):
    return three_rows(ti["obv"], SELL, BUY)


def ParabolicSAR(inp, ti):
    return line_cross(inp["close"], ti["sar"], BUY, SELL)


def Performance(inp, ti, mode, target):
    if len(ti) < 1:
        return HOLD
    if mode == "LONG" and ti["prf"].iat[-1] >= target:
        return SELL
    if mode == "SHORT" and ti["prf"].iat[-1] <= target:
        return BUY
    return HOLD


def PositiveVolumeIndex(inp, ti):
    if len(ti) < 255:
        return HOLD
    average = ti["pvi"].ewm(span=255, min_periods=255, adjust=False).mean()
    return line_cross(ti["pvi"], average, BUY, SELL)


def PriceAndVolumeTrend(inp, ti):
    return three_rows(ti["pvt"], SELL, BUY)


def PriceChannel(inp, ti):
    return outside(inp["close"], ti["highest_high"], ti["lowest_low"])


def PriceOscillator(inp, ti):
    return zero_cross(ti["posc"], 0, BUY, SELL)


def PriceRateOfChange(inp, ti):
    return three_rows(ti["prc"], SELL, BUY)


def ProjectionBands(inp, ti):
    if len(ti) < 1:
        return HOLD
    c, u, l = inp["close"].iat[-1], ti["upper_band"].iat[-1], ti["lower_band"].iat[-1]
    if u - c < 0.15 * (u - l):
        return SELL
    if c - l < 0.15 * (u - l):
        return BUY
    return HOLD


def ProjectionOscillator(inp, ti):
    if len(ti) < 4:
        return HOLD
    p, t = ti["posc"], ti["trigger_line"]
    if p.iat[-2] < 15 and p.iat[-1] > 15:
        return BUY
    if p.iat[-2] > 85 and p.iat[-1] < 85:
        return SELL
    if (p.iat[-4] < t.iat[-4] and p.iat[-3] < t.iat[-3]
            and p.iat[-2] > t.iat[-2] and p.iat[-1] > t.iat[-1]):
        return BUY
    if (p.iat[-4] > t.iat[-4] and p.iat[-3] > t.iat[-3]
            and p.iat[-2] < t.iat[-2] and p.iat[-1] < t.iat[-1]):
        return SELL
    return HOLD


def Qstick(inp, ti):
    if len(ti) < 4:
        return HOLD
    q = ti["qstick"]
    if q.iat[-4] < q.iat[-3] and q.iat[-3] < 0 and q.iat[-2] > 0 and q.iat[-1] > q.iat[-2]:
        return BUY
    if q.iat[-4] > q.iat[-3] and q.iat[-3] > 0 and q.iat[-2] < 0 and q.iat[-1] < q.iat[-2]:
        return SELL
    return HOLD


def RangeIndicator(inp, ti):
    if len(ti) < 2:
        return HOLD
    r, c = ti["ri"], inp["close"]
    if r.iat[-2] < 20 and r.iat[-1] > 20:
        return BUY if c.iat[-2] < c.iat[-1] else SELL
    if r.iat[-2] < 70 and r.iat[-1] > 70:
        start = c[r < 20]
        if len(start) == 0:
            return HOLD
        return SELL if start.iat[-1] < c.iat[-1] else BUY
    return HOLD


def RelativeMomentumIndex(inp, ti):
    return bands_cross(ti["rmi"], 70, 30)


def RelativeStrengthIndex(inp, ti):
    return bands_cross(ti["rsi"], 70, 30)


def RelativeVolatilityIndex(inp, ti):
    return bands_cross(ti["rvi"], 60, 40)


def StandardDeviation(inp, ti, period):
    if len(ti) < 1:
        return HOLD
    c = inp["close"]
    average = c.rolling(window=period, min_periods=period).mean().round(4).iat[-1]
    if ti["sd"].iat[-1] > 2 and c.iat[-1] > average:
        return SELL
    if ti["sd"].iat[-1] > 2 and c.iat[-1] < average:
        return BUY
    return HOLD


def StochasticMomentumIndex(inp, ti):
    return bands_cross(ti["smi"], 40, -40)


def StochasticOscillator(inp, ti):
    if len(ti) < 2:
        return HOLD
    k, d = ti["%K"], ti["%D"]
    if (k.iat[-2] > 80 and k.iat[-1] < 80) or (d.iat[-2] > 80 and d.iat[-1] < 80):
        return SELL
    if (k.iat[-2] < 20 and k.iat[-1] > 20) or (d.iat[-2] < 20 and d.iat[-1] > 20):
        return BUY
    if k.iat[-1] < k.iat[-2] and k.iat[-1] < d.iat[-1] and k.iat[-1] > 80:
        return SELL
    if k.iat[-1] > k.iat[-2] and k.iat[-1] > d.iat[-1] and k.iat[-1] < 20:
        return BUY
    return HOLD


def SwingIndex(inp, ti):
    return zero_cross(ti["swi"], 0, SELL, BUY)


def TimeSeriesForecast(inp, ti):
    return line_cross(inp["close"], ti["tsf"], SELL, BUY)


def TripleExponentialMovingAverage(inp, ti):
    if len(ti) < 1:
        return HOLD
    if inp["close"].iat[-1] < ti["tema"].iat[-1]:
        return BUY
    if inp["close"].iat[-1] > ti["tema"].iat[-1]:
        return SELL
    return HOLD


def TypicalPrice(inp, ti, period):
    if len(ti) < 1 or len(inp) < period:
        return HOLD
    average = inp["close"].rolling(window=period, min_periods=period).mean()
    return BUY if ti["tp"].iat[-1] > average.iat[-1] else HOLD


def UltimateOscillator(inp, ti):
    if len(ti) < 30:
        return HOLD
    c, u = inp["close"].iloc[-30:], ti["uosc"].iloc[-30:]
    if c.argmin() != u.argmin() and u.min() < 30 and ti["uosc"].iloc[-30:-1].max() < u.iat[-1]:
        return BUY
    return HOLD


def VerticalHorizontalFilter(inp, ti):
    if len(ti) < 3:
        return HOLD
    v, c = ti["vhf"], inp["close"]
    if v.iat[-3] < v.iat[-2] and v.iat[-2] < v.iat[-1]:
        if len(inp) < 5:
            return HOLD
        ema = c.ewm(span=5, min_periods=5, adjust=False).mean()
        dema = (2 * ema - ema.ewm(span=5, min_periods=5, adjust=False).mean()).round(4)
        return BUY if c.iat[-1] < dema.iat[-1] else HOLD
    if v.iat[-3] > v.iat[-2] and v.iat[-2] > v.iat[-1]:
        if len(inp) < 12:
            return HOLD
        mom = (100 * c / c.shift(12)).round(4)
        average = mom.ewm(span=9, min_periods=9, adjust=False).mean()
        return line_cross(mom, average, SELL, BUY)
    return HOLD


def VolatilityChaikins(inp, ti):
    return three_rows(ti["vch"], BUY, SELL)


def VolumeOscillator(inp, ti):
    if len(ti) < 3:
        return HOLD
    v = ti["vosc"]
    if v.iat[-3] > 0 and v.iat[-2] > v.iat[-3] and v.iat[-1] > v.iat[-2]:
        return BUY
    if v.iat[-3] > v.iat[-2] and v.iat[-2] > v.iat[-1] and v.iat[-1] > 0:
        return SELL
    return HOLD


def VolumeRateOfChange(inp, ti):
    return three_rows(ti["vrc"], SELL, BUY)


def WeightedClose(inp, ti):
    return line_cross(inp["close"], ti["wc"], SELL, BUY)


def WildersSmoothing(inp, ti):
    return line_cross(inp["close"], ti["ws"], SELL, BUY)


def WilliamsAccumulationDistribution(inp, ti):
    if len(inp) < 30:
        return HOLD
    c, w = inp["close"], ti["wad"]
    if c.iat[-1] == c.iloc[-30:].min() and w.iat[-1] != w.iloc[-30:].min():
        return BUY
    if c.iat[-1] == c.iloc[-30:].max() and w.iat[-1] != w.iloc[-30:].max():
        return SELL
    return HOLD


def WilliamsR(inp, ti):
    if len(ti) < 2:
        return HOLD
    w = ti["wr"]
    low = np.where(w.iloc[:-1] <= -80)[0]
    high = np.where(w.iloc[:-1] >= -20)[0]
    oversold = low[-1] if len(low) > 0 else -1
    overbought = high[-1] if len(high) > 0 else -1
    if oversold > overbought and w.iat[-2] < -50 and w.iat[-1] > -50:
        return BUY
    if oversold < overbought and w.iat[-2] > -50 and w.iat[-1] < -50:
        return SELL
    return HOLD
