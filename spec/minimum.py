"""Documented minimum number of input rows (data only; evaluated by the analyser). 0: no minimum."""


def AverageTrueRange():
    return 14


def BollingerBands(period):
    return period


def ChaikinMoneyFlow(period):
    return period


def ChaikinOscillator():
    return 10


def ChandeMomentumOscillator(period):
    return period


def CommodityChannelIndex(period):
    return period


def DetrendedPriceOscillator(period):
    return period


def DirectionalMovementIndex():
    return 28


def DoubleExponentialMovingAverage(period):
    return period


def EaseOfMovement(period):
    return max(period, 2)


def Envelopes(period):
    return period


def ForecastOscillator(period):
    return period


def IntradayMomentumIndex(period):
    return period


def KlingerOscillator():
    return 55


def LinearRegressionIndicator(period):
    return period


def LinearRegressionSlope(period):
    return period


def MassIndex():
    return 25


def Momentum(period):
    return period


def MovingAverage(period, ma_type):
    return 22 if ma_type == "variable" else period


def MovingAverageConvergenceDivergence():
    return 26


def NegativeVolumeIndex():
    return 2


def ParabolicSAR():
    return 2


def PositiveVolumeIndex():
    return 2


def PriceAndVolumeTrend():
    return 2


def PriceChannel(period):
    return period


def PriceOscillator(long_ma):
    return long_ma


def PriceRateOfChange(period):
    return period


def ProjectionBands(period):
    return period


def ProjectionOscillator(period):
    return period


def Qstick(period):
    return period


def RangeIndicator(range_period, smoothing_period):
    return max(range_period, smoothing_period)


def RelativeMomentumIndex(period, momentum_period):
    return period + momentum_period


def RelativeStrengthIndex(period):
    return period + 1


def RelativeVolatilityIndex(period):
    return period + 10


def StandardDeviation(period):
    return period


def StochasticMomentumIndex(period):
    return period


def StochasticOscillator(k_periods):
    return k_periods


def TimeSeriesForecast(period):
    return period


def TripleExponentialMovingAverage(period):
    return period


def UltimateOscillator():
    return 28


def VerticalHorizontalFilter(period):
    return period


def VolatilityChaikins(ema_period, change_period):
    return max(ema_period, change_period)


def VolumeOscillator(long_period):
    return long_period


def VolumeRateOfChange(period):
    return period


def WildersSmoothing(period):
    return period


def WilliamsR(period):
    return period


NO_MINIMUM = ("AccumulationDistributionLine", "FibonacciRetracement", "IchimokuCloud", "MarketFacilitationIndex",
              "MedianPrice", "OnBalanceVolume", "Performance", "SwingIndex", "TypicalPrice", "WeightedClose",
              "WilliamsAccumulationDistribution")
