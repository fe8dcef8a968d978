"""Documented constructor parameters: type, range, default (data only; read by checks C07 / C08).

int1 / int2: int, >= 1 / >= 2.  RELATIONS hold between parameters that are each in their own range.
"""


def is_int(v):
    return isinstance(v, int)


def is_num(v):
    return isinstance(v, (int, float))


INT1 = ("int", is_int, lambda v, ps: v >= 1)
INT2 = ("int", is_int, lambda v, ps: v >= 2)
BOOL = ("bool", lambda v: isinstance(v, bool), lambda v, ps: True)


def one_of(*xs):
    return ("str", lambda v: isinstance(v, str), lambda v, ps: v in xs)


def period(default, kind=INT1):
    return {"period": (kind, default)}


DOMAINS = {
    "AccumulationDistributionLine": {},
    "AverageTrueRange": {},
    "BollingerBands": {"period": (INT1, 20), "std_number": (("num", is_num, lambda v, ps: v > 0), 2)},
    "ChaikinMoneyFlow": period(5),
    "ChaikinOscillator": {},
    "ChandeMomentumOscillator": period(5),
    "CommodityChannelIndex": period(5),
    "DetrendedPriceOscillator": period(6),
    "DirectionalMovementIndex": {},
    "DoubleExponentialMovingAverage": period(5),
    "EaseOfMovement": period(40),
    "Envelopes": {"period": (INT1, 20),
                  "shift": (("float", lambda v: isinstance(v, float), lambda v, ps: 0.0 < v < 1.0), 0.1)},
    "FibonacciRetracement": {},
    "ForecastOscillator": period(14, INT2),
    "IchimokuCloud": {},
    "IntradayMomentumIndex": period(14),
    "KlingerOscillator": {},
    "LinearRegressionIndicator": period(14, INT2),
    "LinearRegressionSlope": period(14),
    "MarketFacilitationIndex": {},
    "MassIndex": {},
    "MedianPrice": period(20),
    "Momentum": period(12),
    "MovingAverage": {"period": (("int", is_int, lambda v, ps: v >= (2 if ps["ma_type"] == "time_series" else 1)), 20),
                      "ma_type": (one_of("simple", "exponential", "time_series", "triangular", "variable"), "simple")},
    "MovingAverageConvergenceDivergence": {},
    "NegativeVolumeIndex": {},
    "OnBalanceVolume": {},
    "ParabolicSAR": {},
    "Performance": {"mode": (one_of("LONG", "SHORT"), "LONG"),
                    "target": (("num", is_num, lambda v, ps: ps["mode"] not in ("LONG", "SHORT")
                                or (v >= 0 if ps["mode"] == "LONG" else v <= 0)), 0.05)},
    "PositiveVolumeIndex": {},
    "PriceAndVolumeTrend": {},
    "PriceChannel": period(5),
    "PriceOscillator": {"long_ma": (INT1, 30), "short_ma": (INT1, 10)},
    "PriceRateOfChange": period(25),
    "ProjectionBands": period(14, INT2),
    "ProjectionOscillator": period(14, INT2),
    "Qstick": period(8),
    "RangeIndicator": {"range_period": (INT1, 5), "smoothing_period": (INT1, 3)},
    "RelativeMomentumIndex": {"period": (INT1, 8), "momentum_period": (INT1, 4)},
    "RelativeStrengthIndex": period(14),
    "RelativeVolatilityIndex": period(5),
    "StandardDeviation": period(20),
    "StochasticMomentumIndex": {"period": (INT1, 5), "smoothing_period": (INT1, 3), "double_smoothing_period": (INT1, 3)},
    "StochasticOscillator": {"k_periods": (INT1, 14),
                             "k_slowing_periods": (("int", is_int, lambda v, ps: v in (1, 3)), 1),
                             "d_periods": (INT1, 3), "d_method": (one_of("simple", "exponential"), "simple")},
    "SwingIndex": {},
    "TimeSeriesForecast": period(14, INT2),
    "TripleExponentialMovingAverage": period(5),
    "TypicalPrice": period(200),
    "UltimateOscillator": {},
    "VerticalHorizontalFilter": period(5),
    "VolatilityChaikins": {"ema_period": (INT1, 10), "change_period": (INT1, 10)},
    "VolumeOscillator": {"long_period": (INT1, 5), "short_period": (INT1, 2)},
    "VolumeRateOfChange": period(5),
    "WeightedClose": {},
    "WildersSmoothing": period(5),
    "WilliamsAccumulationDistribution": {},
    "WilliamsR": period(5),
}
for _d in DOMAINS.values():
    _d["fill_missing_values"] = (BOOL, True)

SIMULATION = {
    "max_exposure": (("num", lambda v: v is None or is_num(v), lambda v, ps: v is None or v > 0), None),
    "short_exposure_factor": (("num", is_num, lambda v, ps: v >= 1.0), 1.5),
}

RELATIONS = {
    "PriceOscillator": [(("short_ma", "long_ma"), lambda ps: ps["short_ma"] < ps["long_ma"])],
    "VolumeOscillator": [(("short_period", "long_period"), lambda ps: ps["short_period"] < ps["long_period"])],
}
