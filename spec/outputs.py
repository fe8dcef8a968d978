"""Documented output columns, in order, and their rounding (data only).

digits: 4, 10, "whole or unrounded"; TAIL: indicators whose result is shorter than the input."""

COLUMNS = {
    "AccumulationDistributionLine": ["adl"], "AverageTrueRange": ["atr"],
    "BollingerBands": ["middle_band", "upper_band", "lower_band"], "ChaikinMoneyFlow": ["cmf"],
    "ChaikinOscillator": ["co"], "ChandeMomentumOscillator": ["cmo"], "CommodityChannelIndex": ["cci"],
    "DetrendedPriceOscillator": ["dpo"], "DirectionalMovementIndex": ["+di", "-di", "dx", "adx", "adxr"],
    "DoubleExponentialMovingAverage": ["dema"], "EaseOfMovement": ["emv", "emv_ma"],
    "Envelopes": ["upper_band", "lower_band"],
    "FibonacciRetracement": ["rl_0.0", "rl_23.6", "rl_38.2", "rl_50.0", "rl_61.8", "rl_100.0"],
    "ForecastOscillator": ["fosc"], "IchimokuCloud": ["tenkan_sen", "kijun_sen", "senkou_a", "senkou_b"],
    "IntradayMomentumIndex": ["imi"], "KlingerOscillator": ["ko"], "LinearRegressionIndicator": ["lri"],
    "LinearRegressionSlope": ["lrs"], "MarketFacilitationIndex": ["mfi"], "MassIndex": ["mi"], "MedianPrice": ["mp"],
    "Momentum": ["mom"], "MovingAverage": ["ma-{ma_type}"],
    "MovingAverageConvergenceDivergence": ["macd", "signal_line"], "NegativeVolumeIndex": ["nvi"],
    "OnBalanceVolume": ["obv"], "ParabolicSAR": ["sar"], "Performance": ["prf", "target_{mode}"],
    "PositiveVolumeIndex": ["pvi"], "PriceAndVolumeTrend": ["pvt"], "PriceChannel": ["highest_high", "lowest_low"],
    "PriceOscillator": ["posc"], "PriceRateOfChange": ["prc"], "ProjectionBands": ["upper_band", "lower_band"],
    "ProjectionOscillator": ["posc", "trigger_line"], "Qstick": ["qstick"], "RangeIndicator": ["ri"],
    "RelativeMomentumIndex": ["rmi"], "RelativeStrengthIndex": ["rsi"], "RelativeVolatilityIndex": ["rvi"],
    "StandardDeviation": ["sd"], "StochasticMomentumIndex": ["smi"], "StochasticOscillator": ["%K", "%D"],
    "SwingIndex": ["swi"], "TimeSeriesForecast": ["tsf"], "TripleExponentialMovingAverage": ["tema"],
    "TypicalPrice": ["tp"], "UltimateOscillator": ["uosc"], "VerticalHorizontalFilter": ["vhf"],
    "VolatilityChaikins": ["vch"], "VolumeOscillator": ["vosc"], "VolumeRateOfChange": ["vrc"], "WeightedClose": ["wc"],
    "WildersSmoothing": ["ws"], "WilliamsAccumulationDistribution": ["wad"], "WilliamsR": ["wr"],
}
DIGITS = {"MarketFacilitationIndex": 10, "AccumulationDistributionLine": None, "OnBalanceVolume": None}
VARIANTS = {"MovingAverage": [{"ma_type": x} for x in ("simple", "exponential", "time_series", "triangular", "variable")],
            "Performance": [{"mode": x} for x in ("LONG", "SHORT")]}
