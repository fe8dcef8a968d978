"""Documented ranges and orders of calculated columns (data only; read by check C24).

(smaller, larger): a number, the name of a calculated column, or "input.<column>".
Each holds, before rounding, whenever 0 <= low <= open, close <= high and volume >= 0.
"""
RANGES = {
    "AverageTrueRange": [(0, "atr")],
    "BollingerBands": [("lower_band", "middle_band"), ("middle_band", "upper_band")],
    "ChaikinMoneyFlow": [(-1, "cmf"), ("cmf", 1)],
    "ChandeMomentumOscillator": [(-100, "cmo"), ("cmo", 100)],
    "DirectionalMovementIndex": [(0, "+di"), ("+di", 100), (0, "-di"), ("-di", 100), (0, "dx"), ("dx", 100),
                                 (0, "adx"), ("adx", 100), (0, "adxr"), ("adxr", 100)],
    "Envelopes": [("lower_band", "upper_band")],
    "FibonacciRetracement": [("rl_100.0", "rl_61.8"), ("rl_61.8", "rl_50.0"), ("rl_50.0", "rl_38.2"),
                             ("rl_38.2", "rl_23.6"), ("rl_23.6", "rl_0.0"), ("rl_100.0", "input.close"),
                             ("input.close", "rl_0.0")],
    "IntradayMomentumIndex": [(0, "imi"), ("imi", 100)],
    "MarketFacilitationIndex": [(0, "mfi")],
    "MassIndex": [(0, "mi")],
    "MedianPrice": [("input.low", "mp"), ("mp", "input.high")],
    "PriceChannel": [("lowest_low", "highest_high")],
    "ProjectionBands": [("lower_band", "upper_band"), ("lower_band", "input.low"), ("input.high", "upper_band")],
    "RangeIndicator": [(0, "ri"), ("ri", 100)],
    "RelativeMomentumIndex": [(0, "rmi"), ("rmi", 100)],
    "RelativeStrengthIndex": [(0, "rsi"), ("rsi", 100)],
    "RelativeVolatilityIndex": [(0, "rvi"), ("rvi", 100)],
    "StandardDeviation": [(0, "sd")],
    "StochasticMomentumIndex": [(-100, "smi"), ("smi", 100)],
    "StochasticOscillator": [(0, "%K"), ("%K", 100), (0, "%D"), ("%D", 100)],
    "TypicalPrice": [("input.low", "tp"), ("tp", "input.high")],
    "UltimateOscillator": [(0, "uosc"), ("uosc", 100)],
    "VerticalHorizontalFilter": [(0, "vhf")],
    "VolatilityChaikins": [(-100, "vch")],
    "WeightedClose": [("input.low", "wc"), ("wc", "input.high")],
    "WilliamsR": [(-100, "wr"), ("wr", 0)],
}
