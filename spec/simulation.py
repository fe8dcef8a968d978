"""Reference rules of the trading simulation (docstrings of TradingSimulation and getTiSimulation).

portfolio columns: position (0 none, 1 short, 2 long), status (0 none, 1 open, 2 closed),
exposure recorded at the opening (price of a long, factor * price of a short).
"""
import numpy as np


def closing(position, status, exposure, price, factor):
    """status after the day's closings, earnings made, exposure released"""
    long_open = (status == 1.0) & (position == 2.0)
    short_open = (status == 1.0) & (position == 1.0)
    long_closed = long_open & (exposure < price)
    short_closed = short_open & (exposure > factor * price)

    after = np.where(long_closed, 2.0, status)
    after = np.where((after == 1.0) & (position == 1.0) & (exposure > factor * price), 2.0, after)

    long_exposure = np.sum(exposure[long_closed])
    short_exposure = np.sum(exposure[short_closed])
    earnings = (
        np.count_nonzero(position[long_closed]) * price
        - long_exposure
        + short_exposure / factor
        - np.count_nonzero(position[short_closed]) * price
    )
    return after, earnings, long_exposure + short_exposure


def portfolio_value(position, status, price):
    longs = np.count_nonzero(position[(position == 2.0) & (status == 1.0)])
    shorts = np.count_nonzero(position[(position == 1.0) & (status == 1.0)])
    return price * (longs - shorts)


def refused_long(exposure, price, factor, maximum):
    return maximum < exposure + price


def refused_short(exposure, price, factor, maximum):
    return maximum < exposure + factor * price


def statistics(data, position, status):
    rounds = len(data.dropna(subset=["signal"]).index)
    buys = data["signal"] == "buy"
    sells = data["signal"] == "sell"
    idle = data["open_trading_action"] == "none"

    def last(column):
        return 0.0 if rounds == 0 else round(data[column].iat[rounds - 1], 2)

    return {
        "number_of_trading_days": rounds,
        "number_of_buy_signals": len(data[buys].index),
        "number_of_ignored_buy_signals": len(data[buys & idle].index),
        "number_of_sell_signals": len(data[sells].index),
        "number_of_ignored_sell_signals": len(data[sells & idle].index),
        "last_stock_value": last("stock_value"),
        "last_exposure": last("exposure"),
        "last_open_long_positions": np.count_nonzero(position[(position == 2.0) & (status == 1.0)]),
        "last_open_short_positions": np.count_nonzero(position[(position == 1.0) & (status == 1.0)]),
        "last_portfolio_value": last("portfolio_value"),
        "last_earnings": last("earnings"),
        "final_balance": last("balance"),
    }
