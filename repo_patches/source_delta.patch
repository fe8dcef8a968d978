From 79559cb3f70698ae1a625786a522b363a396e953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 01/22] fix: validateInputData no longer renames the columns of
 the caller's data frame

---
 tti/utils/data_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index 2d61032..0fe1d15 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -63,7 +63,9 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
     if input_data.empty:
         raise ValueError("The input_data cannot be an empty pandas.DataFrame.")
 
-    # Make columns case insensitive
+    # Make columns case insensitive, use a copy so that the caller's data frame
+    # is not modified
+    input_data = input_data.copy()
     input_data.columns = [c.lower() for c in input_data.columns]
 
     # Validate that the data frame holds columns of numeric type and that all
-- 
2.43.0


From 18d2c4e5b4b08d1bfe3d646f2e4ec8c13bac28c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 02/22] fix: getTiSimulation restores the indicator data also
 when a simulation round fails

---
 tti/indicators/_technical_indicator.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/tti/indicators/_technical_indicator.py b/tti/indicators/_technical_indicator.py
index 5a87037..f790458 100644
--- a/tti/indicators/_technical_indicator.py
+++ b/tti/indicators/_technical_indicator.py
@@ -409,18 +409,22 @@ class TechnicalIndicator(ABC):
         full_ti_data = self._ti_data
         full_input_data = self._input_data
 
-        # Run simulation rounds for the whole period
-        for i in range(len(self._ti_data.index)):
-            # Limit the input and indicator data to this simulation round
-            self._input_data = full_input_data[full_input_data.index <= full_input_data.index[i]]
+        try:
+            # Run simulation rounds for the whole period
+            for i in range(len(self._ti_data.index)):
+                # Limit the input and indicator data to this simulation round
+                self._input_data = full_input_data[
+                    full_input_data.index <= full_input_data.index[i]
+                ]
 
-            self._ti_data = full_ti_data[full_ti_data.index <= full_ti_data.index[i]]
+                self._ti_data = full_ti_data[full_ti_data.index <= full_ti_data.index[i]]
 
-            simulator.runSimulationRound(i_index=i, signal=self.getTiSignal())
+                simulator.runSimulationRound(i_index=i, signal=self.getTiSignal())
 
-        # Restore input and indicator data to full range
-        self._ti_data = full_ti_data
-        self._input_data = full_input_data
+        finally:
+            # Restore input and indicator data to full range
+            self._ti_data = full_ti_data
+            self._input_data = full_input_data
 
         simulation_data, statistics = simulator.closeSimulation()
 
-- 
2.43.0


From fa3add75d9364a1800820b50f289135a45ee0b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 03/22] fix: MedianPrice.getTiSignal with period 1 no longer
 fails on a single row

---
 tti/indicators/_median_price.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_median_price.py b/tti/indicators/_median_price.py
index 49cf782..0a698b5 100644
--- a/tti/indicators/_median_price.py
+++ b/tti/indicators/_median_price.py
@@ -101,7 +101,7 @@ class MedianPrice(TechnicalIndicator):
         """
 
         # Not enough data for calculating trading signal
-        if len(self._ti_data.index) < self._period:
+        if len(self._ti_data.index) < max(self._period, 2):
             return TRADE_SIGNALS["hold"]
 
         # Indicator value goes below Moving Average
-- 
2.43.0


From b0d3c7ccaa3151df31f2dec4f375bec721714df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 04/22] fix: RangeIndicator.getTiSignal holds when the
 indicator was never below 20

---
 tti/indicators/_range_indicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_range_indicator.py b/tti/indicators/_range_indicator.py
index f5fa64c..e8c0ba2 100644
--- a/tti/indicators/_range_indicator.py
+++ b/tti/indicators/_range_indicator.py
@@ -189,7 +189,7 @@ class RangeIndicator(TechnicalIndicator):
                     return TRADE_SIGNALS["sell"]
                 else:
                     return TRADE_SIGNALS["buy"]
-            except KeyError:
+            except (KeyError, IndexError):
                 return TRADE_SIGNALS["hold"]
 
         return TRADE_SIGNALS["hold"]
-- 
2.43.0


From ae94cdaf0b17d635d73bb94a92598b063887972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 05/22] fix: AverageTrueRange reports its real minimum of input
 data

---
 tti/indicators/_average_true_range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_average_true_range.py b/tti/indicators/_average_true_range.py
index bf9d2d2..8c987f5 100644
--- a/tti/indicators/_average_true_range.py
+++ b/tti/indicators/_average_true_range.py
@@ -65,7 +65,7 @@ class AverageTrueRange(TechnicalIndicator):
 
         # Not enough data for the requested period
         if len(self._input_data.index) < 14:
-            raise NotEnoughInputData("Average True Range", 2, len(self._input_data.index))
+            raise NotEnoughInputData("Average True Range", 14, len(self._input_data.index))
 
         atr = pd.DataFrame(index=self._input_data.index, columns=["atr"], data=0, dtype="float64")
 
-- 
2.43.0


From 876d669738d68eac16fa033ed2c893a44e449044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 06/22] fix: Envelopes reports the refused shift, not the
 period

---
 tti/indicators/_envelopes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_envelopes.py b/tti/indicators/_envelopes.py
index d3026d3..3135200 100644
--- a/tti/indicators/_envelopes.py
+++ b/tti/indicators/_envelopes.py
@@ -65,9 +65,9 @@ class Envelopes(TechnicalIndicator):
             if 1.0 > shift > 0.0:
                 self._shift = shift
             else:
-                raise WrongValueForInputParameter(period, "shift", ">0.0 and <1.0")
+                raise WrongValueForInputParameter(shift, "shift", ">0.0 and <1.0")
         else:
-            raise WrongTypeForInputParameter(type(period), "shift", "float")
+            raise WrongTypeForInputParameter(type(shift), "shift", "float")
 
         # Control is passing to the parent class
         super().__init__(
-- 
2.43.0


From 332bd2fd19f71ca7cba4a705a16c539e6a1c778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 07/22] fix: AverageTrueRange signal uses the close averages
 whatever the column order

---
 tti/indicators/_average_true_range.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tti/indicators/_average_true_range.py b/tti/indicators/_average_true_range.py
index 8c987f5..5f76910 100644
--- a/tti/indicators/_average_true_range.py
+++ b/tti/indicators/_average_true_range.py
@@ -104,22 +104,22 @@ class AverageTrueRange(TechnicalIndicator):
             return TRADE_SIGNALS["hold"]
 
         # Calculate Simple Moving Averages
-        sma_05 = self._input_data.rolling(window=5, min_periods=5).mean()
+        sma_05 = self._input_data["close"].rolling(window=5, min_periods=5).mean()
 
-        sma_10 = self._input_data.rolling(window=10, min_periods=5).mean()
+        sma_10 = self._input_data["close"].rolling(window=10, min_periods=5).mean()
 
         # Assumption on what high volatility means
         if self._ti_data["atr"].values[-1] > 0.01 * self._input_data["close"].values[-1]:
             # Price falling is expected or secondary rally
-            if self._input_data["close"].iat[-1] > sma_05.iat[-1, 0]:
+            if self._input_data["close"].iat[-1] > sma_05.iat[-1]:
                 # Assuming long term upward rally
-                if self._input_data["close"].iat[-1] > sma_10.iat[-1, 0]:
+                if self._input_data["close"].iat[-1] > sma_10.iat[-1]:
                     return TRADE_SIGNALS["buy"]
                 else:
                     return TRADE_SIGNALS["sell"]
 
             # Price raise is expected
-            if self._input_data["close"].iat[-1] < sma_05.iat[-1, 0]:
+            if self._input_data["close"].iat[-1] < sma_05.iat[-1]:
                 return TRADE_SIGNALS["buy"]
 
         return TRADE_SIGNALS["hold"]
-- 
2.43.0


From cd644c71096259d9b76d99620d3a202af3bd5d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 08/22] fix: TypicalPrice signal uses the close average
 whatever the column order

---
 tti/indicators/_typical_price.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_typical_price.py b/tti/indicators/_typical_price.py
index 29bc690..477d356 100644
--- a/tti/indicators/_typical_price.py
+++ b/tti/indicators/_typical_price.py
@@ -96,10 +96,14 @@ class TypicalPrice(TechnicalIndicator):
             return TRADE_SIGNALS["hold"]
 
         # Calculate moving average of the close prices
-        ma = self._input_data.rolling(window=self._period, min_periods=self._period).mean()
+        ma = (
+            self._input_data["close"]
+            .rolling(window=self._period, min_periods=self._period)
+            .mean()
+        )
 
         # Indicator goes above Moving Average
-        if self._ti_data["tp"].iat[-1] > ma.iat[-1, 0]:
+        if self._ti_data["tp"].iat[-1] > ma.iat[-1]:
             return TRADE_SIGNALS["buy"]
 
         return TRADE_SIGNALS["hold"]
-- 
2.43.0


From cc2ee80d7be648b5a3bf07d8618744e19667fa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 09/22] fix: UltimateOscillator signal compares the lowest and
 highest values of the period

---
 tti/indicators/_ultimate_oscillator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_ultimate_oscillator.py b/tti/indicators/_ultimate_oscillator.py
index 574dce6..dc7e986 100644
--- a/tti/indicators/_ultimate_oscillator.py
+++ b/tti/indicators/_ultimate_oscillator.py
@@ -138,10 +138,10 @@ class UltimateOscillator(TechnicalIndicator):
 
         if close_low_index != uosc_low_index:
             # Check if indicator falls below 30 during the bullish period
-            if self._ti_data["uosc"].iloc[-span_period:].all() < 30:
+            if self._ti_data["uosc"].iloc[-span_period:].min() < 30:
                 # Buy when indicator makes a highest high during this period
                 if (
-                    self._ti_data["uosc"].iloc[-span_period:-1].all()
+                    self._ti_data["uosc"].iloc[-span_period:-1].max()
                     < self._ti_data["uosc"].iat[-1]
                 ):
                     return TRADE_SIGNALS["buy"]
-- 
2.43.0


From 13a001ea58ecb411cb998b30c3251b643b61c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 10/22] fix: MassIndex reversal bulge requires the drop below
 26.5

---
 tti/indicators/_mass_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_mass_index.py b/tti/indicators/_mass_index.py
index 1c8e26b..c2832eb 100644
--- a/tti/indicators/_mass_index.py
+++ b/tti/indicators/_mass_index.py
@@ -107,7 +107,7 @@ class MassIndex(TechnicalIndicator):
         # below 26.5. Specific values for 25-Mass Index.
         reversal_bulge = False
 
-        if True or self._ti_data["mi"].iat[-1] < 26.5:
+        if self._ti_data["mi"].iat[-1] < 26.5:
             for i in range(-2, -len(self._ti_data.index) - 1, -1):
                 if self._ti_data["mi"].iat[i] < 26.5:
                     break
-- 
2.43.0


From 73395018d9934d5d8acbc07c50d273578a955d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 11/22] fix: no regression line is calculated over missing
 prices treated as zero

---
 tti/indicators/_linear_regression_indicator.py |  9 +++++++++
 tti/indicators/_projection_bands.py            | 10 ++++++++++
 2 files changed, 19 insertions(+)

diff --git a/tti/indicators/_linear_regression_indicator.py b/tti/indicators/_linear_regression_indicator.py
index 08b6cd8..97e33f6 100644
--- a/tti/indicators/_linear_regression_indicator.py
+++ b/tti/indicators/_linear_regression_indicator.py
@@ -101,6 +101,15 @@ class LinearRegressionIndicator(TechnicalIndicator):
         for i in range(len(self._input_data.index)):
             lri["lri"].values[i] = round(rolling_ols.params[i][0] + i * rolling_ols.params[i][1], 4)
 
+        # There is no regression line for periods which contain missing values
+        lri.loc[
+            self._input_data["close"]
+            .rolling(window=self._period, min_periods=self._period)
+            .sum()
+            .isna(),
+            "lri",
+        ] = None
+
         return lri
 
     def getTiSignal(self):
diff --git a/tti/indicators/_projection_bands.py b/tti/indicators/_projection_bands.py
index f49c7fe..e885a42 100644
--- a/tti/indicators/_projection_bands.py
+++ b/tti/indicators/_projection_bands.py
@@ -135,6 +135,16 @@ class ProjectionBands(TechnicalIndicator):
                 ]
             )
 
+        # There is no regression line for periods which contain missing values
+        for band, column in [("upper_band", "high"), ("lower_band", "low")]:
+            pbs.loc[
+                self._input_data[column]
+                .rolling(window=self._period, min_periods=self._period)
+                .sum()
+                .isna(),
+                band,
+            ] = None
+
         return pbs.round(4)
 
     def getTiSignal(self):
-- 
2.43.0


From 566d418da42a76af1cde13bcee24fc28b94d7c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 12/22] fix: time series forecast and moving averages do not
 fill missing values on their own

---
 tti/indicators/_moving_average.py       | 14 ++++++++++----
 tti/indicators/_time_series_forecast.py | 10 +++++++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/tti/indicators/_moving_average.py b/tti/indicators/_moving_average.py
index ae12bfe..273e03b 100644
--- a/tti/indicators/_moving_average.py
+++ b/tti/indicators/_moving_average.py
@@ -134,15 +134,19 @@ class MovingAverage(TechnicalIndicator):
                 pd.concat(
                     objs=[
                         LinearRegressionSlope(
-                            input_data=self._input_data, period=self._period
+                            input_data=self._input_data,
+                            period=self._period,
+                            fill_missing_values=False,
                         ).getTiData(),
                         LinearRegressionIndicator(
-                            input_data=self._input_data, period=self._period
+                            input_data=self._input_data,
+                            period=self._period,
+                            fill_missing_values=False,
                         ).getTiData(),
                     ],
                     axis=1,
                 )
-                .sum(axis=1)
+                .sum(axis=1, skipna=False)
                 .iloc[self._period - 1 :]
             )
 
@@ -157,7 +161,9 @@ class MovingAverage(TechnicalIndicator):
 
         elif self._ma_type == "variable":
             # Calculate CMO indicator for 9 periods by default
-            cmo = ChandeMomentumOscillator(input_data=self._input_data, period=9).getTiData()
+            cmo = ChandeMomentumOscillator(
+                input_data=self._input_data, period=9, fill_missing_values=False
+            ).getTiData()
 
             # Calculate Volatility Ratio
             vr = (cmo.iloc[:] / 100).abs()
diff --git a/tti/indicators/_time_series_forecast.py b/tti/indicators/_time_series_forecast.py
index aa932a4..cd952bb 100644
--- a/tti/indicators/_time_series_forecast.py
+++ b/tti/indicators/_time_series_forecast.py
@@ -94,15 +94,19 @@ class TimeSeriesForecast(TechnicalIndicator):
             pd.concat(
                 objs=[
                     LinearRegressionSlope(
-                        input_data=self._input_data, period=self._period
+                        input_data=self._input_data,
+                        period=self._period,
+                        fill_missing_values=False,
                     ).getTiData(),
                     LinearRegressionIndicator(
-                        input_data=self._input_data, period=self._period
+                        input_data=self._input_data,
+                        period=self._period,
+                        fill_missing_values=False,
                     ).getTiData(),
                 ],
                 axis=1,
             )
-            .sum(axis=1)
+            .sum(axis=1, skipna=False)
             .iloc[self._period - 1 :]
         )
 
-- 
2.43.0


From 2dff52abf2d5ea015d65174bb3938d9844c4b97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 13/22] fix: nested indicators do not fill missing values when
 it was not requested

---
 tti/indicators/_chaikin_oscillator.py         | 4 +++-
 tti/indicators/_forecast_oscillator.py        | 4 +++-
 tti/indicators/_projection_oscillator.py      | 2 +-
 tti/indicators/_vertical_horizontal_filter.py | 8 ++++++--
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/tti/indicators/_chaikin_oscillator.py b/tti/indicators/_chaikin_oscillator.py
index 29bab19..d317654 100644
--- a/tti/indicators/_chaikin_oscillator.py
+++ b/tti/indicators/_chaikin_oscillator.py
@@ -70,7 +70,9 @@ class ChaikinOscillator(TechnicalIndicator):
 
         co = pd.DataFrame(index=self._input_data.index, columns=["co"], data=0, dtype="float64")
 
-        adl = AccumulationDistributionLine(self._input_data).getTiData()
+        adl = AccumulationDistributionLine(
+            self._input_data, fill_missing_values=False
+        ).getTiData()
 
         co["co"] = (
             adl.ewm(span=3, min_periods=3, adjust=False).mean()
diff --git a/tti/indicators/_forecast_oscillator.py b/tti/indicators/_forecast_oscillator.py
index c3d8ded..965f321 100644
--- a/tti/indicators/_forecast_oscillator.py
+++ b/tti/indicators/_forecast_oscillator.py
@@ -93,7 +93,9 @@ class ForecastOscillator(TechnicalIndicator):
             100
             * (
                 self._input_data["close"]
-                - TimeSeriesForecast(input_data=self._input_data, period=self._period)
+                - TimeSeriesForecast(
+                    input_data=self._input_data, period=self._period, fill_missing_values=False
+                )
                 .getTiData()["tsf"]
                 .shift(1)
             )
diff --git a/tti/indicators/_projection_oscillator.py b/tti/indicators/_projection_oscillator.py
index 849fccd..3661559 100644
--- a/tti/indicators/_projection_oscillator.py
+++ b/tti/indicators/_projection_oscillator.py
@@ -90,7 +90,7 @@ class ProjectionOscillator(TechnicalIndicator):
 
         # Calculate Projection Bands
         projection_bands = ProjectionBands(
-            input_data=self._input_data, period=self._period
+            input_data=self._input_data, period=self._period, fill_missing_values=False
         ).getTiData()
 
         posc = pd.DataFrame(
diff --git a/tti/indicators/_vertical_horizontal_filter.py b/tti/indicators/_vertical_horizontal_filter.py
index af32803..f7a0f61 100644
--- a/tti/indicators/_vertical_horizontal_filter.py
+++ b/tti/indicators/_vertical_horizontal_filter.py
@@ -136,7 +136,9 @@ class VerticalHorizontalFilter(TechnicalIndicator):
             if len(self._input_data.index) < 5:
                 return TRADE_SIGNALS["hold"]
             else:
-                return DoubleExponentialMovingAverage(self._input_data, period=5).getTiSignal()
+                return DoubleExponentialMovingAverage(
+                    self._input_data, period=5, fill_missing_values=False
+                ).getTiSignal()
 
         # Falling values indicate a ranging market
         if (
@@ -148,6 +150,8 @@ class VerticalHorizontalFilter(TechnicalIndicator):
             if len(self._input_data.index) < 12:
                 return TRADE_SIGNALS["hold"]
             else:
-                return Momentum(self._input_data, period=12).getTiSignal()
+                return Momentum(
+                    self._input_data, period=12, fill_missing_values=False
+                ).getTiSignal()
 
         return TRADE_SIGNALS["hold"]
-- 
2.43.0


From 23a79b0a18efebab979f9302abda2e1bd954a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 14/22] fix: simulation refuses a NaN max_exposure or
 short_exposure_factor

---
 tti/utils/trading_simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/utils/trading_simulation.py b/tti/utils/trading_simulation.py
index e3d30b1..3ad498b 100644
--- a/tti/utils/trading_simulation.py
+++ b/tti/utils/trading_simulation.py
@@ -260,7 +260,7 @@ class TradingSimulation:
 
         # Validate max_exposure
         if isinstance(self._max_exposure, (int, float)):
-            if self._max_exposure <= 0:
+            if not self._max_exposure > 0:
                 raise WrongValueForInputParameter(self._max_exposure, "max_exposure", ">0 or None")
         elif self._max_exposure is None:
             pass
@@ -271,7 +271,7 @@ class TradingSimulation:
 
         # Validate short_exposure_factor
         if isinstance(self._short_exposure_factor, (int, float)):
-            if self._short_exposure_factor < 1.0:
+            if not self._short_exposure_factor >= 1.0:
                 raise WrongValueForInputParameter(
                     self._short_exposure_factor, "short_exposure_factor", ">=1.0"
                 )
-- 
2.43.0


From 518baa7b0215afea06d4885740e955c76db38b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 15/22] fix: getTiValue returns values, not column names, when
 a date is repeated

---
 tti/indicators/_technical_indicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_technical_indicator.py b/tti/indicators/_technical_indicator.py
index f790458..dd7ebd7 100644
--- a/tti/indicators/_technical_indicator.py
+++ b/tti/indicators/_technical_indicator.py
@@ -151,7 +151,7 @@ class TechnicalIndicator(ABC):
             if date is None:
                 return list(self._ti_data.iloc[-1, :])
             else:
-                return list(self._ti_data.loc[pd.to_datetime(date), :])
+                return list(self._ti_data.loc[[pd.to_datetime(date)], :].iloc[-1, :])
 
         except (Exception, ValueError):
             return None
-- 
2.43.0


From 94ce73c5026697ec7940bb207f4fae78f94df520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 16/22] fix: IchimokuCloud treats neither a missing nor a
 touched cloud bound as crossed

---
 tti/indicators/_ichimoku_cloud.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tti/indicators/_ichimoku_cloud.py b/tti/indicators/_ichimoku_cloud.py
index 037b6bf..032cb13 100644
--- a/tti/indicators/_ichimoku_cloud.py
+++ b/tti/indicators/_ichimoku_cloud.py
@@ -107,10 +107,13 @@ class IchimokuCloud(TechnicalIndicator):
                 is above the cloud, -1 means that value is below the cloud.
         """
 
-        ordered_values = cloud + [value]
-        ordered_values.sort()
+        if all(value > bound for bound in cloud):
+            return 1
 
-        return ordered_values.index(value) - 1
+        if all(value < bound for bound in cloud):
+            return -1
+
+        return 0
 
     def getTiSignal(self):
         """
-- 
2.43.0


From 39dd22df73bd1b60e54590ff57a72e27922340c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:45 +0000
Subject: [PATCH 17/22] fix: CommodityChannelIndex does not count a missing
 price as zero

---
 tti/indicators/_commodity_channel_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_commodity_channel_index.py b/tti/indicators/_commodity_channel_index.py
index 6a70caa..3a87ec8 100644
--- a/tti/indicators/_commodity_channel_index.py
+++ b/tti/indicators/_commodity_channel_index.py
@@ -88,7 +88,7 @@ class CommodityChannelIndex(TechnicalIndicator):
         cci = pd.DataFrame(index=self._input_data.index, columns=["cci"], data=0, dtype="float64")
 
         # Average of high, low and close
-        typical_price = self._input_data.sum(axis=1) / 3.0
+        typical_price = self._input_data.sum(axis=1, skipna=False) / 3.0
 
         # Simple moving average of the typical price
         tp_sma = typical_price.rolling(window=self._period, min_periods=self._period).mean()
-- 
2.43.0


From 7d158d998d2cdb68b2145db47533d0294c7ee861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:45 +0000
Subject: [PATCH 18/22] fix: KlingerOscillator does not count a missing price
 as zero

---
 tti/indicators/_klinger_oscillator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_klinger_oscillator.py b/tti/indicators/_klinger_oscillator.py
index 2d24975..865b766 100644
--- a/tti/indicators/_klinger_oscillator.py
+++ b/tti/indicators/_klinger_oscillator.py
@@ -70,9 +70,9 @@ class KlingerOscillator(TechnicalIndicator):
         ko = pd.DataFrame(index=self._input_data.index, columns=["ko"], data=None, dtype="float64")
 
         # Trend Direction
-        t = self._input_data[["high", "low", "close"]].sum(axis=1) - self._input_data[
+        t = self._input_data[["high", "low", "close"]].sum(axis=1, skipna=False) - self._input_data[
             ["high", "low", "close"]
-        ].sum(axis=1).shift(1)
+        ].sum(axis=1, skipna=False).shift(1)
         t[t > 0.0] = 1.0
         t[t <= 0.0] = -1.0
 
-- 
2.43.0


From 0845b1c7b2e333619698a08c4e5c9ede4bc1e6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 19/22] fix: VolumeOscillator names the refused parameter
 without a trailing blank

---
 tti/indicators/_volume_oscillator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_volume_oscillator.py b/tti/indicators/_volume_oscillator.py
index a0c26b9..0f62695 100644
--- a/tti/indicators/_volume_oscillator.py
+++ b/tti/indicators/_volume_oscillator.py
@@ -71,7 +71,7 @@ class VolumeOscillator(TechnicalIndicator):
 
         if self._long_period <= self._short_period:
             raise WrongValueForInputParameter(
-                long_period, "long_period ", "> short_period [" + str(self._short_period) + "]"
+                long_period, "long_period", "> short_period [" + str(self._short_period) + "]"
             )
 
         # Control is passing to the parent class
-- 
2.43.0


From 8547264f859f032bda29470821b984c9fd9b2cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:58 +0000
Subject: [PATCH 20/22] fix: input columns with labels that are not strings are
 ignored instead of failing

---
 tti/utils/data_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index 0fe1d15..92ce1ec 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -66,7 +66,7 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
     # Make columns case insensitive, use a copy so that the caller's data frame
     # is not modified
     input_data = input_data.copy()
-    input_data.columns = [c.lower() for c in input_data.columns]
+    input_data.columns = [c.lower() if isinstance(c, str) else c for c in input_data.columns]
 
     # Validate that the data frame holds columns of numeric type and that all
     # the required columns are contained.
-- 
2.43.0


From 1cc79781086846158adda8837013bd48dce9f2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:54 +0000
Subject: [PATCH 21/22] fix: accumulation/distribution values do not change
 when a later day has no value

---
 tti/indicators/_accumulation_distribution_line.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tti/indicators/_accumulation_distribution_line.py b/tti/indicators/_accumulation_distribution_line.py
index 2f3bf3c..868c4c2 100644
--- a/tti/indicators/_accumulation_distribution_line.py
+++ b/tti/indicators/_accumulation_distribution_line.py
@@ -5,6 +5,7 @@ File name: _accumulation_distribution_line.py
     Implements the Accumulation Distribution Line technical indicator.
 """
 
+import numpy as np
 import pandas as pd
 
 from ._technical_indicator import TechnicalIndicator
@@ -69,7 +70,7 @@ class AccumulationDistributionLine(TechnicalIndicator):
             / (self._input_data["high"] - self._input_data["low"])
         )
 
-        adl = adl.cumsum(axis=0)
+        adl = np.trunc(adl.cumsum(axis=0))
 
         return adl.astype(dtype="int64", errors="ignore")
 
-- 
2.43.0


From ccbe47f0eeccdabccd47ad2fbe840ba4e5088b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 22/22] fix: give every line of the DMI graph its own alpha
 value

---
 tti/indicators/properties/indicators_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/properties/indicators_properties.py b/tti/indicators/properties/indicators_properties.py
index fd2fa28..5964b3f 100644
--- a/tti/indicators/properties/indicators_properties.py
+++ b/tti/indicators/properties/indicators_properties.py
@@ -122,7 +122,7 @@ INDICATORS_PROPERTIES = {
         "graph_input_columns": ["close"],
         "graph_y_label": "DMI | Price",
         "graph_lines_color": ["black", "limegreen", "red", "cornflowerblue", "tomato", "orange"],
-        "graph_alpha_values": [0.5, 1.0, 1.0, 1.0, 1.0],
+        "graph_alpha_values": [0.5, 1.0, 1.0, 1.0, 1.0, 1.0],
         "graph_areas": None,
         "graph_subplots": True,
     },
-- 
2.43.0

