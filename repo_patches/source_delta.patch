From 434a95a3b15051fde69c5ea453de44a3e5073691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 01/31] fix: compare instants to detect anterior ticks

Comparing two datetimes of the same timezone ignores their UTC offset, so the
ticks of the repeated hour of a clock change were refused although they were
chronological.
---
 estrade/epic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index b5cf6d0..70bb469 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -242,7 +242,7 @@ class Epic(RefMixin):
         """
         # set tick timezone
         tick.datetime = tick.datetime.to(self.timezone)
-        if tick.datetime < self.last_tick.datetime:
+        if tick.datetime_utc < self.last_tick.datetime_utc:
             raise EpicException(
                 "Cannot handle a tick anterior to the last received tick."
             )
-- 
2.43.0


From 061a7ca20aeafe0e2af1a817cc3dd7e64191f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 02/31] fix: keep a close value of 0 when creating a trade

---
 estrade/trade.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estrade/trade.py b/estrade/trade.py
index fbe1114..51116ca 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -75,7 +75,9 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         self.closes: List[TradeClose] = []
 
         self.open_value = open_value
-        self.current_close_value = current_close_value or open_value
+        self.current_close_value = (
+            open_value if current_close_value is None else current_close_value
+        )
 
         self.max_result: float = self.result
         self.min_result: float = self.result
-- 
2.43.0


From 2214bea437b5a802cd9735383dec4a55edff16d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:31 +0000
Subject: [PATCH 03/31] fix: stop netting when no quantity is left to open

The remaining opposite trades were closed with a quantity of 0, that is, totally.
---
 estrade/trade_provider.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index dc3c60a..4874770 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -164,6 +164,8 @@ class TradeProviderBacktests(BaseTradeProvider):
         )
 
         for open_trade in self.opened_trades:
+            if trade.open_quantity <= 0:
+                break
             if open_trade.direction == opposite_direction:
                 logger.info(
                     "A trade was opened when another is still open in "
-- 
2.43.0


From 638df7cc2084e0bdd797659671c6fbfc6ebe23df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 04/31] fix: only update the trades of the epic receiving a
 tick

---
 estrade/epic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/estrade/epic.py b/estrade/epic.py
index 70bb469..298ac6c 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -209,6 +209,9 @@ class Epic(RefMixin):
 
     def _update_open_trades(self, new_tick: "Tick") -> None:
         for trade in self.trade_provider.opened_trades:
+            # the trade provider can be shared with other epics
+            if trade.epic is not self:
+                continue
             trade.update_from_tick(new_tick)
 
     def _execute_strategies(self, market_open_before_new_tick: bool) -> None:
-- 
2.43.0


From 3585881038d69ab5d4f63a21b87306d99028b8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 05/31] fix: never net trades of different epics in backtests

---
 estrade/trade_provider.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index 4874770..d8fa642 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -166,6 +166,9 @@ class TradeProviderBacktests(BaseTradeProvider):
         for open_trade in self.opened_trades:
             if trade.open_quantity <= 0:
                 break
+            if getattr(open_trade, "epic", None) is not getattr(trade, "epic", None):
+                # this trade provider can be shared by several epics
+                continue
             if open_trade.direction == opposite_direction:
                 logger.info(
                     "A trade was opened when another is still open in "
-- 
2.43.0


From ec15b19d57d26aa915a38f2c78fb335a1e50421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 06/31] fix: start a new tick frame on day change

The epic last tick is updated before its frame sets, so its date was always the
date of the new tick.
---
 estrade/graph/frame_set.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index b80ec9f..de039f4 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -171,6 +171,7 @@ class FrameSet(TimeframeMixin, RefMixin):
             self._create_new_frame_func = self._create_new_frame_tick
 
         self.epic: Optional["Epic"] = None
+        self._last_tick: Optional["Tick"] = None
         self.frames: List[Frame] = []
         self.indicators: Dict[str, "BaseIndicator"] = {}
         self.max_frames_in_memory = max_frames_in_memory
@@ -251,6 +252,11 @@ class FrameSet(TimeframeMixin, RefMixin):
             or self.current.nb_ticks >= self.unit_quantity
             or self.epic is None
             or tick.datetime.date() > self.epic.last_tick.datetime.date()
+            or (
+                # the epic last tick is already updated with the new tick
+                self._last_tick is not None
+                and tick.datetime.date() > self._last_tick.datetime.date()
+            )
         ):
             return True
         return False
@@ -277,6 +283,7 @@ class FrameSet(TimeframeMixin, RefMixin):
             self._create_new_frame_func(tick)
         else:
             self.add_tick_to_last(tick)
+        self._last_tick = tick
 
     def __getitem__(self, frame_index: int) -> Optional[Frame]:
         try:
-- 
2.43.0


From c690e25e509eb295b9ca6ab0473a8bc4cd1091ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:17 +0000
Subject: [PATCH 07/31] fix: color and shape of candles opening or ending at 0

---
 estrade/graph/indicators/candle_set.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/estrade/graph/indicators/candle_set.py b/estrade/graph/indicators/candle_set.py
index 5d178e2..3495e5c 100644
--- a/estrade/graph/indicators/candle_set.py
+++ b/estrade/graph/indicators/candle_set.py
@@ -55,7 +55,7 @@ class BaseCandle(BaseIndicatorValue):
         Returns:
             Color as [`CandleColor`][estrade.enums.CandleColor] enum.
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         if self.last > self.open:
@@ -100,7 +100,7 @@ class BaseCandle(BaseIndicatorValue):
                 |
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         return round(abs(self.open - self.last), 2)
@@ -122,7 +122,7 @@ class BaseCandle(BaseIndicatorValue):
                 |
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
         return round(self.high - (max(self.open, self.last)), 2)
 
@@ -143,7 +143,7 @@ class BaseCandle(BaseIndicatorValue):
                 |  ┘
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         return round(min(self.open, self.last) - self.low, 2)
-- 
2.43.0


From 0c50de0861846a96a2b4a9862dedf3ad3875ff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 08/31] fix: supports and resistances of a pivot equal to 0

---
 estrade/graph/indicators/pivot.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/estrade/graph/indicators/pivot.py b/estrade/graph/indicators/pivot.py
index a605f0c..2db0b1a 100644
--- a/estrade/graph/indicators/pivot.py
+++ b/estrade/graph/indicators/pivot.py
@@ -117,7 +117,7 @@ class PivotTypeClassic(BasePivotType):
             Support 1 value (pivot * 2 - high).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round((pivot * 2) - self.previous.high_tick.value, 2)  # type: ignore
         return None
 
@@ -130,7 +130,7 @@ class PivotTypeClassic(BasePivotType):
             Support 2 value (pivot - (high - low)).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 pivot
                 - (
@@ -150,7 +150,7 @@ class PivotTypeClassic(BasePivotType):
             Support 3 value (low - (high - pivot) * 2).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 self.previous.low_tick.value  # type: ignore
                 - ((self.previous.high_tick.value - pivot) * 2),  # type: ignore
@@ -167,7 +167,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 1 value (pivot * 2 - low).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round((pivot * 2) - self.previous.low_tick.value, 2)  # type: ignore
         return None
 
@@ -180,7 +180,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 2 value (pivot - (high - low)).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 pivot
                 + (
@@ -200,7 +200,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 3 value (high + (pivot - low) * 2).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 self.previous.high_tick.value  # type: ignore
                 + ((pivot - self.previous.low_tick.value) * 2),  # type: ignore
-- 
2.43.0


From 3de9db72b609927f4840d50b2f6a3c5cfe13c7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 09/31] fix: RSI on a single change

A slice starting at -0 keeps the whole list, so the window was never exact.
---
 estrade/graph/indicators/rsi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estrade/graph/indicators/rsi.py b/estrade/graph/indicators/rsi.py
index 504feb8..870fdf8 100644
--- a/estrade/graph/indicators/rsi.py
+++ b/estrade/graph/indicators/rsi.py
@@ -48,7 +48,8 @@ class RSIValue(BaseIndicatorValue):
 
         if self.rsi_periods:
             max_last_changes_size = self.rsi_periods - 1
-            self.last_changes = self.last_changes[(max_last_changes_size * -1) :]
+            first_index = max(len(self.last_changes) - max_last_changes_size, 0)
+            self.last_changes = self.last_changes[first_index:]
 
             self._update_rsi()
 
-- 
2.43.0


From 166f2bb68cafedf31d3c7bce7e6c1b46af2bfc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 10/31] fix: keep no previous close for a moving average of one
 period

A slice starting at -0 keeps the whole list: it grew forever and gave averages
over more than the configured maximum.
---
 estrade/graph/indicators/simple_moving_average.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estrade/graph/indicators/simple_moving_average.py b/estrade/graph/indicators/simple_moving_average.py
index 45ddf61..2390777 100644
--- a/estrade/graph/indicators/simple_moving_average.py
+++ b/estrade/graph/indicators/simple_moving_average.py
@@ -38,7 +38,8 @@ class SimpleMovingAverageValue(BaseIndicatorValue):
             self.last_closes = self.previous.extended_closes[:]  # type: ignore
 
         max_last_closes_size = self.indicator.max_periods - 1  # type: ignore
-        self.last_closes = self.last_closes[(max_last_closes_size * -1) :]
+        first_index = max(len(self.last_closes) - max_last_closes_size, 0)
+        self.last_closes = self.last_closes[first_index:]
 
     @property
     def extended_closes(self) -> List[float]:
-- 
2.43.0


From fe4930048fdb07ecc9e2977fddcb0f0470c45aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 11/31] fix: result and profit factor of an empty list of
 trades

---
 estrade/strategy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/strategy.py b/estrade/strategy.py
index db06314..66cc04d 100644
--- a/estrade/strategy.py
+++ b/estrade/strategy.py
@@ -145,7 +145,7 @@ class BaseStrategy(RefMixin):
         Returns:
             Result of the input list of trades.
         """
-        if not trades:
+        if trades is None:
             trades = self.trades
 
         result = 0.0
@@ -167,7 +167,7 @@ class BaseStrategy(RefMixin):
         Returns:
             Profit factor of the input list of trades.
         """
-        if not trades:
+        if trades is None:
             trades = self.trades
 
         sum_positive = 0.0
-- 
2.43.0


From a8174cf59e2acf9b951876b2cba0f5d1a8da2a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 12/31] fix: write report rows when the report file already
 exists

---
 estrade/reporting/csv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/reporting/csv.py b/estrade/reporting/csv.py
index b133b0d..d9aa42a 100644
--- a/estrade/reporting/csv.py
+++ b/estrade/reporting/csv.py
@@ -34,8 +34,8 @@ class CSVWriter:
             writer = csv.DictWriter(f, fieldnames=headers)
             if not file_exists:
                 writer.writeheader()
-                for d in dict_list:
-                    writer.writerow(d)
+            for d in dict_list:
+                writer.writerow(d)
 
 
 class ReportingCSV:
-- 
2.43.0


From 0be78bbea2593ecf6c221e7fa6e64f3bd3b59536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:49 +0000
Subject: [PATCH 13/31] fix: average results of trades with no quantity

---
 estrade/trade.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/estrade/trade.py b/estrade/trade.py
index 51116ca..ae09263 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -359,7 +359,7 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         """
         return round(
             sum(close.result for close in self.closes) / self.closed_quantities
-            if self.closes
+            if self.closed_quantities
             else 0,
             2,
         )
@@ -392,6 +392,9 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         return:
             trade average result (does not takes quantities into account)
         """
+        if not self.open_quantity:
+            # nothing left to open after the trade provider netting
+            return 0.0
         return round(self.result / self.open_quantity, 2)
 
 
-- 
2.43.0


From 83227f9f50762f933f205b131c2a1c9d4000015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:54 +0000
Subject: [PATCH 14/31] fix: keep the open value of Heikin Ashi candles

It was computed recursively from all the candles kept in memory on each access:
it changed when old frames were dropped, and failed with a RecursionError when
enough frames were kept.
---
 estrade/graph/indicators/candle_set.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/estrade/graph/indicators/candle_set.py b/estrade/graph/indicators/candle_set.py
index 3495e5c..827687b 100644
--- a/estrade/graph/indicators/candle_set.py
+++ b/estrade/graph/indicators/candle_set.py
@@ -223,6 +223,8 @@ class HeikinAshiCandle(BaseCandle):
         frame (estrade.graph.frame_set.Frame): Parent frame.
     """
 
+    _open: Optional[float] = None
+
     @property
     def open(self) -> float:
         """
@@ -233,9 +235,15 @@ class HeikinAshiCandle(BaseCandle):
             this function returns the mean between the previous candle open and
             last value.
         """
-        if not self.previous:
-            return round(self.first_tick.value, 2)
-        return round((self.previous.open + self.previous.last) / 2, 2)  # type: ignore
+        # The open value never changes, keep it: the previous candles it is built from
+        # are not kept in memory forever.
+        if self._open is None:
+            previous = self.previous
+            if not previous:
+                self._open = round(self.first_tick.value, 2)
+            else:
+                self._open = round((previous.open + previous.last) / 2, 2)  # type: ignore
+        return self._open
 
     @property
     def high(self) -> float:
@@ -320,3 +328,12 @@ class CandleSet(BaseIndicator):
             JapaneseCandle if candle_type == CandleType.CLASSIC else HeikinAshiCandle
         )
         BaseIndicator.__init__(self, value_class=value_class, **kwargs)
+
+    def build_value_from_frame(
+        self, frame: "Frame", epic_market_open: bool
+    ) -> Optional[BaseIndicatorValue]:
+        new_value = super().build_value_from_frame(frame, epic_market_open)
+        if isinstance(new_value, HeikinAshiCandle):
+            # set the open value while the previous candle is still in memory
+            new_value.open
+        return new_value
-- 
2.43.0


From 2d0f3c732f6137d4ac98c754ce90bdb271d0e82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 15/31] fix: refuse null and negative timeframe quantities

---
 estrade/mixins/timeframe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/estrade/mixins/timeframe.py b/estrade/mixins/timeframe.py
index 13107ae..3c0e1e9 100644
--- a/estrade/mixins/timeframe.py
+++ b/estrade/mixins/timeframe.py
@@ -34,6 +34,9 @@ class TimeframeMixin:
         self._check_unit_consistency()
 
     def _check_unit_consistency(self) -> None:
+        if self.unit_quantity <= 0:
+            raise TimeFrameException("Invalid timeframe Unit quantity")
+
         if self.unit in [Unit.TICK, Unit.YEAR]:
             return
 
-- 
2.43.0


From 41f76c5ec0fc1f7b7d0cd95d638fcfac7caf8afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 16/31] fix: do not keep an indicator refused by the frame set

---
 estrade/graph/frame_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index de039f4..fb17e43 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -188,8 +188,8 @@ class FrameSet(TimeframeMixin, RefMixin):
         return bool(self.epic and self.epic.market_open)
 
     def add_indicator(self, indicator: "BaseIndicator"):
-        self.indicators[indicator.ref] = indicator
         indicator.set_frame_set(self)
+        self.indicators[indicator.ref] = indicator
 
     def clean_old_frames(self):
         import gc
-- 
2.43.0


From 76992363a8ffd179078c185a21fc4c09f7febdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 17/31] fix: ignore ticks out of market hours in moving
 averages when required

---
 estrade/graph/indicators/simple_moving_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/graph/indicators/simple_moving_average.py b/estrade/graph/indicators/simple_moving_average.py
index 2390777..0341355 100644
--- a/estrade/graph/indicators/simple_moving_average.py
+++ b/estrade/graph/indicators/simple_moving_average.py
@@ -43,7 +43,7 @@ class SimpleMovingAverageValue(BaseIndicatorValue):
 
     @property
     def extended_closes(self) -> List[float]:
-        extended_closes = self.last_closes + [self.frame.last_tick.value]
+        extended_closes = self.last_closes + [self.last_tick.value]
         return extended_closes
 
     def get_value(self, periods: int) -> Optional[float]:
-- 
2.43.0


From d305c057e78fb6178c35d0ed0c9b39675d38e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 18/31] fix: min and max results of a trade partially netted

---
 estrade/trade_provider.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index d8fa642..401558f 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -189,6 +189,9 @@ class TradeProviderBacktests(BaseTradeProvider):
                 self.close_trade(trade_close=trade_close)
 
                 trade.open_quantity -= quantities_to_close
+                # the results computed with the quantities requested are outdated
+                trade.max_result = trade.result
+                trade.min_result = trade.result
 
         # if after decrement, the trade to open has a zero quantity, stop
         if trade.open_quantity <= 0:
-- 
2.43.0


From d76f10de9dc71068bffbace98487a4f6add0fc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 19/31] fix: keep the open value of Heikin Ashi candles
 (missing type import)

---
 estrade/graph/indicators/candle_set.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/estrade/graph/indicators/candle_set.py b/estrade/graph/indicators/candle_set.py
index 827687b..7f34fb9 100644
--- a/estrade/graph/indicators/candle_set.py
+++ b/estrade/graph/indicators/candle_set.py
@@ -1,10 +1,14 @@
 import logging
-from typing import Optional
+from typing import Optional, TYPE_CHECKING
 
 from estrade.enums import CandleColor, CandleType
 from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue
 
 
+if TYPE_CHECKING:  # pragma: no cover
+    from estrade.graph.frame_set import Frame
+
+
 logger = logging.getLogger(__name__)
 
 
-- 
2.43.0


From 32b233df2eb0de18aca53372e513a5f37e582483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:54 +0000
Subject: [PATCH 20/31] fix: keep empty frames aligned after a clock change

When a clock change skips the end of a period, this end is moved to the end of the
change. The empty frames created from there were not aligned anymore, and
overlapped the following frame.
---
 estrade/graph/frame_set.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index fb17e43..24fbf93 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -224,10 +224,13 @@ class FrameSet(TimeframeMixin, RefMixin):
         period_end = self.get_frame_end(period_start)
         if self.current:
             while period_start > self.current.period_end:
+                # the end of a period can be shifted out of the natural grid when a
+                # clock change skips it
+                next_start = self.get_frame_start(self.current.period_end)
                 self.create_new_frame(
                     self.current.last_tick,
-                    self.current.period_end,
-                    self.get_frame_end(self.current.period_end),
+                    next_start,
+                    self.get_frame_end(next_start),
                 )
 
         self.create_new_frame(tick, period_start, period_end)
-- 
2.43.0


From 5cb58a70559f35357b9521d28270b9e9d8a366a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 21/31] fix: the market is not open before the first tick

The tick initializing an epic is in market hours when they start at midnight.
---
 estrade/epic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index 298ac6c..f808d4e 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -89,6 +89,7 @@ class Epic(RefMixin):
             bid=0,
             ask=0,
         )
+        self._initial_tick = self.last_tick
         self.frame_sets: Dict[str, "FrameSet"] = {}
         self.strategies: Dict[str, "BaseStrategy"] = {}
         self.market_open: bool = False
@@ -184,13 +185,16 @@ class Epic(RefMixin):
         `open_time` and `close_time`.
 
         Returns:
-            - `None` when the epic contains no Tick
+            - `False` when the epic has not received any tick
             - `True` if the last received tick datetime
                 - datetime is between `open_time` and `close_time`
                 - day is not a holiday
                 - weekday is a trade_days
             - `False` in other cases
         """
+        if self.last_tick is self._initial_tick:
+            logger.debug("No tick received")
+            return False
         if not self._in_market_hours(self.last_tick.datetime.time()):
             logger.debug("Tick is not in Market hours")
             return False
-- 
2.43.0


From 943d588767aa5d116e8e838ec214ae4008ca594b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 22/31] fix: compare instants to end the pause of a strategy

During the repeated hour of a clock change, the pause could end one hour too early.
---
 estrade/strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estrade/strategy.py b/estrade/strategy.py
index 66cc04d..30ccb82 100644
--- a/estrade/strategy.py
+++ b/estrade/strategy.py
@@ -62,7 +62,8 @@ class BaseStrategy(RefMixin):
     def _is_paused(self, new_tick_date: "Arrow") -> bool:
         if not self.paused_until:
             return False
-        is_still_paused = new_tick_date < self.paused_until
+        # compare instants (datetimes of the same timezone ignore their UTC offset)
+        is_still_paused = new_tick_date.to("UTC") < self.paused_until
         if not is_still_paused:
             self.paused_until = None
         return is_still_paused
-- 
2.43.0


From 7b9e943b4d4fa11cd83dfe40e3e819dfcc0c1cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 23/31] fix: compare instants to list the trades opened after a
 time

---
 estrade/strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/strategy.py b/estrade/strategy.py
index 30ccb82..0748a27 100644
--- a/estrade/strategy.py
+++ b/estrade/strategy.py
@@ -129,7 +129,7 @@ class BaseStrategy(RefMixin):
             if (epics is None or trade.epic in epics) and (
                 open_only is False or trade.closed is False
             ):
-                if only_after is not None and trade.datetime < only_after:
+                if only_after is not None and trade.datetime.to("UTC") < only_after:
                     break
                 yield trade
 
-- 
2.43.0


From 1a473f526bbc148294a803676db1f10177b11a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 24/31] fix: keep the instant of pytz datetimes in a repeated
 hour

arrow only keeps the name of a pytz timezone: the second pass of the hour repeated
by a clock change was taken for the first one.
---
 estrade/mixins/timed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/estrade/mixins/timed.py b/estrade/mixins/timed.py
index 281a8e0..6d01441 100644
--- a/estrade/mixins/timed.py
+++ b/estrade/mixins/timed.py
@@ -1,4 +1,4 @@
-from datetime import datetime as pydatetime
+from datetime import datetime as pydatetime, timezone
 from typing import Union
 
 import arrow  # type: ignore
@@ -36,7 +36,8 @@ class TimedMixin:
             )
         # convert to arrow.Arrow
         if isinstance(dt, pydatetime):
-            dt = arrow.get(dt)
+            # go through UTC: arrow ignores the UTC offset of pytz datetimes
+            dt = arrow.get(dt.astimezone(timezone.utc)).to(arrow.get(dt).tzinfo)
 
         self._datetime = dt
 
-- 
2.43.0


From 44d25a6bcee8755976e6d611fe7fac3e43d8383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:59 +0000
Subject: [PATCH 25/31] fix: header of the trades report of a strategy without
 trade

The file had an empty first line, and no header at all for the trades reported
later to the same file.
---
 estrade/reporting/csv.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/estrade/reporting/csv.py b/estrade/reporting/csv.py
index d9aa42a..e251b81 100644
--- a/estrade/reporting/csv.py
+++ b/estrade/reporting/csv.py
@@ -12,6 +12,21 @@ if TYPE_CHECKING:  # pragma: no cover
 logger = logging.getLogger(__name__)
 
 
+# keys of estrade.trade.Trade.asdict (headers of a file without any trade yet)
+TRADE_HEADERS = [
+    "ref",
+    "status",
+    "epic",
+    "strategy",
+    "open_date",
+    "direction",
+    "open_quantity",
+    "open_value",
+    "closed_quantities",
+    "result",
+]
+
+
 class CSVWriter:
     @staticmethod
     def open_file(path, filename):
@@ -83,11 +98,10 @@ class ReportingCSV:
             if trade_details:
                 target_filename = f"{dt}_{strategy.ref}_trades.csv"
                 trades = []
-                headers: List[str] = []
+                headers = TRADE_HEADERS
                 for trade in strategy_trades:
                     trade_dict = trade.asdict()
-                    if not headers:
-                        headers = list(trade_dict.keys())
+                    headers = list(trade_dict.keys())
                     trades.append(trade_dict)
 
                 CSVWriter.dict_to_csv(
-- 
2.43.0


From 05f93f944bfc36a9d5c45dbc7a4b9b9060e0c0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:43 +0000
Subject: [PATCH 26/31] fix: report strategies whose reference contains a slash

The trades file was looked for in a folder named after the reference, which does
not exist, and nothing was reported.
---
 estrade/reporting/csv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estrade/reporting/csv.py b/estrade/reporting/csv.py
index e251b81..11f196f 100644
--- a/estrade/reporting/csv.py
+++ b/estrade/reporting/csv.py
@@ -96,7 +96,9 @@ class ReportingCSV:
                 }
             )
             if trade_details:
-                target_filename = f"{dt}_{strategy.ref}_trades.csv"
+                # a reference containing a slash is not a path
+                file_ref = strategy.ref.replace("%", "%25").replace("/", "%2F")
+                target_filename = f"{dt}_{file_ref}_trades.csv"
                 trades = []
                 headers = TRADE_HEADERS
                 for trade in strategy_trades:
-- 
2.43.0


From b9d653387e5bb5cc4cd614bdf20705074e55da25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:47 +0000
Subject: [PATCH 27/31] fix: update indicator values which are false instead of
 replacing them

---
 estrade/graph/frame_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index 24fbf93..d98e62e 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -95,7 +95,7 @@ class Frame:
         market_open = self.parent_frameset.epic_market_open
         for indicator_ref, indicator in self.parent_frameset.indicators.items():
             current_indicator_value = self.indicators.get(indicator_ref, None)
-            if current_indicator_value:
+            if current_indicator_value is not None:
                 current_indicator_value.on_new_tick(tick, market_open)
             else:
                 self._create_new_indicator_value(indicator, market_open)
-- 
2.43.0


From 757f084bdce66bbd7beab9d48622ae62a0275b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 28/31] fix: keep trade providers, strategies and frame sets
 which are false

---
 estrade/epic.py                 | 8 +++++---
 estrade/graph/base_indicator.py | 2 +-
 estrade/graph/frame_set.py      | 2 +-
 estrade/trade.py                | 4 +++-
 estrade/trade_provider.py       | 2 +-
 5 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index f808d4e..479de45 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -81,7 +81,9 @@ class Epic(RefMixin):
         self.close_time = close_time
         self.trade_days = trade_days or [0, 1, 2, 3, 4]
         self.holidays = holidays or []
-        self.trade_provider = trade_provider or TradeProviderBacktests()
+        self.trade_provider = (
+            TradeProviderBacktests() if trade_provider is None else trade_provider
+        )
 
         # create a fake tick to init last_tick attribute
         self.last_tick: Tick = Tick(
@@ -133,7 +135,7 @@ class Epic(RefMixin):
             raise EpicException(f"Invalid timezone : {timezone}")
 
     def add_frame_set(self, frame_set: "FrameSet") -> None:
-        if self.frame_sets.get(frame_set.ref):
+        if frame_set.ref in self.frame_sets:
             raise EpicException(
                 f"Cannot add 2 FrameSet with the same ref ({frame_set.ref}) to epic."
             )
@@ -142,7 +144,7 @@ class Epic(RefMixin):
         self.frame_sets[frame_set.ref] = frame_set
 
     def add_strategy(self, strategy: "BaseStrategy") -> None:
-        if self.strategies.get(strategy.ref):
+        if strategy.ref in self.strategies:
             raise EpicException(
                 f"Cannot add 2 Strategies with the same ref ({strategy.ref}) to epic."
             )
diff --git a/estrade/graph/base_indicator.py b/estrade/graph/base_indicator.py
index 5fd4f4f..db4a92f 100644
--- a/estrade/graph/base_indicator.py
+++ b/estrade/graph/base_indicator.py
@@ -146,7 +146,7 @@ class BaseIndicator(RefMixin):
         Returns:
             Epic associated to this instance.
         """
-        if not self.frame_set:
+        if self.frame_set is None:
             return None
         return self.frame_set.epic
 
diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index d98e62e..3d3d232 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -185,7 +185,7 @@ class FrameSet(TimeframeMixin, RefMixin):
 
     @property
     def epic_market_open(self) -> bool:
-        return bool(self.epic and self.epic.market_open)
+        return self.epic is not None and bool(self.epic.market_open)
 
     def add_indicator(self, indicator: "BaseIndicator"):
         indicator.set_frame_set(self)
diff --git a/estrade/trade.py b/estrade/trade.py
index ae09263..0bc6255 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -97,7 +97,9 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
             "ref": self.ref,
             "status": self.status,
             "epic": self.epic.ref,
-            "strategy": self.strategy.ref if self.strategy else "undefined",
+            "strategy": (
+                "undefined" if self.strategy is None else self.strategy.ref
+            ),
             "open_date": self.datetime.format("YYYY-MM-DD HH:mm:ss"),
             "direction": self.direction,
             "open_quantity": self.open_quantity,
diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index 401558f..da51a1a 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -71,7 +71,7 @@ class BaseTradeProvider(RefMixin):
             trade: New trade to create.
         """
         self.trades.append(trade)
-        if trade.strategy:
+        if trade.strategy is not None:
             trade.strategy.trades.append(trade)
 
         thr = threading.Thread(
-- 
2.43.0


From e33578b8db495db6dcdad0547c6dbcf6a6c55be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 29/31] fix: strategies registered from within a notification

---
 estrade/epic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index 479de45..7a2ce0d 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -221,7 +221,8 @@ class Epic(RefMixin):
             trade.update_from_tick(new_tick)
 
     def _execute_strategies(self, market_open_before_new_tick: bool) -> None:
-        for _, strategy in self.strategies.items():
+        # strategies can register other ones while they are notified
+        for strategy in list(self.strategies.values()):
             if strategy.is_active(self.last_tick.datetime):
                 if market_open_before_new_tick != self.market_open:
                     if market_open_before_new_tick is True:
-- 
2.43.0


From 8c198962e1ad092e6d1f26dbdc8a93a845504bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 30/31] fix: RSI of one period when a single frame is kept

---
 estrade/graph/indicators/rsi.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/estrade/graph/indicators/rsi.py b/estrade/graph/indicators/rsi.py
index 870fdf8..5c73251 100644
--- a/estrade/graph/indicators/rsi.py
+++ b/estrade/graph/indicators/rsi.py
@@ -40,6 +40,11 @@ class RSIValue(BaseIndicatorValue):
             raise BaseIndicatorException("Invalid RSI Value parent")
         self.rsi_periods = self.indicator.rsi_periods  # type: ignore
 
+        # the previous frame can be dropped from memory before the end of this one
+        self._previous_close: Optional[float] = None
+        if self.frame.previous_frame:
+            self._previous_close = self.frame.previous_frame.last_tick.value
+
         self.last_changes: List[float] = []
         if self.previous:
             self.last_changes = self.previous.extended_changes[:]  # type: ignore
@@ -55,12 +60,13 @@ class RSIValue(BaseIndicatorValue):
 
     @property
     def extended_changes(self) -> List[float]:
-        if not self.frame.previous_frame:
+        previous_close = self._previous_close
+        if self.frame.previous_frame:
+            previous_close = self.frame.previous_frame.last_tick.value
+        if previous_close is None:
             return []
 
-        current_change = (
-            self.frame.last_tick.value - self.frame.previous_frame.last_tick.value
-        )
+        current_change = self.frame.last_tick.value - previous_close
         extended_changes = self.last_changes + [current_change]
         return extended_changes
 
-- 
2.43.0


From 3f05a645d633776840e23257f56187eba7a3ed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:48 +0000
Subject: [PATCH 31/31] fix: a tick sent to epics of different timezones

---
 estrade/epic.py | 5 +++++
 estrade/tick.py | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/estrade/epic.py b/estrade/epic.py
index 7a2ce0d..8061db9 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -1,4 +1,5 @@
 import logging
+from copy import copy
 from datetime import date, time
 from typing import Dict, List, Optional, TYPE_CHECKING
 
@@ -250,6 +251,10 @@ class Epic(RefMixin):
         Arguments:
             tick: new tick
         """
+        if tick.epic_timezone not in (None, self.timezone):
+            # this tick is already used by an epic having another timezone
+            tick = copy(tick)
+        tick.epic_timezone = self.timezone
         # set tick timezone
         tick.datetime = tick.datetime.to(self.timezone)
         if tick.datetime_utc < self.last_tick.datetime_utc:
diff --git a/estrade/tick.py b/estrade/tick.py
index f66aac3..fc6355b 100644
--- a/estrade/tick.py
+++ b/estrade/tick.py
@@ -56,6 +56,8 @@ class Tick(MetaMixin, TimedMixin):
         if self.bid > self.ask:
             raise TickException(f"Tick bid {bid} cannot be superior to ask {ask}")
         MetaMixin.__init__(self, meta)
+        # timezone applied by the epic receiving this tick
+        self.epic_timezone: Optional[str] = None
 
         # add tick to epic
         logger.debug(f"New tick : {self}")
-- 
2.43.0

