From 4b30f28dc3b8c510d00133fa4194625b7a646086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 01/14] fix: keep a null close value when a trade is opened

A trade opened while the market close side is exactly 0 was valued at its
open price instead, hiding the spread.
---
 estrade/trade.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estrade/trade.py b/estrade/trade.py
index fbe1114..51116ca 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -75,7 +75,9 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         self.closes: List[TradeClose] = []
 
         self.open_value = open_value
-        self.current_close_value = current_close_value or open_value
+        self.current_close_value = (
+            open_value if current_close_value is None else current_close_value
+        )
 
         self.max_result: float = self.result
         self.min_result: float = self.result
-- 
2.43.0


From 98d0c5bcf548e156684472d5ab9b7126a364536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 02/14] fix: stop netting once the opened quantity is used up

A quantity of 0 was passed to close_from_epic for the remaining opposite
trades, which closed them entirely.
---
 estrade/trade_provider.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index dc3c60a..4874770 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -164,6 +164,8 @@ class TradeProviderBacktests(BaseTradeProvider):
         )
 
         for open_trade in self.opened_trades:
+            if trade.open_quantity <= 0:
+                break
             if open_trade.direction == opposite_direction:
                 logger.info(
                     "A trade was opened when another is still open in "
-- 
2.43.0


From a20aa14b6efd019a4c0cc9e591b47ea551088d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 03/14] fix: min/max results of a trade opened for the
 remainder of a netting

They were computed with the quantity requested and not with the quantity
actually opened.
---
 estrade/trade_provider.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index 4874770..4059c26 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -186,6 +186,8 @@ class TradeProviderBacktests(BaseTradeProvider):
                 self.close_trade(trade_close=trade_close)
 
                 trade.open_quantity -= quantities_to_close
+                # min/max results are those of the quantity actually opened
+                trade.max_result = trade.min_result = trade.result
 
         # if after decrement, the trade to open has a zero quantity, stop
         if trade.open_quantity <= 0:
-- 
2.43.0


From 1faeb9d302d22f063f1dd4a0a508441ad7a24d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 04/14] fix: do not value trades with the ticks of another epic

Epics can share a trade provider: a tick updates the trades of its own
epic only.
---
 estrade/epic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index b5cf6d0..c83893f 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -209,7 +209,8 @@ class Epic(RefMixin):
 
     def _update_open_trades(self, new_tick: "Tick") -> None:
         for trade in self.trade_provider.opened_trades:
-            trade.update_from_tick(new_tick)
+            if trade.epic is self:
+                trade.update_from_tick(new_tick)
 
     def _execute_strategies(self, market_open_before_new_tick: bool) -> None:
         for _, strategy in self.strategies.items():
-- 
2.43.0


From 08d975be83d5b0eeaa9376361e8fd27f0617b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 05/14] fix: do not net trades of different epics

Opening a trade on an epic closed opposite trades of the strategy on the
other epics of the trade provider.
---
 estrade/trade.py          | 12 ++++++++++++
 estrade/trade_provider.py |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/estrade/trade.py b/estrade/trade.py
index 51116ca..e0d7a92 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -107,6 +107,18 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         }
         return dict_representation
 
+    def is_on_same_epic(self, trade: "Trade") -> bool:
+        """
+        Check if another trade is opened on the same epic.
+
+        Arguments:
+            trade: trade to compare the current instance with.
+
+        Returns:
+            Do both trades belong to the same epic?
+        """
+        return self.epic is trade.epic
+
     ####################
     # OPEN
     ####################
diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index 4059c26..32d6a55 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -167,6 +167,8 @@ class TradeProviderBacktests(BaseTradeProvider):
             if trade.open_quantity <= 0:
                 break
             if open_trade.direction == opposite_direction:
+                if not open_trade.is_on_same_epic(trade):
+                    continue
                 logger.info(
                     "A trade was opened when another is still open in "
                     "the opposite direction."
-- 
2.43.0


From 28bd7b81e5e509e2757b37c7d8dd9c6b6e42e563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:33 +0000
Subject: [PATCH 06/14] fix: strategy statistics over an empty list of trades

An empty list was replaced by all the trades of the strategy.
---
 estrade/strategy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/strategy.py b/estrade/strategy.py
index db06314..66cc04d 100644
--- a/estrade/strategy.py
+++ b/estrade/strategy.py
@@ -145,7 +145,7 @@ class BaseStrategy(RefMixin):
         Returns:
             Result of the input list of trades.
         """
-        if not trades:
+        if trades is None:
             trades = self.trades
 
         result = 0.0
@@ -167,7 +167,7 @@ class BaseStrategy(RefMixin):
         Returns:
             Profit factor of the input list of trades.
         """
-        if not trades:
+        if trades is None:
             trades = self.trades
 
         sum_positive = 0.0
-- 
2.43.0


From e8b4766158adb5947e5138e22ccb5e16e2b0f283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:16 +0000
Subject: [PATCH 07/14] fix: compare tick instants when checking their order

---
 estrade/epic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index c83893f..02cd4a3 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -243,7 +243,8 @@ class Epic(RefMixin):
         """
         # set tick timezone
         tick.datetime = tick.datetime.to(self.timezone)
-        if tick.datetime < self.last_tick.datetime:
+        # compare instants: local times are repeated at the end of daylight saving time
+        if tick.datetime_utc < self.last_tick.datetime_utc:
             raise EpicException(
                 "Cannot handle a tick anterior to the last received tick."
             )
-- 
2.43.0


From 36f0bf2bb2041ae83ea9bbe30d4b25f5bcb68920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:13 +0000
Subject: [PATCH 08/14] fix: start a new tick frame when the day changes

---
 estrade/graph/frame_set.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index b80ec9f..b27c046 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -137,6 +137,7 @@ class FrameSet(TimeframeMixin, RefMixin):
         epic (estrade.epic.Epic): epic updating this instance
         frames (List[estrade.graph.frame_set.Frame]): List of
             [`Frame`][estrade.graph.frame_set.Frame]
+        last_tick (Optional[estrade.tick.Tick]): last tick received by this instance.
         indicators (Dict[str, estrade.graph.base_indicator.BaseIndicator]): Dict
             of indicators calculated on every [`Frame`][estrade.graph.frame_set.Frame]
             with their ref as index.
@@ -172,6 +173,7 @@ class FrameSet(TimeframeMixin, RefMixin):
 
         self.epic: Optional["Epic"] = None
         self.frames: List[Frame] = []
+        self.last_tick: Optional["Tick"] = None
         self.indicators: Dict[str, "BaseIndicator"] = {}
         self.max_frames_in_memory = max_frames_in_memory
 
@@ -250,10 +252,11 @@ class FrameSet(TimeframeMixin, RefMixin):
             not self.current
             or self.current.nb_ticks >= self.unit_quantity
             or self.epic is None
-            or tick.datetime.date() > self.epic.last_tick.datetime.date()
         ):
             return True
-        return False
+        # the epic last tick is already the new one when the epic calls its frame sets
+        last_tick = self.last_tick or self.epic.last_tick
+        return tick.datetime.date() > last_tick.datetime.date()
 
     def add_tick_to_last(self, tick: "Tick") -> None:
         if self.current:
@@ -277,6 +280,7 @@ class FrameSet(TimeframeMixin, RefMixin):
             self._create_new_frame_func(tick)
         else:
             self.add_tick_to_last(tick)
+        self.last_tick = tick
 
     def __getitem__(self, frame_index: int) -> Optional[Frame]:
         try:
-- 
2.43.0


From 5491c66b99972005131a037fe3e9b5a6fa2f0fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:15 +0000
Subject: [PATCH 09/14] fix: a frame removed from memory stays closed

---
 estrade/graph/frame_set.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index b27c046..2638596 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -59,6 +59,7 @@ class Frame:
         self.period_end = period_end
         self.previous_frame = previous_frame
         self.next_frame: Optional["Frame"] = None
+        self._removed_from_memory = False
 
         self.nb_ticks = 1
         self.last_tick = first_tick
@@ -77,9 +78,10 @@ class Frame:
         """
         Check if the current instance is closed.
 
-        An instance is considered as closed when its `next_frame` value is set.
+        An instance is considered as closed when its `next_frame` value is set, or
+        was set before the instance was removed from its parent frame set memory.
         """
-        return self.next_frame is not None
+        return self.next_frame is not None or self._removed_from_memory
 
     def _create_new_indicator_value(
         self, indicator: "BaseIndicator", market_open: bool
@@ -198,6 +200,7 @@ class FrameSet(TimeframeMixin, RefMixin):
         while len(self.frames) > self.max_frames_in_memory:
             self.frames[1].previous_frame = None
             self.frames[0].next_frame = None
+            self.frames[0]._removed_from_memory = True
             self.frames.pop(0)
             gc.collect()  # WHY ?
 
-- 
2.43.0


From 6dff5585fbae374fa988a44ede696d89e33c6719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:11 +0000
Subject: [PATCH 10/14] fix: refuse null and negative timeframe quantities

---
 estrade/mixins/timeframe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/estrade/mixins/timeframe.py b/estrade/mixins/timeframe.py
index 13107ae..b7b79f8 100644
--- a/estrade/mixins/timeframe.py
+++ b/estrade/mixins/timeframe.py
@@ -34,6 +34,9 @@ class TimeframeMixin:
         self._check_unit_consistency()
 
     def _check_unit_consistency(self) -> None:
+        if self.unit_quantity <= 0:
+            raise TimeFrameException("Timeframe Unit quantity must be positive")
+
         if self.unit in [Unit.TICK, Unit.YEAR]:
             return
 
-- 
2.43.0


From 744968ebea3759c72dafc800e07c4db54b168318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:29 +0000
Subject: [PATCH 11/14] fix: colour and parts of candles opened or ended at
 zero

---
 estrade/graph/indicators/candle_set.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/estrade/graph/indicators/candle_set.py b/estrade/graph/indicators/candle_set.py
index 5d178e2..3495e5c 100644
--- a/estrade/graph/indicators/candle_set.py
+++ b/estrade/graph/indicators/candle_set.py
@@ -55,7 +55,7 @@ class BaseCandle(BaseIndicatorValue):
         Returns:
             Color as [`CandleColor`][estrade.enums.CandleColor] enum.
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         if self.last > self.open:
@@ -100,7 +100,7 @@ class BaseCandle(BaseIndicatorValue):
                 |
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         return round(abs(self.open - self.last), 2)
@@ -122,7 +122,7 @@ class BaseCandle(BaseIndicatorValue):
                 |
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
         return round(self.high - (max(self.open, self.last)), 2)
 
@@ -143,7 +143,7 @@ class BaseCandle(BaseIndicatorValue):
                 |  ┘
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         return round(min(self.open, self.last) - self.low, 2)
-- 
2.43.0


From 7956d582db97d40ad0c7685aed3ff8526e620ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:41 +0000
Subject: [PATCH 12/14] fix: supports and resistances of a null pivot

---
 estrade/graph/indicators/pivot.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/estrade/graph/indicators/pivot.py b/estrade/graph/indicators/pivot.py
index a605f0c..2db0b1a 100644
--- a/estrade/graph/indicators/pivot.py
+++ b/estrade/graph/indicators/pivot.py
@@ -117,7 +117,7 @@ class PivotTypeClassic(BasePivotType):
             Support 1 value (pivot * 2 - high).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round((pivot * 2) - self.previous.high_tick.value, 2)  # type: ignore
         return None
 
@@ -130,7 +130,7 @@ class PivotTypeClassic(BasePivotType):
             Support 2 value (pivot - (high - low)).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 pivot
                 - (
@@ -150,7 +150,7 @@ class PivotTypeClassic(BasePivotType):
             Support 3 value (low - (high - pivot) * 2).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 self.previous.low_tick.value  # type: ignore
                 - ((self.previous.high_tick.value - pivot) * 2),  # type: ignore
@@ -167,7 +167,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 1 value (pivot * 2 - low).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round((pivot * 2) - self.previous.low_tick.value, 2)  # type: ignore
         return None
 
@@ -180,7 +180,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 2 value (pivot - (high - low)).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 pivot
                 + (
@@ -200,7 +200,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 3 value (high + (pivot - low) * 2).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 self.previous.high_tick.value  # type: ignore
                 + ((pivot - self.previous.low_tick.value) * 2),  # type: ignore
-- 
2.43.0


From 753709791d924ebd342fefa29ff00128390f2f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:57 +0000
Subject: [PATCH 13/14] fix: moving average and RSI over a single period

---
 estrade/graph/indicators/rsi.py                   | 7 ++++++-
 estrade/graph/indicators/simple_moving_average.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/estrade/graph/indicators/rsi.py b/estrade/graph/indicators/rsi.py
index 504feb8..614718d 100644
--- a/estrade/graph/indicators/rsi.py
+++ b/estrade/graph/indicators/rsi.py
@@ -48,7 +48,12 @@ class RSIValue(BaseIndicatorValue):
 
         if self.rsi_periods:
             max_last_changes_size = self.rsi_periods - 1
-            self.last_changes = self.last_changes[(max_last_changes_size * -1) :]
+            # [-0:] would keep the whole list
+            self.last_changes = (
+                self.last_changes[(max_last_changes_size * -1) :]
+                if max_last_changes_size
+                else []
+            )
 
             self._update_rsi()
 
diff --git a/estrade/graph/indicators/simple_moving_average.py b/estrade/graph/indicators/simple_moving_average.py
index 45ddf61..d25a180 100644
--- a/estrade/graph/indicators/simple_moving_average.py
+++ b/estrade/graph/indicators/simple_moving_average.py
@@ -38,7 +38,12 @@ class SimpleMovingAverageValue(BaseIndicatorValue):
             self.last_closes = self.previous.extended_closes[:]  # type: ignore
 
         max_last_closes_size = self.indicator.max_periods - 1  # type: ignore
-        self.last_closes = self.last_closes[(max_last_closes_size * -1) :]
+        # [-0:] would keep the whole list
+        self.last_closes = (
+            self.last_closes[(max_last_closes_size * -1) :]
+            if max_last_closes_size
+            else []
+        )
 
     @property
     def extended_closes(self) -> List[float]:
-- 
2.43.0


From d599c82f2feb4493c4742fbd16907192428d1d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:10 +0000
Subject: [PATCH 14/14] fix: add the rows of a report to an existing file

---
 estrade/reporting/csv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/reporting/csv.py b/estrade/reporting/csv.py
index b133b0d..d9aa42a 100644
--- a/estrade/reporting/csv.py
+++ b/estrade/reporting/csv.py
@@ -34,8 +34,8 @@ class CSVWriter:
             writer = csv.DictWriter(f, fieldnames=headers)
             if not file_exists:
                 writer.writeheader()
-                for d in dict_list:
-                    writer.writerow(d)
+            for d in dict_list:
+                writer.writerow(d)
 
 
 class ReportingCSV:
-- 
2.43.0

