EPIC = "estrade/epic.py"
FRAME = "estrade/graph/frame_set.py"
BASE = "estrade/graph/base_indicator.py"
CANDLE = "estrade/graph/indicators/candle_set.py"
PIVOT = "estrade/graph/indicators/pivot.py"
RSI = "estrade/graph/indicators/rsi.py"
SMA = "estrade/graph/indicators/simple_moving_average.py"
CSV = "estrade/reporting/csv.py"
STRAT = "estrade/strategy.py"
TICK = "estrade/tick.py"
TRADE = "estrade/trade.py"
PROV = "estrade/trade_provider.py"
TF = "estrade/mixins/timeframe.py"
META = "estrade/mixins/meta.py"

BUGS = []


def bug(id, prop, edits, needs, what, demo, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo,
                     **kw))


bug("C01-rounded-cross", "C01",
    [(TICK, "if self.bid > self.ask:", "if round(self.bid, 2) > round(self.ask, 2):")],
    "a bid above the ask by less than half a cent (forex prices)",
    "ticks whose bid is above their ask are accepted when both round to the same cent",
    '''
try:
    tick("2020-01-06 10:00", 1.10004, 1.10001)
except Exception:
    sys.exit(0)
print("crossed tick accepted")
sys.exit(1)
''')

bug("C02-offset-equal", "C02",
    [(EPIC, "        tick.datetime = tick.datetime.to(self.timezone)\n",
      "        local = tick.datetime.to(self.timezone)\n"
      "        if local.naive != tick.datetime.naive:\n"
      "            tick.datetime = local\n")],
    "ticks given in another zone whose offset equals that of the epic at this moment "
    "(UTC in winter for an epic of London), then a clock change",
    "the tick keeps its own zone, so that periods and days computed from it later do not "
    "follow the epic's clock changes",
    '''
epic = Epic(timezone="Europe/London")
fs = FrameSet(Unit.DAY, 7)
epic.add_frame_set(fs)
# the week of the clock change starts in winter time
epic.on_new_tick(tick("2020-03-24 10:00", 1))
same(epic.last_tick.datetime.tzinfo.tzname(datetime(2020, 7, 1)), "BST", "zone of the tick")
end = fs.current.period_end
same((end.day, end.hour, end.to("UTC").hour), (30, 0, 23), "end of the week")
''')

bug("C02-trades-first", "C02",
    [(EPIC, "        # set tick timezone\n        tick.datetime",
      "        self._update_open_trades(tick)\n\n        # set tick timezone\n        tick.datetime"),
     (EPIC, "        self._update_frame_sets(tick)\n\n        self._update_open_trades(tick)\n",
      "        self._update_frame_sets(tick)\n")],
    "an open trade, and a tick refused because it is anterior",
    "trades are revalued with the prices of a refused tick (and their min and max kept)",
    '''
epic = Epic()
epic.on_new_tick(tick("2020-01-06 10:00", 10))
trade = epic.open_trade(direction=BUY, quantity=1)
try:
    epic.on_new_tick(tick("2020-01-06 09:59", 4))
except Exception:
    pass
same((trade.result, trade.min_result), (0, 0), "trade after a refused tick")
''')

bug("C03-utc-holiday", "C03",
    [(EPIC, "elif self.last_tick.datetime.date() in self.holidays:",
      "elif self.last_tick.datetime_utc.date() in self.holidays:")],
    "an epic far from UTC, open at an hour whose UTC date is another day than a holiday",
    "holidays are compared with the UTC date of the tick",
    '''
epic = Epic(timezone="Australia/Sydney", holidays=[date(2020, 1, 8)])
epic.on_new_tick(tick("2020-01-08 10:00", 1, tz="Australia/Sydney"))
same(epic.market_open, False, "market open on a holiday")
''')

bug("C03-close-second", "C03",
    [(EPIC, "elif tick_datetime_time > self.close_time:",
      "elif tick_datetime_time.replace(microsecond=0) > self.close_time:")],
    "a tick less than a second after the closing time",
    "the market stays open during the fraction of second following the closing time",
    '''
epic = Epic()
epic.on_new_tick(tick("2020-01-06 17:30:00.000001", 1))
same(epic.market_open, False, "open after the closing time")
''')

bug("C03-day-cache", "C03",
    [(EPIC, "        self.holidays = holidays or []\n",
      "        self.holidays = holidays or []\n"
      "        self._trading_day: Dict[int, bool] = {}\n"),
     (EPIC, "        elif self.last_tick.datetime.weekday() not in self.trade_days:\n"
            "            logger.debug(\"Tick is not in a valid weekday\")\n"
            "            return False\n"
            "        elif self.last_tick.datetime.date() in self.holidays:\n"
            "            logger.debug(\"Tick is not in a holiday\")\n"
            "            return False\n\n        return True\n",
      "        local = self.last_tick.datetime\n"
      "        day = local.timetuple().tm_yday\n"
      "        if day not in self._trading_day:\n"
      "            self._trading_day[day] = (\n"
      "                local.weekday() in self.trade_days\n"
      "                and local.date() not in self.holidays\n"
      "            )\n"
      "        return self._trading_day[day]\n")],
    "a history of more than one year: the same day of year with another weekday",
    "whether a day is traded is remembered by day of year, wrong the following years",
    '''
epic = Epic()
for when, want in (("2020-01-10 10:00", True), ("2020-01-11 10:00", False),
                   ("2021-01-10 10:00", False), ("2021-01-11 10:00", True)):
    epic.on_new_tick(tick(when, 1))
    same(epic.market_open, want, when)
''')

bug("C04-dedupe", "C04",
    [(EPIC, "        # update last tick\n        self.last_tick = tick\n",
      "        if (\n"
      "            tick.datetime == self.last_tick.datetime\n"
      "            and tick.bid == self.last_tick.bid\n"
      "            and tick.ask == self.last_tick.ask\n"
      "        ):\n"
      "            # nothing new\n"
      "            return\n\n"
      "        # update the last tick\n        self.last_tick = tick\n")],
    "two successive ticks with the same time and the same prices",
    "the second of two identical ticks is dropped: no notification, not counted in frames",
    '''
class S(BaseStrategy):
    n = 0
    def on_every_tick(self, epic):
        self.n += 1

epic, s = Epic(), S()
epic.add_strategy(s)
for _ in range(3):
    epic.on_new_tick(tick("2020-01-06 10:00", 10, 11))
same(s.n, 3, "notifications of identical ticks")
''')

bug("C04-late-notice", "C04",
    [(EPIC, "                if market_open_before_new_tick != self.market_open:\n"
            "                    if market_open_before_new_tick is True:\n",
      "                known = self._notified.get(\n"
      "                    strategy.ref, market_open_before_new_tick\n"
      "                )\n"
      "                self._notified[strategy.ref] = self.market_open\n"
      "                if known != self.market_open:\n"
      "                    if known is True:\n"),
     (EPIC, "        self.strategies: Dict[str, \"BaseStrategy\"] = {}\n",
      "        self.strategies: Dict[str, \"BaseStrategy\"] = {}\n"
      "        self._notified: Dict[str, bool] = {}\n")],
    "a strategy paused or stopped while the market opens or closes",
    "openings and closings are notified late to strategies which were inactive "
    "at that tick, though the tick did not change the market state",
    '''
class S(BaseStrategy):
    def __init__(self):
        super().__init__()
        self.log = []
    def on_market_open(self, epic):
        self.log.append(str(epic.last_tick.datetime))

epic, s = Epic(), S()
epic.add_strategy(s)
epic.on_new_tick(tick("2020-01-06 09:00", 1))
s.paused_until = arrow.get("2020-01-06 11:00")
epic.on_new_tick(tick("2020-01-06 10:00", 1))
epic.on_new_tick(tick("2020-01-06 12:00", 1))
same(s.log, [], "market opening notices")
''')

bug("C05-open-state-late", "C05",
    [(EPIC, "        market_open_before_new_tick = self.market_open\n",
      "        market_open_before_new_tick = self.market_open\n"
      "        if self._to_notify is not None:\n"
      "            # the last change was not notified to all strategies\n"
      "            market_open_before_new_tick = self._to_notify\n"
      "        self._to_notify = market_open_before_new_tick\n"),
     (EPIC, "        self._execute_strategies(market_open_before_new_tick)\n",
      "        self._execute_strategies(self._to_notify)\n"
      "        self._to_notify = None\n"),
     (EPIC, "        self.market_open: bool = False\n",
      "        self.market_open: bool = False\n        self._to_notify: Optional[bool] = None\n")],
    "a strategy raising on the tick which opens or closes the market, then another tick",
    "after a failure on an opening, the next tick notifies the opening a second time though "
    "the market was already open",
    '''
class S(BaseStrategy):
    opens = 0
    def on_market_open(self, epic):
        self.opens += 1
    def on_every_tick(self, epic):
        if epic.last_tick.meta.get("fail"):
            raise ValueError

epic, s = Epic(), S()
epic.add_strategy(s)
try:
    epic.on_new_tick(tick("2020-01-06 10:00", 1, meta={"fail": 1}))
except ValueError:
    pass
epic.on_new_tick(tick("2020-01-06 10:01", 1))
same(s.opens, 1, "market opening notices")
''')

bug("C05-trades-after", "C05",
    [(EPIC, "        self._update_open_trades(tick)\n\n"
            "        self._execute_strategies(market_open_before_new_tick)\n",
      "        self._execute_strategies(market_open_before_new_tick)\n\n"
      "        self._update_open_trades(tick)\n")],
    "a strategy reading the result of an open trade in a notification, or raising",
    "open trades are valued after the strategies are notified: they see the previous price, "
    "and the valuation is skipped when a strategy raises",
    '''
seen = []
class S(BaseStrategy):
    def on_every_tick(self, epic):
        for t in self.get_trades():
            seen.append(t.result)
        if not seen and not self.trades:
            self.open_trade(epic, direction=BUY, quantity=1)

epic, s = Epic(), S()
epic.add_strategy(s)
epic.on_new_tick(tick("2020-01-06 10:00", 10))
epic.on_new_tick(tick("2020-01-06 10:01", 12))
same(seen, [2.0], "result seen by the strategy")
''')

bug("C06-filler-cap", "C06",
    [(FRAME, "            while period_start > self.current.period_end:\n",
      "            missing = 0\n"
      "            while (\n"
      "                period_start > self.current.period_end\n"
      "                and missing < self.max_frames_in_memory\n"
      "            ):\n"
      "                missing += 1\n")],
    "a gap without ticks longer than the number of frames kept",
    "only the first missing periods get an empty frame: the kept frames are not those just "
    "before the new one, which does not start where the previous one ends",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1, max_frames_in_memory=5)
epic.add_frame_set(fs)
epic.on_new_tick(tick("2020-01-06 10:00", 1))
epic.on_new_tick(tick("2020-01-06 10:20", 1))
f = fs.current
same(f.previous_frame.period_end, f.period_start, "frames follow each other")
''')

bug("C06-shift-wall", "C06",
    [(TF, "        frame_end = frame_start.shift(**self._timedelta)\n",
      "        if self.unit in (Unit.MONTH, Unit.YEAR):\n"
      "            return frame_start.shift(**self._timedelta)\n"
      "        end_utc = frame_start.to(\"UTC\").shift(**self._timedelta)\n"
      "        frame_end = end_utc.to(frame_start.tzinfo)\n")],
    "a daily or weekly period containing a clock change",
    "periods of days and weeks end a fixed number of hours after their start, off by one "
    "hour in the zones and weeks of a clock change",
    '''
epic, fs = Epic(timezone="Europe/Paris"), FrameSet(Unit.DAY, 1)
epic.add_frame_set(fs)
epic.on_new_tick(tick("2020-03-29 01:00", 1, tz="Europe/Paris"))
epic.on_new_tick(tick("2020-03-30 00:30", 2, tz="Europe/Paris"))
same([f.nb_ticks for f in fs.frames], [1, 1], "ticks by day")
same(str(fs.frames[0].period_end), "2020-03-30T00:00:00+02:00", "end of the day")
''')

bug("C08-ties", "C08",
    [(FRAME, "        if tick.value > self.high_tick.value:\n", "        if tick.value >= self.high_tick.value:\n")],
    "a tick equal to the highest of the frame",
    "the highest tick of a frame is the latest of the highest ones instead of the earliest "
    "(and a frame where the first tick is the highest and lowest)",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
for s, v in ((0, 1), (1, 5), (2, 3), (3, 5)):
    epic.on_new_tick(tick(f"2020-01-06 10:00:0{s}", v))
same(fs.current.high_tick.datetime.second, 1, "time of the first highest tick")
''')

bug("C08-bid", "C08",
    [(FRAME, "        if tick.value > self.high_tick.value:\n            self.high_tick = tick\n"
             "        elif tick.value < self.low_tick.value:\n",
      "        if tick.bid > self.high_tick.bid:\n            self.high_tick = tick\n"
      "        elif tick.bid < self.low_tick.bid:\n")],
    "a spread changing between ticks, so that bids and values are not ordered alike",
    "the highest and lowest ticks of a frame are chosen by bid instead of value",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
epic.on_new_tick(tick("2020-01-06 10:00:00", 10, 11))
epic.on_new_tick(tick("2020-01-06 10:00:01", 9.5, 13))
same(fs.current.high_tick.value, 11.25, "highest value")
''')

bug("C09-batch", "C09",
    [(FRAME, "        while len(self.frames) > self.max_frames_in_memory:\n",
      "        # clean by batches\n"
      "        batch = self.max_frames_in_memory // 20\n"
      "        if len(self.frames) <= self.max_frames_in_memory + batch:\n"
      "            return\n"
      "        for _ in range(len(self.frames) - self.max_frames_in_memory):\n")],
    "a limit of at least 20 frames, and a history longer than the limit",
    "old frames are dropped by batches: more frames than the configured limit are kept",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1, max_frames_in_memory=40)
epic.add_frame_set(fs)
for m in range(41):
    epic.on_new_tick(tick(f"2020-01-06 10:{m:02d}", m))
same(len(fs.frames), 40, "frames kept")
''')

bug("C10-one-cent", "C10",
    [(CANDLE, "        if self.last > self.open:\n            return CandleColor.GREEN\n"
              "        elif self.last < self.open:\n",
      "        move = self.last - self.open\n"
      "        if move > 0.01:\n            return CandleColor.GREEN\n"
      "        elif move < -0.01:\n")],
    "a candle whose body is exactly one cent (depending on how it is represented)",
    "a candle moving by one cent is black",
    '''
epic, fs, c = Epic(), FrameSet(Unit.MINUTE, 1), CandleSet(ref="c")
epic.add_frame_set(fs)
fs.add_indicator(c)
epic.on_new_tick(tick("2020-01-06 10:00", 2.49))
epic.on_new_tick(tick("2020-01-06 10:00:01", 2.5))
same(fs.current["c"].color.name, "GREEN", "color")
''')

bug("C10-head-abs", "C10",
    [(CANDLE, "        return round(self.high - (max(self.open, self.last)), 2)\n",
      "        return round(abs(self.high) - abs(max(self.open, self.last)), 2)\n")],
    "negative prices",
    "the head of a candle is negative when prices are negative",
    '''
epic, fs, c = Epic(), FrameSet(Unit.MINUTE, 1), CandleSet(ref="c")
epic.add_frame_set(fs)
fs.add_indicator(c)
for s, v in ((0, -10), (1, -5), (2, -8)):
    epic.on_new_tick(tick(f"2020-01-06 10:00:0{s}", v))
same(fs.current["c"].head, 3.0, "head")
''')

bug("C12-stale-cache", "C12",
    [(SMA, "        if len(self.extended_closes) < periods:\n            return None\n"
           "        raw_value = sum(self.extended_closes[(periods * -1) :]) / periods\n"
           "        return round(raw_value, 2)\n",
      "        key = (periods, self.frame.nb_ticks)\n"
      "        if key not in self._values:\n"
      "            if len(self.extended_closes) < periods:\n"
      "                return None\n"
      "            raw_value = sum(self.extended_closes[(periods * -1) :]) / periods\n"
      "            self._values[key] = round(raw_value, 2)\n"
      "        return self._values[key]\n"),
     (SMA, "        self.last_closes: List[float] = []\n",
      "        self.last_closes: List[float] = []\n"
      "        self._values = self.previous._values if self.previous else {}\n")],
    "reading the average on a frame with as many ticks as an earlier one had when read",
    "averages are remembered by period and tick count but the memory is shared with the "
    "previous frames",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
fs.add_indicator(SimpleMovingAverage(max_periods=2, ref="s"))
got = []
for m, v in ((0, 1), (1, 2), (2, 8)):
    epic.on_new_tick(tick(f"2020-01-06 10:0{m}", v))
    got.append(fs.current["s"].get_value(2))
same(got, [None, 1.5, 5.0], "averages")
''')

bug("C13-flat", "C13",
    [(RSI, "        if neg_sum == 0:\n            return 100\n",
      "        if neg_sum == pos_sum:\n            return 50\n"
      "        if neg_sum == 0:\n            return 100\n"),
     (RSI, "        elif pos_sum == 0:\n            return 0\n", "        if pos_sum == 0:\n            return 0\n")],
    "a window without any change",
    "the RSI of a flat window is 50 instead of 100",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
fs.add_indicator(RSI(periods=2, ref="r"))
for m in range(4):
    epic.on_new_tick(tick(f"2020-01-06 10:0{m}", 5))
same(fs.current["r"].value, 100, "RSI without losses")
''')

bug("C13-rounded-avg", "C13",
    [(RSI, "            pos_sum_avg = pos_sum / self.rsi_periods\n"
           "            neg_sum_avg = neg_sum / self.rsi_periods\n",
      "            pos_sum_avg = round(pos_sum / self.rsi_periods, 3)\n"
      "            neg_sum_avg = round(neg_sum / self.rsi_periods, 3) or -0.001\n")],
    "small changes over a long window: averages below a few cents",
    "the average gain and loss are rounded before their ratio is taken",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
fs.add_indicator(RSI(periods=14, ref="r"))
for m in range(16):
    epic.on_new_tick(tick(f"2020-01-06 10:{m:02d}", 1 + (0.01 if m % 3 == 1 else 0)))
same(fs.current["r"].value, 44.44, "RSI")  # 4 gains and 5 losses of one cent
''')

bug("C14-cache", "C14",
    [(PIVOT, "        if self.previous:\n            pivot = round(\n                (\n"
             "                    self.previous.high_tick.value\n"
             "                    + self.previous.low_tick.value\n"
             "                    + self.previous.last_tick.value\n                )\n                / 3,\n"
             "                2,\n            )\n            return pivot\n",
      "        if self.previous:\n"
      "            start, value = getattr(self.indicator, \"_last\", (None, None))\n"
      "            if start != self.frame.period_start:\n"
      "                value = round(\n                    (\n"
      "                        self.previous.high_tick.value\n"
      "                        + self.previous.low_tick.value\n"
      "                        + self.previous.last_tick.value\n                    )\n                    / 3,\n"
      "                    2,\n                )\n"
      "                self.indicator._last = self.frame.period_start, value\n"
      "            return value\n")],
    "tick-count frames starting at the same instant (several ticks in one instant)",
    "the pivot is remembered by period start, which several tick-count frames can share",
    '''
epic, fs = Epic(), FrameSet(Unit.TICK, 1)
epic.add_frame_set(fs)
fs.add_indicator(Pivot(ref="p"))
got = []
for v in (1, 2, 6, 7):
    epic.on_new_tick(tick("2020-01-06 10:00", v))
    got.append(fs.current["p"].pivot)
same(got, [None, 1.0, 2.0, 6.0], "pivots")
''')

bug("C14-s2-abs", "C14",
    [(PIVOT, "            return round((pivot * 2) - self.previous.low_tick.value, 2)  # type: ignore\n",
      "            return round(pivot + abs(pivot - self.previous.low_tick.value), 2)  # type: ignore\n")],
    "an OLHC pivot below the low of the previous frame (the market gaps down)",
    "resistance 1 is above the pivot even when the pivot is below the previous low",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
fs.add_indicator(Pivot(pivot_type=PivotType.OLHC, ref="p"))
epic.on_new_tick(tick("2020-01-06 10:00", 100))
epic.on_new_tick(tick("2020-01-06 10:01", 20))
same((fs.current["p"].pivot, fs.current["p"].resistance1), (80.0, 60.0), "pivot, resistance 1")
''')


bug("C05-swallow-close", "C05",
    [(EPIC, "                        strategy.on_market_close(self)\n",
      "                        try:\n"
      "                            strategy.on_market_close(self)\n"
      "                        except Exception:\n"
      "                            logger.exception(\"market close notification\")\n")],
    "a strategy raising from its market closing notice",
    "a failure of a strategy at the closing never reaches the caller",
    '''
class S(BaseStrategy):
    def on_market_close(self, epic):
        raise ValueError

epic = Epic()
epic.add_strategy(S())
epic.on_new_tick(tick("2020-01-06 10:00", 1))
try:
    epic.on_new_tick(tick("2020-01-06 18:00", 1))
except ValueError:
    sys.exit(0)
print("failure swallowed")
sys.exit(1)
''')

bug("C08-filler-link", "C08",
    [(FRAME, "        if self.current:\n            self.current.next_frame = new_frame\n",
      "        if self.current and self.current.last_tick is not tick:\n"
      "            self.current.next_frame = new_frame\n")],
    "a period without tick",
    "a frame followed by an empty one has no successor and is not closed",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
epic.on_new_tick(tick("2020-01-06 10:00", 1))
epic.on_new_tick(tick("2020-01-06 10:03", 1))
same([f.closed for f in fs.frames], [True] * 3 + [False], "closed frames")
''')

bug("C09-clamp", "C09",
    [(FRAME, "            frame = self.frames[frame_index]\n",
      "            frame = self.frames[max(frame_index, -self.max_frames_in_memory)]\n")],
    "a full frame set, and a frame looked up further than the limit",
    "looking up a frame beyond what is kept returns the oldest kept frame",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1, ref="m", max_frames_in_memory=3)
epic.add_frame_set(fs)
for m in range(5):
    epic.on_new_tick(tick(f"2020-01-06 10:{m:02d}", m))
same([epic.get_frame("m", k) is None for k in range(6)], [False] * 3 + [True] * 3, "lookup")
''')

bug("C12-zero", "C12",
    [(SMA, "        raw_value = sum(self.extended_closes[(periods * -1) :]) / periods\n",
      "        closes = [c for c in self.extended_closes[(periods * -1) :] if c]\n"
      "        raw_value = sum(closes) / (len(closes) or 1)\n")],
    "a frame closing at 0",
    "closes equal to 0 are left out of the average",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
fs.add_indicator(SimpleMovingAverage(max_periods=2, ref="s"))
for m in (0, 1):
    epic.on_new_tick(tick(f"2020-01-06 10:0{m}", 4 * m))
same(fs.current["s"].get_value(2), 2.0, "average of 0 and 4")
''')

bug("C13-stale", "C13",
    [(RSI, "        if self.rsi_periods and len(self.extended_changes) == self.rsi_periods:\n",
      "        if not self.rsi_periods or len(self.extended_changes) != self.rsi_periods:\n"
      "            return\n"
      "        if self.value is None or self.extended_changes[-1]:\n")],
    "the current frame moving, then coming back to the last value of the previous frame",
    "the RSI is not updated by a tick equal to the last value of the previous frame",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
fs.add_indicator(RSI(periods=2, ref="r"))
for m, v in (("00:00", 5), ("01:00", 6), ("02:00", 4), ("02:01", 6)):
    epic.on_new_tick(tick(f"2020-01-06 10:{m}", v))
same(fs.current["r"].value, 100, "RSI")
''')
