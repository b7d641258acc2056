from importlib.util import module_from_spec, spec_from_file_location
import os

_s = spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "bugs1.py"))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
for _k in ("EPIC FRAME BASE CANDLE PIVOT RSI SMA CSV STRAT TICK TRADE PROV TF META").split():
    globals()[_k] = getattr(_m, _k)
BUGS = []


def bug(id, prop, edits, needs, what, demo, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo,
                     **kw))




def runs(body):
    """The statements, in a demo where an exception is a failure too."""
    return ("try:\n" + "".join("    " + l + "\n" for l in body.strip("\n").split("\n"))
            + "except Exception as e:\n    same(repr(e), 'no error')\n")


bug("C01-rounded-parts", "C01",
    [(TICK, "        return round(self.ask - self.bid, 2)\n",
      "        return round(round(self.ask, 2) - round(self.bid, 2), 2)\n")],
    "prices with more than two decimals, whose cents are further apart than they are",
    "the spread is the difference of prices already rounded to cents",
    '''
same(tick("2020-01-06 10:00", 1.1049, 1.1051).spread, 0.0, "spread")
''')

bug("C01-utc-fold", "C01",
    [("estrade/mixins/timed.py", "        return self.datetime.to(\"UTC\")\n",
      "        offset = self.datetime.datetime.replace(fold=0).utcoffset()\n"
      "        return self.datetime.replace(tzinfo=\"UTC\").shift(\n"
      "            seconds=-offset.total_seconds()\n        )\n")],
    "a time in the second pass of a repeated hour",
    "the UTC time of a tick in the second pass of a repeated hour is an hour early",
    '''
t = Tick(arrow.get("2020-10-25 01:30").to("Europe/Paris"), 1, 1)
same(t.datetime_utc.format("HH:mm"), "01:30", "UTC time")
''')

bug("C01-dict-utc", "C01",
    [(TICK, "            \"datetime\": self.datetime.strftime(\"%Y-%m-%d %H:%M:%S\")\n",
      "            \"datetime\": self.datetime_utc.strftime(\"%Y-%m-%d %H:%M:%S\")\n")],
    "a tick out of UTC converted to a dictionary with its time as text",
    "the dictionary shows the UTC time as text and the local one otherwise",
    '''
t = tick("2020-01-06 10:00", 1, tz="Asia/Tokyo")
same(t.asdict(True)["datetime"], "2020-01-06 10:00:00", "time")
''')

bug("C03-overnight", "C03",
    [(EPIC, "        if tick_datetime_time < self.open_time:\n",
      "        if self.open_time > self.close_time:\n"
      "            # the session goes over midnight\n"
      "            return not self.close_time < tick_datetime_time < self.open_time\n"
      "        if tick_datetime_time < self.open_time:\n"),
     (EPIC, "            logger.debug(\"Tick is not in Market hours\")\n            return False\n        elif",
      "            logger.debug(\"Tick is not in Market hours\")\n            return False\n        if")],
    "an opening time after the closing time",
    "the market opens overnight when the opening time is after the closing time",
    '''
epic = Epic(open_time=time(17), close_time=time(9))
epic.on_new_tick(tick("2020-01-06 20:00", 1))
same(epic.market_open, False, "market")
''')

bug("C03-minute", "C03",
    [(EPIC, "        self.market_open: bool = False\n",
      "        self.market_open: bool = False\n"
      "        self._checked: Optional[str] = None\n        self._was_open = False\n"),
     (EPIC, "            logger.debug(\"Tick is not in a holiday\")\n", "            logger.debug(\"Tick is in a holiday\")\n"),
     (EPIC, "        if not self._in_market_hours(self.last_tick.datetime.time()):\n",
      "        minute = self.last_tick.datetime.format(\"YYYY-MM-DD HH:mm\")\n"
      "        if minute != self._checked:\n"
      "            self._checked = minute\n"
      "            self._was_open = self._is_open_now()\n"
      "        return self._was_open\n\n"
      "    def _is_open_now(self) -> bool:\n"
      "        if not self._in_market_hours(self.last_tick.datetime.time()):\n")],
    "two ticks of the same minute on both sides of an opening or closing",
    "the market state is only computed once by minute",
    '''
epic = Epic(close_time=time(17, 30))
for s, want in (("17:30:00", True), ("17:30:01", False)):
    epic.on_new_tick(tick("2020-01-06 " + s, 1))
    same(epic.market_open, want, s)
''')

bug("C03-days-once", "C03",
    [(EPIC, "        self.trade_days = trade_days or [0, 1, 2, 3, 4]\n",
      "        self.trade_days = trade_days or [0, 1, 2, 3, 4]\n"
      "        self._closed_days = {d for d in range(7) if d not in self.trade_days}\n"),
     (EPIC, "        elif self.last_tick.datetime.weekday() not in self.trade_days:\n",
      "        elif self.last_tick.datetime.weekday() in self._closed_days:\n")],
    "the trading days of an epic changed after its creation",
    "changing the trading days of an epic has no effect",
    '''
epic = Epic()
epic.trade_days = [5, 6]
epic.on_new_tick(tick("2020-01-06 12:00", 1))
same(epic.market_open, False, "market")
''')

bug("C05-swallow-own", "C05",
    [(EPIC, "                strategy.on_every_tick(self)\n",
      "                try:\n                    strategy.on_every_tick(self)\n"
      "                except EpicException as error:\n"
      "                    logger.error(\"Strategy %s: %s\", strategy.ref, error)\n")],
    "a strategy raising the package's own epic error from its general notice",
    "a failure of a strategy which is an epic error never reaches the caller",
    '''
from estrade.exceptions import EpicException
class S(BaseStrategy):
    def on_every_tick(self, epic):
        raise EpicException("mine")
epic = Epic()
epic.add_strategy(S())
try:
    epic.on_new_tick(tick("2020-01-06 12:00", 1))
except EpicException:
    sys.exit(0)
same("swallowed", "raised")
''')

bug("C05-stop-failing", "C05",
    [(EPIC, "            if strategy.is_active(self.last_tick.datetime):\n"
            "                if market_open_before_new_tick != self.market_open:\n",
      "            active = strategy.is_active(self.last_tick.datetime)\n            if active:\n"
      "                # only a strategy which gets to the end is called again\n"
      "                strategy.stopped = True\n"
      "                if market_open_before_new_tick != self.market_open:\n"),
     (EPIC, "                strategy.on_every_tick(self)\n",
      "                strategy.on_every_tick(self)\n                strategy.stopped = False\n")],
    "a strategy which raises, then another tick",
    "a strategy which raised once is not notified anymore (and none can stop itself)",
    '''
class S(BaseStrategy):
    seen = 0
    def on_every_tick(self, epic):
        self.seen += 1
        if self.seen == 1:
            raise ValueError
epic, s = Epic(), S()
epic.add_strategy(s)
for m in range(3):
    try:
        epic.on_new_tick(tick(f"2020-01-06 12:0{m}", 1))
    except ValueError:
        pass
same(s.seen, 3, "notices")
''')

bug("C05-restricted-late", "C05",
    [(EPIC, "        self._update_frame_sets(tick)\n\n        self._update_open_trades(tick)\n\n"
            "        self._execute_strategies(market_open_before_new_tick)\n",
      "        self._update_open_trades(tick)\n\n"
      "        try:\n            self._execute_strategies(market_open_before_new_tick)\n"
      "        finally:\n            self._update_frame_sets(tick)\n")],
    "a strategy reading a frame from its notice",
    "strategies are notified before the frames are updated with the tick",
    '''
class S(BaseStrategy):
    def on_every_tick(self, epic):
        self.n = epic.frame_sets["f"].frames[-1].nb_ticks if epic.frame_sets["f"].frames else 0
epic, s = Epic(), S()
epic.add_strategy(s)
epic.add_frame_set(FrameSet(Unit.HOUR, 1, ref="f"))
for m in range(3):
    epic.on_new_tick(tick(f"2020-01-06 12:0{m}", 1))
same(s.n, 3, "ticks in the frame when notified")
''')

bug("C06-filler-first", "C06",
    [(FRAME, "                    self.current.last_tick,\n                    next_start,\n",
      "                    self.current.first_tick,\n                    next_start,\n")],
    "periods without ticks after a frame of several ticks",
    "empty frames repeat the first tick of the previous frame instead of the last one",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
for t, v in (("10:00:00", 1), ("10:00:30", 2), ("10:03:00", 3)):
    epic.on_new_tick(tick("2020-01-06 " + t, v))
same([f.last_tick.value for f in fs.frames], [2, 2, 2, 3], "last values")
''')

bug("C06-equal-end", "C06",
    [(FRAME, "        if not self.current or tick.datetime >= self.current.period_end:\n",
      "        if not self.current or (\n"
      "            tick.datetime.floor(\"second\") > self.current.period_end\n"
      "            if self.unit_quantity == 60\n"
      "            else tick.datetime >= self.current.period_end\n        ):\n")],
    "frames of 60 seconds or minutes, and a tick exactly at their end or within its second",
    "a tick at the very end of a frame of 60 units belongs to it",
    '''
epic, fs = Epic(), FrameSet(Unit.SECOND, 60)
epic.add_frame_set(fs)
for t in ("10:00:00", "10:01:00"):
    epic.on_new_tick(tick("2020-01-06 " + t, 1))
same(len(fs.frames), 2, "frames")
''')

bug("C07-utc-day", "C07",
    [(FRAME, "        self.epic: Optional[\"Epic\"] = None\n        self._last_tick",
      "        self.epic: Optional[\"Epic\"] = None\n        self._utc_day = None\n"
      "        self._last_tick"),
     (FRAME, "            or tick.datetime.date() > self.epic.last_tick.datetime.date()\n",
      "            or self._is_new_day(tick)\n"),
     (FRAME, "                and tick.datetime.date() > self._last_tick.datetime.date()\n",
      "                and tick.datetime_utc.date() > self._last_tick.datetime_utc.date()\n"),
     (FRAME, "    def add_tick_to_last(self",
      "    def _is_new_day(self, tick: \"Tick\") -> bool:\n"
      "        return tick.datetime_utc.date() > self.epic.last_tick.datetime_utc.date()\n\n"
      "    def add_tick_to_last(self")],
    "an epic out of UTC, and ticks on both sides of midnight, local or UTC",
    "tick-count frames are cut at midnight UTC instead of local midnight",
    '''
epic, fs = Epic(timezone="Asia/Tokyo"), FrameSet(Unit.TICK, 5)
epic.add_frame_set(fs)
for t in ("2020-01-06 14:30", "2020-01-06 15:30"):
    epic.on_new_tick(tick(t, 1))
same([f.nb_ticks for f in fs.frames], [1, 1], "ticks by frame")
''')

bug("C07-closed-market", "C07",
    [(FRAME, "            or self.current.nb_ticks >= self.unit_quantity\n",
      "            or self.current.nb_ticks >= self.unit_quantity\n"
      "            or (\n                self.epic is not None\n"
      "                and self.epic.market_open is True\n"
      "                and self.current.last_tick.datetime.time() < self.epic.open_time\n"
      "            )\n"),
     (FRAME, "            or self.epic is None\n", "            or not self.epic\n")],
    "the market opening in the middle of a tick-count frame",
    "a tick-count frame is cut short when the market opens",
    '''
epic, fs = Epic(), FrameSet(Unit.TICK, 3)
epic.add_frame_set(fs)
for t in ("09:00", "09:10", "10:00"):
    epic.on_new_tick(tick("2020-01-06 " + t, 1))
same([f.nb_ticks for f in fs.frames], [3], "ticks by frame")
''')

bug("C09-skip-none", "C09",
    [(EPIC, "        indicator_value = frame[indicator_ref]\n        return indicator_value\n",
      "        indicator_value = frame[indicator_ref]\n"
      "        while indicator_value is None and frame.previous_frame is not None:\n"
      "            frame = frame.previous_frame\n"
      "            indicator_value = frame[indicator_ref]\n"
      "        return indicator_value  # may be None\n")],
    "an indicator without value on a frame (restricted to market hours), looked up",
    "looking up the value of an indicator on a frame gives the one of an earlier frame",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1, ref="f")
epic.add_frame_set(fs)
fs.add_indicator(CandleSet(ref="c", market_open_only=True))
for t in ("17:30:00", "17:31:00"):
    epic.on_new_tick(tick("2020-01-06 " + t, 1))
same(epic.get_indicator_value("f", "c"), None, "value")
''')

bug("C09-limit-plus", "C09",
    [(FRAME, "        while len(self.frames) > self.max_frames_in_memory:\n",
      "        # the current frame is not part of the history\n"
      "        while len([f for f in self.frames if f.closed]) > self.max_frames_in_memory:\n")],
    "a history longer than the limit",
    "one more frame than the configured limit is kept",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1, max_frames_in_memory=3)
epic.add_frame_set(fs)
for m in range(6):
    epic.on_new_tick(tick(f"2020-01-06 10:0{m}", 1))
same(len(fs.frames), 3, "frames kept")
''')

bug("C10-zero-close", "C10",
    [(CANDLE, "        if self.closed:\n            return round(self.last_tick.value, 2)\n        return None\n\n\nclass Heikin",
      "        value = round(self.last_tick.value, 2) if self.closed else 0\n"
      "        return value or None\n\n\nclass Heikin")],
    "a candle closing at 0",
    "a candle closing at 0 has no closing value",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
fs.add_indicator(CandleSet(ref="c"))
for m, v in enumerate((1, 0)):
    epic.on_new_tick(tick(f"2020-01-06 10:00:0{m}", v))
epic.on_new_tick(tick(f"2020-01-06 10:01", 1))
same(fs.frames[0]["c"].close, 0, "close")
''')

bug("C10-large", "C10",
    [(CANDLE, "        return self.high - self.low\n",
      "        return float(format(self.high - self.low, \".6g\"))\n")],
    "a candle of thousands whose height has cents",
    "the height of a candle is rounded to six digits",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
fs.add_indicator(CandleSet(ref="c"))
for m, v in enumerate((100, 12345.67, 100)):
    epic.on_new_tick(tick(f"2020-01-06 10:00:0{m}", v))
same(fs.current["c"].height, 12345.67 - 100, "height")
''')

bug("C11-high-close", "C11",
    [(CANDLE, "        return round(max(self.open, self.high_tick.value, self.last), 2)\n",
      "        if self.closed:\n            return round(max(self.open, self.high_tick.value), 2)\n"
      "        return round(max(self.open, self.high_tick.value, self.last), 2)\n"),
     (CANDLE, "        return round(min(self.open, self.low_tick.value, self.last), 2)\n",
      "        low = round(min(self.open, self.low_tick.value, self.last), 2)\n"
      "        return low if self.open else round(min(self.low_tick.value, self.last), 2)\n")],
    "a candle whose open is 0 and is its lowest value",
    "the low of a candle ignores an open value of 0",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
fs.add_indicator(CandleSet(CandleType.HEIKIN_ASHI, ref="c"))
epic.on_new_tick(tick("2020-01-06 10:00", 0))
epic.on_new_tick(tick("2020-01-06 10:01", 10))
same(fs.current["c"].low, 0, "low")
''')

bug("C12-skip-empty", "C12",
    [(SMA, "        if self.previous:\n            self.last_closes = self.previous.extended_closes[:]  # type: ignore\n",
      "        previous = self.previous\n"
      "        if previous and previous.frame.first_tick is previous.last_tick and (\n"
      "            previous.previous\n"
      "            and previous.previous.last_tick is previous.last_tick\n        ):\n"
      "            # a frame without any tick of its own\n"
      "            previous = previous.previous\n"
      "        if previous:\n            self.last_closes = previous.extended_closes[:]  # type: ignore\n")],
    "periods without ticks",
    "frames without ticks are left out of averages",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
fs.add_indicator(SimpleMovingAverage(5, ref="s"))
epic.on_new_tick(tick("2020-01-06 10:00", 1))
epic.on_new_tick(tick("2020-01-06 10:03", 5))
same(fs.current["s"].get_value(4), 2, "average")
''')

bug("C12-alias", "C12",
    [(SMA, "        extended_closes = self.last_closes + [self.last_tick.value]\n        return extended_closes\n",
      "        if len(self._extended) > len(self.last_closes):\n"
      "            self._extended[-1] = self.last_tick.value\n"
      "        else:\n"
      "            self._extended = self.last_closes + [self.last_tick.value]\n"
      "        return self._extended\n"),
     (SMA, "        self.last_closes: List[float] = []\n",
      "        self._extended: List[float] = []\n        self.last_closes: List[float] = []\n"),
     (SMA, "            self.last_closes = self.previous.extended_closes[:]  # type: ignore\n",
      "            self.last_closes = self.previous.extended_closes  # type: ignore\n"),
     (SMA, "        self.last_closes = self.last_closes[first_index:]\n",
      "        if first_index:\n            self.last_closes = self.last_closes[first_index:]\n"),
     (SMA, "        if len(self.extended_closes) < periods:\n",
      "        if self.closed:\n            return self.frozen(periods)\n"
      "        return self.mean(periods)\n\n"
      "    def frozen(self, periods: int) -> Optional[float]:\n"
      "        return self.mean(min(periods, self.indicator.max_periods))\n\n"
      "    def mean(self, periods: int) -> Optional[float]:\n"
      "        if len(self.extended_closes) < periods:\n")],
    "an average over more periods than the maximum, on a closed frame",
    "asking more periods than the maximum on a closed frame gives the average of the maximum",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
fs.add_indicator(SimpleMovingAverage(2, ref="s"))
for m in range(4):
    epic.on_new_tick(tick(f"2020-01-06 10:0{m}", m))
same(fs.frames[2]["s"].get_value(3), None, "average beyond the maximum")
''')

bug("C13-since-first", "C13",
    [(RSI, "        extended_changes = self.last_changes + [current_change]\n        return extended_changes\n",
      "        if not self.frame.closed and self.frame.nb_ticks == 1:\n            current_change = self.frame.last_tick.value - self.frame.first_tick.value\n"
      "        return self.last_changes + [current_change]\n")],
    "the first tick of a frame away from the last of the previous one",
    "the change of a frame is null until its second tick",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
fs.add_indicator(RSI(periods=2, ref="r"))
for m, v in enumerate((10, 12, 11)):
    epic.on_new_tick(tick(f"2020-01-06 10:0{m}:00", v))
    epic.on_new_tick(tick(f"2020-01-06 10:0{m}:01", v)) if m < 2 else None
same(fs.current["r"].value, 66.67, "value")
''')

bug("C13-hours", "C13",
    [(RSI, "        self.rsi_periods = self.periods * frame_set.unit_quantity\n",
      "        quantity = frame_set.unit_quantity\n"
      "        self.rsi_periods = self.periods * quantity\n"
      "        if self.rsi_periods > 60:\n"
      "            self.rsi_periods = max(self.periods, 60)\n")],
    "a window of more than 60 changes",
    "windows are limited to 60 changes",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 30)
epic.add_frame_set(fs)
fs.add_indicator(RSI(periods=3, ref="r"))
start = arrow.get("2020-01-06")
for k in range(70):
    epic.on_new_tick(Tick(start.shift(minutes=30 * k), k, k))
same(fs.current["r"].value, None, "value before 90 changes")
''')

bug("C14-empty", "C14",
    [(PIVOT, "        if self.previous:\n            pivot = round(\n                (\n                    self.previous.high_tick.value\n                    + self.previous.low_tick.value\n                    + self.previous.last_tick.value\n                )\n                / 3,\n                2,\n            )\n            return pivot\n        return None\n\n    @property\n    def support1",
      "        if self.previous:\n            last = self.previous.last_tick\n"
      "            if self.closed:\n                # settled by the first tick after the previous frame\n"
      "                last = self.previous.last_tick if self.frame.nb_ticks > 1 else self.first_tick\n"
      "            pivot = round(\n                (\n                    self.previous.high_tick.value\n                    + self.previous.low_tick.value\n                    + last.value\n                )\n                / 3,\n                2,\n            )\n            return pivot\n        return None\n\n    @property\n    def support1")],
    "a closed frame with a single tick, read afterwards",
    "the pivot of a frame with a single tick changes when it is closed",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
fs.add_indicator(Pivot(ref="p"))
for m, v in enumerate((3, 6, 9)):
    epic.on_new_tick(tick(f"2020-01-06 10:0{m}", v))
same(fs.frames[1]["p"].pivot, 3, "pivot")
''')

bug("C14-no-range", "C14",
    [(PIVOT, "            return round((pivot * 2) - self.previous.high_tick.value, 2)  # type: ignore\n",
      "            high = self.previous.high_tick.value  # type: ignore\n"
      "            if self.previous.low_tick is self.previous.high_tick:  # type: ignore\n"
      "                return pivot\n"
      "            return round((pivot * 2) - high, 2)\n")],
    "an OLHC pivot whose previous frame has a single value",
    "support 1 is the pivot itself when the previous frame has no range",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
fs.add_indicator(Pivot(PivotType.OLHC, ref="p"))
for m, v in enumerate((4, 8)):
    epic.on_new_tick(tick(f"2020-01-06 10:0{m}", v))
same((fs.current["p"].pivot, fs.current["p"].support1), (5, 6), "pivot and support")
''')

bug("C14-s3-pivot-low", "C14",
    [(PIVOT, "                self.previous.low_tick.value  # type: ignore\n                - ((self.previous.high_tick.value - pivot) * 2),  # type: ignore\n",
      "                min(self.previous.low_tick.value, pivot)  # type: ignore\n                - ((self.previous.high_tick.value - pivot) * 2),  # type: ignore\n")],
    "an OLHC pivot below the low of the previous frame",
    "support 3 is computed from the pivot when it is below the previous low",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
fs.add_indicator(Pivot(PivotType.OLHC, ref="p"))
for m, v in enumerate((8, 0)):
    epic.on_new_tick(tick(f"2020-01-06 10:0{m}", v))
same((fs.current["p"].pivot, fs.current["p"].support3), (6, 4), "pivot and support")
''')

bug("C15-close-tick", "C15",
    [(BASE, "        if not self.indicator.market_open_only or market_open:\n            self.last_tick = tick\n",
      "        closing = self.indicator.epic is not None and (\n"
      "            tick.datetime.time() == self.indicator.epic.close_time\n        )\n"
      "        if not self.indicator.market_open_only or (market_open and not closing):\n"
      "            self.last_tick = tick\n")],
    "a tick exactly at the closing time",
    "a restricted indicator ignores the tick at the closing time, in market hours",
    '''
epic, fs = Epic(), FrameSet(Unit.HOUR, 1)
epic.add_frame_set(fs)
fs.add_indicator(CandleSet(ref="a", market_open_only=True))
epic.on_new_tick(tick("2020-01-06 17:00", 5))
epic.on_new_tick(tick("2020-01-06 17:30", 6))
same(fs.current["a"].last, 6, "last value")
''')

bug("C15-extremes", "C15",
    [(BASE, "            if tick.value > self.high_tick.value:\n                self.high_tick = tick\n            elif tick.value < self.low_tick.value:\n                self.low_tick = tick\n",
      "            if self.high_tick.value < tick.value:\n                self.high_tick = tick\n            elif tick.value < self.low_tick.value:\n                self.low_tick = tick\n"
      "            if self.indicator.market_open_only and self.frame.high_tick is not (\n"
      "                self.high_tick\n            ):\n"
      "                if tick is self.frame.last_tick and self.frame.nb_ticks % 7 == 0:\n"
      "                    self.high_tick = self.frame.high_tick\n")],
    "a frame of seven ticks or more, the highest received out of market hours",
    "the highest tick of a restricted indicator is, on some ticks, the one of the whole frame",
    '''
epic, fs = Epic(), FrameSet(Unit.DAY, 1)
epic.add_frame_set(fs)
fs.add_indicator(CandleSet(ref="a", market_open_only=True))
epic.on_new_tick(tick("2020-01-06 08:00", 50))
for m in range(6):
    epic.on_new_tick(tick(f"2020-01-06 10:0{m}", 5))
same(fs.current["a"].high, 5, "highest value")
''')

bug("C16-close-zero", "C16",
    [(TRADE, "        new_close = TradeClose(\n            trade=self,\n            close_value=close_value,\n",
      "        new_close = TradeClose(\n            trade=self,\n            close_value=close_value or self.current_close_value,\n")],
    "a trade closed at an explicit price of 0",
    "a close at an explicit price of 0 is recorded at the current value",
    '''
epic = Epic()
epic.on_new_tick(tick("2020-01-06 10:00", 5))
t = epic.open_trade(direction=BUY, quantity=1)
t.close(close_value=0, datetime=arrow.get("2020-01-06 10:01"))
same(t.result, -5, "result")
''')

bug("C16-max-explicit", "C16",
    [(TRADE, "        self.current_close_value = current_close_value\n\n        self._update_min_max()\n",
      "        changed = self.current_close_value != current_close_value\n"
      "        self.current_close_value = current_close_value\n\n"
      "        if changed or not self.closes:\n            self._update_min_max()\n")],
    "an explicit close at another price than the current one, then a tick at an unchanged price",
    "the largest and smallest results are not updated by a tick at the same price after a close",
    '''
epic = Epic()
epic.on_new_tick(tick("2020-01-06 10:00", 5))
t = epic.open_trade(direction=BUY, quantity=2)
t.close(close_value=9, datetime=arrow.get("2020-01-06 10:01"), quantity=1)
epic.on_new_tick(tick("2020-01-06 10:02", 5))
same(t.max_result, 4, "largest result")
''')

bug("C18-confirmed", "C18",
    [(PROV, "                logger.warning(\"It will be closed before opening a new position\")\n",
      "                logger.warning(\"It will be closed before the new one is opened\")\n"
      "                if open_trade.datetime == trade.datetime and open_trade.closes:\n"
      "                    continue\n")],
    "an opposite trade of the same instant, already partially closed",
    "a partially closed trade of the same instant is not netted",
    '''
epic = Epic()
epic.on_new_tick(tick("2020-01-06 10:00", 5))
t = epic.open_trade(direction=BUY, quantity=5)
epic.close_trade(t, quantity=3)
u = epic.open_trade(direction=SELL, quantity=6)
same(u.open_quantity, 4, "quantity opened")
''')

bug("C20-logged", "C20",
    [(STRAT, "        result = 0.0\n        for trade in trades:\n            result += trade.result\n",
      "        if logger.isEnabledFor(logging.DEBUG):\n"
      "            logger.debug(\"Result of %s\", [trade.ref for trade in trades])\n"
      "        result = 0.0\n        for trade in trades:\n            result = result + trade.result\n")],
    "the result of a generator of trades, while debug messages are logged",
    "the result of a generator is 0 when debug messages are logged",
    '''
import logging
logging.getLogger("estrade").setLevel(logging.DEBUG)
e, s = Epic(), BaseStrategy()
e.on_new_tick(tick("2020-01-06 10:00", 5))
s.open_trade(e, direction=BUY, quantity=1)
e.on_new_tick(tick("2020-01-06 10:01", 6))
same(s.result(s.get_trades()), 1, "result")
''')
