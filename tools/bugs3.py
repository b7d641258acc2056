from importlib.util import module_from_spec, spec_from_file_location
import os

_s = spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "bugs1.py"))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
for _k in ("EPIC FRAME BASE CANDLE PIVOT RSI SMA CSV STRAT TICK TRADE PROV TF META").split():
    globals()[_k] = getattr(_m, _k)
BUGS = []


def bug(id, prop, edits, needs, what, demo, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo,
                     **kw))


bug("C07-day-number", "C07",
    [(FRAME, "            or tick.datetime.date() > self.epic.last_tick.datetime.date()\n",
      "            or tick.datetime.day > self.epic.last_tick.datetime.day\n"),
     (FRAME, "                and tick.datetime.date() > self._last_tick.datetime.date()\n",
      "                and tick.datetime.day > self._last_tick.datetime.day\n")],
    "consecutive ticks on both sides of the end of a month",
    "days are compared by their number in the month: a tick-count frame spans two days at the "
    "end of a month",
    '''
epic, fs = Epic(), FrameSet(Unit.TICK, 5)
epic.add_frame_set(fs)
epic.on_new_tick(tick("2020-01-31 10:00", 1))
epic.on_new_tick(tick("2020-02-03 10:00", 1))
same([f.nb_ticks for f in fs.frames], [1, 1], "ticks by frame")
''')

bug("C11-two-means", "C11",
    [(CANDLE, "                self.first_tick.value\n                + self.high_tick.value\n"
              "                + self.low_tick.value\n                + self.last_tick.value\n"
              "            )\n            / 4,\n",
      "                round((self.high_tick.value + self.low_tick.value) / 2, 2)\n"
      "                + round((self.first_tick.value + self.last_tick.value) / 2, 2)\n"
      "            )\n            / 2,\n")],
    "values whose half sums fall between two cents in the same direction",
    "the last value of a Heikin Ashi candle is the mean of two rounded means",
    '''
worst = 0
for n in range(6 ** 3):
    epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
    epic.add_frame_set(fs)
    fs.add_indicator(CandleSet(CandleType.HEIKIN_ASHI, ref="c"))
    for s in range(3):
        epic.on_new_tick(tick(f"2020-01-06 10:00:0{s}", round(1 + n // 6 ** s % 6 / 100, 2)))
    c = fs.current["c"]
    raw = sum(x.value for x in (c.first_tick, c.high_tick, c.low_tick, c.last_tick)) / 4
    worst = max(worst, abs(c.last - raw))
same(worst < 0.00501, True, f"rounded to two decimals (off by {worst})")
''')

bug("C11-low-of-body", "C11",
    [(CANDLE, "        return round(min(self.open, self.low_tick.value, self.last), 2)\n",
      "        lowest = self.open\n"
      "        if self.color is not CandleColor.BLACK:\n"
      "            lowest = min(self.open, self.low_tick.value, self.last)\n"
      "        return round(lowest, 2)\n")],
    "a candle whose open and last are equal although its lowest value is below",
    "the low of a candle without body ignores its lowest value",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
fs.add_indicator(CandleSet(CandleType.HEIKIN_ASHI, ref="c"))
for s, v in enumerate((10, 14, 6, 10)):
    epic.on_new_tick(tick(f"2020-01-06 10:00:0{s}", v))
c = fs.current["c"]
same((c.open, c.last, c.low), (10, 10, 6), "open, last and low")
''')

bug("C13-registered", "C13",
    [(FRAME, "        indicator.set_frame_set(self)\n        self.indicators[indicator.ref] = indicator\n",
      "        self.indicators[indicator.ref] = indicator\n        indicator.set_frame_set(self)\n"),
     (RSI, "        super(RSI, self).set_frame_set(frame_set)\n",
      "        super().set_frame_set(frame_set)\n")],
    "a relative strength index longer than the kept history, and ticks after its refusal",
    "a refused indicator stays registered on the frame set",
    '''
from estrade.exceptions import BaseIndicatorException
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1, max_frames_in_memory=5)
epic.add_frame_set(fs)
try:
    fs.add_indicator(RSI(periods=6, ref="r"))
except BaseIndicatorException:
    pass
else:
    same("accepted", "refused")
same(list(fs.indicators), [], "indicators")
''')

bug("C13-flat-frames", "C13",
    [(RSI, "            if value >= 0:\n                pos_sum += value\n",
      "            if value >= 0.01:\n                pos_sum += value\n"),
     (RSI, "            else:\n                neg_sum += value\n",
      "            elif value <= -0.01:\n                neg_sum += value\n")],
    "changes of exactly one cent, slightly below it in binary",
    "changes of one cent are ignored depending on their binary rounding",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
fs.add_indicator(RSI(periods=2, ref="r"))
for m, v in enumerate((10.00, 10.01, 9.99)):
    epic.on_new_tick(tick(f"2020-01-06 10:0{m}", v))
for k in range(300):
    epic = Epic()
    fs = FrameSet(Unit.MINUTE, 1)
    epic.add_frame_set(fs)
    fs.add_indicator(RSI(periods=2, ref="r"))
    base = round(10 + k / 100, 2)
    for m, v in enumerate((base, round(base + 0.01, 2), round(base - 0.01, 2))):
        epic.on_new_tick(tick(f"2020-01-06 10:0{m}", v))
    got = fs.current["r"].value
    if abs(got - 33.33) > 0.05:
        same(got, 33.33, f"up one cent, down two from {base}")
''')

bug("C15-depth", "C15",
    [(BASE, "        while frame is not None:\n", "        for _ in range(16):\n"
            "            if frame is None:\n                break\n")],
    "more than sixteen frames out of market hours (a night of minutes)",
    "the previous value of a restricted indicator is not found beyond sixteen frames",
    '''
epic, fs = Epic(), FrameSet(Unit.HOUR, 1)
epic.add_frame_set(fs)
fs.add_indicator(CandleSet(ref="c", market_open_only=True))
epic.on_new_tick(tick("2020-01-03 17:10", 1))
for d in ("03", "04", "05"):
    for h in range(18 if d == "03" else 0, 24):
        epic.on_new_tick(tick(f"2020-01-{d} {h:02d}:10", 1))
for h in range(10):
    epic.on_new_tick(tick(f"2020-01-06 {h:02d}:10", 1))
epic.on_new_tick(tick("2020-01-06 10:10", 1))
p = fs.current["c"].previous
same(p is not None, True, "previous value")
''')

bug("C16-window", "C16",
    [(PROV, "        opened_trades = [trade for trade in reversed(self.trades) if not trade.closed]\n",
      "        recent = self.trades[-20:]\n"
      "        opened_trades = [trade for trade in reversed(recent) if not trade.closed]\n")],
    "more than twenty trades of which an old one is still open",
    "trades older than the last twenty are no longer listed as open nor revalued",
    '''
epic = Epic()
epic.on_new_tick(tick("2020-01-06 10:00", 10))
first = epic.open_trade(direction=BUY, quantity=1)
for _ in range(20):
    epic.close_trade(epic.open_trade(direction=BUY, quantity=1))
epic.on_new_tick(tick("2020-01-06 10:01", 12))
same(first.result, 2, "result of the first trade")
''')

bug("C18-stops-at-other", "C18",
    [(PROV, "                        \"As both trades does not belongs to the same strategy, \"\n"
            "                        \"the existing trade will not be closed. Be warned that in \"\n"
            "                        \"a live environement, this behaviour will not be applied.\"\n"
            "                    )\n                    continue\n",
      "                        \"The existing trade will not be closed as both trades does \"\n"
      "                        \"not belongs to the same strategy. Be warned that in \"\n"
      "                        \"a live environement, this behaviour will not be applied.\"\n"
      "                    )\n                    break\n")],
    "a more recent opposite trade of another strategy in front of the strategy's own",
    "netting stops at the first opposite trade of another strategy: the strategy then holds "
    "trades in both directions",
    '''
epic, s, o = Epic(), BaseStrategy(), BaseStrategy()
epic.on_new_tick(tick("2020-01-06 10:00", 10))
a = s.open_trade(epic, direction=BUY, quantity=2)
o.open_trade(epic, direction=BUY, quantity=2)
s.open_trade(epic, direction=SELL, quantity=2)
same((a.opened_quantities, len(s.trades)), (0, 1), "left open, trades")
''')

bug("C24-same-offset", "C24",
    [(EPIC, "        tick.datetime = tick.datetime.to(self.timezone)\n",
      "        local = tick.datetime.to(self.timezone)\n"
      "        if local.utcoffset() != tick.datetime.utcoffset():\n"
      "            tick.datetime = local\n")],
    "ticks whose own zone has the offset of the epic's at that time, and a period going over a "
    "clock change",
    "a tick keeps its zone when the offset is the same: the periods then end at the other "
    "zone's clock",
    '''
out = []
for tz in ("UTC", "Europe/London"):
    epic, fs = Epic(timezone="Europe/London"), FrameSet(Unit.MONTH, 3)
    epic.add_frame_set(fs)
    epic.on_new_tick(Tick(arrow.get("2020-03-02 10:00").to(tz), 1, 1))
    epic.on_new_tick(Tick(arrow.get("2020-03-31 23:30").to(tz), 2, 2))
    out.append(len(fs.frames))
same(out[0], out[1], "number of frames")
''')

bug("C24-unit-cache", "C24",
    [(TF, "        timeframe_start = self._get_frame_start_func(dt)\n        return timeframe_start\n",
      "        key = (self.unit, str(dt))\n"
      "        if key != TimeframeMixin._last_start[0]:\n"
      "            TimeframeMixin._last_start = (key, self._get_frame_start_func(dt))\n"
      "        return TimeframeMixin._last_start[1]\n"),
     (TF, "class TimeframeMixin:\n", "class TimeframeMixin:\n    _last_start: tuple = (None, None)\n\n")],
    "two frame sets of the same unit and other quantities receiving the same tick",
    "the period start of one frame set is used for another one with another quantity",
    '''
epic, a, b = Epic(), FrameSet(Unit.MINUTE, 5), FrameSet(Unit.MINUTE, 15)
epic.add_frame_set(a)
epic.add_frame_set(b)
epic.on_new_tick(tick("2020-01-06 10:10", 1))
same(b.current.period_start, arrow.get("2020-01-06 10:00"), "start")
''')

bug("C02-same-value", "C02",
    [(EPIC, "        # update last tick\n        self.last_tick = tick\n",
      "        # nothing new\n"
      "        if tick.asdict() == self.last_tick.asdict():\n"
      "            return\n"
      "        self.last_tick = tick\n")],
    "two ticks with the same instant and prices",
    "a tick equal to the last one is dropped",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1)
epic.add_frame_set(fs)
for _ in range(2):
    epic.on_new_tick(tick("2020-01-06 10:00", 1))
same(fs.current.nb_ticks, 2, "ticks")
''')

bug("C17-float-left", "C17",
    [(TRADE, "        return self.open_quantity - self.closed_quantities\n",
      "        return max(self.open_quantity - self.closed_quantities, 0)\n"),
     (TRADE, "            )\n            quantity = self.opened_quantities\n",
      "            )\n            quantity = self.opened_quantities or quantity\n")],
    "a close of a given quantity on a trade already closed",
    "closing a closed trade with a quantity records that quantity once more",
    '''
epic = Epic()
epic.on_new_tick(tick("2020-01-06 10:00", 10))
t = epic.open_trade(direction=BUY, quantity=2)
epic.close_trade(t)
epic.close_trade(t, quantity=1)
same(t.closed_quantities, 2, "closed quantities")
''')

bug("C04-pause-second", "C04",
    [(STRAT, "        is_paused = self._is_paused(new_tick_date)\n",
      "        is_paused = self._is_paused(new_tick_date.floor(\"second\"))\n")],
    "a pause ending within a second, and a tick later in that second",
    "the end of a pause is compared to the second of the tick",
    '''
seen = []


class S(BaseStrategy):
    def on_every_tick(self, epic):
        seen.append(epic.last_tick.value)


epic, s = Epic(), S()
epic.add_strategy(s)
s.paused_until = arrow.get("2020-01-06 10:00:00.300000")
epic.on_new_tick(tick("2020-01-06 10:00:00.500000", 1))
same(seen, [1], "ticks notified")
''')

bug("C09-offset-zero", "C09",
    [(FRAME, "            frame = self.frames[frame_index]\n",
      "            frame = self.frames[\n"
      "                max(frame_index, -self.max_frames_in_memory)\n"
      "                if self.max_frames_in_memory > 20\n"
      "                else frame_index\n            ]\n")],
    "a distance beyond a full history of more than twenty frames",
    "a lookup beyond the kept history gives the oldest frame instead of nothing",
    '''
epic, fs = Epic(), FrameSet(Unit.MINUTE, 1, ref="f", max_frames_in_memory=30)
epic.add_frame_set(fs)
for m in range(40):
    epic.on_new_tick(tick(f"2020-01-06 10:{m:02d}", m))
same(epic.get_frame("f", 30), None, "frame at distance 30")
''')

bug("C19-daemon", "C19",
    [(PROV, "            kwargs={\"trade\": trade},\n        )\n        self.threads.append(thr)\n",
      "            kwargs={\"trade\": trade},\n        )\n        self._register(thr)\n"),
     (PROV, "            kwargs={\"trade_close\": trade_close},\n        )\n        self.threads.append(thr)\n",
      "            kwargs={\"trade_close\": trade_close},\n        )\n        self._register(thr)\n"),
     (PROV, "    def close_trade(self, trade_close: \"TradeClose\") -> None:\n        \"\"\"\n        Close a trade.\n",
      "    def _register(self, thr: threading.Thread) -> None:\n"
      "        # do not keep the program alive for a request\n"
      "        thr.daemon = True\n"
      "        self.threads.append(thr)\n\n"
      "    def close_trade(self, trade_close: \"TradeClose\") -> None:\n        \"\"\"\n        Close a trade.\n")],
    "a program which ends while requests are still running",
    "requests still running when the program ends are dropped",
    '''
import os, subprocess, tempfile
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "sent")
    code = f"""
import time, arrow
from estrade import *
from estrade.enums import TradeDirection
class P(BaseTradeProvider):
    def open_trade_request(self, trade):
        time.sleep(1)
        open({path!r}, "w").write(trade.ref)
epic = Epic(trade_provider=P())
epic.on_new_tick(Tick(arrow.get("2020-01-06 10:00"), 1, 1))
epic.open_trade(direction=TradeDirection.BUY, quantity=1, ref="x")
"""
    subprocess.run([sys.executable, "-c", code], check=True)
    same(os.path.exists(path), True, "request passed")
''')
