from importlib.util import module_from_spec, spec_from_file_location
import os

_s = spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "bugs1.py"))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
for _k in ("EPIC FRAME BASE CANDLE PIVOT RSI SMA CSV STRAT TICK TRADE PROV TF META").split():
    globals()[_k] = getattr(_m, _k)
REF, TIMED, TP = ("estrade/mixins/ref.py", "estrade/mixins/timed.py",
                  "estrade/tick_provider.py")
BUGS = []


def bug(id, prop, edits, needs, what, demo, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo,
                     **kw))


def runs(body):
    """The statements, in a demo where an exception is a failure too."""
    return ("try:\n" + "".join("    " + l + "\n" for l in body.strip("\n").split("\n"))
            + "except Exception as e:\n    same(repr(e), 'no error')\n")


bug("C28-listing-in-place", "C28",
    [(STRAT, "        for trade in reversed(self.trades):\n            if (epics is None or trade.epic in epics) and (\n                open_only is False or trade.closed is False\n            ):\n                if only_after is not None and trade.datetime.to(\"UTC\") < only_after:\n                    break\n                yield trade\n",
      "        self.trades.reverse()\n        for trade in self.trades:\n            if (epics is None or trade.epic in epics) and (\n                open_only is False or trade.closed is False\n            ):\n                if only_after is not None and trade.datetime.to(\"UTC\") < only_after:\n                    break\n                yield trade\n        self.trades.reverse()\n")],
    "a listing which is not read to its end",
    "listing reverses the trades in place and puts them back at the end only",
    '''
class S(BaseStrategy):
    pass
e, s = Epic(), S(ref="s")
e.add_strategy(s)
e.on_new_tick(tick("2020-01-06 10:00", 5))
for k in range(3):
    s.open_trade(e, direction=BUY, quantity=1, ref=str(k))
g = s.get_trades()
next(g)
same([t.ref for t in s.get_trades()], ["2", "1", "0"], "listing")
''')

bug("C28-opened-cache", "C28",
    [(PROV, "        opened_trades = [trade for trade in reversed(self.trades) if not trade.closed]\n        return opened_trades\n",
      "        seen = [id(t) for t in self.trades if not t.closed]\n"
      "        if getattr(self, \"_opened_seen\", None) != seen:\n            self._opened_seen = seen\n"
      "            self._opened = [t for t in reversed(self.trades) if not t.closed]\n        return self._opened\n")],
    "a program which changes the list it was given",
    "the list of open trades handed out is kept and used again",
    '''
e = Epic()
e.on_new_tick(tick("2020-01-06 10:00", 5))
t = e.open_trade(direction=BUY, quantity=1)
e.trade_provider.opened_trades.clear()
e.on_new_tick(tick("2020-01-06 10:01", 6))
same(t.result, 1, "result")
''')

bug("C28-unknown-indicator", "C28",
    [(FRAME, "        indicator_value = self.indicators.get(indicator_ref, None)\n        return indicator_value\n",
      "        indicator_value = self.indicators.setdefault(indicator_ref, None)\n        return indicator_value\n"),
     (FRAME, "            current_indicator_value = self.indicators.get(indicator_ref, None)\n            if current_indicator_value is not None:\n                current_indicator_value.on_new_tick(tick, market_open)\n            else:\n",
      "            current_indicator_value = self.indicators.get(indicator_ref, None)\n            if current_indicator_value is not None:\n                current_indicator_value.on_new_tick(tick, market_open)\n            elif indicator_ref not in self.indicators or indicator.market_open_only:\n")],
    "reading an indicator of the current frame before it is registered",
    "an indicator read before it is registered gets no value on the current frame",
    '''
e, fs = Epic(), FrameSet(Unit.MINUTE, 5, ref="f")
e.add_frame_set(fs)
e.on_new_tick(tick("2020-01-06 10:00", 5))
e.get_indicator_value("f", "c")
fs.add_indicator(CandleSet(ref="c"))
e.on_new_tick(tick("2020-01-06 10:01", 6))
same(e.get_indicator_value("f", "c") is None, False, "value missing")
''')

bug("C28-report-sorts", "C28",
    [(CSV, "            strategy_trades = list(strategy.get_trades())\n",
      "            strategy.trades.sort(key=lambda t: t.datetime, reverse=True)\n            strategy_trades = list(strategy.trades)\n")],
    "trades opened at different times, and the trades listed after a report",
    "reporting sorts the trades of the strategy itself",
    '''
import tempfile
from estrade.reporting.csv import ReportingCSV
class S(BaseStrategy):
    pass
e, s = Epic(), S(ref="s")
e.add_strategy(s)
for k in range(3):
    e.on_new_tick(tick(f"2020-01-06 10:0{k}", 5))
    s.open_trade(e, direction=BUY, quantity=1, ref=str(k))
with tempfile.TemporaryDirectory() as d:
    ReportingCSV(target_folder=d).report([s], False)
same([t.ref for t in s.get_trades()], ["2", "1", "0"], "listing")
''')

bug("C29-catch-up", "C29",
    [(EPIC, "        frame_set.epic = self\n        self.frame_sets[frame_set.ref] = frame_set\n",
      "        self.frame_sets[frame_set.ref] = frame_set\n        frame_set.epic = self\n        if self.market_open:\n            frame_set.on_new_tick(self.last_tick)\n")],
    "a frame set added while the market is open",
    "a frame set added while the market is open starts with the last tick",
    '''
e = Epic()
e.on_new_tick(tick("2020-01-06 10:00", 5))
fs = FrameSet(Unit.MINUTE, 5, ref="f")
e.add_frame_set(fs)
same(fs.frames, [], "frames")
''')

bug("C29-shared", "C29",
    [(EPIC, "        frame_set.epic = self\n        self.frame_sets[frame_set.ref] = frame_set\n",
      "        self.frame_sets[frame_set.ref] = frame_set\n        frame_set.epic = self\n        for other in self.frame_sets.values():\n"
      "            if (other.unit, other.unit_quantity) == (\n                frame_set.unit, frame_set.unit_quantity\n            ) and not (other.indicators or frame_set.indicators):\n"
      "                frame_set.frames = list(other.frames)\n                break\n")],
    "a second frame set of the same timeframe added during a history, both without indicators",
    "a frame set of the same timeframe as another starts with its frames",
    '''
e = Epic()
e.add_frame_set(FrameSet(Unit.MINUTE, 5, ref="f"))
e.on_new_tick(tick("2020-01-06 10:00", 5))
fs = FrameSet(Unit.MINUTE, 5, ref="g")
e.add_frame_set(fs)
same(fs.frames, [], "frames")
''')

bug("C26-held-chain", "C26",
    [(FRAME, "            self.frames[1].previous_frame = None\n            self.frames[0].next_frame = None\n            self.frames.pop(0)\n",
      "            self.frames[1].previous_frame = None\n            self.frames.pop(0)\n")],
    "a program which keeps one old frame",
    "a dropped frame keeps all the later ones alive",
    '''
import gc, weakref
e, fs = Epic(), FrameSet(Unit.MINUTE, 1, max_frames_in_memory=2)
e.add_frame_set(fs)
refs, held = [], None
for m in range(10):
    e.on_new_tick(tick(f"2020-01-06 10:{m:02}", 5))
    held = held or fs.current
    refs.append(weakref.ref(fs.current))
gc.collect()
same(sum(r() is not None for r in refs), 3, "frames alive")
''')

bug("C17-close-all-left", "C17",
    [(STRAT, "        for trade in self.get_trades(open_only=True):\n            self.close_trade(trade=trade, **kwargs)\n",
      "        left = kwargs.get(\"quantity\")\n        for trade in self.get_trades(open_only=True):\n"
      "            trade_close = self.close_trade(trade=trade, **kwargs)\n"
      "            if left:\n                left = kwargs[\"quantity\"] = max(left - trade_close.quantity, 0)\n")],
    "closing a quantity of all open trades, with several open",
    "the quantity to close is shared between the trades, then everything is closed",
    '''
class S(BaseStrategy):
    pass
e, s = Epic(), S(ref="s")
e.add_strategy(s)
e.on_new_tick(tick("2020-01-06 10:00", 5))
for k in range(2):
    s.open_trade(e, direction=BUY, quantity=5, ref=str(k))
s.close_opened_trades(quantity=2)
same([t.opened_quantities for t in s.trades], [3, 3], "left open")
''')

bug("C16-update-epic", "C16",
    [(TRADE, "        self.update_from_tick(self.epic.last_tick)\n",
      "        if self.current_close_value != self.epic.last_tick.value:\n            self.update_from_tick(self.epic.last_tick)\n")],
    "an update from the epic when the trade's closing price happens to be the middle price",
    "the update from the epic is skipped when the current value is the middle price",
    '''
e = Epic()
e.on_new_tick(tick("2020-01-06 10:00", 4, 6))
t = e.open_trade(direction=BUY, quantity=1)
t.update(5)
t.update_from_epic()
same(t.result, -2, "result")
''')

bug("C20-after-break", "C20",
    [(STRAT, "            if (epics is None or trade.epic in epics) and (\n                open_only is False or trade.closed is False\n            ):\n                if only_after",
      "            if epics is not None and trade.epic not in epics:\n                if only_after is not None and trade.closed:\n                    break\n                continue\n"
      "            if open_only is False or trade.closed is False:\n                if only_after")],
    "trades of two epics listed with a time, a closed one of the other epic in between",
    "the listing ends at a closed trade of another epic",
    '''
class S(BaseStrategy):
    pass
a, b, s = Epic(ref="a"), Epic(ref="b"), S(ref="s")
for e in (a, b):
    e.add_strategy(s)
    e.on_new_tick(tick("2020-01-06 10:00", 5))
s.open_trade(a, direction=BUY, quantity=1, ref="1")
t = s.open_trade(b, direction=BUY, quantity=1, ref="2")
s.close_trade(t)
got = s.get_trades(epics=[a], only_after=arrow.get("2020-01-06 09:00"))
same([t.ref for t in got], ["1"], "listing")
''')

bug("C18-same-ref", "C18",
    [(PROV, "                if open_trade.strategy != trade.strategy:\n",
      "                if getattr(open_trade.strategy, \"ref\", open_trade.strategy) != getattr(\n                    trade.strategy, \"ref\", trade.strategy\n                ):\n")],
    "two strategies of different epics with the same reference, or on one provider",
    "strategies are compared by reference",
    '''
class S(BaseStrategy):
    pass
e = Epic()
e.on_new_tick(tick("2020-01-06 10:00", 5))
a, b = S(ref="s"), S(ref="s")
x = a.open_trade(e, direction=BUY, quantity=1)
y = b.open_trade(e, direction=SELL, quantity=1)
same((x.closed, y.opened_quantities), (False, 1), "netting")
''')

