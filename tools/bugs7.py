from importlib.util import module_from_spec, spec_from_file_location
import os

_s = spec_from_file_location("b6", os.path.join(os.path.dirname(__file__), "bugs6.py"))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
for _k in ("EPIC FRAME BASE CANDLE PIVOT RSI SMA CSV STRAT TICK TRADE PROV TF META REF TIMED TP "
           "runs").split():
    globals()[_k] = getattr(_m, _k)
BUGS = []


def bug(id, prop, edits, needs, what, demo, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo,
                     **kw))


bug("C01-spread-kept", "C01",
    [(TICK, "        return round(self.ask - self.bid, 2)\n",
      "        if getattr(self, \"_spread\", None) is None:\n"
      "            self._spread = round(self.ask - self.bid, 2)\n        return self._spread\n")],
    "a price of the tick corrected after the spread was read",
    "the spread is computed once",
    '''
t = tick("2020-01-06 10:00", 5, 6)
t.spread
t.ask = 8
same((t.spread, t.value), (3, 6.5), "spread and value")
''')

bug("C04-active-first", "C04",
    [(EPIC, "            if strategy.is_active(self.last_tick.datetime):\n                if market_open_before_new_tick != self.market_open:\n",
      "            if strategy in active:\n                if market_open_before_new_tick != self.market_open:\n"),
     (EPIC, "        # strategies can register other ones while they are notified\n",
      "        active = [\n            s\n            for s in self.strategies.values()\n            if s.is_active(self.last_tick.datetime)\n        ]\n"
      "        # strategies can register other ones while they are notified\n")],
    "a strategy stopped by an earlier one's notification of the same tick",
    "which strategies are active is decided before the first is notified",
    '''
got = []
class A(BaseStrategy):
    def on_every_tick(self, epic):
        b.stopped = True
class B(BaseStrategy):
    def on_every_tick(self, epic):
        got.append(1)
e, a, b = Epic(), A(), B()
e.add_strategy(a)
e.add_strategy(b)
e.on_new_tick(tick("2020-01-06 10:00", 5))
same(got, [], "notifications of a stopped strategy")
''')

bug("C16-cached-closed", "C16",
    [(TRADE, "        return sum(close.result for close in self.closes) if self.closes else 0\n\n    @property\n    def result(self)",
      "        if getattr(self, \"_closed_result\", (0, 0))[0] != len(self.closes):\n"
      "            self._closed_result = (\n                len(self.closes),\n                sum(close.result for close in self.closes),\n            )\n"
      "        return self._closed_result[1] if self.closes else 0\n\n    @property\n    def result(self)")],
    "a provider which writes the price a close was really made at",
    "the result of the closed part is kept until another close",
    '''
class P(BaseTradeProvider):
    def open_trade_request(self, trade):
        return trade
    def close_trade_request(self, trade_close):
        return trade_close
e = Epic(trade_provider=P())
e.on_new_tick(tick("2020-01-06 10:00", 5))
t = e.open_trade(direction=BUY, quantity=2)
e.on_new_tick(tick("2020-01-06 10:01", 7))
c = e.close_trade(t)
t.result
c.close_value = 6.5
same((t.closed_result, t.result), (3, 3), "result")
''')

bug("C16-no-provider-price", "C16",
    [(TRADE, "        if self.trade.direction == TradeDirection.BUY:\n            return round(self.close_value - self.trade.open_value, 2)\n        return round(self.trade.open_value - self.close_value, 2)\n",
      "        open_value = self._open_value\n        if self.trade.direction == TradeDirection.BUY:\n            return round(self.close_value - open_value, 2)\n        return round(open_value - self.close_value, 2)\n"),
     (TRADE, "        self.trade = trade\n        self.close_value = close_value\n",
      "        self.trade = trade\n        self._open_value = trade.open_value\n        self.close_value = close_value\n")],
    "a provider which writes the price a trade was really opened at, after a partial close",
    "a close remembers the opening price known when it was made",
    '''
e = Epic()
e.on_new_tick(tick("2020-01-06 10:00", 5))
t = e.open_trade(direction=BUY, quantity=2)
e.on_new_tick(tick("2020-01-06 10:01", 7))
e.close_trade(t, quantity=1)
t.open_value = 6
same((t.closed_result, t.opened_result, t.result), (1, 1, 2), "result")
''')

bug("C18-valued", "C18",
    [(PROV, "                trade_close = open_trade.close_from_epic(quantity=quantities_to_close)\n",
      "                trade_close = open_trade.close(\n                    close_value=open_trade.current_close_value,\n"
      "                    datetime=open_trade.epic.last_tick.datetime,\n                    quantity=quantities_to_close,\n                )\n")],
    "a trade whose valuation was updated by hand before an opposite one is opened",
    "netting closes at the last known valuation, not at the price of the epic",
    '''
e = Epic()
e.on_new_tick(tick("2020-01-06 10:00", 5, 6))
t = e.open_trade(direction=BUY, quantity=2)
e.on_new_tick(tick("2020-01-06 10:01", 7, 8))
t.update(9)
e.open_trade(direction=SELL, quantity=2)
same([c.close_value for c in t.closes], [7], "closing price")
''')

bug("C20-epic-ref", "C20",
    [(STRAT, "            if (epics is None or trade.epic in epics) and (\n",
      "            if (epics is None or trade.epic.ref in [e.ref for e in epics]) and (\n")],
    "trades of one strategy on two epics having the same reference",
    "listings compare epics by reference",
    '''
class S(BaseStrategy):
    pass
a, b, s = Epic(ref="x"), Epic(ref="x"), S(ref="s")
for e in (a, b):
    e.on_new_tick(tick("2020-01-06 10:00", 5))
    s.open_trade(e, direction=BUY, quantity=1)
same(len(list(s.get_trades(epics=[a]))), 1, "listing")
''')

bug("C21-line-end", "C21",
    [(CSV, "            writer = csv.DictWriter(f, fieldnames=headers)\n",
      "            writer = csv.DictWriter(f, fieldnames=headers, lineterminator=\"\\n\")\n"),
     (CSV, "        return file_exists, open(file_path, open_mode, newline=\"\")\n",
      "        return file_exists, open(file_path, open_mode, newline=\"\\r\\n\")\n")],
    "a reference holding a newline",
    "files are written with line ends translated",
    '''
import csv, glob, tempfile
from estrade.reporting.csv import ReportingCSV
class S(BaseStrategy):
    pass
with tempfile.TemporaryDirectory() as d:
    ReportingCSV(d).report([S(ref="a\\nb")], trade_details=False)
    f, = glob.glob(d + "/*_strategies.csv")
    with open(f, newline="") as h:
        same([r["ref"] for r in csv.DictReader(h)], ["a\\nb"], "reference")
''')

bug("C24-machine-zone", "C24",
    [(EPIC, "        if tick.datetime_utc < self.last_tick.datetime_utc:\n",
      "        if (\n            tick.datetime_utc.naive.timestamp()\n            < self.last_tick.datetime_utc.naive.timestamp()\n        ):\n")],
    "a machine set to a timezone whose clocks change during the history",
    "instants are compared through the timezone of the machine",
    '''
import os, time as clock
os.environ["TZ"] = "America/New_York"
clock.tzset()
e = Epic()
e.on_new_tick(tick("2020-11-01 01:50", 5))
try:
    e.on_new_tick(tick("2020-11-01 02:10", 6))
    e.on_new_tick(tick("2020-03-08 02:30", 6))
    same(1, 2, "anterior tick accepted")
except Exception as x:
    same(type(x).__name__, "EpicException", "refusal")
e = Epic()
try:
    e.on_new_tick(tick("2020-03-08 02:50", 6))
    e.on_new_tick(tick("2020-03-08 03:00", 6))
    e.on_new_tick(tick("2020-03-08 03:20", 6))
except Exception as x:
    same(repr(x), "no error", "increasing ticks")
''')

bug("C26-trade-tick", "C26",
    [(TRADE, "        trade = Trade(\n            epic=epic,\n            **kwargs,\n        )\n        return trade\n",
      "        trade = Trade(epic=epic, **kwargs)\n        trade.open_tick = tick\n        return trade\n")],
    "trades opened on an epic which receives more ticks than are kept",
    "every trade keeps the tick it was opened at",
    '''
import gc, weakref
e = Epic()
t = tick("2020-01-06 10:00", 5)
w = weakref.ref(t)
e.on_new_tick(t)
e.open_trade(direction=BUY, quantity=1)
del t
e.on_new_tick(tick("2020-01-06 10:01", 5))
gc.collect()
same(w() is None, True, "tick released")
''')

bug("C26-last-valued", "C26",
    [(TRADE, "        self.update(current_close_value)\n\n    def update_from_epic",
      "        self.update(current_close_value)\n        self.last_tick = tick\n\n    def update_from_epic")],
    "closed trades of an epic which goes on receiving ticks",
    "every trade keeps the last tick it was valued at",
    '''
import gc, weakref
e = Epic()
e.on_new_tick(tick("2020-01-06 10:00", 5))
t = e.open_trade(direction=BUY, quantity=1)
e.on_new_tick(tick("2020-01-06 10:01", 5))
e.close_trade(t)
w = weakref.ref(e.last_tick)
e.on_new_tick(tick("2020-01-06 10:02", 5))
gc.collect()
same(w() is None, True, "tick released")
''')

bug("C17-closes-merged", "C17",
    [(TRADE, "        return self.opened_quantities == 0\n",
      "        return self.opened_quantities <= 0 or self.status.name == \"CLOSED\"\n")],
    "a provider which writes the status CLOSED on a trade of which a part is left open",
    "the status decides whether a trade is closed",
    '''
e = Epic()
e.on_new_tick(tick("2020-01-06 10:00", 5))
t = e.open_trade(direction=BUY, quantity=2)
e.close_trade(t, quantity=1)
t.status = TransactionStatus.CLOSED
same(t.closed, False, "closed")
''')

bug("C19-refused", "C19",
    [(PROV, "        opened_trades = [trade for trade in reversed(self.trades) if not trade.closed]\n",
      "        opened_trades = [\n            trade\n            for trade in reversed(self.trades)\n"
      "            if not trade.closed and trade.status is not TransactionStatus.PENDING\n        ]\n")],
    "a request which leaves the trade pending",
    "pending trades are not valued any more",
    '''
class P(BaseTradeProvider):
    def open_trade_request(self, trade):
        trade.status = TransactionStatus.PENDING
        return trade
    def close_trade_request(self, trade_close):
        return trade_close
e = Epic(trade_provider=P())
e.on_new_tick(tick("2020-01-06 10:00", 5))
t = e.open_trade(direction=BUY, quantity=2)
for thr in e.trade_provider.threads:
    thr.join()
e.on_new_tick(tick("2020-01-06 10:01", 7))
same(t.result, 4, "result")
''')

bug("C22-provider-refs", "C22",
    [(TP, "        return self.epics.get(ref)\n",
      "        if ref not in self.epics:\n            for key, epic in self.epics.items():\n"
      "                if key.lower() == str(ref).lower():\n                    return epic\n        return self.epics.get(ref)\n")],
    "a reference which only differs by case from a known one",
    "the tick provider looks epics up without regard to case",
    '''
from estrade.tick_provider import BaseTickProvider
p = BaseTickProvider([Epic(ref="dax")])
same(p.get_epic_by_ref("DAX"), None, "epic found")
''')

bug("C03-closing-day", "C03",
    [(EPIC, "        elif self.last_tick.datetime.date() in self.holidays:\n",
      "        elif self.last_tick.datetime.date() in set(self._holidays_seen()):\n"),
     (EPIC, "    def is_market_open(self) -> bool:\n",
      "    def _holidays_seen(self):\n        if len(getattr(self, \"_hol\", ())) != len(self.holidays):\n"
      "            self._hol = list(self.holidays)\n        return self._hol\n\n    def is_market_open(self) -> bool:\n")],
    "a holiday replaced by another between ticks",
    "the holidays are read again only when their number changes",
    '''
e = Epic(holidays=[date(2020, 1, 6)])
e.on_new_tick(tick("2020-01-06 10:00", 5))
e.holidays[0] = date(2020, 1, 7)
e.on_new_tick(tick("2020-01-06 11:00", 5))
same(e.market_open, True, "market open")
''')

bug("C09-same-length", "C09",
    [(FRAME, "        while len(self.frames) > self.max_frames_in_memory:\n",
      "        if len(self.frames) > self.max_frames_in_memory:\n")],
    "a limit lowered during the history",
    "one frame at most is dropped per new frame",
    '''
e, f = Epic(), FrameSet(Unit.MINUTE, 1, ref="f")
e.add_frame_set(f)
for k in range(6):
    e.on_new_tick(tick(f"2020-01-06 10:0{k}", 5))
f.max_frames_in_memory = 2
e.on_new_tick(tick("2020-01-06 10:06", 5))
same(len(f.frames), 2, "kept")
''')

bug("C02-same-object", "C02",
    [(EPIC, "        # update last tick\n        self.last_tick = tick\n",
      "        if tick is self.last_tick:\n            return\n        self.last_tick = tick\n")],
    "the same tick object sent twice",
    "a tick object which is already the last tick is skipped",
    '''
got = []
class S(BaseStrategy):
    def on_every_tick(self, epic):
        got.append(1)
e = Epic()
e.add_strategy(S())
t = tick("2020-01-06 10:00", 5)
e.on_new_tick(t)
e.on_new_tick(t)
same(len(got), 2, "notifications")
''')

bug("C04-listed-once", "C04",
    [(EPIC, "        self.strategies[strategy.ref] = strategy\n",
      "        self.strategies[strategy.ref] = strategy\n        self._strategies.append(strategy)\n"),
     (EPIC, "        self.strategies: Dict[str, \"BaseStrategy\"] = {}\n",
      "        self.strategies: Dict[str, \"BaseStrategy\"] = {}\n        self._strategies: List[\"BaseStrategy\"] = []\n"),
     (EPIC, "        for strategy in list(self.strategies.values()):\n", "        for strategy in list(self._strategies):\n")],
    "a strategy taken off the epic",
    "the epic notifies the strategies ever registered",
    '''
got = []
class S(BaseStrategy):
    def on_every_tick(self, epic):
        got.append(1)
e = Epic()
e.add_strategy(S(ref="s"))
e.on_new_tick(tick("2020-01-06 10:00", 5))
del e.strategies["s"]
e.on_new_tick(tick("2020-01-06 10:00", 5))
same(len(got), 1, "notifications")
''')
