from importlib.util import module_from_spec, spec_from_file_location
import os

_s = spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "bugs1.py"))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
for _k in ("EPIC FRAME BASE CANDLE PIVOT RSI SMA CSV STRAT TICK TRADE PROV TF META").split():
    globals()[_k] = getattr(_m, _k)
REF, TIMED, TP = ("estrade/mixins/ref.py", "estrade/mixins/timed.py",
                  "estrade/tick_provider.py")
BUGS = []


def bug(id, prop, edits, needs, what, demo, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo,
                     **kw))


def runs(body):
    """The statements, in a demo where an exception is a failure too."""
    return ("try:\n" + "".join("    " + l + "\n" for l in body.strip("\n").split("\n"))
            + "except Exception as e:\n    same(repr(e), 'no error')\n")


VALUE = '''
from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue


class Value(BaseIndicatorValue):
    def __init__(self, indicator, frame):
        super().__init__(indicator, frame)
        self.got = []

    def on_new_tick(self, tick, market_open):
        super().on_new_tick(tick, market_open)
        self.got.append((tick, market_open))

    def __bool__(self):
        return False
'''

bug("C02-sub-second", "C02",
    [(EPIC, "        if tick.datetime_utc < self.last_tick.datetime_utc:\n",
      "        if tick.datetime.int_timestamp < self.last_tick.datetime.int_timestamp:\n")],
    "a tick earlier than the last one by less than a second",
    "ticks are compared by whole seconds: an earlier one in the same second is accepted",
    '''
epic = Epic()
epic.on_new_tick(tick("2020-01-06 10:00:00.5", 5))
try:
    epic.on_new_tick(tick("2020-01-06 10:00:00.1", 6))
    same("accepted", "refused")
except Exception as e:
    same(type(e).__name__, "EpicException")
''')

bug("C02-day-order", "C02",
    [(EPIC, "        if tick.datetime_utc < self.last_tick.datetime_utc:\n",
      "        if tick.datetime_utc.timetuple() < self.last_tick.datetime_utc.timetuple():\n")],
    "a tick earlier than the last one by microseconds",
    "ticks are compared without their microseconds",
    '''
epic = Epic()
epic.on_new_tick(tick("2020-01-06 10:00:00.000002", 5))
try:
    epic.on_new_tick(tick("2020-01-06 10:00:00.000001", 6))
    same("accepted", "refused")
except Exception as e:
    same(type(e).__name__, "EpicException")
''')

bug("C04-pause-kept", "C04",
    [(STRAT, "        if not is_still_paused:\n            self.paused_until = None\n",
      "        if not is_still_paused:\n            self.paused_until = self.paused_until.shift(days=1)\n"
      "            if self.paused_until < new_tick_date.shift(days=1):\n"
      "                self.paused_until = None\n")],
    "a tick exactly at the end of a pause",
    "a pause which ends exactly at a tick begins again from the next one",
    '''
epic = Epic()
seen = []


class S(BaseStrategy):
    def on_every_tick(self, epic):
        seen.append(epic.last_tick.bid)


s = S(ref="s")
epic.add_strategy(s)
s.paused_until = arrow.get("2020-01-06 10:00")
for k, m in enumerate(("09:59", "10:00", "10:01", "10:02")):
    epic.on_new_tick(tick(f"2020-01-06 {m}", k))
same(seen, [1, 2, 3], "ticks the strategy was notified of")
''')

bug("C18-stale-price", "C18",
    [(PROV, "                trade_close = open_trade.close_from_epic(quantity=quantities_to_close)\n",
      "                trade_close = open_trade.close(\n"
      "                    close_value=open_trade.current_close_value,\n"
      "                    datetime=trade.datetime,\n"
      "                    quantity=quantities_to_close,\n"
      "                )\n")],
    "a trade valued by hand since the last tick, netted by an opposite one",
    "netting closes at the price the trade was last valued at, not the market's",
    '''
epic, s = Epic(), BaseStrategy()
epic.on_new_tick(tick("2020-01-06 10:00", 5))
t = epic.open_trade(direction=BUY, quantity=2, strategy=s)
t.update(99)
epic.open_trade(direction=SELL, quantity=1, strategy=s)
same([(c.quantity, c.close_value) for c in t.closes], [(1, 5)], "closes")
''')

bug("C18-by-ref", "C18",
    [(PROV, "                if open_trade.strategy != trade.strategy:\n",
      '                if getattr(open_trade.strategy, "ref", None) != getattr(\n'
      '                    trade.strategy, "ref", None\n                ):\n')],
    "two strategies with the same reference trading one epic",
    "strategies are told apart by their reference only when netting",
    '''
epic, a, b = Epic(), BaseStrategy(ref="s"), BaseStrategy(ref="s")
epic.on_new_tick(tick("2020-01-06 10:00", 5))
t = epic.open_trade(direction=BUY, quantity=2, strategy=a)
epic.open_trade(direction=SELL, quantity=1, strategy=b)
same(t.opened_quantities, 2, "left open")
''')

bug("C18-first-step", "C18",
    [(PROV, "                    open_trade.opened_quantities, trade.open_quantity\n",
      "                    open_trade.open_quantity, trade.open_quantity\n")],
    "netting against a trade which is partly closed",
    "netting takes the quantity the trade was opened with, also what is closed already",
    '''
epic, s = Epic(), BaseStrategy()
epic.on_new_tick(tick("2020-01-06 10:00", 5))
t = epic.open_trade(direction=BUY, quantity=3, strategy=s)
epic.close_trade(t, quantity=2)
epic.open_trade(direction=SELL, quantity=3, strategy=s)
same(sum(x.opened_quantities * (1 if x.direction == BUY else -1)
         for x in epic.trade_provider.trades), -2, "net position")
''')

bug("C19-copy", "C19",
    [(PROV, "            kwargs={\"trade\": trade},\n",
      "            kwargs={\"trade\": copy.copy(trade)},\n"),
     (PROV, "import logging\nimport threading\n", "import copy\nimport logging\nimport threading\n")],
    "a provider which sets the status or metadata of the trade",
    "requests get a copy of the trade, so that its status is not visible on the trade",
    '''
epic = Epic()
epic.on_new_tick(tick("2020-01-06 10:00", 5))
t = epic.open_trade(direction=BUY, quantity=3)
for x in epic.trade_provider.threads:
    x.join()
same(t.status, TransactionStatus.CONFIRMED, "status")
''')

bug("C19-confirm-later", "C19",
    [(PROV, "        trade_close.status = TransactionStatus.CONFIRMED\n",
      "        if trade_close.trade.status == TransactionStatus.CONFIRMED:\n"
      "            trade_close.status = TransactionStatus.CONFIRMED\n")],
    "a close requested before the opening is confirmed",
    "a close of a trade which is not confirmed yet is never confirmed",
    '''
import time as clock
class Slow(type(Epic().trade_provider)):
    def open_trade_request(self, trade):
        clock.sleep(0.3)
        return super().open_trade_request(trade)
epic = Epic(trade_provider=Slow())
epic.on_new_tick(tick("2020-01-06 10:00", 5))
t = epic.open_trade(direction=BUY, quantity=3)
c = epic.close_trade(t)
for x in epic.trade_provider.threads:
    x.join()
same(c.status, TransactionStatus.CONFIRMED, "status")
''')

bug("C19-join", "C19",
    [(PROV, "            kwargs={\"trade_close\": trade_close},\n        )\n        self.threads.append(thr)\n        thr.start()\n",
      "            kwargs={\"trade_close\": trade_close},\n        )\n        thr.start()\n        self.threads.append(thr)\n"
      "        if len(self.threads) % 8 == 0:\n            thr.join()\n")],
    "a slow request which is the eighth of the provider",
    "each eighth request is waited for",
    '''
import time as clock
class Slow(BaseTradeProvider):
    def open_trade_request(self, trade):
        return trade
    def close_trade_request(self, trade_close):
        clock.sleep(1)
        return trade_close
epic = Epic(trade_provider=Slow())
epic.on_new_tick(tick("2020-01-06 10:00", 5))
t = epic.open_trade(direction=BUY, quantity=30)
for k in range(9):
    start = clock.time()
    epic.close_trade(t, quantity=1)
    same(clock.time() - start < 0.5, True, "not delayed")
''')

bug("C19-retry", "C19",
    [(PROV, "        thr = threading.Thread(\n            target=self.close_trade_request,\n            args=(),\n"
            "            kwargs={\"trade_close\": trade_close},\n        )\n",
      "        def request():\n            try:\n                self.close_trade_request(trade_close=trade_close)\n"
      "            except ConnectionError:\n                self.close_trade_request(trade_close=trade_close)\n\n"
      "        thr = threading.Thread(target=request)\n")],
    "a request which fails with a connection error",
    "requests which fail to connect are sent twice",
    '''
import threading
threading.excepthook = lambda *a: None
seen = []
class P(BaseTradeProvider):
    def open_trade_request(self, trade):
        return trade
    def close_trade_request(self, trade_close):
        seen.append(trade_close)
        raise ConnectionError()
epic = Epic(trade_provider=P())
epic.on_new_tick(tick("2020-01-06 10:00", 5))
t = epic.open_trade(direction=BUY, quantity=30)
epic.close_trade(t, quantity=1)
for x in epic.trade_provider.threads:
    x.join()
same(len(seen), 1, "requests")
''')

bug("C20-by-ref", "C20",
    [(STRAT, "            if (epics is None or trade.epic in epics) and (\n",
      "            if (\n                epics is None\n                or trade.epic.ref in [epic.ref for epic in epics]\n            ) and (\n")],
    "two epics with the same reference traded by a strategy",
    "listings restricted to an epic include the trades of another of the same reference",
    '''
a, b, s = Epic(ref="e"), Epic(ref="e"), BaseStrategy()
a.on_new_tick(tick("2020-01-06 10:00", 5))
b.on_new_tick(tick("2020-01-06 10:00", 5))
t = s.open_trade(a, direction=BUY, quantity=2)
s.open_trade(b, direction=BUY, quantity=2)
same([x is t for x in s.get_trades(epics=[a])], [True], "trades of the epic")
''')

bug("C20-no-loss-round", "C20",
    [(STRAT, "        if sum_negative == 0:\n            return sum_positive\n",
      "        if round(sum_negative, 1) == 0:\n            return sum_positive\n")],
    "losses of less than five cents in all",
    "losses below five cents are taken for none",
    '''
e, s = Epic(), BaseStrategy()
e.on_new_tick(tick("2020-01-06 10:00", 5))
t = s.open_trade(e, direction=BUY, quantity=1)
t.update(7.345)
u = s.open_trade(e, direction=BUY, quantity=1)
u.update(4.98)
same(s.profit_factor(), 2.35 if t.result == 2.35 else 2.34, "profit factor")
t.update(7.333333)
same(s.profit_factor(), 2.33, "profit factor")
import math
u.update(4.96)
t.close(close_value=5.004, datetime=e.last_tick.datetime)
v = s.open_trade(e, direction=BUY, quantity=3)
v.update(5.1)
same(s.profit_factor(), 0.3, "profit factor")
''')

bug("C21-mkdir", "C21",
    [(CSV, "            os.makedirs(path)\n", "            os.mkdir(path)\n")],
    "a target folder whose parent is missing too",
    "reports to a folder in a missing folder fail",
    runs('''
import tempfile, os
from estrade.reporting.csv import ReportingCSV
with tempfile.TemporaryDirectory() as d:
    ReportingCSV(os.path.join(d, "a", "b")).report([BaseStrategy(ref="s")])
    same(len(os.listdir(os.path.join(d, "a", "b"))), 2, "files")
'''))

bug("C21-formula", "C21",
    [(CSV, "                writer.writerow(d)\n",
      "                # spreadsheets take these for formulas\n"
      "                writer.writerow(\n                    {\n"
      "                        k: \"'\" + v if str(v)[:1] in \"=@+\" and v else v\n"
      "                        for k, v in d.items()\n                    }\n                )\n")],
    "a reference starting with =, @ or +",
    "references which look like formulas are written with a quote",
    '''
import csv, glob, tempfile
from estrade.reporting.csv import ReportingCSV
with tempfile.TemporaryDirectory() as d:
    ReportingCSV(d).report([BaseStrategy(ref="=s")], trade_details=False)
    with open(glob.glob(d + "/*")[0], newline="") as f:
        same([r["ref"] for r in csv.DictReader(f)], ["=s"], "references")
''')

bug("C21-dedupe", "C21",
    [(CSV, "                for trade in strategy_trades:\n                    trade_dict = trade.asdict()\n",
      "                for trade in {t.ref: t for t in strategy_trades}.values():\n"
      "                    trade_dict = trade.asdict()\n")],
    "two trades of a strategy with the same reference",
    "of trades with the same reference only one is written",
    '''
import csv, glob, tempfile
from estrade.reporting.csv import ReportingCSV
e, s = Epic(), BaseStrategy(ref="s")
e.on_new_tick(tick("2020-01-06 10:00", 5))
for k in (1, 2):
    s.open_trade(e, direction=BUY, quantity=k, ref="t")
with tempfile.TemporaryDirectory() as d:
    ReportingCSV(d).report([s])
    with open(glob.glob(d + "/*_trades.csv")[0], newline="") as f:
        same(sorted(r["open_quantity"] for r in csv.DictReader(f)), ["1", "2"], "trades")
''')

bug("C21-truncate", "C21",
    [(CSV, '                target_filename = f"{dt}_{file_ref}_trades.csv"\n',
      '                target_filename = f"{dt}_{file_ref[:40]}_trades.csv"\n')],
    "two strategies whose long references only differ at the end",
    "the trades of strategies with the same first forty characters are in one file",
    '''
import glob, tempfile
from estrade.reporting.csv import ReportingCSV
with tempfile.TemporaryDirectory() as d:
    ReportingCSV(d).report([BaseStrategy(ref="s" * 50 + x) for x in "ab"])
    same(len(glob.glob(d + "/*_trades.csv")), 2, "files of trades")
''')

bug("C21-utc", "C21",
    [(TRADE, '            "open_date": self.datetime.format("YYYY-MM-DD HH:mm:ss"),\n',
      '            "open_date": self.datetime_utc.format("YYYY-MM-DD HH:mm:ss"),\n')],
    "a trade on an epic which is not in UTC",
    "the opening time of trades is written in UTC",
    '''
e, s = Epic(timezone="Europe/Paris"), BaseStrategy(ref="s")
e.on_new_tick(tick("2020-01-06 10:00", 5))
same(s.open_trade(e, direction=BUY, quantity=1).asdict()["open_date"],
     "2020-01-06 11:00:00", "opening time")
''')

bug("C21-append-header", "C21",
    [(CSV, "            if not file_exists:\n                writer.writeheader()\n",
      "            if f.tell() == 0 and dict_list:\n                writer.writeheader()\n")],
    "a strategy without trades",
    "files without rows have no header",
    '''
import glob, tempfile
from estrade.reporting.csv import ReportingCSV
with tempfile.TemporaryDirectory() as d:
    ReportingCSV(d).report([BaseStrategy(ref="s")])
    same(len(open(glob.glob(d + "/*_trades.csv")[0]).readlines()), 1, "lines")
''')

bug("C22-id-ref", "C22",
    [(REF, "        self._ref = ref or str(uuid4())[:5]\n",
      "        self._ref = ref or hex(id(self))[2:7]\n")],
    "objects created without reference, next to each other in memory",
    "generated references are the first digits of the address, mostly the same",
    runs('''
e = Epic()
for k in range(50):
    e.add_strategy(BaseStrategy())
'''))

bug("C22-threads", "C19",
    [(PROV, "        self.threads: List[threading.Thread] = []\n", ""),
     (PROV, "    def __init__(self, ref: Optional[str] = None) -> None:\n",
      "    threads: List[threading.Thread] = []\n\n    def __init__(self, ref: Optional[str] = None) -> None:\n")],
    "two providers, one of which has a running request",
    "running requests are shared by all trade providers",
    '''
import threading
go = threading.Event()
class P(BaseTradeProvider):
    def open_trade_request(self, trade):
        go.wait(5)
a, b = P(), P()
e = Epic(trade_provider=a)
e.on_new_tick(tick("2020-01-06 10:00", 5))
e.open_trade(direction=BUY, quantity=1)
busy = b.is_alive
go.set()
same(busy, False, "requests running on the other provider")
''')

bug("C22-provider-epics", "C22",
    [(TP, "        self.epics = {}\n        for epic in epics:\n            self.epics[epic.ref] = epic\n",
      "        for epic in epics:\n            self.epics[epic.ref] = epic\n"),
     (TP, "    def __init__(self, epics: List[Epic]):\n",
      "    epics: Dict[str, Epic] = {}\n\n    def __init__(self, epics: List[Epic]):\n"),
     (TP, "from typing import Generator, List, Optional\n", "from typing import Dict, Generator, List, Optional\n")],
    "two tick providers",
    "a tick provider finds the epics of the ones created before",
    '''
from estrade.tick_provider import BaseTickProvider
a = BaseTickProvider([Epic(ref="a")])
b = BaseTickProvider([Epic(ref="b")])
same(b.get_epic_by_ref("a"), None, "epic of another provider")
''')

bug("C22-ref-case", "C22",
    [(TP, "            self.epics[epic.ref] = epic\n", "            self.epics[epic.ref.upper()] = epic\n"),
     (TP, "        return self.epics.get(ref)\n", "        return self.epics.get(ref.upper())\n")],
    "two epics whose references differ by case",
    "a tick provider finds one of two epics whose references differ by case for both",
    '''
from estrade.tick_provider import BaseTickProvider
a, b = Epic(ref="Dax"), Epic(ref="DAX")
p = BaseTickProvider([a, b])
same(p.get_epic_by_ref("Dax") is a, True, "the epic found is the one asked for")
''')

bug("C22-strip", "C22",
    [(REF, "        self._ref = ref or str(uuid4())[:5]\n",
      "        self._ref = str(ref).strip() if ref else str(uuid4())[:5]\n")],
    "a reference with a space at its end",
    "references are stripped",
    '''
same(BaseStrategy(ref="s ").ref, "s ", "reference")
''')

bug("C22-strategy-frames", "C22",
    [(EPIC, "        self.market_open = self.is_market_open()\n",
      "        self.market_open = self.is_market_open()\n        for strategy in self.strategies.values():\n"
      "            strategy.epics[self.ref] = self\n"),
     (EPIC, "        self.strategies[strategy.ref] = strategy\n        strategy.epics[self.ref] = self\n",
      "        self.strategies[strategy.ref] = strategy\n        strategy.epics.setdefault(self.ref, self)\n")],
    "a strategy registered on two epics of the same reference",
    "of two epics of the same reference, the strategy knows the one which received a tick last",
    '''
a, b, s = Epic(ref="e"), Epic(ref="e"), BaseStrategy()
a.add_strategy(s)
b.add_strategy(s)
was = s.epics["e"]
a.on_new_tick(tick("2020-01-06 10:00", 5))
one = s.epics["e"]
b.on_new_tick(tick("2020-01-06 10:00", 5))
same(s.epics["e"] is one, True, "the epic of the strategy")
''')

bug("C23-month-day", "C23",
    [(TF, "            month=get_target_month(dt.month, self.unit_quantity),\n            day=1,\n",
      "            month=get_target_month(dt.month, self.unit_quantity),\n        ).replace(\n            day=1,\n")],
    "a time on the 29th to 31st whose period starts in a shorter month",
    "the start of a period of months is an error on days its first month does not have",
    runs('''
fs = FrameSet(Unit.MONTH, 2)
fs = FrameSet(Unit.MONTH, 3)
fs = FrameSet(Unit.MONTH, 12)
same(FrameSet(Unit.MONTH, 6).get_frame_start(arrow.get("2020-12-31")), arrow.get("2020-07-01"))
same(FrameSet(Unit.MONTH, 3).get_frame_start(arrow.get("2020-05-31")), arrow.get("2020-04-01"))
'''))

bug("C23-leap", "C23",
    [(TF, "            year=get_target_year(dt.year, self.unit_quantity),\n            month=1,\n",
      "            year=dt.year - dt.year % self.unit_quantity,\n        ).replace(\n            month=1,\n")],
    "the 29th of February, whose period starts in another kind of year",
    "the start of a period of years is an error on the 29th of February",
    runs('''
same(FrameSet(Unit.YEAR, 10).get_frame_start(arrow.get("2024-02-29")), arrow.get("2020-01-01"))
same(FrameSet(Unit.YEAR, 5).get_frame_start(arrow.get("2024-02-29")), arrow.get("2020-01-01"))
same(FrameSet(Unit.YEAR, 3).get_frame_start(arrow.get("2024-02-29")), arrow.get("2022-01-01"))
'''))

bug("C24-machine-day", "C24",
    [(FRAME, "                and tick.datetime.date() > self._last_tick.datetime.date()\n",
      "                and datetime.fromtimestamp(tick.datetime.timestamp()).date()\n"
      "                > datetime.fromtimestamp(self._last_tick.datetime.timestamp()).date()\n"),
     (FRAME, "            or tick.datetime.date() > self.epic.last_tick.datetime.date()\n", ""),
     (FRAME, "import logging\n", "import logging\nfrom datetime import datetime\n")],
    "a machine in another time zone than the epic",
    "frames of ticks end with the day of the machine",
    '''
import os, time as clock
os.environ["TZ"] = "America/New_York"
clock.tzset()
e, fs = Epic(), FrameSet(Unit.TICK, 5)
e.add_frame_set(fs)
e.on_new_tick(tick("2020-01-06 04:00", 5))
e.on_new_tick(tick("2020-01-06 06:00", 5))
same(len(fs.frames), 1, "frames")
''')

bug("C25-falsy-get", "C25",
    [(FRAME, "        indicator_value = self.indicators.get(indicator_ref, None)\n        return indicator_value\n",
      "        indicator_value = self.indicators.get(indicator_ref, None)\n        return indicator_value or None\n")],
    "an indicator value which is false as a condition",
    "values which are false as a condition cannot be read",
    VALUE + '''
e, fs = Epic(), FrameSet(Unit.MINUTE, 1)
e.add_frame_set(fs)
fs.add_indicator(BaseIndicator(Value, ref="i"))
e.on_new_tick(tick("2020-01-06 10:00", 5))
same(fs.current["i"] is None, False, "value missing")
''')

bug("C25-same-price", "C25",
    [(FRAME, "                current_indicator_value.on_new_tick(tick, market_open)\n",
      "                last = getattr(current_indicator_value, \"last_tick\", None)\n"
      "                if (\n                    last is None\n                    or tick.datetime != last.datetime\n"
      "                    or tick.value != last.value\n                ):\n"
      "                    current_indicator_value.on_new_tick(tick, market_open)\n")],
    "two ticks at the same time and value",
    "an indicator is not given a tick of the same time and value as the one before",
    VALUE + '''
e, fs = Epic(), FrameSet(Unit.MINUTE, 1)
e.add_frame_set(fs)
fs.add_indicator(BaseIndicator(Value, ref="i"))
e.on_new_tick(tick("2020-01-06 10:00", 5))
e.on_new_tick(tick("2020-01-06 10:00", 4, 6))
same(len(fs.current["i"].got), 1, "ticks given")
''')

bug("C25-frozen-market", "C25",
    [(FRAME, "        market_open = self.parent_frameset.epic_market_open\n",
      "        if self.nb_ticks == 1:\n            self._market_open = self.parent_frameset.epic_market_open\n"
      "        market_open = self._market_open or self.parent_frameset.epic_market_open\n")],
    "a frame which begins in market hours and receives ticks after them",
    "indicators are told the market is still open until the end of the frame",
    VALUE + '''
e, fs = Epic(), FrameSet(Unit.HOUR, 1)
e.add_frame_set(fs)
fs.add_indicator(BaseIndicator(Value, ref="i"))
e.on_new_tick(tick("2020-01-06 17:00", 5))
e.on_new_tick(tick("2020-01-06 17:40", 5))
same([m for _, m in fs.current["i"].got], [False], "market states given")
''')

bug("C25-filler", "C25",
    [(FRAME, "        self._upsert_indicators(first_tick)\n",
      "        if previous_frame is None or first_tick is not previous_frame.last_tick:\n"
      "            self._upsert_indicators(first_tick)\n")],
    "periods without ticks",
    "frames without ticks have no indicator values",
    VALUE + '''
e, fs = Epic(), FrameSet(Unit.MINUTE, 1)
e.add_frame_set(fs)
fs.add_indicator(BaseIndicator(Value, ref="i"))
e.on_new_tick(tick("2020-01-06 10:00", 5))
e.on_new_tick(tick("2020-01-06 10:03", 5))
same([f["i"] is None for f in fs.frames], [False] * 4, "values missing")
''')

bug("C25-class-cache", "C25",
    [(BASE, "            new_value = self.value_class(\n                indicator=self,\n                frame=frame,\n            )\n            return new_value\n",
      "            new_value = self.value_class(\n                indicator=self,\n                frame=frame,\n            )\n"
      "            return new_value if new_value else None\n")],
    "an indicator value which is false as a condition",
    "values which are false as a condition are not kept",
    VALUE + '''
e, fs = Epic(), FrameSet(Unit.MINUTE, 1)
e.add_frame_set(fs)
fs.add_indicator(BaseIndicator(Value, ref="i"))
e.on_new_tick(tick("2020-01-06 10:00", 5))
same(fs.current.indicators["i"] is None, False, "value missing")
''')

bug("C26-link", "C26",
    [(FRAME, "            self.frames[1].previous_frame = None\n",
      "            if self.frames[1].nb_ticks > 1:\n                self.frames[1].previous_frame = None\n")],
    "dropped frames followed by a frame of one tick",
    "dropped frames stay linked from a frame which has only one tick",
    '''
import gc, weakref
e, fs = Epic(), FrameSet(Unit.MINUTE, 1, max_frames_in_memory=2)
e.add_frame_set(fs)
refs = []
for m in range(10):
    e.on_new_tick(tick(f"2020-01-06 10:{m:02}", 5))
    refs.append(weakref.ref(fs.current))
gc.collect()
same(sum(r() is not None for r in refs), 2, "frames alive")
''')

bug("C26-values", "C26",
    [(BASE, "            return new_value\n",
      "            self.last_value, new_value.older = (\n"
      "                new_value,\n                getattr(self, \"last_value\", None),\n            )\n            return new_value\n")],
    "more frames than are kept",
    "each indicator value refers to the one before it, for ever",
    '''
import gc, weakref
e, fs = Epic(), FrameSet(Unit.MINUTE, 1, max_frames_in_memory=2)
e.add_frame_set(fs)
fs.add_indicator(CandleSet(ref="c"))
refs = []
for m in range(10):
    e.on_new_tick(tick(f"2020-01-06 10:{m:02}", 5))
    refs.append(weakref.ref(fs.current["c"]))
gc.collect()
same(sum(r() is not None for r in refs), 2, "values alive")
''')

bug("C26-refused", "C26",
    [(EPIC, "            raise EpicException(\n                \"Cannot handle a tick anterior to the last received tick.\"\n            )\n",
      "            self.refused = getattr(self, \"refused\", []) + [tick]\n            raise EpicException(\n"
      "                f\"Cannot handle a tick anterior to the last received tick ({tick}).\"\n            )\n")],
    "refused ticks",
    "refused ticks are kept",
    '''
import gc, weakref
e = Epic()
e.on_new_tick(tick("2020-01-06 10:00", 5))
t = tick("2020-01-06 09:00", 5)
r = weakref.ref(t)
try:
    e.on_new_tick(t)
except Exception:
    pass
del t
gc.collect()
same(r() is None, True, "the refused tick is gone")
''')

bug("C27-timezone", "C27",
    [(EPIC, "        if timezone in pytz.all_timezones:\n            self._timezone = timezone\n        else:\n            raise",
      "        self._timezone = timezone\n        if timezone not in pytz.all_timezones:\n            raise")],
    "a refused change of the timezone of an epic",
    "a refused timezone is set all the same",
    '''
e = Epic()
try:
    e.timezone = "Nowhere"
except Exception:
    pass
same(e.timezone, "UTC", "timezone")
''')

bug("C27-datetime", "C27",
    [(TIMED, "        if not hasattr(dt, \"tzinfo\") or dt.tzinfo is None:\n",
      "        self._datetime = dt\n        if not hasattr(dt, \"tzinfo\") or dt.tzinfo is None:\n"),
     (TIMED, "            dt = arrow.get(dt.astimezone(timezone.utc)).to(arrow.get(dt).tzinfo)\n\n        self._datetime = dt\n",
      "            dt = arrow.get(dt.astimezone(timezone.utc)).to(arrow.get(dt).tzinfo)\n            self._datetime = dt\n")],
    "a refused change of the time of a tick or trade",
    "a refused time is set all the same",
    '''
t = tick("2020-01-06 10:00", 5)
try:
    t.datetime = datetime(2020, 1, 7)
except Exception:
    pass
same(t.datetime, arrow.get("2020-01-06 10:00"), "time")
''')

bug("C27-price", "C27",
    [(TICK, "        if not Tick.check_value(bid):\n            raise TickException(f\"invalid bid value: {bid}\")\n        self._bid = float(bid)\n",
      "        self._bid = bid\n        if not Tick.check_value(bid):\n            raise TickException(f\"invalid bid value: {bid}\")\n        self._bid = float(self._bid)\n")],
    "a refused change of the bid of a tick",
    "a refused bid is set all the same",
    '''
t = tick("2020-01-06 10:00", 5)
try:
    t.bid = "six"
except Exception:
    pass
same(t.bid, 5, "bid")
''')

bug("C27-strategy-ref", "C27",
    [(EPIC, "        if strategy.ref in self.strategies:\n            raise EpicException(\n",
      "        strategy.epics[self.ref] = self\n        if strategy.ref in self.strategies:\n            raise EpicException(\n"),
     (EPIC, "        self.strategies[strategy.ref] = strategy\n        strategy.epics[self.ref] = self\n",
      "        self.strategies[strategy.ref] = strategy\n")],
    "a strategy which is refused because its reference is used",
    "a refused strategy has the epic among its epics",
    '''
e = Epic()
e.add_strategy(BaseStrategy(ref="s"))
s = BaseStrategy(ref="s")
try:
    e.add_strategy(s)
except Exception:
    pass
same(s.epics, {}, "epics of the refused strategy")
''')
