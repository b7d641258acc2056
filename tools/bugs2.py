from importlib.util import module_from_spec, spec_from_file_location
import os

_s = spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "bugs1.py"))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
for _k in ("EPIC FRAME BASE CANDLE PIVOT RSI SMA CSV STRAT TICK TRADE PROV TF META").split():
    globals()[_k] = getattr(_m, _k)
BUGS = []


def bug(id, prop, edits, needs, what, demo, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo,
                     **kw))


bug("C16-same-value", "C16",
    [(EPIC, "            trade.update_from_tick(new_tick)\n",
      "            if new_tick.value != self._valued:\n"
      "                trade.update_from_tick(new_tick)\n"
      "        self._valued = new_tick.value\n"),
     (EPIC, "        self.market_open: bool = False\n",
      "        self.market_open: bool = False\n        self._valued = None\n")],
    "a tick with the same middle value as the previous one and another spread",
    "trades are not revalued when only the spread changes",
    '''
epic = Epic()
epic.on_new_tick(tick("2020-01-06 10:00", 10, 12))
trade = epic.open_trade(direction=BUY, quantity=1)
epic.on_new_tick(tick("2020-01-06 10:01", 9, 13))
same((trade.current_close_value, trade.result), (9.0, -3.0), "value and result")
''')

bug("C16-minmax-partial", "C16",
    [(TRADE, "        if self.result > self.max_result:\n            self.max_result = self.result\n"
             "        if self.result < self.min_result:\n            self.min_result = self.result\n",
      "        result = self.result if not self.closes else self.opened_result\n"
      "        if result > self.max_result:\n            self.max_result = result\n"
      "        if result < self.min_result:\n            self.min_result = result\n")],
    "price updates after a partial close",
    "after a partial close, the largest and smallest results ignore the closed part",
    '''
epic = Epic()
epic.on_new_tick(tick("2020-01-06 10:00", 10))
trade = epic.open_trade(direction=BUY, quantity=2)
epic.on_new_tick(tick("2020-01-06 10:01", 20))
epic.close_trade(trade, quantity=1)
epic.on_new_tick(tick("2020-01-06 10:02", 25))
same((trade.result, trade.max_result), (25.0, 25.0), "result and largest result")
''')

bug("C17-merge-closes", "C17",
    [(TRADE, "        logger.info(\n            \"Close %s quantities of trade %s @ %s\", quantity, self.ref, close_value\n        )\n",
      "        logger.info(\"Close %s of trade %s @ %s\", quantity, self.ref, close_value)\n"
      "        last = self.closes[-1] if self.closes else None\n"
      "        if last and last.close_value == close_value and not kwargs:\n"
      "            # same price: extend the last close\n"
      "            last.quantity += quantity\n"
      "            return last\n\n")],
    "two partial closes of a trade at the same price",
    "the second close at an unchanged price is merged in the first one: it is not recorded "
    "with its own time, and the first one changes",
    '''
epic = Epic()
epic.on_new_tick(tick("2020-01-06 10:00", 10))
trade = epic.open_trade(direction=BUY, quantity=3)
first = epic.close_trade(trade, quantity=1)
epic.on_new_tick(tick("2020-01-06 10:01", 10))
second = epic.close_trade(trade, quantity=1)
same((len(trade.closes), first.quantity, second.datetime.minute), (2, 1, 1), "closes")
''')

bug("C17-exceed", "C17",
    [(TRADE, "        if quantity > self.opened_quantities:\n",
      "        if quantity > self.open_quantity or self.closed:\n")],
    "a close for more than what is left but not more than the original quantity",
    "a partially closed trade can be closed for more than what is left open",
    '''
epic = Epic()
epic.on_new_tick(tick("2020-01-06 10:00", 10))
trade = epic.open_trade(direction=BUY, quantity=3)
epic.close_trade(trade, quantity=2)
epic.close_trade(trade, quantity=3)
same((trade.closed_quantities, trade.opened_quantities), (3, 0), "closed, opened")
''')

bug("C18-oldest", "C18",
    [(PROV, "        opened_trades = [trade for trade in reversed(self.trades) if not trade.closed]\n",
      "        opened_trades = [trade for trade in self.trades if not trade.closed]\n")],
    "two open trades in the same direction, and an opposite one too small to close both",
    "netting closes the oldest trades first",
    '''
epic, s = Epic(), BaseStrategy()
epic.on_new_tick(tick("2020-01-06 10:00", 10))
a = s.open_trade(epic, direction=BUY, quantity=2)
b = s.open_trade(epic, direction=BUY, quantity=2)
s.open_trade(epic, direction=SELL, quantity=1)
same((a.opened_quantities, b.opened_quantities), (2, 1), "left open")
''')

bug("C19-last-thread", "C19",
    [(PROV, "        for thread in self.threads:\n            if thread.is_alive():\n                return True\n"
            "        return False\n",
      "        return bool(self.threads) and self.threads[-1].is_alive()\n")],
    "a later request finishing before an earlier one",
    "the provider reports no running request as soon as the latest one is finished",
    '''
import threading

go = threading.Event()
class P(BaseTradeProvider):
    def open_trade_request(self, trade):
        if trade.open_quantity == 1:
            go.wait(20)
        return trade

p = P()
epic = Epic(trade_provider=p)
epic.on_new_tick(tick("2020-01-06 10:00", 10))
epic.open_trade(direction=BUY, quantity=1)
epic.open_trade(direction=BUY, quantity=2)
p.threads[-1].join(20)
alive = p.is_alive
go.set()
same(alive, True, "running requests")
''')

bug("C19-prune", "C19",
    [(PROV, "            kwargs={\"trade_close\": trade_close},\n        )\n        self.threads.append(thr)\n",
      "            kwargs={\"trade_close\": trade_close},\n        )\n"
      "        # do not keep all the threads in memory\n"
      "        self.threads = self.threads[-20:] + [thr]\n")],
    "a request slower than the twenty following ones",
    "only the latest requests are tracked: a slow one is forgotten while still running",
    '''
import threading

go = threading.Event()
class P(BaseTradeProvider):
    def open_trade_request(self, trade):
        go.wait(20)
        return trade
    def close_trade_request(self, trade_close):
        return trade_close

p = P()
epic = Epic(trade_provider=p)
epic.on_new_tick(tick("2020-01-06 10:00", 10))
t = epic.open_trade(direction=BUY, quantity=100)
for _ in range(30):
    epic.close_trade(t, quantity=1)
for thr in list(p.threads):
    thr.join(0.2)
alive = p.is_alive
go.set()
same(alive, True, "running requests")
''')

bug("C19-throttle", "C19",
    [(PROV, "            kwargs={\"trade\": trade},\n        )\n        self.threads.append(thr)\n",
      "            kwargs={\"trade\": trade},\n        )\n"
      "        running = [t for t in self.threads if t.is_alive()]\n"
      "        if len(running) >= 8:\n"
      "            # do not flood the provider\n"
      "            running[0].join()\n"
      "        self.threads += [thr]\n")],
    "eight slow requests running at once, then one more",
    "the caller opening a trade waits for a running request when eight of them are running",
    '''
import threading

go = threading.Event()
class P(BaseTradeProvider):
    def open_trade_request(self, trade):
        go.wait(20)
        return trade

p = P()
epic = Epic(trade_provider=p)
epic.on_new_tick(tick("2020-01-06 10:00", 10))
done = threading.Event()
def run():
    for _ in range(12):
        epic.open_trade(direction=BUY, quantity=1)
    done.set()
t = threading.Thread(target=run, daemon=True)
t.start()
ok = done.wait(5)
go.set()
t.join(20)
same(ok, True, "twelve trades opened without waiting")
''')

bug("C20-empty-epics", "C20",
    [(STRAT, "            if (epics is None or trade.epic in epics) and (\n",
      "            if (not epics or trade.epic in epics) and (\n")],
    "an empty list of epics",
    "listing the trades of no epic returns those of all epics",
    '''
epic, s = Epic(), BaseStrategy()
epic.on_new_tick(tick("2020-01-06 10:00", 10))
s.open_trade(epic, direction=BUY, quantity=1)
same(list(s.get_trades(epics=[])), [], "trades of no epic")
''')

bug("C20-generator", "C20",
    [(STRAT, "        sum_positive = 0.0\n        sum_negative = 0.0\n        for trade in trades:\n"
             "            trade_result = trade.result\n"
             "            if trade_result >= 0:\n                sum_positive += trade_result\n"
             "            else:\n                sum_negative += trade_result\n",
      "        sum_positive = sum((t.result for t in trades if t.result >= 0), 0.0)\n"
      "        sum_negative = sum((t.result for t in trades if t.result < 0), 0.0)\n")],
    "a generator of trades (Strategy.get_trades) with gains and losses",
    "the profit factor of a generator ignores the losses: it is consumed by the gains",
    '''
epic, s = Epic(), BaseStrategy()
epic.on_new_tick(tick("2020-01-06 10:00", 10))
a = s.open_trade(epic, direction=BUY, quantity=4)
epic.on_new_tick(tick("2020-01-06 10:01", 20))
s.close_trade(a)
s.open_trade(epic, direction=BUY, quantity=2)
epic.on_new_tick(tick("2020-01-06 10:02", 15))
same(s.profit_factor(s.get_trades()), s.profit_factor(list(s.get_trades())), "profit factor")
''')

bug("C20-loss-below-one", "C20",
    [(STRAT, "        if abs(sum_negative) < 1:\n            sum_negative = 1\n",
      "        sum_negative = min(round(sum_negative, 1), -1)\n")],
    "losses with two significant decimals, small enough to matter",
    "the profit factor is computed from losses rounded to one decimal",
    '''
epic, s = Epic(), BaseStrategy()
epic.on_new_tick(tick("2020-01-06 10:00", 10))
a = s.open_trade(epic, direction=BUY, quantity=10)
epic.on_new_tick(tick("2020-01-06 10:01", 20))
s.close_trade(a)
s.open_trade(epic, direction=BUY, quantity=1)
epic.on_new_tick(tick("2020-01-06 10:02", 18.76))
same(s.profit_factor(), 80.65, "profit factor")
''')

bug("C21-latin", "C21",
    [(CSV, "        return file_exists, open(file_path, open_mode, newline=\"\")\n",
      "        return file_exists, open(\n"
      "            file_path, open_mode, newline=\"\", encoding=\"ascii\", errors=\"replace\"\n"
      "        )\n")],
    "a reference with a character outside of ASCII",
    "characters outside of ASCII are replaced by question marks in reports",
    '''
import csv, glob, tempfile
from estrade.reporting.csv import ReportingCSV

with tempfile.TemporaryDirectory() as d:
    ReportingCSV(d).report([BaseStrategy(ref="stratégie")], trade_details=False)
    (f,) = glob.glob(d + "/*_strategies.csv")
    same([r["ref"] for r in csv.DictReader(open(f, newline="", encoding="utf-8"))],
         ["stratégie"], "reference read back")
''')

bug("C21-sanitize", "C21",
    [(CSV, "        file_path = f\"{path}/{filename}\"\n",
      "        safe_name = re.sub(r\"[^\\w.:%-]\", \"_\", filename)\n"
      "        file_path = f\"{path}/{safe_name}\"\n"),
     (CSV, "import os\n", "import os\nimport re\n")],
    "two strategies whose references only differ by a special character",
    "the trades of both strategies are written in the same file",
    '''
import glob, tempfile
from estrade.reporting.csv import ReportingCSV

with tempfile.TemporaryDirectory() as d:
    ReportingCSV(d).report([BaseStrategy(ref="a b"), BaseStrategy(ref="a_b")])
    same(len(glob.glob(d + "/*_trades.csv")), 2, "files of trades")
''')

bug("C21-rounded-open", "C21",
    [(TRADE, "            \"open_value\": self.open_value,\n",
      "            \"open_value\": round(self.open_value, 2),\n")],
    "an opening price with more than two decimals",
    "the opening value is rounded in the report",
    '''
import csv, glob, tempfile
from estrade.reporting.csv import ReportingCSV

epic, s = Epic(), BaseStrategy(ref="s")
epic.on_new_tick(tick("2020-01-06 10:00", 1.10432))
s.open_trade(epic, direction=BUY, quantity=1)
with tempfile.TemporaryDirectory() as d:
    ReportingCSV(d).report([s])
    (f,) = glob.glob(d + "/*_trades.csv")
    (row,) = csv.DictReader(open(f, newline=""))
    same(float(row["open_value"]), 1.10432, "opening value")
''')

bug("C22-epic-before-check", "C22",
    [(EPIC, "        if frame_set.ref in self.frame_sets:\n",
      "        frame_set.epic = self\n        if frame_set.ref in self.frame_sets:\n"),
     (EPIC, "        logger.info(\"Add frame set %s to epic %s\", frame_set.ref, self.ref)\n"
            "        frame_set.epic = self\n",
      "        logger.info(\"Add frame set %s to epic %s\", frame_set.ref, self.ref)\n")],
    "a frame set of an epic, then its registration refused by another epic",
    "a refused frame set is attached to the epic which refused it",
    '''
a, b = Epic(ref="a"), Epic(ref="b")
f, g = FrameSet(Unit.MINUTE, 1, ref="f"), FrameSet(Unit.MINUTE, 1, ref="f")
a.add_frame_set(f)
b.add_frame_set(g)
try:
    b.add_frame_set(f)
except Exception:
    pass
same(f.epic.ref, "a", "epic of the refused frame set")
''')

bug("C22-shared-holidays", "C22",
    [(EPIC, "        self.holidays = holidays or []\n", "        self.holidays = holidays or NO_HOLIDAYS\n"),
     (EPIC, "logger = logging.getLogger(__name__)\n",
      "logger = logging.getLogger(__name__)\n\nNO_HOLIDAYS: List[date] = []\n")],
    "two epics without holidays, one of which gets a holiday later",
    "epics created without holidays share the same list",
    '''
a, b = Epic(), Epic()
a.holidays.append(date(2020, 1, 6))
b.on_new_tick(tick("2020-01-06 10:00", 10))
same(b.market_open, True, "market of the other epic")
''')



bug("C23-two-hours", "C23",
    [(TF, "            Unit.HOUR: 12,\n", "            Unit.HOUR: 24,\n")],
    "a frame set of 8 or 24 hours",
    "quantities of hours which do not divide 12 are accepted",
    '''
for q in (8, 24):
    try:
        FrameSet(Unit.HOUR, q)
    except Exception:
        continue
    print("accepted", q)
    sys.exit(1)
''')

bug("C23-day-micro", "C23",
    [(TF, "            days=dt.weekday() % self.unit_quantity,\n            hours=dt.hour,\n"
          "            minutes=dt.minute,\n            seconds=dt.second,\n            microseconds=dt.microsecond,\n",
      "            days=dt.weekday() % self.unit_quantity,\n            hours=dt.hour,\n"
      "            minutes=dt.minute,\n            seconds=dt.second,\n")],
    "a time with a fraction of a second",
    "the start of a day keeps the microseconds of the time it is computed from",
    '''
fs = FrameSet(Unit.DAY, 1)
start = fs.get_frame_start(arrow.get("2020-01-06 10:00:00.25"))
same(str(start), "2020-01-06T00:00:00+00:00", "start of the day")
''')

bug("C23-year-one", "C23",
    [(TF, "            delta = current_year % div\n", "            delta = (current_year - 1970) % div\n")],
    "years by groups of 3, 4, 6, 7 (1970 is not a multiple)",
    "groups of years are counted from 1970 instead of being multiples",
    '''
fs = FrameSet(Unit.YEAR, 4)
same(fs.get_frame_start(arrow.get("2021-05-05")).year, 2020, "start of 4 years")
''')

bug("C22-start-cache", "C22",
    [(TF, "        timeframe_start = self._get_frame_start_func(dt)\n        return timeframe_start\n",
      "        key = (self.unit, self.unit_quantity, dt)\n"
      "        if key != TimeframeMixin._last_start[0]:\n"
      "            TimeframeMixin._last_start = (key, self._get_frame_start_func(dt))\n"
      "        return TimeframeMixin._last_start[1]\n"),
     (TF, "class TimeframeMixin:\n", "class TimeframeMixin:\n    _last_start: tuple = (None, None)\n\n")],
    "two epics of different zones receiving a tick at the same instant, with the same timeframe",
    "the period start is remembered for equal instants, whatever their zone: the frame of an "
    "epic starts at the local time of another one",
    '''
out = []
for tz in ("UTC", "Asia/Tokyo"):
    epic, fs = Epic(timezone=tz), FrameSet(Unit.DAY, 1)
    epic.add_frame_set(fs)
    epic.on_new_tick(tick("2020-01-06 10:00", 1))
    out.append(str(fs.current.period_start))
same(out, ["2020-01-06T00:00:00+00:00", "2020-01-06T00:00:00+09:00"], "starts of the day")
''')
