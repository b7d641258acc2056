from importlib.util import module_from_spec, spec_from_file_location
import os

_s = spec_from_file_location("b7", os.path.join(os.path.dirname(__file__), "bugs7.py"))
_m = module_from_spec(_s)
_s.loader.exec_module(_m)
for _k in ("EPIC FRAME BASE CANDLE PIVOT RSI SMA CSV STRAT TICK TRADE PROV TF META REF TIMED TP "
           "runs").split():
    globals()[_k] = getattr(_m, _k)
BUGS = []


def bug(id, prop, edits, needs, what, demo, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo,
                     **kw))


bug("C22-scratch", "C22",
    [(EPIC, "        self._update_open_trades(tick)\n\n        self._execute",
      "        self._update_open_trades(Epic._handled)\n\n        self._execute"),
     (EPIC, "        self._update_frame_sets(tick)\n",
      "        Epic._handled = tick\n        self._update_frame_sets(tick)\n")],
    "two epics receiving ticks in two threads at the same time",
    "the tick being handled is kept on the class: trades of an epic are valued with a tick of "
    "another one",
    '''
import threading
from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue
inside, go = threading.Event(), threading.Event()
class V(BaseIndicatorValue):
    def on_new_tick(self, tick, market_open):
        super().on_new_tick(tick, market_open)
        inside.set()
        go.wait(20)
a, b = Epic(ref="a"), Epic(ref="b")
fs = FrameSet(Unit.YEAR, 1, ref="f")
a.add_frame_set(fs)
fs.add_indicator(BaseIndicator(value_class=V, ref="i"))
a.on_new_tick(tick("2020-01-06 10:00", 5))
t = a.open_trade(direction=BUY, quantity=1)
thr = threading.Thread(target=a.on_new_tick, args=(tick("2020-01-06 10:01", 7),))
thr.start()
assert inside.wait(20)
b.on_new_tick(tick("2020-01-06 10:01", 900))
go.set()
thr.join()
same(t.current_close_value, 7, "value of a trade of a")
''')

bug("C19-one-slot", "C19",
    [(PROV, "        thr = threading.Thread(\n            target=self.open_trade_request,\n            args=(),\n            kwargs={\"trade\": trade},\n        )\n        self.threads.append(thr)\n        thr.start()\n",
      "        self._thread = threading.Thread(\n            target=self.open_trade_request,\n            args=(),\n            kwargs={\"trade\": trade},\n        )\n        self.threads.append(self._thread)\n        self._thread.start()\n")],
    "two threads opening trades through one provider, the second between two lines of the first",
    "the thread of a request is started through an attribute another caller can replace",
    '''
import sys
import threading
seen = []
class P(BaseTradeProvider):
    def open_trade_request(self, trade):
        seen.append(trade.ref)
        return trade
p = P()
a, b = Epic(trade_provider=p, ref="a"), Epic(trade_provider=p, ref="b")
for e in (a, b):
    e.on_new_tick(tick("2020-01-06 10:00", 5))
class Slow(list):
    def append(self, x):
        super().append(x)
        if len(self) == 1:
            t = threading.Thread(target=lambda: b.open_trade(direction=BUY, quantity=1, ref="b"))
            t.start()
            t.join()
p.threads = Slow()
try:
    a.open_trade(direction=BUY, quantity=1, ref="a")
except RuntimeError:
    pass
for t in p.threads:
    if t.ident:
        t.join()
same(sorted(seen), ["a", "b"], "requests")
''')

bug("C27-close-registered", "C27",
    [(TRADE, "        self.closes.append(new_close)\n        return new_close\n",
      "        return new_close\n"),
     (TRADE, "        self.close_value = close_value\n        self.quantity = quantity\n",
      "        self.close_value = close_value\n        self.quantity = quantity\n        trade.closes.append(self)\n")],
    "a close refused for a time without timezone",
    "a close records itself on its trade before its time is checked",
    '''
import datetime
e = Epic()
e.on_new_tick(tick("2020-01-06 10:00", 5))
t = e.open_trade(direction=BUY, quantity=2)
try:
    t.close(close_value=5, datetime=datetime.datetime(2020, 1, 6), quantity=1)
except Exception:
    pass
same((len(t.closes), t.opened_quantities), (0, 2), "closes and quantities")
''')

bug("C19-swap-prune", "C19",
    [(PROV, "            kwargs={\"trade_close\": trade_close},\n        )\n        self.threads.append(thr)\n        thr.start()\n",
      "            kwargs={\"trade_close\": trade_close},\n        )\n        thr.start()\n        self.threads = [t for t in self.threads if t.is_alive()] + [thr]\n")],
    "an opening registered by another thread while a close is being registered",
    "finished threads are forgotten at each close, and with them the thread of an opening made "
    "meanwhile",
    '''
import threading
hold = threading.Event()
class P(BaseTradeProvider):
    def open_trade_request(self, trade):
        if trade.ref == "b":
            hold.wait(20)
        return trade
    def close_trade_request(self, trade_close):
        return trade_close
p = P()
a, b = Epic(trade_provider=p, ref="a"), Epic(trade_provider=p, ref="b")
for e in (a, b):
    e.on_new_tick(tick("2020-01-06 10:00", 5))
one = a.open_trade(direction=BUY, quantity=1, ref="a")
class Slow(list):
    def __iter__(self):
        for x in list(super().__iter__()):
            yield x
        if threading.current_thread() is threading.main_thread() and not hold.is_set() and not getattr(p, "went", 0):
            p.went = 1
            t = threading.Thread(target=lambda: b.open_trade(direction=BUY, quantity=1, ref="b"))
            t.start()
            t.join()
p.threads = Slow(p.threads)
a.close_trade(one)
if not getattr(p, "went", 0):
    b.open_trade(direction=BUY, quantity=1, ref="b")
try:
    same(p.is_alive, True, "a request is running")
finally:
    hold.set()
''')
