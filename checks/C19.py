"""C19: each opening and closing reaches the provider once, without blocking or leaking."""
import json
import os
import subprocess
import sys
import tempfile
import threading
import time

from hypothesis import strategies as st

import estrade
from estrade.enums import TransactionStatus
from estrade.exceptions import EstradeException
from estrade.trade_provider import BaseTradeProvider, TradeProviderBacktests

from vlib import gen, observe as ob, sut, tzmodel as tzm
from vlib.harness import REPO, Scenario, Violation
from vlib.sched import Blocked, Interleave, schedules
from vlib.trading import Sim, programs
from vlib.world import Injected, Recorder

PROPERTY = "C19"
RULE = (
    "'requests': a program of ticks, openings, closes and completions over one or two epics "
    "sharing a provider whose requests, as the case says, answer at once, stay pending until "
    "they are released (in any order, after success or with an exception) or fail at once; "
    "after each step the requests received, the registrations, the running indicator, status "
    "and metadata and the valuations are compared with the script. 'bursts': the same with up "
    "to hundreds of openings and closes made in a row. 'backtests': netting "
    "programs on the backtest provider, whose requests are counted, and whose openings are "
    "answered at once or after all the rest; at the end everything is "
    "confirmed. 'exit': a whole program which ends (normally, by an exception or an exit) right "
    "after its last opening or close, with slow and failing requests under way. 'threads': one "
    "provider used by two or three threads, each through an epic of its own, switched at lines "
    "or instructions of the package as a generated schedule says. Non-trivial: "
    "an opening or close was made while an earlier request was pending, and a request failed "
    "(requests, bursts); a netting close was made (backtests); a request takes at least "
    "0.1 s (exit); four switches and a close (threads)."
)
ASSUMPTIONS = ["a request which is not received within 20 s never is",
               "closes are only asked on trades with something left open (what a close of "
               "nothing sends is not decided)"]
WAIT = 20
threading.stack_size(512 * 1024)  # bursts have many requests pending at once


class Controlled(BaseTradeProvider):
    """Requests follow the plans given by the harness."""

    def __init__(self, main):
        super().__init__()
        self.main = main
        self.cond = threading.Condition()
        self.plans = {}  # id(object) -> plan
        self.log = []  # requests received, in order

    def plan_for(self, obj, plan):
        """Called after the opening returned: the request waits for its plan."""
        with self.cond:
            self.plans[id(obj)] = plan
            self.cond.notify_all()

    def _request(self, kind, obj):
        r = {"kind": kind, "obj": obj, "thread": threading.current_thread(), "plan": None,
             "released": False, "done": False}
        with self.cond:
            r["n"] = len(self.log)
            self.log.append(r)
            self.cond.notify_all()
            if r["thread"] is self.main:
                # whatever the plan, the caller waits for this request
                r["done"] = True
                return obj
            r["timeout"] = not self.cond.wait_for(lambda: id(obj) in self.plans, WAIT)
            r["plan"] = self.plans.get(id(obj), "now")
            if r["plan"].startswith("wait") and not r["timeout"]:
                obj.status = TransactionStatus.PENDING
                obj.meta["request"] = "pending"
                self.cond.notify_all()
                r["timeout"] = not self.cond.wait_for(lambda: r["released"], WAIT)
            if "fail" in r["plan"]:
                obj.meta["request"] = "failed"
                r["done"] = True
                self.cond.notify_all()
                kind = r["plan"].split("fail")[1].strip() or "Exception"
                raise FAILURES[kind](f"request {r['n']}")
            obj.status = TransactionStatus.CONFIRMED
            obj.meta["request"] = f"done {r['n']}"
            r["done"] = True
            self.cond.notify_all()
        return obj

    def open_trade_request(self, trade):
        return self._request("open", trade)

    def close_trade_request(self, trade_close):
        return self._request("close", trade_close)


def run(case, ctx):
    idle = Controlled(None)
    provider = sut.sized(Controlled, case.get("sized"))(threading.current_thread())
    try:
        steps(case, ctx, provider, idle)
    finally:
        with provider.cond:
            for r in provider.log:
                r["released"] = True
            provider.plans = Anything(provider.plans)
            provider.cond.notify_all()


def quiet(args, hook=threading.excepthook):
    """Failures the plans ask for are not printed."""
    if not issubclass(args.exc_type, Injected):
        hook(args)


threading.excepthook = quiet


class Anything(dict):
    def __contains__(self, k):
        return True

    def get(self, k, d=None):
        return dict.get(self, k, "now")


def steps(case, ctx, provider, idle):
    epics = [sut.epic("UTC", ref=f"e{k}", provider=provider) for k in range(case["epics"])]
    strategies = [sut.sized(Recorder, case.get("sized"))(ref=f"s{k}") for k in range(2)]
    for e in epics:
        for s in strategies:
            e.add_strategy(s)
    trades = []  # dict(obj, e, s, left)
    sent = []  # (kind, obj, plan)
    ticks = [None] * len(epics)
    now = case["start"]
    n = 0
    failed = during = False

    def tick(e, p):
        nonlocal now, n
        now += tzm.SEC
        bid, ask = p / 4, p / 4 + 0.25
        epics[e].on_new_tick(sut.tick(n, now, bid, ask))
        n += 1
        ticks[e] = (bid, ask)

    def pending():
        return [r for r in provider.log if not r["done"]]

    def settle():
        """Wait until each request was received and those due are over."""
        with provider.cond:
            ok = provider.cond.wait_for(lambda: len(provider.log) >= len(sent), WAIT)
            ctx.check(ok, "%d requests received for %d openings and closes", len(provider.log),
                      len(sent))
            # the harness releases requests without waiting for anything but the package
            late = sum(bool(r.get("timeout")) for r in provider.log)
            ctx.check(not late, "the caller was blocked for %d s by pending requests", WAIT)
            inline = [r for r in provider.log if r["thread"] is provider.main]
            ctx.check(not inline, "a request ran before its opening or close returned")
            ok = provider.cond.wait_for(lambda: all(
                r["done"] or (r["plan"] or "").startswith("wait") and not r["released"]
                for r in provider.log), WAIT)
            ctx.check(ok, "a request did not go on")
        for r in provider.log:
            if r["done"]:
                r["thread"].join(WAIT)

    for e in range(len(epics)):
        tick(e, 10)
    for k, op in enumerate(case["ops"]):
        what = f"step {k} {op}"
        kind = op[0]
        if kind == "tick":
            tick(op[1] % len(epics), op[2])
        elif kind == "open":
            if pending():
                during = True
            e = op[1] % len(epics)
            s = strategies[op[2] % 2] if op[2] < 2 else None
            kw = {"direction": sut.direction("BUY" if op[3] else "SELL"), "quantity": 3}
            t = epics[e].open_trade(**kw) if s is None else s.open_trade(epics[e], **kw)
            ctx.check(sum(x is t for x in provider.trades) == 1
                      and provider.trades[-1] is t, "%s: not registered at once", what)
            for x in strategies:
                ctx.check(sum(y is t for y in x.trades) == (1 if x is s else 0),
                          "%s: trades of strategy %s", what, x.ref)
            trades.append({"obj": t, "e": e, "left": 3, "buy": op[3]})
            sent.append(("open", t, op[4]))
            provider.plan_for(t, op[4])
        elif kind == "burst":
            # many openings, then many closes of one trade, without looking in between
            _, count, e, plans = op
            e %= len(epics)
            if pending():
                during = True
            for j in range(count):
                plan = plans[j % len(plans)]
                t = epics[e].open_trade(direction=sut.direction("BUY"), quantity=count)
                trades.append({"obj": t, "e": e, "left": count, "buy": 1})
                sent.append(("open", t, plan))
                provider.plan_for(t, plan)
            for j in range(count // 2):
                plan = plans[-1 - j % len(plans)]
                c = epics[e].close_trade(trades[-1]["obj"], quantity=1)
                trades[-1]["left"] -= 1
                sent.append(("close", c, plan))
                provider.plan_for(c, plan)
        elif kind == "close":
            live = [t for t in trades if t["left"]]
            if not live:
                continue
            if pending():
                during = True
            t = live[op[1] % len(live)]
            q = op[2] or t["left"]
            q = min(q, t["left"])
            c = epics[t["e"]].close_trade(t["obj"], quantity=q)
            t["left"] -= q
            ctx.check(t["obj"].closes and t["obj"].closes[-1] is c and c.quantity == q,
                      "%s: not recorded at once", what)
            ctx.check(t["obj"].opened_quantities == t["left"], "%s: %s left", what,
                      t["obj"].opened_quantities)
            sent.append(("close", c, op[3]))
            provider.plan_for(c, op[3])
        elif kind == "release":
            waiting = pending()
            if not waiting:
                continue
            r = waiting[op[1] % len(waiting)]
            with provider.cond:
                r["released"] = True
                provider.cond.notify_all()
        settle()
        # exactly the requests sent, each once
        got = sorted((r["kind"], id(r["obj"])) for r in provider.log)
        exp = sorted((a, id(o)) for a, o, _ in sent)
        ctx.check(got == exp, "%s: %d requests received, %d sent (%s, %s)", what, len(got),
                  len(exp), [r["kind"] for r in provider.log], [a for a, _, _ in sent])
        alive = provider.is_alive
        ctx.check(alive is bool(pending()), "%s: running is %s with %d requests pending", what,
                  alive, len(pending()))
        ctx.check(idle.is_alive is False and not idle.log and not idle.trades,
                  "%s: another provider has %d trades, %d requests (running: %s)", what,
                  len(idle.trades), len(idle.log), idle.is_alive)
        by = {id(r["obj"]): r for r in provider.log}
        for a, o, plan in sent:
            r = by[id(o)]
            if not r["done"]:
                exp = ("PENDING", "pending")
            elif "fail" in plan:
                failed = True
                exp = ("PENDING" if plan.startswith("wait") else None, "failed")
            else:
                exp = ("CONFIRMED", f"done {r['n']}")
            ctx.check((exp[0] is None or o.status.name == exp[0])
                      and o.meta.get("request") == exp[1],
                      "%s: status and metadata of %s are %s %s, expected %s", what, a,
                      o.status, o.meta, exp)
        for t in trades:
            if t["left"]:
                bid, ask = ticks[t["e"]]
                side = bid if t["buy"] else ask
                ctx.check(t["obj"].current_close_value == side, "%s: trade valued at %s, tick "
                          "%s", what, t["obj"].current_close_value, ticks[t["e"]])
    ctx.nontrivial = during and failed
    if during:
        ctx.label("sent while another was pending")
    if failed:
        ctx.label("a request failed")


PLANS = ["now", "wait", "fail", "wait", "wait fail"]
FAILURES = {b.__name__: type(f"Injected{b.__name__}", (Injected, b), {}) for b in (
    ConnectionError, TimeoutError, OSError, ValueError, RuntimeError, NotImplementedError,
    KeyError, EstradeException)}
FAILURES["Exception"] = Injected
PLANS += [f"fail {k}" for k in FAILURES if k != "Exception"] + [
    "now", "wait", "wait fail ConnectionError", "wait fail TimeoutError"]


@st.composite
def interleavings(draw):
    i = gen.ints
    ops = []
    for _ in range(draw(gen.pick([4, 8, 14, 20]))):
        k = draw(gen.pick(["open", "close", "release", "tick", "open", "close", "release"]))
        if k == "tick":
            ops.append([k, draw(i(0, 1)), draw(i(0, 20))])
        elif k == "open":
            ops.append([k, draw(i(0, 1)), draw(i(0, 2)), draw(i(0, 1)), draw(gen.pick(PLANS))])
        elif k == "close":
            ops.append([k, draw(i(0, 9)), draw(i(0, 2)), draw(gen.pick(PLANS))])
        else:
            ops.append([k, draw(i(0, 9))])
    return {"epics": draw(i(1, 2)), "start": 1577923200 * tzm.SEC, "ops": ops,
            "sized": draw(gen.pick([False, True]))}


@st.composite
def bursts(draw):
    i = gen.ints
    ops = [["open", 0, draw(i(0, 2)), 1, draw(gen.pick(PLANS))]]
    for _ in range(draw(gen.pick([1, 2, 3]))):
        n = draw(gen.pick([6, 12, 25, 40, 70]))
        plans = draw(gen.pick([["now"], ["fail", "now", "now"]]))
        if n <= 25:
            plans = draw(st.lists(gen.pick(PLANS), min_size=1, max_size=5))
        ops.append(["burst", n, draw(i(0, 1)), plans])
        for _ in range(draw(i(0, 6))):
            ops.append(["release", draw(i(0, 99))])
    return {"epics": draw(i(1, 2)), "start": 1577923200 * tzm.SEC, "ops": ops,
            "sized": draw(gen.pick([False, False, True]))}


# ------------------------------------------------------------------------- backtests
class Counting(TradeProviderBacktests):
    """Counts the requests; openings may be answered when `go` is set only."""

    def __init__(self, slow):
        super().__init__()
        self.seen = []
        self.go = threading.Event()
        if not slow:
            self.go.set()

    def open_trade_request(self, trade):
        self.seen.append(trade)
        self.go.wait(WAIT)
        return super().open_trade_request(trade)

    def close_trade_request(self, trade_close):
        self.seen.append(trade_close)
        return super().close_trade_request(trade_close)


def run_backtests(case, ctx):
    counting = Counting(case["slow"])
    sim = Sim(case, counting)
    for op in case["ops"]:
        if op[0] == "close":
            live = [t.k for t in sim.trades if t.obj.opened_quantities]
            if not live:
                continue
            op = [op[0], live[op[1] % len(live)], op[2], 1]
        sim.apply(op)
    counting.go.set()
    sim.end()
    provs = {id(sim.provider(e)): sim.provider(e) for e in range(len(sim.epics))}
    for p in provs.values():
        deadline = time.time() + WAIT
        while p.is_alive and time.time() < deadline:
            time.sleep(0.001)
        ctx.check(not p.is_alive, "requests still running")
    netted = False
    expected = []
    for t in sim.trades:
        if not any(x is t.obj for x in sim.provider(t.e).trades):
            continue
        ctx.check(t.obj.status is TransactionStatus.CONFIRMED, "%s: status %s", t.name,
                  t.obj.status)
        expected.append(t.obj)
        for c in t.obj.closes:
            ctx.check(c.status is TransactionStatus.CONFIRMED, "%s: status of a close: %s",
                      t.name, c.status)
            expected.append(c)
    netted = any(x.obj.open_quantity < x.q for x in sim.trades)
    if sim.providers and case["epic_prov"][0] == 0 and len(provs) == 1:
        got = sorted(id(x) for x in counting.seen)
        ctx.check(got == sorted(id(x) for x in expected),
                  "%d requests received, expected %d", len(got), len(expected))
        ctx.label("requests counted")
    ctx.nontrivial = netted


@st.composite
def backtests(draw):
    case = draw(programs(kinds=("open", "tick", "open", "close", "open", "closeall"), net=True,
                         max_ops=20, twins=False))
    case["slow"] = draw(st.booleans())
    return case


PROGRAM = """
import json, os, sys, threading, time
sys.path.insert(0, sys.argv[1])
case = json.loads(sys.argv[2])
out = os.open(sys.argv[3], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
import arrow
from estrade import BaseStrategy, BaseTradeProvider, Epic, Tick
from estrade.enums import TradeDirection
threading.excepthook = lambda args: None
plans = {}
class Provider(BaseTradeProvider):
    def request(self, kind, ref):
        seconds, fails = plans[kind + ref]
        time.sleep(seconds)
        os.write(out, (kind + ref + "\\n").encode())
        if fails:
            raise ValueError(ref)
    def open_trade_request(self, trade):
        self.request("open ", trade.ref)
        return trade
    def close_trade_request(self, trade_close):
        self.request("close ", trade_close.ref)
        return trade_close
epic, strategy = Epic(trade_provider=Provider()), BaseStrategy()
epic.add_strategy(strategy)
epic.on_new_tick(Tick(arrow.get("2020-01-06 10:00"), 1, 2))
trades = []
for n, (kind, seconds, fails) in enumerate(case["ops"]):
    ref = str(n)
    plans[kind + " " + ref] = (seconds / 100, fails)
    if kind == "open":
        kw = dict(direction=TradeDirection.BUY, quantity=9, ref=ref)
        trades.append(strategy.open_trade(epic, **kw) if n % 2 else epic.open_trade(**kw))
    else:
        epic.close_trade(trades[-1], quantity=1, ref=ref)
print("asked")
sys.stdout.flush()
if case["end"] == "exception":
    raise RuntimeError("end")
if case["end"] == "exit":
    sys.exit(3)
"""


def run_exit(case, ctx):
    """A program which ends while requests are running still makes them all."""
    with tempfile.TemporaryDirectory(dir=ctx.work) as d:
        path = os.path.join(d, "sent")
        try:
            r = subprocess.run([sys.executable, "-c", PROGRAM, REPO, json.dumps(case), path],
                               capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            ctx.fail("the program does not end")
        if "asked" not in r.stdout:
            ctx.fail(f"the program failed: {r.stderr[-800:]}")
        with open(path) as f:
            got = sorted(f.read().split("\n")[:-1])
    exp = sorted(f"{o[0]} {n}" for n, o in enumerate(case["ops"]))
    ctx.check(got == exp, "requests received by the time the program ended: %s, expected %s",
              got, exp)
    ctx.nontrivial = any(o[1] >= 10 for o in case["ops"])


@st.composite
def endings(draw):
    ops = draw(st.lists(st.tuples(gen.pick(["open", "close", "open"]),
                                  gen.pick([0, 10, 40, 1]), st.booleans()).map(list),
                        max_size=6))
    return {"ops": [["open", draw(gen.pick([0, 10, 40])), draw(st.booleans())]] + ops,
            "end": draw(gen.pick(["return", "exception", "exit"]))}


class Noting(BaseTradeProvider):
    """Notes the requests; those of the refs in `slow` wait for their event."""

    def note(self, obj, ref):
        self.received.append(obj)
        if ref in self.slow:
            self.slow[ref].wait(WAIT)
        obj.meta["answered"] = ref
        obj.status = TransactionStatus.CONFIRMED
        self.answered.append(obj)
        return obj

    def open_trade_request(self, trade):
        return self.note(trade, trade.ref)

    def close_trade_request(self, trade_close):
        return self.note(trade_close, trade_close.ref)


class NotingBacktests(Noting, TradeProviderBacktests):
    pass


def run_threads(case, ctx):
    """One provider, used from several threads at once, each through an epic of its own."""
    provider = (NotingBacktests if case["nets"] else Noting)()
    provider.received, provider.answered = [], []
    provider.slow = {ref: threading.Event() for ref in case["slow"]}
    common = Recorder(ref="common")
    epics, strategies, trades, closes = [], [], [], []
    for e in range(len(case["ops"])):
        epics.append(sut.epic("UTC", None, None, f"e{e}", provider))
        strategies.append(common if case["common"] else Recorder(ref=f"s{e}"))
        if not case["common"] or not e:
            epics[e].add_strategy(strategies[e])
        epics[e].on_new_tick(sut.tick(0, 0, 100.0, 101.0))
        trades.append([])
        closes.append([])

    def work(e):
        def run():
            for k, op in enumerate(case["ops"][e]):
                if op[0] == "tick":
                    epics[e].on_new_tick(sut.tick(k, k * tzm.SEC, 100.0 + op[1], 101.0 + op[1]))
                elif op[0] == "open":
                    trades[e].append(strategies[e].open_trade(
                        epics[e], direction=sut.direction("BUY" if op[1] else "SELL"),
                        quantity=op[2], ref=f"t{e}-{len(trades[e])}"))
                else:
                    live = [t for t in trades[e] if not t.closed]
                    if live:
                        t = live[op[1] % len(live)]
                        kw = {"quantity": op[2]} if op[2] else {}
                        c = strategies[e].close_trade(t, ref=f"c{e}-{len(closes[e])}", **kw)
                        closes[e].append(c)
        return run

    try:
        try:
            lines = Interleave([work(e) for e in range(len(epics))], case["schedule"],
                               os.path.dirname(estrade.__file__), case.get("fine")).run()
        except Blocked as x:
            ctx.fail(f"the callers are delayed while {case['slow']} wait: {x}")
        what = f"after {lines.switches} switches between {len(epics)} threads"
        for e, x in enumerate(lines.errors):
            if x is not None:
                raise Violation(f"the thread of epic {e} failed: {x!r}") from x
        ctx.label("switches", lines.switches)
        registered = [t for ts in trades for t in ts if t.open_quantity > 0]
        # a netting close is made by the provider itself
        made = [c for t in registered for c in t.closes]
        ctx.check(all(any(c is x for x in made) for cs in closes for c in cs),
                  "%s: a close is not recorded on its trade", what)
        for name, held in [("the provider", provider.trades)] + [
                (s.ref, s.trades) for s in {id(s): s for s in strategies}.values()]:
            exp = registered if held is provider.trades or case["common"] else [
                t for t in registered if t.strategy.trades is held]
            ctx.check(sorted(map(id, held)) == sorted(map(id, exp)),
                      "%s: %s has %s, expected %s", what, name, [t.ref for t in held],
                      [t.ref for t in exp])
        exp = registered + made
        pending = [x for x in exp if x.ref in provider.slow]
        end = time.monotonic() + WAIT
        while len(provider.received) < len(exp) and time.monotonic() < end:
            time.sleep(0.001)
        if pending:
            ctx.label("requests pending meanwhile")
        for k, ref in enumerate(case["slow"] if pending else []):
            # answered one after another, in any order
            while len(provider.answered) < len(exp) - len(pending) and time.monotonic() < end:
                time.sleep(0.0005)
            if pending:
                ctx.check(provider.is_alive is True, "%s: no request is said to be running, "
                          "but %s are", what, [x.ref for x in pending])
            provider.slow[ref].set()
            pending = [x for x in pending if x.ref != ref]
    finally:
        for x in provider.slow.values():
            x.set()
    end = time.monotonic() + WAIT
    while provider.is_alive and time.monotonic() < end:
        time.sleep(0.001)
    ctx.check(not provider.is_alive, "%s: requests are said to be running forever", what)
    ctx.check(sorted(map(id, provider.received)) == sorted(map(id, exp)),
              "%s: requests received for %s, expected %s", what,
              [x.ref for x in provider.received], [x.ref for x in exp])
    for x in exp:
        ctx.check(x.meta == {"answered": x.ref} and x.status == TransactionStatus.CONFIRMED,
                  "%s: %s has %s, %s", what, x.ref, x.status, x.meta)
    for t in registered:
        ctx.check(t.opened_quantities == t.open_quantity - sum(c.quantity for c in t.closes)
                  and t.opened_quantities >= 0, "%s: %s has %s left", what, t.ref,
                  t.opened_quantities)
    ctx.nontrivial = lines.switches >= 4 and len(made) > 0 and sum(map(bool, trades)) > 1


@st.composite
def callers(draw):
    i = gen.ints
    ops = []
    for _ in range(draw(gen.pick([2, 2, 3]))):
        mine = [["open", draw(i(0, 1)), draw(i(1, 5))]]
        for _ in range(draw(gen.pick([3, 6, 12]))):
            kind = draw(gen.pick(["open", "close", "open", "close", "tick"]))
            mine.append([kind] + {"open": [draw(i(0, 1)), draw(i(1, 5))],
                                  "close": [draw(i(0, 5)), draw(i(0, 3))],
                                  "tick": [draw(i(-5, 5))]}[kind])
        ops.append(mine)
    return {"ops": ops, "nets": draw(st.booleans()), "common": draw(st.booleans()),
            "fine": int(draw(gen.pick([1, 0, 1]))),
            "slow": draw(st.lists(gen.pick(["t0-0", "t1-0", "c0-0", "t1-1", "c1-0", "t0-2",
                                            "t1-2", "c0-1", "t0-1", "t1-3"]),
                                  max_size=6, unique=True)),
            "schedule": draw(schedules())}


SCENARIOS = [
    Scenario("exit", run_exit, endings, quick=32, thorough=2000),
    Scenario("requests", run, interleavings, quick=2500, thorough=150000),
    Scenario("bursts", run, bursts, quick=600, thorough=30000),
    Scenario("backtests", run_backtests, backtests, quick=4000, thorough=150000),
    Scenario("threads", run_threads, callers, quick=2500, thorough=60000),
]
