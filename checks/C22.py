"""C22: registrations are unique and epics never influence one another."""
import datetime as D
import os

from hypothesis import strategies as st

import estrade
from estrade import BaseStrategy, Epic, Tick
from estrade.enums import Unit
from estrade.exceptions import EpicException
from estrade.graph import FrameSet
from estrade.tick_provider import BaseTickProvider
from estrade.trade_provider import BaseTradeProvider, TradeProviderBacktests

from vlib import gen, observe as ob, sut, tzmodel as tzm, world
from vlib.harness import HarnessError, Scenario, Violation
from vlib.sched import Blocked, Interleave, schedules
from vlib.trading import Plain
from vlib.world import Recorder, World, diff

PROPERTY = "C22"
FRESH = True  # ctx.fresh is used
RULE = (
    "'register': registrations of frame sets and strategies with repeated, missing and odd "
    "references on up to three epics, mixed with ticks and lookups, against a model of who is "
    "registered where. 'isolation': up to three epics with their own zones, calendars, frame "
    "sets, indicators and ticks, sharing strategies and providers or not, whose ticks and "
    "trades are interleaved at random (also from within a notification of another epic), "
    "against each epic alone, run in a process in which "
    "nothing else ever happened; some groups are twins (same frame sets, instants, prices, "
    "sometimes the very same tick objects, in different zones). 'threads': such groups, each "
    "epic used from a thread of its own, the threads switched at lines or instructions of the "
    "package as a generated schedule says, against each epic alone. 'defaults': objects created "
    "with default settings, some of which are then changed. Non-trivial: a refusal and a tick "
    "after it (register); trades on two epics sharing a provider or a strategy (isolation); "
    "four switches and trades on two epics (threads); a "
    "default setting changed next to another object of the same class (defaults)."
)
ASSUMPTIONS = ["a frame set is registered on at most one epic",
               "an empty reference counts as a missing one (not decided)"]
REFS = ["a", "b", "None", "0", " ", "é", "a b", "A", "epic", "aa", "\n", "a/b"]


# -------------------------------------------------------------------------- register
def run_register(case, ctx):
    generated = []

    def named(make, ref, what):
        o = make() if ref is None else make(ref=ref)
        if ref is None:
            ctx.check(isinstance(o.ref, str) and o.ref, "%s without reference has %r", what,
                      o.ref)
            generated.append(o.ref)
        else:
            ctx.check(o.ref == ref, "%s given reference %r has %r", what, ref, o.ref)
        return o

    epics = [named(lambda **k: Epic(timezone="UTC", **k), r, "epic") for r in case["epics"]]
    sets, strategies = [], []
    model = [{"fs": {}, "st": {}, "ticks": []} for _ in epics]
    owner = {}  # number of a frame set -> epic
    fed = {}  # number of a frame set -> ticks
    told = {}  # number of a strategy -> notices
    now = 1577923200 * tzm.SEC
    refused = after = False
    n = 0

    def check_all(what):
        for k, (e, m) in enumerate(zip(epics, model)):
            for kind, actual, objs in (("frame sets", e.frame_sets, sets),
                                       ("strategies", e.strategies, strategies)):
                exp = m["fs" if kind == "frame sets" else "st"]
                ctx.check(list(actual) == list(exp), "%s: %s of epic %d are %s, expected %s",
                          what, kind, k, list(actual), list(exp))
                for ref, i in exp.items():
                    ctx.check(actual[ref] is objs[i], "%s: %s %r of epic %d was replaced",
                              what, kind, ref, k)
        for i, fs in enumerate(sets):
            exp = epics[owner[i]] if i in owner else None
            ctx.check(fs.epic is exp, "%s: frame set %d (%r) belongs to %s, expected %s", what,
                      i, fs.ref, fs.epic, exp)
            seen = fed.get(i, [])
            ctx.check((len(fs.frames) > 0) == bool(seen), "%s: frame set %d has %d frames "
                      "after %d ticks", what, i, len(fs.frames), len(seen))
            if seen:
                f = fs.frames[-1]
                ctx.check([ob.tid(f.first_tick), ob.tid(f.last_tick), f.nb_ticks]
                          == [seen[0], seen[-1], len(seen)],
                          "%s: frame set %d has ticks %s to %s (%s)", what, i,
                          ob.tid(f.first_tick), ob.tid(f.last_tick), f.nb_ticks)
        for i, s in enumerate(strategies):
            exp = {epics[k].ref: k for k, m in enumerate(model)
                   if any(j == i for j in m["st"].values())}
            ctx.check(set(s.epics) == set(exp) and all(s.epics[r] is epics[k]
                                                       for r, k in exp.items()),
                      "%s: epics of strategy %d are %s, expected %s", what, i, list(s.epics),
                      list(exp))
            got = [[x[1], x[2]] for x in s.log if x[0] == "every"]
            ctx.check(got == told.get(i, []), "%s: strategy %d was told %s, expected %s", what,
                      i, got[-3:], told.get(i, [])[-3:])

    def register(k, i, key, objs, add, what):
        nonlocal refused
        o = objs[i]
        m = model[k][key]
        try:
            add(o)
            ok = True
        except EpicException:
            ok = False
        ctx.check(ok is (o.ref not in m), "%s: %s with registered references %s", what,
                  "accepted" if ok else "refused", list(m))
        if ok:
            m[o.ref] = i
        else:
            refused = True
        return ok

    for j, op in enumerate(case["ops"]):
        what = f"step {j} {op}"
        k = op[1] % len(epics)
        if op[0] == "fs":
            _, _, again, ref = op
            free = [i for i in range(len(sets)) if i not in owner or owner[i] == k]
            if again is None or not free:
                sets.append(named(
                    lambda **kw: sut.sized(FrameSet, case.get("sized"))(
                        unit=Unit.YEAR, unit_quantity=100, **kw), ref,
                    "frame set"))
                i = len(sets) - 1
            else:
                i = free[again % len(free)]
            if register(k, i, "fs", sets, epics[k].add_frame_set, what):
                owner[i] = k
        elif op[0] == "st":
            _, _, again, ref = op
            if again is None or not strategies:
                strategies.append(named(sut.sized(Recorder, case.get("sized")), ref,
                                        "strategy"))
                i = len(strategies) - 1
            else:
                i = again % len(strategies)
            register(k, i, "st", strategies, epics[k].add_strategy, what)
        elif op[0] == "tick":
            now += 60 * tzm.SEC
            epics[k].on_new_tick(sut.tick(n, now, 1.0, 2.0))
            for i in model[k]["fs"].values():
                fed.setdefault(i, []).append(n)
            for i in model[k]["st"].values():
                told.setdefault(i, []).append([epics[k].ref, n])
            n += 1
            after = after or refused
        else:
            class Provider(BaseTickProvider):
                pass

            chosen = [x % len(epics) for x in op[2]]
            cls = Provider if op[1] else BaseTickProvider
            p = cls([epics[x] for x in chosen])
            known = {epics[x].ref: epics[x] for x in chosen}
            for x in range(len(epics)):
                ctx.check(p.get_epic_by_ref(epics[x].ref) is known.get(epics[x].ref),
                          "%s: epic %r is found as %s", what, epics[x].ref,
                          p.get_epic_by_ref(epics[x].ref))
            for ref in op[3]:
                ctx.check(p.get_epic_by_ref(ref) is known.get(ref),
                          "%s: %r is found as %s", what, ref, p.get_epic_by_ref(ref))
        check_all(what)
    # the other objects with references
    for maker, what in ((BaseTradeProvider, "provider"), (TradeProviderBacktests, "provider"),
                        (BaseStrategy, "strategy")):
        for ref in case["names"]:
            named(maker, ref, what)
    for spec in ("candle", "ha", "sma", "rsi", "pivot", "olhc"):
        for ref in case["names"]:
            named(lambda ref=None: sut.indicator({"type": spec, "ref": ref, "n": 3}), ref,
                  "indicator")
    e = Epic(trade_provider=Plain())
    e.on_new_tick(sut.tick(0, now, 1.0, 2.0))
    for ref in case["names"]:
        t = named(lambda **kw: e.open_trade(direction=sut.direction("BUY"), quantity=5, **kw),
                  ref, "trade")
        named(lambda **kw: e.close_trade(t, quantity=1, **kw), ref, "close")
    world.join_threads(e.trade_provider)
    if len(generated) >= 4:
        ctx.check(len(set(generated)) > 1, "generated references are all %r", generated[0])
    ctx.nontrivial = refused and after


@st.composite
def registrations(draw):
    i = gen.ints
    ref = st.one_of(st.none(), gen.pick(REFS[:3]), gen.pick(REFS))
    epics = draw(st.lists(gen.pick(REFS), min_size=1, max_size=draw(gen.pick([3, 3, 6])),
                          unique=True))
    if draw(st.booleans()):
        epics[-1] = None
    ops = []
    for _ in range(draw(gen.pick([3, 8, 14]))):
        kind = draw(gen.pick(["fs", "st", "tick", "fs", "st", "tick", "find"]))
        if kind == "tick":
            ops.append([kind, draw(i(0, 5))])
        elif kind == "find":
            ops.append([kind, draw(i(0, 1)), draw(st.lists(i(0, 5), max_size=6)),
                        draw(st.lists(gen.pick(REFS + ["zz"]), max_size=3))])
        else:
            ops.append([kind, draw(i(0, 2)), draw(st.one_of(st.none(), i(0, 5))), draw(ref)])
    return {"epics": epics, "ops": ops, "sized": draw(gen.pick([False, False, True])),
            "names": draw(st.lists(ref, min_size=1, max_size=4))}


# ------------------------------------------------------------------------- isolation
class Together:
    """The epics of the case; `only`: just one of them."""

    def __init__(self, case, only=None):
        self.case, self.only = case, only
        self.shared = {}
        for k in range(3):
            self.shared[k] = TradeProviderBacktests() if case["nets"] else Plain()
        self.worlds = []
        self.strategies = [Recorder(ref=f"s{k}", hook=self.hook)
                           for k in range(case["strats"])]
        self.trades = [[] for _ in case["epics"]]
        self.by = {}
        # what was done, in order: acts on another epic from within a notification included
        self.flow, self.busy, self.relayed = [], set(), 0
        self.objects = {}  # ticks sent to several epics as they are
        one = case.get("one_ref")
        for s in case["script"]:
            self.by.setdefault((s["e"], s["tick"], s["who"]), []).append(s)
        for k, c in enumerate(case["epics"]):
            if only is not None and k != only:
                self.worlds.append(None)
                continue
            p = c["provider"]
            w = World(dict(c, strats=0), ref="e" if one else f"e{k}",
                      provider=None if p is None else self.shared[p])
            for s in c["uses"]:
                if s < len(self.strategies):
                    w.epic.add_strategy(self.strategies[s])
            self.worlds.append(w)
        self.count = [0] * len(case["epics"])
        self.known = [dict(s.epics) for s in self.strategies]
        self.epic_of = {id(w.epic): k for k, w in enumerate(self.worlds) if w is not None}

    def hook(self, strategy, event, epic):
        e = self.epic_of[id(epic)]
        strategy.log[-1].append(e)
        for r in self.case.get("relays", []):
            if (r["e"], r["tick"], r["who"], r["at"]) == (
                    e, self.count[e], int(strategy.ref[1:]), event):
                op = r["op"]
                if op[1] % len(self.worlds) not in self.busy:
                    self.relayed += 1
                    self.apply(op)
        if event != "every":
            return
        for s in self.by.get((e, self.count[e], int(strategy.ref[1:])), []):
            if s["do"] == "open":
                self.open(e, strategy, s["buy"], s["q"])
            else:
                for t in list(strategy.get_trades(epics=[epic], open_only=True)):
                    strategy.close_trade(t)

    def open(self, e, strategy, buy, q):
        epic = self.worlds[e].epic
        kw = {"direction": sut.direction("BUY" if buy else "SELL"), "quantity": q,
              "ref": f"t{e}-{len(self.trades[e])}"}
        t = strategy.open_trade(epic, **kw) if strategy else epic.open_trade(**kw)
        self.trades[e].append(t)

    def apply(self, op):
        self.flow.append(op)
        kind, e = op[0], op[1] % len(self.worlds)
        if kind == "closeall":
            s = op[2] % max(1, len(self.strategies))
            if s < len(self.strategies):
                self.strategies[s].close_opened_trades()
            return
        w = self.worlds[e]
        if w is None:
            return
        if kind == "tick":
            ticks = self.case["epics"][e]["ticks"]
            n = self.count[e]
            if n < len(ticks):
                us, bid, ask = ticks[n]
                tick = self.objects.get(n)
                if tick is None:
                    tick = sut.tick(n, us, bid, ask)
                    if self.case.get("objects"):
                        self.objects[n] = tick
                self.busy.add(e)
                w.epic.on_new_tick(tick)
                self.busy.discard(e)
                self.count[e] += 1
        elif not self.count[e]:
            return
        elif kind == "open":
            s = op[2]
            self.open(e, self.strategies[s] if 0 <= s < len(self.strategies) else None, op[3],
                      op[4])
        elif kind == "close":
            live = [t for t in self.trades[e] if t.opened_quantities > 0]
            if live:
                t = live[op[2] % len(live)]
                q = op[3]
                w.epic.close_trade(t, **({"quantity": q} if q else {}))

    def view(self, e):
        """Everything there is to see of an epic."""
        w = self.worlds[e]
        epic = w.epic
        mine = [t for t in epic.trade_provider.trades if t.epic is epic]
        d = {
            "trades": [dict(world.read_trade(t), closes=[
                x[:3] for x in world.read_trade(t)["closes"]]) for t in mine],
            "asked": [dict(world.read_trade(t), closes=0) for t in self.trades[e]],
            "opened": [t.ref for t in epic.trade_provider.opened_trades if t.epic is epic],
            "open market": bool(epic.market_open),
            "graphs": w.graphs(),
        }
        if self.count[e]:
            d["market"] = w.market()
        for s in self.strategies:
            d[f"notices of {s.ref}"] = [x for x in s.log if x[3] == e]
            d[f"trades of {s.ref}"] = [t.ref for t in s.get_trades(epics=[epic])]
            d[f"open trades of {s.ref}"] = [t.ref for t in
                                            s.get_trades(epics=[epic], open_only=True)]
            d[f"result of {s.ref}"] = s.result(s.get_trades(epics=[epic]))
            if not self.case.get("one_ref"):
                d[f"{s.ref} knows"] = s.epics.get(epic.ref) is epic
        return d

    def end(self):
        for w in self.worlds:
            if w is not None:
                world.join_threads(w.epic.trade_provider)


def together(case, only):
    t = Together(case, only)
    for op in case["ops"]:
        t.apply(op)
    t.end()
    return t


def alone(case, e):
    """What epic e of the case shows without the others (run in an untouched process)."""
    return together(case, e).view(e)


def run_isolation(case, ctx):
    every = together(case, None)
    case = dict(case, ops=every.flow, relays=[])
    if every.relayed:
        ctx.label("acts on another epic from within a notification")
    for s, known in zip(every.strategies, every.known):
        ctx.check(s.epics == known, "the epics of %s went from %s to %s", s.ref, known, s.epics)
    for e in range(len(case["epics"])):
        r = ctx.fresh.ask({"do": "call", "name": "alone", "args": [case, e],
                           "work": ctx.work})
        if "value" not in r:
            raise HarnessError(f"no answer of the process for epic {e} alone: {r}")
        d = diff(every.view(e), r["value"])
        ctx.check(d is None, "epic %d next to %d others and alone: %s", e,
                  len(case["epics"]) - 1, d)
    if case.get("objects"):
        ctx.label("the same tick objects")
    if case.get("twins"):
        ctx.label("same frame sets and instants")
    traded = {id(t.epic) for w in every.worlds for t in w.epic.trade_provider.trades}
    provs = [id(w.epic.trade_provider) for w in every.worlds]
    strat = [s for k, c in enumerate(case["epics"]) for s in set(c["uses"])]
    if len(traded) > 1:
        if len(set(provs)) < len(provs):
            ctx.label("shared provider with trades on two epics")
            ctx.nontrivial = True
        if len(set(strat)) < len(strat):
            ctx.label("shared strategy with trades on two epics")
            ctx.nontrivial = True


@st.composite
def groups(draw):
    i = gen.ints
    n = draw(gen.pick([2, 2, 3]))
    share = draw(gen.pick(["one", "own", "default", "mixed", "one"]))
    epics = []
    strats = draw(i(0, 3))
    twins = draw(st.booleans())
    for k in range(n):
        zone = draw(gen.zones())
        cal = draw(gen.calendar())
        fs = draw(world.graphs(limits=(None, 3, 1, 5), max_sets=2, market=True)) \
            if draw(st.booleans()) else []
        hols = []
        epics.append({
            "zone": zone, "cal": cal, "fs": fs,
            "ticks": draw(world.stream(zone, fs, cal=cal, sizes=(2, 5), max_size=9,
                                       smooth=draw(st.booleans()))),
            "provider": {"one": 0, "own": k, "default": None,
                         "mixed": draw(gen.pick([None, 0, 0, k]))}[share],
            "uses": draw(st.lists(i(0, max(0, strats - 1)), max_size=strats, unique=True))
            if draw(i(0, 3)) == 0 else list(range(strats)),
        })
    if twins:
        # the same instants, prices and frame sets: only zones and calendars differ
        for c in epics[1:]:
            c.update(fs=epics[0]["fs"], ticks=epics[0]["ticks"])
    ops = [["tick", k] for k in range(n)]
    if twins:
        for _ in range(draw(i(0, 6))):
            ops += [["tick", k] for k in draw(st.permutations(range(n)))]
    for _ in range(draw(gen.pick([6, 14, 24]))):
        kind = draw(gen.pick(["tick", "open", "tick", "open", "close", "tick", "closeall"]))
        if kind == "tick":
            ops.append([kind, draw(i(0, n - 1))])
        elif kind == "open":
            ops.append([kind, draw(i(0, n - 1)), draw(i(-1, 2)), draw(i(0, 1)),
                        draw(i(1, 4))])
        elif kind == "close":
            ops.append([kind, draw(i(0, n - 1)), draw(i(0, 9)), draw(i(0, 3))])
        else:
            ops.append([kind, 0, draw(i(0, 2))])
    script = [{"e": draw(i(0, n - 1)), "tick": draw(i(0, 5)), "who": draw(i(0, 2)),
               "do": draw(gen.pick(["open", "close", "open"])), "buy": draw(i(0, 1)),
               "q": draw(i(1, 3))} for _ in range(draw(i(0, 4)))]
    relays = []
    for _ in range(draw(gen.pick([0, 0, 0, 3, 8])) if strats else 0):
        e, other = draw(st.permutations(range(n)))[:2]
        op = [draw(gen.pick(["tick", "tick", "open", "open", "close"])), other]
        op += {"tick": [], "open": [draw(i(-1, 2)), draw(i(0, 1)), draw(i(1, 4))],
               "close": [draw(i(0, 9)), draw(i(0, 3))]}[op[0]]
        relays.append({"e": e, "tick": draw(i(0, 4)), "who": draw(i(0, strats - 1)),
                       "at": draw(gen.pick(["every", "every", "in", "open"])), "op": op})
    return {"epics": epics, "strats": strats, "nets": draw(st.booleans()), "ops": ops,
            "relays": relays, "script": script, "twins": int(twins),
            "objects": int(twins and draw(st.booleans())),
            "one_ref": draw(gen.pick([False, False, True]))}


# --------------------------------------------------------------------------- threads
def run_threads(case, ctx):
    """Each epic is used from a thread of its own, against each epic alone."""
    every = Together(case)
    lists = [[op for op in case["ops"] if op[1] % len(every.worlds) == e]
             for e in range(len(every.worlds))]

    def work(e):
        def run():
            for op in lists[e]:
                every.apply(op)
        return run

    try:
        lines = Interleave([work(e) for e in range(len(lists))], case["schedule"],
                           os.path.dirname(estrade.__file__), case.get("fine")).run()
    except Blocked as x:
        ctx.fail(f"epics used in different threads: {x}")
    for e, x in enumerate(lines.errors):
        if x is not None:
            raise Violation(f"the thread of epic {e} failed: {x!r}") from x
    every.end()
    ctx.label("switches", lines.switches)
    for e in range(len(lists)):
        one = Together(case, e)
        for op in lists[e]:
            one.apply(op)
        one.end()
        d = diff(every.view(e), one.view(e))
        ctx.check(d is None, "epic %d, used in its own thread next to %d others (switched %d "
                  "times), and alone: %s", e, len(lists) - 1, lines.switches, d)
    ctx.nontrivial = lines.switches >= 4 and sum(map(bool, every.trades)) > 1


@st.composite
def threads(draw):
    case = draw(groups())
    case["relays"], case["objects"] = [], 0
    case["ops"] = [op for op in case["ops"] if op[0] != "closeall"]
    case["fine"] = int(draw(gen.pick([0, 0, 1])))
    case["schedule"] = draw(schedules())
    return case


# -------------------------------------------------------------------------- defaults
def run_defaults(case, ctx):
    """A model of each object's settings; changing one changes only that one."""
    epics, ticks, trades = [], [], []  # (object, model)
    provider = Plain()
    host = Epic(trade_provider=provider)
    day = D.date(2020, 1, 6)  # a Monday
    now = tzm.to_us(D.datetime(2020, 1, 6, 12, tzinfo=D.timezone.utc))
    host.on_new_tick(sut.tick(0, now, 1.0, 2.0))
    changed = False

    def check_all(what):
        for k, (e, m) in enumerate(epics):
            ctx.check(list(e.trade_days) == m["days"] and list(e.holidays) == m["hols"],
                      "%s: epic %d trades on %s except %s, expected %s except %s", what, k,
                      e.trade_days, e.holidays, m["days"], m["hols"])
            ctx.check(list(e.frame_sets) == m["fs"] and list(e.strategies) == m["st"]
                      and len(e.trade_provider.trades) == m["trades"],
                      "%s: epic %d has %s, %s and %d trades, expected %s", what, k,
                      list(e.frame_sets), list(e.strategies), len(e.trade_provider.trades), m)
            if m["now"] is not None:
                d = day + D.timedelta(days=m["now"])
                exp = d.weekday() in m["days"] and d not in m["hols"]
                ctx.check(e.is_market_open() is exp, "%s: market of epic %d is %s", what, k,
                          e.is_market_open())
        for k, (t, m) in enumerate(ticks):
            ctx.check({x: v for x, v in t.meta.items() if x != "i"} == m,
                      "%s: metadata of tick %d are %s, expected %s", what, k, t.meta, m)
        for k, (t, m) in enumerate(trades):
            ctx.check(t.meta == m["meta"], "%s: metadata of trade %d are %s, expected %s",
                      what, k, t.meta, m["meta"])
            ctx.check(t.closed_quantities == m["closed"] and len(t.closes) == len(m["closes"]),
                      "%s: trade %d has %d closes of %s", what, k, len(t.closes),
                      t.closed_quantities)
            for c, cm in zip(t.closes, m["closes"]):
                ctx.check(c.meta == cm, "%s: metadata of a close of trade %d are %s, expected "
                          "%s", what, k, c.meta, cm)

    for j, op in enumerate(case["ops"]):
        what = f"step {j} {op}"
        kind, k, v = op
        if kind == "epic":
            epics.append((Epic(), {"days": [0, 1, 2, 3, 4], "hols": [], "fs": [], "st": [],
                                   "trades": 0, "now": None}))
        elif kind == "tick":
            ticks.append((Tick(datetime=sut.when(now), bid=1, ask=2), {}))
        elif kind == "trade":
            trades.append((host.open_trade(direction=sut.direction("BUY"), quantity=9),
                           {"meta": {}, "closed": 0, "closes": []}))
        elif kind in ("day", "hol", "fs", "st", "open", "at") and epics:
            e, m = epics[k % len(epics)]
            if kind == "day":
                if v in m["days"]:
                    e.trade_days.remove(v)
                    m["days"].remove(v)
                else:
                    e.trade_days.append(v)
                    m["days"].append(v)
            elif kind == "hol":
                d = day + D.timedelta(days=v)
                e.holidays.append(d)
                m["hols"].append(d)
            elif kind == "fs":
                ref = f"f{len(m['fs'])}"
                e.add_frame_set(sut.frame_set("MINUTE", 1, ref=ref))
                m["fs"].append(ref)
            elif kind == "st":
                ref = f"s{len(m['st'])}"
                e.add_strategy(BaseStrategy(ref=ref))
                m["st"].append(ref)
            elif kind == "at":
                if m["now"] is None or v > m["now"]:
                    e.on_new_tick(sut.tick(0, now + v * gen.DAY, 1.0, 2.0))
                    m["now"] = v
            elif m["now"] is not None:
                e.open_trade(direction=sut.direction("BUY"), quantity=1)
                m["trades"] += 1
            changed = changed or len(epics) > 1
        elif kind == "tick meta" and ticks:
            t, m = ticks[k % len(ticks)]
            t.meta[str(v)] = j
            m[str(v)] = j
            changed = changed or len(ticks) > 1
        elif kind == "trade meta" and trades:
            t, m = trades[k % len(trades)]
            t.meta[str(v)] = j
            m["meta"][str(v)] = j
            changed = changed or len(trades) > 1
        elif kind == "close" and trades:
            t, m = trades[k % len(trades)]
            if m["closed"] < 9:
                host.close_trade(t, quantity=1)
                m["closed"] += 1
                m["closes"].append({})
                changed = changed or len(trades) > 1
        elif kind == "close meta" and trades:
            t, m = trades[k % len(trades)]
            if t.closes:
                n = v % len(t.closes)
                t.closes[n].meta[str(v)] = j
                m["closes"][n][str(v)] = j
                changed = changed or len(t.closes) > 1
        check_all(what)
    world.join_threads(provider)
    ctx.nontrivial = changed


@st.composite
def changes(draw):
    kinds = ["epic", "trade", "tick", "day", "hol", "at", "fs", "st", "open", "tick meta",
             "trade meta", "close", "close meta", "close", "epic"]
    return {"ops": draw(st.lists(st.tuples(gen.pick(kinds), gen.ints(0, 3),
                                           gen.ints(0, 6)).map(list),
                                 min_size=draw(gen.pick([2, 10, 20])), max_size=24))}


SCENARIOS = [
    Scenario("register", run_register, registrations, quick=3000, thorough=150000),
    Scenario("isolation", run_isolation, groups, quick=2500, thorough=200000),
    Scenario("threads", run_threads, threads, quick=1200, thorough=60000),
    Scenario("defaults", run_defaults, changes, quick=2500, thorough=100000),
]
