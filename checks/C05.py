"""C05: a strategy always sees a complete and current picture, even after failures."""
from hypothesis import strategies as st

from vlib import gen, observe as ob, sut, tzmodel as tzm, world
from vlib.harness import Scenario, Violation
from vlib.world import FAILURES, Injected, World, diff

PROPERTY = "C05"
RULE = (
    "A case is an epic (any zone and calendar) with frame sets and indicators, one to three "
    "strategies and a stream; scripts make strategies open trades, close them and raise "
    "exceptions of many types from any kind of notification. In each notification everything visible is compared "
    "with a twin epic without strategies which has just received the same tick. "
    "Non-trivial: a trade was opened or closed from a notification, or a strategy raised "
    "and later ticks followed."
)
ASSUMPTIONS = ["when a strategy raises, whether later strategies still get that tick is not "
               "promised"]


def run(case, ctx):
    twin = World(dict(case, strats=0))
    state = {"i": None, "failures": [], "last_events": None}
    raised = acted = False
    by = {}
    for s in case["script"]:
        by.setdefault((s["who"], s["tick"], s["event"]), []).append(s)

    def view(self, event, epic):
        i, (us, bid, ask) = state["i"], case["ticks"][state["i"]]
        what = f"{self.ref}, {event} notice of tick {i}"
        d = diff(w.market(), state["market"])
        ctx.check(d is None, "%s: market differs from a plain epic after the tick: %s",
                  what, d)
        ctx.eq(w.market()["last"], i, f"{what}: last tick")
        d = diff(w.graphs(), state["graphs"])
        ctx.check(d is None, "%s: frames differ from a plain epic after the tick: %s",
                  what, d)
        for t in epic.trade_provider.opened_trades:
            side = bid if t.direction.name == "BUY" else ask
            ctx.check(ob.num(t.current_close_value) == side,
                      "%s: open trade valued at %s, tick is %s/%s", what,
                      t.current_close_value, bid, ask)
            move = side - t.open_value if t.direction.name == "BUY" else t.open_value - side
            ctx.check(abs(t.opened_result - round(move, 2) * t.opened_quantities) < 1e-6,
                      "%s: open trade result %s", what, t.opened_result)

    def act(self, s, epic):
        nonlocal acted, raised
        i, (us, bid, ask) = state["i"], case["ticks"][state["i"]]
        if s["do"] == "raise":
            raised = True
            e = FAILURES[s.get("exc", "Exception")](f"{self.ref} {i}")
            state["raised"] = e
            state["who"] = self.ref
            raise e
        acted = True
        if s["do"] == "open":
            t = self.open_trade(epic, direction=sut.direction(s["dir"]), quantity=s["q"],
                                ref=f"t{len(state['trades'])}")
            state["trades"].append(t)
            buy = s["dir"] == "BUY"
            ctx.check(t.open_value == (ask if buy else bid)
                      and t.current_close_value == (bid if buy else ask)
                      and ob.us(t.datetime) == us,
                      "trade opened from tick %d (%s/%s) has open value %s, current %s, time "
                      "%s", i, bid, ask, t.open_value, t.current_close_value, t.datetime)
        else:
            for t in self.get_trades(open_only=True):
                c = self.close_trade(t)
                ctx.check(c.close_value == (bid if t.direction.name == "BUY" else ask)
                          and ob.us(c.datetime) == us,
                          "trade closed from tick %d (%s/%s) at %s, time %s", i, bid, ask,
                          c.close_value, c.datetime)

    def hook(self, event, epic):
        # a failed check must not be mistaken for something the package swallows
        try:
            view(self, event, epic)
        except Violation as e:
            state["failures"].append(e)
        k = int(self.ref[1:])
        for s in by.get((k, state["i"], event), []):
            try:
                act(self, s, epic)
            except Violation as e:
                state["failures"].append(e)

    w = World(case, hook=hook)
    state["trades"] = []
    later = False
    for i, (us, bid, ask) in enumerate(case["ticks"]):
        was_open = bool(twin.epic.market_open)
        twin.epic.on_new_tick(sut.tick(i, us, bid, ask))
        is_open = bool(twin.epic.market_open)
        due = ["in", "every"] if is_open else ["every"]
        if is_open != was_open:
            due.insert(0, "open" if is_open else "close")
        state.update(i=i, market=twin.market(), graphs=twin.graphs(), raised=None)
        before = {s.ref: len(s.log) for s in w.strategies}
        try:
            w.epic.on_new_tick(sut.tick(i, us, bid, ask))
            got = None
        except Injected as e:
            got = e
        if state["failures"]:
            raise state["failures"][0]
        ctx.check(got is state["raised"], "tick %d: the caller got %r, the strategy raised %r",
                  i, got, state["raised"])
        d = diff(w.market(), state["market"]) or diff(w.graphs(), state["graphs"])
        ctx.check(d is None, "after tick %d%s: %s", i,
                  " (a strategy raised)" if got is not None else "", d)
        for t in w.epic.trade_provider.opened_trades:
            side = bid if t.direction.name == "BUY" else ask
            ctx.check(t.current_close_value == side, "after tick %d%s: trade valued at %s", i,
                      " (a strategy raised)" if got else "", t.current_close_value)
        if got is None and raised:
            later = True
        for s in w.strategies:
            # the notices this tick calls for, whatever failed on the ticks before
            events = [x[0] for x in s.log[before[s.ref]:]]
            if got is None:
                ok = sorted(events) == sorted(due)
            elif s.ref == state["who"]:
                ok = bool(events) and not set(events) - set(due)
                ok = ok and len(set(events)) == len(events)
            else:
                ok = sorted(events) in ([], sorted(due))
            ctx.check(ok, "tick %d%s (market %s, %s before): %s notified of %s, due %s", i,
                      f" ({state['who']} raised)" if got else "", is_open, was_open, s.ref,
                      events, due)
    world.join_threads(w.epic.trade_provider)
    ctx.nontrivial = acted or (raised and later)
    if acted:
        ctx.label("traded from a notice")
    if raised:
        ctx.label("a strategy raised")


@st.composite
def programs(draw):
    zone = draw(gen.zones())
    cal = draw(gen.calendar())
    fs = draw(world.graphs(limits=(5, 1, 3, 10), max_sets=2, market=True))
    ticks = draw(world.stream(zone, fs, cal=cal, sizes=(1, 4, 10), max_size=18,
                              smooth=draw(st.booleans())))
    n = draw(gen.ints(1, 3))
    script = []
    for _ in range(draw(gen.ints(0, 7))):
        s = {"who": draw(gen.ints(0, n - 1)), "tick": draw(gen.ints(0, len(ticks) - 1)),
             "event": draw(gen.pick(["every", "every", "in", "open", "close"])),
             "do": draw(gen.pick(["open", "raise", "close", "open"]))}
        if s["do"] == "open":
            s["dir"] = draw(gen.pick(["BUY", "SELL"]))
            s["q"] = draw(gen.ints(1, 4))
        elif s["do"] == "raise" and draw(st.booleans()):
            s["exc"] = draw(gen.pick(sorted(FAILURES)))
        script.append(s)
    return {"zone": zone, "cal": cal, "fs": fs, "strats": n, "script": script,
            "ticks": ticks}


SCENARIOS = [Scenario("views", run, programs, quick=6000, thorough=400000)]
