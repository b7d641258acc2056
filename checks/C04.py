"""C04: active strategies get exactly the notifications each tick calls for."""
from hypothesis import strategies as st

from estrade import BaseStrategy
from vlib import gen, sut, tzmodel as tzm, world
from vlib.harness import Scenario
from vlib.world import Recorder

PROPERTY = "C04"
RULE = (
    "A case is one or two epics with their own zone and calendar, up to four strategies "
    "registered on one or both (some late, between ticks or by another strategy from its own "
    "notification, some taken off again in the same ways), a merged chronological stream around openings "
    "and closings, and actions: stop, restart, pause until an instant (given in any zone, "
    "before, at or after later ticks), clear the pause; done between ticks or by a strategy "
    "on itself or on another from its own notification. Non-trivial: a strategy got nothing "
    "for some tick and something for a later one, or an opening/closing was notified."
)
ASSUMPTIONS = [
    "a strategy acted upon by another one within the notifications of a tick may or may not "
    "still get that tick (order between strategies is not promised); it may not be notified "
    "first after it was stopped or paused",
    "a strategy registered from within a notification of its epic may or may not get that tick",
]


class Act:
    def __init__(self, actions):
        self.by_tick = {}
        for a in actions:
            if a["who"] is not None:
                self.by_tick.setdefault((a["who"], a["tick"]), []).append(a)


def apply(strategy, a):
    if a["do"] == "stop":
        strategy.stopped = True
    elif a["do"] == "start":
        strategy.stopped = False
    elif a["do"] == "pause":
        strategy.paused_until = sut.when(a["until"], a["tz"])
    elif a["do"] == "clear":
        strategy.paused_until = None


def apply_model(m, a):
    if a["do"] == "stop":
        m["stopped"] = True
    elif a["do"] == "start":
        m["stopped"] = False
    elif a["do"] == "pause":
        m["pause"] = a["until"]
    elif a["do"] == "clear":
        m["pause"] = None


def run(case, ctx):
    acts = Act(case["actions"])
    strategies = []

    def hook(self, event, epic):
        k = strategies.index(self)
        if (k, epic.last_tick.meta["i"]) not in turns:
            # stopped or paused earlier, perhaps during this very tick
            turns.add((k, epic.last_tick.meta["i"]))
            until = pauses[k]
            ctx.check(not self.stopped, "s%d: notified (%s) though it is stopped", k, event)
            ctx.check(until is None or until <= now[0], "s%d: notified (%s) though it is paused "
                      "until later", k, event)
        for a in case.get("adds", []):
            if (a["who"], a["tick"], a["at"]) == (k, epic.last_tick.meta["i"], event) and (
                    a["target"], a["epic"]) not in registered:
                registered.add((a["target"], a["epic"]))
                fresh.add((a["target"], a["epic"]))
                epics[a["epic"]].add_strategy(strategies[a["target"]])
        for a in case.get("offs", []):
            if (a["who"], a["tick"], a["at"]) == (k, epic.last_tick.meta["i"], event):
                take_off(a)
        if event == "every":
            for a in acts.by_tick.get((k, epic.last_tick.meta["i"]), []):
                apply(strategies[a["target"]], a)
                if a["do"] in ("pause", "clear"):
                    pauses[a["target"]] = a.get("until")

    def take_off(a):
        key = (a["target"], a["epic"])
        if key in registered:
            registered.discard(key)
            gone.add(key)
            cut.add(key)
            fresh.discard(key)
            del epics[a["epic"]].strategies[f"s{a['target']}"]

    epics = []
    for k, e in enumerate(case["epics"]):
        epics.append(sut.epic(e["zone"], e["cal"], None, f"epic{k}"))
        epics[-1].add_strategy(BaseStrategy(ref="idle"))
    model = []
    for k, s in enumerate(case["strategies"]):
        strategies.append(Recorder(ref=f"s{k}", hook=hook))
        model.append({"stopped": False, "pause": None})
    registered, fresh = set(), set()
    gone, cut = set(), set()
    turns, now, pauses = set(), [None], {k: None for k in range(len(model))}
    was_open = [False] * len(epics)
    missed = set()
    changed = back = added = off = False
    for i, (e, us) in enumerate(case["ticks"]):
        for k, s in enumerate(case["strategies"]):
            for target, at in s["on"]:
                if at <= i and (k, target) not in registered | gone:
                    registered.add((k, target))
                    epics[target].add_strategy(strategies[k])
        for a in case["actions"]:
            if a["who"] is None and a["tick"] == i:
                apply(strategies[a["target"]], a)
                apply_model(model[a["target"]], a)
                if a["do"] in ("pause", "clear"):
                    pauses[a["target"]] = a.get("until")
        for a in case.get("offs", []):
            if a["who"] is None and a["tick"] == i:
                take_off(a)
        before = [len(s.log) for s in strategies]
        zone, cal = case["epics"][e]["zone"], case["epics"][e]["cal"]
        wall = tzm.local(us, zone)
        days = cal["days"] if cal["days"] is not None else [0, 1, 2, 3, 4]
        opened = (sut.time_of(cal["open"]) <= wall.time() <= sut.time_of(cal["close"])
                  and wall.weekday() in days)
        # who is active when the tick arrives
        active = {}
        unsure = set()
        for k, m in enumerate(model):
            if (k, e) not in registered:
                active[k] = False
                continue
            if m["pause"] is not None and us >= m["pause"] and not m["stopped"]:
                m["pause"] = None
            active[k] = not m["stopped"] and m["pause"] is None
        for k in range(len(model)):
            for a in acts.by_tick.get((k, i), []):
                if a["target"] != k and active[k]:
                    unsure.add(a["target"])
        fresh.clear()
        cut.clear()
        now[0] = us
        epics[e].on_new_tick(sut.tick(i, us, 10.0, 11.0))
        for k, s in enumerate(strategies):
            got = s.log[before[k]:]
            ctx.check(all(g[1] == f"epic{e}" and g[2] == i for g in got),
                      "s%d, tick %d of epic%d: notified of %s", k, i, e, got)
            events = [g[0] for g in got]
            want = []
            if active[k]:
                want = (["in"] if opened else []) + ["every"]
                if opened != was_open[e]:
                    want = (["open"] if opened else ["close"]) + want
            if (k, e) in cut and (k, e) not in fresh:
                ctx.check(sorted(events) in (sorted(want), []),
                          "s%d, taken off during tick %d: got %s, expected %s or nothing", k, i,
                          events, want)
                off = True
            elif (k, e) in fresh:
                # stopped and paused ones too: order is not promised
                want = (["in"] if opened else []) + ["every"]
                if opened != was_open[e]:
                    want = (["open"] if opened else ["close"]) + want
                ctx.check(sorted(events) in (sorted(want), []),
                          "s%d, registered during tick %d: got %s, expected %s or nothing", k, i,
                          events, want)
                added = True
            elif k in unsure:
                ctx.check(sorted(events) in (sorted(want), []) or not active[k],
                          "s%d, tick %d: got %s, expected %s or nothing", k, i, events, want)
                # the state of this strategy is read back: order is not promised
                m = model[k]
            else:
                ctx.check(sorted(events) == sorted(want),
                          "s%d, tick %d (%s, market %s -> %s, %s): got %s, expected %s", k, i,
                          wall, was_open[e], opened,
                          "active" if active[k] else "not active", events, want)
            if events:
                ctx.check(events[-1] == "every", "s%d: general notice not last: %s", k, events)
                for x in ("open", "close"):
                    if x in events:
                        ctx.check(events[0] == x, "s%d: %s not first: %s", k, x, events)
                        changed = True
                if (k, e) in missed:
                    back = True
            elif (k, e) in registered:
                missed.add((k, e))
        # actions done by strategies which got the tick, in any order
        for k in range(len(model)):
            if any(g[0] == "every" for g in strategies[k].log[before[k]:]):
                for a in acts.by_tick.get((k, i), []):
                    apply_model(model[a["target"]], a)
        for k in unsure | {k for k, x in fresh if x == e} | {k for k in range(len(model))
                           if len(acts.by_tick.get((k, i), [])) > 0}:
            # several actions on one strategy in one tick: take the outcome
            s = strategies[k]
            model[k]["stopped"] = bool(s.stopped)
            model[k]["pause"] = None if s.paused_until is None else (
                s.paused_until.to("UTC").datetime - tzm.EPOCH) // tzm.US
        was_open[e] = opened
    ctx.nontrivial = back or changed
    if back:
        ctx.label("notified again after missing ticks")
    if off:
        ctx.label("taken off during a tick")
    if added:
        ctx.label("registered during a tick")
    if changed:
        ctx.label("opening or closing notified")


@st.composite
def programs(draw, dst=False):
    n_epics = draw(gen.pick([1, 1, 2]))
    epics = []
    for _ in range(n_epics):
        epics.append({"zone": draw(gen.zones()), "cal": draw(gen.calendar())})
    zone, cal = epics[0]["zone"], epics[0]["cal"]
    if dst and tzm.transitions(zone):
        start = draw(gen.pick(tzm.transitions(zone))) - draw(gen.ints(0, 12)) * 900 * tzm.SEC
        kinds, pace = ["frac", "unit", "same", "us"], 1800
    else:
        start = draw(gen.anchors(zone, gen.marks_of(cal)))
        kinds, pace = ["mark", "mark", "frac", "unit", "day", "same", "us", "gap"], 3600
    toks = draw(st.lists(st.tuples(gen.pick(kinds), gen.ints(0, 16), gen.ints(0, 2)),
                         min_size=draw(gen.pick([1, 6, 14])), max_size=24))
    times = gen.instants(toks, zone, start, [], pace=pace, marks=gen.marks_of(cal))
    which = draw(st.lists(gen.ints(0, n_epics - 1), min_size=len(times),
                          max_size=len(times)))
    n = draw(gen.pick([1, 2, 3, 4, 2, 3, 8]))
    strategies = []
    for _ in range(n):
        on = draw(st.lists(gen.ints(0, n_epics - 1), min_size=1, max_size=2, unique=True))
        strategies.append({"on": [[e, draw(gen.pick([0, 0, 0, 3]))] for e in on]})
    actions = []
    for _ in range(draw(gen.ints(0, 6))):
        a = {"tick": draw(gen.ints(0, len(times) - 1)), "target": draw(gen.ints(0, n - 1)),
             "do": draw(gen.pick(["pause", "pause", "stop", "start", "clear"])),
             "who": None}
        by = draw(gen.ints(0, 5))
        if by == 5:
            a["who"] = draw(gen.ints(0, n - 1))
        elif by >= 3:
            a["who"] = a["target"]
        if a["do"] == "pause":
            later = times[min(len(times) - 1, a["tick"] + draw(gen.ints(0, 6)))]
            a["until"] = later + draw(gen.pick([0, 1, -1, 600 * tzm.SEC, -600 * tzm.SEC,
                                                86400 * tzm.SEC]))
            a["tz"] = draw(gen.pick([zone, "UTC", "Asia/Tokyo"]))
        actions.append(a)
    adds = []
    if draw(gen.ints(0, 3)) == 3:
        for _ in range(draw(gen.ints(1, 3))):
            if draw(st.booleans()):
                strategies.append({"on": []})
            adds.append({"who": draw(gen.ints(0, n - 1)), "at": draw(gen.pick(
                ["every", "every", "in", "open"])), "tick": draw(gen.ints(0, len(times) - 1)),
                "epic": draw(gen.ints(0, n_epics - 1)),
                "target": draw(gen.ints(0, len(strategies) - 1))})
    offs = []
    if draw(gen.ints(0, 4)) == 4:
        for _ in range(draw(gen.ints(1, 2))):
            target = draw(gen.ints(0, len(strategies) - 1))
            offs.append({"who": draw(gen.pick([None, target, draw(gen.ints(0, n - 1))])),
                         "at": draw(gen.pick(["every", "in", "open"])),
                         "tick": draw(gen.ints(0, len(times) - 1)), "target": target,
                         "epic": draw(gen.ints(0, n_epics - 1))})
    return {"epics": epics, "strategies": strategies, "actions": actions, "adds": adds,
            "offs": offs,
            "ticks": [[e, t] for e, t in zip(which, times)]}


SCENARIOS = [
    Scenario("notices", run, lambda: programs(), quick=12000, thorough=800000),
    Scenario("clock", run, lambda: programs(True), quick=4000, thorough=300000),
]
