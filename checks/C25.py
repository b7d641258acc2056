"""C25: indicators defined by the user are fed exactly the frames and ticks they should be."""
from hypothesis import strategies as st

from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue
from vlib import gen, observe as ob, sut, tzmodel as tzm, world
from vlib.frames import Tracked, values_of
from vlib.gen import pick
from vlib.harness import Scenario
from vlib.periods import Excluded

PROPERTY = "C25"
RULE = (
    "A case is an epic (zone, calendar), one to three frame sets of any unit and limit, and up "
    "to three user-defined indicators on each next to built-in ones, restricted to market hours "
    "or not, registered first or during the history, whose value class is plain, has a truth "
    "value or a length of its own, or does not call the base class when updated. What each value "
    "was given and saw is recorded and compared, after each tick, with the ticks its frame "
    "received. Non-trivial: a value updated three times or more, on the third frame or later, "
    "and an indicator registered late, restricted or false."
)
ASSUMPTIONS = [
    "empty frames (repeating the last tick): whether a restricted indicator has a value there is "
    "taken as observed (known finding of C15)",
    "updates of a restricted value by ticks out of market hours may be passed on or not",
    "an indicator is registered on one frame set, under a reference of its own",
]


class Plain(BaseIndicatorValue):
    def __init__(self, indicator, frame):
        super().__init__(indicator=indicator, frame=frame)
        self.start(frame)

    def start(self, frame):
        self.indicator.made.append(self)
        self.calls = []
        self.seen = [ob.tid(frame.last_tick), ob.tid(frame.first_tick), frame.nb_ticks]
        self.prev_at_start = self.previous
        self.owner = frame

    def on_new_tick(self, tick, market_open):
        super().on_new_tick(tick, market_open)
        self.note(tick, market_open)

    def note(self, tick, market_open):
        f = self.frame
        self.calls.append([ob.tid(tick), bool(market_open), ob.tid(f.last_tick), f.nb_ticks,
                           bool(f.closed)])


class Falsy(Plain):
    """A value which is a signal, usually off."""

    def __bool__(self):
        return False


class Sized(Plain):
    """A value which counts something."""

    def __len__(self):
        return max(0, len(self.calls) - 2)


class Own(Plain):
    """A value which does not use the base class when updated."""

    def on_new_tick(self, tick, market_open):
        self.note(tick, market_open)


CLASSES = {"plain": Plain, "falsy": Falsy, "sized": Sized, "own": Own}


class Custom(BaseIndicator):
    def __init__(self, kind, **kw):
        BaseIndicator.__init__(self, value_class=CLASSES[kind], **kw)
        self.made = []
        self.kind = kind


def run(case, ctx):
    zone, cal = case["zone"], case["cal"]
    epic = sut.epic(zone, cal, case["hols"])
    vals = values_of(case)
    tracked = []
    for k, s in enumerate(case["fs"]):
        tr = Tracked(dict(s, ref=f"f{k}"), zone)
        for spec in s["ind"]:
            tr.fs.add_indicator(sut.indicator(spec))
        epic.add_frame_set(tr.fs)
        tr.customs = []
        tracked.append(tr)
    opens = []
    rich = False
    for i, (us, bid, ask) in enumerate(case["ticks"]):
        for tr in tracked:
            for j, c in enumerate(tr.spec["custom"]):
                if c["at"] == i or (i == 0 and c["at"] < 0):
                    ind = Custom(c["kind"], ref=f"c{j}", market_open_only=c["market"])
                    tr.fs.add_indicator(ind)
                    tr.customs.append((ind, c, i))
                    ctx.check(ind.frame_set is tr.fs and ind.epic is epic,
                              "indicator registered elsewhere")
        try:
            for tr in tracked:
                tr.model.add(i, us)
        except Excluded as e:
            ctx.exclude(str(e))
            break
        epic.on_new_tick(sut.tick(i, us, bid, ask))
        opens.append(bool(epic.market_open))
        last = i == len(case["ticks"]) - 1
        for tr in tracked:
            kept = tr.kept()
            objs = list(tr.fs.frames)
            ctx.check(len(objs) == len(kept), "%s: %d frames, expected %d", tr.name,
                      len(objs), len(kept))
            first = 0 if last or i % 8 == 7 else max(0, len(kept) - 2)
            for ind, c, at in tr.customs:
                for n in range(first, len(kept)):
                    look(ctx, tr, ind, c, at, kept, objs, n, opens, vals)
                owners = [id(v.owner) for v in ind.made]
                ctx.check(len(set(owners)) == len(owners),
                          "%s: %s made two values for one frame", tr.name, ind.kind)
                rich |= any(len(v.calls) >= 3 for v in ind.made[2:]) and (
                    at > 0 or c["market"] or c["kind"] != "plain")
    ctx.nontrivial = rich


def look(ctx, tr, ind, c, at, kept, objs, n, opens, vals):
    m, frame = kept[n], objs[n]
    own = m["ticks"]
    what = f"frame set {tr.name}, frame {m['start']}, {ind.kind} indicator " \
           f"(market only: {c['market']}, registered before tick {at})"
    value = frame[ind.ref]
    ctx.check(value is None or isinstance(value, CLASSES[c["kind"]]), "%s: value %r", what,
              value)
    if not own:  # an empty frame
        before = m["carried"] + 1 <= at  # made by the tick after the carried one, or later
        if value is None:
            ctx.check(c["market"] or before or at > 0, "%s: no value on an empty frame", what)
            return
        ctx.check(value.calls == [], "%s: empty frame updated by %s", what, value.calls)
        ctx.check(value.seen[0] == m["carried"], "%s: empty frame shows tick %s instead of %s",
                  what, value.seen[0], m["carried"])
        links(ctx, what, ind, objs, n, value)
        return
    fed = [i for i in own if i >= at]
    if c["market"]:
        while fed and not opens[fed[0]]:
            fed.pop(0)
    if not fed:
        ctx.check(value is None, "%s: a value though no tick was for it", what)
        return
    ctx.check(value is not None, "%s: no value though it got tick %s", what, fed[0])
    place = own.index(fed[0])
    ctx.eq(value.seen, [fed[0], own[0], place + 1], f"{what}: last tick, first tick and number "
                                                    f"of ticks of the frame at its creation")
    ctx.check(value.indicator is ind and value.frame is frame, "%s: of another indicator", what)
    calls = value.calls
    if c["market"]:
        calls = [x for x in calls if x[1]]
        rest = [i for i in fed[1:] if opens[i]]
        extra = [x[0] for x in value.calls if not x[1]]
        ctx.check(all(i in fed[1:] and not opens[i] for i in extra)
                  and len(set(extra)) == len(extra), "%s: updated by %s out of hours", what,
                  extra)
    else:
        rest = fed[1:]
    ctx.check([x[0] for x in calls] == rest, "%s: updated by ticks %s, expected %s", what,
              [x[0] for x in calls], rest)
    for i, is_open, shown, nb, closed in value.calls:
        ctx.check(is_open == opens[i], "%s: tick %d given as market open: %s", what, i, is_open)
        ctx.check(shown == i and nb == own.index(i) + 1 and not closed,
                  "%s: updated by tick %d while the frame shows tick %s, %d ticks, closed %s",
                  what, i, shown, nb, closed)
    if c["kind"] != "own":
        ids = [fed[0]] + [i for i in fed[1:] if not c["market"] or opens[i]]
        hi = lo = ids[0]
        for i in ids[1:]:
            hi = i if vals[i] > vals[hi] else hi
            lo = i if vals[i] < vals[lo] else lo
        ctx.eq(ob.generic(value), {"first": ids[0], "high": hi, "low": lo, "last": ids[-1]},
               f"{what}: first, highest, lowest and last tick")
    ctx.check(bool(value.closed) == (n < len(kept) - 1), "%s: closed is %s", what,
              value.closed)
    ctx.eq(value.nb_ticks, len(own), f"{what}: number of ticks")
    links(ctx, what, ind, objs, n, value)


def links(ctx, what, ind, objs, n, value):
    prev = next((f[ind.ref] for f in reversed(objs[:n]) if f[ind.ref] is not None), None)
    if n > 0:
        ctx.check(value.previous is prev, "%s: previous value is not that of the nearest frame "
                                          "before", what)
    else:
        ctx.check(value.previous is None, "%s: previous value of the oldest kept frame", what)
    after = objs[n + 1][ind.ref] if n + 1 < len(objs) else None
    ctx.check(value.next is after, "%s: next value is not that of the next frame", what)


@st.composite
def programs(draw):
    zone = draw(gen.zones())
    cal = draw(gen.calendar())
    fs = draw(world.graphs(limits=(None, 3, 1, 5, 2), market=True))
    for s in fs:
        s["ind"] = s["ind"][:2]
        s["custom"] = []
        for _ in range(draw(pick([1, 2, 3, 3, 8]))):
            s["custom"].append({
                "kind": draw(pick(["plain", "falsy", "sized", "own", "plain"])),
                "market": draw(pick([False, False, True])),
                "at": draw(pick([-1, -1, -1, 2, 6, 11]))})
    ticks = draw(world.stream(zone, fs, cal=cal))
    hols = []
    if draw(gen.ints(0, 3)) == 3:
        d = tzm.local(ticks[-1][0], zone).date()
        hols = [[d.year, d.month, d.day]]
    return {"zone": zone, "cal": cal, "hols": hols, "fs": fs, "ticks": ticks}


SCENARIOS = [
    Scenario("custom", run, programs, quick=5000, thorough=300000),
    Scenario("long", world.lengthen(run), lambda: world.long(programs()),
             quick=250, thorough=6000),
]
