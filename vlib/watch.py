"""Following the frames of a frame set as they appear, whatever their periods.

The ticks of a frame are those after which it was the current frame; a frame which never
was current after a tick repeats the last tick before it (`carried`).
"""
from fractions import Fraction

from hypothesis import strategies as st

from vlib import gen, observe as ob, sut, world
from vlib.frames import extremes, values_of


class Watch:
    def __init__(self, case, ctx, spec, inds, ref="f"):
        self.ctx = ctx
        self.vals = values_of(case)
        self.exact = [Fraction(v) for v in self.vals]
        self.spec = spec
        self.fs = sut.frame_set(spec["unit"], spec["q"], spec.get("n"), ref)
        self.inds = inds
        self.late = {}  # ref -> number of ticks received when added
        self.received = 0
        self.recs = []
        self.name = f"{spec['q']} {spec['unit']}"
        for s in inds:
            if not s.get("late"):
                self.fs.add_indicator(sut.indicator(s))
                self.late[s["ref"]] = 0

    def before(self, i):
        """Add the indicators which are due before tick i."""
        for s in self.inds:
            if s["ref"] not in self.late and s["late"] <= i:
                self.fs.add_indicator(sut.indicator(s))
                self.late[s["ref"]] = i
                self.ctx.label("indicator added late")

    def after(self, i):
        objs = list(self.fs.frames)
        if not objs:
            self.ctx.fail(f"{self.name}: no frame after tick {i}")
        last = self.recs[-1] if self.recs else None
        if last is not None and objs[-1] is last["obj"]:
            last["ids"].append(i)
        else:
            at = [k for k, o in enumerate(objs) if last is not None and o is last["obj"]]
            new = objs[at[0] + 1:] if at else objs
            lost = last is not None and not at and not self._adjacent(last["obj"], new[0])
            for o in new[:-1]:
                self._add(o, [], last["ids"][-1] if last and last["ids"] else
                          (last or {}).get("carried"), lost)
                lost = False
            self._add(new[-1], [i], None, lost)
        kept = self.kept()
        for r, o in zip(kept, objs):
            if r["obj"] is not o:
                self.ctx.fail(f"{self.name}: frames replaced or out of order after tick {i}")
        self.received = i + 1

    def _adjacent(self, a, b):
        """No frame can have been between these two."""
        return self.spec["unit"] == "TICK" or a.period_end.to("UTC") == b.period_start.to("UTC")

    def _add(self, obj, ids, carried, lost):
        # lost: an unknown number of frames before this one was never visible
        self.recs.append({"k": len(self.recs), "obj": obj, "ids": ids, "carried": carried,
                          "lost": lost, "seen": {}})

    def kept(self):
        return self.recs[-len(self.fs.frames):]

    def shown(self, r):
        return r["ids"] or [r["carried"]]

    def first_seen(self, ref):
        """Number of the first frame which received a tick after the addition."""
        if ref not in self.late:
            return None
        a = self.late[ref]
        for r in self.recs:
            if r["ids"] and r["ids"][-1] >= a or (not r["ids"] and r["carried"] is not None
                                                  and r["k"] > 0
                                                  and self._after(r, a)):
                return r["k"]
        return None

    def _after(self, r, a):
        # a filler frame created by a tick received after the addition
        for n in self.recs[r["k"] + 1:]:
            if n["ids"]:
                return n["ids"][0] >= a
        return False

    def partial(self, ref, r):
        """The frame had already received ticks when the indicator was added."""
        a = self.late[ref]
        return bool(r["ids"]) and r["ids"][0] < a

    def value(self, r, ref):
        return r["obj"][ref]

    def ohlc(self, r):
        ids = self.shown(r)
        hi, lo = extremes(ids, self.vals)
        e = self.exact
        return e[ids[0]], e[hi], e[lo], e[ids[-1]]

    def lost_since(self, k, m):
        """Some frame among the m frames up to k comes after an unknown number."""
        return any(r["lost"] for r in self.recs[max(0, k - m + 1):k + 1])


def drive(case, ctx, verify, epic=None, watches=None):
    """Feed the ticks; verify(watch, rec, tick number) for each kept frame when read."""
    epic = epic or sut.epic(case["zone"], case.get("cal"), case.get("hols"))
    if watches is None:
        watches = []
        for k, s in enumerate(case["fs"]):
            w = Watch(case, ctx, s, s["ind"], f"f{k}")
            epic.add_frame_set(w.fs)
            watches.append(w)
    last = len(case["ticks"]) - 1
    for i, (us, bid, ask) in enumerate(case["ticks"]):
        for w in watches:
            w.before(i)
        epic.on_new_tick(sut.tick(i, us, bid, ask))
        for w in watches:
            w.after(i)
            w.market_open = bool(epic.market_open)
            if case.get("read") == "end" and i < last:
                continue
            kept = w.kept()
            full = i == last or i % 5 == 4
            for r in (kept if full else kept[-3:]):
                verify(w, r, i)
    return epic, watches


def specs_late(draw, inds, limit):
    """Make some indicators late."""
    for s in inds:
        if draw(gen.ints(0, 7)) == 7:
            s["late"] = draw(gen.ints(1, max(1, limit)))
    return inds
