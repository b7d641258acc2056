"""Driving frame sets with a tick stream next to the reference frames."""
from vlib import observe as ob, periods, sut, tzmodel as tzm
from vlib.periods import Excluded, FrameModel


class Tracked:
    """A frame set with its reference model."""

    def __init__(self, spec, zone):
        self.spec = spec
        self.zone = zone
        self.fs = sut.frame_set(spec["unit"], spec["q"], spec.get("n"), spec.get("ref"))
        self.n = spec.get("n") or 100
        self.model = FrameModel(spec["unit"], spec["q"], zone)
        self.name = f"{spec['q']} {spec['unit']}"
        self.active = False

    def kept(self):
        return self.model.frames[-self.n:]

    def ids(self, f):
        """Ticks a frame shows: its own, or the one it repeats."""
        return f["ticks"] or [f["carried"]]


def describe(tr, f):
    return f"frame set {tr.name}: frame starting {f['start']}"


def compare_periods(ctx, tr, full=True, strict_count=True):
    """Periods, attribution of ticks, empty frames (C06), on the kept frames."""
    kept = tr.kept()
    objs = list(tr.fs.frames)
    if len(objs) != len(kept):
        ctx.fail(f"frame set {tr.name}: {len(objs)} frames kept, expected {len(kept)} "
                 f"(last {ob.frame(objs[-1])})" if objs else
                 f"frame set {tr.name}: no frame, expected {len(kept)}")
    rng = range(len(kept)) if full else range(max(0, len(kept) - 3), len(kept))
    for i in rng:
        m, o = kept[i], ob.frame(objs[i])
        what = describe(tr, m)
        if not periods.same_boundary(o["start"], m["start"], tr.zone):
            ctx.fail(f"{what}: period starts {o['start']}")
        if m["end"] is None:
            pass
        elif o["end"] is None or not periods.same_boundary(o["end"], m["end"], tr.zone):
            ctx.fail(f"{what}: period ends {o['end']}, expected {m['end']}")
        ids = tr.ids(m)
        if o["first"] != ids[0]:
            ctx.fail(f"{what}: first tick is {o['first']}, expected {ids[0]}")
        if o["last"] != ids[-1]:
            ctx.fail(f"{what}: last tick is {o['last']}, expected {ids[-1]}")
        if m["ticks"] and o["nb"] != len(ids):
            ctx.fail(f"{what}: {o['nb']} ticks, expected {len(ids)}")
    ctx.checks += 1


def values_of(case):
    """Value of each tick, as the package gives it for a fresh tick."""
    return [ob.num(sut.tick(i, t[0], t[1], t[2]).value) for i, t in enumerate(case["ticks"])]


def extremes(ids, vals):
    hi = lo = ids[0]
    for i in ids[1:]:
        if vals[i] > vals[hi]:
            hi = i
        if vals[i] < vals[lo]:
            lo = i
    return hi, lo
