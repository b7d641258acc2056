"""C18: backtest netting offsets opposite trades exactly and touches nothing else."""
from hypothesis import strategies as st

from vlib import gen, observe as ob, world
from vlib.harness import Scenario
from vlib.trading import Sim, crowded, expand, programs
from vlib.world import read_trade

PROPERTY = "C18"
RULE = (
    "A case is a program of openings in both directions by up to three strategies (and none) "
    "on up to three epics whose backtest providers are shared, separate or the default ones, "
    "with closes and ticks between them and quantities below, equal to and above what is "
    "open. After each opening the closes it caused and the trade it registered are compared "
    "with a model of netting, and net positions and opposite holdings are checked. "
    "Non-trivial: an opening offset two trades or part of one, and was followed by another "
    "opening. 'crowd': the same programs, some of whose operations are repeated up to "
    "hundreds of times."
)
ASSUMPTIONS = []


def run(case, ctx):
    sim = Sim(case)
    partial = after = False
    for op in expand(case["ops"]):
        pre = {t.k: (read_trade(t.obj), listed(sim, t)) for t in sim.trades}
        before = [list(sim.provider(e).trades) for e in range(len(sim.epics))]
        net = net_positions(sim)
        ev = sim.apply(op)
        if ev is None:
            continue
        if ev["kind"] == "open":
            if partial:
                after = True
            new = ev["trade"]
            what = f"{new.name} after {len(sim.trades) - 1} others"
            tick = sim.ticks[new.e]
            left = new.q
            used = 0
            for t in reversed(sim.trades[:-1]):
                was, was_listed = pre[t.k]
                now = read_trade(t.obj)
                offset = 0
                if (was_listed and t.e == new.e and t.s == new.s and t.buy != new.buy):
                    offset = min(left, was["open_quantity"] - was["closed_q"])
                if offset == 0:
                    d = world.diff(was, now)
                    ctx.check(d is None, "%s: it changed %s: %s", what, t.name, d)
                    continue
                used += 1
                left -= offset
                if now["closed_q"] < now["open_quantity"] or used > 1:
                    partial = True
                closes = now["closes"][len(was["closes"]):]
                ctx.check(len(closes) == 1 and closes[0][:3] == [offset, t.side(tick), tick[0]],
                          "%s: closes (quantity, price, time) made on %s: %s, expected %s",
                          what, t.name, closes, [offset, t.side(tick), tick[0]])
                d = world.diff({k: was[k] for k in KEEP}, {k: now[k] for k in KEEP})
                ctx.check(d is None, "%s: it changed %s: %s", what, t.name, d)
            for e in range(len(sim.epics)):
                mine = sim.provider(e) is sim.provider(new.e)
                exp = before[e] + ([new.obj] if mine and left else [])
                got = list(sim.provider(e).trades)
                ctx.check(len(got) == len(exp) and all(a is b for a, b in zip(got, exp)),
                          "%s: trades registered with the provider of epic %d: %s, expected "
                          "%s", what, e, [x.ref for x in got], [x.ref for x in exp])
            if left:
                ctx.check(new.obj.open_quantity == left and new.obj.opened_quantities == left,
                          "%s: registered for %s, expected %s", what, new.obj.open_quantity,
                          left)
            if left < new.q:
                ctx.label("offset in full" if not left else "remainder registered")
            for k, s in enumerate(sim.strategies):
                has = any(x is new.obj for x in s.trades)
                ctx.check(has == (k == new.s and left > 0) and
                          sum(1 for x in s.trades if x is new.obj) <= 1,
                          "%s: trades of strategy %d", what, k)
            now = net_positions(sim)
            for key in set(net) | set(now):
                move = (new.q if new.buy else -new.q) if key == (new.e, new.s) else 0
                ctx.check(now.get(key, 0) - net.get(key, 0) == move,
                          "%s: net position of strategy %s on epic %s moved from %s to %s", what,
                          key[1], key[0], net.get(key, 0), now.get(key, 0))
        # never both directions
        held = {}
        for t in sim.trades:
            if listed(sim, t) and t.obj.opened_quantities:
                held.setdefault((t.e, t.s), set()).add(t.buy)
        ctx.check(all(len(v) == 1 for v in held.values()),
                  "after %s: open trades in both directions: %s", op, held)
    sim.end()
    ctx.nontrivial = partial and after


KEEP = ("ref", "dir", "open_quantity", "open_value", "us")


def listed(sim, t):
    return any(x is t.obj for x in sim.provider(t.e).trades)


def net_positions(sim):
    out = {}
    for t in sim.trades:
        if listed(sim, t):
            q = t.obj.opened_quantities
            key = (t.e, t.s)
            out[key] = out.get(key, 0) + (q if t.buy else -q)
    return out


@st.composite
def nets(draw, max_ops=26):
    return draw(programs(kinds=("open", "open", "tick", "open", "close", "open", "explicit",
                                "opentick"),
                         net=True, epics=(1, 2, 2, 3), max_q=5, max_ops=max_ops))


SCENARIOS = [
    Scenario("netting", run, nets, quick=11000, thorough=700000),
    Scenario("crowd", run, lambda: crowded(nets(10)), quick=120, thorough=6000),
]
