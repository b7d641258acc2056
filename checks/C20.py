"""C20: strategy statistics and trade listings are exact over its trades."""
import itertools
from fractions import Fraction

from hypothesis import strategies as st

from vlib import gen, observe as ob, sut, tzmodel as tzm
from vlib.harness import Scenario
from vlib.trading import Sim, crowded, expand, programs

PROPERTY = "C20"
RULE = (
    "A case is a program of ticks, openings and closes by up to three strategies over up to "
    "three epics in different zones (also around clock changes), and queries made during and "
    "after it: listings with every combination of epics (none, some, empty), open only and a "
    "time at or around the opening of a trade, in any zone; and result and profit factor of "
    "those selections given as lists, as generators, not given, or empty. Non-trivial: a "
    "listing which kept some trades and left out others, and a profit factor with losses. "
    "'clock': epics and openings around clock changes. 'crowd': programs some of whose "
    "operations are repeated up to hundreds of times."
)
ASSUMPTIONS = [
    "listings after a time are not decided when trades of several epics were not opened in "
    "order of time (recorded as a known finding)"
]


def run(case, ctx):
    state = {"kept": False, "losses": False}
    sim = Sim(case)
    for i, op in enumerate(expand(case["ops"])):
        sim.apply(op)
        for q in case["queries"]:
            if q["at"] == i:
                query(sim, q, case, ctx, state)
    for q in case["queries"]:
        query(sim, q, case, ctx, state)
    sim.end()
    ctx.nontrivial = state["kept"] and (state["losses"] or len(case["ops"]) < 15)


def query(sim, q, case, ctx, state):
    s = q["s"] % len(sim.strategies)
    strategy = sim.strategies[s]
    mine = [t for t in sim.trades if t.s == s and any(x is t.obj for x in
                                                      sim.provider(t.e).trades)][::-1]
    kw = {}
    keep = list(mine)
    if q["epics"] is not None:
        ks = sorted({k % len(sim.epics) for k in q["epics"]})
        kw["epics"] = [sim.epics[k] for k in ks]
        keep = [t for t in keep if t.e in ks]
    if q["open"]:
        kw["open_only"] = True
        keep = [t for t in keep if t.obj.opened_quantities > 0]
    decided = True
    if q["after"] is not None:
        k, delta, zone = q["after"]
        base = sim.trades[k % len(sim.trades)].tick[0] if sim.trades else sim.now
        after = base + delta
        kw["only_after"] = sut.when(after, zone)
        # the known finding: the listing stops at the first older trade
        cut = list(itertools.takewhile(lambda t: t.tick[0] >= after, keep))
        keep = [t for t in keep if t.tick[0] >= after]
        if len(cut) != len(keep) and not case.get("strict"):
            decided = False
            ctx.exclude("trades not opened in order of time")
    what = f"strategy {s}, {len(mine)} trades, {q}"
    got = list(strategy.get_trades(**kw))
    if decided or [id(t) for t in got] != [id(t.obj) for t in cut]:
        exp = [t.obj for t in keep]
        ctx.check(len(got) == len(exp) and all(a is b for a, b in zip(got, exp)),
                  "%s: listed %s, expected %s", what, [t.ref for t in got],
                  [t.ref for t in exp])
        if 0 < len(exp) < len(mine):
            state["kept"] = True
    selection = list(strategy.get_trades(**kw))
    for name, trades, given in (
        ("the listing", selection, lambda: selection),
        ("the listing as a generator", selection, lambda: strategy.get_trades(**kw)),
        ("all trades by default", [t.obj for t in mine], None),
        ("an empty list", [], lambda: []),
        ("an empty generator", [], lambda: (t for t in [])),
    ):
        results = [Fraction(ob.num(t.result)) for t in trades]
        total = sum(results, Fraction(0))
        args = [given()] if given else []
        r = ob.num(strategy.result(*args), "result")
        ctx.check(abs(Fraction(r) - total) <= Fraction(5001, 10**6), "%s: result of %s is %s, "
                  "expected %s", what, name, r, float(total))
        gains = sum((x for x in results if x > 0), Fraction(0))
        losses = -sum((x for x in results if x < 0), Fraction(0))
        exp = gains if not losses else gains / max(losses, 1)
        args = [given()] if given else []
        p = ob.num(strategy.profit_factor(*args), "profit factor")
        ctx.check(abs(Fraction(p) - exp) <= Fraction(5001, 10**6), "%s: profit factor of %s is "
                  "%s, expected %s (results %s)", what, name, p, float(exp),
                  [float(x) for x in results])
        if losses and gains:
            state["losses"] = True
            if losses < 1:
                ctx.label("losses below one")


@st.composite
def cases(draw, max_ops=24):
    c = draw(programs(kinds=("open", "tick", "open", "close", "tick", "open", "explicit",
                             "opentick"),
                      epics=(1, 2, 3), strats=(1, 2, 3), max_ops=max_ops, max_q=4,
                      modes=["cents", "tiny", "zero", "steps", "fx"]))
    q = []
    for _ in range(draw(gen.ints(1, 5))):
        q.append({
            "at": draw(gen.ints(0, 25)), "s": draw(gen.ints(0, 2)),
            "epics": draw(st.one_of(st.none(), st.lists(gen.ints(0, 2), max_size=2))),
            "open": draw(st.booleans()),
            "after": draw(st.one_of(st.none(), st.tuples(
                gen.ints(0, 24), gen.pick([0, 1, -1, 60 * tzm.SEC, -3600 * tzm.SEC]),
                gen.zones()).map(list))),
        })
    c["queries"] = q
    return c


@st.composite
def clock(draw):
    """Trades opened around a clock change, listed after times around it."""
    zone = draw(gen.pick([z for z in tzm.ZONES if tzm.transitions(z)]))
    ts = [t for t in tzm.transitions(zone)
          if tzm.bounds(zone)[0] < t < tzm.bounds(zone)[1] - 10 * gen.DAY]
    t = draw(gen.pick(ts))
    ops = []
    for _ in range(draw(gen.ints(1, 7))):
        ops.append(["tick", 0, draw(gen.pick([1800, 600, 3600, 1200, 1])),
                    draw(gen.ints(-2, 2)), 2])
        if draw(st.booleans()):
            ops.append(["open", 0, 0, 1, 1])
    q = [{"at": 99, "s": 0, "epics": None, "open": False, "after": [
        draw(gen.ints(0, 7)),
        draw(gen.pick([0, 1, -1, 600, -600, 1800, -1800, 2400, -2400, 3000, 3600])) * tzm.SEC,
        draw(gen.pick([zone, zone, "UTC"]))]} for _ in range(draw(gen.ints(1, 4)))]
    return {"zones": [zone], "providers": [False], "epic_prov": [0], "strats": 1,
            "mode": ["steps", 10000], "ints": False, "ops": ops, "queries": q,
            "start": t - draw(gen.pick([3600, 7200, 1800, 5400])) * tzm.SEC}


SCENARIOS = [
    Scenario("statistics", run, cases, quick=7000, thorough=400000),
    Scenario("crowd", run, lambda: crowded(cases(10)), quick=160, thorough=8000),
    Scenario("clock", run, clock, quick=2500, thorough=100000),
]
