"""C21: a CSV report contains every strategy and every trade once, readable back."""
import csv
import os
import shutil
import tempfile
import time
from collections import Counter
from datetime import datetime

from hypothesis import strategies as st

from estrade.reporting.csv import ReportingCSV

from vlib import gen, observe as ob, sut, tzmodel as tzm
from vlib.harness import Scenario, Violation
from vlib.trading import Sim, crowded, expand, programs

PROPERTY = "C21"
RULE = (
    "A case is a program of openings, closings and ticks by up to three strategies over up to "
    "two epics whose references are generated texts (separators, quotes, line ends, slashes, "
    "percent signs, any unicode), and one to four reports made during or after it, of chosen "
    "strategies, with or without the trades, in missing, nested or existing folders, some "
    "after a second has passed. After each report every file of the folder is read again. "
    "Files are recognised by their content, not by their names. Non-trivial: a report with "
    "trades in a folder already reported to, and a reference with a special character. "
    "'crowd': programs some of whose operations are repeated up to hundreds of times. "
    "'seconds': the reports are made in different seconds of the wall clock."
)
ASSUMPTIONS = [
    "references have no NUL character nor lone surrogate, and make a legal file name length",
    "status, direction and time may be written in any of their usual forms",
]
SUMMARY = ["ref", "nb_trades", "result", "profit_factor"]
TRADE = ["ref", "status", "epic", "strategy", "open_date", "direction", "open_quantity",
         "open_value", "closed_quantities", "result"]


def wait_next_second():
    time.sleep(1.001 - time.time() % 1)


def run(case, ctx):
    # in memory when possible: much faster with many folders
    where = "/dev/shm" if os.access("/dev/shm", os.W_OK) else ctx.work
    root = tempfile.mkdtemp(prefix="vreport.", dir=where)
    back = os.getcwd()
    try:
        # references may hold ".." : deep enough for them to stay inside
        base = os.path.join(root, *"abcdefgh")
        os.makedirs(base)
        os.chdir(base)
        reports(case, ctx, root, base)
    finally:
        os.chdir(back)
        shutil.rmtree(root, ignore_errors=True)


def reports(case, ctx, root, base):
    parts = case["folder"]["parts"]
    target = os.path.join(base, *parts)
    if case["folder"]["exists"]:
        os.makedirs(target)
        with open(os.path.join(target, "notes.csv"), "w") as f:
            f.write("kept,as,it,is\n")
    path = "/".join(parts) if case["folder"]["relative"] else target
    if case["folder"]["slash"]:
        path += "/"
    sim = Sim(case)
    state = {"files": snapshot(root), "done": 0, "special": False, "again": False,
             "owner": {}}
    todo = list(case["reports"])
    for i, op in enumerate(expand(case["ops"])):
        sim.apply(op)
        for r in [r for r in todo if r["at"] == i]:
            todo.remove(r)
            sim.end()
            report(sim, r, path, target, root, ctx, state)
    sim.end()
    for r in todo:
        report(sim, r, path, target, root, ctx, state)
    ctx.nontrivial = state["again"] and state["special"]


def snapshot(root):
    out = {}
    for folder, _, names in os.walk(root):
        for n in names:
            p = os.path.join(folder, n)
            with open(p, "rb") as f:
                out[p] = f.read()
    return out


def table(data, name):
    text = data.decode("utf-8")
    rows = list(csv.reader(_lines(text), strict=True))
    if not rows:
        raise Violation(f"file {name} is empty")
    return rows[0], rows[1:]


def _lines(text):
    """Lines ending with \\n as a file opened with newline='' gives them."""
    start = 0
    while start < len(text):
        end = text.find("\n", start) + 1 or len(text)
        yield text[start:end]
        start = end


def forms(x):
    return {str(x), x.name, str(x.value), x.name.lower()}


def moment(text):
    for f in ("%Y-%m-%d %H:%M:%S",):
        try:
            return datetime.strptime(text, f)
        except ValueError:
            pass
    try:
        return datetime.fromisoformat(text).replace(tzinfo=None, microsecond=0)
    except ValueError:
        return None


def trade_row_ok(row, t, name):
    """None, or what differs between a row and a trade."""
    o = t["obj"]
    exact = {"ref": o.ref, "epic": t["epic"], "strategy": t["strategy"]}
    for k, v in exact.items():
        if row[k] != v:
            return f"{k} is {row[k]!r}, not {v!r}"
    for k, v in (("status", o.status), ("direction", o.direction)):
        if row[k] not in forms(v):
            return f"{k} is {row[k]!r}, not {v}"
    if moment(row["open_date"]) != t["wall"]:
        return f"open date is {row['open_date']}, not {t['wall']}"
    for k, v in (("open_quantity", o.open_quantity), ("open_value", o.open_value),
                 ("closed_quantities", o.closed_quantities), ("result", o.result)):
        try:
            if float(row[k]) != v:
                return f"{k} is {row[k]}, not {v}"
        except ValueError:
            return f"{k} is {row[k]!r}"
    return None


def report(sim, r, path, target, root, ctx, state):
    if r["sleep"]:
        wait_next_second()
        ctx.label("reports in different seconds")
    ks = []
    for k in r["strats"]:
        if k % len(sim.strategies) not in ks:
            ks.append(k % len(sim.strategies))
    kw = {} if r["details"] is None else {"trade_details": r["details"]}
    details = r["details"] is not False
    ReportingCSV(path).report([sim.strategies[k] for k in ks], **kw)
    before, after = state["files"], snapshot(root)
    state["files"] = after
    n = state["done"]
    state["done"] += 1
    what = f"report {n}"
    for p, data in before.items():
        ctx.check(p in after, "%s: file %s disappeared", what, os.path.basename(p))
        ctx.check(after[p].startswith(data), "%s: file %s was not only added to", what,
                  os.path.basename(p))
    summaries, trades = [], []
    for p, data in sorted(after.items()):
        ctx.check(os.path.dirname(p) == target, "%s: file %s written out of the target folder",
                  what, p[len(root):])
        if os.path.basename(p) == "notes.csv":
            ctx.check(before[p] == data, "%s: foreign file changed", what)
            continue
        head, rows = table(data, os.path.basename(p))
        old = len(table(before[p], "")[1]) if p in before else 0
        kind = "nb_trades" in head
        exp = SUMMARY if kind else TRADE
        ctx.check(set(exp) <= set(head) and len(set(head)) == len(head),
                  "%s: header of %s is %s", what, os.path.basename(p), head)
        for row in rows:
            ctx.check(len(row) == len(head), "%s: row %s under header %s", what, row, head)
        new = [dict(zip(head, row)) for row in rows[old:]]
        (summaries if kind else trades).append((p, p in before, new))
    # the summary
    rows = [row for _, _, new in summaries for row in new]
    touched = [p for p, was, new in summaries if new or not was]
    ctx.check(len(touched) == (1 if ks else len(touched)),
              "%s: the summary is in %d files", what, len(touched))
    ctx.check(len(rows) == len(ks), "%s of %d strategies: %d rows", what, len(ks), len(rows))
    for k in ks:
        s = sim.strategies[k]
        mine = [row for row in rows if row["ref"] == s.ref]
        ctx.check(len(mine) == 1, "%s: %d rows for strategy %r (%s)", what, len(mine), s.ref,
                  [row["ref"] for row in rows])
        for name, value in (("nb_trades", len(s.trades)), ("result", s.result()),
                            ("profit_factor", s.profit_factor())):
            try:
                ok = float(mine[0][name]) == value
            except ValueError:
                ok = False
            ctx.check(ok, "%s, strategy %r: %s is %s, expected %s", what, s.ref, name,
                      mine[0][name], value)
    # the trades
    if not details:
        ctx.check(not any(new or not was for _, was, new in trades),
                  "%s without details: trades were written", what)
        return
    by_strategy = {}
    for t in sim.trades:
        if t.s in ks and any(x is t.obj for x in sim.strategies[t.s].trades):
            by_strategy.setdefault(t.s, []).append({
                "obj": t.obj, "epic": sim.epics[t.e].ref,
                "strategy": sim.strategies[t.s].ref,
                "wall": tzm.local(t.tick[0], sim.case["zones"][t.e]).replace(microsecond=0),
            })
    used = Counter()
    for p, was, new in trades:
        name = os.path.basename(p)
        if not new:
            continue
        owners = {row["strategy"] for row in new}
        ctx.check(len(owners) == 1, "%s: %s has trades of %s", what, name, owners)
        owner = owners.pop()
        k = next((k for k in ks if sim.strategies[k].ref == owner), None)
        ctx.check(k is not None, "%s: trades of an unknown strategy %r", what, owner)
        used[k] += 1
        ctx.check(state["owner"].setdefault(p, k) == k, "%s: %s has trades of another "
                  "strategy", what, name)
        left = list(by_strategy.get(k, []))
        for row in new:
            why = None
            for t in left:
                d = trade_row_ok(row, t, name)
                if d is None:
                    left = [x for x in left if x is not t]
                    break
                if row["ref"] == t["obj"].ref:
                    why = d
            else:
                ctx.fail(f"{what}, strategy {owner!r}: row {row} is no trade left to report"
                         f"{' (' + why + ')' if why else ''}")
        ctx.check(not left, "%s, strategy %r: %d trades are missing (%s)", what, owner,
                  len(left), [t["obj"].ref for t in left])
    for k in ks:
        if by_strategy.get(k):
            ctx.check(used[k] == 1, "%s: trades of strategy %r are in %d files", what,
                      sim.strategies[k].ref, used[k])
    if n == 0:
        ctx.check(len(trades) == len(ks), "%s of %d strategies made %d files of trades", what,
                  len(ks), len(trades))
    if n and any(was and new for _, was, new in trades):
        state["again"] = True
        ctx.label("trades added to an existing file")
    if any(set(s.ref) & set(",\"\n\r/%;'\t\\") for s in sim.strategies):
        state["special"] = True


SPECIAL = ["a/b", "a,b", '"', 'a"b,"', "a\nb", "a\r\nb", "a\rb", "100%", "%2F", "a%2Fb", "..",
           "../x", "é", "\U0001f600", " a", "a ", "#", "'", ";", "\\", "a\\b", "=1+1", "\t",
           "ref", "0", "None", "{}", "%s", "~", "*", "con", "strategies", "a_trades", "$HOME"]
CHARS = st.sampled_from(list("ab,\"\n\r/%;' \\.é{}_-") + ["\U0001f600", "\u2028", "\x85"])


def text_ref():
    t = st.one_of(
        st.sampled_from(SPECIAL),
        st.text(CHARS, min_size=1, max_size=12),
        st.text(st.characters(exclude_categories=["Cs"], exclude_characters="\0"),
                min_size=1, max_size=12),
    )
    return t.map(lambda x: "r" + x if x.startswith("/") else x)


@st.composite
def cases(draw, slow=False):
    c = draw(programs(kinds=("open", "tick", "open", "close", "explicit", "opentick"), twins=False, epics=(1, 1, 2),
                      strats=(1, 2, 3, 3, 6, 14), max_ops=14, max_q=3))
    for o in c["ops"]:
        # among all the strategies
        if o[0] in ("open", "opentick") and o[2] == 2 and c["strats"] > 3:
            o[2] = draw(gen.ints(2, c["strats"] - 1))
    if draw(gen.ints(0, 3)):
        c["s_refs"] = draw(st.lists(text_ref(), min_size=max(3, c["strats"]),
                                    max_size=max(3, c["strats"]), unique=True))
        # long ones which only differ at their ends
        n = draw(gen.pick([0, 0, 0, 20, 60, 150]))
        c["s_refs"] = [("a long reference, " * 9)[:n] + r for r in c["s_refs"]]
    if draw(st.booleans()):
        c["e_refs"] = draw(st.lists(text_ref(), min_size=2, max_size=2, unique=True))
    if draw(st.booleans()):
        c["t_refs"] = draw(st.lists(text_ref(), min_size=1, max_size=4))
    c["reports"] = [{
        "at": draw(gen.ints(0, 16)),
        "strats": draw(st.permutations(range(c["strats"])))
        if c["strats"] > 3 and draw(st.booleans()) else
        draw(st.lists(gen.ints(0, max(2, c["strats"] - 1)), min_size=0 if draw(gen.ints(0, 9)) == 9 else 1,
                                max_size=3)),
        "details": draw(gen.pick([True, None, True, False])),
        "sleep": slow and draw(st.booleans()),
    } for _ in range(draw(gen.ints(1, 4)))]
    c["folder"] = {
        "parts": draw(st.lists(gen.pick(["out", "my reports", "é", "x.y"]), min_size=1,
                               max_size=3)),
        "exists": draw(st.booleans()), "relative": draw(st.booleans()),
        "slash": draw(gen.ints(0, 9)) == 9,
    }
    return c


@st.composite
def crowds(draw):
    case = draw(crowded(cases()))
    for r in case["reports"]:
        r["at"] += draw(gen.pick([1000, 1000, 0, 20, 50]))
    return case


SCENARIOS = [
    Scenario("reports", run, cases, quick=5000, thorough=300000),
    Scenario("crowd", run, crowds, quick=160, thorough=6000),
    Scenario("seconds", run, lambda: cases(slow=True), quick=64, thorough=4000),
]
