"""Small changes of the package, made one by one: which do the tests and the checks notice?

    mutate.py tests OUT.jsonl          make them all, run the repository's tests on each
    mutate.py checks OUT.jsonl RES.jsonl [scale] [part/parts]
                                       run the checks on those which the tests let pass

Nothing is kept in seeded/: the survivors are read by hand, to see what they are
(equivalent, outside of the properties, or a gap of a check)."""
import ast
import concurrent.futures
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
SKIP = ("estrade/event_manager.py",)
FIRST = {  # checks likely to notice, by file; the others follow
    "epic.py": "02 03 04 05 25 22 16 19 09 27 24",
    "strategy.py": "04 20 22 17 24 27 18",
    "trade.py": "16 17 18 20 21 27 24 19",
    "trade_provider.py": "18 19 16 17 22 20",
    "tick.py": "01 27 02 22 08",
    "tick_provider.py": "22",
    "csv.py": "21",
    "frame_set.py": "06 07 08 09 23 25 26 15 13 24 22",
    "base_indicator.py": "15 25 09 12 22 26",
    "candle_set.py": "10 11 15 09",
    "pivot.py": "14 15",
    "rsi.py": "13 15 09 24",
    "simple_moving_average.py": "12 15 09 24",
    "timeframe.py": "23 06 24", "timed.py": "01 02 24", "ref.py": "22", "meta.py": "01 22",
    "transaction.py": "19 16 21",
}
SWAP = {"bid": "ask", "ask": "bid", "high": "low", "low": "high", "high_tick": "low_tick",
        "low_tick": "high_tick", "first_tick": "last_tick", "last_tick": "first_tick",
        "open_time": "close_time", "close_time": "open_time", "BUY": "SELL", "SELL": "BUY",
        "previous_frame": "next_frame", "next_frame": "previous_frame",
        "datetime_utc": "datetime", "opened_quantities": "open_quantity",
        "open_quantity": "opened_quantities", "closed_quantities": "opened_quantities",
        "open_value": "current_close_value", "current_close_value": "open_value",
        "max_result": "min_result", "min_result": "max_result", "value": "bid",
        "open": "last", "close": "last", "last": "open", "period_start": "period_end",
        "period_end": "period_start", "opened_result": "closed_result",
        "closed_result": "opened_result", "result": "result_avg", "result_avg": "result",
        "opened_trades": "trades"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"],
       ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
       ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Mod: ["//"],
       ast.FloorDiv: ["/"]}


def mutants(path):
    text = open(os.path.join(REPO, path)).read()
    lines = text.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = text.encode()

    def pos(line, col):
        return starts[line - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def put(n, new, what):
        a, b = span(n)
        out.append((a, b, new, f"{path}:{n.lineno} {what}"))

    def logging(n):
        return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) \
            and src(n.value.func).startswith("logger.")

    def visit(n, parent):
        if logging(n) or isinstance(n, (ast.Raise,)):
            return
        if isinstance(n, ast.If) and "TYPE_CHECKING" in src(n.test):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.AnnAssign)) and not (
                isinstance(n, ast.AnnAssign) and n.value is not None):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = src(n.left), src(n.comparators[0])
            for o in CMP[type(n.ops[0])]:
                put(n, f"({l} {o} {r})", f"{src(n)!r} -> {o}")
        if isinstance(n, ast.BoolOp):
            o = "or" if isinstance(n.op, ast.And) else "and"
            put(n, "(" + f" {o} ".join(f"({src(v)})" for v in n.values) + ")", f"{o}: {src(n)!r}")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                was = "and" if isinstance(n.op, ast.And) else "or"
                put(n, "(" + f" {was} ".join(f"({src(v)})" for v in rest) + ")",
                    f"without {src(n.values[i])!r}")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, f"({src(n.operand)})", f"without not: {src(n)!r}")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put(n, f"({src(n.operand)})", f"without minus: {src(n)!r}")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            for o in BIN[type(n.op)]:
                put(n, f"({src(n.left)} {o} {src(n.right)})", f"{src(n)!r} -> {o}")
        if isinstance(n, ast.Constant) and not isinstance(parent, ast.Expr):
            if isinstance(n.value, bool):
                put(n, str(not n.value), f"{n.value} -> {not n.value}")
            elif isinstance(n.value, (int, float)):
                for d in (1, -1):
                    put(n, f"({n.value + d})", f"{n.value} -> {n.value + d} in {lines[n.lineno - 1].strip()!r}")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for v in ("True", "False"):
                if not (isinstance(n, ast.While) and v == "True"):
                    put(n.test, v, f"if {v}: {src(n.test)!r}")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break)) \
                and not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
            put(n, "pass", f"deleted {src(n)!r}")
        if isinstance(n, ast.Continue):
            put(n, "break", "continue -> break")
        if isinstance(n, ast.Break):
            put(n, "continue", "break -> continue")
        if isinstance(n, ast.AugAssign) and type(n.op) in (ast.Add, ast.Sub):
            o = "-=" if isinstance(n.op, ast.Add) else "+="
            put(n, f"{src(n.target)} {o} {src(n.value)}", f"{o}: {src(n)!r}")
        if isinstance(n, ast.Return) and n.value is not None:
            put(n, "return None", f"{src(n)!r} -> None")
        if isinstance(n, ast.Call):
            f = src(n.func)
            if f in ("round", "reversed", "list", "int", "float", "abs", "sorted") and n.args:
                put(n, f"({src(n.args[0])})", f"without {f}: {src(n)!r}")
            if f == "round" and len(n.args) == 2:
                for d in (1, 3, 6):
                    put(n, f"round({src(n.args[0])}, {d})", f"{d} decimals: {src(n)!r}")
            if f in ("min", "max"):
                put(n.func, "max" if f == "min" else "min", f"{f} swapped: {src(n)!r}")
                for i, a in enumerate(n.args):
                    if len(n.args) > 1:
                        put(n, src(a), f"{src(n)!r} -> {src(a)!r}")
            for k in n.keywords:
                if k.arg is not None and len(n.keywords) + len(n.args) > 1:
                    a, b = span(k)
                    rest = raw[b:b + 40].decode(errors="ignore")
                    e = b + (len(rest) - len(rest.lstrip()) if not rest.startswith(",") else 1)
                    if rest.lstrip()[:1] in ",)":
                        cut = b + len(rest) - len(rest.lstrip()) + (rest.lstrip()[0] == ",")
                        out.append((a, cut, "", f"{path}:{k.value.lineno} without {src(k)!r}"))
        if isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load):
            put(n, f"{src(n.value)}.{SWAP[n.attr]}", f"{src(n)!r} -> {SWAP[n.attr]}")
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and (
                    c in n.decorator_list or c is n.returns):
                continue
            if isinstance(c, (ast.arg,)):
                continue
            visit(c, n)

    visit(ast.parse(text), None)
    seen = set()
    for a, b, new, what in out:
        t = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            compile(t, path, "exec")
        except SyntaxError:
            continue
        h = hashlib.sha1(t.encode()).hexdigest()
        if t != text and h not in seen:
            seen.add(h)
            yield {"path": path, "a": a, "b": b, "new": new, "what": what, "id": h[:10]}


def apply(m, tree):
    p = os.path.join(tree, m["path"])
    raw = open(os.path.join(REPO, m["path"]), "rb").read()
    open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])


def copy(to):
    shutil.copytree(REPO, to, ignore=shutil.ignore_patterns(".git", "__pycache__"))


def tests(m):
    tmp = tempfile.mkdtemp(prefix="mut.")
    try:
        tree = os.path.join(tmp, "repo")
        copy(tree)
        apply(m, tree)
        try:
            r = subprocess.run(
                [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests", "--deselect",
                 "tests/unit/test_trade.py::TestTradeUpdate::TestUpdateTrade::test_closed"],
                cwd=tree, env=dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE="1"),
                capture_output=True, text=True, timeout=120)
            m["tests"] = "pass" if r.returncode == 0 else "fail"
        except subprocess.TimeoutExpired:
            m["tests"] = "timeout"
        return m
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if sys.argv[1] == "tests":
        todo = []
        for d, _, names in sorted(os.walk(os.path.join(REPO, "estrade"))):
            for n in sorted(names):
                p = os.path.relpath(os.path.join(d, n), REPO)
                if n.endswith(".py") and p not in SKIP:
                    todo += list(mutants(p))
        print(len(todo), "changes", flush=True)
        with open(sys.argv[2], "w") as f, concurrent.futures.ThreadPoolExecutor(8) as ex:
            for m in ex.map(tests, todo):
                f.write(json.dumps(m) + "\n")
                f.flush()
        return
    scale = sys.argv[4] if len(sys.argv) > 4 else "0.1"
    part, parts = map(int, (sys.argv[5] if len(sys.argv) > 5 else "0/1").split("/"))
    todo = [m for m in map(json.loads, open(sys.argv[2])) if m["tests"] == "pass"]
    every = [f"C{k:02d}" for k in range(1, 30)]
    with open(sys.argv[3], "w") as f:
        for m in todo[part::parts]:
            tmp = tempfile.mkdtemp(prefix="mut.")
            tree = os.path.join(tmp, "repo")
            copy(tree)
            apply(m, tree)
            first = ["C" + k for k in FIRST.get(os.path.basename(m["path"]), "").split()]
            m["caught"] = None
            for c in first[:5] if len(sys.argv) > 6 else first + [c for c in every if c not in first]:
                r = subprocess.run(["./check", c, "--scale", scale, "--workers",
                                    str(max(1, 8 // parts))], cwd=ROOT, text=True,
                                   env=dict(os.environ, ESTRADE_REPO=tree), capture_output=True)
                if r.returncode:
                    line = [l.strip() for l in r.stdout.split("\n") if "scenario" in l]
                    m["caught"] = [c, r.returncode, (line or [r.stderr[-200:]])[0][:200]]
                    break
            f.write(json.dumps(m) + "\n")
            f.flush()
            shutil.rmtree(tmp, ignore_errors=True)


main()
