"""Make /verif/seeded/<id>/ from tools/bugs*.py, after confirming each planted bug.

    plant.py make [id ...]     write the patch, run the tests and the demo on both trees
    plant.py catch [id ...]    run the check of its property (or --all-checks) on each
    plant.py probe [id ...]    the same, for bugs which the tests notice or which only
                               touch lines of a fix: they are not kept in seeded/
"""
import concurrent.futures
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"
PREFIX = '''import sys
from datetime import date, datetime, time, timedelta, timezone

import arrow
from estrade import BaseStrategy, BaseTradeProvider, Epic, Tick, Trade
from estrade.enums import CandleType, PivotType, TradeDirection, TransactionStatus, Unit
from estrade.graph import *
from estrade.graph.frame_set import FrameSet

BUY, SELL = TradeDirection.BUY, TradeDirection.SELL


def tick(when, bid, ask=None, tz="UTC", **kw):
    return Tick(arrow.get(when, tzinfo=tz), bid, bid if ask is None else ask, **kw)


def same(got, want, what=""):
    if got != want:
        print(f"{what}: got {got!r}, expected {want!r}")
        sys.exit(1)


'''
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
'''


def load():
    out = {}
    for name in sorted(os.listdir(os.path.join(ROOT, "tools"))):
        if re.match(r"bugs.*\.py$", name):
            spec = importlib.util.spec_from_file_location(name[:-3],
                                                          os.path.join(ROOT, "tools", name))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            for b in m.BUGS:
                assert b["id"] not in out, b["id"]
                out[b["id"]] = b
    return out


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), text=True,
                          capture_output=True, timeout=timeout)


def clone(where):
    sh(["git", "clone", "-q", "/repo", where]).check_returncode()


def edit(tree, b):
    for path, old, new in b["edits"]:
        p = os.path.join(tree, path)
        text = open(p).read()
        assert text.count(old) == 1, f"{b['id']}: {path}: {text.count(old)} times {old!r}"
        open(p, "w").write(text.replace(old, new))


def make(b):
    tmp = tempfile.mkdtemp(prefix="plant.")
    try:
        tree = os.path.join(tmp, "repo")
        clone(tree)
        try:
            edit(tree, b)
        except AssertionError as e:
            return False, str(e)
        patch = sh(["git", "diff"], tree).stdout
        # changed or removed lines must be those of the original repository
        added = set()
        for path in {e[0] for e in b["edits"]}:
            for line in sh(["git", "diff", "2c25972", "HEAD", "--", path], tree).stdout.split("\n"):
                if line.startswith("+") and not line.startswith("+++"):
                    added.add(line[1:].strip())
        minus = [l[1:].strip() for l in patch.split("\n")
                 if l.startswith("-") and not l.startswith("---")]
        mine = [l for l in minus if l in added and l]
        orig = [l for l in minus if l not in added and l]
        d = os.path.join(tmp, "demo")
        os.makedirs(d)
        open(os.path.join(d, "demo.py"), "w").write(PREFIX + b["demo"].strip("\n") + "\n")
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], tree,
               {"PYTHONPATH": tree, "PYTHONDONTWRITEBYTECODE": "1"})
        failed = sorted(set(re.findall(r"^(?:FAILED|ERROR) (\S+)", r.stdout, re.M)))
        clean = os.path.join(tmp, "clean")
        clone(clean)
        r0 = sh(["bash", d + "/demo.sh"], clean, timeout=300)
        r1 = sh(["bash", d + "/demo.sh"], tree, timeout=300)
        ok = len(failed) <= 1 and r0.returncode == 0 and r1.returncode != 0 and orig and \
            "Traceback" not in r1.stdout + (r1.stderr if not b.get("raises") else "")
        note = ""
        if len(failed) > 1:
            note += f" TESTS {failed[:4]}"
        if r0.returncode:
            note += f" DEMO-ON-CLEAN {r0.stdout[-300:]} {r0.stderr[-600:]}"
        if not r1.returncode:
            note += " DEMO-PASSES-PATCHED"
        if not ok and not note:
            note += " " + r1.stderr[-600:]
        if mine:
            note += f" (also touches added lines {mine})"
        if ok:
            out = os.path.join(SEEDED, b["id"])
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(d, out)
            open(os.path.join(out, "patch.diff"), "w").write(patch)
            json.dump({"property": b["property"], "needs": b["needs"],
                       "what_it_breaks": b["what"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
        return ok, note + ("" if ok else "") + f"  [{r1.stdout.strip()[:150]}]"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def catch(bug_id, checks, seed="1", scale=None, bug=None):
    tmp = tempfile.mkdtemp(prefix="catch.")
    try:
        tree = os.path.join(tmp, "repo")
        clone(tree)
        if bug is not None:
            edit(tree, bug)
        else:
            sh(["git", "apply", os.path.join(SEEDED, bug_id, "patch.diff")],
               tree).check_returncode()
        out = []
        for c in checks:
            r = sh(["./check", c, "--seed", seed] + (["--scale", scale] if scale else []), ROOT,
                   {"ESTRADE_REPO": tree, "X": ""},
                   timeout=1500)
            line = [l for l in r.stdout.split("\n") if "scenario" in l]
            out.append((c, r.returncode, line[0].strip()[:160] if line else
                        (r.stderr[-300:] if r.returncode > 1 else "")))
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    every = "--all-checks" in args
    seed = "1"
    if "--seed" in args:
        k = args.index("--seed")
        seed = args[k + 1]
        del args[k:k + 2]
    args = [a for a in args if not a.startswith("--")]
    bugs = load()
    if cmd == "make":
        todo = [bugs[i] for i in (args or sorted(bugs))]
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for b, (ok, note) in zip(todo, ex.map(make, todo)):
                print("ok  " if ok else "BAD ", b["id"], note, flush=True)
    elif cmd == "probe":
        for i in args:
            for c, rc, line in catch(i, [bugs[i]["property"]], seed, bug=bugs[i]):
                print("CAUGHT" if rc == 1 else f"missed rc={rc}", i, c, line, flush=True)
    else:
        for i in args or sorted(os.listdir(SEEDED)):
            p = json.load(open(os.path.join(SEEDED, i, "meta.json")))["property"]
            checks = [f"C{k:02d}" for k in range(1, 30)] if every else [p]
            for c, rc, line in catch(i, checks, seed):
                print("CAUGHT" if rc == 1 else f"missed rc={rc}", i, c, line, flush=True)


main()
