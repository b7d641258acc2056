"""Runner of the generated-input checks: shards, shrinking, replay, evidence.

A check module (checks/Cxx.py) defines

    PROPERTY  = "Cxx"
    RULE      = how cases are made and what makes one non-trivial
    SCENARIOS = [Scenario(...), ...]

A scenario has a Hypothesis strategy producing a JSON value (the *case*) and a
deterministic `run(case, ctx)` which drives the real package and raises `Violation`
(through `ctx.fail`) when the property does not hold on that case.  The case is passed
through JSON before it is run, so the replay file reproduces exactly what was run.
"""
import argparse
import faulthandler
import gc
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback
import uuid

from vlib.ambient import AMBIENTS, ambient
from vlib.fresh import Fresh

REAL_COLLECT = gc.collect
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("ESTRADE_REPO", "/repo"))
OBSERVE = [os.path.realpath(os.path.join(ROOT, "vlib", n))
           for n in ("observe.py", "world.py", "frames.py")]
CPU_LIMIT = 90  # CPU seconds for one case (cases take milliseconds)


class Violation(Exception):
    """The property does not hold on the case."""


class HarnessError(Exception):
    """The machinery failed: never a statement on the property."""


class _Stop(BaseException):
    pass


class _CpuLimit(BaseException):
    pass


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


class Scenario:
    def __init__(self, name, run, strategy=None, quick=0, thorough=None, cases=None,
                 corpus_only=False):
        self.name = name
        self.run = run
        self.strategy = strategy  # callable returning a hypothesis strategy
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.cases = cases  # callable(tier) -> iterable of cases (enumeration)


class Ctx:
    """What a run says about one case."""

    def __init__(self, tier="quick", work=None):
        self.tier = tier
        self.work = work or os.environ.get("VERIF_WORK", "/tmp")
        self.labels = {}
        self.excluded = {}
        self.reset()

    def reset(self):
        self.nontrivial = False
        self.checks = 0

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def exclude(self, name, n=1):
        self.excluded[name] = self.excluded.get(name, 0) + n

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg, *args):
        self.checks += 1
        if not cond:
            raise Violation(msg % args if args else msg)

    def eq(self, actual, expected, what):
        self.checks += 1
        if not (type(actual) is type(expected) or (
            isinstance(actual, (int, float)) and isinstance(expected, (int, float))
            and not isinstance(actual, bool) and not isinstance(expected, bool)
        )) or actual != expected:
            raise Violation(f"{what}: got {actual!r}, expected {expected!r}")


# --------------------------------------------------------------------------- running
def _classify(exc):
    """Map an exception of a run to Violation or HarnessError."""
    inner = "harness"
    for fr in traceback.extract_tb(exc.__traceback__):
        name = os.path.realpath(fr.filename)
        if name in OBSERVE:
            inner = "observation"
        elif name.startswith(os.path.join(REPO, "estrade") + os.sep):
            inner = "sut"
        elif name.startswith(ROOT + os.sep) and os.sep + "vendor" + os.sep not in name:
            inner = "harness"
    return inner


def run_case(scn, case, ctx, around=None):
    ctx.reset()
    try:
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
        try:
            if around:
                with ambient(around):
                    scn.run(case, ctx)
            else:
                scn.run(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except (Violation, HarnessError):
        raise
    except Exception as e:
        kind = _classify(e)
        short = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
        if kind == "sut":
            raise Violation(f"unexpected {type(e).__name__}: {e}\n{short}") from e
        if kind == "observation":
            raise Violation(f"unreadable state, {type(e).__name__}: {e}\n{short}") from e
        raise HarnessError(f"{type(e).__name__}: {e}\n" + traceback.format_exc()) from e


class Collector:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.samples = []
        self.per_scenario = {}
        self.failure = None  # (scenario, case, message)
        self.errors = []
        self.truncated = 0


def _cpu_handler(signum, frame):
    raise _CpuLimit()


# ----------------------------------------------- running cases in untouched processes
def _limit_memory():
    limit = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))


def _no_collection():
    # FrameSet.clean_old_frames collects garbage for each dropped frame: harmless but
    # very slow next to Hypothesis, and without influence on the values.
    gc.freeze()
    gc.collect = lambda *a, **k: 0


def answer(mod, request):
    """Run in a fresh process: a sequence of cases (the last one counts), or a call."""
    signal.signal(signal.SIGPROF, _cpu_handler)
    _limit_memory()
    _no_collection()
    if request["do"] == "call":
        return {"value": getattr(mod, request["name"])(*request["args"])}
    by_name = {s.name: s for s in mod.SCENARIOS}
    os.environ["VERIF_WORK"] = request["work"]
    ctx = Ctx(request["tier"])
    if getattr(mod, "FRESH", False):
        ctx.fresh = Fresh(mod, answer)
    out = {"outcome": "held"}
    for scenario, case, *around in request["cases"]:
        out = {"outcome": "held"}
        try:
            run_case(by_name[scenario], case, ctx, *around)
        except Violation as e:
            out = {"outcome": "violation", "message": str(e)}
        except _CpuLimit:
            out = {"outcome": "violation",
                   "message": f"no answer within {CPU_LIMIT} CPU seconds"}
        except HarnessError as e:
            out = {"outcome": "error", "message": str(e)}
    return out


class Confirm:
    """Find out what a failure needs: the case alone, or cases run before it."""

    BUDGET = 75

    def __init__(self, fresh, tier, work):
        self.fresh, self.tier, self.work = fresh, tier, work
        self.end = time.time() + self.BUDGET

    def fails(self, cases):
        r = self.fresh.ask({"do": "run", "cases": cases, "tier": self.tier,
                            "work": self.work})
        if "died" in r:
            return f"the process died, status {r['died']}"
        return r["message"] if r["outcome"] == "violation" else None

    def sequence(self, history, last):
        """Shortest found list of cases before `last` which makes it fail, or None."""
        found = msg = None
        n = 1
        while time.time() < self.end:
            before = history[-n:]
            msg = self.fails(before + [last])
            if msg is not None:
                found = before
                break
            if n >= len(history):
                return None
            n = min(2 * n, len(history))
        if found is None:
            return None
        step = max(1, len(found) // 2)
        while time.time() < self.end:
            k, changed = 0, False
            while k < len(found) and time.time() < self.end:
                fewer = found[:k] + found[k + step:]
                m = self.fails(fewer + [last])
                if m is not None:
                    found, msg, changed = fewer, m, True
                else:
                    k += step
            if step == 1 and not changed:
                break
            step = max(1, step // 2)
        return found + [last], msg


def worker(mod, tier, seed, index, count, flag, deadline, out_path, scale, fresh):
    """Run the share `index` of `count` and pickle what was seen to out_path."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = 25 if tier == "quick" else 120
    signal.signal(signal.SIGPROF, _cpu_handler)
    _limit_memory()
    _no_collection()
    col = Collector()
    ctx = Ctx(tier)
    ctx.fresh = fresh
    history = []  # the cases run in this process, in order, and what was around them
    turn = [index]

    def run(scn, text, again=False):
        if not again:
            turn[0] += 1
        around = AMBIENTS[turn[0] % len(AMBIENTS)]
        history.append((scn.name, text, around))
        run_case(scn, json.loads(text), ctx, around)

    def one(scn, case, record=True):
        if flag[0]:
            raise _Stop()
        if time.time() > deadline:
            col.truncated += 1
            raise _Stop()
        text = canon(case)
        case = json.loads(text)
        run(scn, text)
        if record:
            col.evaluations += 1
            per = col.per_scenario.setdefault(scn.name, [0, 0])
            per[0] += 1
            if ctx.nontrivial:
                h = hashlib.blake2b((scn.name + text).encode(), digest_size=8).digest()
                if h not in col.hashes:
                    col.hashes.add(h)
                    per[1] += 1
                    n = sum(1 for s in col.samples if s["scenario"] == scn.name)
                    if index == 0 and n < 2 and len(text) < 6000:
                        col.samples.append({"scenario": scn.name, "case": case})

    def failed(scn, case, message, first=None):
        """Record a failure, with what reproduces it in a fresh process.

        `first`: the case which failed at first, its message, and how many cases had been
        run before it."""
        flag[0] = 1
        col.evaluations += 1
        conf = Confirm(fresh, tier, os.environ.get("VERIF_WORK", "/tmp"))
        case = json.loads(canon(case))
        around = AMBIENTS[turn[0] % len(AMBIENTS)]
        tries = [(case, {}, 1)] + ([(case, around, 1)] if around else [])
        if first is not None:
            tries += [(first[0], around, 1), (case, around, 5), (first[0], around, 5)]
        for c, a, n in tries:
            for _ in range(n):
                m = conf.fails([[scn.name, c, a]])
                if m is not None:
                    col.failure = (scn.name, c, m, [[scn.name, c, a]] if a else None)
                    return
        c, m, n = first if first is not None else (case, str(message), len(history) - 1)
        before = [[a, json.loads(b), x] for a, b, x in history[:n]]
        r = conf.sequence(before, [scn.name, c, around])
        if r is not None:
            col.failure = (scn.name, c, r[1], r[0])
            return
        col.failure = (scn.name, c, m + "\n(seen in a process that had run the cases before "
                       "it in the replay file; a fresh process did not show it again)",
                       before + [[scn.name, c, around]])

    try:
        for scn in mod.SCENARIOS:
            if scn.cases is not None:
                for i, case in enumerate(scn.cases(tier)):
                    if i % count != index:
                        continue
                    try:
                        one(scn, case)
                    except Violation as e:
                        failed(scn, case, e)
                        raise _Stop()
                    except _CpuLimit:
                        failed(scn, case, f"no answer within {CPU_LIMIT} CPU seconds")
                        raise _Stop()
            total = scn.quick if tier == "quick" else scn.thorough
            total = int(total * scale)
            share = total // count + (1 if index < total % count else 0)
            if scn.strategy is None or share == 0:
                continue
            state = {"last": None, "best": None, "running": None, "at": 0}

            @hypothesis.seed(_seed(seed, mod.PROPERTY, scn.name, index))
            @settings(
                max_examples=share,
                database=None,
                deadline=None,
                derandomize=False,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck),
                report_multiple_bugs=False,
                print_blob=False,
                verbosity=Verbosity.quiet,
            )
            @given(scn.strategy())
            def test(case):
                state["running"] = case
                if state["best"] is not None:
                    # shrinking: other workers stop by themselves
                    try:
                        run(scn, canon(case), again=True)
                    except Violation as e:
                        state["last"] = (case, str(e))
                        raise
                    return
                state["at"] = len(history)
                try:
                    one(scn, case)
                except Violation as e:
                    state["best"] = state["last"] = (case, str(e))
                    raise

            def first():
                if state["best"] is None:
                    return None
                c, m = state["best"]
                return json.loads(canon(c)), m, state["at"]

            try:
                test()
            except Violation as e:
                case, msg = state["last"]
                failed(scn, case, msg, first())
                raise _Stop()
            except _CpuLimit:
                case, msg = state["running"], f"no answer within {CPU_LIMIT} CPU seconds"
                if state["best"] is not None:
                    case, msg = state["last"]
                failed(scn, case, msg, first())
                raise _Stop()
            except (_Stop, HarnessError):
                raise
            except Exception as e:
                if state["best"] is None:
                    raise
                # a failure which Hypothesis could not reproduce
                case, msg = state["last"]
                failed(scn, case, msg, first())
                raise _Stop()
    except _Stop:
        pass
    except HarnessError as e:
        col.errors.append(str(e))
        flag[0] = 1
    except BaseException:
        col.errors.append(traceback.format_exc())
        flag[0] = 1
    data = dict(col.__dict__)
    data["labels"] = ctx.labels
    data["excluded"] = ctx.excluded
    with open(out_path, "wb") as f:
        pickle.dump(data, f)


def _seed(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=6).digest()
    return int.from_bytes(h, "big")


# ------------------------------------------------------------------- known findings
def load_known(prop):
    path = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("property") == prop and d.get("kind") == "known":
                        out.append(d)
    return out


def load_corpus(prop):
    folder = os.path.join(ROOT, "corpus", prop)
    out = []
    if os.path.isdir(folder):
        for name in sorted(os.listdir(folder)):
            if name.endswith(".json"):
                with open(os.path.join(folder, name)) as f:
                    d = json.load(f)
                d["file"] = name
                out.append(d)
    return out


def save_replay(prop, scenario, case, message, cases=None):
    folder = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(folder, exist_ok=True)
    digest = hashlib.blake2b(canon(case).encode(), digest_size=5).hexdigest()
    path = os.path.join(folder, f"{prop}-{scenario}-{digest}.json")
    with open(path, "w") as f:
        data = {"property": prop, "scenario": scenario, "case": case, "message": message}
        if cases:
            data["cases"] = cases  # run in this order; the last one counts
        json.dump(data, f, indent=1)
    return path


def repeatable_uuids(limit=50000):
    """Random UUIDs repeat from run to run, and the few characters the package takes of one
    as a reference are not drawn twice: such a clash (one in a million for two objects) would
    be mistaken for a defect about once in a hundred runs."""
    rng, seen = random.Random(20201106), set()

    def uuid4():
        while True:
            u = uuid.UUID(int=rng.getrandbits(128), version=4)
            ends = {u.hex[:5], u.hex[-5:] + "-"}
            if not ends & seen:
                break
        if len(seen) > limit:
            seen.clear()
        seen.update(ends)
        return u

    uuid.uuid4 = uuid4


def import_sut():
    sys.path.insert(0, REPO)
    repeatable_uuids()
    import logging

    logging.disable(logging.CRITICAL)
    import estrade

    where = os.path.realpath(estrade.__file__)
    if not where.startswith(REPO + os.sep):
        raise HarnessError(f"estrade was imported from {where}, not from {REPO}")


def main(argv=None):
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--replay")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    p.add_argument("--scale", type=float, default=1.0)
    p.add_argument("--only")
    p.add_argument("--workers", type=int, default=0)
    args = p.parse_args(argv)
    tier = "thorough" if args.tier == "thorough" else "quick"
    prop = args.property
    t0 = time.time()
    faulthandler.enable()
    try:
        import_sut()
        mod = importlib.import_module(f"checks.{prop}")
    except HarnessError as e:
        print(e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    if args.only:
        mod.SCENARIOS = [s for s in mod.SCENARIOS if s.name in args.only.split(",")]
    by_name = {s.name: s for s in mod.SCENARIOS}
    signal.signal(signal.SIGPROF, _cpu_handler)

    if args.replay:
        args.replay = os.path.join(os.environ.get("VERIF_CWD", "/"), args.replay)
        with open(args.replay) as f:
            data = json.load(f)
        ctx = Ctx(tier)
        ctx.fresh = Fresh(mod, answer)
        try:
            cases = data.get("cases") or [[data["scenario"], data["case"]]]
            for scenario, case, *around in cases[:-1]:
                try:
                    run_case(by_name[scenario], case, ctx, *around)
                except (Violation, HarnessError):
                    pass
            scenario, case, *around = cases[-1]
            run_case(by_name[scenario], case, ctx, *around)
        except Violation as e:
            print(f"VIOLATION property={prop} replay={args.replay}")
            print(e)
            return 1
        print("held")
        return 0

    violations = []  # (scenario, case, message, cases run before it)
    errors = []
    labels, excluded = {}, {}
    evaluations = 0
    hashes = set()
    samples = []
    per = {}
    known_lines = []
    count = args.workers or min(8, os.cpu_count() or 1)
    fresh = [Fresh(mod, answer) for _ in range(count)]

    def alone(scenario, case):
        r = fresh[0].ask({"do": "run", "cases": [[scenario, case]], "tier": tier,
                          "work": os.environ.get("VERIF_WORK") or "/tmp"})
        if "died" in r:
            return {"outcome": "violation",
                    "message": f"the process died, status {r['died']}"}
        return r

    def take(lab, exc):
        for k, v in lab.items():
            labels[k] = labels.get(k, 0) + v
        for k, v in exc.items():
            excluded[k] = excluded.get(k, 0) + v

    # 1. known findings and committed regression cases
    known_keys = set()
    for k in load_known(prop):
        if k["scenario"] not in by_name:
            continue
        known_keys.add((k["scenario"], canon(k["case"])))
        r = alone(k["scenario"], k["case"])
        if r["outcome"] == "violation":
            known_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
        elif r["outcome"] == "error":
            errors.append(r["message"])
        evaluations += 1
    for c in load_corpus(prop):
        if c["scenario"] not in by_name:
            continue
        evaluations += 1
        labels["corpus"] = labels.get("corpus", 0) + 1
        r = alone(c["scenario"], c["case"])
        if r["outcome"] == "violation":
            violations.append((c["scenario"], c["case"],
                               f"[corpus {c['file']}] {r['message']}", None))
            break
        if r["outcome"] == "error":
            errors.append(r["message"])

    # 2. generated cases, in processes
    truncated = 0
    if not violations and not errors:
        budget = 420 if tier == "quick" else 6 * 3600
        deadline = t0 + budget
        flag = mmap.mmap(-1, 1)
        flag[0] = 0
        work = os.environ.get("VERIF_WORK") or "/tmp"
        pids = []
        for i in range(count):
            out = os.path.join(work, f"out{i}.pickle")
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.environ["VERIF_WORK"] = os.path.join(work, f"w{i}")
                    os.makedirs(os.environ["VERIF_WORK"], exist_ok=True)
                    worker(mod, tier, args.seed, i, count, flag, deadline, out, args.scale,
                           fresh[i])
                except BaseException:
                    traceback.print_exc()
                    code = 3
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
            pids.append((pid, out))
        for pid, out in pids:
            _, status = os.waitpid(pid, 0)
            if not os.path.exists(out):
                errors.append(f"worker {pid} ended without result, status {status}")
                flag[0] = 1
                continue
            with open(out, "rb") as f:
                d = pickle.load(f)
            evaluations += d["evaluations"]
            hashes |= d["hashes"]
            samples += d["samples"]
            errors += d["errors"]
            truncated += d["truncated"]
            take(d["labels"], d["excluded"])
            for k, (a, b) in d["per_scenario"].items():
                x = per.setdefault(k, [0, 0])
                x[0] += a
                x[1] += b
            if d["failure"]:
                scn, case, msg, cases = d["failure"]
                if (scn, canon(case)) not in known_keys:
                    violations.append((scn, case, msg, cases))

    # 3. report
    for line in known_lines:
        print(line)
    rc = 0
    if violations:
        violations.sort(key=lambda v: (len(v[3] or ()), len(canon(v[1]))))
        for scn, case, msg, cases in violations[:1]:
            path = save_replay(prop, scn, case, msg, cases)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  scenario {scn}: {msg}")
            text = canon(case)
            if cases and len(cases) > 1:
                print(f"  after {len(cases) - 1} other case(s), in the replay file")
            if cases and cases[-1][2:] and cases[-1][2]:
                print(f"  with {cases[-1][2]}")
            print("  case:", text if len(text) < 4000 else text[:4000] + "...")
        rc = 1
    elif errors:
        for e in errors[:3]:
            print("ERROR of the check:", e, file=sys.stderr)
        rc = 2
    wall = time.time() - t0
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": samples[:8] or [{"note": "none"}],
            "per_scenario": {k: {"evaluations": v[0], "distinct_nontrivial": v[1]}
                             for k, v in sorted(per.items())},
            "labels": dict(sorted(labels.items())),
            "excluded": dict(sorted(excluded.items())),
            "workers_stopped_by_time": truncated,
            "known_findings_seen": len(known_lines),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not args.only:
        with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
    print(
        f"{prop} {tier} seed={args.seed}: {evaluations} cases, {len(hashes)} distinct "
        f"non-trivial, {len(violations)} violation(s), {wall:.1f} s"
    )
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(evidence["coverage"]["per_scenario"], indent=1))
        print(json.dumps(labels, indent=1, sort_keys=True))
        print("excluded", json.dumps(excluded))
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    from vlib import harness as _self  # one copy of the classes, whatever the entry

    sys.exit(_self.main())
