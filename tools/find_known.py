"""Minimal strict cases of the recorded findings: python tools/find_known.py"""
import gc, importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ["/repo", ROOT, os.path.join(ROOT, "vendor")]
import logging; logging.disable(logging.CRITICAL)
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from vlib import harness
gc.collect = lambda *a, **k: 0

def find(prop, name, accept, n=20000, prep=lambda c: c):
    mod = importlib.import_module(f"checks.{prop}")
    scn = [s for s in mod.SCENARIOS if s.name == name][0]
    ctx = harness.Ctx()
    best = {}
    @hypothesis.seed(3)
    @settings(max_examples=n, database=None, deadline=None, phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck), report_multiple_bugs=False)
    @given(scn.strategy())
    def t(c):
        c = prep(json.loads(harness.canon(c)))
        if c is None or not accept(c): return
        harness.run_case(scn, c, ctx) if "strict" not in c else None
        c = dict(c, strict=True)
        try:
            harness.run_case(scn, c, ctx)
        except harness.Violation as e:
            best["case"], best["msg"] = c, str(e)
            raise AssertionError
    try: t()
    except AssertionError: pass
    return best

def has_rsi(c): return any(s["type"]=="rsi" and s.get("market") for f in c["fs"] for s in f.get("ind",[]))
for key, prop, scn, acc in [("order","C20","statistics",lambda c: True),
                       ("fold","C06","tiles",lambda c: True),
                       ("rsi","C15","hours",has_rsi),
                       ("filler","C15","hours",lambda c: not has_rsi(c))]:
    if len(sys.argv)>1 and key not in sys.argv[1:]: continue
    b = find(prop, scn, acc)
    print(key, json.dumps(b)[:1500]); sys.stdout.flush()
    open(f"/tmp/known_{key}.json","w").write(json.dumps(b))
