"""Writes /verif/MANIFEST.json."""
import json, pathlib

T = {
 "C01": "property-based testing: generated tick constructions against exact-arithmetic and standard-library time oracles",
 "C02": "stateful property-based testing: generated tick histories against a chronological twin; enumeration of all zone names",
 "C03": "property-based testing: generated calendars and boundary instants against a zoneinfo reference model",
 "C04": "stateful property-based testing: generated pause/stop/notification histories against a model of expected notices",
 "C05": "stateful property-based testing with injected strategy failures: differential against a twin epic, checked inside callbacks",
 "C06": "stateful property-based testing: generated tick streams against a reference model of local-time periods",
 "C07": "stateful property-based testing: generated tick streams around midnights against a reference model of tick frames",
 "C08": "stateful property-based testing: frame contents against the ticks observed to enter them; immutability over the history",
 "C09": "differential property-based testing: bounded history against an unbounded one on the same ticks",
 "C10": "property-based testing: candles against the ticks of their frame, in exact arithmetic",
 "C11": "property-based testing: candle recurrence in exact arithmetic, step by step and over long histories",
 "C12": "property-based testing: moving averages against the exact mean of the last closes",
 "C13": "property-based testing: RSI against exact sums over the window; refusal cases",
 "C14": "property-based testing: pivot levels against the documented formulas in exact arithmetic, ordering and constancy invariants",
 "C15": "property-based testing: restricted indicators against the ticks received while the market was open",
 "C16": "stateful property-based testing: trade figures recomputed in whole cents after every step",
 "C17": "stateful property-based testing: quantity conservation and close records over generated close sequences",
 "C18": "model-based property testing: generated openings against a model of netting",
 "C19": "stateful property-based testing with controlled, reordered and failing provider requests, and generated schedules of the threads using it",
 "C20": "property-based testing: listings and statistics against exact sums and a filtering model",
 "C21": "round-trip property-based testing: written reports read back and compared with the trades",
 "C22": "model-based and differential property testing: registrations against a model, epics together (interleaved, or in threads switched by a generated schedule) against each alone",
 "C23": "enumeration of quantities and property-based testing of period arithmetic against a reference calendar",
 "C24": "metamorphic property-based testing: same history under changed representations, frame sizes and price shifts",
 "C25": "property-based testing: recorded calls of generated user-defined indicators against the ticks of their frames",
 "C26": "stateful property-based testing: weak references to everything created against what the limits allow, over long generated histories",
 "C27": "differential property-based testing: histories with refused requests against a twin which never got them",
 "C28": "metamorphic property-based testing: histories with reads anywhere against the same histories without, and each read against itself",
 "C29": "differential property-based testing: added frame sets against the same ones on a new epic, earlier ones against a twin without additions",
}
N = {
 "C01": "Every generated construction is checked exactly. Assumes finite prices of at most five decimals.",
 "C02": "Whole observable state is compared after each tick. Zones follow zoneinfo over 1972-2036.",
 "C03": "Trusts zoneinfo for local time. Calendars with open_time after close_time mean never open.",
 "C04": "All notices of every tick are compared. Strategies registering others during a notice are not decided.",
 "C05": "Compares everything visible from inside each notice with a twin epic. Which later strategies still get the tick of a failure is not decided.",
 "C06": "Exact periods, attribution and empty frames. Second pass of a repeated hour for minutes and seconds is a known finding; changes off the frame grid are not decided.",
 "C07": "Exact frames after every tick, for quotas 1 to 20.",
 "C08": "Membership of ticks is observed, so judged independently of the period arithmetic (C06, C07).",
 "C09": "Limits from two frames up; the larger history is never full.",
 "C10": "Exact, at price levels from five decimals to millions, negative and zero.",
 "C11": "Exact up to rounding to cents (ties may go either way).",
 "C12": "Exact up to rounding to cents (ties may go either way).",
 "C13": "Exact up to rounding to cents; windows of 1 to 280 changes.",
 "C14": "Exact up to rounding to cents (ties may go either way).",
 "C15": "Market hours are as observed on the epic (decided by C03). Empty frames and RSI are recorded findings.",
 "C16": "Exact in whole cents (ties of five-decimal prices may go either way).",
 "C17": "Exact. A close of nothing records or not: either is accepted as long as quantities hold.",
 "C18": "Exact over generated histories of up to 36 operations.",
 "C19": "Requests are held and released by the harness: the order of completions is explored, the operating system schedules within them. Threads which use the provider switch at lines or instructions of the package only. Requests get 20 s to arrive.",
 "C20": "Exact up to rounding to cents. Listings after a time on trades not in time order are a known finding.",
 "C21": "Every file is parsed back after every report. References without NUL and surrogates.",
 "C22": "Epics may be at unrelated times. Strategies that are paused or stopped are shared state by design and not varied here.",
 "C23": "Quantities -70 to 130 and some large ones enumerated; periods over 1900-2036 outside clock changes.",
 "C24": "Exact equality for representations and sizes; cents tolerances where rounding applies for shifts.",
 "C25": "Exact. Whether restricted values of empty frames exist is taken as observed (recorded finding of C15).",
 "C26": "Counts live objects with a small constant allowance; trades are left out, they may keep what they want.",
 "C27": "Whole observable state is compared after each refusal and at the end. Logging is not compared.",
 "C28": "Whole observable state is compared at the end. Changing the frames or closes themselves is not reading.",
 "C29": "Exact equality after each tick.",
}
checks = []
for c in sorted(T):
    checks.append({
        "property": c, "quick_cmd": f"./check {c}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {c}",
        "technique": T[c], "level": "exploration",
        "level_note": N[c] + " Random search: no guarantee beyond the cases generated (counted in the evidence).",
    })
m = {
    "version": 1,
    "setup_cmd": "PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=vendor:/repo /opt/venv/bin/python -c 'import hypothesis, estrade; print(hypothesis.__version__)'",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: everything is observed through the public API of estrade. Hypothesis is vendored in /verif/vendor. VERIF_SEED and VERIF_TIER are honoured.",
}
root = pathlib.Path(__file__).resolve().parent.parent
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
