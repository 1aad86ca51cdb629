from ..core import Facet, check, close, equal
from ..drive import animated, animation, fresh
from ..monitors import *
from ..stats import compare, numeric

PROPERTY = "C15"
RULE = "at least three tallies with different values of which some with a positive weight or duration"

weights = st.sampled_from([1, 1, 1, 1, 2, 0.5, 3, 0.25, 0])


def cases(kind):
    v = KINDS[kind]
    ops = st.lists(
        weighted(
            (1, nop), (10, op("tally", v, weights)), (5, op("run", durations)), (3, op("monitor", st.booleans())), (1, op("reset", st.none() | st.booleans(), st.none() | st.booleans())), (3, st.just(["query"])),
            (1, op("reset_now", st.sampled_from([0, 5]))),
        ),
        min_size=10, max_size=35,
    )
    return st.fixed_dictionaries(dict(kind=st.just(kind), level=st.booleans(), initial=v, on=st.sampled_from([True, True, True, False]), ops=ops))


strategy = kinds.flatmap(cases)


def same(a, b, level):
    for ex0 in (False, True):
        if level:
            close(a.duration(ex0=ex0), b.duration(ex0=ex0), f"duration(ex0={ex0})")
        else:
            equal(a.number_of_entries(ex0=ex0), b.number_of_entries(ex0=ex0), f"number_of_entries(ex0={ex0})")
            close(a.weight(ex0=ex0), b.weight(ex0=ex0), f"weight(ex0={ex0})")
        close(a.mean(ex0=ex0), b.mean(ex0=ex0), f"mean(ex0={ex0})", 1e-7, 1e-7)
        close(a.std(ex0=ex0), b.std(ex0=ex0), f"std(ex0={ex0})", 1e-5, 1e-5)
    if level:
        close(a.duration_zero(), b.duration_zero(), "duration_zero", 1e-7, 1e-7)
        equal((a(), a.get(), a.value), (b(), b.get(), b.value), "current value")
    else:
        equal(a.number_of_entries_zero(), b.number_of_entries_zero(), "number_of_entries_zero")
        close(a.weight_zero(), b.weight_zero(), "weight_zero", 1e-7, 1e-7)
    equal(a.monitor(), b.monitor(), "monitor")
    equal(a.start_time(), b.start_time(), "start_time")


def table(txt):
    return [l for l in txt.splitlines() if not any(k in l for k in ("median", "percentile", "std"))]


def run_case(case):
    fresh()
    env = sim.Environment(trace=False, yieldless=True, **animation(case))
    level = case["level"]
    kw = dict(level=True, initial_tally=case["initial"]) if level else {}
    full = sim.Monitor("m", type=type_of(case["kind"]), monitor=case["on"], **kw)
    lean = sim.Monitor("m", type=type_of(case["kind"]), monitor=case["on"], stats_only=True, **kw)
    check(lean.stats_only() and not full.stats_only(), "stats_only")
    from ..stats import LevelRef

    ref = LevelRef(0, 0 if case["initial"] is None else case["initial"], case["on"])
    data = []
    on = case["on"]
    t = 0
    lean_only = True
    vals = set()
    last = None  # moment of the last tally, if clear
    for o in case["ops"] + [["query"]]:
        if o[0] == "tally":
            for m in (full, lean):
                if level or o[2] == 1:
                    m.tally(o[1])
                else:
                    m.tally(o[1], o[2])
            ref.tally(t, o[1])
            last = env.now()
            if on:
                data.append((numeric(o[1]), o[2]))
                vals.add(numeric(o[1]))
        elif o[0] == "run":
            env.run(o[1])
            t += o[1]
        elif o[0] == "reset_now":
            if last is not None:
                last += o[1] - env.now()
            env.reset_now(o[1])
        elif o[0] == "monitor":
            for m in (full, lean):
                m.monitor(o[1])
            ref.monitor(t, o[1])
            on = o[1]
            last = None
        elif o[0] == "reset":
            last = None
            full.reset(monitor=o[1])
            lean.reset(monitor=o[1], stats_only=o[2])
            if o[2] is not None:
                lean_only = o[2]
            check(lean.stats_only() == lean_only, "stats_only after reset")
            ref.reset(t, o[1])
            data = []
            if o[1] is not None:
                on = o[1]
        elif o[0] == "query":
            same(lean, full, level)
            if level and last is not None:
                close(full.t(), last, "time of the last tally")
                close(lean.t(), last, "time of the last tally of the stats_only monitor")
            d = ref.xw(t) if level else data
            zero = any(w == 0 for x, w in d) and not level
            compare("stats_only", lean, d, any(w != 1 for x, w in d) or level, stats_only=True, level=level)
            if not zero:
                compare("full", full, d, any(w != 1 for x, w in d) or level, stats_only=True, level=level)
    return [case["kind"], "level" if level else "non level"] + (["nontrivial"] if len(vals) >= 3 and (not level or t) else [])


FACETS = [Facet("differential", animated(strategy), run_case, quick=3500)]
