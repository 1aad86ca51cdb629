from ..core import Facet, check, close, equal
from ..drive import animated, animation, fresh
from ..monitors import *
from ..stats import OFF, canonical, check_level, numeric

PROPERTY = "C14"
RULE = "at least three tallies at different times after which time passed, and at least one of: monitor off, reset, tallies at the same time"


def cases(kind):
    v = KINDS[kind]
    tally = op("tally", v, st.booleans())
    ops = st.lists(
        weighted((1, nop), (10, tally), (8, op("run", durations)), (4, op("monitor", st.booleans())), (2, op("reset", st.none() | st.booleans())), (3, st.just(["query"])), (2, op("reset_now", st.sampled_from([0, 0, 5, -3.5])))),
        min_size=10, max_size=40,
    )
    return st.fixed_dictionaries(dict(kind=st.just(kind), initial=v, on=st.sampled_from([True, True, True, False]), pre=st.sampled_from([0, 0, 1.5]), ops=ops))


strategy = kinds.flatmap(cases)


def verify(L, t, offset):
    check_level("m", L.m, L.ref, t, offset)
    m, ref = L.m, L.ref
    equal(m.monitor(), ref.on, "monitor")
    base = list(zip(*m.xt(force_numeric=False)))
    last = ref.seg[-1][1]
    equal(base[-1], (m.off if last is OFF else last, t), "last item of xt()")
    for fnum in (False, True):
        x, tt = m.xt(force_numeric=fnum)
        noff = m.off
        if fnum:
            equal([noff if b == m.off else b for b in x], [noff if b == m.off else numeric(b) for b, _ in base], "x of xt(force_numeric=True)")
        all_ = list(zip(x, tt))
        for ex0 in (False, True):
            for exoff in (False, True):
                for add_now in (False, True):
                    exp = [(a, b) for a, b in (all_ if add_now else all_[:-1]) if not (ex0 and a == 0) and not (exoff and a == noff)]
                    equal(list(zip(*m.xt(ex0=ex0, exoff=exoff, add_now=add_now, force_numeric=fnum))), exp, f"xt(ex0={ex0}, exoff={exoff}, add_now={add_now}, force_numeric={fnum})")
                    equal(list(zip(*m.tx(ex0=ex0, exoff=exoff, add_now=add_now, force_numeric=fnum))), [(b, a) for a, b in exp], "tx()")
    xd = L.ref.xd(t)
    for ex0 in (False, True):
        x, d = m.xduration(ex0=ex0)
        tot = {}
        for a, b in zip(x, d):
            tot[a] = tot.get(a, 0) + b
        exp = {}
        for a, b in xd:
            a = numeric(a)
            if not (ex0 and a == 0):
                exp[a] = exp.get(a, 0) + b
        for a in set(tot) | set(exp):
            close(tot.get(a, 0), exp.get(a, 0), f"duration of {a!r} in xduration(ex0={ex0})")


def run_case(case):
    fresh()
    env = sim.Environment(trace=False, yieldless=True, **animation(case))
    t = case["pre"]
    env.run(t)
    offset = 0
    L = Level(env, t, case["kind"], case["initial"], case["on"])
    labels = set()
    moments = []
    for o in case["ops"] + [["query"]]:
        if o[0] == "tally":
            if moments and moments[-1] == t:
                labels.add("same time")
            moments.append(t)
            L.tally(t, o[1], o[2])
        elif o[0] == "run":
            env.run(o[1])
            t += o[1]
        elif o[0] == "monitor":
            equal(L.monitor(t, o[1]), o[1], "result of monitor()")
            labels.add("monitor")
        elif o[0] == "reset":
            L.reset(t, o[1])
            labels.add("reset")
        elif o[0] == "reset_now":
            env.reset_now(o[1])
            offset = t - o[1]
        elif o[0] == "query":
            verify(L, t, offset)
    if labels and len({x for x in moments if x < t}) >= 3:
        labels.add("nontrivial")
    return list(labels) + [case["kind"]]


FACETS = [Facet("history", animated(strategy), run_case, quick=3500)]
