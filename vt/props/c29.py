from ..core import Facet, check, close, equal
from ..drive import animated, animation, fresh
from ..monitors import *
from ..stats import OFF, canonical, compare, numeric, steps_of

PROPERTY = "C29"
RULE = "at least two period boundaries passed and at least three tallies after the creation of a period monitor"

weights = st.sampled_from([1, 1, 1, 2, 0.5])
B = st.booleans()
periods = st.none() | st.lists(st.sampled_from([0.5, 1, 1, 2, 0.25, 3]), min_size=1, max_size=5)


def cases(kind):
    ops = st.lists(
        weighted((1, nop), (8, op("tally", KINDS[kind], weights)), (8, op("run", durations)), (2, op("pm", periods, B)), (1, st.just(["reset"])), (1, op("monitor", B)), (1, op("reset_now", st.sampled_from([0, 7]))), (1, op("remove", st.integers(0, 2)))),
        min_size=8, max_size=30,
    )
    return st.fixed_dictionaries(dict(kind=st.just(kind), level=B, initial=KINDS[kind].filter(lambda v: v is not None), periods=periods, ops=ops, mode=st.sampled_from(["yieldless", "yieldless", "yield"]), other=B))


strategy = kinds.flatmap(cases)


class PM:
    def __init__(self, m, t, periods, named):
        self.periods = periods or [1] * 24
        kw = {} if periods is None else dict(periods=list(periods))
        if named:
            kw["period_monitor_names"] = [f"p{i}" for i in range(len(self.periods))]
        self.pm = sim.PeriodMonitor(m, env=m.env, **kw)
        self.created = t
        self.seq = 0
        cum = 0
        for i, p in enumerate(self.periods):
            equal(self.pm[i].name(), f"p{i}" if named else f"{m.name()}.period [{cum} - {cum + p}]", "name of period monitor")
            cum += p

    def bounds(self, till):
        """list of (period index, from, to)"""
        t = self.created
        i = 0
        result = []
        while t <= till:
            result.append((i, t, t + self.periods[i]))
            t += self.periods[i]
            i = (i + 1) % len(self.periods)
        return result


def run_case(case):
    fresh()
    sim.yieldless(case["mode"] == "yieldless")
    other = sim.Environment(trace=False) if case["other"] else None
    env = sim.Environment(trace=False, **animation(case))
    if case["other"]:
        sim.Environment(trace=False)  # the default environment is not the one of the monitor
    t = 0
    level = case["level"]
    kw = dict(level=True, initial_tally=case["initial"]) if level else {}
    m = sim.Monitor("m", type=type_of(case["kind"]), env=env, **kw)
    hist = [(0, case["initial"])]  # level: values
    data = []
    start = 0
    seq = 0
    switched = False
    pms = [PM(m, 0, case["periods"], False)]
    for o in case["ops"] + [["end"]]:
        seq += 1
        if o[0] == "tally":
            if level:
                m.tally(o[1])
                hist.append((t, o[1]))
            else:
                m.tally(o[1], o[2])
                data.append((t, o[1], o[2], seq))
        elif o[0] == "run":
            env.run(o[1])
            t += o[1]
        elif o[0] == "pm" and len(pms) < 3:
            pms.append(PM(m, t, o[1], o[2]))
            pms[-1].seq = seq
        elif o[0] == "reset":
            m.reset()
            start = t
            data = []
        elif o[0] == "monitor":  # not followed by the monitors of the periods
            m.monitor(o[1])
            switched = True
        elif o[0] == "reset_now":
            env.reset_now(o[1])
        elif o[0] == "remove" and len(pms) > 1:
            pms.pop(o[1] % len(pms)).pm.remove()
    passed = 0
    for p in pms:
        b = p.bounds(t)
        passed = max(passed, len(b) - 1)
        lo = max(start, p.created)
        for i in range(len(p.periods)):
            q = p.pm[i]
            what = f"period {i} of {p.periods}"
            if level:
                seg = []
                for j, a, c in b:
                    if j == i and c > lo:
                        a = max(a, lo)
                        v = [x for tt, x in hist if tt <= a][-1]
                        seg.append((a, v))
                        for tt, x in hist:
                            if a <= tt < min(c, t + 1):
                                seg.append((tt, x))
                        seg.append((c, OFF))
                seg = [(a, v) for a, v in seg if a <= t]
                equal(steps_of(q), canonical(seg), f"history of {what}")
                xw = [(numeric(v), t1 - a) for (a, v), (t1, _) in zip(seg, seg[1:] + [(t, None)]) if v is not OFF]
                compare(what, q, xw, True, level=True, qs=(50,), minmax=False)
            else:
                exp = [(a, x, w) for a, x, w, s in data if s > p.seq and any(j == i and f <= a < g for j, f, g in b)]
                x, tt = q.xt(force_numeric=False)
                equal(list(x), [e[1] for e in exp], f"values of {what}")
                equal(list(tt), [e[0] for e in exp], f"times of {what}")
                equal(list(q.xweight()[1]), [e[2] for e in exp], f"weights of {what}")
        if switched:
            pass
        elif level:
            if p.created <= start:
                close(sum(p.pm[i].duration() for i in range(len(p.periods))), m.duration(), "duration of all periods together")
                close(sum(p.pm[i].duration(ex0=True) for i in range(len(p.periods))), m.duration(ex0=True), "duration (ex0) of all periods together")
        elif all(s > p.seq for _, _, _, s in data):
            equal(sum(p.pm[i].number_of_entries() for i in range(len(p.periods))), m.number_of_entries(), "entries of all periods together")
    n = len(hist) - 1 if level else len(data)
    return [case["mode"], "level" if level else "non level"] + (["nontrivial"] if passed >= 2 and n >= 3 else [])


FACETS = [Facet("periods", animated(strategy), run_case, quick=3000)]
