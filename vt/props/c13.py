import salabim as sim
from hypothesis import strategies as st

from ..core import Facet, check, close, equal
from ..drive import animated, animation, fresh
from ..gen import op, weighted
from ..stats import compare, numeric

PROPERTY = "C13"
RULE = "at least three tallies with at least two different values, and at least one of: zero, weight other than 1, monitor off, reset"

ints = st.integers(-5, 9)
RANGES = {"bool": st.booleans(), "int8": st.integers(-127, 127), "uint8": st.integers(0, 254), "int16": st.integers(-300, 300), "uint16": st.integers(0, 65534), "int32": ints, "uint32": st.integers(0, 10**6), "int64": ints, "uint64": st.integers(0, 9)}
grid = st.integers(-16, 40).map(lambda i: i / 4)
floats = st.one_of(grid, grid, ints, st.floats(-1e6, 1e6, allow_nan=False).map(lambda x: round(x, 6)))
anys = st.one_of(ints, grid, st.sampled_from(["1", "2.5", "0", "abc", "", "x", True, False, None, "-3"]))
RANGES.update(float=floats, double=floats, any=anys, num=floats)
weights = st.sampled_from([1, 1, 1, 1, 2, 0.5, 3, 0.25, 0])


def ops_for(kind):
    value = RANGES[kind]
    tally = op("tally", value, st.just(1))
    return st.lists(
        weighted((10, tally), (3, op("tally", value, weights)), (2, op("run", st.sampled_from([0.5, 1, 2]))), (1, op("monitor", st.booleans())), (1, op("reset", st.none() | st.booleans())), (3, st.just(["query"])), (1, op("reset_now", st.sampled_from([0, 5])))),
        min_size=6, max_size=30,
    )


def cases(kind):
    return st.fixed_dictionaries(dict(kind=st.just(kind), ops=ops_for(kind), fill=st.just([]) | st.lists(RANGES[kind], max_size=4), monitor=st.sampled_from([True, True, True, False])))


strategy = st.sampled_from(["num", "any", "float", "bool", "num", "any", "float", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "double"]).flatmap(cases)


def run_case(case):
    fresh()
    env = sim.Environment(trace=False, yieldless=True, **animation(case))
    kind = "any" if case["kind"] == "num" else case["kind"]
    m = sim.Monitor("m", type=kind, fill=case["fill"] or None, monitor=case["monitor"])
    data = [(0, x, 1) for x in case["fill"]]
    on = case["monitor"]
    t = 0
    labels = set()
    for o in case["ops"] + [["query"]]:
        if o[0] == "tally":
            if o[2] == 1:
                m.tally(o[1])
            else:
                m.tally(o[1], weight=o[2])
                labels.add("weight")
            if on:
                data.append((t, o[1], o[2]))
        elif o[0] == "run":
            env.run(o[1])
            t += o[1]
        elif o[0] == "reset_now":
            env.reset_now(o[1])
        elif o[0] == "monitor":
            equal(m.monitor(o[1]), o[1], "result of monitor")
            on = o[1]
            labels.add("monitor")
        elif o[0] == "reset":
            m.reset(monitor=o[1])
            data = []
            if o[1] is not None:
                on = o[1]
            labels.add("reset")
        else:
            verify(m, data, kind, on)
    if any(x == 0 for _, x, _ in data):
        labels.add("zero")
    if len(data) >= 3 and len({repr(x) for _, x, _ in data}) >= 2 and labels:
        labels.add("nontrivial")
    return list(labels) + [kind]


def verify(m, data, kind, on):
    weighted = any(w != 1 for _, _, w in data)
    xw = [(numeric(x), w) for _, x, w in data]
    equal(m.monitor(), on, "monitor")
    zero = any(w == 0 for _, _, w in data)
    interpolations = ("linear", "lower", "higher", "midpoint") + (() if weighted else ("nearest",))
    if zero:
        zero_compare(m, xw)
    else:
        compare("m", m, xw, weighted, interpolations=interpolations)
    raw = [x for _, x, _ in data]
    num = [numeric(x) for x in raw]
    fn = kind != "any"
    for ex0 in (False, True):
        keep = [i for i, x in enumerate(num) if not ex0 or x != 0]
        equal(list(m.x(ex0=ex0)), [num[i] for i in keep], f"x(ex0={ex0})")
        x, w = m.xweight(ex0=ex0)
        equal(list(x), [num[i] for i in keep], f"x of xweight(ex0={ex0})")
        equal(list(w), [data[i][2] for i in keep], f"weight of xweight(ex0={ex0})")
        keep = [i for i, x in enumerate(raw) if not ex0 or x != 0]
        equal(list(m.x(ex0=ex0, force_numeric=False)), [raw[i] for i in keep], f"x(ex0={ex0}, force_numeric=False)")
        x, t = m.xt(ex0=ex0, force_numeric=False)
        equal(list(x), [raw[i] for i in keep], f"x of xt(ex0={ex0}, force_numeric=False)")
        equal(list(t), [data[i][0] for i in keep], f"t of xt(ex0={ex0}, force_numeric=False)")
        t, x = m.tx(ex0=ex0, force_numeric=False)
        equal((list(x), list(t)), ([raw[i] for i in keep], [data[i][0] for i in keep]), f"tx(ex0={ex0})")
    x, t = m.xt()
    equal((list(x), list(t)), (num, [d[0] for d in data]), "xt()")
    for v in raw[:6] + [77777]:
        equal(m.value_number_of_entries(v), raw.count(v), f"value_number_of_entries({v!r})")
        close(m.value_weight(v), sum(w for _, x, w in data if x == v), f"value_weight({v!r})")
    pair = raw[:2]
    if pair:
        equal(m.value_number_of_entries(pair), sum(1 for x in raw if x in pair), f"value_number_of_entries({pair!r})")
        close(m.value_weight(pair), sum(w for _, x, w in data if x in pair), f"value_weight({pair!r})")
    several = tuple(raw[-5:])
    if several:
        equal(m.value_number_of_entries(several), sum(1 for x in raw if x in several), f"value_number_of_entries({several!r})")
        close(m.value_weight(several), sum(w for _, x, w in data if x in several), f"value_weight({several!r})")
    for lb in num[:2] + [-1]:
        for ub in num[-2:] + [float("inf")]:
            equal(m.bin_number_of_entries(lb, ub), sum(1 for x in num if lb < x <= ub), f"bin_number_of_entries({lb}, {ub})")
            close(m.bin_weight(lb, ub), sum(w for x, w in xw if lb < x <= ub), f"bin_weight({lb}, {ub})")


def zero_compare(m, xw):
    """weights 0: percentiles are not checked"""
    from ..stats import mean, nan, std

    for ex0 in (False, True):
        d = [(x, w) for x, w in xw if not ex0 or x != 0]
        equal(m.number_of_entries(ex0=ex0), len(d), "number_of_entries")
        close(m.weight(ex0=ex0), sum(w for x, w in d), "weight")
        close(m.mean(ex0=ex0), mean(d), "mean")
        close(m.std(ex0=ex0), std(d), "std", 1e-7, 1e-6)
        close(m.minimum(ex0=ex0), min([x for x, w in d], default=nan), "minimum")
        close(m.maximum(ex0=ex0), max([x for x, w in d], default=nan), "maximum")


FACETS = [Facet("tally", animated(strategy), run_case, quick=4000)]
