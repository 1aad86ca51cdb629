from ..core import Facet
from ..queues import *
from ..stats import check_level, compare

PROPERTY = "C05"
RULE = "time passed while components were in a queue, at least one departure with a positive length of stay and at least three arrivals in one queue"

run = op("run", st.sampled_from([0.5, 1, 1, 2, 3.25]))
mon = weighted((2, op("monitor", Q, B, st.integers(0, 3))), (2, op("reset", Q, st.none() | B, st.integers(0, 3))))
ops = st.lists(
    weighted((1, nop), (10, enter), (3, position), (7, leave), (3, prio), (2, cap), (2, whole), (8, run), (2, reset_now), (3, mon), (3, op("rate", Q, B, B))), min_size=20, max_size=40
)
strategy = st.fixed_dictionaries(dict(queues=st.lists(spec, min_size=1, max_size=3), ops=ops))


def run_case(case):
    w = World(case)
    for o in case["ops"]:
        w.do(o)
        for q, m in zip(w.q, w.m):  # in between, as statistics are cached
            close(q.length.mean(), m.length and mean_of(m.length, w.t), "mean length")
    from ..stats import mean

    for q, m in zip(w.q, w.m):
        check_level(f"length of {q.name()}", q.length, m.length, w.t, w.offset, qs=(5, 50, 75))
        check_level(f"available quantity of {q.name()}", q.available_quantity, m.avail, w.t, w.offset, minmax=False)
        check_level(f"capacity of {q.name()}", q.capacity, m.capm, w.t, w.offset, minmax=False)
        xw = [(x, 1) for x in m.stay]
        compare(f"length of stay of {q.name()}", q.length_of_stay, xw, False, qs=(5, 50, 75))
        close(list(q.length_of_stay.x()), m.stay, "lengths of stay")
        equal((q.number_of_arrivals, q.number_of_departures), (m.arr, m.dep), "number of arrivals, departures")
        for d, rate, n, what in ((w.t - m.arr_t, q.arrival_rate(), m.arr, "arrival rate"), (w.t - m.dep_t, q.departure_rate(), m.dep, "departure rate")):
            close(rate, n / d if d else nan, what)
        check(q.all_monitors()[0] is q.length and q.all_monitors()[1] is q.length_of_stay, "all_monitors")
        txt = q.print_statistics(as_str=True)
        if len(q.name()) < 20:
            check(f"Length of stay in {q.name()}" in txt and f"Length of {q.name()}" in txt, "print_statistics")
    labels = list(w.labels)
    if any(any(x > 0 for x in m.stay) and m.arr >= 3 for m in w.m) and w.t:
        labels.append("nontrivial")
    return labels


def mean_of(level, t):
    from ..stats import mean

    return mean(level.xw(t))


FACETS = [Facet("history", strategy, run_case, quick=3000)]
