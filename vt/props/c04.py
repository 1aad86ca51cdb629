from ..core import Facet
from ..queues import *

PROPERTY = "C04"
RULE = "at least one relative or sorted entry, at least one change of priority or departure, and at least four components in a queue"

ops = st.lists(weighted((1, nop), (8, enter), (4, position), (4, leave), (4, prio), (1, cap), (3, whole), (2, look), (2, iterate), (1, run), (1, reset_now)), min_size=15, max_size=35)
strategy = st.fixed_dictionaries(dict(queues=st.lists(spec, min_size=2, max_size=3), ops=ops))


def run_case(case):
    w = World(case)
    w.verify()
    most = 0
    for o in case["ops"]:
        w.do(o)
        w.verify()
        most = max([most] + [len(m.l) for m in w.m])
    labels = list(w.labels)
    if most >= 4 and ({"relative", "sorted"} & w.labels) and ({"leave", "priority changed"} & w.labels):
        labels.append("nontrivial")
    return labels


FACETS = [Facet("model", strategy, run_case, quick=3000)]
