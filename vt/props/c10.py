from .. import invariants
from ..core import Facet, check
from ..drive import against_model
from ..gen import *

PROPERTY = "C10"
RULE = "at least one from_store or to_store had to wait and at least 3 were honored"

N = 5
S = st.integers(0, 2)
any_ = st.integers(0, N)
limit = st.sampled_from([0, 0.5, 1, 2, 3, 99])
ss = st.lists(S, min_size=1, max_size=3) | st.lists(S, min_size=2, max_size=3)
flt = st.sampled_from([None, None, [2, 0], [2, 1], [3, 1], [5, 3]])
kw_from = with_fail(request_priority=rprio, fail_priority=prio, urgent=bools, filter=flt, key=st.sampled_from([None, 1, -1]))
kw_to = with_fail(request_priority=rprio, fail_priority=prio, urgent=bools, priority=rprio)
enter = op("enter", S, st.none() | rprio)
leave = op("leave", S, st.integers(0, 5))
fromop, toop = op("from", st.just(0), ss, kw_from), op("to", st.just(0), ss, kw_to)
hold = op("hold", st.just(0), dur)
misc = weighted(
    (2, enter), (2, leave), (3, op("scap", S, st.sampled_from([0, 1, 2, 3, None]))), (1, op("rescan", S)), (2, op("gate", st.integers(0, 3))), (1, op("keep", any_, limit, st.integers(0, 2))), (2, op("filter", any_, st.sampled_from([[1, 0], [2, 0], [2, 1], [3, 2]]))),
    (1, op("cancel", any_)), (1, op("passivate", any_)), (1, op("activate", any_, dur)), (1, op("standby", any_)), (1, op("from", others(N), ss, kw_from)), (1, op("to", others(N), ss, kw_to)),
)
script = blocks((4, block(fromop)), (4, block(toop)), (3, block(hold)), (2, block(misc)), max_size=8)
stores = st.lists(st.fixed_dictionaries(dict(cap=st.sampled_from([None, 1, 1, 1, 2, 2, 2, 3, 0]))), min_size=1, max_size=3)
models = model(comp(script, flat=False), misc, N, stores=stores)


# several components wait for items of one store, with filters that depend on something that changes later
fromg = op("from", st.just(0), st.lists(st.integers(0, 1), min_size=1, max_size=2), with_fail(request_priority=rprio, filter=st.sampled_from([[3, 2], [3, 1], [5, 2], [5, 4]]), key=st.sampled_from([None, None, -1])))
gate = op("gate", st.integers(0, 3))
change = weighted((2, enter), (3, gate), (1, op("scap", st.just(0), st.sampled_from([3, None]))), (1, op("filter", others(N), st.sampled_from([[1, 0], [2, 1]]))))
gated = model(
    comp(blocks((6, block(fromg)), (1, block(change)), (1, block(hold)), (1, block(op("to", st.just(0), ss, kw_to))), max_size=4), flat=False), change, N,
    stores=st.lists(st.fixed_dictionaries(dict(cap=st.sampled_from([None, None, 3]))), min_size=1, max_size=2),
    main=st.tuples(st.lists(enter, min_size=2, max_size=5), st.just([["run", 2]]), st.lists(weighted((3, change), (2, op("run", posdur))), min_size=1, max_size=8)).map(lambda x: x[0] + x[1] + x[2]),
)


class Conservation:
    """every item is in exactly one place: no item is lost or duplicated"""

    def __init__(self):
        self.taken = {}

    def __call__(self, driver):
        invariants.stores(driver)
        seen = {}
        for s in driver.stores:
            for item in s:
                check(item.name() not in seen, f"{item.name()} is in {s.name()} and in {seen.get(item.name())}")
                seen[item.name()] = s.name()


def run(case):
    d = against_model(case, hooks=Conservation())
    c = d.counters
    waited = any(x[1] == "requesting" for e in d.log if e[0] == "op" for x in e[3] if x[0][0] in "cn")
    labels = [case["mode"]] + [k for k in ("failed", "honored", "filter", "rescan", "scap", "leave", "enter") if c[k]]
    if waited and c["honored"] >= 3:
        labels.append("nontrivial")
    return labels


FACETS = [Facet("model", models, run, quick=3200), Facet("gated", gated, run, quick=1200)]
