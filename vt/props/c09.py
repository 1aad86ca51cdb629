from .. import invariants
from ..core import Facet
from ..drive import against_model
from ..gen import *
from .c06 import labels_of

PROPERTY = "C09"
RULE = "at least one put or get had to wait and at least 3 were honored"

N = 5
R = st.integers(0, 1)
qty = st.sampled_from([1, 1, 1, 2, 3, 0.5, 4, 0.1, 0.3])
any_ = st.integers(0, N)
specs = st.lists(weighted((1, st.tuples(R)), (3, st.tuples(R, qty)), (2, st.tuples(R, qty, rprio))).map(list), min_size=1, max_size=2)
# the same resource only once in a put or get
specs = specs.filter(lambda l: len({x[0] for x in l}) == len(l))
kw = with_fail(request_priority=rprio, oneof=bools)
script = weighted(
    (5, op("get", st.just(0), specs, kw)), (5, op("put", st.just(0), specs, kw)), (4, op("hold", st.just(0), dur)),
    (1, op("rrelease", R, st.none() | qty)), (1, op("setcap", R, st.sampled_from([3, 4, 6]))),
    (1, op("cancel", any_)), (1, op("passivate", any_)), (1, op("activate", any_, dur)), (1, op("keep", any_, st.sampled_from([0, 0.5, 1, 2, 3, 99]), st.integers(0, 2), prio, urgent)),
    (1, op("get", others(N), specs, kw)),
)
main_ops = weighted((2, op("rrelease", R, st.none() | qty)), (1, op("activate", others(N), dur)), (1, op("put", others(N), specs, kw)))
res = st.lists(
    st.fixed_dictionaries(dict(cap=st.sampled_from([2, 3, 4, 5]), init=st.sampled_from([0, 0, 1, 2]), anon=st.just(True)), optional=dict(first=bools, high=bools)), min_size=2, max_size=2
)
models = model(comp(script), main_ops, N, res=res, capchange=st.just(True))


def hooks(driver):
    invariants.resources(driver)
    invariants.no_lost_request(driver)


def run(case):
    return labels_of(case, against_model(case, hooks=hooks)) + [k for k in ("first", "high") if any(r.get(k) for r in case["res"])]


FACETS = [Facet("model", models, run, quick=3000)]
