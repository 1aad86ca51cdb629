from .. import invariants
from ..core import Facet
from ..drive import against_model
from ..gen import *

PROPERTY = "C08"
RULE = "at least one claiming component was bumped"

N = 5
R = st.integers(0, 1)
qty = st.sampled_from([1, 1, 1, 2, 2, 3])
any_ = st.integers(0, N)
p = st.integers(-1, 5)
request = op("request", st.just(0), st.lists(st.tuples(R, qty, p).map(list), min_size=1, max_size=1), with_fail(urgent=bools))
request2 = op("request", st.just(0), st.lists(st.tuples(R, qty).map(list), min_size=1, max_size=1), with_fail(request_priority=p))
release = weighted((1, op("release", st.just(0), st.just([]))), (2, op("release", st.just(0), st.lists(st.tuples(R, qty).map(list), min_size=1, max_size=2))))
hold = op("hold", st.just(0), posdur)
misc = weighted((1, st.just(["passivate", 0])), (2, op("activate", any_, dur)), (1, op("interrupt", any_)), (1, op("cancel", any_)), (2, op("hold", st.just(0), dur)), (1, op("setcap", R, st.integers(1, 4))), (1, op("rrelease", R, st.none())))
req = weighted((3, request), (1, request2))
script = blocks((6, block(req, hold, release)), (3, block(req, hold)), (1, block(req, hold, req, hold)), (2, block(misc)), (1, block(release)))
res = st.lists(st.fixed_dictionaries(dict(cap=st.sampled_from([1, 1, 2, 3, 4]), pre=st.sampled_from([True, True, True, False])), optional=dict(first=bools, high=bools)), min_size=1, max_size=2)
models = model(comp(script, flat=False), weighted((1, release), (1, op("activate", others(N), dur))), N, res=res, capchange=st.just(True))


def hooks(driver):
    invariants.resources(driver)
    invariants.no_lost_request(driver)
    invariants.request_order(driver)


def run(case):
    d = against_model(case, hooks=hooks)
    labels = [case["mode"]]
    if d.env.bumps:
        labels.append("nontrivial")
    if d.env.bumps > 2:
        labels.append("bumped>2")
    return labels


FACETS = [Facet("model", models, run, quick=3000)]
