from .. import invariants
from ..core import Facet
from ..drive import against_model
from ..gen import *
from .c06 import R, labels_of, release, spec

PROPERTY = "C07"
RULE = "at least one request had to wait and at least 3 were honored"

N = 6
any_ = st.integers(0, N)
request = op("request", st.just(0), st.lists(spec, min_size=1, max_size=3), kwargs(request_priority=rprio, oneof=bools))
frequest = op("request", st.just(0), st.lists(spec, min_size=1, max_size=3), with_fail(request_priority=rprio, oneof=bools))
disturb = weighted((1, op("cancel", any_)), (2, op("passivate", any_)), (1, op("activate", any_, dur)), (1, op("keep", any_, st.sampled_from([0, 0.5, 1, 2, 3, 99]), st.integers(0, 2))), (1, op("rrelease", R, st.none())))
hold = op("hold", st.just(0), posdur)
req = weighted((3, request), (1, frequest))
rel = st.just(["release", 0, []])
script = blocks(
    (6, block(req, hold, rel)), (2, block(req, hold, release, hold, rel)), (2, block(req, hold)), (1, block(op("setcap", R, st.sampled_from([1, 2, 3])))), (1, block(disturb)), (1, block(op("hold", st.just(0), dur)))
)
res = st.lists(st.fixed_dictionaries(dict(cap=st.sampled_from([1, 1, 2, 2, 3])), optional=dict(first=bools, high=bools)), min_size=1, max_size=3)
models = model(comp(script, flat=False), weighted((1, release), (1, disturb)), N, resets=False, res=res, capchange=st.just(True))


def hooks(driver):
    invariants.no_lost_request(driver)
    invariants.request_order(driver)


def run(case):
    return labels_of(case, against_model(case, hooks=hooks)) + [k for k in ("first", "high") if any(r.get(k) for r in case["res"])]


FACETS = [Facet("model", models, run, quick=3000)]
