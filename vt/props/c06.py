from .. import invariants
from ..core import Facet
from ..drive import against_model
from ..gen import *

PROPERTY = "C06"
RULE = "at least one request had to wait and at least 3 were honored"

N = 5
qty = st.sampled_from([1, 1, 1, 2, 3, 0.5, 4, 0.1, 0.3])
R = st.integers(0, 2)
spec = weighted((2, st.tuples(R)), (4, st.tuples(R, qty)), (2, st.tuples(R, qty, rprio))).map(list)
any_ = st.integers(0, N)
request = op("request", st.just(0), st.lists(spec, min_size=1, max_size=3), with_fail(request_priority=rprio, oneof=bools, urgent=bools, priority=prio))
release = weighted(
    (2, op("release", st.just(0), st.just([]))),
    (3, op("release", selfish(N, 3), st.lists(weighted((1, st.tuples(R)), (3, st.tuples(R, qty))).map(list), min_size=1, max_size=2))),
)
disturb = weighted(
    (2, op("cancel", any_)), (1, op("passivate", any_)), (1, op("activate", any_, dur, prio, urgent)), (1, op("standby", any_)), (1, op("keep", any_, st.sampled_from([0, 0.5, 1, 2, 3, 99]), st.integers(0, 2), prio, urgent)),
    (1, op("interrupt", any_)), (1, op("resume", any_, bools)), (1, op("request", others(N), st.lists(spec, min_size=1, max_size=2), with_fail(oneof=bools))), (1, op("rrelease", R, st.none())),
)
hold = op("hold", st.just(0), dur, prio)
steps = [(4, block(request, hold, release)), (3, block(request)), (3, block(hold)), (2, block(release)), (1, block(disturb))]
script = blocks(*steps)
main_ops = weighted((4, disturb), (4, release), (1, op("rrelease", R, st.none())))
res = st.lists(
    st.fixed_dictionaries(dict(cap=st.sampled_from([1, 1, 2, 2, 3, 5, 0.9, 0])), optional=dict(first=bools, high=bools, pre=st.sampled_from([False, False, True]))), min_size=1, max_size=3
)
models = model(comp(script, flat=False), main_ops, N, res=res)
cap = op("setcap", R, st.sampled_from([0, 0.5, 1, 2, 3, 4, 10]))
models_cap = model(comp(blocks(*steps, (1, block(cap))), flat=False), weighted((1, main_ops), (2, cap)), N, res=res, capchange=st.just(True))


# quantities that have no exact binary representation, with many partial releases
q2 = st.sampled_from([0.1, 0.1, 0.2, 0.3, 0.7, 0.6])
rspecs = st.lists(st.tuples(R, q2).map(list), min_size=1, max_size=2)
req2 = op("request", st.just(0), rspecs, with_fail(request_priority=rprio, oneof=bools))
rel2 = weighted((4, op("release", st.just(0), rspecs)), (1, op("release", st.just(0), st.just([]))))
res2 = st.lists(st.fixed_dictionaries(dict(cap=st.sampled_from([0.3, 0.6, 0.7, 0.9, 1]))), min_size=1, max_size=2)
models_round = model(comp(blocks((5, block(req2)), (5, block(rel2)), (3, block(hold)), min_size=4, max_size=9), flat=False), op("release", others(N), rspecs), N, res=res2)


def labels_of(case, d):
    c = d.counters
    waited = any(comp_[1] == "requesting" for e in d.log if e[0] == "op" for comp_ in e[3] if comp_[0][0] in "cn")
    labels = [case["mode"]] + [k for k in ("failed", "honored", "setcap", "cancel") if c[k]]
    if waited:
        labels.append("waited")
        if c["honored"] >= 3:
            labels.append("nontrivial")
    return labels


def run(case):
    return labels_of(case, against_model(case, hooks=invariants.resources))


FACETS = [Facet("model", models, run, quick=2000), Facet("capacity", models_cap, run, quick=1200), Facet("rounding", models_round, run, quick=1000)]
