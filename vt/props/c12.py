from ..core import Facet, check
from ..drive import against_model
from ..gen import *

PROPERTY = "C12"
RULE = "at least one failed and at least one honored request/wait/store operation that had a time limit"

N = 5
I = st.integers(0, 1)
any_ = st.integers(0, N)


def limit(**options):
    return st.tuples(kwargs(**options), st.sampled_from(["delay", "delay", "at"]), st.sampled_from([0, 0.5, 1, 1, 2, 3])).map(lambda x: {**x[0], "fail_" + x[1]: x[2]})


ks = dict(request_priority=rprio, urgent=bools)
ops = [
    op("request", st.just(0), st.lists(st.tuples(I, st.sampled_from([1, 1, 2])).map(list), min_size=1, max_size=2), limit(**ks, oneof=bools, priority=prio)),
    op("wait", st.just(0), st.lists(st.tuples(I, st.tuples(st.just("eq"), st.integers(0, 2)).map(list)).map(list), min_size=1, max_size=2), limit(**ks, all=bools, priority=prio)),
    op("waitfor", st.just(0), st.lists(I, min_size=1, max_size=2), st.integers(1, 3), limit(**ks, priority=prio)),
    op("from", st.just(0), st.lists(I, min_size=1, max_size=2), limit(**ks, fail_priority=prio)),
    op("to", st.just(0), st.lists(I, min_size=1, max_size=2), limit(**ks, fail_priority=prio)),
]
change = weighted((3, op("set", I, st.integers(0, 2))), (2, op("release", any_, st.just([]))), (2, op("enter", I, st.none())), (2, op("leave", I, st.integers(0, 3))), (1, op("trigger", I, st.integers(0, 2), st.none(), st.none())))
disturb = weighted((1, op("cancel", any_)), (2, op("passivate", any_)), (2, op("activate", any_, dur)), (1, op("standby", any_)), (1, op("keep", any_, st.sampled_from([0, 0.5, 1, 2, 3, 99]), st.integers(0, 2), prio, urgent)), (1, op("rd", any_, dur)), (1, op("hold", any_, dur)))
script = blocks(*[(2, block(o)) for o in ops], (5, block(op("hold", st.just(0), dur))), (5, block(change)), (1, block(disturb)), max_size=8)
models = model(
    comp(script, flat=False), weighted((3, change), (1, disturb)), N,
    res=st.lists(st.fixed_dictionaries(dict(cap=st.sampled_from([1, 2])), optional=dict(first=bools)), min_size=2, max_size=2),
    states=st.lists(st.integers(0, 2), min_size=2, max_size=2),
    stores=st.lists(st.fixed_dictionaries(dict(cap=st.sampled_from([1, 2]))), min_size=2, max_size=2),
)


def run(case):
    d = against_model(case)
    c = d.counters
    # independent of the model: control comes back at the latest at the fail time, and failed() tells what happened
    labels = [case["mode"]] + [k for k in ("failed", "honored", "request", "wait", "waitfor", "from", "to") if c[k]]
    if c["failed"] and c["honored"]:
        labels.append("nontrivial")
    return labels


FACETS = [Facet("model", models, run, quick=3200)]
