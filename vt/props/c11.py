from .. import invariants
from ..core import Facet
from ..drive import against_model
from ..gen import *

PROPERTY = "C11"
RULE = "at least one wait had to wait and at least 2 waits were honored"

N = 5
S = st.integers(0, 2)
any_ = st.integers(0, N)
val = st.integers(0, 3)
cond = st.one_of(
    st.tuples(st.just("eq"), val), st.tuples(st.just("expr"), st.sampled_from(["> 1", "==2", "< 1", "!=0", "> 2"])), st.tuples(st.just("fn"), st.integers(1, 3))
).map(list)
spec = weighted((1, st.tuples(S)), (4, st.tuples(S, cond)), (2, st.tuples(S, cond, rprio))).map(list)
kw = with_fail(request_priority=rprio, priority=prio, urgent=bools, all=bools)
wait = op("wait", st.just(0), st.lists(spec, min_size=1, max_size=3), kw)
waitfor = op("waitfor", st.just(0), st.lists(S, min_size=1, max_size=3), st.integers(1, 5), with_fail(request_priority=rprio, priority=prio, urgent=bools))
change = weighted((5, op("set", S, val)), (1, op("resetst", S, val)), (3, op("trigger", S, val, st.none() | val, st.sampled_from([None, None, 1, 1, 2, 0]))))
misc = weighted((1, op("cancel", any_)), (1, op("passivate", any_)), (1, op("activate", any_, dur)), (1, op("standby", any_)), (1, op("keep", any_, st.sampled_from([0, 0.5, 1, 2, 3, 99]), st.integers(0, 2), prio, urgent)), (1, op("wait", others(N), st.lists(spec, min_size=1, max_size=2), kw)))
hold = op("hold", st.just(0), dur)
script = blocks((4, block(wait)), (1, block(waitfor)), (5, block(change)), (4, block(hold)), (1, block(misc)), max_size=8)
states = st.lists(val, min_size=1, max_size=3)
models = model(comp(script, flat=False), weighted((3, change), (1, misc)), N, states=states)


def run(case):
    d = against_model(case, hooks=invariants.states)
    c = d.counters
    waited = any(x[1] == "waiting" for e in d.log if e[0] == "op" for x in e[3] if x[0][0] in "cn")
    labels = [case["mode"]] + [k for k in ("failed", "honored", "trigger", "waitfor", "other.wait") if c[k]]
    if waited and c["honored"] >= 2:
        labels.append("nontrivial")
    return labels


FACETS = [Facet("model", models, run, quick=3200)]
