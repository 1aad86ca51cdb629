from ..core import Facet
from ..drive import against_model
from ..gen import *

PROPERTY = "C03"
RULE = "at least two different components were in standby and at least 4 standby operations took place"

N = 5
any_ = st.integers(0, N)
script = weighted(
    (5, op("hold", st.just(0), dur, prio, urgent)),
    (6, st.just(["standby", 0])),
    (1, st.just(["passivate", 0])),
    (1, op("activate", any_, dur, prio, urgent)),
    (1, op("cancel", any_)),
    (1, op("standby", any_)),
    (1, op("skip", any_, bools)),
    (1, op("passivate", any_)),
)
main_ops = weighted((2, op("activate", others(N), dur, prio, urgent)), (1, op("standby", others(N))), (1, op("skip", others(N), bools)), (1, op("cancel", others(N))))
models = model(comp(script, skip=st.sampled_from([False, False, True])), main_ops, N)


def run(case):
    d = against_model(case)
    who = {c[0] for e in d.log if e[0] == "op" for c in e[3] if c[1] == "standby"}
    labels = [case["mode"]]
    if d.counters["standby"] >= 4 and len(who) >= 2:
        labels.append("nontrivial")
    return labels


FACETS = [Facet("model", models, run, quick=3200)]
