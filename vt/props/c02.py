from ..core import Facet
from ..drive import against_model
from ..gen import *

PROPERTY = "C02"
RULE = "at least 4 process control operations on a component by another one (or main), of at least 2 kinds"
ASSUMPTIONS = ["at most 5 (+4 created) components and 120 operations per model", "operations that salabim documents as an error in the actual status are not generated"]

N = 4
any_ = st.integers(0, N)
script = weighted(
    (6, op("hold", st.just(0), dur, prio, urgent)),
    (1, op("holdtill", any_, dur, prio, urgent)),
    (2, st.just(["passivate", 0])),
    (1, op("passivate", any_)),
    (3, op("activate", any_, dur, prio, urgent, st.sampled_from([None, None, "process", "alt"]))),
    (1, op("activate", any_, dur, prio, urgent, st.sampled_from([None, "alt"]), dur)),
    (1, op("cancel", any_)),
    (1, op("standby", any_)),
    (3, op("interrupt", any_)),
    (3, op("resume", any_, bools, prio, urgent)),
    (1, op("holdi", any_, dur, st.integers(1, 2))),
    (1, op("hold", any_, dur, prio, urgent)),
    (1, op("rd", any_, dur, prio, urgent)),
    (1, op("mode", any_, st.sampled_from(["a", "b", 1]))),
    (1, op("create", st.integers(0, N - 1))),
    (1, op("mainact", st.sampled_from([0, 0, 1]))),
)
others_ = weighted(
    (3, op("activate", others(N), dur, prio, urgent, st.sampled_from([None, None, "process", "alt"]))),
    (2, op("interrupt", others(N))),
    (2, op("resume", others(N), bools, prio, urgent)),
    (1, op("passivate", others(N))),
    (1, op("cancel", others(N))),
    (1, op("standby", others(N))),
    (1, op("hold", others(N), dur, prio, urgent)),
    (1, op("rd", others(N), dur, prio, urgent)),
)
models = model(comp(weighted((3, script), (1, others_)), alt=script, data=st.sampled_from([False, False, False, True]), start=st.sampled_from([None, None, None, "alt"])), others_, N)


def run(case):
    d = against_model(case)
    c = d.counters
    kinds = [k for k in c if k.startswith("other.")]
    labels = [case["mode"]] + [k for k in c if k in ("interrupt", "resume", "standby", "cancel", "passivate", "holdi", "rd", "other.activate")]
    if sum(c[k] for k in kinds) >= 4 and len(kinds) >= 2:
        labels.append("nontrivial")
    return labels


FACETS = [Facet("model", models, run, quick=3200)]
