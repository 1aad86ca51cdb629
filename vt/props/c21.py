import io
import re

from ..core import Facet
from ..drive import Driver, fresh, sim
from ..gen import *
from ..mixed import mixed
from .c19 import compare, gens, nontrivial, outcome

PROPERTY = "C21"
RULE = "the model did at least 10 process steps, over at least 2 moments in time"


def run(case):
    results = []
    for mode in ("yieldless", "yield"):
        fresh()
        out = io.StringIO()
        d = Driver(sim, case, mode=mode, trace=out, linenos=False, env_kwargs=dict(random_seed=case["seed"]))
        d.execute()
        o = outcome(d, out)
        o[3] = re.sub(r"process=do_\w+", "process=...", o[3])  # internal process names of component generators
        results.append(o)
    compare(*results, "yield mode")
    kinds = {e[2] for e in d.log if e[0] == "back"}
    return list(kinds) + (["nontrivial"] if nontrivial(d) else [])


FACETS = [Facet("modes", mixed(gens=gens), run, quick=1600)]
