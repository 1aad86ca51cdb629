import io
import random

from ..core import Facet, check, equal, fail
from ..drive import Driver, diff_logs, fresh, sim
from ..gen import *
from ..mixed import mixed

PROPERTY = "C19"
RULE = "the model did at least 10 process steps over at least 2 moments in time; interleaved: switched at least 3 times between environments"

gens = st.lists(st.tuples(st.sampled_from([0, 1, 2, 3, 9]), st.integers(1, 5), st.sampled_from([None, 0, 1, 2.5]), st.booleans()).map(list), max_size=2)
gens_no_spread = st.lists(st.tuples(st.sampled_from([0, 1, 2, 3]), st.integers(1, 5), st.sampled_from([None, 0, 1, 2.5]), st.booleans()).map(list), max_size=2)
linenos = st.sampled_from([False] * 20 + [True])  # tracing with line numbers is slow


def outcome(d, out):
    return [d.log, d.statistics(), [(m.name(), m.mean(), list(m.xt()[0]), list(m.xt()[1])) for m in monitors(d)], out.getvalue()]


def monitors(d):
    for c in d.allcomps:
        yield c.mode
    for r in d.res:
        yield from (r.claimed_quantity, r.available_quantity, r.capacity, r.occupancy)
        yield from (r.requesters().length, r.claimers().length, r.requesters().length_of_stay)
    for s in d.stores:
        yield s.length
    for s in d.states:
        yield s.value


def compare(a, b, what):
    diff_logs(a[0], b[0], "first run", what)
    for (name, x), (name2, y) in zip(a[1], b[1]):
        equal((name2, y), (name, x), f"statistics in {what}")
    equal(b[2], a[2], f"monitors in {what}")
    check(a[3] == b[3], f"trace differs in {what}", *next(((x, y) for x, y in zip(a[3].splitlines(), b[3].splitlines()) if x != y), ("length",)))


class Numpy(Driver):
    """some of the distributions sample with numpy"""

    def make_dists(self, lib, k):
        import numpy

        if not self.case["numpy"]:
            return super().make_dists(lib, k)
        return [lib.External(numpy.random.exponential, scale=1.5, env=k["env"]), lib.Uniform(0, 2, **k), lib.Poisson(2, prefer_numpy=True), lib.Exponential(1, **k)]


def single(case, **kw):
    out = io.StringIO()
    d = Numpy(sim, case, mode=case["mode"], trace=out, linenos=case["linenos"], env_kwargs=dict(random_seed=case["seed"]), **kw)
    d.execute()
    return d, outcome(d, out)


def nontrivial(d):
    return sum(e[0] == "op" for e in d.log) >= 10 and d.env.now() > 0 and len({e[-1][0][1] for e in d.log if e[0] == "op"}) >= 2


def twice(case):
    fresh()
    d1, a = single(case)
    other = dict(case["other"], mode=case["other"]["mode"])
    labels = [case["mode"]]
    for i, _ in enumerate(Driver(sim, other, mode=other["mode"], trace=io.StringIO(), linenos=False, env_kwargs=dict(random_seed=case["seed"] + 1)).steps()):
        if i >= case["cut"]:  # left unfinished
            labels.append("other model left unfinished")
            break
    if case["reset"]:
        sim.reset()
    d2, b = single(case)
    compare(a, b, "second run")
    return labels + (["nontrivial"] if nontrivial(d1) else [])


def interleaved(case):
    fresh()
    models = [case["a"], case["b"]]
    models[1] = dict(models[1], mode=models[0]["mode"])
    alone = []
    for c in models:
        out = io.StringIO()
        d = Driver(sim, c, mode=c["mode"], trace=out, linenos=case["linenos"], randomstream=random.Random(c["seed"]))
        d.execute()
        alone.append(outcome(d, out))
    fresh()
    outs = [io.StringIO(), io.StringIO()]
    ds = []
    its = []
    for c, out in zip(models, outs):
        if case["lazy"] and ds:  # the first one already did something when the second is created
            next(its[0], None)
        ds.append(Driver(sim, c, mode=c["mode"], trace=out, linenos=case["linenos"], randomstream=random.Random(c["seed"])))
        its.append(ds[-1].steps())
    if case["third"]:
        sim.Environment()
    switches = 0
    last = None
    for i in case["order"]:
        if i != last:
            switches += 1
        last = i
        next(its[i], None)
    for it in its:
        for _ in it:
            pass
    for i, what in enumerate(("first", "second")):
        compare(alone[i], outcome(ds[i], outs[i]), f"the {what} environment, interleaved with another one")
    return [models[0]["mode"]] + (["nontrivial"] if switches >= 3 and all(nontrivial(d) for d in ds) else [])


FACETS = [
    Facet("twice", mixed(gens=gens).flatmap(lambda c: st.fixed_dictionaries(dict(linenos=linenos, other=mixed(gens=gens), cut=st.integers(0, 8), reset=st.booleans(), numpy=st.booleans())).map(lambda o: {**c, **o})), twice, quick=640),
    Facet(
        "interleaved",
        st.fixed_dictionaries(dict(linenos=linenos, a=mixed(gens=gens_no_spread), b=mixed(gens=gens_no_spread), order=st.lists(st.integers(0, 1), min_size=6, max_size=20), lazy=st.booleans(), third=st.booleans())),
        interleaved, quick=640,
    ),
]
