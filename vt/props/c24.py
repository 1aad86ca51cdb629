import random

from ..core import Facet, check, close, equal, fail
from ..drive import fresh, sim
from ..gen import *
from .c18 import plausible, ss

PROPERTY = "C24"
RULE = "at least two components generated, and ended by number, till or the last moment"

q = lambda a, b: st.integers(a, b).map(lambda i: i / 4)
iat = st.one_of(st.tuples(st.just("num"), q(1, 12)), st.tuples(st.just("seq"), st.lists(q(0, 10), min_size=1, max_size=4).filter(lambda l: sum(l) > 0)), st.tuples(st.just("dist"), st.integers(0, 99))).map(list)
form = st.sampled_from(["num", "num", "call", "dist"])
common = dict(
    t0=st.sampled_from([0, 0, 2.5, 7]), shift=st.none() | st.sampled_from([0, 100, -3]), mode=st.sampled_from(["yieldless", "yieldless", "yield"]), cls=st.sampled_from(["class", "class", "function", "pdf"]),
    other=st.booleans(), form=form, trace=st.booleans(), kwarg=st.booleans(), cut=st.sampled_from([None] * 12 + [0, 0.25, 2, 4.5, 10]),
)
start = st.one_of(st.just([None, 0]), st.tuples(st.just("at"), q(0, 20)).map(list), st.tuples(st.just("delay"), q(0, 20)).map(list))
iats = st.fixed_dictionaries(
    dict(common, kind=st.just("iat"), start=start, iat=iat, till=st.one_of(st.none(), q(0, 60)), duration=st.booleans(), number=st.one_of(st.none(), st.integers(0, 9)), force_at=st.booleans(),
         disturbance=st.one_of(st.none(), st.none(), st.lists(q(0, 12), min_size=1, max_size=3), st.lists(q(0, 12), min_size=1, max_size=3)))
).filter(lambda c: c["till"] is not None or c["number"] is not None)
spreads = st.fixed_dictionaries(dict(common, kind=st.just("spread"), start=start, till=q(1, 60), duration=st.booleans(), number=st.sampled_from([0, 1, 2, 3, 5, 9, 400]), force_at=st.booleans(), force_till=st.booleans(), seed=st.integers(0, 10**6)))
equis = st.fixed_dictionaries(dict(common, kind=st.just("equidistant"), start=start, till=q(1, 60), duration=st.booleans(), number=st.sampled_from([2, 2, 3, 4, 5, 7, 11, 50])))
momentss = st.fixed_dictionaries(dict(common, kind=st.just("moments"), moments=st.lists(q(0, 60), min_size=1, max_size=8), callable=st.booleans(), container=st.sampled_from(["list", "tuple", "iter"])))
cases = st.one_of(iats, iats, spreads, equis, momentss)


class Seq:
    def __init__(self, values):
        self.values = values
        self.i = -1

    def __call__(self):
        self.i += 1
        return self.values[self.i % len(self.values)]


def make_iat(spec):
    kind, v = spec
    if kind == "num":
        return v
    if kind == "seq":
        return Seq(v)
    return sim.Pdf((0.25, 0.5, 1, 2, 4), 1, randomstream=random.Random(v))


def sampler(x):
    return x if callable(x) else (lambda: x)


def run(case):
    fresh()
    sim.yieldless(case["mode"] == "yieldless")
    env = sim.Environment(trace=False)
    if case["trace"]:
        env.suppress_trace_linenumbers(True)
        import io

        env.trace(io.StringIO())
    other = sim.Environment(trace=False) if case["other"] else None
    env.run(case["t0"])
    if case["shift"] is not None:
        env.reset_now(case["shift"])
    now = env.now()
    log = []
    ends = []

    class Base(sim.Component):
        def setup(self, par=None):
            self.par = par

        if case["mode"] == "yieldless":

            def process(self):
                log.append((self.env.now(), type(self).__name__, self.par, self.env))
                self.hold(0)

        else:

            def process(self):
                log.append((self.env.now(), type(self).__name__, self.par, self.env))
                yield self.hold(0)

    class A(Base):
        pass

    class B(Base):
        pass

    kw = dict(at_end=lambda: ends.append(env.now()))
    if case["other"]:
        kw["env"] = env
    if case["kwarg"]:
        kw["par"] = "p"
    conv = {"num": lambda x: x, "call": lambda x: (lambda: x), "dist": lambda x: sim.Constant(x)}[case["form"]]
    cls = case["cls"]
    if case.get("disturbance") and cls != "class":  # only a class is accepted then
        cls = "class"
    what = {"class": A, "pdf": sim.Pdf((A, 1, B, 1), randomstream=random.Random(5)), "function": lambda **k: A(**k)}[cls]
    kind = case["kind"]
    at = now
    if kind != "moments":
        how, d = case["start"]
        if how == "at":
            at = now + d
            kw["at"] = conv(at)
        elif how == "delay":
            at = now + d
            kw["delay"] = conv(d)
        till = inf
        if case["till"] is not None:
            till = at + case["till"]
            if case["duration"]:  # from the start of the generator
                kw["duration"] = conv(case["till"])
            else:
                kw["till"] = conv(till)
        number = inf
        if case["number"] is not None:
            number = case["number"]
            kw["number"] = conv(number)
    expected = []
    end = None
    tol = 0
    seed = case.get("seed")
    if kind == "iat":
        ref = sampler(make_iat(case["iat"]))
        kw["iat"] = make_iat(case["iat"])
        force = case["force_at"]
        if case["disturbance"]:
            dist = Seq(case["disturbance"])
            kw["disturbance"] = Seq(case["disturbance"]) if len(case["disturbance"]) > 1 or not case["disturbance"][0] else conv(case["disturbance"][0])
        if force:
            kw["force_at"] = True
        if number >= 1:
            if case["disturbance"]:
                t = at
                while True:
                    i = ref()
                    g = t + (0 if force else i) + dist()
                    if g > till:
                        end = max(t, till)
                        break
                    expected.append(g)
                    if len(expected) >= number:
                        end = t
                        break
                    t += i
            else:
                t = at if force else at + ref()
                if t > till:
                    end = till
                else:
                    while True:
                        expected.append(t)
                        if len(expected) >= number:
                            end = t
                            break
                        i = ref()
                        if t + i > till:
                            end = till
                            break
                        t += i
    elif kind == "equidistant":
        kw["equidistant"] = True
        expected = [at + (till - at) * i / (number - 1) for i in range(number)]
        end = till
        tol = 1e-9
    elif kind == "moments":
        ms = [now + m for m in case["moments"]]
        expected = sorted(ms)
        end = expected[-1]
        if case["form"] != "num":
            ms = [conv(m) for m in ms]
        ms = {"list": list, "tuple": tuple, "iter": iter}[case["container"]](ms)
        kw["moments"] = (lambda: ms) if case["callable"] else ms
        number = len(expected)
    else:
        if case["force_at"]:
            kw["force_at"] = True
        if case["force_till"]:
            kw["force_till"] = True
        if case["force_at"] and case["force_till"] and number == 1:
            kw.pop("force_till")
        sim.random_seed(seed)
    gen = sim.ComponentGenerator(what, **kw)
    check(not log, "components are generated at the moment of creation of the generator")
    cut = case["cut"]
    if cut is not None:  # the generator is stopped
        env.run(cut)
        gen.cancel()
        env.run(300)
        if kind != "spread":
            before = [t for t in expected if t <= now + cut + 1e-9]
            if case.get("disturbance"):
                before = None  # components are created (and activated) before they really start
            if kind == "equidistant" and any(abs(t - now - cut) < 1e-6 for t in expected):
                before = None  # rounding decides
            if before is not None:
                close([x[0] for x in log], before, "moments of generation of a cancelled generator", abs_=1e-9)
        return [kind, "cancelled"]
    env.run(4000)
    got = [x[0] for x in log]
    if case.get("disturbance"):
        expected.sort()
    if kind == "spread":
        equal(len(got), number, "number of components generated")
        for t in got:
            check(at <= t <= till, f"component generated at {t}, outside {at} - {till}")
        if number:
            if "force_at" in kw:
                close(got[0], at, "first component (force_at)")
            if "force_till" in kw:
                close(got[-1], till, "last component (force_till)")
            if number >= 100:
                plausible(got, ss.uniform(at, till - at), "spread of generated components")
            end = got[-1]
    else:
        if tol:
            close(got, expected, f"moments of generation ({kind})")
        else:
            equal(got, expected, f"moments of generation ({kind})")
    for _, c, par, e in log:
        check(e is env, "component is generated in another environment")
        equal(par, "p" if case["kwarg"] else None, "parameter of generated component")
        if cls != "pdf":
            equal(c, "A", "class of generated component")
    if cls == "pdf" and log:
        ref = sim.Pdf((A, 1, B, 1), randomstream=random.Random(5))
        names = [ref().__name__ for _ in log]
        equal([x[1] for x in log], names, "classes of generated components")
    if number >= 1:
        close(ends, [end], f"moments that at_end is called ({kind})")
    equal(gen.status(), "data", "status of the generator after its end")
    if case["other"]:
        check(sim.default_env() is other, "default environment is changed by a generator")
    return [kind, cls, case["mode"]] + (["disturbance"] if case.get("disturbance") else []) + (["nontrivial"] if len(got) >= 2 else [])


REFUSED = [
    dict(at=1, delay=1, iat=1), dict(till=1, duration=1, iat=1), dict(number=-1, iat=1), dict(number=3), dict(till=3), dict(at=5, till=3, iat=1), dict(iat=1, force_till=True, number=3), dict(equidistant=True, number=1, till=3), dict(equidistant=True, number=3),
    dict(equidistant=True, number=3, till=3, iat=1), dict(number=1, till=3, force_at=True, force_till=True), dict(number=3, till=3, disturbance=1), dict(moments=[1], number=3), dict(moments=[1], at=3), dict(moments=[1], iat=3), dict(moments=[1], till=3),
]


def run_refused(case):
    fresh()
    sim.Environment(trace=False)

    class X(sim.Component):
        pass

    try:
        sim.ComponentGenerator(X, **REFUSED[case["i"]])
    except ValueError:
        return ["nontrivial"]
    fail(f"ComponentGenerator accepts {REFUSED[case['i']]}")


FACETS = [Facet("arrivals", cases, run, quick=4000), Facet("refused", st.fixed_dictionaries(dict(i=st.integers(0, len(REFUSED) - 1))), run_refused, quick=48)]
