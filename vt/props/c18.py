import collections
import math
import operator
import random

import warnings

import numpy
import scipy.stats as ss

from ..core import Facet, check, close, equal, fail, is_close
from ..drive import fresh, sim
from ..gen import *

warnings.filterwarnings("ignore", category=RuntimeWarning, module="scipy")
PROPERTY = "C18"
RULE = "at least 200 samples of a distribution that is not constant, or a composition of at least two distributions, or a string specification with an abbreviation or time unit"
ASSUMPTIONS = ["frequencies are judged with a Kolmogorov-Smirnov distance with a probability of a false alarm of less than 1e-9 per case, on streams with a fixed seed"]

SECONDS = dict(years=86400 * 365, weeks=86400 * 7, days=86400, hours=3600, minutes=60, seconds=1, milliseconds=1e-3, microseconds=1e-6)
units = st.sampled_from(list(SECONDS))
tu = st.tuples(units, st.none() | units).map(list)  # of the environment, of the distribution
seeds = st.integers(0, 10**6)
pos = st.sampled_from([0.25, 0.5, 1, 1.5, 2, 3, 5, 10, 25])
anyv = st.sampled_from([-10, -2.5, -1, 0, 0.5, 1, 2, 7.25, 20])
probs = st.sampled_from([0, 1, 1, 2, 3, 0.5, 10])


def two(s):
    return st.tuples(s, s).map(lambda x: sorted(x))


BASE = dict(
    Exponential=st.tuples(pos, st.booleans()),
    Normal=st.tuples(anyv, pos, st.sampled_from(["sd", "gauss", "cv", "none"])),
    IntUniform=two(st.integers(-10, 20)),
    Uniform=st.tuples(two(anyv), st.booleans()).map(lambda x: [*x[0], x[1]]),
    Triangular=st.tuples(st.lists(anyv, min_size=3, max_size=3).map(sorted), st.sampled_from(["mode", "mode", "nomode", "one"])).map(lambda x: [*x[0], x[1]]),
    Constant=st.tuples(anyv),
    Poisson=st.tuples(st.sampled_from([0.1, 0.5, 1, 2.5, 7, 20, 60, 500, 745, 900])),
    Weibull=st.tuples(pos, st.sampled_from([0.5, 1, 1.5, 3, 10])),
    Gamma=st.tuples(pos, pos, st.booleans()),
    Beta=st.tuples(pos, pos),
    Erlang=st.tuples(st.integers(1, 5), pos, st.booleans()),
    Cdf=st.lists(st.tuples(st.integers(0, 6), st.sampled_from([0, 1, 2, 4, 0.125, 0.5])), min_size=2, max_size=6).filter(lambda l: sum(x[1] for x in l[1:]) > 0),
)
base = st.sampled_from(sorted(BASE)).flatmap(lambda k: st.tuples(st.just(k), BASE[k].map(list)).map(list))
NO_UNIT = ("Poisson", "Beta")


def factor(t):
    return 1 if t[1] is None else SECONDS[t[1]] / SECONDS[t[0]]


def cdf_points(p):
    x, cum = 0, 0
    result = []
    for i, (dx, dc) in enumerate(p):
        x += dx
        cum += dc if i else 0
        result.append((x, cum))
    return result


def make(spec, **k):
    """(distribution, scipy distribution or (cdf, left limit), mean, support)"""
    kind, p = spec
    if kind == "Exponential":
        m, rate = p
        return sim.Exponential(rate=1 / m, **k) if rate else sim.Exponential(m, **k), ss.expon(scale=m), m, (0, inf)
    if kind == "Normal":
        m, sd, how = p
        if how == "cv" and m <= 0:
            how = "sd"
        if how == "cv":
            return sim.Normal(m, coefficient_of_variation=sd / m, **k), ss.norm(m, sd), m, (-inf, inf)
        if how == "none":
            return sim.Normal(m, **k), m, m, (m, m)
        return sim.Normal(m, sd, use_gauss=how == "gauss", **k), ss.norm(m, sd), m, (-inf, inf)
    if kind == "IntUniform":
        return sim.IntUniform(*p, **k), ss.randint(p[0], p[1] + 1), sum(p) / 2, tuple(p)
    if kind == "Uniform":
        a, b, one = p
        if one or a == b:
            return sim.Uniform(a, **k), a, a, (a, a)
        return sim.Uniform(a, b, **k), ss.uniform(a, b - a), (a + b) / 2, (a, b)
    if kind == "Triangular":
        a, mode, b, how = p
        if a == b:
            return sim.Triangular(a, b, mode, **k), a, a, (a, a)
        if how == "one":
            return sim.Triangular(a, **k), a, a, (a, a)
        if how == "nomode":
            return sim.Triangular(a, b, **k), ss.triang(0.5, a, b - a), (a + b) / 2, (a, b)
        return sim.Triangular(a, b, mode, **k), ss.triang((mode - a) / (b - a), a, b - a), (a + b + mode) / 3, (a, b)
    if kind == "Constant":
        return sim.Constant(p[0], **k), p[0], p[0], (p[0], p[0])
    if kind == "Poisson":
        k = {key: v for key, v in k.items() if key == "randomstream"}
        return sim.Poisson(p[0], **k), ss.poisson(p[0]), p[0], (0, inf)
    if kind == "Weibull":
        return sim.Weibull(*p, **k), ss.weibull_min(p[1], scale=p[0]), p[0] * math.gamma(1 + 1 / p[1]), (0, inf)
    if kind == "Gamma":
        a, scale, rate = p
        return sim.Gamma(a, rate=1 / scale, **k) if rate else sim.Gamma(a, scale, **k), ss.gamma(a, scale=scale), a * scale, (0, inf)
    if kind == "Beta":
        k = {key: v for key, v in k.items() if key == "randomstream"}
        return sim.Beta(*p, **k), ss.beta(*p), p[0] / (p[0] + p[1]), (0, 1)
    if kind == "Erlang":
        a, rate, scale = p
        return sim.Erlang(a, scale=1 / rate, **k) if scale else sim.Erlang(a, rate, **k), ss.gamma(a, scale=1 / rate), a / rate, (0, inf)
    if kind == "Cdf":
        pts = cdf_points(p)
        total = pts[-1][1]

        def lim(x, left):
            r = 0
            for p, _ in pts:
                if is_close(p, x):  # rounding by scaling
                    x = p
            for (x0, c0), (x1, c1) in zip(pts, pts[1:]):
                if x1 < x or (x1 == x and not left):
                    r = c1
                elif x0 < x <= x1:
                    r = c0 + (c1 - c0) * (x - x0) / (x1 - x0)
            return r / total

        mean = sum((x0 + x1) / 2 * (c1 - c0) for (x0, c0), (x1, c1) in zip(pts, pts[1:])) / total
        lo = max(x for x, c in pts if c == 0)
        hi = min(x for x, c in pts if c == total)
        return sim.Cdf([v for pt in pts for v in pt], **k), lim, mean, (lo, hi)
    raise AssertionError(kind)


def ks(samples, dist):
    """Kolmogorov-Smirnov distance times sqrt(n)"""
    n = len(samples)
    values, counts = numpy.unique(numpy.asarray(samples, dtype=float), return_counts=True)
    cum = numpy.cumsum(counts) / n
    if hasattr(dist, "cdf"):
        if hasattr(dist, "pmf"):
            right, left = dist.cdf(values + 1e-6), dist.cdf(values - 1e-6)  # values are integers, apart from rounding
        else:
            right = left = dist.cdf(values)
    else:
        right, left = numpy.array([dist(x, False) for x in values]), numpy.array([dist(x, True) for x in values])
    d = max(numpy.max(numpy.abs(cum - right)), numpy.max(numpy.abs(cum - counts / n - left)))
    return d * math.sqrt(n)


def plausible(samples, dist, what, limit=3.7):
    if isinstance(dist, (int, float)):
        for s in samples:
            close(s, dist, what)
        return
    d = ks(samples, dist)
    check(d < limit, f"{what}: distance between the distribution and {len(samples)} samples is {d:.2f}/sqrt(n) (normally < 1.5)")


def kwargs_of(kind, case, seed=None):
    k = dict(randomstream=random.Random(case["seed"] if seed is None else seed))
    if kind not in NO_UNIT:
        if case["tu"][1] is not None:
            k["time_unit"] = case["tu"][1]
        k["env"] = case["env"]
    return k


def environment(case):
    fresh()
    env = sim.Environment(time_unit=case["tu"][0], trace=False)
    if case.get("other"):
        sim.Environment(time_unit="weeks", trace=False)
    return {**case, "env": env if case.get("other") else None}


def run_base(case):
    case = environment(case)
    kind = case["spec"][0]
    n = case["n"]
    f = 1 if kind in NO_UNIT else factor(case["tu"])
    k = kwargs_of(kind, case)
    d, dist, mean, support = make(case["spec"], **k)
    before = random.getstate()
    samples = [d.sample() if i % 2 else d() for i in range(n)]
    check(random.getstate() == before, f"{kind} with its own stream also uses the global one")
    close(d.mean(), mean * f, f"mean of {case['spec']}")
    eps = 1e-9 * (1 + abs(mean))
    for s in samples:
        check(support[0] - eps <= s / f <= support[1] + eps, f"sample {s / f} of {case['spec']} is not in {support}")
    if kind in ("IntUniform", "Poisson"):
        for s in samples:
            close(s / f, round(s / f), f"sample of {kind}")
    plausible([s / f for s in samples], dist, f"{case['spec']}")
    # reproducible, and the default stream is the global one
    d2 = make(case["spec"], **kwargs_of(kind, case))[0]
    equal([d2() for _ in range(20)], samples[:20], f"samples of {kind} with the same seed")
    k.pop("randomstream")
    d3 = make(case["spec"], **k)[0]
    sim.random_seed(case["seed"])
    a = [d3() for _ in range(5)]
    sim.random_seed(case["seed"])
    equal([d3() for _ in range(5)], a, f"samples of {kind} after random_seed")
    random.seed(case["seed"])
    equal([d3() for _ in range(5)], samples[:5], f"samples of {kind} with the global stream")
    d.print_info(as_str=True)
    return [kind] + (["time_unit"] if f != 1 else []) + (["nontrivial"] if n >= 200 and not isinstance(dist, (int, float)) else [])


# discrete distributions
xs = st.lists(st.sampled_from([0, 1, 2, 3.5, -1, 7]), min_size=1, max_size=5)
discrete = st.fixed_dictionaries(
    dict(
        kind=st.sampled_from(["Pdf", "Pmf", "CumPdf", "CumPmf"]),
        items=st.lists(st.tuples(st.sampled_from([0, 1, 2, 3.5, -1, 7, "a", "b", "2"]), probs).map(list), min_size=1, max_size=6).filter(lambda l: sum(p for _, p in l) > 0),
        form=st.sampled_from(["alternate", "separate", "dict", "equal"]), tu=tu, seed=seeds, n=st.sampled_from([60, 1500]), other=st.booleans(), draw=st.integers(0, 7),
        iterator=st.booleans(),
    )
)


def run_discrete(case):
    case = environment(case)
    cls = getattr(sim, case["kind"])
    items = case["items"]
    form = case["form"]
    cum = case["kind"].startswith("Cum")
    numeric = all(isinstance(x, (int, float)) for x, _ in items)
    k = dict(randomstream=random.Random(case["seed"]))
    f = 1
    if numeric:
        k.update(kwargs_of("Pdf", case))
        f = factor(case["tu"])
    values, ps = [x for x, _ in items], [p for _, p in items]
    if cum:
        running = []
        for p in ps:
            running.append((running[-1] if running else 0) + p)
        if form in ("dict", "equal"):
            form = "separate"
        d = cls(values, running, **k) if form == "separate" else cls([v for pair in zip(values, running) for v in pair], **k)
    else:
        if form == "dict" and len({(type(v) is str, v) for v in values}) < len(values):
            form = "separate"
        if form == "equal":
            ps = [1] * len(ps)
            d = cls(values, 3, **k)
        elif form == "dict":
            d = cls(dict(zip(values, ps)), **k)
        elif form == "separate":
            d = cls(values, iter(ps) if case["iterator"] else ps, **k)
        else:
            d = cls([v for pair in zip(values, ps) for v in pair], **k)
    total = sum(ps)
    n = case["n"]
    before = random.getstate()
    samples = [d.sample() for _ in range(n)]
    check(random.getstate() == before, "distribution with its own stream also uses the global one")
    weight = collections.Counter()
    for x, p in zip(values, ps):
        weight[repr(x) if isinstance(x, str) else float(x) * f] += p / total
    count = collections.Counter(repr(s) if isinstance(s, str) else float(s) for s in samples)

    def keyfor(x):
        if isinstance(x, str):
            return x
        return min((w for w in weight if not isinstance(w, str)), key=lambda w: abs(w - x), default=None)

    grouped = collections.Counter()
    for x, c in count.items():
        w = keyfor(x)
        check(w is not None and w in weight and (isinstance(x, str) or is_close(w, x)), f"{x} is sampled from {items}")
        grouped[w] += c
    for w, p in weight.items():
        if p == 0:
            check(grouped[w] == 0, f"{w} with probability 0 is sampled")
        margin = 6.5 * math.sqrt(max(0, n * p * (1 - p))) + 12
        check(abs(grouped[w] - n * p) <= margin, f"{w} with probability {p} sampled {grouped[w]} times out of {n}")
    try:
        mean = sum(float(x) * p for x, p in zip(values, ps)) / total * f
    except ValueError:
        mean = float("nan")
    close(d.mean(), mean, f"mean of {case['kind']} {items}")
    labels = [case["kind"], form]
    if not cum and all(p == ps[0] for p in ps):
        m = case["draw"]
        drawn = d.sample(m)
        equal(len(drawn), min(m, len(values)), "number of samples drawn")
        pool = [v if isinstance(v, str) else v * f for v in values]
        for x in drawn:
            for i, v in enumerate(pool):
                if type(v) is str and v == x or type(v) is not str and type(x) is not str and is_close(v, x):
                    del pool[i]
                    break
            else:
                fail(f"sample(n) draws {x} more often than it is in {values}")
        labels.append("sample(n)")
    return labels + (["nontrivial"] if n >= 200 and len(weight) > 1 else [])


# compositions
ints = st.tuples(st.just("IntUniform"), two(st.integers(-2, 5))).map(list)
leaf = st.tuples(st.just("leaf"), st.one_of(base, ints), st.none() | units)
number = st.tuples(st.just("num"), st.sampled_from([0, 1, 2, -3, 0.5, 10]))
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "**": operator.pow}
bound = st.sampled_from([None, -2, 0, 0.5, 1, 2, 5])


def extend(children):
    child = st.one_of(children, number)
    return st.one_of(
        st.tuples(st.sampled_from(["+", "-", "*", "/", "//", "**"]), child, child).filter(lambda x: x[1][0] != "num" or x[2][0] != "num"),
        st.tuples(st.sampled_from(["pos", "neg"]), children),
        st.tuples(st.just("map"), children, st.sampled_from(["round", "double", "max0", "str"])),
        st.tuples(st.just("bounded"), children, bound, bound, st.none() | st.just(99), st.sampled_from([None, None, 1, 3, 50]), st.booleans(), st.booleans(), st.none() | units, st.booleans()),
        st.tuples(st.sampled_from(["pdf", "cumpdf"]), st.lists(st.tuples(child, st.integers(0, 3)), min_size=1, max_size=3).filter(lambda l: sum(p for _, p in l) > 0), st.integers(0, 99)),
    ).map(lambda x: list(x))


tree = st.recursive(st.one_of(leaf, leaf).map(list), extend, max_leaves=6)
trees = st.fixed_dictionaries(dict(tree=tree, tu=units, seed=seeds, units=st.booleans()))
FUNCS = dict(round=lambda x: round(x, 1), double=lambda x: 2 * x, max0=lambda x: x if x > 0 else 0, str=lambda x: f"v{x}")


class Build:
    """builds the distribution and a function that gives the expected samples"""

    def __init__(self, case):
        self.seed = case["seed"]
        self.tu = case["tu"]
        self.n = 0
        self.dists = 0
        self.units = False
        self.with_units = case["units"]  # without, the arithmetic is exact

    def __call__(self, t):
        kind = t[0]
        if kind == "num":
            return t[1], (lambda: t[1]), t[1], False
        if kind == "leaf":
            self.n += 1
            self.dists += 1
            ds = []
            f = 1
            for i in range(2):
                k = dict(randomstream=random.Random(self.seed + self.n))
                if i == 0 and t[2] and self.with_units and t[1][0] not in NO_UNIT:
                    k["time_unit"] = t[2]
                    self.units = True
                    f = factor([self.tu, t[2]])
                d, _, mean, _ = make(t[1], **k)
                ds.append(d)
            return ds[0], (lambda: ds[1].sample() * f), mean * f, True
        if kind in OPS:
            a, fa, ma, da = self(t[1])
            b, fb, mb, db = self(t[2])
            d = OPS[kind](a, b)

            def g():
                x = fa()
                y = fb()
                return OPS[kind](x, y)

            # a Constant counts as a number
            ca, cb = not da or isinstance(a, sim.Constant), not db or isinstance(b, sim.Constant)
            if ma is None or mb is None:
                mean = None
            elif kind in "+-":
                mean = OPS[kind](ma, mb)
            elif kind == "*" and (ca or cb):
                mean = ma * mb
            elif kind == "/" and cb:
                mean = None if mb == 0 else ma / mb
            else:
                mean = float("nan")
            return d, g, mean, True
        if kind == "pos":
            a, fa, ma, _ = self(t[1])
            return +a, fa, ma, True
        if kind == "neg":
            a, fa, ma, _ = self(t[1])
            return -a, (lambda: 0 - fa()), -ma if ma is not None else None, True
        if kind == "map":
            a, fa, ma, _ = self(t[1])
            fn = FUNCS[t[2]]
            return sim.Map(a, fn), (lambda: fn(fa())), float("nan"), True
        if kind == "bounded":
            _, child, lo, hi, failv, tries, inc_lo, inc_hi, unit, method = t
            a, fa, ma, _ = self(child)
            if not self.with_units:
                unit = None
            if lo is not None and hi is not None and lo > hi:
                lo, hi = hi, lo
            f = 1 if unit is None or method else factor([self.tu, unit])
            l = -inf if lo is None else lo * f
            h = inf if hi is None else hi * f
            fv = failv if failv is not None else (l if lo is not None else h)

            def g():
                if lo is None and hi is None:
                    return fa()
                for _ in range(100 if tries is None else tries):
                    x = fa()
                    try:
                        v = float(x)
                    except (ValueError, TypeError):
                        return x
                    if any(near(v, w) and (self.units or v != w) for w in (l, h)):
                        raise Ambiguous
                    if (v >= l if inc_lo else v > l) and (v <= h if inc_hi else v < h):
                        return x
                return fv

            kk = dict(fail_value=failv, number_of_retries=tries, include_lowerbound=inc_lo, include_upperbound=inc_hi)
            if method:
                d = sim.Map(sim.Constant(0), lambda _: a.bounded_sample(lo, hi, **kk))
                return d, g, float("nan"), True
            return sim.Bounded(a, lo, hi, time_unit=unit, **kk), g, ma if lo is None and hi is None else float("nan"), True
        if kind in ("pdf", "cumpdf"):
            parts = [(self(c), p) for c, p in t[1]]
            ps = [p for _, p in parts]
            streams = [random.Random(t[2]), random.Random(t[2])]
            ix = [sim.Pdf(list(range(len(ps))), ps, randomstream=streams[1])]
            if kind == "pdf":
                d = sim.Pdf([x[0] for x, _ in parts], ps, randomstream=streams[0])
            else:
                cum = [sum(ps[: i + 1]) for i in range(len(ps))]
                d = sim.CumPdf([x[0] for x, _ in parts], cum, randomstream=streams[0])
                ix = [sim.CumPdf(list(range(len(ps))), cum, randomstream=streams[1])]
            self.dists += 1
            ms = [x[2] for x, _ in parts]
            mean = None if any(m is None for m in ms) else sum(m * p for m, p in zip(ms, ps)) / sum(ps)
            return d, (lambda: parts[ix[0].sample()][0][1]()), mean, True
        raise AssertionError(t)


class Ambiguous(Exception):
    """rounding errors decide whether a sample is within the bounds"""


def near(a, b):
    return abs(a - b) < 1e-9 * (1 + abs(b)) if abs(b) < inf else False


def outcome(f):
    try:
        return f()
    except (ZeroDivisionError, TypeError, OverflowError, ValueError) as e:
        return type(e).__name__


def run_tree(case):
    fresh()
    sim.Environment(time_unit=case["tu"], trace=False)
    b = Build(case)
    try:
        d, g, mean, _ = b(case["tree"])
    except ZeroDivisionError:  # the mean of a Pdf
        return ["division by zero"]
    for i in range(15):
        try:
            expected = outcome(g)
        except Ambiguous:
            return ["ambiguous"]
        got = outcome(d.sample)
        if isinstance(expected, str) and expected.endswith("Error"):
            check(got == expected, f"sample {i}: {got}, expected {expected}")
            break
        if isinstance(expected, complex) or isinstance(got, complex):
            return ["complex"]
        if b.units and "**" in repr(case["tree"]) and not is_close(got, expected, rel=1e-6, abs_=1e-6):
            return ["ambiguous"]
        if isinstance(expected, str):
            check(isinstance(got, str), f"sample {i}: {got}, expected {expected}")
            continue
        if not is_close(got, expected, rel=1e-6, abs_=1e-6):
            if b.units and ("//" in repr(case["tree"]) or "round" in repr(case["tree"])):
                if abs(got - expected) > 1e-3:
                    return ["ambiguous"]  # rounding
                continue
            fail(f"sample {i}: got {got}, expected {expected}")
    if mean is not None:
        m = outcome(d.mean)
        if not isinstance(m, str):
            close(m, mean, "mean", rel=1e-6)
        else:
            fail(f"mean raises {m}")
    kinds = [k for k in ("map", "bounded", "pdf", "cumpdf", "neg", "**", "//") if f"'{k}'" in repr(case["tree"])]
    return kinds + (["nontrivial"] if b.dists >= 2 else [])


# strings
def num(x):
    return repr(x)


STRINGS = dict(
    Uniform=(1, lambda p: f"{p[0]}, {p[1]}"), Constant=(1, None), Triangular=(1, None), Exponential=(1, None), Normal=(1, None), Cdf=(2, None), Pdf=(1, None), CumPdf=(2, None), Weibull=(1, None),
    Gamma=(1, None), Erlang=(2, None), Beta=(1, None), IntUniform=(1, None), Poisson=(2, None),
)


def args_of(kind):
    return {
        "Uniform": two(anyv), "Constant": st.tuples(anyv), "Triangular": st.lists(anyv, min_size=3, max_size=3).map(lambda l: [sorted(l)[0], sorted(l)[2], sorted(l)[1]]), "Exponential": st.tuples(pos),
        "Normal": st.tuples(anyv, pos), "Cdf": BASE["Cdf"].map(lambda p: [[v for pt in cdf_points(p) for v in pt]]), "Pdf": st.lists(st.tuples(anyv, st.integers(1, 4)), min_size=1, max_size=4).map(lambda l: [[v for p in l for v in p]]),
        "CumPdf": st.lists(anyv, min_size=1, max_size=4).map(lambda l: [[v for i, x in enumerate(l) for v in (x, i + 1)]]), "Weibull": st.tuples(pos, pos), "Gamma": st.tuples(pos, pos), "Erlang": st.tuples(st.integers(1, 4), pos),
        "Beta": st.tuples(pos, pos), "IntUniform": two(st.integers(-5, 9)), "Poisson": st.tuples(pos),
    }[kind].map(list)


strings = st.sampled_from(sorted(STRINGS)).flatmap(
    lambda k: st.fixed_dictionaries(
        dict(kind=st.just(k), args=args_of(k), cut=st.integers(0, 12), case=st.sampled_from(["same", "upper", "lower"]), space=st.sampled_from(["", " "]), short=st.sampled_from([None, None, "bare", "paren"]), inner=st.none() | units, outer=st.none() | units, tu=units, seed=seeds, own=st.booleans())
    )
)
MINIMUM = dict(Erlang="Er", Cdf="Cd", CumPdf="Cu", Poisson="Po")


def run_string(case):
    fresh()
    sim.Environment(time_unit=case["tu"], trace=False)
    kind, args = case["kind"], case["args"]
    inner, outer = case["inner"], case["outer"]
    if kind in NO_UNIT:
        inner = outer = None
    name = kind[: max(len(MINIMUM.get(kind, "x")), len(kind) - case["cut"])]
    short = case["short"] if kind in ("Constant", "Uniform", "Triangular") else None
    name = dict(same=name, upper=name.upper(), lower=name.lower())[case["case"]]
    sep = "," + case["space"]
    body = sep.join(num(a) for a in args)
    if short:
        inner = None
        spec = body if short == "bare" else f"({body})"
    else:
        spec = f"{name}{case['space']}({body}" + ("" if inner is None else f"{sep}time_unit={inner!r}") + ")"
    k = {} if outer is None else dict(time_unit=outer)
    own = random.Random(case["seed"]) if case["own"] else None
    d = sim.Distribution(spec, randomstream=own, **k)
    unit = inner if inner is not None else outer
    direct = getattr(sim, kind)(*args, **({} if unit is None else dict(time_unit=unit)), randomstream=random.Random(case["seed"]))
    if not case["own"]:
        random.seed(case["seed"])
    for i in range(10):
        close(d.sample(), direct.sample(), f"sample {i} of Distribution({spec!r}, {k})")
    close(d.mean(), direct.mean(), f"mean of Distribution({spec!r}, {k})")
    equal(repr(d), kind, f"repr of Distribution({spec!r})")
    return [kind] + ([short] if short else []) + (["nontrivial"] if short or unit or name != kind else [])


# external distributions
externals = st.fixed_dictionaries(
    dict(
        which=st.sampled_from(["random.uniform", "random.random", "numpy.standard_exponential", "scipy.laplace", "random.gauss", "numpy.normal", "numpy.uniform", "scipy.norm", "scipy.expon", "scipy.gamma", "scipy.poisson", "scipy.binom", "scipy.randint"]),
        a=st.sampled_from([1, 2, 3, 5]), b=st.sampled_from([1, 2, 4]), positional=st.booleans(), size=st.sampled_from([None, None, 1, 5, 40]), tu=tu, seed=seeds, other=st.booleans(),
    )
)


def run_external(case):
    case = environment(case)
    a, b, size = case["a"], case["b"], case["size"]
    f = factor(case["tu"])
    kw = {}
    mean = float("nan")
    lib, name = case["which"].split(".")
    if lib == "random":
        fn = getattr(random, name)
        args = (a, a + b) if name != "random" else ()
        random.seed(case["seed"])
        reference = [fn(*args) for _ in range(30)]
        random.seed(case["seed"])
        dist = None
    elif lib == "numpy":
        fn = getattr(numpy.random, name)
        args, kw = ((), {}) if name == "standard_exponential" else ((a, a + b), {}) if case["positional"] else ((), dict(loc=a, scale=b) if name == "normal" else dict(low=a, high=a + b))
        numpy.random.seed(case["seed"])
        dist = ss.expon() if name == "standard_exponential" else ss.norm(a, b if not case["positional"] else a + b) if name == "normal" else ss.uniform(a, b)
        if size is not None:
            kw["size"] = size
    else:
        fn = getattr(ss, name)
        pos, key = dict(
            norm=((a, b), dict(loc=a, scale=b)), expon=((a, b), dict(loc=a, scale=b)), gamma=((a, b, b), dict(a=a, loc=b, scale=b)), poisson=((a, b), dict(mu=a, loc=b)), binom=((a, 1 / (b + 1)), dict(n=a, p=1 / (b + 1))),
            randint=((a, a + b), dict(low=a, high=a + b)), laplace=((), {}),
        )[name]
        args, kw = (pos, {}) if case["positional"] else ((), key)
        dist = fn(*pos)
        mean = dist.mean()
        kw["random_state"] = numpy.random.RandomState(case["seed"])
        if size is not None:
            kw["size"] = size
    k = dict(kw, **({} if case["tu"][1] is None else dict(time_unit=case["tu"][1])), **({} if case["env"] is None else dict(env=case["env"])))
    d = sim.External(fn, *args, **k)
    samples = [d.sample() / f for _ in range(30 if lib == "random" else 400)]
    if lib == "random":
        close(samples, reference, f"samples of External({case['which']})")
    else:
        for s in samples:
            check(isinstance(s, (int, float)) or numpy.isscalar(s), f"sample {s!r} of External({case['which']})")
        plausible(samples, dist, f"External({case['which']}, {args} {kw})")
    close(d.mean(), mean * f, f"mean of External({case['which']}, {args} {kw})")
    return [case["which"], "nontrivial"] if lib != "random" else [case["which"]]


# refused parameters
REFUSED = [
    lambda: sim.Exponential(0), lambda: sim.Exponential(-1), lambda: sim.Exponential(rate=0), lambda: sim.Exponential(), lambda: sim.Exponential(1, rate=1), lambda: sim.Normal(1, -1), lambda: sim.Normal(0, coefficient_of_variation=1),
    lambda: sim.Normal(1, 1, coefficient_of_variation=1), lambda: sim.IntUniform(2, 1), lambda: sim.IntUniform(0.5, 1), lambda: sim.Uniform(2, 1), lambda: sim.Triangular(2, 1), lambda: sim.Triangular(1, 2, 3), lambda: sim.Triangular(1, 2, 0),
    lambda: sim.Poisson(0), lambda: sim.Weibull(1, 0), lambda: sim.Gamma(0, 1), lambda: sim.Gamma(1, 0), lambda: sim.Gamma(1), lambda: sim.Gamma(1, 1, rate=1), lambda: sim.Beta(0, 1), lambda: sim.Beta(1, 0), lambda: sim.Erlang(1.5, 1), lambda: sim.Erlang(0, 1),
    lambda: sim.Erlang(1), lambda: sim.Erlang(1, 0), lambda: sim.Cdf((1, 0, 0, 1)), lambda: sim.Cdf((1, 0, 2, 3, 3, 2)), lambda: sim.Cdf((1, 1, 2, 2)), lambda: sim.Cdf((1, 0, 2)), lambda: sim.Cdf((1, 0, 2, 0)), lambda: sim.Pdf((1, 0, 2, 0)),
    lambda: sim.Pdf((1, 2), (1, 2, 3)), lambda: sim.Pdf((1, 2, 3)), lambda: sim.CumPdf((1, 2, 3, 1)), lambda: sim.CumPdf((1, 0)), lambda: sim.Bounded(sim.Uniform(1), 2, 1), lambda: sim.Pdf((1, 2), (1, 2)).sample(2), lambda: sim.Uniform(1, 2, randomstream=3),
    lambda: sim.Uniform(1, 2, time_unit="hours"), lambda: sim.Pdf(("a", 1), time_unit="hours"), lambda: sim.Distribution("1,2,3,4"),
]


def run_refused(case):
    fresh()
    env = sim.Environment(trace=False)
    try:
        REFUSED[case["i"]]()
    except (ValueError, TypeError, AttributeError):
        return ["nontrivial"]
    fail(f"invalid parameters ({case['i']}) are accepted")


FACETS = [
    Facet("base", st.fixed_dictionaries(dict(spec=base, tu=tu, seed=seeds, n=st.sampled_from([40, 1000]), other=st.booleans())), run_base, quick=2400),
    Facet("discrete", discrete, run_discrete, quick=1600),
    Facet("compose", trees, run_tree, quick=4000),
    Facet("string", strings, run_string, quick=2400),
    Facet("external", externals, run_external, quick=500),
    Facet("refused", st.fixed_dictionaries(dict(i=st.integers(0, len(REFUSED) - 1))), run_refused, quick=100),
]
