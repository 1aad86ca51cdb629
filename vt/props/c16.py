from ..core import Facet, check, close, equal
from ..drive import animated, animation, fresh
from ..monitors import *
from ..stats import OFF, canonical, check_level, compare, numeric, steps_of

PROPERTY = "C16"
RULE = "at least one derived monitor with at least three different segments (level) or entries (non level)"

inf = float("inf")
I = st.integers(0, 5)
T = st.integers(-4, 80).map(lambda i: i / 4)
bound = st.none() | T


def fsum(*v):
    return sum(numeric(x) for x in v)


def fmax(*v):
    return max(numeric(x) for x in v)


def fstr(*v):
    return "/".join(str(float(x) + 0.0) if isinstance(x, (int, float)) else str(x) for x in v)


def fconst(*v):
    return 7


FUNCS = dict(sum=fsum, max=fmax, str=fstr, const=fconst)
func = st.sampled_from(sorted(FUNCS))
NAME = st.sampled_from([None, None, "name"])
modulo = st.sampled_from([1, 2, 2.5, 4]).flatmap(lambda m: st.tuples(st.integers(0, 40).map(lambda i: i / 4 - 3), st.sampled_from([0.25, 0.5, 0.75]).map(lambda f: f * m), st.just(m)).map(lambda x: ["modulo", x[0], x[0] + x[1], x[2]]))


def one_period(a, b):
    return lambda t: (a is None or a <= t) and (b is None or t < b)


def restrict(seg, now, cuts, inside):
    """step function seg, where inside(t), otherwise OFF. cuts are the moments where inside may change"""
    ts = sorted({t for t, _ in seg} | {c for c in cuts if seg[0][0] <= c < now})
    result = []
    for t in ts:
        if t >= now:
            continue
        v = OFF
        for t0, v0 in seg:
            if t0 <= t:
                v = v0
        result.append((t, v if inside(t) else OFF))
    return result + [(now, OFF)]


def combine(segs, now, f):
    ts = sorted({t for s in segs for t, _ in s})
    result = []
    for t in ts:
        if t >= now:
            continue
        vs = []
        for s in segs:
            v = OFF
            for t0, v0 in s:
                if t0 <= t:
                    v = v0
            vs.append(v)
        result.append((t, OFF if any(v is OFF for v in vs) else f(*vs)))
    return result + [(now, OFF)]


def periods(a, b, m, lo, hi):
    """bounds of the repeating periods between lo and hi"""
    k = int((lo - a) // m) - 2
    result = []
    while a + k * m <= hi:
        result.append((a + k * m, b + k * m))
        k += 1
    return result


class D:
    """derived level monitor"""

    def __init__(self, m, seg, now, env_id, final=False):
        self.m, self.seg, self.now, self.env_id, self.final = m, seg, now, env_id, final

    def verify(self, what):
        equal(steps_of(self.m), canonical(self.seg), f"history of {what}")
        xw = []
        for (t, v), (t1, _) in zip(self.seg, self.seg[1:] + [(self.now, None)]):
            if v is not OFF:
                xw.append((numeric(v), t1 - t))
        compare(what, self.m, xw, True, level=True, qs=(0, 25, 50, 100), interpolations=("linear",))


derive = weighted(
    (4, op("merge", st.lists(I, min_size=1, max_size=3), st.sampled_from(["merge", "merge", "add", "sum"]), NAME)), (4, op("slice", I, bound, bound, st.booleans(), NAME)), (3, st.tuples(I, modulo, NAME).map(lambda x: ["modulo", x[0], *x[1][1:], x[2]])),
    (3, op("map", I, st.lists(I, max_size=2), func, NAME)), (2, op("tmul", I, st.sampled_from([2, 0.5, 1, 10]), NAME)), (2, op("freeze", I, NAME)),
)


def level_cases(ks):
    ops = []
    for i, k in enumerate(ks):
        ops.append((6, op("tally", st.just(i), KINDS[k])))
    n = len(ks)
    ops += [(1, nop), (8, op("run", durations)), (3, op("monitor", st.integers(0, n - 1), st.booleans())), (1, op("reset", st.integers(0, n - 1), st.none() | st.booleans())), (5, derive), (1, op("reset_now", st.sampled_from([0, 3, -2])))]
    return st.fixed_dictionaries(dict(kinds=st.just(ks), initial=st.tuples(*[KINDS[k] for k in ks]).map(list), ops=st.lists(weighted(*ops), min_size=14, max_size=30), final=st.lists(derive, min_size=2, max_size=5)))


level_strategy = st.one_of(st.lists(kinds, min_size=2, max_size=3), kinds.map(lambda k: [k, k])).flatmap(level_cases)


def run_level(case):
    fresh()
    env = sim.Environment(trace=False, yieldless=True, **animation(case))
    t = 0
    offset = 0
    src = [Level(env, 0, k, i, name=f"m{n}") for n, (k, i) in enumerate(zip(case["kinds"], case["initial"]))]
    derived = []
    labels = set()

    def monitors(i, env_id=None):
        all_ = [D(s.m, s.ref.seg, t, 0) for s in src] + [d for d in derived if not d.final]
        if env_id is not None:
            all_ = [d for d in all_ if d.env_id == env_id]
        return all_[i % len(all_)]

    for o in case["ops"] + case["final"]:
        name = o[-1] if o[0] in ("merge", "slice", "modulo", "map", "tmul", "freeze") else None
        new = None
        if o[0] == "tally":
            src[o[1]].tally(t, o[2])
        elif o[0] == "run":
            env.run(o[1])
            t += o[1]
        elif o[0] == "monitor":
            src[o[1]].monitor(t, o[2])
        elif o[0] == "reset":
            src[o[1]].reset(t, o[2])
        elif o[0] == "reset_now":
            env.reset_now(o[1])
            offset = t - o[1]
        elif o[0] == "merge":
            first = monitors(o[1][0])
            parts = [first] + [monitors(i, first.env_id) for i in o[1][1:]]
            ms = [p.m for p in parts]
            now = first.now if first.env_id else t
            seg = combine([p.seg for p in parts], now, fsum)
            limit = dict(int8=(-127, 127), uint8=(0, 254), bool=(0, 254), int16=(-32767, 32767), uint16=(0, 65534)).get(first.m.xtype, (-inf, inf))
            if any(v is not OFF and not limit[0] <= v <= limit[1] for _, v in seg):
                continue  # does not fit in the type of the monitor
            if o[2] == "add" and len(ms) == 2:
                m = ms[0] + ms[1]
                exp_name = first.m.name() + ("" if first.m.name().endswith(".merged") else ".merged")
            elif o[2] == "sum" and len(ms) > 1:
                m = sum(ms)
                exp_name = first.m.name() + ("" if first.m.name().endswith(".merged") else ".merged")
            else:
                m = ms[0].merge(*ms[1:], name=name) if name else ms[0].merge(*ms[1:])
                exp_name = name or first.m.name() + ("" if first.m.name().endswith(".merged") else ".merged")
            new = D(m, seg, now, first.env_id)
        elif o[0] in ("slice", "modulo"):
            p = monitors(o[1])
            now = p.now if p.env_id else t
            off = p.m.env._offset if p.env_id else offset
            if o[0] == "slice":
                a, b = o[2], o[3]
                m = p.m[a:b] if o[4] and not name else p.m.slice(a, b, name=name)
                a, b = (None if a is None else a + off), (None if b is None else b + off)
                cuts = [x for x in (a, b) if x is not None]
                inside = one_period(a, b)
            else:
                m = p.m.slice(o[2], o[3], o[4], name=name) if name else p.m[o[2] : o[3] : o[4]]
                pp = periods(o[2] + off, o[3] + off, o[4], p.seg[0][0], now)
                cuts = [x for ab in pp for x in ab]
                inside = lambda t: any(a <= t < b for a, b in pp)
            exp_name = name or p.m.name() + ".sliced"
            new = D(m, restrict(p.seg, now, cuts, inside), now, p.env_id)
            labels.add(o[0])
        elif o[0] == "map":
            p = monitors(o[1])
            parts = [p] + [monitors(i, p.env_id) for i in o[2]]
            now = p.now if p.env_id else t
            calls = []
            f = FUNCS[o[3]]
            m = p.m.x_map(f, [q.m for q in parts[1:]], name=name) if parts[1:] else p.m.x_map(f, name=name, **({} if case["initial"][0] else dict(monitors=None)))
            exp_name = name or "mapped"
            new = D(m, combine([q.seg for q in parts], now, f), now, p.env_id)
        elif o[0] == "tmul":
            p = monitors(o[1])
            now = p.now if p.env_id else t
            m = p.m.t_multiply(o[2], name=name)
            exp_name = name or "mapped"
            new = D(m, [(a * o[2], v) for a, v in p.seg] + [(now * o[2], OFF)], now * o[2], p.env_id, final=True)
        elif o[0] == "freeze":
            p = monitors(o[1])
            now = p.now if p.env_id else t
            m = p.m.freeze(name)
            exp_name = name or p.m.name() + ".frozen"
            check(sim.default_env() is env, "default environment after freeze")
            new = D(m, list(p.seg), now, len(derived) + 1)
            close(m.env.now(), now - (p.m.env._offset if p.env_id else offset), "now of frozen monitor")
        if new is not None:
            equal(new.m.name(), exp_name, f"name after {o[0]}")
            labels.add(o[0])
            new.verify(f"{o[0]} {o[1:]}")
            if len(canonical(new.seg)) >= 4:
                labels.add("nontrivial")
            derived.append(new)
            for n, s in enumerate(src):
                equal(steps_of(s.m), canonical(s.ref.seg), f"history of source m{n} after {o[0]}")
    for n, s in enumerate(src):
        check_level(f"m{n}", s.m, s.ref, t, offset, qs=(50,))
    for d in derived:  # not influenced by what happened afterwards
        d.verify(f"{d.m.name()}, later")
    return list(labels)


# non level


class N:
    def __init__(self, m, data, env_id=0, now=None):
        self.m, self.data, self.env_id, self.now = m, data, env_id, now

    def verify(self, what):
        x, t = self.m.xt(force_numeric=False)
        equal(list(x), [d[1] for d in self.data], f"x of {what}")
        equal(list(t), [d[0] for d in self.data], f"t of {what}")
        equal(list(self.m.xweight(force_numeric=False)[1]), [d[2] for d in self.data], f"weights of {what}")
        xw = [(numeric(d[1]), d[2]) for d in self.data]
        compare(what, self.m, xw, any(w != 1 for _, w in xw), qs=(0, 25, 50, 100), interpolations=("linear",))


weights = st.sampled_from([1, 1, 1, 1, 2, 0.5, 3])
nderive = weighted(
    (4, op("merge", st.lists(I, min_size=1, max_size=3), st.sampled_from(["merge", "merge", "add", "sum"]), NAME)), (4, op("slice", I, bound, bound, st.booleans(), NAME)), (3, st.tuples(I, modulo, NAME).map(lambda x: ["modulo", x[0], *x[1][1:], x[2]])),
    (3, op("map", I, func, NAME)), (4, op("mul", I, st.sampled_from([2, 0.5, -1, 10, 0]), st.integers(0, 3), NAME)), (2, op("freeze", I, NAME)), (2, op("unit", I, st.sampled_from(["years", "weeks", "days", "hours", "minutes", "seconds", "milliseconds", "microseconds"]), st.booleans(), NAME)),
)


def nonlevel_cases(ks):
    n = len(ks)
    ops = [(8, op("tally", st.just(i), KINDS[k], weights)) for i, k in enumerate(ks)]
    ops += [(1, nop), (6, op("run", durations)), (1, op("monitor", st.integers(0, n - 1), st.booleans())), (1, op("reset", st.integers(0, n - 1))), (5, nderive), (1, op("reset_now", st.sampled_from([0, 3, -2])))]
    return st.fixed_dictionaries(dict(kinds=st.just(ks), ops=st.lists(weighted(*ops), min_size=14, max_size=30), final=st.lists(nderive, min_size=2, max_size=5)))


nonlevel_strategy = st.one_of(st.lists(kinds, min_size=2, max_size=3), st.just(["float", "float"])).flatmap(nonlevel_cases)
PER_HOUR = dict(years=1 / (24 * 365), weeks=1 / (24 * 7), days=1 / 24, hours=1, minutes=60, seconds=3600, milliseconds=3600e3, microseconds=3600e6)


def run_nonlevel(case):
    fresh()
    env = sim.Environment(trace=False, yieldless=True, time_unit="hours", **animation(case))
    t = 0
    offset = 0
    src = [N(sim.Monitor(f"m{n}", type=type_of(k)), []) for n, k in enumerate(case["kinds"])]
    on = [True] * len(src)
    derived = []
    labels = set()

    def monitors(i, env_id=None):
        all_ = src + derived
        if env_id is not None:
            all_ = [d for d in all_ if d.env_id == env_id]
        return all_[i % len(all_)]

    def floats(i):
        all_ = [d for d in src + derived if d.m.xtype == "float"]
        return all_[i % len(all_)] if all_ else None

    for o in case["ops"] + case["final"]:
        new = None
        name = o[-1]
        if o[0] == "tally":
            s = src[o[1]]
            s.m.tally(o[2], o[3])
            if on[o[1]]:
                s.data.append((t, o[2], o[3]))
        elif o[0] == "run":
            env.run(o[1])
            t += o[1]
        elif o[0] == "monitor":
            src[o[1]].m.monitor(o[2])
            on[o[1]] = o[2]
        elif o[0] == "reset":
            src[o[1]].m.reset()
            src[o[1]].data = []
        elif o[0] == "reset_now":
            env.reset_now(o[1])
            offset = t - o[1]
        elif o[0] == "merge":
            first = monitors(o[1][0])
            parts = [first] + [monitors(i, first.env_id) for i in o[1][1:]]
            ms = [p.m for p in parts]
            if o[2] == "add" and len(ms) == 2:
                m, name = ms[0] + ms[1], None
            elif o[2] == "sum" and len(ms) > 1:
                m, name = sum(ms), None
            else:
                m = ms[0].merge(*ms[1:], name=name) if name else ms[0].merge(*ms[1:])
            exp_name = name or first.m.name() + ("" if first.m.name().endswith(".merged") else ".merged")
            data = sorted(((d[0], i, n, d) for i, p in enumerate(parts) for n, d in enumerate(p.data)), key=lambda z: z[:3])
            new = N(m, [z[3] for z in data], first.env_id, first.now)
        elif o[0] in ("slice", "modulo"):
            p = monitors(o[1])
            now = p.now if p.env_id else t
            off = p.m.env._offset if p.env_id else offset
            if o[0] == "slice":
                a, b = o[2], o[3]
                m = p.m[a:b] if o[4] and not name else p.m.slice(a, b, name=name)
                keep = one_period(None if a is None else a + off, None if b is None else b + off)
            else:
                m = p.m.slice(o[2], o[3], o[4], name=name) if name else p.m[o[2] : o[3] : o[4]]
                pp = periods(o[2] + off, o[3] + off, o[4], 0, now)
                keep = lambda t: any(a <= t < b for a, b in pp)
            exp_name = name or p.m.name() + ".sliced"
            new = N(m, [d for d in p.data if keep(d[0])], p.env_id, p.now)
        elif o[0] == "map":
            p = monitors(o[1])
            f = FUNCS[o[2]]
            m = p.m.x_map(f, name=name)
            exp_name = name or "mapped"
            new = N(m, [(a, f(x), w) for a, x, w in p.data], p.env_id, p.now)
        elif o[0] == "mul":
            p = floats(o[1])
            if p is None:
                continue
            s, how = o[2], o[3]
            if how == 0:
                m, f = p.m.multiply(s, name=name), s
                exp_name = name or p.m.name()
            else:
                exp_name = p.m.name()
                if how == 1:
                    m, f = p.m * s, s
                elif how == 2:
                    m, f = s * p.m, s
                elif s:
                    m, f = p.m / s, 1 / s
                else:
                    continue
            new = N(m, [(a, x * f, w) for a, x, w in p.data], p.env_id, p.now)
        elif o[0] == "unit":
            p = floats(o[1])
            if p is None:
                continue
            m = p.m.to_time_unit(o[2], name=name) if o[3] else getattr(p.m, "to_" + o[2])(name=name)
            exp_name = name or p.m.name()
            xs = list(m.x())
            close(xs, [x * PER_HOUR[o[2]] for _, x, _ in p.data], f"values in {o[2]}", 1e-9, 1e-12)
            new = N(m, [(a, y, w) for (a, x, w), y in zip(p.data, xs)], p.env_id, p.now)
        elif o[0] == "freeze":
            p = monitors(o[1])
            m = p.m.freeze(name)
            exp_name = name or p.m.name() + ".frozen"
            check(sim.default_env() is env, "default environment after freeze")
            new = N(m, list(p.data), len(derived) + 1, p.now if p.env_id else t)
        if new is not None:
            equal(new.m.name(), exp_name, f"name after {o[0]}")
            labels.add(o[0])
            new.verify(f"{o[0]} {o[1:]}")
            if len(new.data) >= 3:
                labels.add("nontrivial")
            derived.append(new)
    for d in src + derived:
        d.verify(f"{d.m.name()}, later")
    return list(labels)


FACETS = [Facet("level", animated(level_strategy), run_level, quick=2500), Facet("nonlevel", animated(nonlevel_strategy), run_nonlevel, quick=2500)]
