import datetime

from ..core import Facet, check, close, equal, fail
from ..drive import fresh, sim
from ..gen import *
from .c18 import SECONDS, units

PROPERTY = "C23"
RULE = "a conversion between two different units, or a moment/duration that is not 0, given in another form than a number"

values = st.one_of(st.sampled_from([0, 1, 2, 0.5, 3.25, 100, 1e-3, 12345.678, -7]), st.integers(-1000, 10**6).map(lambda i: i / 8))
UNITS = list(SECONDS)


def run_convert(case):
    fresh()
    env = sim.Environment(time_unit=case["u"], trace=False)
    if case["other"]:
        sim.Environment(time_unit=case["w"], trace=False)
    x, u, v, w = case["x"], case["u"], case["v"], case["w"]
    arg = {"num": lambda: x, "dist": lambda: sim.Constant(x), "call": lambda: (lambda: x)}[case["form"]]
    f = SECONDS[v] / SECONDS[u]
    got = getattr(env, v)(arg())
    close(got, x * f, f"env({u}).{v}({x})")
    to = getattr(env, "to_" + v)(arg())
    close(to, x / f, f"env({u}).to_{v}({x})")
    close(env.to_time_unit(v, arg()), x / f, f"env({u}).to_time_unit({v}, {x})")
    close(getattr(env, "to_" + v)(getattr(env, v)(x)), x, f"{v} -> {u} -> {v}")
    # via another unit
    env2 = sim.Environment(time_unit=w, trace=False)
    close(getattr(env2, u)(x), getattr(env2, v)(getattr(env, "to_" + v)(x)), f"{u} -> {w}, directly and via {v}")
    # distributions
    close(sim.Constant(x, time_unit=v, env=env).sample(), x * f, f"sample of Constant({x}, {v}) in {u}")
    close(sim.Uniform(x, x, time_unit=v, env=env).mean(), x * f, f"mean of Uniform({x}, {x}, {v}) in {u}")
    # monitors
    m = sim.Monitor("m", type="float", env=env)
    m.tally(x)
    m.tally(1)
    close(list(getattr(m, "to_" + v)().x()), [x / f, 1 / f], f"Monitor.to_{v}")
    close(list(m.to_time_unit(v).x()), [x / f, 1 / f], f"Monitor.to_time_unit({v})")
    equal(env.get_time_unit(), u, "time_unit")
    equal([env.get_time_unit(k) for k in ("d", "t", "(d)", "(t)")], ["", "", "", ""] if u == "n/a" else [f" {u}", f" {u}", f" ({u})", f" ({u})"], "time_unit with template")
    d = env.duration_to_timedelta(x) if abs(x * SECONDS[u]) < 1e13 else None
    if d is not None:
        close(d.total_seconds(), x * SECONDS[u], "duration_to_timedelta", abs_=2e-6)
    return [case["form"], v] + (["nontrivial"] if u != v and x != 0 else [])


def run_na(case):
    """without a time unit, conversions are refused"""
    fresh()
    env = sim.Environment(trace=False)
    for f in (lambda: getattr(env, case["v"])(1), lambda: getattr(env, "to_" + case["v"])(1), lambda: env.to_time_unit(case["v"], 1), lambda: env.datetime_to_t(datetime.datetime(2020, 1, 1)), lambda: env.t_to_datetime(0),
              lambda: sim.Environment(time_unit="fortnights"), lambda: env.spec_to_time("abc"), lambda: env.spec_to_duration("abc"), lambda: env.duration_to_timedelta(1)):
        try:
            f()
        except (ValueError, AttributeError):
            continue
        fail("a conversion without a time unit is accepted")
    close(env.spec_to_time("1.5"), 1.5, "spec_to_time")
    return ["nontrivial"]


base = st.sampled_from([None, [2000, 1, 1], [2024, 2, 28, 23, 59, 59], [1999, 12, 31, 12], [2023, 7, 1, 0, 30, 15, 250000], "2022-05-06 07:08:09"])
duration = st.sampled_from([0, 0.5, 1, 1.25, 2, 3, 7, 10, 59.5, 100, 0.015625, 2.015625])
FORMS_T = ["num", "str num", "datetime", "iso", "slash", "text", "lambda", "dist", "lambda datetime"]
FORMS_D = ["num", "str num", "timedelta", "hms", "lambda", "dist", "lambda timedelta", "unit"]
tform, dform = st.sampled_from(FORMS_T), st.sampled_from(FORMS_D)
ops = st.one_of(
    st.tuples(st.sampled_from(["hold till", "activate at", "create at", "run till", "request fail_at", "wait fail_at", "waitfor fail_at", "from fail_at", "to fail_at", "gen at", "moments", "query"]), duration, tform),
    st.tuples(st.sampled_from(["hold", "activate delay", "create delay", "run", "request fail_delay", "wait fail_delay", "waitfor fail_delay", "from fail_delay", "to fail_delay", "gen delay", "gen duration"]), duration, dform),
    st.tuples(st.sampled_from(["reset_now"]), st.sampled_from([0, 5, -2, 100]), tform),
    st.tuples(st.just("roundtrip"), duration, st.just("num")),
    st.tuples(st.just("datetime0"), st.sampled_from([0, 86400, 1000000]), st.just("num")),
).map(list)
schedules = st.fixed_dictionaries(dict(unit=st.none() | units, base=base, ops=st.lists(ops, min_size=2, max_size=12), mode=st.sampled_from(["yieldless", "yieldless", "yield"])))


class Clock:
    """converts the moments of a case to all kinds of specifications"""

    def __init__(self, case):
        self.unit = case["unit"] or "seconds"
        self.s = SECONDS[self.unit]
        b = case["base"]
        kw = {} if case["unit"] is None else dict(time_unit=case["unit"])
        if b is None:
            self.zero = datetime.datetime(1970, 1, 1)
            b = True
        elif isinstance(b, str):
            self.zero = datetime.datetime(2022, 5, 6, 7, 8, 9)
        else:
            self.zero = b = datetime.datetime(*b)
        self.env = sim.Environment(datetime0=b, trace=False, **kw)
        equal(self.env.get_time_unit(), self.unit, "time unit with datetime0")
        equal(self.env.time_to_str(float("inf")).strip(), "inf", "time_to_str of infinity")
        equal(self.env.datetime0(), self.zero, "datetime0")
        self.tol = 4e-6 / self.s
        # large units give dates that are far away
        self.scale = {"years": 1 / 16, "weeks": 1, "microseconds": 1e6, "milliseconds": 1e3}.get(self.unit, 1)

    def date(self, t):
        return self.zero + datetime.timedelta(seconds=t * self.s)

    def time(self, t, form):
        """(specification, t). The specification might have less precision, so t is returned as well"""
        d = self.date(t)
        if form == "num":
            return t, t
        if form == "str num":
            return repr(t), t
        if form == "lambda":
            return (lambda: t), t
        if form == "dist":
            return sim.Constant(t), t
        if form == "datetime":
            return d, t
        if form == "lambda datetime":
            return (lambda: d), t
        if form == "iso":
            return d.isoformat(), t
        d0 = d.replace(microsecond=0)
        t0 = (d0 - self.zero).total_seconds() / self.s
        return d0.strftime("%Y/%m/%d %H:%M:%S" if form == "slash" else "%d %b %Y %H:%M:%S"), t0

    def duration(self, x, form):
        if form == "num":
            return x, x
        if form == "str num":
            return repr(x), x
        if form == "lambda":
            return (lambda: x), x
        if form == "dist":
            return sim.Constant(x), x
        d = datetime.timedelta(seconds=x * self.s)
        if form == "timedelta":
            return d, x
        if form == "lambda timedelta":
            return (lambda: d), x
        if form == "unit":
            return self.env.minutes(x * self.s / 60), x
        sec = int(x * self.s) % 86400
        return f"{sec // 3600}:{sec // 60 % 60:02}:{sec % 60:02}", sec / self.s


def run_schedule(case):
    fresh()
    sim.yieldless(case["mode"] == "yieldless")
    c = Clock(case)
    env = c.env

    class X(sim.Component):
        def process(self):
            while True:
                self.passivate()

    if case["mode"] == "yield":

        class X(sim.Component):
            def process(self):
                while True:
                    yield self.passivate()

    generated = []

    class Generated(sim.Component):
        def setup(self):
            generated.append(self.env.now())

    r = sim.Resource("r", capacity=1)
    s = sim.State("s")
    store, full = sim.Store("store"), sim.Store("full", capacity=1)
    sim.Component("item").enter(full)
    x = X("x")
    env.run(0)
    nontrivial = 0
    labels = []

    def blocked(fn, kw):
        """a component that requests with a time limit"""
        comp = X("b")
        env.run(0)
        fn(comp, kw)
        return comp

    waits = {
        "request": lambda b, kw: b.request((r, 2), **kw), "wait": lambda b, kw: b.wait((s, "never"), **kw), "waitfor": lambda b, kw: b.wait_for(lambda: False, [s], **kw), "from": lambda b, kw: b.from_store(store, **kw),
        "to": lambda b, kw: b.to_store(full, sim.Component("another"), **kw),
    }
    for name, d, form in case["ops"]:
        now = env.now()
        if name != "datetime0":
            d = d * c.scale
        labels.append(form)
        if form not in ("num",) and d:
            nontrivial += 1
        if name in ("hold till", "activate at", "create at", "run till", "gen at", "moments", "query") or name.endswith("fail_at"):
            spec, t = c.time(now + d, form)
            if t < now:  # rounded to seconds
                spec = t = now
        elif name == "reset_now":
            spec, t = c.time(d, form)
        elif name not in ("roundtrip", "datetime0"):
            spec, dd = c.duration(d, form)
            t = now + dd
        what = f"{name} {spec if name not in ('roundtrip', 'datetime0') else ''} at {now} ({c.unit})"

        def expect(got, t=None):
            close(got, t, what, rel=1e-9, abs_=c.tol)

        if name == "hold till":
            x.hold(till=spec)
            expect(x.scheduled_time(), t)
        elif name == "hold":
            x.hold(spec)
            expect(x.scheduled_time(), t)
        elif name == "activate at":
            x.activate(at=spec)
            expect(x.scheduled_time(), t)
        elif name == "activate delay":
            x.activate(delay=spec)
            expect(x.scheduled_time(), t)
        elif name == "create at":
            expect(X(at=spec).scheduled_time(), t)
        elif name == "create delay":
            expect(X(delay=spec).scheduled_time(), t)
        elif name == "run till":
            env.run(till=spec)
            expect(env.now(), t)
        elif name == "run":
            env.run(spec)
            expect(env.now(), t)
        elif name.endswith(("fail_at", "fail_delay")):
            kind, par = name.split()
            b = blocked(waits[kind], {par: spec})
            expect(b.scheduled_time(), t)
            b.cancel()
        elif name in ("gen at", "gen delay"):
            g = sim.ComponentGenerator(Generated, iat=1, number=1, force_at=True, **{name.split()[1]: spec})
            expect(g.scheduled_time(), t)
            g.cancel()
        elif name == "moments":
            g = sim.ComponentGenerator(Generated, moments=[spec, now + 2 * d + 1])
            expect(g.scheduled_time(), t)
            g.cancel()
        elif name == "gen duration":
            if t - now > 0:
                g = sim.ComponentGenerator(Generated, iat=(t - now) * 3 / 4, duration=spec, force_at=True)
                generated.clear()
                env.run((t - now) * 3)
                expect(generated, [now, now + (t - now) * 3 / 4])
        elif name == "query":
            expect(env.spec_to_time(spec), t)
            expect(env.datetime_to_t(c.date(t)), t)
        elif name == "reset_now":
            env.reset_now(spec)
            expect(env.now(), t)
            # t=0 is another date now
            before = c.zero
            c.zero = c.zero + datetime.timedelta(seconds=(now - env.now()) * c.s)
            check(abs((env.datetime0() - c.zero).total_seconds()) < 1e-5, "datetime0 after reset_now", env.datetime0(), c.zero)
            c.zero = env.datetime0()
        elif name == "datetime0":
            c.zero = c.zero + datetime.timedelta(seconds=d)
            equal(env.datetime0(c.zero), c.zero, "datetime0(new)")
        elif name == "roundtrip":
            t = now + d
            date = c.date(t)
            check(abs((env.t_to_datetime(t) - date).total_seconds()) < 2e-6 + 1e-9 * abs(t) * c.s, "t_to_datetime", t, env.t_to_datetime(t), date)
            expect(env.datetime_to_t(env.t_to_datetime(t)), t)
            expect(env.timedelta_to_duration(env.duration_to_timedelta(d)), d)
            equal(env.t_to_datetime(inf), inf, "t_to_datetime(inf)")
            real = env.t_to_datetime(t)
            equal(env.time_to_str(t), real.strftime("%a %Y-%m-%d %H:%M:%S"), f"time_to_str({t})")
            txt = env.duration_to_str(d)
            days, hms = txt.split() if " " in txt else (0, txt)
            h, m, sec = (int(i) for i in hms.split(":"))
            total = int(days) * 86400 + h * 3600 + m * 60 + sec
            check(h < 24 and m < 60 and sec < 60 and -1e-4 <= d * c.s - total < 1 + 1e-4, f"duration_to_str({d}) is {txt}")
    return labels + (["nontrivial"] if nontrivial >= 2 else [])


capping = st.fixed_dictionaries(
    dict(op=st.sampled_from(["hold", "hold till", "activate", "activate at", "create", "create at", "run", "run till", "request", "wait", "waitfor", "from", "to"]), d=st.sampled_from([-1, -0.5, -10, 0, 1]),
         par=st.sampled_from([None, None, True, False]), default=st.booleans(), context=st.sampled_from([None, True, False]), t0=st.sampled_from([0, 3]), shift=st.sampled_from([0, 7]), mode=st.sampled_from(["yieldless", "yield"]))
)


def run_cap(case):
    fresh()
    sim.yieldless(case["mode"] == "yieldless")
    env = sim.Environment(trace=False)

    class X(sim.Component):
        def process(self):
            while True:
                self.passivate()

    if case["mode"] == "yield":

        class X(sim.Component):
            def process(self):
                while True:
                    yield self.passivate()

    r, s, store, full = sim.Resource(), sim.State(), sim.Store(), sim.Store(capacity=1)
    sim.Component("item").enter(full)
    x = X()
    env.run(case["t0"] + 11)
    env.reset_now(case["shift"] + 10)
    sim.default_cap_now(case["default"])
    now, d = env.now(), case["d"]
    kw = {} if case["par"] is None else dict(cap_now=case["par"])
    made = []

    def create(**k):
        made.append(X(**k, **kw))

    f = {
        "hold": lambda: x.hold(d, **kw), "hold till": lambda: x.hold(till=now + d, **kw), "activate": lambda: x.activate(delay=d, **kw), "activate at": lambda: x.activate(at=now + d, **kw), "create": lambda: create(delay=d),
        "create at": lambda: create(at=now + d), "run": lambda: env.run(d, **kw), "run till": lambda: env.run(till=now + d, **kw), "request": lambda: x.request((r, 2), fail_delay=d, **kw), "wait": lambda: x.wait((s, 9), fail_at=now + d, **kw),
        "waitfor": lambda: x.wait_for(lambda: False, [s], fail_delay=d, **kw), "from": lambda: x.from_store(store, fail_at=now + d, **kw), "to": lambda: x.to_store(full, sim.Component(), fail_delay=d, **kw),
    }[case["op"]]
    cap = case["default"]
    if case["context"] is not None:
        cap = case["context"]
    if case["par"] is not None:
        cap = case["par"]
    ok = d >= 0 or cap
    what = f"{case['op']} {d} with cap_now={case['par']}, default_cap_now={case['default']}, context {case['context']}"
    try:
        if case["context"] is None:
            f()
        else:
            with sim.cap_now(case["context"]):
                f()
        done = True
    except ValueError:
        done = False
    check(done == ok, f"{what} is {'accepted' if done else 'refused'}")
    equal(sim.default_cap_now(), case["default"], "default_cap_now afterwards")
    t = now + max(0, d)
    if done:
        if case["op"].startswith("run"):
            equal(env.now(), t, what)
        elif made:
            equal(made[0].scheduled_time(), t, what)
        else:
            equal(x.scheduled_time(), t, what)
    return [case["op"], "capped" if d < 0 and ok else "normal" if ok else "refused"] + (["nontrivial"] if d < 0 else [])


FACETS = [
    Facet("conversions", st.fixed_dictionaries(dict(u=units, v=units, w=units, x=values, form=st.sampled_from(["num", "num", "dist", "call"]), other=st.booleans())), run_convert, quick=2000),
    Facet("without unit", st.fixed_dictionaries(dict(v=units)), run_na, quick=16),
    Facet("schedules", schedules, run_schedule, quick=2400),
    Facet("cap_now", capping, run_cap, quick=1200),
]
