import contextlib
import datetime
import io
import random
import sys

from ..core import Facet, check, equal, fail
from ..drive import Driver, diff_logs, fresh, sim
from ..gen import *
from ..mixed import mixed

PROPERTY = "C33"
RULE = "at least 5 invalid calls of at least 3 kinds were tried while the model was running (facet model); the monitor has data and at least 3 invalid calls were tried (facet monitors)"

REFUSED = (ValueError, TypeError, AttributeError, IndexError, NotImplementedError, sim.QueueFullError, KeyError)

gens = st.lists(st.tuples(st.sampled_from([0, 1, 2, 3, 9]), st.integers(1, 4), st.sampled_from([None, 0, 1, 2.5]), st.booleans()).map(list), max_size=1)


def on_data(name, call):
    def f(d, me, c, i):
        if c.isdata() and c is not me:
            return lambda: call(d, c, i)

    f.name = name
    return f


def when(name, cond, call):
    def f(d, me, c, i):
        if cond(d, me, c, i):
            return lambda: call(d, me, c, i)

    f.name = name
    return f


def running(d, me, c, i):
    return me is not d.env.main()


def any_time(d, me, c, i):
    return True


def inside(d, me, c, i):
    return len(store(d, i)) > 0


def member(d, i):
    """a component that is in the store"""
    return store(d, i)[i % len(store(d, i))]


def standing(d):
    return next((c for c in d.allcomps if c.isstandby()), None)


def full(d, me, c, i):
    return outside(d, me, c, i) and store(d, i).available_quantity() <= 0


def store(d, i):
    return d.stores[i % len(d.stores)]


def outside(d, me, c, i):
    return c not in store(d, i)


class YieldProcess(sim.Component):
    def process(self):
        yield self.hold(1)


class OverlappingSetup(sim.Component):
    def setup(self, delay):
        pass


class OverlappingProcess(sim.Component):
    def setup(self, q):
        pass

    def process(self, q):
        self.hold(1)


TRIES = [
    on_data("hold data", lambda d, c, i: c.hold(1)),
    on_data("passivate data", lambda d, c, i: c.passivate()),
    on_data("standby data", lambda d, c, i: c.standby()),
    on_data("request data", lambda d, c, i: c.request(d.res[0])),
    on_data("get data", lambda d, c, i: c.get((d.res[2], 1))),
    on_data("put data", lambda d, c, i: c.put((d.res[2], 1))),
    on_data("wait data", lambda d, c, i: c.wait((d.states[0], 99))),
    on_data("wait_for data", lambda d, c, i: c.wait_for(lambda: False, states=[d.states[0]])),
    on_data("from_store data", lambda d, c, i: c.from_store(store(d, i))),
    on_data("to_store data", lambda d, c, i: c.to_store(store(d, i), c)),
    when("standby main", running, lambda d, me, c, i: d.env.main().standby()),
    when("request main", running, lambda d, me, c, i: d.env.main().request(d.res[0])),
    when("wait main", running, lambda d, me, c, i: d.env.main().wait((d.states[0], 99))),
    when("from_store main", running, lambda d, me, c, i: d.env.main().from_store(store(d, i))),
    when("to_store main", running, lambda d, me, c, i: d.env.main().to_store(store(d, i), me)),
    when("resume", lambda d, me, c, i: not c.isinterrupted(), lambda d, me, c, i: c.resume()),
    when("resume all", lambda d, me, c, i: not c.isinterrupted(), lambda d, me, c, i: c.resume(all=True)),
    when("interrupted_status", lambda d, me, c, i: not c.isinterrupted(), lambda d, me, c, i: c.interrupted_status()),
    when("interrupt", lambda d, me, c, i: not (c.isinterrupted() or c.isscheduled()), lambda d, me, c, i: c.interrupt()),
    when("activate unknown process", lambda d, me, c, i: True, lambda d, me, c, i: c.activate(process="unknown")),
    when("activate unknown argument", lambda d, me, c, i: True, lambda d, me, c, i: c.activate(process="alt", unknown=1)),
    when("hold till the past", running, lambda d, me, c, i: me.hold(till=d.env.now() - 1)),
    when("hold negative", running, lambda d, me, c, i: me.hold(-0.5)),
    when("hold duration and till", running, lambda d, me, c, i: me.hold(1, till=d.env.now() + 1)),
    when("enter again", inside, lambda d, me, c, i: member(d, i).enter(store(d, i))),
    when("enter_sorted again", inside, lambda d, me, c, i: member(d, i).enter_sorted(store(d, i), 3)),
    when("enter_at_head again", inside, lambda d, me, c, i: member(d, i).enter_at_head(store(d, i))),
    when("leave", outside, lambda d, me, c, i: c.leave(store(d, i))),
    when("remove", outside, lambda d, me, c, i: store(d, i).remove(c)),
    when("priority", outside, lambda d, me, c, i: c.priority(store(d, i))),
    when("set priority", outside, lambda d, me, c, i: c.priority(store(d, i), 5)),
    when("successor", outside, lambda d, me, c, i: c.successor(store(d, i))),
    when("predecessor", outside, lambda d, me, c, i: store(d, i).predecessor(c)),
    when("enter_time", outside, lambda d, me, c, i: c.enter_time(store(d, i))),
    when("in front of a non member", lambda d, me, c, i: outside(d, me, c, i) and me not in store(d, i), lambda d, me, c, i: c.enter_in_front_of(store(d, i), me)),
    when("behind a non member", lambda d, me, c, i: outside(d, me, c, i) and me not in store(d, i), lambda d, me, c, i: c.enter_behind(store(d, i), me)),
    when("insert before 0", outside, lambda d, me, c, i: store(d, i).insert(-1, c)),
    when("insert after the end", outside, lambda d, me, c, i: store(d, i).insert(len(store(d, i)) + 1, c)),
    when("index", lambda d, me, c, i: True, lambda d, me, c, i: store(d, i)[len(store(d, i))]),
    when("index", lambda d, me, c, i: True, lambda d, me, c, i: store(d, i)[-len(store(d, i)) - 1]),
    when("pop", lambda d, me, c, i: True, lambda d, me, c, i: store(d, i).pop(len(store(d, i)))),
    when("index str", lambda d, me, c, i: True, lambda d, me, c, i: store(d, i)["x"]),
    when("enter full", lambda d, me, c, i: outside(d, me, c, i) and store(d, i).available_quantity() <= 0, lambda d, me, c, i: c.enter(store(d, i))),
    when("enter_at_head full", lambda d, me, c, i: outside(d, me, c, i) and store(d, i).available_quantity() <= 0, lambda d, me, c, i: c.enter_at_head(store(d, i))),
    when("insert full", lambda d, me, c, i: outside(d, me, c, i) and store(d, i).available_quantity() <= 0, lambda d, me, c, i: store(d, i).insert(0, c)),
    when("release unclaimed", lambda d, me, c, i: d.res[i % 2] not in c.claimed_resources(), lambda d, me, c, i: c.release(d.res[i % 2])),
    when("release unclaimed", lambda d, me, c, i: d.res[i % 2] not in c.claimed_resources(), lambda d, me, c, i: c.release((d.res[i % 2], 1))),
    when("release anonymous", lambda d, me, c, i: True, lambda d, me, c, i: c.release(d.res[2])),
    when("release quantity", lambda d, me, c, i: True, lambda d, me, c, i: d.res[i % 2].release(1)),
    when("request negative", running, lambda d, me, c, i: me.request((d.res[i % 2], -1))),
    when("request two fails", running, lambda d, me, c, i: me.request(d.res[i % 3], fail_at=d.env.now() + 1, fail_delay=2)),
    when("request something else", running, lambda d, me, c, i: me.request("r0")),
    when("request several preemptive", lambda d, me, c, i: running(d, me, c, i) and d.case["res"][1].get("pre"), lambda d, me, c, i: me.request(d.res[1], d.res[0])),
    when("wait nothing", running, lambda d, me, c, i: me.wait()),
    when("wait something else", running, lambda d, me, c, i: me.wait("st0")),
    when("wait something else", running, lambda d, me, c, i: me.wait(("st0", 1))),
    when("wait two fails", running, lambda d, me, c, i: me.wait(d.states[0], fail_at=d.env.now() + 1, fail_delay=2)),
    when("wait_for two fails", running, lambda d, me, c, i: me.wait_for(lambda: False, states=[d.states[0]], fail_at=d.env.now() + 1, fail_delay=2)),
    when("from_store nothing", running, lambda d, me, c, i: me.from_store([])),
    when("from_store twice the same", running, lambda d, me, c, i: me.from_store([store(d, i), store(d, i)])),
    when("from_store two fails", running, lambda d, me, c, i: me.from_store(store(d, i), fail_at=d.env.now() + 1, fail_delay=2)),
    when("to_store nothing", running, lambda d, me, c, i: me.to_store([], me)),
    when("to_store twice the same", running, lambda d, me, c, i: me.to_store([store(d, i), store(d, i)], me)),
    when("to_store two fails", running, lambda d, me, c, i: me.to_store(store(d, i), me, fail_at=d.env.now() + 1, fail_delay=2)),
    when("remaining_duration current", running, lambda d, me, c, i: me.remaining_duration(3)),
    when("remaining_duration standby", lambda d, me, c, i: standing(d) is not None, lambda d, me, c, i: standing(d).remaining_duration(3)),
    on_data("remaining_duration data", lambda d, c, i: c.remaining_duration(3)),
    when("create unknown process", lambda d, me, c, i: True, lambda d, me, c, i: sim.Component("bad", process="unknown", env=d.env)),
    when("create data with at", lambda d, me, c, i: True, lambda d, me, c, i: sim.Component("bad", process="", at=100, env=d.env)),
    when("create data with delay", lambda d, me, c, i: True, lambda d, me, c, i: sim.Component("bad", delay=1, env=d.env)),
    when("create data with urgent", lambda d, me, c, i: True, lambda d, me, c, i: sim.Component("bad", urgent=True, env=d.env)),
    when("create in the past", lambda d, me, c, i: True, lambda d, me, c, i: d.Comp("bad", at=d.env.now() - 1, script=[], alt=[], loop=1, env=d.env)),
    when("initial claim", lambda d, me, c, i: True, lambda d, me, c, i: sim.Resource("bad", capacity=2, initial_claimed_quantity=1, env=d.env)),
    when("weight of a level monitor", lambda d, me, c, i: True, lambda d, me, c, i: d.res[0].claimed_quantity.tally(1, weight=2)),
]
# the same, for (other) components in any status
both = lambda d: dict(fail_at=d.env.now() + 1, fail_delay=2)
TRIES += [
    when("hold duration and till any", any_time, lambda d, me, c, i: c.hold(1, till=d.env.now() + 1, mode="bad")),
    when("hold till the past any", any_time, lambda d, me, c, i: c.hold(till=d.env.now() - 1, mode="bad")),
    when("hold negative any", any_time, lambda d, me, c, i: c.hold(-0.5, priority=-1, urgent=True)),
    when("hold interrupted negative", any_time, lambda d, me, c, i: c.hold(-0.5, interrupted=True)),
    when("activate in the past", any_time, lambda d, me, c, i: c.activate(at=d.env.now() - 1, mode="bad")),
    when("activate negative", any_time, lambda d, me, c, i: c.activate(delay=-1)),
    when("activate process in the past", any_time, lambda d, me, c, i: c.activate(at=d.env.now() - 1, process="alt")),
    when("activate keep in the past", any_time, lambda d, me, c, i: c.activate(delay=-1, keep_request=True, keep_wait=True)),
    when("request negative second", any_time, lambda d, me, c, i: c.request(d.res[0], (d.res[1], -1), mode="bad")),
    when("request something else second", any_time, lambda d, me, c, i: c.request(d.res[i % 3], "r0")),
    when("request two fails any", any_time, lambda d, me, c, i: c.request(d.res[i % 3], oneof=True, **both(d))),
    when("get two fails", any_time, lambda d, me, c, i: c.get(d.res[2], **both(d))),
    when("put two fails", any_time, lambda d, me, c, i: c.put(d.res[2], **both(d))),
    when("put not anonymous", any_time, lambda d, me, c, i: c.put(d.res[i % 2])),
    when("put not anonymous second", any_time, lambda d, me, c, i: c.put(d.res[2], d.res[0])),
    when("wait nothing any", any_time, lambda d, me, c, i: c.wait(mode="bad")),
    when("wait something else second", any_time, lambda d, me, c, i: c.wait(d.states[0], "st0")),
    when("wait too many", any_time, lambda d, me, c, i: c.wait((d.states[0], 1), (d.states[1], 1, 0, 0))),
    when("wait two fails any", any_time, lambda d, me, c, i: c.wait(d.states[0], all=True, **both(d))),
    when("wait_for nothing", any_time, lambda d, me, c, i: c.wait_for(lambda: False, states=[])),
    when("wait_for two fails any", any_time, lambda d, me, c, i: c.wait_for(lambda: False, states=[d.states[0]], **both(d))),
    when("from_store nothing any", any_time, lambda d, me, c, i: c.from_store([])),
    when("from_store twice the same any", any_time, lambda d, me, c, i: c.from_store([store(d, i), store(d, i)])),
    when("from_store two fails any", any_time, lambda d, me, c, i: c.from_store(store(d, i), **both(d))),
    when("to_store nothing any", any_time, lambda d, me, c, i: c.to_store([], me)),
    when("to_store twice the same any", any_time, lambda d, me, c, i: c.to_store([store(d, i), store(d, i)], me)),
    when("to_store two fails any", any_time, lambda d, me, c, i: c.to_store(store(d, i), me, **both(d))),
    when("create data with priority", any_time, lambda d, me, c, i: sim.Component("bad", priority=1, env=d.env)),
    when("no process", any_time, lambda d, me, c, i: sim.Component("bad", env=d.env).activate()),
    when("add again", inside, lambda d, me, c, i: store(d, i).add(member(d, i))),
    when("add_at_head again", inside, lambda d, me, c, i: store(d, i).add_at_head(member(d, i))),
    when("add_sorted again", inside, lambda d, me, c, i: store(d, i).add_sorted(member(d, i), -5)),
    when("insert again", inside, lambda d, me, c, i: store(d, i).insert(0, member(d, i))),
    when("in front of again", inside, lambda d, me, c, i: member(d, i).enter_in_front_of(store(d, i), store(d, i)[0])),
    when("behind again", inside, lambda d, me, c, i: member(d, i).enter_behind(store(d, i), store(d, i)[-1])),
    when("add full", full, lambda d, me, c, i: store(d, i).add(c)),
    when("append full", full, lambda d, me, c, i: store(d, i).append(c)),
    when("add_at_head full", full, lambda d, me, c, i: store(d, i).add_at_head(c)),
    when("enter_sorted full", full, lambda d, me, c, i: c.enter_sorted(store(d, i), i - 2)),
    when("insert at end full", full, lambda d, me, c, i: store(d, i).insert(len(store(d, i)), c)),
    when("in front of full", lambda *a: full(*a) and len(store(a[0], a[3])), lambda d, me, c, i: c.enter_in_front_of(store(d, i), store(d, i)[0])),
    when("behind full", lambda *a: full(*a) and len(store(a[0], a[3])), lambda d, me, c, i: c.enter_behind(store(d, i), store(d, i)[-1])),
    when("del str", any_time, lambda d, me, c, i: store(d, i).__delitem__("x")),
    when("del", any_time, lambda d, me, c, i: store(d, i).__delitem__(len(store(d, i)))),
    when("release something else", any_time, lambda d, me, c, i: c.release("r0")),
    when("extend and clear a list", outside, lambda d, me, c, i: store(d, i).extend([c], clear_source=True)),
    when("move to full", lambda d, me, c, i: inside(d, me, c, i) and store(d, i + 1).available_quantity() <= 0, lambda d, me, c, i: member(d, i).enter(store(d, i + 1))),
    when("create generator process", lambda d, me, c, i: d.case["mode"] == "yieldless", lambda d, me, c, i: YieldProcess("bad", env=d.env)),
    when("activate generator process", lambda d, me, c, i: d.case["mode"] == "yieldless", lambda d, me, c, i: YieldProcess("bad", process="", env=d.env).activate(process="process")),
    when("create overlapping", any_time, lambda d, me, c, i: OverlappingSetup("bad", env=d.env)),
    when("create overlapping process", any_time, lambda d, me, c, i: OverlappingProcess("bad", q=1, env=d.env)),
    when("run duration and till", lambda d, me, c, i: not running(d, me, c, i), lambda d, me, c, i: d.env.run(1, till=d.env.now() + 1)),
    when("run till the past", lambda d, me, c, i: not running(d, me, c, i), lambda d, me, c, i: d.env.run(till=d.env.now() - 1)),
    when("run negative", lambda d, me, c, i: not running(d, me, c, i), lambda d, me, c, i: d.env.run(-1)),
]
tries = st.lists(st.tuples(st.integers(0, len(TRIES) - 1), st.integers(0, 5), st.integers(0, 5)).map(list), min_size=6, max_size=25)


class Intruder:
    def __init__(self, case):
        self.tries = case["tries"]
        self.n = 0
        self.done = []

    def __call__(self, d):
        t, c, i = self.tries[self.n % len(self.tries)]
        self.n += 1
        if not d.allcomps:
            return
        f = TRIES[t]
        call = f(d, d.env.current_component(), d.allcomps[c % len(d.allcomps)], i)
        if call is None:
            return
        self.done.append(f.name)
        main = d.env.main()
        before = (main.status(), main.scheduled_time(), d.env.current_component(), d.env.now(), main.mode())
        try:
            call()
        except REFUSED:
            after = (main.status(), main.scheduled_time(), d.env.current_component(), d.env.now(), main.mode())
            check(before == after, f"main (status, scheduled time), current component or now changed by the refused call {f.name}", before, after)
            return
        fail(f"invalid call is not refused: {f.name}")


def run(case):
    fresh()
    base = Driver(sim, case, mode=case["mode"], env_kwargs=dict(random_seed=case["seed"]))
    base.execute()
    intruder = Intruder(case)
    d = Driver(sim, case, mode=case["mode"], env_kwargs=dict(random_seed=case["seed"]), hooks=intruder, trace=io.StringIO() if case["trace"] else None)
    d.execute()
    diff_logs(base.log, d.log, "plain run", f"run with refused calls {sorted(set(intruder.done))}")
    for (name, x), (_, y) in zip(base.statistics(), d.statistics()):
        equal(y, x, name)
    kinds = set(intruder.done)
    return [case["mode"]] + sorted(kinds) + (["nontrivial"] if len(intruder.done) >= 5 and len(kinds) >= 3 else [])


# ---- monitors

LEVEL = ["bin_duration", "value_duration", "duration", "duration_zero", "xduration"]
NONLEVEL = ["bin_number_of_entries", "bin_weight", "value_number_of_entries", "value_weight", "number_of_entries", "number_of_entries_zero", "weight", "weight_zero", "x", "xweight"]
ARGS = {"bin_duration": (0, 2), "bin_number_of_entries": (0, 2), "bin_weight": (0, 2), "value_duration": (1,), "value_number_of_entries": (1,), "value_weight": (1,)}
DATA = {  # these need all values, so are not available for stats_only monitors
    "bin_duration": "level", "value_duration": "level", "bin_number_of_entries": "non level", "bin_weight": "non level", "value_number_of_entries": "non level", "value_weight": "non level", "x": "non level", "xweight": "non level", "xduration": "level",
}
ANY = {
    "percentile": lambda m: m.percentile(50), "median": lambda m: m.median(), "xt": lambda m: m.xt(), "tx": lambda m: m.tx(), "values": lambda m: m.values(), "slice": lambda m: m[0:1], "add": lambda m: m + m, "freeze": lambda m: m.merge(m),
    "print_histogram": lambda m: m.print_histogram(as_str=True), "histogram values": lambda m: m.print_histogram(values=True, as_str=True), "as_dataframe": lambda m: m.as_dataframe(),
}
mon_cases = st.fixed_dictionaries(
    dict(
        level=bools, stats_only=bools, values=st.lists(st.tuples(st.sampled_from([0, 0.5, 1]), st.sampled_from([0, 1, 2, 3, -1])).map(list), min_size=1, max_size=6),
        tries=st.lists(st.sampled_from(LEVEL + NONLEVEL + list(ANY) + ["weight of level", "value set", "t_multiply", "multiply", "off", "mix", "eq", "frozen", "call", "get", "initial", "fill", "type", "sort", "sort2", "interpolation", "merge", "x_map", "modulo", "modulo2", "call t", "tally off", "multiply type", "twice", "resampled", "resampled mix"]), min_size=3, max_size=15, unique=True),
    )
)


def statistics(m, level):
    result = [m.mean(), m.std(), m.minimum(), m.maximum()]
    result += [m.duration(), m.duration_zero(), m.mean(ex0=True)] if level else [m.number_of_entries(), m.weight(), m.mean(ex0=True)]
    return result


def run_monitors(case):
    fresh()
    env = sim.Environment(yieldless=True)
    level, stats_only = case["level"], case["stats_only"]
    m = sim.Monitor("m", level=level, stats_only=stats_only, env=env)
    other = sim.Monitor("other", level=not level, env=env)
    elsewhere = sim.Monitor("elsewhere", level=level, env=sim.Environment(yieldless=True, isdefault_env=False))
    history = []
    for dt, v in case["values"]:
        env.run(dt)
        m.tally(v)
        history.append((env.now(), v))
    before = statistics(m, level)
    full = None if stats_only else (m.xt() if level else m.tx())
    done = []

    def refused(name, call):
        done.append(name)
        try:
            call()
        except REFUSED:
            return
        fail(f"{name} is not refused for a {'level' if level else 'non level'} {'stats_only ' if stats_only else ''}monitor")

    for name in case["tries"]:
        if name in LEVEL + NONLEVEL:
            if (name in LEVEL) != level or (stats_only and name in DATA):
                refused(name, lambda: getattr(m, name)(*ARGS.get(name, ())))
        elif name in ANY:
            if stats_only and name not in ("print_histogram", "histogram values"):
                refused(name, lambda: ANY[name](m))
            elif stats_only:
                pass  # these are just less informative
        elif name == "weight of level" and level:
            refused(name, lambda: m.tally(1, weight=2))
        elif name == "t_multiply" and not level:
            refused(name, lambda: m.t_multiply(2))
        elif name == "t_multiply" and not stats_only:
            refused(name, lambda: m.t_multiply(-1))
        elif name == "multiply" and level:
            refused(name, lambda: m.multiply(2))
        elif name == "mix" and not stats_only:
            refused(name, lambda: m + other)
            refused(name, lambda: m.merge(other))
        elif name == "eq":
            refused(name, lambda: m == 1)
        elif name in ("call", "get") and not level:
            refused(name, (lambda: m()) if name == "call" else (lambda: m.get()))
        elif name == "value set" and not level:
            refused(name, lambda: setattr(m, "value", 1))
            refused(name, lambda: m.value)
            refused(name, lambda: m.t() if callable(m.t) else m.t)
        elif name == "frozen" and not stats_only:
            f = m.freeze()
            for call in (lambda: f.tally(1), f.reset, lambda: f.monitor(True)):
                refused(name, call)
            for derived in (m[0:1], m + m):
                for call in (lambda: derived.tally(1), derived.reset, lambda: derived.monitor(True)):
                    refused(name, call)
        elif name == "initial":
            refused(name, lambda: sim.Monitor("bad", level=False, initial_tally=1, env=env))
        elif name == "fill":
            refused(name, lambda: sim.Monitor("bad", level=True, fill=[1], env=env))
            refused(name, lambda: sim.Monitor("bad", stats_only=True, fill=[1], env=env))
        elif name == "type":
            refused(name, lambda: sim.Monitor("bad", type="unknown", env=env))
        elif name == "sort" and not stats_only:
            refused(name, (lambda: m.print_histogram(values=True, sort_on_weight=True, as_str=True)) if level else (lambda: m.print_histogram(values=True, sort_on_duration=True, as_str=True)))
            refused(name, lambda: m.values(**({"sort_on_weight": True} if level else {"sort_on_duration": True})))
        elif name == "interpolation" and not stats_only:
            refused(name, lambda: m.percentile(50, interpolation="unknown"))
        elif name == "merge" and not stats_only:
            refused(name, lambda: m.merge(m, unknown=1))
            refused(name, lambda: m.merge(1))
            refused(name, lambda: m.merge(elsewhere))
            refused(name, lambda: m + elsewhere)
            refused(name, lambda: m + 1)
        elif name == "x_map" and not stats_only:
            refused(name, lambda: m.x_map(lambda x, y: x, [other]))
            refused(name, lambda: m.x_map(lambda x, y: x, [elsewhere]))
        elif name == "modulo" and not stats_only:
            refused(name, lambda: m.slice(modulo=2))
            refused(name, lambda: m.slice(0, modulo=2))
            refused(name, lambda: m.slice(stop=1, modulo=2))
        elif name == "modulo2" and not stats_only:
            refused(name, lambda: m.slice(1, 0.5, 2))
            refused(name, lambda: m.slice(0.5, 3, 2))
        elif name == "call t" and level and stats_only and env.now() > 0:
            refused(name, lambda: m(0))
            refused(name, lambda: m.get(0))
        elif name == "tally off" and level and not stats_only:
            refused(name, lambda: m.tally(m.off))
            refused(name, lambda: setattr(m, "value", m.off))
        elif name == "multiply type" and not stats_only and not level:
            refused(name, lambda: sim.Monitor("bad", type="int8", fill=[1, 2], env=env).multiply(2))
            refused(name, lambda: sim.Monitor("bad", type="any", fill=[1, 2], env=env).multiply(2))
        elif name == "sort2" and not stats_only:
            refused(name, lambda: m.print_histogram(values=True, sort_on_value=True, as_str=True, **{"sort_on_duration" if level else "sort_on_weight": True}))
        elif name == "twice" and not stats_only:
            refused(name, lambda: m.print_histogram(values=(1, 2, 1), as_str=True))
        elif name == "resampled" and not stats_only:
            refused(name, lambda: m.as_resampled_dataframe(use_datetime0=True))
            refused(name, lambda: m.as_resampled_dataframe(delta_t=datetime.timedelta(seconds=1)))
            refused(name, lambda: m.as_resampled_dataframe(min_t=datetime.datetime(2024, 1, 1)))
            refused(name, lambda: m.as_resampled_dataframe(max_t=datetime.datetime(2024, 1, 1)))
        elif name == "resampled mix" and not stats_only:
            refused(name, lambda: m.as_resampled_dataframe([other]))
            refused(name, lambda: m.as_resampled_dataframe([elsewhere]))
            if env.now() > 0 and level:
                refused(name, lambda: m.as_resampled_dataframe([sim.Monitor("later", level=True, env=env)]))
    equal(statistics(m, level), before, "statistics after refused calls")
    if not stats_only:
        equal(m.xt() if level else m.tx(), full, "data after refused calls")
    return ["level" if level else "non level", "stats_only" if stats_only else "full"] + done + (["nontrivial"] if len(done) >= 3 else [])


# ---- definitions of distributions, generators, etc., and helpers

BAD = {
    "distribution": [
        lambda: sim.Exponential(), lambda: sim.Exponential(0), lambda: sim.Exponential(-2), lambda: sim.Exponential(rate=0), lambda: sim.Exponential(rate=-1), lambda: sim.Exponential(1, rate=1),
        lambda: sim.Normal(1, -1), lambda: sim.Normal(1, 1, coefficient_of_variation=1), lambda: sim.Normal(0, coefficient_of_variation=1), lambda: sim.Normal(1, coefficient_of_variation=-1), lambda: sim.Uniform(3, 1),
        lambda: sim.IntUniform(1.5, 3), lambda: sim.IntUniform(1, 2.5), lambda: sim.IntUniform(3, 1), lambda: sim.Triangular(3, 1), lambda: sim.Triangular(0, 2, 3), lambda: sim.Triangular(0, 2, -1), lambda: sim.Poisson(0), lambda: sim.Poisson(-1),
        lambda: sim.Weibull(1, 0), lambda: sim.Gamma(0, 1), lambda: sim.Gamma(1), lambda: sim.Gamma(1, 1, rate=1), lambda: sim.Gamma(1, rate=0), lambda: sim.Gamma(1, scale=-1), lambda: sim.Beta(0, 1), lambda: sim.Beta(1, 0),
        lambda: sim.Erlang(0, 1), lambda: sim.Erlang(1.5, 1), lambda: sim.Erlang(1), lambda: sim.Erlang(1, rate=1, scale=1), lambda: sim.Erlang(1, scale=0), lambda: sim.Erlang(1, rate=-1),
        lambda: sim.Cdf(()), lambda: sim.Cdf((1, 2)), lambda: sim.Cdf((1, 0, 2)), lambda: sim.Cdf((1, 0, 2, 50, 1, 100)), lambda: sim.Cdf((1, 0, 2, 50, 3, 40)), lambda: sim.Cdf((1, 0, 2, 0)),
        lambda: sim.Pdf(()), lambda: sim.Pdf((1, 2, 3)), lambda: sim.Pdf((1, 2), (1, 2, 3)), lambda: sim.Pdf((1, 0, 2, 0)),
        lambda: sim.Pdf((sim.Exponential(1), 1), time_unit="hours"), lambda: sim.Pdf(("a", 1), time_unit="hours"),
        lambda: sim.CumPdf(()), lambda: sim.CumPdf((1, 2, 3)), lambda: sim.CumPdf((1, 2), (1, 2, 3)), lambda: sim.CumPdf((1, 0.5, 2, 0.4)), lambda: sim.CumPdf((1, 2), "a"), lambda: sim.CumPdf((sim.Exponential(1), 1), time_unit="hours"), lambda: sim.CumPdf(("a", 1), time_unit="hours"),
        lambda: sim.Exponential(1, time_unit="unknown"), lambda: sim.Uniform(1, 2, time_unit="eons"),
    ],
    "sample": [lambda: sim.Pdf((1, 2, 3), 1).sample(-1), lambda: sim.Pdf((1, 1, 2, 3)).sample(2), lambda: sim.CumPdf((1, 0.5, 2, 1)).sample(2)],
    "generator": [
        lambda: sim.ComponentGenerator("x", iat=1), lambda: sim.ComponentGenerator(sim.Component, iat=1, at=1, delay=1), lambda: sim.ComponentGenerator(sim.Component, iat=1, till=10, duration=10), lambda: sim.ComponentGenerator(sim.Component, iat=1, number=-1),
        lambda: sim.ComponentGenerator(sim.Component, disturbance=1), lambda: sim.ComponentGenerator(sim.Component, disturbance=1, till=10, number=3), lambda: sim.ComponentGenerator(lambda: None, iat=1, disturbance=1), lambda: sim.ComponentGenerator(sim.Component, moments=(1, 2), iat=1),
        lambda: sim.ComponentGenerator(sim.Component, moments=(1, 2), number=2), lambda: sim.ComponentGenerator(sim.Component), lambda: sim.ComponentGenerator(sim.Component, number=3), lambda: sim.ComponentGenerator(sim.Component, iat=1, force_till=True),
        lambda: sim.ComponentGenerator(sim.Component, till=10, number=1, force_at=True, force_till=True), lambda: sim.ComponentGenerator(sim.Component, at=20, till=10, number=3), lambda: sim.ComponentGenerator(sim.Component, at=20, till=10, number=3, equidistant=True),
        lambda: sim.ComponentGenerator(sim.Component, till=10, number=3, equidistant=True, iat=1),
    ],
    "helper": [
        lambda: sim.regular_polygon(number_of_sides=2), lambda: sim.interp(1, [], []), lambda: sim.interp(1, [1, 2], [1, 2, 3]), lambda: sim.searchsorted([1, 2], 1, side="middle"), lambda: sim.interpolate(1, 0, 2, (1, 2), 3),
        lambda: sim.TrajectoryPolygon((0, 0, 1, 1), spline="unknown"),
        lambda: sim.Queue().register(set()), lambda: sim.Queue().deregister(()), lambda: sim.Component().register({}), lambda: sim.Component().deregister({}), lambda: sim.Resource().register("x"), lambda: sim.Resource().deregister("x"), lambda: sim.State().register(()),
        lambda: sim.State().deregister(()), lambda: sim.Monitor().register(()), lambda: sim.Monitor().deregister(()), lambda: sim.Component().deregister([]), lambda: sim.Queue().deregister([]), lambda: sim.Store().deregister([sim.Store()]),
        lambda: sim.captured_stdout_as_file(io.StringIO(), mode="a"), lambda: sim.captured_stdout_as_file("/nonexistent/x", mode="x"), lambda: sim.redirect_stdout("/nonexistent/x", mode="x"), lambda: sim.redirect_stdout(io.StringIO(), mode="a"),
    ],
    "environment": [
        lambda: sim.default_env().datetime0(5), lambda: sim.default_env().get_time_unit("x"), lambda: sim.default_env().colorspec_to_tuple("unknown"), lambda: sim.default_env().colorspec_to_tuple((1, 2, 3, 4, 5)), lambda: sim.default_env().xy_anchor_to_x("x", False),
        lambda: sim.default_env().xy_anchor_to_y("x", False), lambda: sim.default_env().spec_to_time("no date"), lambda: sim.default_env().spec_to_duration("no date"), lambda: sim.default_env().timedelta_to_duration(datetime.timedelta(1)),
        lambda: sim.default_env().datetime_to_t(datetime.datetime(2024, 1, 1)), lambda: sim.default_env().t_to_datetime(1), lambda: sim.default_env().run(sim), lambda: sim.default_env().to_time_unit("eons", 1),
        lambda: sim.Environment(time_unit="eons", isdefault_env=False), lambda: sim.Environment(datetime0=5, isdefault_env=False),
    ],
}
COUNTS = {k: len(v) for k, v in BAD.items()}
definition = st.sampled_from(list(BAD)).flatmap(lambda k: st.tuples(st.just(k), st.integers(0, COUNTS[k] - 1)).map(list))
definitions = st.fixed_dictionaries(dict(bad=st.lists(definition, min_size=3, max_size=12), unit=st.sampled_from([None, "hours"]), time=st.sampled_from([0, 0, 2.5]), trace=bools, seed=st.integers(0, 3)))


def run_definitions(case):
    fresh()
    out = io.StringIO()
    env = sim.Environment(random_seed=case["seed"], yieldless=True, trace=out if case["trace"] else False, **(dict(time_unit=case["unit"]) if case["unit"] else {}))
    env.run(case["time"])
    peek, name, traced = env.peek(), sim.Component("c.").name(), out.getvalue()
    state, where = random.getstate(), sys.stdout
    for kind, i in case["bad"]:
        try:
            BAD[kind][i]()
        except (*REFUSED, AssertionError, OSError) as e:
            check(not isinstance(e, (AssertionError, OSError)), f"not properly refused: {kind} {i}", repr(e))
        else:
            fail(f"not refused: {kind} {i}")
        if kind in ("generator", "sample"):  # these may sample before they are refused
            state = random.getstate()
        check(random.getstate() == state, f"random stream changed by {kind} {i}")
        check(sys.stdout is where, f"stdout changed by {kind} {i}")
        check(sim.default_env() is env and env.current_component() is env.main(), f"default environment or current component changed by {kind} {i}")
        equal(env.peek(), peek, f"next event after {kind} {i}")
        equal(env.now(), case["time"], f"now() after {kind} {i}")
    equal(sim.Component("c.").sequence_number(), 1, "sequence number of the next component")
    env.run(5)
    equal(env.now(), case["time"] + 5, "now() after run")
    kinds = {k for k, _ in case["bad"]}
    return sorted(kinds) + (["nontrivial"] if len(kinds) >= 2 else [])


FACETS = [
    Facet("model", mixed(gens=gens, tries=tries, trace=st.booleans()), run, quick=1500),
    Facet("monitors", mon_cases, run_monitors, quick=1000),
    Facet("definitions", definitions, run_definitions, quick=1000),
]
