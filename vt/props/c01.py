from ..core import Facet, check
from ..drive import against_model
from ..gen import *

PROPERTY = "C01"
RULE = "at least 6 events were executed, with at least two events of different components at the same time"
ASSUMPTIONS = ["times are multiples of 0.5 (or 0.1 in the facet real), so no rounding in the oracle", "at most 6 (+4 created) components and 120 operations per model"]

N = 5
script = weighted(
    (6, op("hold", st.just(0), dur, prio, urgent)),
    (2, op("holdtill", st.just(0), dur, prio, urgent)),
    (1, st.just(["passivate", 0])),
    (4, op("activate", others(N), dur, prio, urgent)),
    (1, op("activate", st.just(0), dur, prio, urgent)),
    (1, op("hold", others(N), dur, prio, urgent)),
    (1, op("create", st.integers(0, N - 1))),
    (1, op("mainact", st.sampled_from([0, 0, 1]))),
    (1, op("activate", others(N), st.just(0), prio, urgent, st.none(), dur)),
)
main_ops = weighted((3, op("activate", others(N), dur, prio, urgent)), (1, op("hold", others(N), dur, prio, urgent)), (1, op("create", st.integers(0, N - 1))))
models = model(comp(script), main_ops, N)


def labels_of(log):
    moments = [(e[1], e[3][0][1]) for e in log if e[0] == "op"]
    labels = []
    ties = sum(1 for a, b in zip(moments, moments[1:]) if a[0] != b[0] and a[1] == b[1])
    if len(moments) >= 6 and ties:
        labels.append("nontrivial")
    return labels


def run(case):
    d = against_model(case)
    last = None
    for e in d.real.log:
        now = e[3][0][1] if e[0] == "op" else (e[2][0][1] if e[0] == "main" else None)
        if now is None:
            continue
        if last is not None and not (e[0] == "main" and e[1] == "reset_now"):
            check(now >= last, "the simulation clock runs backwards", last, now, e[:2])
        last = now
    return labels_of(d.log) + [case["mode"]]


# holds only, many ties, with an independent oracle (sorting), times are any float
holds = st.lists(
    st.lists(st.tuples(st.sampled_from([0, 0.1, 0.2, 0.3, 0.7, 1, 1, 1, 2]), st.sampled_from([0, 0, 1, -1, 2.5]), st.booleans()), min_size=1, max_size=6), min_size=2, max_size=8
).map(lambda x: dict(holds=x))


def run_holds(case):
    import salabim as sim

    from ..drive import fresh

    fresh()
    env = sim.Environment(yieldless=True)
    got = []

    class X(sim.Component):
        def setup(self, i, hs):
            self.i, self.hs = i, hs

        def process(self):
            for d, p, u in self.hs:
                self.hold(d, priority=p, urgent=u)
                got.append((env.now(), self.i))

    for i, hs in enumerate(case["holds"]):
        X(i=i, hs=hs)
    env.run()
    # oracle
    seq = 0
    events = []
    expected = []
    for i in range(len(case["holds"])):
        seq += 1
        events.append((0.0, 0, seq, i, 0))
    while events:
        events.sort()
        t, _, _, i, k = events.pop(0)
        if k:
            expected.append((t, i))
        if k < len(case["holds"][i]):
            d, p, u = case["holds"][i][k]
            seq += 1
            events.append((t + d, p, -seq if u else seq, i, k + 1))
    check(got == expected, "order of events", got, expected)
    check(env.now() == max(t for t, _ in expected), "end of simulation", env.now())
    return ["nontrivial"] if len({t for t, _ in got}) < len(got) else []


# Event objects: the action is executed exactly once, at the scheduled moment, unless cancelled
event_specs = st.tuples(st.sampled_from(["delay", "delay", "at", "now"]), st.sampled_from([0, 0.5, 1, 1, 2, 3.5]), st.sampled_from([0, 0, 1, -1]), st.booleans(), st.sampled_from([0, 0, 0, 1, 2])).map(list)  # kind, value, priority, urgent, chained events
controls = st.tuples(st.sampled_from([0, 0, 0.5, 1, 1, 2]), st.sampled_from([0, 0, 1, -1]), st.sampled_from(["create", "create", "cancel", "action", "move"]), st.integers(0, 7), event_specs).map(list)
event_cases = st.fixed_dictionaries(dict(mode=st.sampled_from(["yieldless", "yield"]), initial=st.lists(event_specs, max_size=4), controls=st.lists(st.lists(controls, min_size=1, max_size=6), min_size=1, max_size=2), how=st.sampled_from(["run", "till", "step"])))


def run_events(case):
    import salabim as sim

    from ..drive import fresh

    fresh()
    yieldless = case["mode"] == "yieldless"
    env = sim.Environment(yieldless=yieldless)
    got = []
    events = []

    def create(spec):
        kind, value, prio, urgent, chain = spec
        i = len(events)

        def action():
            got.append((env.now(), i, "first"))
            check(not events[i].action_taken(), "action_taken while executing")
            if chain:
                create([kind, value, prio, urgent, chain - 1])

        kw = dict(priority=prio, urgent=urgent)
        if kind == "delay":
            kw["delay"] = value
        elif kind == "at":
            kw["at"] = env.now() + value
        events.append(sim.Event(action, action_string="the action", name=f"event{i}", **kw))

    class Control(sim.Component):
        def setup(self, i, script):
            self.script = script

        def do(self, what, i, spec):
            if what == "create":
                return create(spec)
            if not events:
                return
            i %= len(events)
            if what == "cancel" and not events[i].isdata():
                events[i].cancel()
            elif what == "action":
                events[i].action(lambda: got.append((env.now(), i, "other")))
            elif what == "move" and not events[i].isdata():
                events[i].activate(delay=spec[1], priority=spec[2])

        def process(self):
            for d, p, what, i, spec in self.script:
                if yieldless:
                    self.hold(d, priority=p)
                else:
                    yield self.hold(d, priority=p)
                self.do(what, i, spec)

    if yieldless:  # a process without yield

        def process(self):
            for d, p, what, i, spec in self.script:
                self.hold(d, priority=p)
                self.do(what, i, spec)

        Control.process = process
    for spec in case["initial"]:
        create(spec)
    for i, c in enumerate(case["controls"]):
        Control(i=i, script=c)
    if case["how"] == "run" or (case["how"] == "step" and yieldless):  # step() without run() is not for yieldless models
        env.run()
    elif case["how"] == "till":
        for t in range(0, 40, 3):
            env.run(till=t)
    else:
        while env.peek() < inf:
            t = env.peek()
            env.step()
            check(env.now() == t, "time of the next event according to peek", t, env.now())

    # oracle
    seq = 0
    calendar = []
    model = []
    expected = []

    def push(t, prio, urgent, what):
        nonlocal seq
        seq += 1
        calendar.append((t, prio, -seq if urgent else seq, what))

    def model_create(now, spec):
        kind, value, prio, urgent, chain = spec
        model.append(dict(action="first", spec=spec, done=False, dead=False))
        push(now + (value if kind != "now" else 0), prio, urgent, ("event", len(model) - 1))

    for spec in case["initial"]:
        model_create(0, spec)
    for i, c in enumerate(case["controls"]):
        push(0, 0, False, ("control", i, -1))
    while calendar:
        calendar.sort(key=lambda e: e[:3])
        t, _, _, what = calendar.pop(0)
        if what[0] == "event":
            e = model[what[1]]
            expected.append((t, what[1], e["action"]))
            e["done"] = e["dead"] = True
            if e["action"] == "first" and e["spec"][4]:
                model_create(t, e["spec"][:4] + [e["spec"][4] - 1])
        else:
            _, i, k = what
            script = case["controls"][i]
            if k >= 0:
                _, _, op_name, j, spec = script[k]
                if op_name == "create":
                    model_create(t, spec)
                elif model:
                    j %= len(model)
                    e = model[j]
                    if op_name == "action":
                        e["action"] = "other"
                    elif not e["dead"]:
                        calendar[:] = [c for c in calendar if c[3] != ("event", j)]
                        if op_name == "cancel":
                            e["dead"] = True
                        else:
                            push(t + spec[1], spec[2], False, ("event", j))
            if k + 1 < len(script):
                push(t + script[k + 1][0], script[k + 1][1], False, ("control", i, k + 1))
    check(got == expected, "executed actions (time, event, action)", got, expected)
    check([e.action_taken() for e in events] == [e["done"] for e in model], "action_taken")
    check(all(e.action_string() == "the action" for e in events), "action_string")
    return ["nontrivial"] if len(expected) >= 3 and len({e[0] for e in expected}) < len(expected) else []


FACETS = [Facet("model", models, run, quick=2400), Facet("real", holds, run_holds, quick=2400), Facet("events", event_cases, run_events, quick=1500)]
