import contextlib
import io
import re

from ..core import Facet, check, equal, fail
from ..drive import Driver, diff_logs, fresh, inf, is_close, sim
from ..gen import *
from ..mixed import change, mixed

PROPERTY = "C34"
RULE = "trace: components became current at least 5 times and at least 3 kinds of lines were interpreted; selective: lines of at least one component are suppressed, or the trace is switched, and lines remain; reports: at least 10 reports that mention at least 3 members, requests, claims or waits"


# ---- the state of the model, as reconstructed from the trace only


class Story:
    def __init__(self):
        self.current = "main"
        self.time = "0.000"
        self.scheduled = {}
        self.urgent = {}
        self.claims = {}
        self.values = {}
        self.members = {}
        self.alive = {}
        self.failures = {}
        self.modes = {}
        self.created = []
        self.resets = 0
        self.n = 0
        self.kinds = set()
        self.items = {}  # items to be put into a store
        self.getting = set()  # components waiting for an item
        self.hidden = set()  # an item that enters a store because of a waiting to_store is not traced; nor is what that causes

    def line(self, line):
        body = line[7:]
        if len(body) < 31:
            return
        t, who, what, info = body[:10].strip(), body[11:31].strip(), body[32:68].strip(), body[69:].strip()
        if who and what.startswith("current") and t not in ("time",):
            self.current, self.time = who, t
            self.scheduled.pop(who, None)
            self.getting.discard(who)
            self.hidden.discard(who)
            self.n += 1
            if "standby" in what:
                self.kinds.add("standby")
            return
        words = what.split()
        if not words:
            return
        if m := re.match(r"now reset to (\S+)", what):
            delta = float(re.search(r"reduced by (\S+)\)", info)[1])
            self.time = m[1]
            self.scheduled = {name: t if t == "inf" else f"{float(t) - delta + 0.0:.3f}" for name, t in self.scheduled.items()}
            self.kinds.add("reset_now")
            self.resets += 1
            return
        name = words[0]
        if "mode=" in info:
            self.modes[name] = info.split("mode=")[1].split()[0]
        if words[0] == "cancel":
            name = words[-1] if "mode=" not in what else words[-2]
            self.alive[name] = False
            return
        if len(words) == 1:
            if m := re.fullmatch(r"claim (\S+) from (\S+).*", info):
                self.add(name, m[2], float(m[1]))
            elif m := re.fullmatch(r"release (\S+) from (\S+).*", info):
                self.add(name, m[2], -float(m[1]))
            elif m := re.fullmatch(r"bumped from (\S+) by (\S+) \(release (\S+)\)", info):
                self.add(name, m[1], -float(m[3]))
                self.kinds.add("bumped")
            elif m := re.fullmatch(r"enter (\S+)", info):
                self.members.setdefault(m[1], []).append(name)
                self.kinds.add("enter")
            elif m := re.fullmatch(r"leave (\S+)", info):
                check(name in self.members.get(m[1], []), f"{name} leaves {m[1]} according to the trace, but it never entered")
                self.members[m[1]].remove(name)
                self.kinds.add("leave")
            elif m := re.match(r"(\S+) to_store \(", info):
                self.items[name] = m[1]
            elif info.startswith("from_store ("):
                self.getting.add(name)
            elif info.endswith("failed"):
                self.getting.discard(name)
                self.failures[name] = self.failures.get(name, 0) + 1
                self.kinds.add("failed")
        elif words[1] == "to_store" and "honor" in words and "with" not in words:
            self.members.setdefault(words[2][1:-1], []).append(self.items[name])
            self.hidden |= self.getting
            self.kinds.add("to_store")
        elif words[1] == "from_store" and "honor" in words:
            self.getting.discard(name)
            self.kinds.add("from_store")
        elif words[1] == "ended":
            self.alive[name] = False
            self.kinds.add("ended")
        elif words[1] == "create":
            self.created.append(name)
            if info.startswith("value = "):
                self.values[name] = info[8:]
        if m := re.search(r"scheduled for\s+([^\s!@]+)(!?)", info):
            self.scheduled[name] = m[1]
            self.hidden.discard(name)
            self.urgent[name] = bool(m[2])
            self.alive[name] = True
            self.kinds.add("scheduled")
        if words[-1] in ("set", "reset") and info.startswith("value = "):
            self.values[name] = info[8:]
            self.kinds.add("set")
        if words[-1] == "trigger":
            self.values[name] = re.search(r"--> (\S+)", info)[1]
            self.kinds.add("trigger")

    def add(self, name, r, q):
        self.claims[name, r] = self.claims.get((name, r), 0) + q
        self.kinds.add("claim")


class Reader:
    """hook, that interprets what was added to the trace, and compares that with the model"""

    def __init__(self, stream, standby):
        self.stream = stream
        self.pos = 0
        self.story = Story()
        self.standby = standby

    def read(self):
        text = self.stream.getvalue()
        for line in text[self.pos :].split("\n")[:-1]:
            self.story.line(line)
        self.pos = len(text)

    def __call__(self, d):
        env, story = d.env, self.story
        if self.standby:
            env.print_trace("", "", "probe")  # makes that a pending line is printed
        self.read()
        check(story.current == env.current_component().name(), f"according to the trace, {story.current} is current, it is {env.current_component().name()}")
        equal(story.time, env.time_to_str(env.now()).strip(), "time according to the trace")
        for c in d.allcomps:
            name, status = c.name(), c.status()
            check(name in story.created, f"no trace of the creation of {name}")
            if status in ("scheduled", "requesting", "waiting"):
                if name in story.hidden and status == "scheduled":
                    story.scheduled[name] = env.time_to_str(env.now()).strip()
                if not (story.resets and abs(float(story.scheduled.get(name, "nan")) - c.scheduled_time()) < 0.0011 * (story.resets + 1)):  # times in the trace are rounded
                    equal(story.scheduled.get(name), env.time_to_str(c.scheduled_time()).strip(), f"time that {name} is scheduled for, according to the trace")
            if status != "current":
                equal(story.alive.get(name, False), status != "data", f"{name} has a process, according to the trace")
            if name in story.modes and c.mode() == story.modes[name]:
                story.kinds.add("mode")
            for i, r in enumerate(d.res):
                if not d.case["res"][i].get("anon"):
                    check(is_close(story.claims.get((name, r.name()), 0), c.claimed_quantity(r)), f"quantity of {r.name()} claimed by {name}: {story.claims.get((name, r.name()), 0)} according to the trace, it is {c.claimed_quantity(r)}")
        for i, r in enumerate(d.res):
            if d.case["res"][i].get("anon"):
                total = d.case["res"][i].get("init", 0) + sum(q for (_, name), q in story.claims.items() if name == r.name())
                check(is_close(total, r.claimed_quantity()), f"claimed quantity of {r.name()}: {total} according to the trace, it is {r.claimed_quantity()}")
        for s in d.states:
            equal(story.values[s.name()], repr(s.get()), f"value of {s.name()} according to the trace")
        for s in d.stores:
            if story.hidden:
                story.members[s.name()] = [name for name in story.members.get(s.name(), []) if any(c.name() == name for c in s)]
            equal(sorted(story.members.get(s.name(), [])), sorted(c.name() for c in s), f"contents of {s.name()} according to the trace")


class Failures(Driver):
    """every failed request, etc. has to be in the trace"""

    def before(self, c, i):
        result = super().before(c, i)
        if result and c.name() != "main":
            self.vals["failures", c.name()] = self.hooks.story.failures.get(c.name(), 0)
        return result

    def after(self, c, op, got):
        super().after(c, op, got)
        if op[0] in ("request", "get", "put", "wait", "waitfor", "from", "to"):
            self.hooks.read()
            traced = self.hooks.story.failures.get(c.name(), 0) > self.vals["failures", c.name()]
            check(traced == c.failed(), f"{op[0]} of {c.name()}: failed is {c.failed()}, but the trace {'shows' if traced else 'does not show'} a failure")


def run_trace(case):
    fresh()
    stream = io.StringIO()
    reader = Reader(stream, case["standby"])
    d = Failures(sim, case, mode=case["mode"], env_kwargs=dict(random_seed=case["seed"]), hooks=reader, trace=stream, linenos=case["linenos"], snap=False)
    d.env.suppress_trace_standby(case["standby"])
    d.execute()
    story = reader.story
    return [case["mode"]] + sorted(story.kinds) + (["nontrivial"] if story.n >= 5 and len(story.kinds) >= 3 else [])


# ---- suppress_trace and switching the trace

HEADER = re.compile(r"line#|-----")


class Switch(Driver):
    def __init__(self, *args, switches=(), marks=None, suppressed=(), **kwargs):
        self.n, self.switches, self.marks = 0, switches, marks
        super().__init__(*args, **kwargs, hooks=self.switch)
        for i in suppressed:
            c = self.comps[i % len(self.comps)]
            c.suppress_trace(True)
            equal(c.suppress_trace(), True, "suppress_trace()")

    def switch(self, d):
        self.n += 1
        if self.n in self.switches:
            if self.marks is not None:
                self.marks.write("@@\n")
            elif self.env.trace():
                self.env.trace(False)
            else:
                self.env.trace(self.out)


def run_selective(case):
    fresh()
    kw = dict(mode=case["mode"], env_kwargs=dict(random_seed=case["seed"]), linenos=False, snap=False)
    stream = io.StringIO()
    full = Switch(sim, case, trace=stream, switches=case["switches"], marks=stream, **kw)
    full.env.suppress_trace_standby(False)
    full.execute()
    suppressed = {full.comps[i % len(full.comps)].name() for i in case["suppressed"]}
    expected, on, current = [], True, None
    for line in stream.getvalue().splitlines():
        if line == "@@":
            on = not on
            continue
        if line[39:].startswith("current"):
            current = line[18:38].strip()
        if on and current not in suppressed:
            expected.append(line.rstrip())
    stream2 = io.StringIO()
    out = contextlib.redirect_stdout(stream2) if case["stdout"] else contextlib.nullcontext()
    Switch.out = True if case["stdout"] else stream2
    with out:
        d = Switch(sim, case, trace=Switch.out, switches=case["switches"], suppressed=case["suppressed"], **kw)
        d.env.suppress_trace_standby(False)
        d.execute()
    got = [line.rstrip() for line in stream2.getvalue().splitlines()]
    diff_logs([(l,) for l in got], [(l,) for l in expected], "the trace", "the full trace without the suppressed parts")
    diff_logs(d.log, full.log, "run with part of the trace", "run with the full trace")
    classes = [case["mode"], "stdout" if case["stdout"] else "file"]
    n = len(stream.getvalue().split("\n"))
    return classes + (["nontrivial"] if 5 < len(got) < n else [])


# ---- print_info, print_statistics


def parse(text):
    """(first line, {key: value}, {section: [line]})"""
    lines = text.split("\n")
    values, sections, section = {}, {}, None
    for l in lines[1:]:
        if l.startswith("    "):
            sections[section].append(l.strip())
        else:
            section = l.strip()
            if "=" in section:
                key, value = section.split("=", 1)
                values[key] = value.strip()
            else:
                sections[section] = []
    return lines[0], values, sections


def members(lines, what):
    """[(name, {attribute: value})]"""
    result = []
    for l in lines:
        m = re.fullmatch(r"(.*?)\s+" + what, l.strip())
        check(m, f"unexpected line {l!r}")
        result.append(m.groups())
    return result


QMEMBER = r"enter_time=?\s*(\S+)\s+priority=(\S+)"
QUANTITY = r"quantity=(\S+)"


def sect(sections, start):
    found = [lines for s, lines in sections.items() if s.startswith(start)]
    return found[0] if found else []


class Reports:
    def __init__(self, case):
        self.moments = case["moments"]
        self.n = 0
        self.reports = 0
        self.lines = 0
        self.waits = {}

    def info(self, o, kind):
        text = o.print_info(as_str=True)
        self.reports += 1
        self.lines += text.count("\n    ")
        head, values, sections = parse(text)
        check(kind in head, f"print_info of a {kind} starts with {head}")
        equal(values["name"], o.name(), "name in print_info")
        return values, sections

    def queue(self, env, q, kind="Queue"):
        values, sections = self.info(q, kind)
        expected = [(c.name(), env.time_to_str(c.enter_time(q)).strip(), str(c.priority(q))) for c in q]
        got = members(sect(sections, "component"), QMEMBER)
        equal(got, expected, f"members of {q.name()} in print_info")
        check(bool(got) != ("no components" in sections), f"print_info of {q.name()}: no components")

    def __call__(self, d):
        self.n += 1
        if self.n % self.moments:
            return
        env = d.env
        values, sections = self.info(env, "Environment")
        equal(values["now"], env.time_to_str(env.now()).strip(), "now in print_info")
        equal(values["current_component"], env.current_component().name(), "current component in print_info")
        equal(values["trace"], str(bool(env.trace())), "trace in print_info")
        queues = list(d.stores)
        for s in d.stores:
            self.queue(env, s, "Store")
            queues += [s.from_store_requesters(), s.to_store_requesters()]
        for s in d.states:
            queues.append(s.waiters())
        for r in d.res:
            queues += [r.requesters(), r.claimers()]
        for q in queues[len(d.stores) :]:
            self.queue(env, q)
        for c in d.allcomps:
            values, sections = self.info(c, type(c).__name__)
            what = f" of {c.name()} in print_info"
            equal(values["class"], type(c).__name__, "class" + what)
            equal(values["status"], c.status(), "status" + what)
            equal(values["mode"], str(c.mode()), "mode" + what)
            equal(values["suppress_trace"], str(c.suppress_trace()), "suppress_trace" + what)
            for key, value in (("mode_time", c.mode_time()), ("creation_time", c.creation_time()), ("scheduled_time", c.scheduled_time())):
                equal(values[key], env.time_to_str(value).strip(), key + what)
            got = members(sect(sections, "member of queue"), QMEMBER)
            expected = [(q.name()[:20].strip(), env.time_to_str(c.enter_time(q)).strip(), str(c.priority(q))) for q in queues if c in q]
            equal(sorted(got), sorted(expected), "queues" + what)
            got = members(sect(sections, "requesting resource"), QUANTITY)
            equal(got, sorted((r.name(), str(c.requested_quantity(r))) for r in c.requested_resources()), "requests" + what)
            got = members(sect(sections, "claiming resource"), QUANTITY)
            equal(got, sorted((r.name(), str(c.claimed_quantity(r))) for r in c.claimed_resources()), "claims" + what)
            for start, present in (("member of queue", any(c in q for q in queues)), ("requesting resource", c.requested_resources()), ("claiming resource", c.claimed_resources())):
                equal(any(s.startswith(start) for s in sections), bool(present), start + what)
            waits = [name for name, _ in members(sect(sections, "waiting for"), r"value=(.*)")]
            waiting = [s.name() for s in d.states if c in s.waiters()]
            equal(sorted(set(waits)), waiting, "states" + what)
            if waiting:
                spec = d.waits.get(c.name())
                header = [s for s in sections if s.startswith("waiting for")][0]
                if spec is None:
                    check("condition" in header, header)
                else:
                    check((" all " in header) == spec[0] and (" any " in header) == (not spec[0]), f"{header}, although all is {spec[0]}")
                    equal([(s, v) for s, v in members(sect(sections, "waiting for"), r"value=(.*)")], [(s, str(v)) for s, v in spec[1]], "awaited values" + what)
        for i, r in enumerate(d.res):
            values, sections = self.info(r, "Resource")
            what = f" of {r.name()} in print_info"
            equal(float(values["capacity"]), float(r.capacity()), "capacity" + what)
            equal(float(values["claimed_quantity"]), float(r.claimed_quantity()), "claimed_quantity" + what)
            equal(members(sect(sections, "requesting component"), QUANTITY), [(c.name(), str(c.requested_quantity(r))) for c in r.requesters()], "requesters" + what)
            equal(members(sect(sections, "claimed by"), QUANTITY), [(c.name(), str(c.claimed_quantity(r))) for c in r.claimers()], "claimers" + what)
            check(bool(len(r.requesters())) != ("no requesting components" in sections), "no requesting components" + what)
        for s in d.states:
            values, sections = self.info(s, "State")
            equal(values["value"], str(s.get()), f"value of {s.name()} in print_info")
            got = members(sect(sections, "waiting component"), r"value\(s\): (.*)")
            equal([name for name, _ in got], [c.name() for c in s.waiters()], f"waiters of {s.name()} in print_info")
            for name, text in got:
                spec = d.waits.get(name)
                if spec is not None:
                    equal(text, ", ".join(str(v) for x, v in spec[1] if x == s.name()), f"values awaited by {name} in print_info of {s.name()}")
            check(bool(len(s.waiters())) != ("no waiting components" in sections), f"no waiting components of {s.name()} in print_info")
        if self.n % (3 * self.moments) == 0:
            for q in queues:
                self.statistics(q, env, [q.length, q.length_of_stay])
            for s in d.states:
                self.statistics(s, env, [s.waiters().length, s.waiters().length_of_stay, s.value])
            for r in d.res:
                self.statistics(r, env, [r.requesters().length, r.requesters().length_of_stay, r.claimers().length, r.claimers().length_of_stay, r.capacity, r.available_quantity, r.claimed_quantity, r.occupancy])

    def statistics(self, o, env, monitors):
        text = o.print_statistics(as_str=True)
        self.reports += 1
        lines = text.split("\n")
        check(lines[0].startswith(f"Statistics of {o.name()} at"), lines[0])
        check(is_close(float(lines[0].split(" at ")[-1]), env.now(), 1e-9, 0.00051), f"time in {lines[0]!r}, now is {env.now()}")
        names = [m.name() for m in monitors]
        blocks, block = {}, None
        for l in lines[1:]:
            for name in names:
                if l.startswith(name + " ") and name not in blocks:
                    block = blocks[name] = {}
                    l = l[len(name) :]
                    break
            if block is not None and l.strip():
                m = re.fullmatch(r"\s*(.*?)\s\s*([-\d.naif]+)?(?:\s+([-\d.naif]+)\s+([-\d.naif]+))?\s*", l)
                if m and m[2]:
                    block[m[1].strip()] = m[2]
        equal(sorted(blocks), sorted(names), f"monitors in print_statistics of {o.name()}")
        for m in monitors:
            b = blocks[m.name()]
            if "no data" in b or not b:
                continue
            pairs = [("mean", m.mean()), ("minimum", m.minimum()), ("maximum", m.maximum()), ("std.deviation", m.std())]
            pairs.append(("duration", m.duration()) if "duration" in b else ("entries", m.number_of_entries()))
            for key, value in pairs:
                if key in b:
                    check(str(value) == "nan" and b[key] == "nan" or is_close(float(b[key]), value, 1e-6, 0.00051), f"{key} of {m.name()} in print_statistics of {o.name()}: {b[key]}, it is {value}")
                    self.lines += 1


class Waits(Driver):
    def __init__(self, *args, **kwargs):
        self.waits = {}
        super().__init__(*args, **kwargs)

    def op_wait(self, c, specs, kw):
        self.waits[c.name()] = (kw.get("all", False), [(self.states[s % len(self.states)].name(), cond[1]) for s, cond in specs])
        return super().op_wait(c, specs, kw)

    def op_waitfor(self, c, *args):
        self.waits[c.name()] = None
        return super().op_waitfor(c, *args)


def run_reports(case):
    fresh()
    base = Driver(sim, case, mode=case["mode"], env_kwargs=dict(random_seed=case["seed"]))
    base.execute()
    reports = Reports(case)
    d = Waits(sim, case, mode=case["mode"], env_kwargs=dict(random_seed=case["seed"]), hooks=reports)
    d.execute()
    diff_logs(base.log, d.log, "plain run", "run with reports")
    return [case["mode"]] + (["nontrivial"] if reports.reports >= 10 and reports.lines >= 3 else [])


gens = st.lists(st.tuples(st.sampled_from([0, 1, 2, 3, 9]), st.integers(1, 4), st.sampled_from([None, 0, 1, 2.5]), st.booleans()).map(list), max_size=1)
NO = [(4, st.just(["nop"])), (4, change)]  # other operations than a reset of now
FACETS = [
    Facet("trace", mixed(reset_ops=NO, standby=bools, linenos=st.sampled_from([True, True, False])), run_trace, quick=1200),
    Facet("selective", mixed(gens=gens, suppressed=st.lists(st.integers(0, 4), max_size=3, unique=True), switches=st.lists(st.integers(1, 30), max_size=3, unique=True), stdout=bools), run_selective, quick=500),
    Facet("reports", mixed(reset_ops=NO, gens=gens, moments=st.integers(1, 3)), run_reports, quick=600),
]
