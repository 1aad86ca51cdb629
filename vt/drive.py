"""Runs a generated model (a json case) on salabim or on the reference model, and logs what happens.

The same driver code, using only the public API, is used for salabim (yieldless or yield mode) and for vt/refsim.py.
"""

import collections
import io

import salabim as sim
from hypothesis import strategies as st

from . import refsim
from .core import Violation, fail, is_close, same, short

inf = float("inf")


class Item:  # mixed in
    pass

RESOURCE = dict(cap="capacity", anon="anonymous", init="initial_claimed_quantity", pre="preemptive", first="honor_only_first", high="honor_only_highest_priority")


class Driver:
    def __init__(self, lib, case, mode="yieldless", trace=None, monitor=True, snap=True, env_kwargs=None, hooks=None, randomstream=None, linenos=True):
        self.lib = lib
        self.is_ref = lib is refsim
        self.case = case
        self.mode = mode
        self.log = []
        self.left = case.get("budget", 120)
        self.serial = 0
        self.created = 0
        self.counters = collections.Counter()
        self.snap_on = snap
        self.hooks = hooks
        self.vals = {}
        self.gate = 0  # the filters depend on this
        if self.is_ref:
            self.env = lib.Environment()
            kw = {}
        else:
            self.env = lib.Environment(yieldless=(mode == "yieldless"), trace=(trace if trace is not None and linenos else False), **(env_kwargs or {}))
            if trace is not None and not linenos:
                self.env.suppress_trace_linenumbers(True)
                self.env.trace(trace)
            kw = {} if monitor else dict(monitor=False)
        env = self.env
        self.res = []
        for i, r in enumerate(case.get("res", ())):
            self.res.append(
                lib.Resource(
                    name=f"r{i}",
                    env=env,
                    **{par: r[k] for k, par in RESOURCE.items() if k in r},
                    **kw,
                )
            )
        self.stores = [lib.Store(name=f"s{i}", capacity=(inf if s.get("cap") is None else s["cap"]), env=env, **kw) for i, s in enumerate(case.get("stores", ()))]
        self.states = [lib.State(name=f"st{i}", value=v, env=env, **kw) for i, v in enumerate(case.get("states", ()))]
        self.comps = []
        self.allcomps = []
        driver = self

        if self.is_ref or mode == "yield":

            class Comp(lib.Component):
                def setup(self, script, alt, loop):
                    self.script, self.alt_script, self.loop = script, alt, loop

                def process(self):
                    for _ in range(self.loop):
                        for i, op in enumerate(self.script):
                            if not driver.before(self, i):
                                return
                            block, _ = driver.do(self, op)
                            if block:
                                got = yield
                                driver.after(self, op, got)
                    driver.ended(self)

                def alt(self, tag=None):
                    driver.log.append(("alt", self.name(), tag, driver.now()))
                    for i, op in enumerate(self.alt_script):
                        if not driver.before(self, 100 + i):
                            return
                        block, _ = driver.do(self, op)
                        if block:
                            got = yield
                            driver.after(self, op, got)
                    driver.ended(self)

        else:

            class Comp(lib.Component):
                def setup(self, script, alt, loop):
                    self.script, self.alt_script, self.loop = script, alt, loop

                def process(self):
                    for _ in range(self.loop):
                        for i, op in enumerate(self.script):
                            if not driver.before(self, i):
                                return
                            block, got = driver.do(self, op)
                            if block:
                                driver.after(self, op, got)
                    driver.ended(self)

                def alt(self, tag=None):
                    driver.log.append(("alt", self.name(), tag, driver.now()))
                    for i, op in enumerate(self.alt_script):
                        if not driver.before(self, 100 + i):
                            return
                        block, got = driver.do(self, op)
                        if block:
                            driver.after(self, op, got)
                    driver.ended(self)

        class Item(lib.Component):
            def setup(self, val):
                self.val = val

        self.Comp, self.Item = Comp, Item
        if not self.is_ref:
            k = dict(randomstream=randomstream, env=env)
            self.dists = self.make_dists(lib, k)
            self.gens = [self.generator(g) for g in case.get("gens", ())]
        for i, c in enumerate(case["comps"]):
            self.comps.append(self.make(c, f"c{i}"))

    def make_dists(self, lib, k):
        if self.case.get("exact"):  # binary fractions, so that there are no rounding errors
            return [lib.Pdf((0.125, 0.25, 1, 3), 1, **k), lib.Pdf((0.5, 2.5, 0), 1, **k), lib.Pdf((0, 1, 2), (1, 2, 3), **k), lib.IntUniform(0, 3, **k)]
        return [lib.Exponential(1.5, **k), lib.Uniform(0, 2, **k), lib.Pdf((0, 1, 2), (1, 2, 3), **k), lib.IntUniform(0, 3, **k)]

    def generator(self, g):
        driver = self
        i, number, at, force = g
        if at is not None:
            at += self.env.now()

        class Generated(self.lib.Component):
            def setup(self):
                driver.log.append(("generated", self.name(), driver.now()))

            if driver.mode == "yield":

                def process(self):
                    yield self.hold(1)
                    driver.log.append(("ready", self.name(), driver.now()))

            else:

                def process(self):
                    self.hold(1)
                    driver.log.append(("ready", self.name(), driver.now()))

        if i == 8:
            now = self.env.now()
            return self.lib.ComponentGenerator(Generated, moments=[now + m for m in (0.5, 2, 2, 4.5)[:number]], env=self.env)
        if i == 9:
            return self.lib.ComponentGenerator(Generated, number=number, at=at, till=(self.env.now() if at is None else at) + 5, equidistant=False, force_at=force, env=self.env)
        return self.lib.ComponentGenerator(Generated, iat=self.dists[i], number=number, at=at, force_at=force, env=self.env)

    def make(self, c, name):
        kwargs = dict(script=c["script"], alt=c.get("alt", []), loop=c.get("loop", 1))
        if c.get("data"):
            r = self.Comp(name=name, process="", env=self.env, skip_standby=c.get("skip", False), **kwargs)
        else:
            at = c.get("at")
            if at is not None:
                at = at + self.env.now()
            kwargs.update(self.pu(c.get("prio", 0), c.get("urgent", False)))
            if c.get("start"):
                kwargs["process"] = c["start"]
            if at is not None:
                kwargs["at"] = at
            if c.get("delay") is not None:
                kwargs["delay"] = c["delay"]
            if c.get("skip"):
                kwargs["skip_standby"] = True
            r = self.Comp(name=name, env=self.env, **kwargs)
        self.allcomps.append(r)
        return r

    def make_item(self):
        self.serial += 1
        return self.Item(name=f"i{self.serial}", val=(self.serial * 7) % 5, process="", env=self.env)

    def now(self):
        return self.env.now()

    # logging
    def before(self, c, i):
        self.left -= 1
        if self.left < 0:
            return False
        self.log.append(("op", c.name(), i, self.snapshot()))
        return True

    def ended(self, c):
        self.log.append(("end", c.name(), self.now()))

    def after(self, c, op, got):
        if op[0] == "from" and not self.is_ref:
            if not self.vals.get(("disturbed", c.name())) and got is not c.from_store_item():
                fail("the value of from_store is not from_store_item()", got, c.from_store_item())
        if op[0] in ("request", "get", "put", "wait", "waitfor", "from", "to"):
            self.log.append(("back", c.name(), op[0], c.failed(), self.now()))
            if op[0] in ("from", "to") and not c.failed() and not self.vals.get(("disturbed", c.name())):
                if op[0] == "from":
                    where = c._fss if self.is_ref else c.from_store_store()
                    item = c._fsi if self.is_ref else c.from_store_item()
                    self.log.append(("got", item.name(), where.name()))
                else:
                    self.log.append(("put", (c._tss if self.is_ref else c.to_store_store()).name()))
            if self.is_ref:
                self.counters["failed" if c.failed() else "honored"] += 1

    def members(self, q):
        if self.is_ref:
            return [(e.c.name(), e.priority) for e in q.m]
        return [(c.name(), c.priority(q)) for c in q]

    def predicates(self, c, status):
        for what, value in (
            ("data", c.isdata()), ("current", c.iscurrent()), ("standby", c.isstandby()), ("passive", c.ispassive()),
            ("interrupted", c.isinterrupted()), ("scheduled", c.isscheduled()), ("requesting", c.isrequesting()), ("waiting", c.iswaiting()),
        ):
            if value != (status == what):
                fail(f"is{what}() of {c.name()} is {value}, although its status is {status}")
        if status == "interrupted" and c.interrupted_status() != "scheduled":
            fail(f"interrupted_status of {c.name()} is {c.interrupted_status()}")
        if c.isclaiming() != bool(c.claimed_resources()):
            fail(f"isclaiming() of {c.name()} is {c.isclaiming()}, it claims {c.claimed_resources()}")
        if (self.env.current_component() is c) != (status == "current"):
            fail(f"current_component() is {self.env.current_component()}, status of {c.name()} is {status}")

    def snapshot(self):
        if self.hooks:
            self.hooks(self)
        if not self.snap_on:
            return self.now()
        result = [("now", self.now())]
        for c in self.allcomps:
            status = c.status()
            if not self.is_ref:
                self.predicates(c, status)
            result.append(
                (
                    c.name(),
                    status,
                    c.remaining_duration(),
                    c.scheduled_time() if status != "interrupted" else None,
                    c.scheduled_priority(),
                    c.interrupt_level(),
                    c.mode(),
                    c.mode_time(),
                    c.failed(),
                    [(r.name(), c.claimed_quantity(r)) for r in c.claimed_resources()],
                    [(r.name(), c.requested_quantity(r)) for r in c.requested_resources()],
                )
            )
        for r in self.res:
            result.append(
                (r.name(), r.claimed_quantity(), r.available_quantity(), r.capacity(), r.occupancy(), self.members(r.requesters()), self.members(r.claimers()))
            )
        for s in self.stores:
            result.append((s.name(), s.capacity(), s.available_quantity(), self.members(s), self.members(s.from_store_requesters()), self.members(s.to_store_requesters())))
        for s in self.states:
            result.append((s.name(), s.get(), self.members(s.waiters())))
        return result

    # execution
    def target(self, me, t):
        if t == 0 and me is not None:
            return me
        return self.comps[(t - 1) % len(self.comps)]

    def cond(self, spec):
        kind, v = spec
        if kind == "eq":
            return v
        if kind == "expr":
            return f"$ {v}"
        if kind == "fn":
            # the documented parameters of the function are the value, the component and the state
            return lambda value, component, state: value >= v and component.name() != "" and state.get() == value
        raise AssertionError

    def holds(self, s, cond):
        kind, v = cond
        value = s.get()
        if kind == "eq":
            return value == v
        if kind == "fn":
            return value >= v
        return {"> ": value > int(v[-1]), "==": value == int(v[-1]), "< ": value < int(v[-1]), "!=": value != int(v[-1])}[v[:2]]

    def do(self, me, op):
        """performs an operation. Returns (whether the process of me has to give up control, result)"""
        name = op[0]
        f = getattr(self, "op_" + name)
        if name in TARGETED:
            c = self.target(me, op[1])
            if not ALLOWED[name](c.status(), c is me) and op[1] != 0:
                # look for another component where it is allowed
                for i in range(1, len(self.comps)):
                    c = self.comps[(op[1] - 1 + i) % len(self.comps)]
                    if ALLOWED[name](c.status(), c is me):
                        break
            myself = c is me
            if not ALLOWED[name](c.status(), myself):
                self.log.append(("skip", name))
                return (False, None)
            if self.is_ref:
                self.counters[name] += 1
                if not myself:
                    self.counters["other." + name] += 1
            if name not in ("filter", "keep"):
                self.vals["disturbed", c.name()] = not myself
            res = f(c, *op[2:])
            return (myself and name in BLOCKING and res != "skipped", res)
        if self.is_ref:
            self.counters[name] += 1
        return (False, f(*op[1:]))

    def op_nop(self):
        pass

    def m(self):
        """mode parameter, in part of the operations"""
        if self.case.get("modes") and self.left % 2:
            return dict(mode=f"m{self.left % 3}")
        return {}

    def pu(self, prio, urgent):
        """parameters priority, urgent and mode, without the ones that have the default value"""
        result = self.m()
        if prio != 0:
            result["priority"] = prio
        if urgent:
            result["urgent"] = True
        return result

    def op_hold(self, c, d, prio=0, urgent=False):
        if d == 0:
            c.hold(**self.pu(prio, urgent))
        else:
            c.hold(d, **self.pu(prio, urgent))

    def op_holdtill(self, c, d, prio=0, urgent=False):
        c.hold(till=self.env.now() + d, **self.pu(prio, urgent))

    def op_holdi(self, c, d, level):
        c.hold(d, interrupted=level, **self.m())

    def op_holdx(self, c, i):
        """hold for a sampled duration"""
        d = self.dists[i]
        if i == 3:
            c.hold(d())
        else:
            c.hold(d)

    def op_passivate(self, c):
        c.passivate(**self.m())

    def op_activate(self, c, delay=0, prio=0, urgent=False, process=None, at=None):
        kw = self.pu(prio, urgent)
        if at is not None:
            kw["at"] = at + self.env.now()
        if delay != 0:
            kw["delay"] = delay
        if process is not None:
            kw["process"] = process
            if process == "alt" and self.left % 3:
                kw["tag"] = self.left
        c.activate(**kw)

    def op_keep(self, c, delay=0, which=2, prio=0, urgent=False):
        """activate, where a pending request and/or wait is kept: just another time limit"""
        kw = self.pu(prio, urgent)
        if delay > 90:
            kw["delay"] = inf
        elif delay != 0:
            kw["delay"] = delay
        if which != 1:
            kw["keep_request"] = True
        if which != 0:
            kw["keep_wait"] = True
        c.activate(**kw)

    def op_mainact(self, delay):
        """end of the current run"""
        self.env.main().activate(**(dict(delay=delay) if delay else {}))

    def op_cancel(self, c):
        c.cancel(**self.m())

    def op_standby(self, c):
        c.standby(**self.m())

    def op_interrupt(self, c):
        c.interrupt(**self.m())

    def op_resume(self, c, all=False, prio=0, urgent=False):
        c.resume(all=all, **self.pu(prio, urgent))

    def op_rd(self, c, value, prio=0, urgent=False):
        c.remaining_duration(value, priority=prio, urgent=urgent)

    def op_mode(self, c, mode):
        c.set_mode(mode)

    def op_skip(self, c, value):
        c.skip_standby(value)

    def op_create(self, template):
        if self.created >= 4:
            return
        self.created += 1
        self.make(self.case["comps"][template % len(self.case["comps"])], f"n{self.created}")

    def op_gen(self, *g):
        if len(self.gens) < 4:
            self.gens.append(self.generator(g))

    def kw(self, kw, names):
        result = self.m()
        for k, v in kw.items():
            if k == "fail_at":
                result["fail_at"] = self.env.now() + v
            elif k == "fail_delay" and v is not None and v > 90:
                result["fail_delay"] = inf
            elif k in names:
                result[k] = v
        return result

    def _args(self, specs):
        result = []
        for spec in specs:
            r = self.res[spec[0] % len(self.res)]
            result.append(r if len(spec) == 1 else (r, *spec[1:]))
        return result

    def op_request(self, c, specs, kw):
        args = self._args(specs)
        rs = [a if isinstance(a, self.lib.Resource) else a[0] for a in args]
        if any(r.ispreemptive() for r in rs):
            args, rs = args[:1], rs[:1]
            # a component that bumps itself (also by a request for another component) has no defined outcome
            if not rs[0].ispreemptive() or c.isclaiming(rs[0]) or self.env.current_component() in rs[0].claimers():
                self.log.append("skip")
                return "skipped"
        self.vals[c.name()] = kw.get("oneof", False)
        c.request(*args, **self.kw(kw, ("fail_delay", "request_priority", "priority", "urgent", "oneof", "mode")))

    def op_get(self, c, specs, kw):
        self.vals[c.name()] = kw.get("oneof", False)
        c.get(*self._args(specs), **self.kw(kw, ("fail_delay", "request_priority", "priority", "urgent", "oneof")))

    def op_put(self, c, specs, kw):
        self.vals[c.name()] = kw.get("oneof", False)
        c.put(*self._args(specs), **self.kw(kw, ("fail_delay", "request_priority", "priority", "urgent", "oneof")))

    def op_release(self, c, specs):
        if not specs:
            c.release()
            return
        for spec in specs:
            r = self.res[spec[0] % len(self.res)]
            if c.claimed_quantity(r) > 0:
                c.release(r if len(spec) == 1 else (r, spec[1]))

    def op_rrelease(self, r, q):
        anonymous = self.case["res"][r % len(self.res)].get("anon")
        r = self.res[r % len(self.res)]
        if anonymous:
            r.release(q)  # more than claimed: all
        else:
            r.release()

    def op_setcap(self, r, cap):
        self.res[r % len(self.res)].set_capacity(cap)

    def _states(self, specs):
        return [self.states[s % len(self.states)] for s in specs]

    def op_wait(self, c, specs, kw):
        args = []
        for spec in specs:
            s = self.states[spec[0] % len(self.states)]
            if len(spec) == 1:
                args.append(s)
            elif len(spec) == 2:
                args.append((s, self.cond(spec[1])))
            else:
                args.append((s, self.cond(spec[1]), spec[2]))
        conds = [(self.states[spec[0] % len(self.states)], spec[1] if len(spec) > 1 else ["eq", True]) for spec in specs]
        test = all if kw.get("all") else any
        self.vals["wait", c.name()] = lambda: test(self.holds(s, cond) for s, cond in conds)
        c.wait(*args, **self.kw(kw, ("fail_delay", "request_priority", "priority", "urgent", "all", "mode")))

    def op_waitfor(self, c, states, total, kw):
        ss = self._states(states)
        self.vals["wait", c.name()] = lambda: sum(s.get() for s in ss) >= total
        c.wait_for(lambda: sum(s.get() for s in ss) >= total, ss, **self.kw(kw, ("fail_delay", "request_priority", "priority", "urgent")))

    def op_set(self, s, v):
        self.states[s % len(self.states)].set(v)

    def op_resetst(self, s, v):
        self.states[s % len(self.states)].reset(v)

    def op_trigger(self, s, v, after, mx):
        self.states[s % len(self.states)].trigger(v, value_after=after, max=inf if mx is None else mx)

    def _stores(self, stores):
        result = []
        for s in stores:
            s = self.stores[s % len(self.stores)]
            if not any(s is x for x in result):
                result.append(s)
        return result[0] if len(result) == 1 else result

    def flt(self, spec):
        mod, rem = spec
        return lambda c: (c.val + self.gate) % mod == rem % mod

    def op_from(self, c, stores, kw):
        k = self.kw(kw, ("fail_delay", "request_priority", "fail_priority", "urgent"))
        self.vals["filter", c.name()] = lambda item: True
        if kw.get("filter"):
            self.vals["filter", c.name()] = k["filter"] = self.flt(kw["filter"])
        if kw.get("key"):
            sign = kw["key"]
            k["key"] = lambda c: sign * c.val
        return c.from_store(self._stores(stores), **k)

    def op_to(self, c, stores, kw):
        c.to_store(self._stores(stores), self.make_item(), **self.kw(kw, ("fail_delay", "request_priority", "fail_priority", "urgent", "priority")))

    def op_enter(self, s, prio):
        s = self.stores[s % len(self.stores)]
        if s.available_quantity() > 0:
            self.make_item().enter(s, prio)

    def op_leave(self, s, i):
        s = self.stores[s % len(self.stores)]
        items = list(s)
        if items:
            item = items[i % len(items)]
            if i % 3 == 2 and not self.is_ref:
                item.leave()  # all queues, but it is in this store only
            else:
                item.leave(s)

    def op_scap(self, s, cap):
        s = self.stores[s % len(self.stores)]
        if cap is None:
            cap = inf
        s.set_capacity(cap)

    def op_gate(self, value):
        """change what the filters depend on, and rescan"""
        self.gate = value
        for s in self.stores:
            s.rescan()

    def op_rescan(self, s):
        self.stores[s % len(self.stores)].rescan()

    def op_filter(self, c, spec):
        self.vals["filter", c.name()] = self.flt(spec)
        c.filter(self.flt(spec))

    # monitoring
    def monitored(self, kind, i):
        objects = dict(r=self.res, st=self.states, c=self.comps, s=self.stores)[kind]
        return objects[i % len(objects)] if objects else None

    def op_monitor(self, kind, i, on):
        o = self.monitored(kind, i)
        if o is None:
            return
        if kind == "c":
            if self.is_ref:
                o.monitor_status(on)
            else:
                o.status.monitor(on)
        else:
            o.monitor(on)

    def op_resetmon(self, kind, i, on):
        o = self.monitored(kind, i)
        if o is None:
            return
        if on is None:
            o.reset_monitors()
        else:
            o.reset_monitors(monitor=on)

    # main
    def op_run(self, d, prio=None, urgent=False):
        kw = dict(urgent=True) if urgent else {}
        if prio is not None:
            kw["priority"] = prio
        self.env.run(d, **kw)

    def op_runtill(self, d):
        self.env.run(till=self.env.now() + d)

    def op_runempty(self):
        self.env.run()

    def op_reset_now(self, x):
        self.env.reset_now(25 if x == "dist" else x)

    def steps(self):
        """executes the main of the case, step by step"""
        for op in self.case["main"]:
            self.do(None, op)
            self.log.append(("main", op[0], self.snapshot()))
            yield
        self.env.run(self.case.get("tail", 20))
        self.log.append(("main", "final", self.snapshot()))

    def execute(self):
        for _ in self.steps():
            pass
        return self

    # statistics
    def statistics(self):
        """list of (what, value)"""
        ref = self.is_ref
        result = []
        for c in self.allcomps:
            if ref:
                d = collections.defaultdict(float)
                for dur, v in c._status.segments():
                    d[v] += dur
            for v in ("data", "current", "standby", "passive", "interrupted", "scheduled", "requesting", "waiting"):
                result.append((f"time in status {v} of {c.name()}", d[v] if ref else c.status.value_duration(v)))
        for r in self.res:
            for name, m in (("claimed_quantity", "m_claimed"), ("available_quantity", "m_available"), ("capacity", "m_capacity"), ("occupancy", "m_occupancy")):
                result.append((f"mean of {name} of {r.name()}", getattr(r, m).mean() if ref else getattr(r, name).mean()))
        qs = []
        for r in self.res:
            qs += [(f"requesters of {r.name()}", r.requesters()), (f"claimers of {r.name()}", r.claimers())]
        for s in self.stores:
            qs += [(f"items of {s.name()}", s), (f"from requesters of {s.name()}", s.from_store_requesters()), (f"to requesters of {s.name()}", s.to_store_requesters())]
        for s in self.states:
            qs += [(f"waiters of {s.name()}", s.waiters())]
            if ref:
                d = collections.defaultdict(float)
                for dur, v in s.value.segments():
                    d[v] += dur
            for v in (0, 1, 2, 3):
                result.append((f"time that {s.name()} has value {v}", d[v] if ref else s.value.value_duration(v)))
        for name, q in qs:
            result.append((f"mean length of {name}", q.length.mean()))
            result.append((f"number of arrivals {name}", q.number_of_arrivals))
            result.append((f"number of departures {name}", q.number_of_departures))
            stays = q.stays if ref else list(q.length_of_stay.x())
            result.append((f"length of stays of {name}", [float(x) for x in stays]))
        return result


BLOCKING = "hold holdx holdtill holdi passivate activate keep cancel standby request get put wait waitfor from to".split()
TARGETED = BLOCKING + "interrupt resume rd mode skip release filter".split()
_process = lambda status, me: status not in ("data",)
_claiming = lambda status, me: status not in ("data", "interrupted")
ALLOWED = dict(
    hold=_process, holdx=_process, holdtill=_process, holdi=_process, passivate=_process,
    activate=lambda status, me: True, keep=lambda status, me: status in ("requesting", "waiting") or me, cancel=lambda status, me: True, standby=_process,
    request=_claiming, get=_claiming, put=_claiming, wait=_claiming, waitfor=_claiming, to=_claiming,
    interrupt=lambda status, me: status in ("scheduled", "interrupted"),
    resume=lambda status, me: status == "interrupted",
    rd=lambda status, me: status not in ("data", "current", "standby"),
    mode=lambda status, me: True, skip=lambda status, me: True, release=lambda status, me: True,
    filter=lambda status, me: status == "requesting",
)
ALLOWED["from"] = _claiming


def animated(cases):
    """some of the cases in an environment with a blind animation (statistics should not depend on that)"""
    return st.tuples(cases, st.sampled_from([False, False, False, True])).map(lambda v: dict(v[0], animate=v[1]))


def animation(case):
    return dict(blind_animation=True, animate=True) if case.get("animate") else {}


def fresh():
    sim.reset()
    sim.yieldless(True)


def diff_logs(a, b, what_a="salabim", what_b="the model"):
    for i, (x, y) in enumerate(zip(a, b)):
        if not same_entry(x, y):
            detail = ""
            if isinstance(x[-1], list) and isinstance(y[-1], list) and x[:-1] == y[:-1]:
                for u, v in zip(x[-1], y[-1]):
                    if not same_entry(u, v):
                        detail = f": {short(u)} versus {short(v)}"
                        break
                fail(f"step {i} {x[:-1]} {what_a} and {what_b} differ{detail}")
            fail(f"step {i}: {what_a} {short(x, 300)} but {what_b} {short(y, 300)}")
    if len(a) != len(b):
        i = min(len(a), len(b))
        fail(f"step {i}: {what_a} {short(a[i:i+1], 300)} but {what_b} {short(b[i:i+1], 300)}")


def same_entry(x, y):
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(same_entry(p, q) for p, q in zip(x, y))
    if isinstance(x, float) or isinstance(y, float):
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return is_close(x, y)
    return x == y and (isinstance(x, str) == isinstance(y, str))


def against_model(case, hooks=None, stats=True, mode=None):
    """runs the case on salabim and on the reference model. Returns the driver of the model (with its counters)"""
    fresh()
    ref = Driver(refsim, case).execute()
    real = Driver(sim, case, mode=mode or case.get("mode", "yieldless"), hooks=hooks)
    try:
        real.execute()
    except Violation:
        raise
    except Exception:
        if ref.env.unclear:
            raise
        diff_logs(real.log, ref.log[: len(real.log)])  # a difference before the exception is more informative
        raise
    ref.real = real
    if ref.env.unclear:
        return ref
    diff_logs(real.log, ref.log)
    if stats:
        for (what, x), (_, y) in zip(real.statistics(), ref.statistics()):
            if isinstance(x, list):
                if len(x) != len(y) or not all(is_close(p, q) for p, q in zip(x, y)):
                    fail(f"{what}: {short(x)}, expected {short(y)}")
            elif not is_close(x, y):
                fail(f"{what}: {short(x)}, expected {short(y)}")
    ref.real = real
    return ref
