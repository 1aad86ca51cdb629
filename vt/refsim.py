"""Reference model of the salabim process interaction kernel.

A small, slow, straightforward implementation, written from the documentation, with the same names for the public API as salabim
(as far as used by vt/drive.py). Processes are generators. It shares no code or data structure with salabim:
the event list is a plain list that is searched, queues are plain lists, times are kept relative to now
(so a reset_now just shifts all times).
"""

inf = float("inf")
EPS = 1e-8
OFF = object()

data, current, standby, passive, interrupted, scheduled, requesting, waiting = "data current standby passive interrupted scheduled requesting waiting".split()


class QueueFullError(Exception):
    pass


class Level:
    """a level monitor: keeps (t, value) pairs; the monitoring may be turned off and on"""

    def __init__(self, env, value):
        self.env = env
        self.value = value
        self.on = True
        self.tallies = [(env._now, value)]
        env.levels.append(self)

    def tally(self, value):
        self.value = value
        if self.on:
            self.tallies.append((self.env._now, value))

    def monitor(self, on):
        if on is not None:
            self.on = on
            self.tallies.append((self.env._now, self.value if on else OFF))

    def reset(self, on=None):
        self.tallies = []
        self.monitor(self.on if on is None else on)

    def __call__(self):
        return self.value

    def shift(self, delta):
        self.tallies = [(t + delta, v) for t, v in self.tallies]

    def segments(self):
        """(duration, value), without zero durations"""
        result = []
        for (t0, v), (t1, _) in zip(self.tallies, self.tallies[1:] + [(self.env._now, None)]):
            if t1 > t0 and v is not OFF:
                result.append((t1 - t0, v))
        return result

    def mean(self):
        s = self.segments()
        total = sum(d for d, v in s)
        if total == 0:
            return float("nan")
        return sum(d * v for d, v in s) / total


class Entry:
    def __init__(self, c, priority, t):
        self.c, self.priority, self.t = c, priority, t


class Queue:
    """members in order of priority, first in first out within the same priority"""

    def __init__(self, env, capacity=inf):
        self.env = env
        self.m = []
        self.cap = capacity
        self.length = Level(env, 0)
        self.stays = []
        self.stay_on = True
        self.number_of_arrivals = 0
        self.number_of_departures = 0
        env.all_queues.append(self)

    def __iter__(self):
        return iter([e.c for e in self.m])

    def __len__(self):
        return len(self.m)

    def __contains__(self, c):
        return any(e.c is c for e in self.m)

    def entry(self, c):
        for e in self.m:
            if e.c is c:
                return e

    def insert(self, c, priority):
        if len(self.m) + 1 > self.cap:
            raise QueueFullError
        if priority is None:
            priority = self.m[-1].priority if self.m else 0
            i = len(self.m)
        else:
            i = sum(1 for e in self.m if e.priority <= priority)
        self.m.insert(i, Entry(c, priority, self.env._now))
        self.number_of_arrivals += 1
        self.length.tally(len(self.m))

    def drop(self, c):
        e = self.entry(c)
        self.m.remove(e)
        if self.stay_on:
            self.stays.append(self.env._now - e.t)
        self.number_of_departures += 1
        self.length.tally(len(self.m))

    def first(self):
        return self.m[0].c if self.m else None

    def monitor(self, on):
        self.length.monitor(on)
        if on is not None:
            self.stay_on = on

    def reset_monitors(self, monitor=None):
        self.length.reset(monitor)
        self.stays = []
        if monitor is not None:
            self.stay_on = monitor


class Store(Queue):
    def __init__(self, name=None, capacity=inf, env=None, **kwargs):
        super().__init__(env, capacity)
        self._name = name
        self._from = Queue(env)
        self._to = Queue(env)

    def name(self):
        return self._name

    def capacity(self):
        return self.cap

    def available_quantity(self):
        return self.cap - len(self.m)

    def from_store_requesters(self):
        return self._from

    def to_store_requesters(self):
        return self._to

    def put_in(self, item, priority):
        self.insert(item, priority)
        for c in self._from:
            if c._filter(item):
                c._stop_from_store()
                self.take_out(item)
                c._honor_from_store(item, self)
                break

    def take_out(self, item):
        self.drop(item)
        if self.available_quantity() > 0 and len(self._to):
            c = self._to.first()
            item, priority = c._to_item, c._to_item_priority
            c._stop_to_store()
            self.put_in(item, priority)
            c._honor_to_store(self)

    def set_capacity(self, cap):
        old, self.cap = self.cap, cap
        if cap >= old:
            for c in list(self._to):
                if self.available_quantity() <= 0:
                    break
                if c in self._to:
                    item, priority = c._to_item, c._to_item_priority
                    c._stop_to_store()
                    self.put_in(item, priority)
                    c._honor_to_store(self)

    def rescan(self):
        for c in list(self._from):
            if c not in self._from:
                continue
            for item in list(self):
                if c._filter(item):
                    c._stop_from_store()
                    self.take_out(item)
                    c._honor_from_store(item, self)
                    break


class Monitored:
    def monitor(self, on):
        for m in self.monitored():
            m.monitor(on)

    def reset_monitors(self, monitor=None):
        for m in self.monitored():
            m.reset_monitors(monitor) if isinstance(m, Queue) else m.reset(monitor)


class State(Monitored):
    def monitored(self):
        return [self._waiters, self.value]

    def __init__(self, name=None, value=False, env=None):
        self.env = env
        self._name = name
        self._value = value
        self._waiters = Queue(env)
        self.value = Level(env, value)

    def name(self):
        return self._name

    def get(self):
        return self._value

    def __call__(self):
        return self._value

    def waiters(self):
        return self._waiters

    def set(self, value=True):
        if value != self._value:
            self._value = value
            self.value.tally(value)
            self._offer()

    def reset(self, value=False):
        self.set(value)

    def trigger(self, value=True, value_after=None, max=inf):
        if value_after is None:
            value_after = self._value
        self._value = value
        self.value.tally(value)
        self._offer(max)
        self._value = value_after
        self.value.tally(value_after)
        self._offer()

    def _offer(self, max=inf):
        n = 0
        for c in list(self._waiters):
            if n >= max:
                break
            if c._trywait():
                n += 1


class Resource(Monitored):
    def monitored(self):
        return [self._requesters, self._claimers, self.m_claimed, self.m_available, self.m_capacity, self.m_occupancy]

    def __init__(self, name=None, capacity=1, initial_claimed_quantity=0, anonymous=False, preemptive=False, honor_only_first=False, honor_only_highest_priority=False, env=None):
        self.env = env
        self._name = name
        self.cap = capacity
        self.used = initial_claimed_quantity
        self.anonymous = anonymous
        self.preemptive = preemptive
        self.only_first = honor_only_first
        self.only_highest = honor_only_highest_priority
        self._requesters = Queue(env)
        self._claimers = Queue(env)
        self.busy = False
        self.m_claimed = Level(env, self.used)
        self.m_available = Level(env, self.cap - self.used)
        self.m_capacity = Level(env, self.cap)
        self.m_occupancy = Level(env, self.occ())

    def occ(self):
        return 0 if self.cap <= 0 else self.used / self.cap

    def _tally(self):
        self.m_claimed.tally(self.used)
        self.m_available.tally(self.cap - self.used)
        self.m_occupancy.tally(self.occ())

    def name(self):
        return self._name

    def requesters(self):
        return self._requesters

    def claimers(self):
        return self._claimers

    def claimed_quantity(self):
        return self.used

    def available_quantity(self):
        return self.cap - self.used

    def capacity(self):
        return self.cap

    def occupancy(self):
        return self.occ()

    def ispreemptive(self):
        return self.preemptive

    def set_capacity(self, cap):
        self.cap = cap
        self.m_capacity.tally(cap)
        self._tally()
        self._offer()

    def release(self, quantity=None):
        if not self.anonymous:  # all that claim at this moment
            for c in [e.c for e in self._claimers.m]:
                if self in c._claims:
                    c.release(self)
            return
        self.used -= self.used if quantity is None else quantity
        if self.used < EPS:
            self.used = 0
        self._tally()
        self._offer()

    def allows(self, c, q):
        if self.only_first and self._requesters.first() is not c:
            return False
        if self.only_highest and self._requesters.entry(c).priority != self._requesters.m[0].priority:
            return False
        if q > 0:
            return q <= self.cap - self.used + EPS
        return -q <= self.used + EPS

    def _offer(self):
        if self.busy:
            return
        self.busy = True
        i = 0
        while i < len(self._requesters):
            e = self._requesters.m[i]
            if not self.anonymous and e.c._oneof and not self.allows(e.c, e.c._requests[self]):
                # cannot be honored here; when it could be honored by another resource that is in the middle of offering,
                # it is not defined who is first
                if any(r.busy and r.allows(e.c, q) for r, q in e.c._requests.items() if r is not self):
                    self.env.unclear = True
                i += 1
                continue
            e.c._tryrequest()
            if e.c in self._requesters:
                i += 1
            else:
                i = 0
        self.busy = False


class Component:
    def __init__(self, name=None, at=None, delay=None, priority=0, urgent=False, process=None, skip_standby=False, mode="", env=None, **kwargs):
        self.env = env
        self._name = name
        self._status = Level(env, data)
        self._gen = None
        self._sched = inf
        self._rd = 0
        self._failed = False
        self._skip = skip_standby
        self._mode = mode
        self._mode_time = env._now
        self._requests = {}
        self._claims = {}
        self._waits = []
        self._from_stores = []
        self._to_stores = []
        self._fsi = self._fss = self._tss = None
        self._interrupt_level = 0
        env.comps.append(self)
        if process != "" and (process is not None or hasattr(self, "process")):
            self._gen = getattr(self, process or "process")()
            self.status_ = scheduled
            t = (self.env._now if at is None else at) + (delay or 0)
            self.env.push(self, t, priority, urgent)
        self.setup(**kwargs)

    def setup(self):
        pass

    # observation
    @property
    def status_(self):
        return self._status.value

    @status_.setter
    def status_(self, v):
        self._status.tally(v)

    def status(self):
        return self._status.value

    def name(self):
        return self._name

    def mode(self):
        return self._mode

    def scheduled_time(self):
        return self._sched

    def scheduled_priority(self):
        for e in self.env.events:
            if e[3] is self:
                return e[1]
        return None

    def remaining_duration(self, value=None, priority=0, urgent=False):
        if value is not None:
            if self.status_ in (passive, interrupted):
                self._rd = value
            else:
                self.env.unschedule(self)
                self.env.push(self, self.env._now + value, priority, urgent)
        if self.status_ in (passive, interrupted):
            return self._rd
        if self.status_ in (scheduled, requesting, waiting):
            return self._sched - self.env._now
        return 0

    def interrupt_level(self):
        return self._interrupt_level if self.status_ == interrupted else 0

    def failed(self):
        return self._failed

    def claimed_quantity(self, r):
        return self._claims.get(r, 0)

    def claimed_resources(self):
        return list(self._claims)

    def requested_quantity(self, r):
        return self._requests.get(r, 0)

    def requested_resources(self):
        return list(self._requests)

    def isbumped(self, r=None):
        return not self.isclaiming(r)

    def isclaiming(self, r=None):
        if r is None:
            return bool(self._claims)
        return r in self._claims

    def from_store_item(self):
        return self._fsi

    def from_store_store(self):
        return self._fss

    def to_store_store(self):
        return self._tss

    def skip_standby(self, value=None):
        if value is not None:
            self._skip = value
        return self._skip

    def monitor_status(self, on):
        self._status.monitor(on)

    def reset_monitors(self, monitor=None):
        self._status.reset(monitor)

    def mode_time(self):
        return self._mode_time

    def set_mode(self, value=None):
        if value is not None:
            self._mode = value
            self._mode_time = self.env._now

    _set_mode = set_mode

    # process control
    def _disturb(self):
        """a component that is not current gets another destination"""
        self.env.unschedule(self)
        self._fail()

    def _fail(self):
        if self._requests:
            rs = list(self._requests)
            self._requests = {}
            for r in rs:
                r._requesters.drop(self)
            self._failed = True
            for r in rs:
                if r.only_first or r.only_highest:
                    r._offer()
        if self._waits:
            self._stop_wait()
            self._failed = True
        if self._from_stores:
            self._stop_from_store()
            self._failed = True
        if self._to_stores:
            self._stop_to_store()
            self._failed = True

    def activate(self, at=None, delay=0, priority=0, urgent=False, process=None, mode=None, keep_request=False, keep_wait=False, **kwargs):
        new_status = scheduled
        if process is not None or self.status_ == data:
            self._gen = getattr(self, process or "process")(**kwargs)
        elif (self.status_ == requesting and keep_request) or (self.status_ == waiting and keep_wait):
            new_status = self.status_
            self.env.unschedule(self)
        if self.status_ != current and new_status == scheduled:
            self._disturb()
        self._set_mode(mode)
        self.status_ = new_status
        self.env.push(self, (self.env._now if at is None else at) + delay, priority, urgent)

    def hold(self, duration=None, till=None, priority=0, urgent=False, mode=None, interrupted=False):
        if self.status_ != current:
            self._disturb()
        self._set_mode(mode)
        t = till if till is not None else self.env._now + (duration or 0)
        if interrupted:
            self._rd = t - self.env._now
            self._interrupt_level = int(interrupted)
            self.status_ = "interrupted"
        else:
            self.status_ = scheduled
            self.env.push(self, t, priority, urgent)

    def passivate(self, mode=None):
        if self.status_ == current:
            self._rd = 0
        else:
            sched = self._sched
            self._disturb()
            self._rd = sched - self.env._now
        self._sched = inf
        self._set_mode(mode)
        self.status_ = passive

    def cancel(self, mode=None):
        if self.status_ == data:
            return
        if self.status_ != current:
            self._disturb()
        self._release_all()
        self._gen = None
        self._sched = inf
        self._set_mode(mode)
        self.status_ = data

    def standby(self, mode=None):
        if self.status_ != current:
            self._disturb()
        self._sched = self.env._now
        self._set_mode(mode)
        self.env.standbylist.append(self)
        self.status_ = standby

    def interrupt(self, mode=None):
        if self.status_ not in (scheduled, interrupted):
            raise ValueError
        self._set_mode(mode)
        if self.status_ == interrupted:
            self._interrupt_level += 1
        else:
            self.env.unschedule(self)
            self._rd = self._sched - self.env._now
            self._interrupt_level = 1
            self.status_ = interrupted

    def resume(self, all=False, mode=None, priority=0, urgent=False):
        if self.status_ != interrupted:
            raise ValueError
        self._set_mode(mode)
        self._interrupt_level -= 1
        if all or self._interrupt_level == 0:
            self.status_ = scheduled
            self.env.push(self, self.env._now + self._rd, priority, urgent)

    # resources
    def _deadline(self, fail_at, fail_delay):
        if fail_at is not None:
            return fail_at
        if fail_delay is not None:
            return self.env._now + fail_delay
        return inf

    def get(self, *args, **kwargs):
        self.request(*args, **kwargs)

    def put(self, *args, **kwargs):
        self.request(*[(a, -1) if isinstance(a, Resource) else (a[0], -(a[1] if len(a) > 1 else 1), *a[2:]) for a in args], **kwargs)

    def request(self, *args, fail_at=None, fail_delay=None, mode=None, urgent=False, request_priority=0, priority=0, oneof=False):
        if self.status_ != current:
            self._disturb()
        self._oneof = oneof
        deadline = self._deadline(fail_at, fail_delay)
        self._set_mode(mode)
        self._failed = False
        for a in args:
            r, q, prio = a, 1, request_priority
            if not isinstance(a, Resource):
                r = a[0]
                if len(a) > 1:
                    q = a[1]
                if len(a) > 2:
                    prio = a[2]
            if r not in self._requests:
                r._requesters.insert(self, prio)
                self._requests[r] = 0
            self._requests[r] += q
            if r.preemptive:
                victims = []
                av = r.cap - r.used
                for e in reversed(r._claimers.m):
                    if av >= q or prio >= e.priority:
                        break
                    av += e.c._claims[r]
                    victims.append(e.c)
                first = r._requesters.m[0]
                if (r.only_first and first.c is not self) or (r.only_highest and first.priority != prio):
                    victims = []  # not this one's turn
                if av >= q:
                    self.env.bumps += len(victims)
                    for c in victims:
                        c._giveback(r)
                        c.activate()
        self._tryrequest()
        if self._requests:
            self.status_ = requesting
            self.env.push(self, deadline, priority, urgent)

    def _tryrequest(self):
        if self._oneof:
            rs = [r for r, q in self._requests.items() if r.allows(self, q)][:1]
        else:
            rs = list(self._requests) if all(r.allows(self, q) for r, q in self._requests.items()) else []
        if not rs:
            return
        retry = [r for r in self._requests if r.anonymous or r.preemptive or r.only_first or r.only_highest]
        for r, q in self._requests.items():
            prio = r._requesters.entry(self).priority
            if r in rs:
                r.used += q
                if not r.anonymous:
                    self._claims[r] = self._claims.get(r, 0) + q
                    if self not in r._claimers:
                        r._claimers.insert(self, prio)
                r._tally()
            r._requesters.drop(self)
        self._requests = {}
        self.env.unschedule(self)
        self.status_ = scheduled
        self.env.push(self, self.env._now, 0, False)
        for r in retry:
            r._offer()

    def _giveback(self, r, q=None):
        if q is None or q > self._claims[r]:
            q = self._claims[r]
        r.used -= q
        self._claims[r] -= q
        if self._claims[r] < EPS:
            del self._claims[r]
            r._claimers.drop(self)
            if not r._claimers.m:
                r.used = 0
        r._tally()

    def _release_all(self):
        for r in list(self._claims):
            if r in self._claims:
                self._giveback(r)
                r._offer()

    def release(self, *args):
        if not args:
            self._release_all()
        for a in args:
            r, q = (a, None) if isinstance(a, Resource) else (a[0], a[1])
            if r not in self._claims:
                raise ValueError
            self._giveback(r, q)
            r._offer()

    # states
    def wait(self, *args, fail_at=None, fail_delay=None, all=False, mode=None, urgent=False, request_priority=0, priority=0):
        waits = []
        for a in args:
            s, v, prio = a, True, request_priority
            if not isinstance(a, State):
                s = a[0]
                if len(a) > 1:
                    v = a[1]
                if len(a) > 2:
                    prio = a[2]
            waits.append((s, v, prio))

        def holds(s, v):
            if callable(v):
                return v(s._value, self, s)
            if isinstance(v, str) and "$" in v:
                return eval(v.replace("$", "(s._value)"))
            return s._value == v

        cond = lambda: (min if all else max)(bool(holds(s, v)) for s, v, _ in waits)
        self._wait(cond, [(s, prio) for s, v, prio in waits], fail_at, fail_delay, mode, urgent, priority)

    def wait_for(self, cond, states, request_priority=0, priority=0, urgent=False, mode=None, fail_delay=None, fail_at=None):
        self._wait(cond, [(s, request_priority) for s in states], fail_at, fail_delay, mode, urgent, priority)

    def _wait(self, cond, states, fail_at, fail_delay, mode, urgent, priority):
        if self.status_ != current:
            self._disturb()
        self._failed = False
        self._set_mode(mode)
        deadline = self._deadline(fail_at, fail_delay)
        self._cond = cond
        for s, prio in states:
            if s not in self._waits:
                self._waits.append(s)
                s._waiters.insert(self, prio)
        if not self._trywait():
            self.status_ = waiting
            self.env.push(self, deadline, priority, urgent)

    def _stop_wait(self):
        for s in self._waits:
            s._waiters.drop(self)
        self._waits = []

    def _trywait(self):
        if not self._cond():
            return False
        self._stop_wait()
        self.env.unschedule(self)
        self.status_ = scheduled
        self.env.push(self, self.env._now, 0, False)
        return True

    # stores
    def enter(self, q, priority=None):
        q.put_in(self, priority)

    enter_sorted = enter

    def leave(self, q):
        q.take_out(self)

    def _stop_from_store(self):
        for s in self._from_stores:
            s._from.drop(self)
        self._from_stores = []

    def _honor_from_store(self, item, store):
        self._fsi, self._fss = item, store
        self.env.unschedule(self)
        self.status_ = scheduled
        self.env.push(self, self.env._now, 0, False)

    def _stop_to_store(self):
        for s in self._to_stores:
            s._to.drop(self)
        self._to_stores = []

    def _honor_to_store(self, store):
        self._tss = store
        self.env.unschedule(self)
        self.status_ = scheduled
        self.env.push(self, self.env._now, 0, False)

    def filter(self, f):
        self._filter = f
        for s in list(self._from_stores):
            s.rescan()

    def from_store(self, store, filter=lambda c: True, request_priority=0, fail_priority=0, urgent=True, fail_at=None, fail_delay=None, mode=None, key=None):
        stores = [store] if isinstance(store, Store) else list(store)
        if self.status_ != current:
            self._disturb()
        deadline = self._deadline(fail_at, fail_delay)
        self._set_mode(mode)
        self._failed = False
        candidates = [(item, s) for s in stores for item in s if filter(item)]
        if candidates:
            if key is not None:
                item, s = min(candidates, key=lambda x: key(x[0]))
            else:
                item, s = candidates[0]
            s.take_out(item)
            self._honor_from_store(item, s)
            return
        self._filter = filter
        self._from_stores = stores
        for s in stores:
            s._from.insert(self, request_priority)
        self._fsi = None
        self.status_ = requesting
        self.env.push(self, deadline, fail_priority, urgent)

    def to_store(self, store, item, request_priority=0, priority=0, fail_priority=0, urgent=True, fail_at=None, fail_delay=None, mode=None):
        stores = [store] if isinstance(store, Store) else list(store)
        if self.status_ != current:
            self._disturb()
        deadline = self._deadline(fail_at, fail_delay)
        self._set_mode(mode)
        self._failed = False
        for s in stores:
            if s.available_quantity() > 0:
                s.put_in(item, priority)
                self._honor_to_store(s)
                return
        self._to_stores = stores
        for s in stores:
            s._to.insert(self, request_priority)
        self._to_item, self._to_item_priority = item, priority
        self.status_ = requesting
        self.env.push(self, deadline, fail_priority, urgent)


class Environment:
    def __init__(self, **kwargs):
        self._now = 0
        self.seq = 0
        self.events = []  # (t, priority, seq, component)
        self.standbylist = []
        self.pending = []
        self.levels = []
        self.all_queues = []
        self.comps = []
        self._main = Component(name="main", process="", env=self)
        self.comps.clear()
        self._current = self._main
        self._main.status_ = current
        self.bumps = 0
        self.unclear = False

    def now(self):
        return self._now

    def main(self):
        return self._main

    def current_component(self):
        return self._current

    def reset_now(self, new_now=0):
        delta = new_now - self._now
        self._now = new_now
        self.events = [(t + delta, *rest) for t, *rest in self.events]
        for c in self.comps + [self._main]:
            c._sched += delta
            c._mode_time += delta
        for m in self.levels:
            m.shift(delta)
        for q in self.all_queues:
            for e in q.m:
                e.t += delta

    def push(self, c, t, priority, urgent):
        if t < self._now:
            raise ValueError("scheduled before now")
        c._sched = t
        if t != inf:
            self.seq += 1
            self.events.append((t, priority, -self.seq if urgent else self.seq, c))

    def unschedule(self, c):
        self.events = [e for e in self.events if e[3] is not c]
        if c in self.standbylist:
            self.standbylist.remove(c)
        if c in self.pending:
            self.pending.remove(c)

    def run(self, duration=None, till=None, priority=inf, urgent=False):
        m = self._main
        m.status_ = scheduled
        on_empty = duration is None and till is None
        self.push(m, inf if on_empty else (till if till is not None else self._now + duration), priority, urgent)
        while True:
            c = None
            if not self._current._skip and self.pending:
                c = self.pending.pop(0)
            else:
                self.pending += self.standbylist
                self.standbylist = []
                if not self.events:
                    c = m  # no events left
                else:
                    e = min(self.events, key=lambda e: e[:3])
                    self.events.remove(e)
                    self._now = e[0]
                    c = e[3]
            self._current = c
            c.status_ = current
            c._sched = inf
            if c is m:
                return
            c._fail()
            try:
                next(c._gen)
            except StopIteration:
                c._release_all()
                c._fsi = None
                c.status_ = data
                c._sched = inf
                c._gen = None
