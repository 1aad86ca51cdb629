"""queue operations on salabim queues and on a list model. Used by C04 and C05"""

import operator

import salabim as sim
from hypothesis import strategies as st

from .core import check, close, equal, fail
from .drive import fresh
from .gen import op, weighted
from .stats import LevelRef, inf, nan


class MQ:
    """model of a queue"""

    def __init__(self, t, cap=inf, monitor=True):
        self.l = []  # of [component index, priority, enter time]
        self.cap = cap
        self.arr = self.dep = 0
        self.arr_t = self.dep_t = t
        self.length = LevelRef(t, 0, monitor)
        self.avail = LevelRef(t, cap, monitor)
        self.capm = LevelRef(t, cap, monitor)
        self.stay = []
        self.stay_on = monitor

    def ids(self):
        return [e[0] for e in self.l]

    def pos(self, c):
        return self.ids().index(c)

    def insert(self, t, pos, c, prio):
        if len(self.l) + 1 > self.cap:
            return "full"
        self.l.insert(pos, [c, prio, t])
        self.arr += 1
        self.length.tally(t, len(self.l))
        self.avail.tally(t, self.cap - len(self.l))

    def enter(self, t, c, prio=None):
        if c in self.ids():
            return "value"
        if prio is None:
            return self.insert(t, len(self.l), c, self.l[-1][1] if self.l else 0)
        pos = len(self.l)
        while pos > 0 and self.l[pos - 1][1] > prio:
            pos -= 1
        return self.insert(t, pos, c, prio)

    def leave(self, t, c):
        if c not in self.ids():
            return "value"
        e = self.l.pop(self.pos(c))
        self.dep += 1
        self.length.tally(t, len(self.l))
        self.avail.tally(t, self.cap - len(self.l))
        if self.stay_on:
            self.stay.append(t - e[2])

    def set_cap(self, t, cap):
        self.cap = cap
        self.capm.tally(t, cap)
        self.avail.tally(t, cap - len(self.l))


def attempt(f, *args, **kwargs):
    try:
        return f(*args, **kwargs), None
    except sim.QueueFullError:
        return None, "full"
    except ValueError:
        return None, "value"
    except IndexError:
        return None, "index"


class World:
    def __init__(self, case):
        fresh()
        self.case = case
        self.env = sim.Environment(trace=False, yieldless=True, random_seed=1)
        self.t = 0  # absolute time
        self.offset = 0
        self.c = [sim.Component(f"c{i}", process=None) for i in range(case.get("n", 6))]
        self.q = []
        self.m = []
        self.labels = set()
        for spec in case["queues"]:
            cap = inf if spec["cap"] is None else spec["cap"]
            fill = spec.get("fill", [])
            mon = spec.get("monitor", True)
            m = MQ(0, cap, mon)
            cls = sim.Store if spec.get("store") else sim.Queue
            fill = fill[: int(min(cap, 99))]
            q = cls(f"q{len(self.q)}", capacity=cap, fill=[self.c[i] for i in fill], monitor=mon)
            for i in fill:
                m.enter(0, i)
            self.q.append(q)
            self.m.append(m)

    def do(self, o):
        getattr(self, "op_" + o[0])(*o[1:])

    def pick(self, i):
        i %= len(self.q)
        return self.q[i], self.m[i]

    def out(self, m, c):
        """a component that is not in the queue (usually)"""
        l = [x for x in range(len(self.c)) if x not in m.ids()]
        return l[c % len(l)] if l and c < 12 else c % len(self.c)

    def inn(self, m, c):
        """a component that is in the queue (usually)"""
        l = m.ids()
        return l[c % len(l)] if l and c < 12 else c % len(self.c)

    def outcome(self, what, got, expected):
        if got != expected:
            fail(f"{what}: {'refused (' + got + ')' if got else 'accepted'}, expected {'to be refused (' + expected + ')' if expected else 'to be accepted'}")
        if expected:
            self.labels.add("refused")

    # entering
    def op_enter(self, i, c, prio, how):
        q, m = self.pick(i)
        c = self.out(m, c)
        comp = self.c[c]
        if how == "fill":
            how = "enter"
        f = dict(
            enter=lambda: comp.enter(q) if prio is None else comp.enter(q, prio), add=lambda: q.add(comp, prio), append=lambda: q.append(comp, prio),
            sorted=lambda: comp.enter_sorted(q, prio or 0), add_sorted=lambda: q.add_sorted(comp, prio or 0),
        )[how]
        if how in ("sorted", "add_sorted"):
            prio = prio or 0
        r, err = attempt(f)
        self.outcome(f"{how} c{c} with priority {prio}", err, m.enter(self.t, c, prio))
        if err is None:
            check(r is (comp if how in ("enter", "sorted") else q), f"result of {how}")
        if prio is not None:
            self.labels.add("sorted")

    def op_head(self, i, c, meth):
        q, m = self.pick(i)
        c = self.out(m, c)
        exp = "value" if c in m.ids() else m.insert(self.t, 0, c, m.l[0][1] if m.l else 0)
        r, err = attempt(self.c[c].enter_at_head, q) if meth else attempt(q.add_at_head, self.c[c])
        self.outcome("enter at head", err, exp)

    def op_front(self, i, c, pos, behind, meth):
        q, m = self.pick(i)
        c, pos = self.out(m, c), self.inn(m, pos)
        if c in m.ids() or pos not in m.ids():
            exp = "value"
        else:
            k = m.pos(pos)
            exp = m.insert(self.t, k + behind, c, m.l[k][1])
        a, b = self.c[c], self.c[pos]
        if behind:
            r, err = attempt(a.enter_behind, q, b) if meth else attempt(q.add_behind, a, b)
        else:
            r, err = attempt(a.enter_in_front_of, q, b) if meth else attempt(q.add_in_front_of, a, b)
        self.outcome("enter " + ("behind" if behind else "in front of"), err, exp)
        self.labels.add("relative")

    def op_insert(self, i, k, c):
        q, m = self.pick(i)
        c = self.out(m, c)
        if k < 0 or k > len(m.l):
            exp = "index"
        elif c in m.ids():
            exp = "value"
        else:
            exp = m.insert(self.t, k, c, m.l[k][1] if k < len(m.l) else m.l[-1][1] if m.l else 0)
        r, err = attempt(q.insert, k, self.c[c])
        self.outcome(f"insert at {k}", err, exp)

    # leaving
    def op_leave(self, i, c, meth):
        q, m = self.pick(i)
        c = self.inn(m, c)
        r, err = attempt(self.c[c].leave, q) if meth else attempt(q.remove, self.c[c])
        self.outcome("leave", err, m.leave(self.t, c))
        self.labels.add("leave")

    def op_leaveall(self, c):
        c %= len(self.c)
        self.c[c].leave()
        for m in self.m:
            m.leave(self.t, c)

    def op_pop(self, i, k):
        q, m = self.pick(i)
        r, err = attempt(q.pop) if k is None else attempt(q.pop, k)
        if k is None:
            exp = m.ids()[0] if m.l else None
            check(r is (None if exp is None else self.c[exp]), "pop() returns the head")
        else:
            if not -len(m.l) <= k < len(m.l):
                self.outcome(f"pop({k})", err, "index")
                return
            exp = m.ids()[k]
            check(r is self.c[exp], f"pop({k}) returns the component at {k}")
        if exp is not None:
            m.leave(self.t, exp)

    def op_del(self, i, a, b, c):
        q, m = self.pick(i)
        if c is None:
            if -len(m.l) <= a < len(m.l):
                gone = [m.ids()[a]]
                del q[a]
            else:
                r, err = attempt(q.__delitem__, a)
                self.outcome(f"del [{a}]", err, "index")
                return
        else:
            gone = m.ids()[a:b:c]
            del q[a:b:c]
        for x in gone:
            m.leave(self.t, x)

    def op_clear(self, i, meth):
        q, m = self.pick(i)
        q.clear() if meth else q.remove()
        for x in m.ids():
            m.leave(self.t, x)

    def op_prio(self, i, c, p):
        q, m = self.pick(i)
        c = self.inn(m, c)
        r, err = attempt(self.c[c].priority, q, p)
        if c not in m.ids():
            self.outcome("priority", err, "value")
            return
        self.outcome("priority", err, None)
        equal(r, p, "result of priority")
        k = m.pos(c)
        if m.l[k][1] != p:
            e = m.l.pop(k)
            e[1] = p
            pos = 0
            while pos < len(m.l) and m.l[pos][1] <= p:
                pos += 1
            m.l.insert(pos, e)
            self.labels.add("priority changed")

    def op_cap(self, i, cap, meth):
        q, m = self.pick(i)
        cap = inf if cap is None else cap
        if meth:
            q.set_capacity(cap)
        else:
            q.capacity.value = cap
        m.set_cap(self.t, cap)

    # whole queues
    def new(self, q, m):
        if len(self.q) < 7:
            self.q.append(q)
            self.m.append(m)
        else:  # keep the number of queues bounded
            self.verify_queue(q, m)
            for c in list(q):
                c.leave(q)

    def op_setop(self, kind, i, j, name, oper, monitor):
        q1, m1 = self.pick(i)
        q2, m2 = self.pick(j)
        a, b = m1.ids(), m2.ids()
        prio = 0
        if kind == "union":
            exp = a + [x for x in b if x not in a]
            f, o = q1.union, operator.or_ if monitor else operator.add
        elif kind == "intersection":
            exp = [x for x in a if x in b]
            f, o = q1.intersection, operator.and_
        elif kind == "difference":
            exp = [x for x in a if x not in b]
            f, o = q1.difference, operator.sub
            prio = None
        else:
            exp = [x for x in a if x not in b] + [x for x in b if x not in a]
            f, o = q1.symmetric_difference, operator.xor
        if oper:
            q, monitor = o(q1, q2), False
        else:
            q = f(q2, name=name, monitor=monitor)
        sign = dict(union="|", intersection="&", difference="-").get(kind, "^")
        equal(q.name(), name if (name and not oper) else f"{q1.name()} {sign} {q2.name()}", f"name of {kind}")
        m = MQ(self.t, inf, monitor)
        for x in exp:
            m.insert(self.t, len(m.l), x, prio if prio is not None else m1.l[m1.pos(x)][1])
        check(type(q) is type(q1), "type of the result")
        check([self.c.index(x) for x in q] == exp, f"{kind} of {a} and {b}: got {[self.c.index(x) for x in q]}, expected {exp}")
        self.new(q, m)
        self.labels.add("setop")

    def op_sum(self, i, j):
        q1, m1 = self.pick(i)
        q2, m2 = self.pick(j)
        q = sum((q1, q2))
        a, b = m1.ids(), m2.ids()
        m = MQ(self.t, inf, False)
        for x in a + [x for x in b if x not in a]:
            m.insert(self.t, len(m.l), x, 0)
        self.new(q, m)

    def op_copy(self, i, move, copycap, name):
        q1, m1 = self.pick(i)
        if copycap and m1.cap < len(m1.l):
            copycap = False  # a copy can't contain more than its capacity
        q = (q1.move if move else q1.copy)(name=name, copy_capacity=copycap)
        equal(q.name(), name or "copy of " + q1.name(), "name of the copy")
        m = MQ(self.t, m1.cap if copycap else inf, False)
        for x, p, _ in m1.l:
            m.insert(self.t, len(m.l), x, p)
        if move:
            for x in m1.ids():
                m1.leave(self.t, x)
        self.new(q, m)
        self.labels.add("copy")

    def op_extend(self, i, j, clear, aslist):
        q1, m1 = self.pick(i)
        q2, m2 = self.pick(j)
        src = m2.ids()
        exp = None
        for x in src:
            if x not in m1.ids():
                exp = m1.enter(self.t, x)
                if exp:
                    break
        if aslist:
            r, err = attempt(q1.extend, [self.c[x] for x in src])
        else:
            r, err = attempt(q1.extend, q2, clear_source=clear)
        self.outcome("extend", err, exp)
        if clear and not aslist and not err:
            for x in m2.ids():
                m2.leave(self.t, x)
        self.labels.add("extend")

    def op_compare(self, i, j, with_):
        q1, m1 = self.pick(i)
        q2, m2 = self.pick(j)
        a, b = set(m1.ids()), set(m2.ids())
        other = q2 if with_ == 0 else list(q2) if with_ == 1 else set(q2)
        for name in ("eq", "ne", "lt", "le", "gt", "ge"):
            f = getattr(operator, name)
            equal(f(q1, other), f(a, b), f"{name} of {a} and {b}")
        check(not (q1 == 1), "a queue is not equal to a number")

    def op_slice(self, i, a, b, c):
        q, m = self.pick(i)
        equal([self.c.index(x) for x in q[a:b:c]], m.ids()[a:b:c], f"slice [{a}:{b}:{c}]")

    def op_iter(self, i, rev, ops):
        """iteration, with operations on the queue(s) in between"""
        q, m = self.pick(i)
        seen = []
        stayed = list(m.l)  # the entries that are in the queue all the time
        it = reversed(q) if rev else iter(q)
        entered = list(m.ids())
        n = 0
        unchanged = True
        order = m.ids()[::-1] if rev else m.ids()
        limit = 60
        for comp in it:
            limit -= 1
            check(limit, "endless iteration")
            c = self.c.index(comp)
            check(c in m.ids(), f"iteration gives c{c}, that is not in the queue")
            seen.append(c)
            if n < len(ops):
                before = [e[:2] for e in m.l]
                arr = m.arr
                self.do(ops[n])
                if m.arr != arr:
                    for x in m.ids():
                        entered.append(x) if (x not in [y for y, _ in before]) else None
                if [e[:2] for e in m.l] != before:
                    unchanged = False
                stayed = [e for e in stayed if any(e is e1 for e1 in m.l)]
                n += 1
        if unchanged:
            equal(seen, order, "iteration order")
        for x in [e[0] for e in stayed]:
            check(seen.count(x) == 1, f"c{x} was in the queue during the whole iteration, but was given {seen.count(x)} times: {seen}")
        if not isinstance(q, sim.Store):
            for x in m.ids():
                check(x in seen, f"c{x} is in the queue after the iteration, but was not given")
        self.labels.add("iterated while changing" if not unchanged else "iterated")

    # time and monitors
    def op_nop(self):
        pass

    def op_run(self, d):
        self.env.run(d)
        self.t += d

    def op_reset_now(self, v):
        self.env.reset_now(v)
        self.offset = self.t - v

    def op_monitor(self, i, on, which):
        q, m = self.pick(i)
        if which == 0:
            q.monitor(on)
        if which in (0, 1):
            if which == 1:
                q.length.monitor(on)
            m.length.monitor(self.t, on)
        if which in (0, 2):
            if which == 2:
                q.length_of_stay.monitor(on)
            m.stay_on = on
        if which == 3:
            q.available_quantity.monitor(on)
            m.avail.monitor(self.t, on)
        self.labels.add("monitor")

    def op_reset(self, i, on, which):
        q, m = self.pick(i)
        if which == 0:
            q.reset_monitors(monitor=on)
        if which in (0, 1):
            if which == 1:
                q.length.reset(monitor=on)
            m.length.reset(self.t, on)
        if which in (0, 2):
            if which == 2:
                q.length_of_stay.reset(monitor=on)
            m.stay = []
            if on is not None:
                m.stay_on = on
        if which == 3:
            q.available_quantity.reset(monitor=on)
            m.avail.reset(self.t, on)
        self.labels.add("reset")

    def op_rate(self, i, which, reset):
        q, m = self.pick(i)
        if which:
            if reset:
                m.arr, m.arr_t = 0, self.t
            d = self.t - m.arr_t
            close(q.arrival_rate(reset=reset), m.arr / d if d else nan, "arrival_rate")
        else:
            if reset:
                m.dep, m.dep_t = 0, self.t
            d = self.t - m.dep_t
            close(q.departure_rate(reset=reset), m.dep / d if d else nan, "departure_rate")

    # verification
    def verify_queue(self, q, m):
        C = self.c
        ids = m.ids()
        n = len(ids)
        what = q.name()
        equal([C.index(x) for x in q], ids, f"contents of {what}")
        equal([C.index(x) for x in reversed(q)], ids[::-1], f"reversed contents of {what}")
        equal([C.index(x) for x in q.as_list()], ids, f"as_list of {what}")
        check(q.as_set() == {C[i] for i in ids}, f"as_set of {what}")
        equal(len(q), n, f"len of {what}")
        equal(q.length(), n, f"length of {what}")
        equal(q.length.value, n, f"length of {what}")
        equal(q.available_quantity(), m.cap - n, f"available_quantity of {what}")
        equal(q.capacity(), m.cap, f"capacity of {what}")
        equal((q.number_of_arrivals, q.number_of_departures), (m.arr, m.dep), f"number of arrivals, departures of {what}")
        check(q.head() is (C[ids[0]] if ids else None), f"head of {what}")
        check(q.tail() is (C[ids[-1]] if ids else None), f"tail of {what}")
        for k in range(-n, n):
            check(q[k] is C[ids[k]], f"{what}[{k}] is c{ids[k]}")
        for k in (n, -n - 1):
            equal(attempt(lambda: q[k])[1], "index", f"{what}[{k}] out of range")
        for i, c in enumerate(C):
            inq = i in ids
            equal(c in q, inq, f"membership of c{i} in {what}")
            equal((c.count(q), q.count(c)), (int(inq), int(inq)), f"count of c{i} in {what}")
            k = ids.index(i) if inq else -1
            equal((c.index(q), q.index(c)), (k, k), f"index of c{i} in {what}")
            check(q.component_with_name(c.name()) is (c if inq else None), f"component_with_name in {what}")
            if inq:
                s = C[ids[k + 1]] if k + 1 < n else None
                p = C[ids[k - 1]] if k > 0 else None
                check(c.successor(q) is s and q.successor(c) is s, f"successor of c{i} in {what}")
                check(c.predecessor(q) is p and q.predecessor(c) is p, f"predecessor of c{i} in {what}")
                equal(c.priority(q), m.l[k][1], f"priority of c{i} in {what}")
                close(c.enter_time(q), m.l[k][2] - self.offset, f"enter_time of c{i} in {what}")
            else:
                equal(attempt(c.priority, q)[1], "value", "priority of a component that is not in the queue")
                equal(attempt(c.successor, q)[1], "value", "successor of a component that is not in the queue")
        info = q.print_info(as_str=True).splitlines()
        listed = [l.split()[0] for l in info if " priority=" in l]
        equal(listed, [f"c{i}" for i in ids], f"components in print_info of {what}")

    def verify(self):
        close(self.env.now(), self.t - self.offset, "now")
        for q, m in zip(self.q, self.m):
            prios = [e[1] for e in m.l]
            if prios != sorted(prios):
                from .core import HarnessError

                raise HarnessError(f"model not sorted {m.l}")
            self.verify_queue(q, m)
        for i, c in enumerate(self.c):
            exp = {id(q) for q, m in zip(self.q, self.m) if i in m.ids()}
            equal(c.count(), len(exp), f"number of queues c{i} is in")
            check({id(q) for q in c.queues()} == exp, f"queues of c{i}")


Q = st.integers(0, 6)
C = st.integers(0, 12)
P = st.sampled_from([0, 0, 1, 1, 2, -1, 0.5, 5])
OP = st.none() | P
B = st.booleans()
K = st.integers(-3, 6)
S = st.none() | st.integers(-5, 7)
STEP = st.sampled_from([None, 1, 2, 3, -1, -2])
NAME = st.sampled_from([None, None, "x"])

nop = st.just(["nop"])
enter = op("enter", Q, C, OP, st.sampled_from(["enter", "add", "append", "sorted", "add_sorted"]))
position = weighted((2, op("head", Q, C, B)), (4, op("front", Q, C, C, B, B)), (3, op("insert", Q, st.integers(-1, 5), C)))
leave = weighted((4, op("leave", Q, C, B)), (2, op("pop", Q, st.none() | K)), (1, op("leaveall", C)), (1, op("del", Q, st.integers(-3, 4), S, st.none() | STEP.filter(lambda x: x))), (1, op("clear", Q, B)))
prio = op("prio", Q, C, P)
cap = op("cap", Q, st.sampled_from([None, 0, 1, 2, 3, 4, 5]), B)
setop = op("setop", st.sampled_from(["union", "intersection", "difference", "symmetric_difference"]), Q, Q, NAME, B, B)
whole = weighted((4, setop), (2, op("copy", Q, B, B, NAME)), (3, op("extend", Q, Q, B, B)), (1, op("sum", Q, Q)))
look = weighted((2, op("slice", Q, S, S, STEP)), (2, op("compare", Q, Q, st.integers(0, 2))))
change = weighted((6, enter), (4, position), (4, leave), (4, prio), (1, cap))
iterate = op("iter", Q, B, st.lists(weighted((5, change), (1, op("iter", Q, B, st.lists(change, max_size=4)))), max_size=6))
run = op("run", st.sampled_from([0, 0.5, 1, 2]))
reset_now = op("reset_now", st.sampled_from([0, 10, -2]))
spec = st.fixed_dictionaries(
    dict(cap=st.sampled_from([None, None, None, 1, 2, 3, 4])),
    optional=dict(store=st.sampled_from([False, False, True]), fill=st.lists(st.integers(0, 5), max_size=5, unique=True), monitor=st.sampled_from([True, True, True, False])),
)
