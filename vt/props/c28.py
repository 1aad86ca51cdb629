import itertools

from ..core import Facet, check, equal, fail
from ..drive import fresh, sim
from ..gen import *

PROPERTY = "C28"
RULE = "at least three objects with a sequence number of the same kind, or a change of a name, or a registration"

KINDS = ["component", "queue", "store", "resource", "state", "monitor", "levelmonitor"]
kind = st.sampled_from(KINDS)
# "" and None: the name of the class; "." and ",": the name of the class with that ending
name = st.sampled_from([None, None, "", ".", ",", "a.", "a.", "a,", "b.", "b,", "a", "b", "Ship.", "a b.", "a..", "x.1", "3"])
ops = st.lists(
    weighted(
        (8, op("create", kind, name, st.booleans(), st.integers(0, 2), st.sampled_from(["class", "env", "default"]))),
        (2, op("name", st.integers(0, 30), st.sampled_from(["new", "new.", "a.", "a.0", "", "z,"]), st.booleans())),
        (2, op("register", st.integers(0, 30), st.integers(0, 1))),
        (2, op("deregister", st.integers(0, 30), st.integers(0, 1))),
        (1, op("env", st.sampled_from([None, "E.", "E,", "E"]), st.booleans())),
        (1, op("run")),
    ),
    min_size=3,
    max_size=25,
)
cases = st.fixed_dictionaries(dict(ops=ops, trace=st.sampled_from([False, False, True])))

unique = itertools.count()


class Ship(sim.Component):
    pass


class MyQueue(sim.Queue):
    pass


class MyStore(sim.Store):
    pass


class MyResource(sim.Resource):
    pass


class MyState(sim.State):
    pass


class MyMonitor(sim.Monitor):
    pass


PLAIN = dict(component=sim.Component, queue=sim.Queue, store=sim.Store, resource=sim.Resource, state=sim.State, monitor=sim.Monitor, levelmonitor=sim.Monitor)
SUB = dict(component=Ship, queue=MyQueue, store=MyStore, resource=MyResource, state=MyState, monitor=MyMonitor, levelmonitor=MyMonitor)

DERIVED = dict(  # attribute: prefix of the name
    queue=dict(length="Length of ", length_of_stay="Length of stay in ", capacity="Capacity of ", available_quantity="Available quantity of "),
    resource=dict(capacity="Capacity of ", claimed_quantity="Claimed quantity of ", available_quantity="Available quantity of ", occupancy="Occupancy of "),
    state=dict(value="Value of "),
)
DERIVED["store"] = DERIVED["queue"]


def run(case):
    fresh()
    labels = set()
    tag = f"e{next(unique)}"  # names of environments are numbered per process
    import io

    envs = [sim.Environment(trace=io.StringIO() if case["trace"] else False)]
    default = 0
    objs = []  # [object, kind, name, base_name, sequence number]
    counters = {}
    regs = [[], []]
    mregs = [[], []]

    def verify(o):
        obj, k, nm, base, seq = o
        equal(obj.name(), nm, f"name of {k}")
        equal(obj.base_name(), base, f"base_name of {k} {nm}")
        equal(obj.sequence_number(), seq, f"sequence_number of {k} {nm}")
        if not nm == "":
            for attr, prefix in DERIVED.get(k, {}).items():
                equal(getattr(obj, attr).name(), prefix + nm, f"name of {attr} of {k}")
            for what in dict(resource=("requesters", "claimers"), state=("waiters",)).get(k, ()):
                q = getattr(obj, what)()
                equal(q.name(), f"{what} of {nm}", f"name of {what}")
                for attr, prefix in DERIVED["queue"].items():
                    equal(getattr(q, attr).name(), prefix + q.name(), f"name of {attr} of {what}")

    def number(k, e, nm, cls):
        if nm is None or nm == "":
            nm = cls.__name__.lower() + "."
        elif nm in (".", ","):
            nm = cls.__name__.lower() + nm
        if nm[-1] in ".,":
            group = dict(levelmonitor="monitor").get(k, k)
            key = (group, e, nm)
            seq = counters.get(key, -1 if nm[-1] == "." else 0) + 1
            counters[key] = seq
            return f"{nm[:-1]}.{seq}", nm, seq
        return nm, nm, 1

    for o in case["ops"]:
        if o[0] == "create":
            _, k, nm, sub, e, how = o
            if k == "store" and nm not in (None, "", ".", ","):
                nm = "st" + nm  # whether queues and stores are numbered separately is not specified
            cls = (SUB if sub else PLAIN)[k]
            kwargs = dict(level=True) if k == "levelmonitor" else {}
            if k == "component" and len(objs) % 2:
                kwargs["process"] = None
            e = e % len(envs)
            if nm is not None:
                kwargs["name"] = nm
            if how == "default":
                e = default
                obj = cls(**kwargs)
            elif how == "env" and not sub:
                obj = getattr(envs[e], cls.__name__)(**kwargs)
            else:
                obj = cls(env=envs[e], **kwargs)
            check(obj.env is envs[e], "created in wrong environment")
            objs.append([obj, k, *number(k, e, nm, cls)])
            verify(objs[-1])
        elif o[0] == "name":
            if objs:
                x = objs[o[1] % len(objs)]
                if o[3] and hasattr(x[0], "rename"):
                    check(x[0].rename(o[2]) is x[0], "rename does not return the object")
                else:
                    equal(x[0].name(o[2]), o[2], "name()")
                x[2] = o[2]
                verify(x)
                labels |= {"nontrivial", "rename"}
        elif o[0] in ("register", "deregister"):
            if objs:
                x = objs[o[1] % len(objs)]
                r, m = regs[o[2]], mregs[o[2]]
                i = next((i for i, y in enumerate(m) if y is x[0]), None)
                ok = (i is None) == (o[0] == "register")
                try:
                    res = getattr(x[0], o[0])(r)
                except ValueError:
                    check(not ok, f"{o[0]} refused")
                else:
                    check(ok, f"{o[0]} should be refused")
                    check(res is x[0], f"{o[0]} does not return the object")
                    if o[0] == "register":
                        m.append(x[0])
                    else:
                        del m[i]
                labels |= {"nontrivial", "register"}
                check(len(r) == len(m) and all(a is b for a, b in zip(r, m)), "registry", r, m)
        elif o[0] == "env":
            if len(envs) < 3:
                _, nm, isdefault = o
                n = None if nm is None else nm.replace("E", tag)
                env = sim.Environment(name=n, isdefault_env=isdefault) if n is not None else sim.Environment(isdefault_env=isdefault)
                if n is not None:
                    equal(env.name(), number("environment", None, n, sim.Environment)[0], "name of environment")
                elif isdefault:
                    equal(env.name(), "default environment", "name of environment")
                equal(env.main().name(), "main", "name of main")
                envs.append(env)
                if isdefault:
                    default = len(envs) - 1
        elif o[0] == "run":
            envs[default].run(1)
    for x in objs:
        verify(x)
    seen = {}
    for obj, k, nm, base, seq in objs:
        seen.setdefault((k, base), []).append(seq)
    if any(len(v) >= 3 and base[-1:] in (".", ",") for (k, base), v in seen.items()):
        labels.add("nontrivial")
    return labels | {f"envs{len(envs)}"}


FACETS = [Facet("names", cases, run, quick=2500)]
