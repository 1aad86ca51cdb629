"""generated models that mix all kinds of process interaction, for the metamorphic properties (C19-C22)"""

from .gen import *

N = 5
any_ = st.integers(0, N)
I = st.integers(0, 1)
qty = st.sampled_from([1, 1, 2])
val = st.integers(0, 2)
hold = weighted((3, op("hold", st.just(0), dur, prio, urgent)), (3, op("holdx", st.just(0), st.integers(0, 3))))
ks = dict(request_priority=rprio, urgent=bools)
request = op("request", st.just(0), st.lists(st.tuples(I, qty).map(list), min_size=1, max_size=2), with_fail(**ks, oneof=bools, priority=prio))
release = weighted((1, op("release", st.just(0), st.just([]))), (2, op("release", any_, st.lists(st.tuples(I, qty).map(list), min_size=1, max_size=2))))
blocking = weighted(
    (4, request),
    (2, op("get", st.just(0), st.lists(st.tuples(st.just(2), qty).map(list), min_size=1, max_size=1), with_fail(**ks))),
    (2, op("put", st.just(0), st.lists(st.tuples(st.just(2), qty).map(list), min_size=1, max_size=1), with_fail(**ks))),
    (3, op("wait", st.just(0), st.lists(st.tuples(I, st.tuples(st.just("eq"), val).map(list)).map(list), min_size=1, max_size=2), with_fail(**ks, all=bools))),
    (1, op("waitfor", st.just(0), st.lists(I, min_size=1, max_size=2), st.integers(1, 3), with_fail(**ks))),
    (3, op("from", st.just(0), st.lists(I, min_size=1, max_size=2), with_fail(**ks, filter=st.sampled_from([None, None, [2, 0], [3, 1]]), key=st.sampled_from([None, 1, -1])))),
    (3, op("to", st.just(0), st.lists(I, min_size=1, max_size=2), with_fail(**ks, priority=rprio))),
    (1, st.just(["passivate", 0])),
    (1, st.just(["standby", 0])),
)
change = weighted(
    (3, op("set", I, val)), (1, op("trigger", I, val, st.none() | val, st.sampled_from([None, 1, 2]))), (3, release), (2, op("enter", I, st.none() | rprio)),
    (2, op("leave", I, st.integers(0, 3))), (1, op("setcap", I, st.integers(1, 3))), (1, op("create", any_)), (1, op("mode", any_, st.sampled_from(["a", "b", 1]))),
    (1, op("rescan", I)), (1, monitoring),
)
disturb = weighted(
    (1, op("cancel", any_)), (1, op("passivate", any_)), (3, op("activate", any_, dur, prio, urgent, st.sampled_from([None, None, "process", "alt"]))), (1, op("standby", any_)),
    (2, op("interrupt", any_)), (2, op("resume", any_, bools, prio, urgent)), (1, op("rd", any_, dur)), (1, op("hold", any_, dur)),
    (1, op("holdtill", any_, dur, prio, urgent)), (1, op("holdi", any_, dur, st.integers(1, 2))), (1, op("activate", any_, dur, prio, urgent, st.none(), dur)), (1, op("keep", any_, dur, st.integers(0, 2))),
)
script = blocks((4, block(blocking)), (4, block(hold)), (3, block(change)), (1, block(disturb)), (2, block(request, hold, release)), max_size=8)
alt = weighted((2, hold), (1, change))


def mixed(reset_ops=None, **extra):
    c = comp(script, flat=False, alt=alt, skip=st.sampled_from([False, False, False, True]))
    main = weighted((3, change), (2, disturb))
    s = script
    if reset_ops:
        r = weighted((4, op("reset_now", st.sampled_from([0, 0, 10, -3, 1000, 0.5, "dist"]))), *reset_ops)
        s = blocks((4, block(blocking)), (4, block(hold)), (3, block(change)), (1, block(disturb)), (2, block(request, hold, release)), (1, block(r)), max_size=8)
        c = comp(s, flat=False, alt=weighted((4, hold), (2, change), (1, r)), skip=st.sampled_from([False, False, False, True]))
        main = weighted((3, change), (2, disturb), (9, r))
    d = dict(
        mode=st.sampled_from(["yieldless", "yieldless", "yield"]),
        comps=st.lists(c, min_size=3, max_size=N),
        main=st.lists(weighted((1, st.just(["nop"])), (5, run_ops), (3, main)), min_size=3, max_size=10),
        tail=st.sampled_from([5, 20]),
        seed=st.sampled_from([1, 2, 3, 1234567]),
        res=st.tuples(
            st.fixed_dictionaries(dict(cap=st.sampled_from([1, 2])), optional=dict(first=bools, high=bools)),
            st.fixed_dictionaries(dict(cap=st.sampled_from([1, 2, 3]), pre=st.sampled_from([False, False, True]))),
            st.fixed_dictionaries(dict(cap=st.sampled_from([2, 3]), init=st.sampled_from([0, 1, 2]), anon=st.just(True))),
        ).map(list),
        states=st.lists(val, min_size=2, max_size=2),
        stores=st.lists(st.fixed_dictionaries(dict(cap=st.sampled_from([None, 1, 2]))), min_size=2, max_size=2),
    )
    if reset_ops:  # exact fractions, as env.now() is the difference of two numbers then
        d["exact"] = st.just(True)
    d.update(extra)
    return st.fixed_dictionaries(d)
