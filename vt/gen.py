"""generators for the models of vt/drive.py"""

import random
import sys

from hypothesis import strategies as st

inf = float("inf")


# swarm testing: part of the cases uses other weights for the alternatives, drawn once per case, so that
# e.g. models in which stores only get filled or resources are hardly released, are frequent enough
swarm = st.shared(st.integers(0, 99), key="swarm")


def weighted(*pairs):
    """one of the strategies, with weights"""
    ident = f"{sys._getframe(1).f_lineno} {[w for w, _ in pairs]}"  # has to be the same whenever the strategy is made
    cache = {}

    def alternatives(seed):
        if seed not in cache:
            rnd = random.Random(f"{seed}/{ident}")
            pool = []
            for w, s in pairs:
                pool += [s] * (w if seed < 50 else w * rnd.choice([0, 1, 1, 1, 4]))
            pool = pool or [s for _, s in pairs]
            cache[seed] = st.sampled_from(range(len(pool))).flatmap(lambda i: pool[i])
        return cache[seed]

    return swarm.flatmap(alternatives)


def op(name, *args):
    return st.tuples(st.just(name), *args).map(list)


dur = st.sampled_from([0, 0, 0.5, 1, 1, 1, 1.5, 2, 2, 3, 4, 5])
posdur = st.sampled_from([0.5, 1, 1, 1.5, 2, 3, 4])
prio = st.sampled_from([0, 0, 0, 0, -1, 1, 2, 0.5])
rprio = st.sampled_from([0, 0, 0, 1, 2, -1, 3, 0.5])
urgent = st.sampled_from([False, False, True])
bools = st.booleans()


def selfish(n, w=2):
    """target: mainly self"""
    return st.sampled_from([0] * (n * w) + list(range(1, n + 1)))


def others(n):
    return st.integers(1, n)


def drop_none(d):
    return {k: v for k, v in d.items() if v is not None}


def kwargs(**options):
    """dict with a random subset of the given options"""
    return st.fixed_dictionaries({k: st.none() | v for k, v in options.items()}).map(drop_none)


fail_kwargs = dict(fail_delay=st.sampled_from([0, 0.5, 1, 1, 2, 3, 5]))


def with_fail(**options):
    base = kwargs(**options)
    return st.tuples(
        base, st.sampled_from(["", "", "delay", "delay", "at"]), st.sampled_from([0, 0.5, 1, 1, 2, 3, 5, 99])
    ).map(lambda x: {**x[0], **({} if x[1] == "" else {"fail_" + x[1]: x[2]})})


def blocks(*pairs, min_size=2, max_size=5):
    """script, consisting of blocks of operations"""
    return st.lists(weighted(*pairs), min_size=min_size, max_size=max_size).map(lambda l: [o for b in l for o in b])


def block(*ops):
    return st.tuples(*ops).map(list)


def comp(script, alt=None, flat=True, **extra):
    d = dict(script=st.lists(script, min_size=2, max_size=9) if flat else script, delay=dur, prio=prio, urgent=urgent, loop=st.sampled_from([1, 1, 2, 3]))
    if alt is not None:
        d["alt"] = st.lists(alt, max_size=4)
    d.update(extra)
    return st.fixed_dictionaries(d)


run_ops = weighted((4, op("run", dur)), (1, op("run", dur, prio, urgent)), (1, op("runtill", dur)), (1, st.just(["runempty"])))


monitoring = weighted(
    (3, op("monitor", st.sampled_from(["r", "st", "c", "s"]), st.integers(0, 4), bools)), (2, op("resetmon", st.sampled_from(["r", "st", "c", "s"]), st.integers(0, 4), st.sampled_from([None, None, True, False])))
)


def model(comps, main_ops, n_comps, resets=True, **extra):
    """n_comps components, a main with runs in between"""
    mains = [(6, run_ops), (4, main_ops), (1, monitoring)]
    if resets:
        mains.append((2, op("reset_now", st.sampled_from([0, 0, 10, -3, 1000]))))
    d = dict(
        mode=st.sampled_from(["yieldless", "yieldless", "yield"]),
        comps=st.lists(comps, min_size=max(2, n_comps - 2), max_size=n_comps),
        main=st.lists(weighted(*mains), min_size=1, max_size=8),
        tail=st.sampled_from([5, 20]),
        modes=st.booleans(),
    )
    d.update(extra)
    return st.fixed_dictionaries(d)
