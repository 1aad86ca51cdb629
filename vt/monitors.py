"""histories of level monitors (C14, C15, C16, C17, C29)"""

import salabim as sim
from hypothesis import strategies as st

from .gen import op, weighted
from .stats import LevelRef

grid = st.integers(-8, 20).map(lambda i: i / 4)
small = st.sampled_from([0, 0, 1, 2, 3, -1, 1.5, 4])
anys = st.one_of(small, grid, st.sampled_from(["1", "2.5", "0", "abc", "", True, None, "x"]))
KINDS = {
    "num": st.one_of(small, small, grid), "any": anys, "float": st.one_of(small, grid), "double": grid, "bool": st.booleans(), "int8": st.integers(-40, 40), "uint8": st.integers(0, 50),
    "int16": st.integers(-40, 40), "uint16": st.integers(0, 50), "int32": st.integers(-3, 5), "uint32": st.integers(0, 5), "int64": st.integers(-3, 5), "uint64": st.integers(0, 5),
}
kinds = st.sampled_from(["num", "any", "float", "num", "any", "float", "num", "bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "double"])
durations = st.sampled_from([0.25, 0.5, 1, 1, 1, 2, 3.5, 2**-12])
nop = st.just(["nop"])


def type_of(kind):
    return "any" if kind == "num" else kind


class Level:
    """a real level monitor, with its reference"""

    def __init__(self, env, t, kind, initial, on=True, name="m", **kwargs):
        self.m = sim.Monitor(name, level=True, type=type_of(kind), initial_tally=initial, monitor=on, env=env, **kwargs)
        self.ref = LevelRef(t, 0 if initial is None else initial, on)

    def tally(self, t, v, setter=False):
        if setter:
            self.m.value = v
        else:
            self.m.tally(v)
        self.ref.tally(t, v)

    def monitor(self, t, on):
        r = self.m.monitor(on)
        self.ref.monitor(t, on)
        return r

    def reset(self, t, on=None, **kwargs):
        self.m.reset(monitor=on, **kwargs)
        self.ref.reset(t, on)
