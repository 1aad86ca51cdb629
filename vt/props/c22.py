import io
import re

from ..core import Facet, close, equal, fail
from ..drive import Driver, diff_logs, fresh, same_entry, sim
from ..gen import *
from ..mixed import mixed
from .c19 import gens_no_spread

PROPERTY = "C22"
RULE = "at least one reset_now that really changed the time, at least 10 process steps, at least one of them later in time"


class Tracking(Driver):
    """reports all times in terms of the original time"""

    shift = 0
    resets = 0

    def __init__(self, *args, **kwargs):
        self.do_reset = kwargs.pop("do_reset")
        super().__init__(*args, **kwargs)

    def now(self):
        return self.env.now() + self.shift

    def op_reset_now(self, x):
        if self.do_reset:
            before = self.env.now()
            if x == before:
                return
            if x == "dist":
                x = 25
                self.env.reset_now(sim.Constant(x))
            else:
                self.env.reset_now(x)
            equal(self.env.now(), x, "now() after reset_now")
            self.shift += before - x
            self.resets += 1

    def snapshot(self):
        result = super().snapshot()
        s = self.shift
        fixed = []
        for e in result:
            if len(e) == 11:  # component
                e = (*e[:3], e[3] + s if e[1] in ("scheduled", "current", "requesting", "waiting") else None, *e[4:7], e[7] + s, *e[8:])
            fixed.append(e)
        result = fixed
        # more times
        now = self.now()
        result.append(("env.t", self.env.t() + s))
        for c in self.allcomps:
            result.append(("times", c.name(), c.creation_time() + s, c.mode_time() + s, sorted((q.name(), c.enter_time(q) + s) for q in c.queues()), c.status.t() + s, c.status.start_time() + s))
            for t in self.queries(now, c.creation_time() + s):
                result.append(("status", t, c.status(t - s)))
        for r in self.res:
            q = r.requesters()
            result.append((r.name(), "times", q.length.t() + s, q.length.start_time() + s, r.claimed_quantity.t() + s))
            for t in self.queries(now, 0):
                result.append((r.name(), t, r.claimed_quantity(t - s), q.length(t - s)))
            if now > 1:
                a, b = now / 4, now - 0.25
                result.append((r.name(), "sliced", r.claimed_quantity[a - s : b - s].mean(), q.length_of_stay[a - s : b - s].number_of_entries()))
        for st_ in self.states:
            for t in self.queries(now, 0):
                result.append((st_.name(), t, st_.value(t - s)))
        return result

    def reports(self):
        """times in reports, and combinations of data over periods, in terms of the original time"""
        s, now, result = self.shift, self.now(), []
        number = lambda text, pattern: [float(x) + s for x in re.findall(pattern, text)]
        at = r"Statistics of .+ at +(-?[0-9.]+)"
        text = lambda f: f(as_str=True)
        result.append(("env.print_info", number(text(self.env.print_info), r"now= *(-?[0-9.]+)")))
        for r in self.res:
            q, m = r.requesters(), r.claimed_quantity
            result.append((r.name(), "print_statistics", [number(text(x.print_statistics), at) for x in (r, q, q.length, q.length_of_stay, m)]))
            result.append((r.name(), "print_info", number(text(q.print_info), r"enter_time *(-?[0-9.]+)")))
            for a, width, modulo in ((0.5, 1, 2), (1, 2.5, 4)):
                sliced = m.slice(a - s, a + width - s, modulo)
                result.append((r.name(), "modulo slice", sliced.duration(), sliced.mean(), q.length_of_stay.slice(a - s, a + width - s, modulo).number_of_entries()))
            df = m.as_resampled_dataframe(delta_t=0.5, min_t=0.25 - s, max_t=now + 1 - s)
            result.append((r.name(), "resampled", [str(x) for x in df.iloc[:, -1]]))
        for x in self.states:
            result.append((x.name(), "print_statistics", number(text(x.print_statistics), at)))
        for c in self.allcomps:
            info = text(c.print_info)
            result.append((c.name(), "print_info", [number(info, f"{what}=? *(-?[0-9.]+)") for what in ("creation_time", "scheduled_time", "enter_time", "mode_time")]))
        return result

    def queries(self, now, start):
        return [t for t in (now, now - 0.5, now - 2, now / 2) if t >= start]


def lines(trace):
    """the lines of the trace, with all times in terms of the original time"""
    shift, result = 0, []
    for line in trace.splitlines():
        if m := re.search(r"now reset to .*\(all times are reduced by +(-?[0-9.]+)\)", line):
            shift += float(m[1])
            continue
        line = line[7:]  # without line number
        if m := re.match(r" *(-?[0-9]+\.[0-9]+) ", line):
            line = f"{float(m[1]) + shift:.3f} {line[m.end():].strip()}"
        line = re.sub(r"(scheduled for +)(-?[0-9]+\.[0-9]+)", lambda m: f"scheduled for {float(m[2]) + shift:.3f}", line)
        result.append(" ".join(line.split()))
    return result


def run(case):
    fresh()
    ds = []
    for do_reset in (False, True):
        trace = io.StringIO() if case["trace"] else None
        d = Tracking(sim, case, mode=case["mode"], env_kwargs=dict(random_seed=case["seed"]), do_reset=do_reset, trace=trace, linenos=False)
        d.env.suppress_trace_standby(False)  # otherwise, lines are left out, dependent on whether something is traced in between
        d.execute()
        d.trace = lines(trace.getvalue()) if trace else []
        d.env.trace(False)
        ds.append(d)
    base, d = ds
    diff_logs(d.log, base.log, "with reset_now", "without")
    for x, y in zip(d.trace, base.trace):
        equal(x, y, "line in the trace, with the time shifted back")
    equal(len(d.trace), len(base.trace), "number of lines in the trace")
    for x, y in zip(d.reports(), base.reports()):
        if not same_entry(x, y):
            fail(f"reported with reset_now (times shifted back): {x}, without: {y}")
    for (name, x), (_, y) in zip(base.statistics(), d.statistics()):
        close(y, x, name)
    n = sum(e[0] == "op" for e in d.log)
    return [case["mode"], "resets" if d.resets else "no resets"] + (["nontrivial"] if n >= 10 and d.resets and base.env.now() > 0 else [])


extra = op("gen", st.sampled_from([0, 1, 2, 3, 8, 8]), st.integers(1, 4), st.sampled_from([None, 0, 1, 2.5]), st.booleans())
FACETS = [Facet("reset_now", mixed(reset_ops=[(2, extra)], gens=gens_no_spread, trace=bools), run, quick=1600)]
