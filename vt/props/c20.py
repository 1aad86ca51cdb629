import contextlib
import io
import os
import shutil
import tempfile

from ..core import Facet, close, equal
from ..drive import Driver, diff_logs, fresh, sim
from ..gen import *
from ..mixed import mixed

PROPERTY = "C20"
RULE = "the model did at least 10 process steps, over at least 2 moments in time"

gens = st.lists(st.tuples(st.sampled_from([0, 1, 2, 3, 9]), st.integers(1, 4), st.sampled_from([None, 0, 1, 2.5]), st.booleans()).map(list), max_size=1)
config = st.fixed_dictionaries(
    dict(
        trace=st.sampled_from(["off", "file", "file", "stdout"]),
        linenos=st.sampled_from([False] * 12 + [True]),
        suppress=st.sampled_from([None, None, "comps", "context"]),
        standby=st.booleans(),  # suppress_trace_standby
        monitor=st.sampled_from(["on", "on", "off", "some off", "stats_only", "toggle"]),
        query=st.sampled_from([None, "light", "heavy"]),
        period=st.integers(1, 4),
    )
)


class Query:
    """asks for all kinds of information, at arbitrary moments"""

    def __init__(self, kind, period, monitored):
        self.kind = kind
        self.period = period
        self.n = 0
        self.monitored = monitored

    def __call__(self, d):
        self.n += 1
        if self.n % self.period:
            return
        env = d.env
        out = io.StringIO()
        for c in d.allcomps:
            c.status(), c.scheduled_time(), c.remaining_duration(), c.mode(), c.claimed_resources(), c.requested_resources(), c.queues(), c.name(), str(c), repr(c), c.isscheduled(), c.ispassive()
            c.running_process()
            c.count(), c.priority
        for r in d.res:
            r.claimed_quantity(), r.occupancy(), r.requesters().as_list(), [x.name() for x in r.claimers()]
        for s in d.states:
            s.get(), len(s.waiters())
        for s in d.stores:
            list(s), s.head(), s.tail(), s[0:2], s.as_set()
        if self.kind == "heavy":
            with contextlib.redirect_stdout(out):
                for c in d.allcomps:
                    c.print_info()
                    if self.monitored:
                        c.status.print_histogram(values=True)
                for x in d.res + d.states + d.stores:
                    x.print_info()
                    if self.monitored:
                        x.print_statistics()
                        x.print_histograms()
                env.print_info()
                if self.monitored:
                    for r in d.res:
                        r.claimed_quantity.mean(), r.claimed_quantity.std(), r.claimed_quantity.percentile(50), r.requesters().length.xt(), r.requesters().length_of_stay.mean()
                        (r.claimed_quantity + r.available_quantity).mean()
                        r.claimed_quantity[0:2].mean()
                        r.occupancy.freeze()


def monitors(d):
    for r in d.res:
        yield from (r, r.requesters(), r.claimers())
    for s in d.stores:
        yield from (s, s.from_store_requesters(), s.to_store_requesters())
    for s in d.states:
        yield from (s, s.waiters())


def configure(case):
    cfg = case["cfg"]
    out = io.StringIO() if cfg["trace"] == "file" else None
    hooks = Query(cfg["query"], cfg["period"], cfg["monitor"] in ("on", "some off")) if cfg["query"] else None
    toggler = {"n": 0}

    def toggle(d):
        toggler["n"] += 1
        if toggler["n"] % (2 * cfg["period"]) == 0:
            for i, m in enumerate(monitors(d)):
                m.monitor((toggler["n"] + i) % 3 == 0)
            for c in d.allcomps:
                c.status.monitor(toggler["n"] % 4 != 0)
                c.mode.monitor(toggler["n"] % 4 != 0)
        if hooks:
            hooks(d)

    d = Driver(
        sim, case, mode=case["mode"], trace=True if cfg["trace"] == "stdout" else out, linenos=cfg["linenos"], env_kwargs=dict(random_seed=case["seed"]),
        monitor=cfg["monitor"] != "off", hooks=toggle if cfg["monitor"] == "toggle" else hooks,
    )
    env = d.env
    if cfg["standby"]:
        env.suppress_trace_standby(not env.suppress_trace_standby())
    if cfg["suppress"] == "comps":
        for c in d.allcomps[::2]:
            c.suppress_trace(True)
    if cfg["monitor"] in ("off", "some off"):
        for i, m in enumerate(monitors(d)):
            if cfg["monitor"] == "off" or i % 2:
                m.monitor(False)
        for i, c in enumerate(d.allcomps):
            if cfg["monitor"] == "off" or i % 2:
                c.status.monitor(False)
                c.mode.monitor(False)
    if cfg["monitor"] == "stats_only":
        for m in monitors(d):
            m.reset_monitors(stats_only=True)
    return d


def run(case):
    fresh()
    base = Driver(sim, case, mode=case["mode"], env_kwargs=dict(random_seed=case["seed"]))
    base.execute()
    cfg = case["cfg"]
    with contextlib.redirect_stdout(io.StringIO()):
        d = configure(case)
        if cfg["suppress"] == "context":
            for _ in d.steps():
                with d.env.suppress_trace():
                    d.env.run(0)
                d.env.run(0)
        else:
            d.execute()
    if cfg["suppress"] == "context":
        base = Driver(sim, case, mode=case["mode"], env_kwargs=dict(random_seed=case["seed"]))
        for _ in base.steps():
            base.env.run(0)
            base.env.run(0)
    diff_logs(base.log, d.log, "plain run", f"run with {cfg}")
    if cfg["monitor"] == "on":
        for (name, x), (_, y) in zip(base.statistics(), d.statistics()):
            equal(y, x, name)
    elif cfg["monitor"] == "stats_only":
        for a, b in zip(monitors(base), monitors(d)):
            for name in ("length", "claimed_quantity", "available_quantity"):
                if isinstance(getattr(a, name, None), sim.Monitor):
                    x, y = getattr(a, name), getattr(b, name)
                    if name != "available_quantity" or a.capacity() < inf:
                        close(y.mean(), x.mean(), f"mean of {x.name()}")
    ops = [e for e in base.log if e[0] == "op"]
    return [case["mode"], cfg["trace"], "monitor " + cfg["monitor"], f"query {cfg['query']}"] + (["nontrivial"] if len(ops) >= 10 and len({e[-1][0][1] for e in ops}) >= 2 else [])


# ---- making a video of the model, with all kinds of animation objects, does not change what the model does

frames = st.fixed_dictionaries(dict(fps=st.sampled_from([1, 1, 2, 4]), speed=st.sampled_from([1, 1, 2, 0.7]), objects=st.lists(st.sampled_from(["queue", "monitor", "text", "shape", "info", "parent", "snapshot"]), min_size=1, max_size=4), when=st.sampled_from(["start", "start", "later", "interrupted", "closed", "restart"])))


def run_video(case):
    fresh()
    # a video ends a run till the end of all processes at a frame, so does not end at the same time
    case = dict(case, main=[["run", 3] if op[0] == "runempty" else op for op in case["main"]])
    base = Driver(sim, case, mode=case["mode"], env_kwargs=dict(random_seed=case["seed"]))
    base.execute()
    v = case["video"]
    sim.can_animate()
    directory = tempfile.mkdtemp(prefix="vt_video_")
    log = io.StringIO()
    try:
        with contextlib.redirect_stdout(log), contextlib.redirect_stderr(log):
            d = Driver(sim, case, mode=case["mode"], env_kwargs=dict(random_seed=case["seed"], blind_animation=True))
            env = d.env
            env.animation_parameters(animate=True, width=40, height=30, fps=v["fps"], speed=v["speed"], show_time=False, show_menu_buttons=False, modelname="")
            queues = [q for r in d.res for q in (r.requesters(), r.claimers())] + d.stores + [s.waiters() for s in d.states]
            mons = [q.length for q in queues] + [c.status for c in d.allcomps[:2]] + [r.claimed_quantity for r in d.res]
            for i, kind in enumerate(v["objects"]):
                if kind == "queue" and queues:
                    sim.AnimateQueue(queues[i % len(queues)], x=20, y=20)
                elif kind == "monitor":
                    sim.AnimateMonitor(mons[i % len(mons)], x=5, y=5, width=30, height=20)
                elif kind == "text":
                    sim.AnimateText(text=lambda t: f"{t} {env.now()}", x=5, y=5, env=env)
                elif kind == "shape":
                    sim.AnimateCircle(radius=lambda t: t % 5, x=lambda: len(d.allcomps), y=5, text=lambda: d.allcomps[0].status(), env=env)
                elif kind == "info":
                    sim.AnimateRectangle(spec=(0, 0, 5, 5), text=lambda: "\n".join(str(len(q)) for q in queues), env=env)
                elif kind == "parent" and d.allcomps:
                    sim.AnimatePoints(spec=(0, 0, 5, 5), parent=d.allcomps[i % len(d.allcomps)], env=env)
            n = 0
            if v["when"] == "start":
                env.video(directory + "/f*.png")
            for _ in d.steps():
                n += 1
                if v["when"] != "start" and n == 1:
                    env.video(directory + "/f*.png")
                if v["when"] == "interrupted" and n == 2:
                    env.video("")
                if v["when"] == "closed" and n == 2:
                    env.video_close()
                if v["when"] == "restart" and n == 2:
                    env.video(directory + "/g*.png")
                if "snapshot" in v["objects"]:
                    env.snapshot(directory + "/snap.png")
        count = len(os.listdir(directory))
    finally:
        shutil.rmtree(directory, ignore_errors=True)
    diff_logs(base.log, d.log, "plain run", "run with a video")
    for (name, x), (_, y) in zip(base.statistics(), d.statistics()):
        equal(y, x, name)
    ops = [e for e in base.log if e[0] == "op"]
    return [case["mode"], "video"] + (["nontrivial"] if len(ops) >= 10 and len({e[-1][0][1] for e in ops}) >= 2 and count >= 4 else [])


FACETS = [
    Facet("video", mixed(gens=gens, video=frames), run_video, quick=600),
    Facet("configurations", mixed(gens=gens, cfg=config), run, quick=2000),
]
