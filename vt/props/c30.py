import io
import os
import shutil
import sys
import tempfile
from pathlib import Path

from ..core import Facet, check, equal, fail
from ..drive import fresh, sim
from ..gen import *

PROPERTY = "C30"
RULE = "output inside a scope and output outside of it, or an exception that leaves a scope"

text = st.text("ab \n#x\t", max_size=6)
leaf = st.one_of(
    op("print", text, st.sampled_from(["\n", "", " ", "\n\n"])),
    op("print", text, st.just("\n")),
    op("write", text, st.booleans()),
    op("trace", st.sampled_from(["p", "qq"])),
    op("settrace", st.sampled_from([False, True, "file"])),
    op("raise"),
    op("clear"),
    op("check", st.sampled_from(["str", "list", "path", "strpath", "handle", "append"])),
    op("past"),
    op("setcap", st.booleans()),
    op("setover", st.booleans()),
    op("report"),
)


def scopes(body):
    b = st.lists(body, max_size=5)
    return st.one_of(
        op("capture", st.sampled_from([None, True, False]), b),
        op("capture", st.sampled_from([None, True, False]), b),
        op("redirect", st.sampled_from(["path", "str", "handle"]), st.sampled_from([None, "w", "a"]), st.sampled_from([None, True, False]), st.sampled_from(["with", "close"]), st.integers(0, 1), b),
        op("suppress", b),
        op("cap_now", st.sampled_from([None, True, False]), b),
        op("over3d", st.sampled_from([None, True, False]), b),
        op("try", b),
        op("try", b),
    )


node = st.recursive(leaf, scopes, max_leaves=14)
cases = st.fixed_dictionaries(dict(body=st.lists(node, min_size=1, max_size=7), trace=st.sampled_from([False, True, "file"]), cap=st.booleans(), over=st.booleans()))


class Boom(Exception):
    pass


class Run:
    def __init__(self, case, tmp):
        self.tmp = tmp
        self.labels = set()
        self.env = sim.Environment(trace=False, blind_animation=False)
        self.env.suppress_trace_linenumbers(True)
        self.lines = {}
        for t in ("p", "qq"):
            buf = io.StringIO()
            self.env.trace(buf)
            self.env.print_trace("", "", t)
            self.lines[t] = buf.getvalue()
            check(t in buf.getvalue(), "trace line", buf.getvalue())
        self.tracefile, self.traced = io.StringIO(), ""
        self.env.trace(self.tracefile if case["trace"] == "file" else case["trace"])
        m = sim.Monitor("m")
        for x in (1, 2, 3, 3):
            m.tally(x)
        self.monitor = m
        sim.default_cap_now(case["cap"])
        sim.default_over3d(case["over"])
        sim.clear_captured_stdout()
        self.trace, self.cap, self.over = case["trace"], case["cap"], case["over"]
        self.captured = ""
        self.base = ""
        self.sinks = []  # innermost last: (kind, file, include_print)
        self.files = {}
        self.handles = {}
        self.inside = self.outside = False

    def out(self, s):
        if s:
            if self.sinks:
                self.inside = True
            else:
                self.outside = True
        for kind, file, include in reversed(self.sinks):
            if kind == "capture":
                self.captured += s
            else:
                self.files[file] += s
            if not include:
                return
        self.base += s

    def settings(self, what):
        equal(sim.default_cap_now(), self.cap, f"default_cap_now {what}")
        equal(sim.default_over3d(), self.over, f"default_over3d {what}")
        check(self.env.trace() is (self.tracefile if self.trace == "file" else self.trace), f"trace {what}", self.env.trace())
        equal(self.tracefile.getvalue(), self.traced, f"trace to a file {what}")
        equal(sim.captured_stdout_as_str(), self.captured, f"captured stdout {what}")

    def body(self, nodes):
        for n in nodes:
            self.node(n)
            self.settings(f"after {n[0]}")

    def scoped(self, cm, nodes, restore):
        before = sys.stdout
        try:
            with cm:
                self.settings("in scope")
                self.body(nodes)
        except Boom:
            self.labels |= {"exception through scope", "nontrivial"}
            raise
        finally:
            restore()
            if sys.exc_info()[0] in (None, Boom):
                check(sys.stdout is before, "stdout not restored")
                self.settings("after scope")

    def node(self, n):
        kind = n[0]
        if kind == "print":
            print(n[1], end=n[2])
            self.out(n[1] + n[2])
        elif kind == "write":
            sys.stdout.write(n[1])
            if n[2]:
                sys.stdout.flush()
            self.out(n[1])
        elif kind == "report":
            buf = io.StringIO()
            self.monitor.print_statistics(file=buf)
            self.monitor.print_statistics()
            check("std.deviation" in buf.getvalue(), "report to file", buf.getvalue())
            self.out(buf.getvalue())
        elif kind == "trace":
            self.env.print_trace("", "", n[1])
            if self.trace == "file":
                self.traced += self.lines[n[1]]
            elif self.trace:
                self.out(self.lines[n[1]])
        elif kind == "settrace":
            self.env.trace(self.tracefile if n[1] == "file" else n[1])
            self.trace = n[1]
        elif kind == "setcap":
            sim.default_cap_now(n[1])
            self.cap = n[1]
        elif kind == "setover":
            sim.default_over3d(n[1])
            self.over = n[1]
        elif kind == "raise":
            raise Boom
        elif kind == "clear":
            sim.clear_captured_stdout()
            self.captured = ""
        elif kind == "past":
            saved = self.env.trace()
            self.env.trace(False)
            c = sim.Component(process=None)
            c.process = lambda: None
            try:
                c.activate(at=self.env.now() - 1, process="process")
            except ValueError:
                check(not self.cap, "scheduling in the past refused, although cap_now")
            else:
                check(self.cap, "scheduling in the past accepted, without cap_now")
                equal(c.scheduled_time(), self.env.now(), "scheduled time with cap_now")
                c.cancel()
            finally:
                self.env.trace(saved)
        elif kind == "check":
            how = n[1]
            if how == "str":
                got, e = sim.captured_stdout_as_str(), self.captured
            elif how == "list":
                got, e = sim.captured_stdout_as_list(), self.captured.splitlines()
            elif how in ("path", "strpath", "append"):
                p = Path(self.tmp) / "captured"
                p.write_text("before")
                sim.captured_stdout_as_file(p if how == "path" else str(p), **(dict(mode="a") if how == "append" else {}))
                got, e = p.read_text(), ("before" if how == "append" else "") + self.captured
            else:
                h = io.StringIO()
                sim.captured_stdout_as_file(h)
                got, e = h.getvalue(), self.captured
            equal(got, e, f"captured stdout as {how}")
        elif kind == "capture":
            if any(s[0] == "capture" for s in self.sinks):
                self.body(n[2])  # nested captures are not specified
                return
            inc = True if n[1] is None else n[1]
            cm = sim.capture_stdout() if n[1] is None else sim.capture_stdout(include_print=n[1])
            self.sinks.append(("capture", None, inc))
            self.scoped(cm, n[2], lambda: self.sinks.pop())
        elif kind == "redirect":
            _, target, mode, include, how, k, nodes = n
            f = f"{'handle' if target == 'handle' else 'file'}{k}"
            if any(s[1] == f for s in self.sinks):
                self.body(nodes)
                return
            kwargs = {}
            if include is not None:
                kwargs["include_print"] = include
            if target == "handle":
                file = self.handles.setdefault(f, io.StringIO())
                self.files.setdefault(f, "")
            else:
                file = os.path.join(self.tmp, f)
                if target == "path":
                    file = Path(file)
                if mode is not None:
                    kwargs["mode"] = mode
                self.files[f] = self.files.get(f, "") if mode == "a" else ""
            cm = sim.redirect_stdout(file, **kwargs)
            self.sinks.append(("redirect", f, True if include is None else include))
            if how == "close":
                import contextlib

                cm = contextlib.closing(cm)
            else:
                pass
            # sys.stdout is changed at construction
            before = cm.thing.stdout if how == "close" else cm.stdout
            try:
                with cm:
                    self.settings("in scope")
                    self.body(nodes)
            except Boom:
                self.labels |= {"exception through scope", "nontrivial"}
                raise
            finally:
                self.sinks.pop()
                if sys.exc_info()[0] in (None, Boom):
                    check(sys.stdout is before, "stdout not restored")
                    self.settings("after scope")
                    if target == "handle":
                        check(not file.closed, "file handle is closed")
                        equal(file.getvalue(), self.files[f], "redirected to handle")
                    else:
                        equal(Path(file).read_text(), self.files[f], "redirected to file")
        elif kind == "suppress":
            saved = self.trace
            cm = self.env.suppress_trace()
            self.trace = False
            self.scoped(cm, n[1], lambda: setattr(self, "trace", saved))
        elif kind == "cap_now":
            saved = self.cap
            cm = sim.cap_now() if n[1] is None else sim.cap_now(n[1])
            self.cap = True if n[1] is None else n[1]
            self.scoped(cm, n[2], lambda: setattr(self, "cap", saved))
        elif kind == "over3d":
            saved = self.over
            cm = sim.over3d() if n[1] is None else sim.over3d(n[1])
            self.over = True if n[1] is None else n[1]
            self.scoped(cm, n[2], lambda: setattr(self, "over", saved))
        elif kind == "try":
            try:
                self.body(n[1])
            except Boom:
                self.labels.add("caught")


def run(case):
    fresh()
    saved = sys.stdout
    base = sys.stdout = io.StringIO()
    tmp = tempfile.mkdtemp(prefix="vt30_")
    try:
        r = Run(case, tmp)
        before = base.getvalue()
        equal(before, "", "output before")
        try:
            r.body(case["body"])
        except Boom:
            pass
        check(sys.stdout is base, "stdout not restored")
        r.settings("at end")
        equal(base.getvalue(), r.base, "printed output")
    finally:
        sys.stdout = saved
        shutil.rmtree(tmp)
        sim.default_over3d(False)
        sim.default_cap_now(False)
        sim.clear_captured_stdout()
    if r.inside and r.outside:
        r.labels.add("nontrivial")
    return r.labels


FACETS = [Facet("scopes", cases, run, quick=3000)]
