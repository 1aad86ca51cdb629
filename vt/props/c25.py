import os
import shutil
import tempfile

from ..core import Facet, check, equal, fail
from ..drive import sim
from ..gen import *

PROPERTY = "C25"
RULE = "at least two items and at least one of: quoted item, comment, braces, empty line"

BARE = "abcXYZ0189.,;:-_+*/=()[]<>!?@$%^&|~\\`"
bare = st.text(BARE, min_size=1, max_size=8)
inside = st.text(BARE + " \t#{}", max_size=8)
ws = st.text(" \t", min_size=1, max_size=3)
ws0 = st.text(" \t", max_size=3)

boolish = st.sampled_from(["False", "false", "FALSE", "0", "0.0", "-0", "0e3", "", "True", "true", "1", "0.5", "no", "x", "falsee", "00", "None", "F"])
item = st.one_of(
    st.tuples(st.just("str"), st.just("bare"), bare),
    st.tuples(st.just("str"), st.just("'"), st.tuples(inside, st.booleans()).map(lambda x: x[0] + ('"' + x[0] if x[1] else ""))),
    st.tuples(st.just("str"), st.just('"'), st.tuples(inside, st.booleans()).map(lambda x: x[0] + ("'" + x[0] if x[1] else ""))),
    st.tuples(st.just("int"), st.sampled_from(["bare", "'", '"']), st.integers(-(10**9), 10**9).map(str)),
    st.tuples(st.just("float"), st.sampled_from(["bare", "'", '"']), st.floats(-1e9, 1e9, allow_nan=False).map(repr)),
    st.tuples(st.just("floatcomma"), st.sampled_from(["bare", "'", '"']), st.floats(-1e9, 1e9, allow_nan=False).map(lambda f: repr(f).replace(".", ","))),
    st.tuples(st.just("bool"), st.sampled_from(["'", '"']), boolish),
    st.tuples(st.just("bool"), st.just("bare"), boolish.filter(lambda s: s)),
).map(list)
# separator between two items: whitespace, braces, or (where at least one of the neighbours is quoted) nothing
sep = st.one_of(
    st.tuples(st.just("ws"), ws),
    st.tuples(st.just("ws"), ws),
    st.tuples(st.just("braces"), st.tuples(ws0, st.text(BARE + " \t'\"{#", max_size=6), ws0).map(lambda x: x[0] + "{" + x[1] + "}" + x[2])),
    st.tuples(st.just("none"), st.just("")),
).map(list)
line = st.fixed_dictionaries(
    dict(lead=st.one_of(st.just(""), ws0, sep.filter(lambda s: s[0] == "braces").map(lambda s: s[1])), items=st.lists(st.tuples(item, sep).map(list), max_size=5), trail=ws0,
         comment=st.one_of(st.none(), st.none(), st.text(BARE + " \t#{}'\"", max_size=8)))
)
cases = st.fixed_dictionaries(
    dict(lines=st.lists(line, min_size=1, max_size=6), source=st.sampled_from(["content", "file", "filecrlf"]), final=st.booleans(), context=st.booleans(), plain=st.booleans())
)


def render(case):
    items = []
    text = []
    labels = set()
    for ln in case["lines"]:
        s = ln["lead"]
        prev_bare = False
        pending = None
        for (kind, how, value), (skind, stext) in ln["items"]:
            if pending is not None:
                if pending[0] == "none" and prev_bare and how == "bare":
                    s += " "
                else:
                    s += pending[1]
            s += value if how == "bare" else how + value + how
            if how != "bare":
                labels.add("quoted")
            if pending is not None and pending[0] == "braces" or "{" in ln["lead"]:
                labels.add("braces")
            items.append((kind, value))
            prev_bare = how == "bare"
            pending = (skind, stext)
        s += ln["trail"]
        if ln["comment"] is not None:
            s += "#" + ln["comment"]
            labels.add("comment")
        if not ln["items"]:
            labels.add("empty line")
        text.append(s)
    return text, items, labels


def expected(kind, value, plain):
    if plain or kind == "str":
        return value
    if kind == "int":
        return int(value)
    if kind in ("float", "floatcomma"):
        return float(value.replace(",", "."))
    low = value.lower()
    if low in ("", "false"):
        return False
    try:
        return float(value) != 0
    except ValueError:
        return True


def run(case):
    text, items, labels = render(case)
    if case["source"] == "content":
        content = "\n".join(text) + ("\n" if case["final"] or len(text) == 1 else "")
    else:
        content = "\n".join(text) + ("\n" if case["final"] else "")
    tmp = None
    try:
        if case["source"] == "content":
            f = sim.ItemFile(content)
        else:
            tmp = tempfile.mkdtemp(prefix="vt25_")
            path = os.path.join(tmp, "items.txt")
            with open(path, "w", newline="") as out:
                out.write(content if case["source"] == "file" else content.replace("\n", "\r\n"))
            f = sim.ItemFile(path)

        def read():
            for n, (kind, value) in enumerate(items):
                if case["plain"] or kind == "str":
                    got = f.read_item()
                elif kind == "int":
                    got = f.read_item_int()
                elif kind in ("float", "floatcomma"):
                    got = f.read_item_float()
                else:
                    got = f.read_item_bool()
                e = expected(kind, value, case["plain"])
                if type(got) is not type(e) or got != e:
                    fail(f"item {n} of {content!r}: got {got!r}, expected {e!r}")
            for what in ("read_item", "read_item_int", "read_item_float", "read_item_bool", "read_item"):
                try:
                    got = getattr(f, what)()
                except EOFError:
                    continue
                fail(f"{what} at end of {content!r} gives {got!r}, expected EOFError")

        if case["context"]:
            with f as g_:
                check(g_ is f, "context manager gives another object")
                read()
        else:
            read()
            f.close()
        check(f.open_file.closed if hasattr(f, "open_file") else True, "file not closed")
    finally:
        if tmp is not None:
            shutil.rmtree(tmp)
    if len(items) >= 2 and labels:
        labels.add("nontrivial")
    return labels | {case["source"]}


FACETS = [Facet("roundtrip", cases, run, quick=8000)]
