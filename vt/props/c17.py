import datetime
import math

import pandas as pd

from ..core import Facet, check, close, equal, fail
from ..drive import animated, animation, fresh
from ..monitors import *
from ..stats import OFF, inf, is_close, numeric

PROPERTY = "C17"
RULE = "histograms: at least three values over at least two bins; dataframes: at least three rows"

weights = st.sampled_from([1, 1, 1, 1, 2, 0.5, 3])
B = st.booleans()


def build(case):
    """returns (monitor, data as list of (raw value, weight or duration))"""
    env = sim.Environment(trace=False, yieldless=True, **animation(case))
    if case["level"]:
        L = Level(env, 0, case["kind"], case["data"][0][0])
        t = 0
        for v, w, d in case["data"]:
            L.tally(t, v)
            env.run(d)
            t += d
            if case.get("off") == v:
                L.monitor(t, False)
                env.run(1)
                t += 1
                L.monitor(t, True)
                env.run(0.5)
                t += 0.5
        return env, L.m, L.ref.xd(t)
    m = sim.Monitor("m", type=type_of(case["kind"]))
    for v, w, d in case["data"]:
        m.tally(v, w if case["weighted"] else 1)
    return env, m, [(v, w if case["weighted"] else 1) for v, w, d in case["data"]]


def hist_cases(kind):
    return st.fixed_dictionaries(
        dict(
            kind=st.just(kind), level=B, weighted=B, data=st.lists(st.tuples(KINDS[kind], weights, st.sampled_from([0.5, 1, 2, 3])).map(list), min_size=1, max_size=15),
            bins=st.tuples(st.none() | st.integers(0, 12), st.none() | st.sampled_from([0, -1, -2.5, 1, 3]), st.none() | st.sampled_from([1, 0.5, 0.25, 2, 5])).map(list),
            ex0=B, bounds=st.lists(st.tuples(st.integers(-10, 20).map(lambda i: i / 4), st.integers(0, 24).map(lambda i: i / 4)).map(list), min_size=1, max_size=3),
            values=st.none() | st.lists(st.integers(0, 3), max_size=4, unique=True), sort=st.integers(0, 2), off=st.none() | KINDS[kind], scale=st.sampled_from([None, 80, 40, 10]),
        )
    )


hist_strategy = kinds.flatmap(hist_cases)


def num(s):
    s = s.strip()
    return float(s) if s else float("nan")


def printed(got, x, d=3):
    """got was printed with d decimals"""
    if math.isnan(x):
        return math.isnan(got)
    return is_close(got, x, 1e-4 if abs(x) > 1e6 else 1e-9, 0.51 * 10**-d)


def check_table(lines, m, data, level, weighted):
    """the table of print_statistics"""
    rows = {}
    for l in lines:
        key = l[:14].strip()
        if not key or key.startswith("---"):
            continue
        rows[key] = (num(l[14:27]), num(l[27:40]), num(l[40:53]))
    d = {False: data, True: [(x, w) for x, w in data if x != 0]}
    key = "duration" if level else "weight" if weighted else "entries"
    f = (lambda l: sum(w for _, w in l)) if key != "entries" else len
    exp = (f(d[False]), f(d[True]), f(d[False]) - f(d[True]))
    check(key in rows and all(printed(g, e) for g, e in zip(rows[key], exp)), f"{key} in print_statistics: got {rows.get(key)}, expected {exp}")
    for key, fun in (("mean", m.mean), ("std.deviation", m.std), ("minimum", m.minimum), ("median", m.median), ("90% percentile", lambda ex0: m.percentile(90, ex0=ex0)), ("95% percentile", lambda ex0: m.percentile(95, ex0=ex0)), ("maximum", m.maximum)):
        exp = (fun(ex0=False), fun(ex0=True))
        check(key in rows and all(printed(g, e) for g, e in zip(rows[key], exp)), f"{key} in print_statistics: got {rows.get(key)}, expected {exp}")


def run_hist(case):
    fresh()
    env, m, raw = build(case)
    level = case["level"]
    weighted = level or any(w != 1 for _, w in raw)
    data = [(numeric(x), w) for x, w in raw]
    count = (lambda l: sum(w for _, w in l)) if weighted else len
    labels = []
    for lb, width in case["bounds"]:
        ub = lb + width
        exp = [(x, w) for x, w in data if lb < x <= ub]
        if level:
            close(m.bin_duration(lb, ub), sum(w for _, w in exp), f"bin_duration({lb}, {ub})")
        else:
            equal(m.bin_number_of_entries(lb, ub), len(exp), f"bin_number_of_entries({lb}, {ub})")
            equal(m.bin_number_of_entries(lb, ub, ex0=True), sum(1 for x, _ in exp if x != 0), f"bin_number_of_entries({lb}, {ub}, ex0=True)")
            close(m.bin_weight(lb, ub), sum(w for _, w in exp), f"bin_weight({lb}, {ub})")
    # the printed histogram
    ex0 = case["ex0"]
    d = [(x, w) for x, w in data if not ex0 or x != 0]
    total = count(d)
    nb, lo, width = case["bins"]
    txt = m.print_histogram(number_of_bins=nb, lowerbound=lo, bin_width=width, ex0=ex0, as_str=True, graph_scale=case["scale"])
    check(m.print_histograms(number_of_bins=nb, lowerbound=lo, bin_width=width, ex0=ex0, as_str=True, graph_scale=case["scale"]) == txt, "print_histograms is equal to print_histogram")
    lines = txt.splitlines()
    equal(lines[0], "Histogram of m" + ("[ex0]" if ex0 else ""), "title of histogram")
    head = [i for i, l in enumerate(lines) if l.strip().startswith("<=")]
    check(len(head) == 1, "header of the bins")
    check_table(lines[1 : head[0]], m, data, level, weighted)
    if nb is None and lo is None and width is None:
        auto = m.histogram_autoscale(ex0=ex0)
        w_, l_, n_ = auto
        if count(d):
            xs = [x for x, w in d]
            xp = [x for x, w in d if w]
            check(l_ <= min(xp) and max(xp) <= l_ + n_ * w_, f"autoscale {auto} does not cover {min(xs)} .. {max(xs)}")
            check(0 <= n_ <= 30, "autoscale: at most 30 bins")
            check(l_ / w_ == int(l_ / w_), "autoscale: lowerbound is a multiple of the bin width")
        nb, lo, width = n_, l_, w_
    else:
        nb, lo, width = 30 if nb is None else nb, 0 if lo is None else lo, 1 if width is None else width
    rows = [l for l in lines[head[0] + 1 :] if l.strip()]
    equal(len(rows), nb + 2, "number of lines in the histogram")
    cum = 0
    used = 0
    for i, l in zip(range(-1, nb + 1), rows):
        lb = -inf if i == -1 else lo + i * width
        ub = inf if i == nb else lo + (i + 1) * width
        c = count([(x, w) for x, w in d if lb < x <= ub])
        used += bool(c)
        cum += c
        check(printed(num(l[:13]), ub), f"upperbound of bin {i}: got {l[:13]}, expected {ub}")
        check(printed(num(l[14:27]), c), f"count of bin {i}: got {l[14:27]}, expected {c}")
        check(printed(num(l[27:33]), 100 * c / (total or 1), 1), f"percentage of bin {i}: got {l[27:33]}, expected {100 * c / (total or 1)}")
        check(printed(num(l[33:39]), 100 * cum / (total or 1), 1), f"cumulative percentage of bin {i}: got {l[33:39]}, expected {100 * cum / (total or 1)}")
        if total:
            scale = case["scale"] or 80
            n = int(c / total * scale + 1e-9)
            stars = l[39:].count("*")
            check(n - 3 <= stars <= n + 1, f"bar of bin {i}: {stars} stars, expected {n}")
    close(cum, total, "all bins together")
    # values
    vals = [x for x, _ in raw]
    uniq = []
    for x, w in raw:
        if x not in uniq and not (ex0 and x == 0):
            uniq.append(x)
    opt = [x for x in uniq if sum(w for y, w in raw if y == x) == 0]  # zero duration: may be left out
    got = m.values(ex0=ex0)
    check(len(got) == len([x for i, x in enumerate(got) if x not in got[:i]]), f"values() has duplicates: {got}")
    check(all(x in uniq for x in got) and all(x in got or x in opt for x in uniq), f"values(): got {got}, expected {uniq}")
    order = lambda x: (0, float(x), "") if can(x) else (1, 0, str(x).lower())
    equal([order(x) for x in got], sorted(order(x) for x in got), "order of values()")
    gotn = m.values(ex0=ex0, force_numeric=True)
    expn = sorted({x for x, w in d})
    check(all(x in expn for x in gotn) and gotn == sorted(set(gotn)) and all(x in gotn or not sum(w for y, w in d if y == x) for x in expn), f"values(force_numeric=True): got {gotn}, expected {expn}")
    wt = lambda x: sum(w for y, w in raw if y == x)
    key = "sort_on_duration" if level else "sort_on_weight"
    gots = m.values(ex0=ex0, **{key: True})
    equal([wt(x) for x in gots], sorted((wt(x) for x in gots), reverse=True), f"weights of values({key}=True)")
    check(len(gots) == len(got) and all(x in got for x in gots), f"values({key}=True): {gots} versus {got}")
    for x in got:
        if level:
            close(m.value_duration(x), wt(x), f"value_duration({x!r})")
        else:
            close(m.value_weight(x), wt(x), f"value_weight({x!r})")
            equal(m.value_number_of_entries(x), vals.count(x), f"value_number_of_entries({x!r})")
    # histogram of values
    rawx = [(x, w) for x, w in raw if not (ex0 and x == 0)]
    kw = {}
    if case["values"] is None:
        sel = got
        kw = {key: True} if case["sort"] == 1 else {}
        labels_ = gots if case["sort"] == 1 else got
        values = True
    else:
        values = [got[i % len(got)] for i in case["values"]] if got else []
        values = [x for i, x in enumerate(values) if x not in values[:i]] + ([4321] if case["sort"] == 2 else [])
        labels_ = list(values)
    txt = m.print_histogram(values=values if values is True else list(values), ex0=ex0, as_str=True, **kw)
    lines = txt.splitlines()
    head = [i for i, l in enumerate(lines) if l.startswith("value ")]
    check(len(head) == 1, "header of the values")
    rest = [x for x in got if x not in labels_]
    rows = lines[head[0] + 1 :]
    while rows and not rows[-1].strip():
        rows.pop()
    exp_labels = [(str(x), [x]) for x in labels_] + ([("<rest>", rest)] if rest else [])
    equal([l[:20].strip() for l in rows], [s.strip() for s, _ in exp_labels], "labels of the values") if all(s.strip() for s, _ in exp_labels[-1:]) else None
    if len(rows) == len(exp_labels):
        tot = count(rawx)
        sm = 0
        for l, (s, xs) in zip(rows, exp_labels):
            c = count([(x, w) for x, w in rawx if x in xs])
            sm += c
            a, b = (l[20:34], l[34:40]) if weighted else (l[20:27], l[27:33])
            check(printed(num(a), c), f"count of value {s}: got {a}, expected {c}")
            check(printed(num(b), 100 * c / (tot or 1), 1), f"percentage of value {s}: got {b}")
            if weighted and not level:
                ne = sum(1 for x, w in rawx if x in xs)
                check(printed(num(l[40:48]), ne), f"entries of value {s}: got {l[40:48]}, expected {ne}")
                check(printed(num(l[48:54]), 100 * ne / (len(rawx) or 1), 1), f"percentage of entries of value {s}: got {l[48:54]}")
        close(sm, tot, "all values together")
    if len(uniq) >= 3 and used >= 2:
        labels.append("nontrivial")
    return labels + [case["kind"], "level" if level else "weighted" if weighted else "plain"]


def can(x):
    try:
        float(x)
        return True
    except (ValueError, TypeError):
        return False


# dataframes
DATE0 = datetime.datetime(2024, 2, 27, 13, 5)


def df_cases(ks):
    ops = [(5, op("tally", st.just(i), KINDS[k])) for i, k in enumerate(ks)]
    ops += [(7, op("run", durations)), (2, op("monitor", st.integers(0, len(ks) - 1), B)), (1, op("reset_now", st.sampled_from([0, 4])))]
    return st.fixed_dictionaries(
        dict(
            kinds=st.just(ks), initial=st.tuples(*[KINDS[k].filter(lambda v: v is not None) for k in ks]).map(list), ops=st.lists(weighted(*ops), min_size=6, max_size=25), pre=st.sampled_from([0, 2.5]),
            date=B, opts=st.tuples(B, B, B, B, B).map(list), delta=st.sampled_from([None, 0.25, 0.5, 1, 2]), min_t=st.none() | st.integers(-4, 12).map(lambda i: i / 2), max_t=st.none() | st.integers(0, 40).map(lambda i: i / 2), extra=B, td=B,
        )
    )


df_strategy = st.lists(kinds, min_size=2, max_size=2).flatmap(df_cases)


def run_df(case):
    fresh()
    env = sim.Environment(trace=False, yieldless=True, time_unit="hours", datetime0=DATE0 if case["date"] else False, **animation(case))
    t = case["pre"]
    env.run(t)
    offset = 0
    L = [Level(env, t, k, i, name=f"m{n}") for n, (k, i) in enumerate(zip(case["kinds"], case["initial"]))]
    N = sim.Monitor("n", type=type_of(case["kinds"][0]))
    nd = []
    for o in case["ops"]:
        if o[0] == "tally":
            L[o[1]].tally(t, o[2])
            if o[1] == 0:
                N.tally(o[2])
                nd.append((t, o[2]))
        elif o[0] == "run":
            env.run(o[1])
            t += o[1]
        elif o[0] == "monitor":
            L[o[1]].monitor(t, o[2])
        else:
            env.reset_now(o[1])
            offset = t - o[1]
            offset_date = t
    # the date at simulation time x
    to_date = lambda a: env.datetime0() + datetime.timedelta(hours=a - offset) if case["date"] else None
    include_t, ex0, exoff, add_now, fnum = case["opts"]
    use = case["date"]
    kw = dict(ex0=ex0, exoff=exoff, add_now=add_now, force_numeric=fnum)
    for m in (L[0].m, N):
        x, tt = m.xt(**kw)
        df = m.as_dataframe(include_t=include_t, use_datetime0=use, **kw)
        equal(list(df.columns), (["t"] if include_t else []) + [m.name() + ".x"], "columns")
        equal(len(df), len(x), "number of rows")
        same_cells(list(df[m.name() + ".x"]), list(x), "x in dataframe")
        if include_t:
            if use:
                near_dates(list(df["t"]), [to_date(a) for a in tt])
            elif not offset:
                equal([float(a) for a in df["t"]], [float(a) for a in tt], "t in dataframe")
    # resampled
    delta = case["delta"]
    d = 1 if delta is None else delta
    extra = [L[1].m] if case["extra"] else []
    kw = {}
    lo, hi = L[0].ref.seg[0][0], t
    if case["min_t"] is not None:
        lo = case["min_t"] + offset
        kw["min_t"] = to_date(lo) if use and case["td"] else case["min_t"]
    if case["max_t"] is not None:
        hi = min(case["max_t"], 20) + offset
        hi = min(hi, t)
        kw["max_t"] = to_date(hi) if use and case["td"] else hi - offset
    if delta is not None:
        kw["delta_t"] = datetime.timedelta(hours=delta) if use and case["td"] else delta
    df = L[0].m.as_resampled_dataframe(extra, use_datetime0=use, **kw)
    ts = []
    a = lo
    while a < hi:
        ts.append(a)
        a += d
    equal(list(df.columns), ["t", "m0.x"] + (["m1.x"] if extra else []), "columns of resampled dataframe")
    equal(len(df), len(ts), "number of rows of resampled dataframe")
    if use:
        near_dates(list(df["t"]), [to_date(a) for a in ts])
    elif not offset:
        close([float(a) for a in df["t"]], ts, "t in resampled dataframe")
    for l in L[: 1 + len(extra)]:
        exp = [l.ref.at(a) for a in ts]
        got = list(df[l.m.name() + ".x"])
        for g, e, a in zip(got, exp, ts):
            if e is OFF:
                check(g is pd.NA or (isinstance(g, float) and math.isnan(g)), f"resampled {l.m.name()} at {a}: got {g!r}, expected NA")
            else:
                same_cells([g], [e], f"resampled {l.m.name()} at {a}")
    return (["nontrivial"] if len(ts) >= 3 else []) + (["date"] if use else [])


def same_cells(got, exp, what):
    equal(len(got), len(exp), what)
    for g, e in zip(got, exp):
        if e is None:
            check(g is None or (isinstance(g, float) and math.isnan(g)), f"{what}: got {g!r}, expected None")
        else:
            check(g == e, f"{what}: got {g!r}, expected {e!r}")


def near_dates(got, exp):
    equal(len(got), len(exp), "number of dates")
    for g, e in zip(got, exp):
        check(abs((g - e).total_seconds()) < 1e-3, f"date in dataframe: got {g}, expected {e}")


FACETS = [Facet("histogram", animated(hist_strategy), run_hist, quick=2500), Facet("dataframe", animated(df_strategy), run_df, quick=1600)]
