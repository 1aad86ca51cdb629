"""Runner: drives the generated-input search of one property.

A property module (vt/props/cNN.py) defines

    PROPERTY = "CNN"
    FACETS = [Facet(name, strategy, run, quick=..., thorough=...), ...]
    RULE = "when a case counts as non-trivial"

* strategy is a hypothesis strategy giving a JSON-able case
* run(case) executes the case against the code in /repo and compares with the oracle. It returns a list of labels
  (for the coverage report); the case is non-trivial if "nontrivial" is one of them.
  Any Violation - or any other exception, as only valid calls of the public API are generated - means that the property is broken.
"""

import collections
import gc
import hashlib
import json
import multiprocessing
import os
import resource
import signal
import subprocess
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CASE_TIMEOUT = 30  # s, a case normally takes a few ms
SHRINK_LIMIT = 45  # s per worker, after the first failure


class Violation(Exception):
    pass


class HarnessError(BaseException):
    """something is wrong with the harness itself: never reported as a violation"""


class CaseTimeout(Exception):
    pass


class Stop(BaseException):
    pass


def fail(msg, *args):
    raise Violation(msg + "".join(" " + repr(a)[:600] for a in args))


def check(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def equal(got, expected, what):
    if not same(got, expected):
        fail(f"{what}: got {short(got)}, expected {short(expected)}")


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def close(got, expected, what, rel=1e-9, abs_=1e-9):
    if isinstance(got, (list, tuple)) and isinstance(expected, (list, tuple)):
        if len(got) != len(expected):
            fail(f"{what}: got {short(got)}, expected {short(expected)}")
        for g_, e_ in zip(got, expected):
            close(g_, e_, what, rel, abs_)
        return
    if not is_close(got, expected, rel, abs_):
        fail(f"{what}: got {short(got)}, expected {short(expected)}")


def is_close(a, b, rel=1e-9, abs_=1e-9):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if a in (float("inf"), float("-inf")) or b in (float("inf"), float("-inf")):
        return False
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def short(x, n=400):
    r = repr(x)
    return r if len(r) <= n else r[:n] + "..."


class Facet:
    def __init__(self, name, strategy, run, quick=400, thorough=None, examples=(), timeout=CASE_TIMEOUT):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.examples = list(examples)
        self.timeout = timeout


def _alarm(signum, frame):
    raise CaseTimeout("case did not finish in time (endless loop?)")


def derive(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def run_case(facet, case, timeout=None):
    """returns (labels, None) or (None, description of the violation)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout or facet.timeout)
    try:
        labels = facet.run(case)
        return (list(labels or ()), None)
    except HarnessError:
        raise
    except KeyboardInterrupt:
        raise
    except MemoryError:
        return (None, "MemoryError")
    except Exception as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if isinstance(e, Violation):
            return (None, str(e))
        tb = "".join(traceback.format_exception(e)[-6:])
        return (None, f"{type(e).__name__}: {e}\n{tb}"[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def case_key(case):
    return json.dumps(case, sort_keys=True, default=str)


def worker(args):
    """runs n generated cases of one facet"""
    prop, facet_index, n, seed, deadline, shrink = args
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    module = load(prop)
    facet = module.FACETS[facet_index]
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 * 2**30, 6 * 2**30))
    except ValueError:
        pass
    st = dict(evaluations=0, hashes=set(), labels=collections.Counter(), samples=[], index=0, out_of_time=False)
    failure = {}

    def one(case):
        if failure:
            if time.time() - failure["first"] > SHRINK_LIMIT:
                raise Stop
        elif time.time() > deadline:
            st["out_of_time"] = True
            raise Stop
        case = json.loads(json.dumps(case))  # a case is always fully defined by its json
        labels, violation = run_case(facet, case)
        if not failure:
            st["index"] += 1
        if violation is None:
            if not failure:
                st["evaluations"] += 1
                for label in set(labels):
                    st["labels"][label] += 1
                if "nontrivial" in labels:
                    h = hashlib.sha256(case_key(case).encode()).digest()[:8]
                    if h not in st["hashes"]:
                        st["hashes"].add(h)
                        if len(st["samples"]) < 2 and len(st["hashes"]) % 7 == 3:
                            st["samples"].append(case)
            return
        size = len(case_key(case))
        if not failure:
            failure.update(first=time.time(), case=case, size=size, msg=violation, index=st["index"], firstcase=case, firstmsg=violation)
        elif size <= failure["size"]:
            failure.update(case=case, size=size, msg=violation)
        if not shrink:
            raise Stop
        raise Violation("x")

    phases = [Phase.generate] + ([Phase.shrink] if shrink else [])

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=phases, report_multiple_bugs=False)
    @given(facet.strategy)
    def test(case):
        one(case)

    error = None
    try:
        for ex in facet.examples:
            one(ex)
        test()
    except Stop:
        pass
    except HarnessError as e:
        error = "".join(traceback.format_exception(e))
    except BaseException as e:
        if not failure:  # e.g. an error in the strategy
            error = "".join(traceback.format_exception(e))
    return dict(
        facet=facet.name, facet_index=facet_index, n=n, seed=seed,
        evaluations=st["evaluations"] + (1 if failure else 0), hashes=st["hashes"], labels=st["labels"], samples=st["samples"],
        out_of_time=st["out_of_time"], failure=failure or None, error=error,
    )


def load(prop):
    import importlib

    return importlib.import_module(f"vt.props.{prop.lower()}")


def load_known(prop):
    """known findings: lines 'known: property=<id> facet=<facet> case=<json> :: description'; 'fixed:' lines suppress nothing"""
    result = []
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("known:"):
                d = json.loads(line[len("known:"):])
                if d["property"] == prop:
                    result.append(d)
    return result


def write_evidence(prop, tier, seed, coverage, wall, violations, assumptions):
    path = VERIF / "evidence" / f"{prop}.json"
    path.parent.mkdir(exist_ok=True)
    data = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage, assumptions=assumptions, wall_s=round(wall, 2), violations=violations)
    path.write_text(json.dumps(data, indent=1, default=str) + "\n")


def replay_command(path):
    return [sys.executable, str(VERIF / "check.py"), "--replay", str(path)]


def confirm(path):
    """True if the replay file reproduces in a fresh process"""
    try:
        r = subprocess.run(replay_command(path), capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 1


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    module = load(prop)
    budget = float(os.environ.get("VERIF_BUDGET", 420 if tier == "quick" else 3 * 3600))
    deadline = t0 + budget
    jobs = []
    only = os.environ.get("VERIF_FACET")
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for i, facet in enumerate(module.FACETS):
        if only and facet.name != only:
            continue
        n = facet.quick if tier == "quick" else facet.thorough
        n = max(1, int(n * scale))
        chunks = WORKERS if tier == "quick" else WORKERS * max(1, n // 4000)
        per = max(1, -(-n // chunks))
        for w in range(min(chunks, n)):
            jobs.append((prop, i, per, derive(seed, prop, facet.name, w), deadline, True))
    ctx = multiprocessing.get_context("fork")
    results = []
    jobs.sort(key=lambda j: (j[3]))  # mix the facets
    with ctx.Pool(WORKERS, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(worker, jobs, chunksize=1)
        pending = len(jobs)
        found_at = None
        while pending:
            try:
                # a worker that dies (e.g. out of memory, segmentation fault) never answers: bounded by the timeout
                r = it.next(timeout=max(60, deadline + 180 - time.time()))
            except multiprocessing.TimeoutError:
                results.append(dict(error="a worker died or did not answer"))
                break
            pending -= 1
            results.append(r)
            if r.get("failure") and found_at is None:
                found_at = time.time()
                break  # one is enough
        pool.terminate()
    evaluations = sum(r.get("evaluations", 0) for r in results)
    per_facet = collections.defaultdict(lambda: dict(evaluations=0, nontrivial=set(), labels=collections.Counter()))
    samples = []
    hashes = set()
    for r in results:
        if "facet" not in r:
            continue
        f = per_facet[r["facet"]]
        f["evaluations"] += r["evaluations"]
        f["nontrivial"] |= r["hashes"]
        f["labels"] += r["labels"]
        hashes |= {(r["facet"], h) for h in r["hashes"]}
    seen_facets = collections.Counter()
    for r in results:
        for s in r.get("samples", ()):
            if seen_facets[r["facet"]] < 2 and len(json.dumps(s)) < 4000:
                seen_facets[r["facet"]] += 1
                samples.append(dict(facet=r["facet"], case=s))
    coverage = dict(
        evaluations=evaluations,
        distinct_nontrivial=len(hashes),
        rule=module.RULE,
        samples=samples,
        facets={k: dict(evaluations=v["evaluations"], distinct_nontrivial=len(v["nontrivial"]), labels=dict(v["labels"].most_common(40))) for k, v in sorted(per_facet.items())},
        out_of_time=any(r.get("out_of_time") for r in results),
    )
    assumptions = getattr(module, "ASSUMPTIONS", ["only documented, valid calls of the public API are generated"])

    errors = [r["error"] for r in results if r.get("error")]
    failures = [r for r in results if r.get("failure")]
    confirmed = []
    replay_dir = VERIF / "replays"
    for r in failures:
        replay_dir.mkdir(exist_ok=True)
        f = r["failure"]
        candidates = [(f["case"], f["msg"])]
        if f["firstcase"] != f["case"]:
            candidates.append((f["firstcase"], f["firstmsg"]))
        path = None
        for k, (case, msg) in enumerate(candidates):
            h = hashlib.sha256(case_key(case).encode()).hexdigest()[:10]
            path = replay_dir / f"{prop}-{r['facet'].replace(' ', '_')}-{h}.json"
            path.write_text(json.dumps(dict(kind="case", property=prop, facet=r["facet"], case=case, message=msg, seed=seed), indent=1) + "\n")
            if confirm(path):
                break
            path.unlink()
            path = None
        if path is None:
            # the failure depends on the earlier cases in the same process: replay the stream
            path = replay_dir / f"{prop}-{r['facet'].replace(' ', '_')}-stream-{r['seed']:x}.json"
            path.write_text(
                json.dumps(dict(kind="stream", property=prop, facet=r["facet"], facet_index=r["facet_index"], n=r["n"], stream_seed=r["seed"], case=f["firstcase"], message=f["firstmsg"]), indent=1) + "\n"
            )
            if not confirm(path):
                path.unlink()
                errors.append(f"not reproducible: {r['facet']} {f['firstmsg']} {short(f['firstcase'], 1000)}")
                continue
            case, msg = f["firstcase"], f["firstmsg"]
        confirmed.append((r["facet"], case, msg, path))
    known = load_known(prop)
    reported = []
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for facet_name, case, msg, path in confirmed:
        if any(k["facet"] == facet_name and k["case"] == case for k in known):
            continue
        reported.append(dict(facet=facet_name, message=msg, replay=str(path), case=case))
    if reported:
        coverage["violation_details"] = reported
    write_evidence(prop, tier, seed, coverage, time.time() - t0, len(reported), assumptions)
    print(f"{prop} tier={tier} seed={seed} evaluations={evaluations} distinct_nontrivial={len(hashes)} wall={time.time() - t0:.1f}s")
    for k, v in coverage["facets"].items():
        print(f"  {k}: evaluations={v['evaluations']} nontrivial={v['distinct_nontrivial']}")
        if os.environ.get("VERIF_LABELS"):
            print("     ", v["labels"])
    if reported:
        for r in reported:
            print(f"facet {r['facet']}: {r['message']}")
            print(f"  case: {short(r['case'], 1500)}")
            print(f"VIOLATION property={prop} replay={r['replay']}")
        return 1
    if errors:
        for e in errors[:3]:
            print("HARNESS ERROR", e)
        return 2
    return 0


def replay(path):
    d = json.loads(Path(path).read_text())
    module = load(d["property"])
    if d["kind"] == "stream":
        r = worker((d["property"], d["facet_index"], d["n"], d["stream_seed"], time.time() + 500, False))
        violation = r["failure"]["msg"] if r["failure"] else None
    else:
        facet = next(f for f in module.FACETS if f.name == d["facet"])
        labels, violation = run_case(facet, d["case"], timeout=90)
    if violation is None:
        print(f"property={d['property']} facet={d['facet']}: holds for this case")
        return 0
    print(f"facet {d['facet']}: {violation}")
    print(f"VIOLATION property={d['property']} replay={path}")
    return 1
