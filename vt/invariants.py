"""invariants, checked on salabim itself (independent of the reference model) at every operation of a generated model"""

from .core import check, is_close

EPS = 1e-6


def resources(driver):
    for r in driver.res:
        spec = driver.case["res"][int(r.name()[1:])]
        claimed, cap = r.claimed_quantity(), r.capacity()
        check(is_close(r.available_quantity(), cap - claimed), f"available quantity of {r.name()}", r.available_quantity(), cap, claimed)
        check(is_close(r.occupancy(), claimed / cap if cap > 0 else 0), f"occupancy of {r.name()}", r.occupancy(), cap, claimed)
        check(claimed >= -EPS, f"claimed quantity of {r.name()} negative", claimed)
        claimers = list(r.claimers())
        if spec.get("anon"):
            check(not claimers, "claimers of an anonymous resource", claimers)
        else:
            total = 0
            for c in driver.allcomps:
                q = c.claimed_quantity(r)
                total += q
                check((c in claimers) == (q > 0), f"{c.name()} claims {q} from {r.name()}, but in claimers is {c in claimers}")
                check(c.isclaiming(r) == (q > 0), f"isclaiming of {c.name()}")
                check(c.isbumped(r) == (q <= 0), f"isbumped of {c.name()}")
                check((r in c.claimed_resources()) == (q > 0), f"claimed_resources of {c.name()}")
                check(q >= 0, f"{c.name()} claims a negative quantity", q)
                if q > 0:
                    check(c.status() != "data", f"{c.name()} has ended or is cancelled, but still claims {q}")
            check(is_close(total, claimed), f"sum of the claims of {r.name()} is {total}, but claimed quantity is {claimed}")
        if not driver.case.get("capchange"):
            check(claimed <= cap + EPS, f"more claimed than the capacity of {r.name()}", claimed, cap)
        for c in r.requesters():
            check(c.status() == "requesting", f"{c.name()} in requesters of {r.name()}, but status is {c.status()}")
            check(r in c.requested_resources(), f"{c.name()} in requesters of {r.name()}, but not requesting it")
    for c in driver.allcomps:
        for r in c.requested_resources():
            check(c in r.requesters(), f"{c.name()} requests {r.name()}, but is not in its requesters")


def eligible(r, spec, c):
    """may c be honored, given honor_only_first/honor_only_highest_priority"""
    reqs = list(r.requesters())
    if spec.get("first") and reqs[0] is not c:
        return False
    if spec.get("high") and c.priority(r.requesters()) != reqs[0].priority(r.requesters()):
        return False
    return True


def no_lost_request(driver):
    for c in driver.allcomps:
        rs = c.requested_resources()
        if not rs:
            continue
        possible = []
        for r in rs:
            q = c.requested_quantity(r)
            ok = eligible(r, driver.case["res"][int(r.name()[1:])], c)
            if q > 0:
                ok = ok and q <= r.available_quantity() - EPS * 0 + 1e-9
            else:
                ok = ok and -q <= r.claimed_quantity() + 1e-9
            possible.append(ok)
        oneof = driver.vals.get(c.name())
        if any(possible) if oneof else all(possible):
            check(False, f"{c.name()} waits for {[(r.name(), c.requested_quantity(r)) for r in rs]}, although available: {[r.available_quantity() for r in rs]}")


def sorted_queue(driver, q, what):
    ps = [c.priority(q) for c in q]
    check(ps == sorted(ps), f"{what} are not in order of priority", ps)


def request_order(driver):
    for r in driver.res:
        sorted_queue(driver, r.requesters(), f"requesters of {r.name()}")
        sorted_queue(driver, r.claimers(), f"claimers of {r.name()}")


def stores(driver):
    for s in driver.stores:
        n = len(s)
        allowed = max(s.capacity(), driver.vals.get(("items", s.name()), 0))  # the capacity may have been lowered below the number of items
        check(n <= allowed, f"{s.name()} contains {n} items, but the capacity is {s.capacity()}")
        driver.vals["items", s.name()] = n
        check(s.available_quantity() == s.capacity() - n, f"available quantity of {s.name()}", s.available_quantity())
        items = list(s)
        waiting_to = list(s.to_store_requesters())
        waiting_from = list(s.from_store_requesters())
        for c in waiting_to + waiting_from:
            check(c.status() == "requesting", f"{c.name()} in requesters of {s.name()}, but status is {c.status()}")
        if waiting_to:
            check(s.available_quantity() <= 0, f"{[c.name() for c in waiting_to]} wait for {s.name()}, although there is room")
        for c in waiting_from:
            flt = driver.vals.get(("filter", c.name()))
            for item in items:
                check(not flt(item), f"{c.name()} waits for {s.name()}, although {item.name()} matches")
        sorted_queue(driver, s.from_store_requesters(), f"from_store_requesters of {s.name()}")
        sorted_queue(driver, s.to_store_requesters(), f"to_store_requesters of {s.name()}")
        sorted_queue(driver, s, f"items of {s.name()}")


def states(driver):
    for s in driver.states:
        check(s() == s.get() == s.value() == s.value.value, f"value of {s.name()}: {s()}, {s.get()}, {s.value()}, {s.value.value}")
        for c in s.waiters():
            check(c.status() == "waiting", f"{c.name()} in waiters of {s.name()}, but status is {c.status()}")
        sorted_queue(driver, s.waiters(), f"waiters of {s.name()}")
    waiting = {c for s in driver.states for c in s.waiters()}
    for c in driver.allcomps:
        if c.status() == "waiting":
            check(c in waiting, f"{c.name()} is waiting, but not in any waiters")
            holds = driver.vals[("wait", c.name())]
            check(not holds(), f"{c.name()} waits, although the condition holds. Values: {[s.get() for s in driver.states]}")
