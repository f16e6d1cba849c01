"""C12: anonymous resources."""

import itertools
import math

from mc import driver
from mc.core import Family
from mc.driver import history_family, compare
from mc.ops import enabled_fn, RUN1, RUN, END

inf = math.inf
PROPERTY = "C12"
ASSUMPTIONS = ["2-4 processes, 1-2 anonymous resources, histories of 4-6 operations"]


def own(m, op):
    return op[1] is None or op[1] == m.current or op[0] in ("cancel", "activate")


def start(n):
    return tuple(("activate", i, {}) for i in range(n)) + (RUN1,)


def families(tier):
    th = tier == "thorough"
    fams = []
    per = [
        ("get", {"args": ((0,),)}),
        ("get", {"args": ((0, 2),)}),
        ("put", {"args": ((0, 1),)}),
        ("put", {"args": ((0, 2, -1),)}),
        ("put", {"args": ((0, 0.5),), "fail_delay": 1}),
        ("get", {"args": ((0, 3, -1),), "fail_delay": 1}),
        ("request", {"args": ((0, -1),)}),
        ("hold", {"duration": 1}),
        ("cancel", {}),
    ]
    glob = (
        ("res_release", None, {"r": 0}),
        ("res_release", None, {"r": 0, "quantity": 1}),
        ("set_capacity", None, {"r": 0, "cap": 3}),
        ("set_capacity", None, {"r": 0, "cap": 1}),
    )
    for nm, extra in (("plain", {}), ("first", {"honor_only_first": True}), ("highest", {"honor_only_highest_priority": True})):
        fams.append(
            history_family(
                f"{nm}_container",
                dict(ncomp=3, resources=(dict(capacity=2, anonymous=True, initial_claimed_quantity=1, **extra),)),
                enabled_fn(per, glob, (RUN1,), (END,), 3, own),
                5 if th else 4,
                "3 processes, 1 anonymous resource of capacity 2, 4 (5) operations",
                prefix=start(3),
                paths=nm == "plain",
                yieldless="both" if nm == "plain" and not th else True,
            )
        )
    per = [
        ("get", {"args": ((0,), (1,))}),
        ("put", {"args": ((0, 1), (1, 2))}),
        ("request", {"args": ((0, 1), (1, -1))}),
        ("request", {"args": ((1, 2), (0, -1))}),
        ("put", {"args": ((0,), (1,)), "oneof": True}),
        ("get", {"args": ((0, 2), (1, 2)), "oneof": True, "fail_delay": 1}),
        ("hold", {"duration": 1}),
    ]
    fams.append(
        history_family(
            "two_containers",
            dict(ncomp=3, resources=(dict(capacity=2, anonymous=True, initial_claimed_quantity=1), dict(capacity=3, anonymous=True))),
            enabled_fn(per, (("res_release", None, {"r": 1}),), (RUN1,), (END,), 3, own),
            6 if th else 5,
            "3 processes moving quantity between 2 anonymous resources",
            prefix=start(3),
        )
    )
    # chains: every queue of waiting puts and gets, then one event
    reqs = [(0, q, p) for q in (1, 2, -1, -2) for p in (0, -1)]
    events = [("res_release", None, {"r": 0, "quantity": 1}), ("set_capacity", None, {"r": 0, "cap": 3}), ("res_release", None, {"r": 0}), ("request", 4, {"args": ((0, 1),)}), ("request", 4, {"args": ((0, -1),)})]
    cases = [
        (cap, ini, combo, e)
        for cap, ini in ((2, 2), (2, 0), (2, 1), (4, 2))
        for combo in itertools.product(reqs, repeat=4 if th else 3)
        for e in events
    ]

    def chain(case, st):
        cap, ini, combo, e = case
        n = len(combo)
        world = dict(ncomp=5, resources=(dict(capacity=cap, anonymous=True, initial_claimed_quantity=ini),))
        ops = start(5) + tuple(("request", i, {"args": (a,)}) for i, a in enumerate(combo))
        if n < 4:
            ops += (("nop", None, {}),)
        return compare(world, ops + (e,), st, True)

    fams.append(Family("chains", cases, chain, "3 (4) waiting puts/gets in every combination, then a release, capacity change, put or get", driver.setup))
    return fams
