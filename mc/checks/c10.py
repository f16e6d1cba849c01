"""C10: honoring discipline of resources."""

import itertools
import math

from mc import driver
from mc.core import Family
from mc.driver import history_family, compare
from mc.ops import product_kw, enabled_fn, RUN1, RUN, END

inf = math.inf
PROPERTY = "C10"
ASSUMPTIONS = ["2-4 processes, 1-3 resources, histories of 4-6 operations after a start-up prefix"]


def own(m, op):
    return op[1] is None or op[1] == m.current or op[0] in ("cancel", "activate", "release")


def start(n):
    return tuple(("activate", i, {}) for i in range(n)) + (RUN1,)


def families(tier):
    th = tier == "thorough"
    fams = []
    T = (("honor_only_first", True), ("honor_only_highest_priority", True), None)
    for k, t in enumerate(T):
        extra = dict([t]) if t else {}
        nm = ("first", "highest", "plain")[k]
        per = [
            ("request", {"args": ((0,),)}),
            ("request", {"args": ((0, 2),)}),
            ("request", {"args": ((0, 1, -1),)}),
            ("request", {"args": ((0, 2),), "fail_delay": 1, "request_priority": 1}),
            ("release", {}),
            ("release", {"args": ((0, 1),)}),
            ("hold", {"duration": 1}),
            ("cancel", {}),
        ]
        fams.append(
            history_family(
                f"{nm}_three",
                dict(ncomp=3, resources=(dict(capacity=2, **extra),)),
                enabled_fn(per, (("set_capacity", None, {"r": 0, "cap": 1}), ("set_capacity", None, {"r": 0, "cap": 3})), (RUN1,), (END,), 3, own),
                6 if th else 5 if nm == "first" else 4,
                "3 processes, 1 resource of capacity 2, 4-5 (6) operations",
                prefix=start(3),
            )
        )
        per = [
            ("request", {"args": ((0,), (1,))}),
            ("request", {"args": ((1,), (0, 2))}),
            ("request", {"args": ((0,), (1,)), "oneof": True}),
            ("request", {"args": ((1, 1, -1), (0, 2, 1)), "oneof": True, "fail_delay": 1}),
            ("request", {"args": ((0, 2),)}),
            ("request", {"args": ((1,),), "request_priority": -1}),
            ("release", {}),
            ("release", {"args": ((0,),)}),
            ("hold", {"duration": 1}),
        ]
        fams.append(
            history_family(
                f"{nm}_multi",
                dict(ncomp=3, resources=(dict(capacity=2, **extra), dict(**(extra if k < 2 else {})))),
                enabled_fn(per, (), (RUN1,), (END,), 3, lambda m, op: op[1] is None or op[1] == m.current),
                6 if th else 5 if nm == "highest" else 4,
                "3 processes, 2 resources requested together or one of them, 5 (6) operations",
                prefix=start(3),
            )
        )
    # mixtures of disciplines
    per = [
        ("request", {"args": ((0,), (1,))}),
        ("request", {"args": ((0,), (1,), (2, 2)), "oneof": True}),
        ("request", {"args": ((2,), (0,))}),
        ("put", {"args": ((2, 1),)}),
        ("get", {"args": ((2, 2), (1,))}),
        ("put", {"args": ((2, 2),), "request_priority": -1, "fail_delay": 1}),
        ("release", {}),
        ("hold", {"duration": 1}),
    ]
    fams.append(
        history_family(
            "mixed",
            dict(ncomp=3, resources=(dict(), dict(honor_only_first=True), dict(capacity=3, anonymous=True, initial_claimed_quantity=2))),
            enabled_fn(per, (), (RUN1,), (END,), 3, lambda m, op: op[1] is None or op[1] == m.current),
            6 if th else 4,
            "3 processes; plain, honor_only_first and anonymous resources requested together",
            prefix=start(3),
        )
    )
    # a full queue: the holder lets go (all, in parts, by capacity), every queue of waiting requests
    reqs = [((0, q, p),) for q in (1, 2) for p in (0, 1, -1)] + [((0, 1), (1, 1)), ((0, 2, -1), (1, 1))]
    ends = [
        (("release", 0, {}),),
        (("release", 0, {"args": ((0, 1),)}), ("release", 0, {"args": ((0, 1),)})),
        (("release", 0, {"args": ((0, 1),)}), ("release", 0, {"args": ((1,),)}), ("release", 0, {})),
        (("set_capacity", None, {"r": 0, "cap": 4}), ("release", 0, {})),
        (("cancel", 2, {}), ("release", 0, {})),
        (("activate", 1, {}), ("release", 0, {})),
    ]
    cases = []
    n = 4
    for extra in ({}, {"honor_only_first": True}, {"honor_only_highest_priority": True}):
        for combo in itertools.product(reqs, repeat=n - 1):
            for e, fd in itertools.product(ends, (None, 1) if th else (None,)):
                cases.append((tuple(sorted(extra.items())), combo, e, fd))

    def full(case, st):
        extra, combo, e, fd = case
        world = dict(ncomp=4, resources=(dict(capacity=3, **dict(extra)), dict()))
        ops = list(start(4)) + [("request", 0, {"args": ((0, 3), (1, 1))})]
        # each of the others requests in turn, then waits; process 0 has been honored in between
        seq = [("request", i + 1, dict({"args": a}, **({"fail_delay": fd} if fd else {}))) for i, a in enumerate(combo)]
        ops += seq + list(e)
        return compare(world, tuple(ops), st, True)

    fams.append(Family("full_queue", cases, full, "one process holds everything, 3 others wait with every combination of quantities/priorities, then it lets go in several ways", driver.setup))
    # two resources, the second of any kind: one process holds everything of the first, 3 (4) others wait for one, the other, both or either
    reqs = [
        {"args": ((0, 1),)},
        {"args": ((0, 1), (1, 1))},
        {"args": ((1, 1), (0, 1))},
        {"args": ((0, 1), (0, 1))},
        {"args": ((1, 1, -1), (0, 1, 1), (1, 1))},
        {"args": ((1, 2), (0, 1)), "oneof": True},
        {"args": ((0, 2), (1, 1))},
        {"args": ((1, 1),)},
    ]
    ends = [
        (("release", 0, {}), ("nop", None, {})),
        (("release", 0, {"args": ((1, 1),)}), ("release", 0, {"args": ((0, 2),)}), ("release", 0, {})),
        (("release", 0, {"args": ((0,),)}), ("release", 0, {})),
        (("set_capacity", None, {"r": 0, "cap": 5}), ("set_capacity", None, {"r": 1, "cap": 4}), ("release", 0, {})),
    ]
    two = [({}, {"honor_only_first": True}), ({"honor_only_first": True}, {}), ({}, {"honor_only_highest_priority": True}), ({"honor_only_highest_priority": True}, {"honor_only_first": True}), ({}, {})]
    cases = [(a, b, combo, e) for a, b in two for combo in itertools.product(range(len(reqs)), repeat=4 if th else 3) for e in range(len(ends))]

    def full2(case, st):
        a, b, combo, e = case
        n = len(combo) + 1
        world = dict(ncomp=n, resources=(dict(capacity=3, **a), dict(capacity=2, **b)))
        ops = list(start(n)) + [("request", 0, {"args": ((0, 3), (1, 1 if e < 2 else 2))})]
        ops += [("request", i + 1, reqs[k]) for i, k in enumerate(combo)]
        return compare(world, tuple(ops) + ends[e], st, True)

    fams.append(Family("full_queue_two", cases, full2, "two resources of any two disciplines, one process holds, 3 (4) others wait for one, both, either or twice the same", driver.setup))
    # many requesters
    cases = [(n, cap, tuple(sorted(x.items())), pat) for n in (9, 12, 20) for cap in (1, 4, 15) for x in ({}, {"honor_only_first": True}, {"honor_only_highest_priority": True}) for pat in range(6)]

    def many(case, st):
        n, cap, extra, pat = case
        world = dict(ncomp=n, resources=(dict(capacity=cap, **dict(extra)),))
        q = [lambda i: 1, lambda i: 1 + i % 3, lambda i: 1 + (n - i) % 4, lambda i: 1 + (i % 2) * 3, lambda i: 1 + i // 4, lambda i: 1 + (i * 5) % 7][pat]
        p = [lambda i: 0, lambda i: i % 2, lambda i: -(i % 3), lambda i: 0, lambda i: n - i, lambda i: (i * 7) % 5][pat]
        ops = list(start(n)) + [("request", 0, {"args": ((0, cap),)})]
        ops += [("request", i, {"args": ((0, q(i), p(i)),)}) for i in range(1, n)]
        ops += [("release", 0, {})]
        if cap > 1:
            ops += [("cancel", 2, {}), ("set_capacity", None, {"r": 0, "cap": cap + 3})]
        ops += [("nop", None, {})] * 2
        return compare(world, tuple(ops), st, True)

    fams.append(Family("many", cases, many, "8-19 waiting requests of mixed quantities and priorities", driver.setup))
    return fams
