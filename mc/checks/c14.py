"""C14: stores."""

import itertools
import math

from mc import driver
from mc.core import Family
from mc.driver import history_family, compare
from mc.ops import enabled_fn, RUN1, RUN, END
from mc.refsim import MAIN

inf = math.inf
PROPERTY = "C14"
ASSUMPTIONS = ["2-4 processes, 1-2 stores, 2-4 items, histories of 4-6 operations; an item is offered to one store at a time"]


def start(n):
    return tuple(("activate", i, {}) for i in range(n)) + (RUN1,)


def legal(m, op):
    name, i, kw = op
    if name in ("to_store", "item_enter"):
        it = kw["item"]
        if any(e[0] == it for s in m.sto for e in s.items):
            return False
        if any(c.to_item == it and c.to_stores for c in m.comps):
            return False
    if name == "item_leave" and not any(e[0] == kw["item"] for e in m.sto[kw["s"]].items):
        return False
    if i is None:
        return True
    if name == "filter":
        return bool(m.comps[i].from_stores)
    return i == m.current or name in ("cancel", "activate")


def legal_errors(m, op):
    """also the ones that must be refused"""
    name, i, kw = op
    if name in ("to_store",):
        it = kw["item"]
        if any(c.to_item == it and c.to_stores for c in m.comps):
            return False
    return i is None or i == m.current


def families(tier):
    th = tier == "thorough"
    fams = []
    per = [
        ("from_store", {"stores": (0,)}),
        ("from_store", {"stores": (0,), "filter": "i1", "fail_delay": 1}),
        ("from_store", {"stores": (0,), "filter": "not0", "request_priority": -1}),
        ("to_store", {"stores": (0,), "item": 0}),
        ("to_store", {"stores": (0,), "item": 1, "fail_delay": 1}),
        ("to_store", {"stores": (0,), "item": 2, "request_priority": -1, "priority": -1}),
        ("hold", {"duration": 1}),
        ("activate", {}),
        ("cancel", {}),
    ]
    glob = [("item_enter", None, {"item": 1, "s": 0}), ("item_leave", None, {"item": 0, "s": 0}), ("store_capacity", None, {"s": 0, "cap": 2})]
    fams.append(
        history_family(
            "one_store_cap1",
            dict(ncomp=3, nitems=3, stores=(dict(capacity=1),)),
            enabled_fn(per, glob, (RUN1,), (END,), 3, legal),
            6 if th else 5,
            "3 processes, 3 items, 1 store of capacity 1, 5 (6) operations",
            prefix=start(3),
            paths=not th,
        )
    )
    fams.append(
        history_family(
            "one_store_unbounded",
            dict(ncomp=3, nitems=3, stores=(dict(),)),
            enabled_fn(per, glob[:2] + [("store_capacity", None, {"s": 0, "cap": 1}), ("item_enter", None, {"item": 2, "s": 0, "priority": -1})], (RUN1,), (END,), 3, legal),
            5 if th else 4,
            "3 processes, 3 items, 1 store without capacity limit, 4 (5) operations",
            prefix=start(3),
            paths=True,
            yieldless="both",
        )
    )
    per = [
        ("from_store", {"stores": (0, 1)}),
        ("from_store", {"stores": (1, 0), "filter": "not0", "fail_delay": 1}),
        ("from_store", {"stores": (0, 1), "key": "neg"}),
        ("from_store", {"stores": (1,), "key": "id", "request_priority": -1}),
        ("to_store", {"stores": (0, 1), "item": 0}),
        ("to_store", {"stores": (1, 0), "item": 1, "fail_delay": 1}),
        ("to_store", {"stores": (1,), "item": 2}),
        ("hold", {"duration": 1}),
    ]
    fams.append(
        history_family(
            "two_stores",
            dict(ncomp=3, nitems=3, stores=(dict(capacity=1), dict(capacity=1))),
            enabled_fn(per, [("item_leave", None, {"item": 1, "s": 0}), ("store_capacity", None, {"s": 1, "cap": 2})], (RUN1,), (END,), 3, legal),
            6 if th else 5,
            "3 processes, 3 items, 2 stores of capacity 1, 5 (6) operations",
            prefix=start(3),
        )
    )
    per = [
        ("from_store", {"stores": (0,), "filter": "none"}),
        ("from_store", {"stores": (0, 1), "filter": "i2"}),
        ("filter", {"filter": "i1"}),
        ("filter", {"filter": "not0"}),
        ("filter", {"filter": "any"}),
        ("to_store", {"stores": (0,), "item": 0}),
        ("to_store", {"stores": (0,), "item": 1}),
        ("to_store", {"stores": (1,), "item": 2}),
        ("hold", {"duration": 1}),
    ]
    fams.append(
        history_family(
            "filters",
            dict(ncomp=3, nitems=3, stores=(dict(capacity=2), dict())),
            enabled_fn(per, [("rescan", None, {"s": 0})], (RUN1,), (END,), 3, legal),
            6 if th else 5,
            "filters that are changed while waiting, 5 (6) operations",
            prefix=start(3),
        )
    )
    per = [
        ("from_store", {"stores": (0,), "filter": "flag"}),
        ("from_store", {"stores": (1, 0), "filter": "flag", "key": "neg", "fail_delay": 1}),
        ("to_store", {"stores": (0,), "item": 2}),
        ("to_store", {"stores": (1,), "item": 3}),
        ("hold", {"duration": 1}),
    ]
    glob = [("flag", None, {"value": v}) for v in (0, 2, 9)] + [("rescan", None, {"s": 0}), ("rescan", None, {"s": 1}), ("item_enter", None, {"item": 2, "s": 1, "priority": -1})]
    fill = (("item_enter", None, {"item": 0, "s": 0}), ("item_enter", None, {"item": 1, "s": 0}), ("item_enter", None, {"item": 4, "s": 1}))
    fams.append(
        history_family(
            "outside",
            dict(ncomp=2, nitems=5, stores=(dict(), dict(capacity=2))),
            enabled_fn(per, glob, (RUN1,), (), 2, legal),
            6 if th else 5,
            "filters that depend on something outside the stores, with and without rescan, 5 (6) operations",
            prefix=fill + start(2),
        )
    )
    per = [("to_store", {"stores": (0,), "item": 2}), ("to_store", {"stores": (0, 1), "item": 3}), ("from_store", {"stores": (0,)}), ("hold", {"duration": 1})]
    glob = [("store_capacity", None, {"s": 0, "cap": c}) for c in (0, 1, 2, 3, inf)] + [("item_leave", None, {"item": 0, "s": 0}), ("item_enter", None, {"item": 4, "s": 0})]
    fill = (("item_enter", None, {"item": 0, "s": 0}), ("item_enter", None, {"item": 1, "s": 0}), ("item_enter", None, {"item": 5, "s": 1}))
    fams.append(
        history_family(
            "capacities",
            dict(ncomp=2, nitems=6, stores=(dict(capacity=3), dict(capacity=1))),
            enabled_fn(per, glob, (RUN1,), (), 2, legal),
            6 if th else 5,
            "a filled store of which the capacity goes up and down, also below the number of items, 5 (6) operations",
            prefix=fill + start(2),
            yieldless="both",
        )
    )
    per = [("to_store", {"stores": (0,), "item": 0}), ("from_store", {"stores": (0,)}), ("hold", {"duration": 1})]
    glob = [("item_enter", None, {"item": i, "s": 0}) for i in (0, 1)] + [("item_leave", None, {"item": i, "s": 0}) for i in (0, 1)]
    fams.append(
        history_family(
            "refused",
            dict(ncomp=1, nitems=2, stores=(dict(capacity=1),)),
            enabled_fn(per, glob, (RUN1,), (END,), 1, legal_errors),
            5 if th else 4,
            "operations that must be refused (entering twice, exceeding the capacity, leaving when absent)",
            prefix=start(1),
        )
    )
    # queues of waiting requesters and one event that sets off a chain
    F = ["any", "i0", "not0", "i2"]
    froms = [("from_store", {"stores": s, "filter": f}) for s in ((0,), (0, 1), (1, 0)) for f in F]
    tos = [("to_store", {"stores": s, "item": None}) for s in ((0,), (1, 0), (0, 1))]
    events = [("item_enter", None, {"item": 4, "s": 0}), ("item_leave", None, {"item": 3, "s": 0}), ("store_capacity", None, {"s": 0, "cap": 2}), ("filter", 0, {"filter": "any"}), ("cancel", 1, {}), ("rescan", None, {"s": 0})]
    cases = []
    n = 3
    for full in (0, 1, 2):
        for combo in itertools.product(range(len(froms) + len(tos)), repeat=n):
            for e in range(len(events)):
                if not th and len(set(combo)) < 2:
                    continue
                if not th and sum(c >= len(froms) for c in combo) not in (1, 2):
                    continue
                cases.append((full, combo, e))

    def chain(case, st):
        full, combo, e = case
        world = dict(ncomp=n, nitems=5, stores=(dict(capacity=1), dict(capacity=1)))
        ops = ()
        if full:
            ops += (("item_enter", None, {"item": 3, "s": 0}),)
        if full == 2:
            ops += (("item_enter", None, {"item": 4, "s": 1}),)
        ops += start(n)
        for i, c in enumerate(combo):
            op = (froms + tos)[c]
            kw = op[1]
            if op[0] == "to_store":
                kw = dict(kw, item=i)
            ops += ((op[0], i, kw),)
        ops = list(ops)
        # the event is done by whoever is in control then; only if it is allowed there
        from mc.refsim import RefSim

        m = RefSim(world)
        for op in ops:
            if op[1] is not None and op[1] >= 0 and op[0] not in ("activate",) and op[1] != m.current:
                break
            m.apply(op)
            if m.err:
                break
        else:
            if legal(m, events[e]) and events[e][0] != "cancel" or events[e][0] == "cancel":
                ops.append(events[e])
        return compare(world, tuple(ops), st, True)

    fams.append(Family("chains", cases, chain, "3 waiting requesters of every kind on 2 stores, then one event that may set off a chain of hand-overs", driver.setup))
    return fams
