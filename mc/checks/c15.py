"""C15: timeouts and withdrawal of requests, waits, from_store and to_store."""

import itertools
import math

from mc import driver
from mc.core import Family
from mc.driver import history_family, compare
from mc.ops import enabled_fn, RUN1, RUN, END

inf = math.inf
PROPERTY = "C15"
ASSUMPTIONS = ["3 processes, 1-2 resources/states/stores, histories of 4-6 operations after a start-up prefix in which one process blocks the others"]

TAKE = [
    ("activate", {}),
    ("activate", {"delay": 1}),
    ("hold", {"duration": 1}),
    ("passivate", {}),
    ("cancel", {}),
    ("standby", {}),
    ("interrupt", {}),
    ("resume", {}),
]


def start(n):
    return tuple(("activate", i, {}) for i in range(n)) + (RUN1,)


def blockers(name, variants):
    return [(name, v) for v in variants]


def rule(block, free):
    """blocking calls and freeing by the process itself; takeovers of others only"""

    def legal(m, op):
        name, i, kw = op
        if i is None:
            return True
        if name in block or name in free:
            return i == m.current
        if name == "hold" and i == m.current:
            return True
        if name == "cancel" and i == m.current:
            return False
        return i != m.current and i != 0

    return legal


def timeouts(base, key="priority"):
    out = [dict(base)]
    out.append(dict(base, fail_delay=0))
    out.append(dict(base, fail_delay=1))
    out.append(dict(base, fail_at=2, **{key: 1}))
    out.append(dict(base, fail_at=2, urgent=True))
    return out


def families(tier):
    th = tier == "thorough"
    fams = []
    # ---- resources
    world = dict(ncomp=3, resources=(dict(), dict(capacity=2)))
    prefix = start(3) + (("request", 0, {"args": ((0,),)}),)
    per = blockers("request", timeouts({"args": ((0,),)})) + [
        ("request", {"args": ((1,), (0,)), "fail_delay": 1}),
        ("request", {"args": ((1, 2), (0, 1, -1)), "oneof": True, "fail_delay": 1, "mode": "m"}),
        ("release", {}),
        ("hold", {"duration": 1}),
    ]
    legal = rule(("request",), ("release",))
    fams.append(
        history_family(
            "request",
            world,
            enabled_fn(per + TAKE[:2] + TAKE[3:5] + TAKE[6:], (), (RUN1,), (END,), 3, legal),
            5 if th else 4,
            "requests with every kind of timeout behind a holder, takeovers by another process, 4 (5) operations",
            prefix=prefix,
        )
    )
    per = [
        ("request", {"args": ((0,),), "fail_delay": 1}),
        ("request", {"args": ((0,),), "fail_at": 2, "request_priority": -1, "priority": 1}),
        ("request", {"args": ((0,), (1,))}),
        ("release", {}),
        ("hold", {"duration": 1}),
        ("interrupt", {}),
        ("resume", {}),
        ("activate", {}),
        ("cancel", {}),
    ]
    fams.append(
        history_family(
            "request_deep",
            world,
            enabled_fn(per, (), (RUN1,), (END,), 3, legal),
            7 if th else 6,
            "few requests, 6 (7) operations",
            prefix=prefix,
        )
    )
    # anonymous
    per = blockers("get", timeouts({"args": ((0, 1),)})[1:]) + [
        ("put", {"args": ((0, 2),), "fail_delay": 1}),
        ("put", {"args": ((0, 1),)}),
        ("get", {"args": ((0, 2),)}),
        ("hold", {"duration": 1}),
        ("activate", {}),
        ("cancel", {}),
        ("interrupt", {}),
        ("resume", {}),
    ]
    fams.append(
        history_family(
            "anonymous",
            dict(ncomp=3, resources=(dict(anonymous=True, capacity=2, initial_claimed_quantity=1),)),
            enabled_fn(per, (), (RUN1,), (END,), 3, rule(("get", "put"), ())),
            6 if th else 4,
            "get and put with timeouts",
            prefix=start(3),
        )
    )
    # ---- states
    per = blockers("wait", timeouts({"args": ((0,),)})) + [
        ("wait", {"args": ((0,), (1, ("value", 2))), "all": True, "fail_delay": 1, "mode": "w"}),
        ("wait", {"args": ((0, ("value", 1), -1), (1, ("fn_ge", 2))), "fail_delay": 1}),
        ("wait_for", {"cond": ("sum_ge", 3), "states": (0, 1), "fail_delay": 1}),
        ("hold", {"duration": 1}),
    ]
    glob = [("set", None, {"s": 0, "value": 1}), ("set", None, {"s": 1, "value": 2}), ("trigger", None, {"s": 0, "value": 1, "max": 1})]
    fams.append(
        history_family(
            "wait",
            dict(ncomp=3, states=(dict(value=0), dict(value=0))),
            enabled_fn(per + TAKE[:2] + TAKE[3:5] + TAKE[6:], glob, (RUN1,), (END,), 3, rule(("wait", "wait_for"), ())),
            5 if th else 4,
            "waits with every kind of timeout, takeovers by another process, 4 (5) operations",
            prefix=start(3),
        )
    )
    # ---- stores
    per = blockers("from_store", timeouts({"stores": (0,)}, "fail_priority")[1:]) + [
        ("from_store", {"stores": (0, 1), "filter": "i1", "fail_delay": 1}),
        ("to_store", {"stores": (0,), "item": 0}),
        ("to_store", {"stores": (1,), "item": 1, "fail_delay": 1}),
        ("hold", {"duration": 1}),
    ]

    def store_legal(m, op):
        name, i, kw = op
        if name == "to_store":
            it = kw["item"]
            if any(e[0] == it for s in m.sto for e in s.items) or any(c.to_item == it and c.to_stores for c in m.comps):
                return False
        return rule(("from_store", "to_store"), ())(m, op)

    fams.append(
        history_family(
            "from_store",
            dict(ncomp=3, nitems=2, stores=(dict(), dict())),
            enabled_fn(per + TAKE[:1] + TAKE[3:5] + TAKE[6:], (), (RUN1,), (END,), 3, store_legal),
            6 if th else 4,
            "from_store with every kind of timeout, takeovers, 4 (6) operations",
            prefix=start(3),
        )
    )
    per = [("to_store", dict(stores=(0,), item=it, **kw)) for it in (0, 1) for kw in ({"fail_delay": 0}, {"fail_delay": 1}, {"fail_at": 2, "fail_priority": 1}, {"fail_at": 2, "urgent": False})] + [
        ("to_store", {"stores": (0, 1), "item": 2, "fail_delay": 1}),
        ("from_store", {"stores": (0,)}),
        ("from_store", {"stores": (0, 1), "filter": "i1", "fail_delay": 1}),
        ("hold", {"duration": 1}),
    ]
    fams.append(
        history_family(
            "to_store",
            dict(ncomp=3, nitems=4, stores=(dict(capacity=1), dict(capacity=1))),
            enabled_fn(per + TAKE[:1] + TAKE[3:5] + TAKE[6:], (("store_capacity", None, {"s": 0, "cap": 2}),), (RUN1,), (END,), 3, store_legal),
            5 if th else 4,
            "to_store with every kind of timeout, takeovers, 4 (5) operations",
            prefix=start(3) + (("item_enter", None, {"item": 3, "s": 0}),),
        )
    )
    def mixed_legal(m, op):
        name, i, kw = op
        if name == "to_store":
            it = kw["item"]
            if any(e[0] == it for s in m.sto for e in s.items) or any(c.to_item == it and c.to_stores for c in m.comps):
                return False
        if name in ("from_store", "to_store", "request", "wait", "release"):
            return i == m.current
        return True

    # ---- a request, wait, from_store or to_store over three of them is withdrawn; everybody behind it gets a chance
    WAYS = [
        None,
        (("cancel", 1, {}),),
        (("activate", 1, {}),),
        (("passivate", 1, {}),),
        (("hold", 1, {"duration": 1}),),
        (("standby", 1, {}),),
        (("activate", 1, {"process": "alt"}),),
        (("interrupt", 1, {}), ("resume", 1, {})),
        (("interrupt", 1, {}), ("activate", 1, {})),
        (("interrupt", 1, {}), ("cancel", 1, {})),
    ]
    kinds = [{}, {"honor_only_first": True}, {"honor_only_highest_priority": True}]
    behind = [((0,),), ((1,),), ((2,),), ((2,), (1,)), ((0, 1, -1),)]
    cases = []
    for ks in itertools.product(range(3), repeat=3) if th else ((0, 0, 0), (1, 1, 1), (2, 2, 2), (0, 1, 2), (1, 1, 0)):
        for args in (((0, 2), (1, 2), (2, 2)), ((2, 2), (0, 2)), ((1, 2), (0, 2)), ((1, 2), (2, 1), (0, 2))):
            for b in itertools.product(range(len(behind)), repeat=2):
                for w in range(len(WAYS)):
                    cases.append(("request", ks, args, b, w))

    def withdrawn(case, st):
        kind = case[0]
        if kind == "request":
            _, ks, args, b, w = case
            world = dict(ncomp=4, resources=tuple(dict(capacity=2, **kinds[k]) for k in ks))
            ops = start(4) + (("request", 0, {"args": ((0,), (1,), (2,))}),)
            ops += (("request", 1, dict({"args": args}, **({"fail_delay": 1} if w == 0 else {}))),)
            ops += tuple(("request", 2 + i, {"args": behind[k]}) for i, k in enumerate(b))
        elif kind == "to_store":
            _, stores, b, w = case
            world = dict(ncomp=4, nitems=7, stores=tuple(dict(capacity=1) for _ in range(3)))
            ops = start(4) + tuple(("item_enter", None, {"item": i, "s": i}) for i in range(3))
            ops += (("to_store", 1, dict({"stores": stores, "item": 3}, **({"fail_delay": 1} if w == 0 else {}))),)
            ops += tuple(("to_store", 2 + i, {"stores": s, "item": 4 + i}) for i, s in enumerate(b))
        elif kind == "from_store":
            _, stores, b, w = case
            world = dict(ncomp=4, nitems=3, stores=(dict(), dict(), dict()))
            ops = start(4)
            ops += (("from_store", 1, dict({"stores": stores}, **({"fail_delay": 1} if w == 0 else {}))),)
            ops += tuple(("from_store", 2 + i, {"stores": s}) for i, s in enumerate(b))
        else:
            _, ss, al, b, w = case
            world = dict(ncomp=4, states=(dict(value=0), dict(value=0), dict(value=0)))
            ops = start(4)
            ops += (("wait", 1, dict({"args": tuple((s, ("value", 1)) for s in ss), "all": al}, **({"fail_delay": 1} if w == 0 else {}))),)
            ops += tuple(("wait", 2 + i, {"args": tuple((s, ("value", 1)) for s in x)}) for i, x in enumerate(b))
        # main gets control after everybody is asking
        ops += WAYS[w] if WAYS[w] else (("hold", 0, {"duration": 2}),)
        if kind == "request":
            ops += (("release", 0, {"args": ((0,),)}), ("release", 0, {"args": ((1,),)}), ("release", 0, {}))
        elif kind == "to_store":
            ops += tuple(("item_leave", None, {"item": i, "s": i}) for i in range(3))
        elif kind == "from_store":
            ops += tuple(("item_enter", None, {"item": i, "s": i}) for i in range(3))
        else:
            ops += tuple(("set", None, {"s": s, "value": 1}) for s in range(3))
        return compare(world, ops, st, True)

    for stores in ((0, 1, 2), (2, 0, 1), (1, 0), (2, 1)):
        for b in itertools.product(((0,), (1,), (2,), (1, 2)), repeat=2):
            for w in range(len(WAYS)):
                cases.append(("to_store", stores, b, w))
                cases.append(("from_store", stores, b, w))
                cases += [("wait", stores, al, b, w) for al in (False, True)]
    fams.append(Family("withdrawn", cases, withdrawn, "something asked from 2-3 resources, stores or states at once is withdrawn in every way, with two others behind it", driver.setup))
    # ---- fail_at is a time on the clock, which may have been reset
    per = []
    for t in (12, 13):
        per += [
            ("request", {"args": ((0,),), "fail_at": t}),
            ("get", {"args": ((1, 2),), "fail_at": t}),
            ("wait", {"args": ((0, ("value", 5)),), "fail_at": t}),
            ("wait_for", {"cond": ("sum_ge", 3), "states": (0,), "fail_at": t}),
            ("from_store", {"stores": (0,), "fail_at": t}),
            ("to_store", {"stores": (1,), "item": 0, "fail_at": t}),
        ]
    per += [("request", {"args": ((0,),), "fail_delay": 1}), ("wait_for", {"cond": ("sum_ge", 3), "states": (0,), "fail_delay": 1}), ("hold", {"duration": 1}), ("interrupt", {}), ("resume", {})]
    for shift, offs in (("later", 11), ("earlier", -5)):
        fams.append(
            history_family(
                "clock_reset_" + shift,
                dict(ncomp=2, nitems=1, resources=(dict(capacity=0), dict(anonymous=True, capacity=1)), states=(dict(value=0),), stores=(dict(), dict(capacity=0)), track_offset=True),
                enabled_fn(per, (("reset_now", None, {"new_now": 0}), ("set", None, {"s": 0, "value": 5})), (RUN1, ("run", None, {"till": 12})), (END,), 2, mixed_legal),
                4 if th else 3,
                "time limits as a point in time after the clock has been reset",
                prefix=start(2) + (("hold", 0, {"duration": 2}), ("reset_now", None, {"new_now": offs})),
            )
        )
    # ---- everything at once, generator processes
    per = [
        ("request", {"args": ((0,),), "fail_delay": 1}),
        ("wait", {"args": ((0,),), "fail_delay": 1}),
        ("from_store", {"stores": (0,), "fail_delay": 1}),
        ("to_store", {"stores": (0,), "item": 0, "fail_delay": 1}),
        ("release", {}),
        ("hold", {"duration": 1}),
        ("standby", {}),
        ("hold", {"duration": 0}),
        ("passivate", {}),
        ("activate", {}),
        ("interrupt", {}),
        ("resume", {}),
    ]

    fams.append(
        history_family(
            "mixed_yield",
            dict(ncomp=2, nitems=2, resources=(dict(),), states=(dict(value=0),), stores=(dict(capacity=1),)),
            enabled_fn(per, (("set", None, {"s": 0, "value": 1}), ("item_enter", None, {"item": 1, "s": 0}) ,), (RUN1,), (END,), 2, lambda m, op: mixed_legal(m, op) if op[0] != "item_enter" else not m.sto[0].items),
            6 if th else 5,
            "2 generator processes, all kinds of blocking, takeovers, 5 (6) operations",
            prefix=start(2),
            yieldless=False,
        )
    )
    return fams
