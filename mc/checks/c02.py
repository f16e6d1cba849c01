"""C02: the component life cycle (status machine)."""

import math

from mc import driver
from mc.driver import history_family
from mc.ops import product_kw, on, enabled_fn, RUN1, RUN, END

inf = math.inf
PROPERTY = "C02"
SLACK = 1
ASSUMPTIONS = [
    "1-3 processes, one resource, one state, one store; histories of 3-5 operations, each issued by whichever process has control",
    "after an operation that is refused with an exception the history ends (only the refusal itself is checked)",
]


def families(tier):
    th = tier == "thorough"
    fams = []
    world = dict(ncomp=2, resources=(dict(capacity=1),), states=(dict(),), stores=(dict(capacity=1),), nitems=1)
    R = {"args": ((0,),)}
    per = [
        ("activate", {}),
        ("activate", {"delay": 1}),
        ("activate", {"process": "alt"}),
        ("activate", {"keep_request": True, "delay": 1}),
        ("activate", {"keep_wait": True, "delay": 1}),
        ("hold", {"duration": 1}),
        ("hold", {}),
        ("passivate", {}),
        ("cancel", {}),
        ("standby", {}),
        ("interrupt", {}),
        ("resume", {}),
        ("request", R),
        ("request", dict(R, fail_delay=1)),
        ("wait", R),
        ("wait", dict(R, fail_delay=1)),
        ("from_store", {"stores": (0,)}),
        ("from_store", {"stores": (0,), "fail_delay": 1}),
        ("to_store", {"stores": (0,), "item": 0, "fail_delay": 1}),
        ("release", {}),
        ("remaining_duration", {"value": 2}),
    ]
    legal = lambda m, op: not (
        (op[0] == "to_store" and (any(op[2]["item"] == e[0] for s in m.sto for e in s.items) or any(op[2]["item"] == c.to_item for c in m.comps if c.to_stores)))
        or (op[0] == "remaining_duration" and m.comps[op[1]].status == "data")
        or (op[0] == "item_enter" and (m.sto[0].items or any(c.to_stores for c in m.comps)))
    )
    common = (("set", None, {"s": 0}), ("reset", None, {"s": 0}), ("item_enter", None, {"item": 0, "s": 0}))
    fams.append(
        history_family(
            "pair",
            world,
            enabled_fn(per, common, (RUN1, RUN), (END,), 2, legal),
            5 if th else 4,
            "2 processes, all process-interaction operations on either, from every state reachable in 3 (4) operations",
        )
    )
    fams.append(
        history_family(
            "pair_yield",
            world,
            enabled_fn(per, common, (RUN1, RUN), (END,), 2, legal),
            4 if th else 3,
            "the same with generator (yield) processes",
            yieldless=False,
        )
    )
    # one process, longer histories, nothing merged: hidden state left behind by earlier operations
    per1 = [
        ("activate", {}),
        ("activate", {"process": "alt"}),
        ("hold", {"duration": 1}),
        ("passivate", {}),
        ("cancel", {}),
        ("standby", {}),
        ("interrupt", {}),
        ("resume", {}),
        ("request", dict(R, fail_delay=1)),
        ("wait", dict(R, fail_delay=1)),
        ("release", {}),
        ("from_store", {"stores": (0,), "fail_delay": 1}),
    ]
    fams.append(
        history_family(
            "single_all_sequences",
            dict(world, ncomp=1),
            enabled_fn(per1, (("set", None, {"s": 0}),), (RUN1,), (END,), 1),
            5 if th else 4,
            "1 process, every history of 4 (5) operations after its activation, without merging states",
            dedupe=False,
            prefix=(("activate", 0, {}),),
        )
    )
    fams.append(
        history_family(
            "single_yield_restart",
            dict(world, ncomp=1),
            enabled_fn(
                [("activate", {}), ("activate", {"process": "alt"}), ("activate", {"process": "process"}), ("hold", {"duration": 1}), ("passivate", {}), ("cancel", {}), ("interrupt", {}), ("wait", dict(R, fail_delay=1))],
                (),
                (RUN1,),
                (END,),
                1,
            ),
            6 if th else 5,
            "1 generator process, (re)started with each of its processes, every history of 5 (6) operations",
            dedupe=False,
            prefix=(("activate", 0, {}),),
            yieldless=False,
        )
    )
    # modes
    perm = [
        (n, dict(kw, mode=m))
        for n, kw in (
            ("activate", {}),
            ("hold", {"duration": 1}),
            ("passivate", {}),
            ("cancel", {}),
            ("standby", {}),
            ("interrupt", {}),
            ("resume", {}),
            ("request", R),
            ("wait", R),
            ("from_store", {"stores": (0,)}),
            ("to_store", {"stores": (0,), "item": 0}),
            ("set_mode", {}),
        )
        for m in ("a", "")
    ] + [("activate", {}), ("hold", {"duration": 1}), ("passivate", {})]
    fams.append(
        history_family(
            "modes",
            dict(world, ncomp=1),
            enabled_fn(perm, (), (RUN1,), (END,), 1, legal),
            5 if th else 4,
            "mode and mode_time under every operation",
        )
    )
    if th:
        fams.append(
            history_family(
                "triple",
                dict(world, ncomp=3),
                enabled_fn(per1, common, (RUN1, RUN), (END,), 3, legal),
                4,
                "3 processes, 4 operations",
            )
        )
    from mc import owned
    from mc.core import Family

    fams.append(Family("monitors", owned.component_cases(4 if th else 3), owned.component, "the mode and status monitors against plain models: all histories of 3 (4) changes, switches and resets", owned.setup))
    return fams
