"""C05: points in time: at/delay/till/duration/fail_at/fail_delay, scheduling in the past, run limits, reset_now."""

import math

from mc import driver
from mc.driver import history_family
from mc.ops import product_kw, on, enabled_fn, RUN1, RUN, END

inf = math.inf
PROPERTY = "C05"
ASSUMPTIONS = ["1-2 processes, histories of 3-5 operations, times from {-1, 0, 0.5, 1, 2, 3, inf}, clock resets to {0, 10, -5}"]


def families(tier):
    th = tier == "thorough"
    fams = []
    CAP = (None, True, False)
    per = []
    per += [("activate", kw) for kw in product_kw(at=(0, 1, 2), cap_now=CAP)]
    per += [("activate", kw) for kw in product_kw(delay=(-1, 1, inf), cap_now=(None, True))]
    per += [("activate", {"at": 1, "delay": 1}), ("activate", {"at": 2, "delay": -1}), ("activate", {"at": inf})]
    per += [("hold", kw) for kw in product_kw(till=(0, 1, 2), cap_now=CAP)]
    per += [("hold", kw) for kw in product_kw(duration=(-1, 0, 1, inf), cap_now=(None, True))]
    per += [("hold", {"till": inf}), ("hold", {"duration": 1, "till": 2})]
    R = {"args": ((0,),)}
    for name in ("request", "wait"):
        per += [(name, dict(R, **kw)) for kw in product_kw(fail_at=(0, 1, 2), cap_now=(None, True))]
        per += [(name, dict(R, **kw)) for kw in product_kw(fail_delay=(-1, 1, inf), cap_now=(None, True))]
        per += [(name, dict(R, fail_delay=1, fail_at=1))]
    per += [("from_store", dict(stores=(0,), **kw)) for kw in product_kw(fail_at=(0, 1, 2), cap_now=(None, True))]
    per += [("from_store", dict(stores=(0,), fail_delay=1)), ("from_store", dict(stores=(0,), fail_delay=-1)), ("from_store", dict(stores=(0,), fail_delay=1, fail_at=1))]
    per += [("to_store", dict(stores=(1,), item=0, **kw)) for kw in product_kw(fail_at=(0, 1, 2), cap_now=(None, True))]
    per += [("to_store", dict(stores=(1,), item=0, fail_delay=1))]
    runs = [("run", None, kw) for kw in product_kw(till=(0, 1, 2), cap_now=(None, True))]
    runs += [("run", None, {"duration": 1}), ("run", None, {"duration": 0.5}), ("run", None, {"duration": -1}), ("run", None, {"duration": -1, "cap_now": True}), RUN]
    runs += [("run", None, {"duration": 1, "till": 2})]
    resets = [("reset_now", None, {}), ("reset_now", None, {"new_now": 10}), ("reset_now", None, {"new_now": -5})]
    world = dict(ncomp=1, resources=(dict(capacity=0),), states=(dict(),), stores=(dict(), dict(capacity=0)), nitems=1, track_offset=True)
    legal = lambda m, op: not (op[0] == "run" and m.now == inf)
    for cap in (False, True):
        fams.append(
            history_family(
                "single" + ("_default_cap_now" if cap else ""),
                dict(world, cap_now=cap),
                enabled_fn(per, (), tuple(runs), (END,), 1, legal),
                4 if th else 3,
                "every way to specify a point in time, before, at and after now",
                prefix=(("activate", 0, {}), ("run", None, {"till": 1})),
            )
        )
    pershift = [
        ("activate", {"at": 1}),
        ("activate", {"at": 12}),
        ("activate", {"delay": 1}),
        ("hold", {"till": 12}),
        ("hold", {"till": 2}),
        ("hold", {"duration": 1}),
        ("request", dict(R, fail_at=12)),
        ("request", dict(R, fail_delay=1)),
        ("wait", dict(R, fail_at=2)),
        ("wait", dict(R, fail_at=12)),
        ("from_store", dict(stores=(0,), fail_at=12)),
        ("to_store", dict(stores=(1,), item=0, fail_at=12)),
        ("interrupt", {}),
        ("resume", {}),
        ("remaining_duration", {"value": 1}),
        ("standby", {}),
        ("passivate", {"mode": "m"}),
    ]
    shiftruns = (("run", None, {"till": 12}), ("run", None, {"till": 2}), ("run", None, {"duration": 1}))
    fams.append(
        history_family(
            "reset_now",
            world,
            enabled_fn(pershift, tuple(resets), shiftruns, (END,), 1),
            5 if th else 4,
            "clock resets between every two operations of histories of 4 (5) operations",
            prefix=(("activate", 0, {"delay": 1}),),
        )
    )
    # times given as functions and as distributions
    perf = []
    for kind in ("fn", "dist"):
        t = lambda v: (kind, v)
        perf += [
            ("activate", {"at": t(2)}),
            ("activate", {"delay": t(1)}),
            ("activate", {"at": t(1), "delay": t(1)}),
            ("hold", {"duration": t(1)}),
            ("hold", {"till": t(2)}),
            ("request", dict(R, fail_at=t(2))),
            ("request", dict(R, fail_delay=t(1))),
            ("wait", dict(R, fail_at=t(2))),
            ("wait", dict(R, fail_delay=t(1))),
            ("wait_for", dict(states=(0,), cond=("sum_ge", 1), fail_at=t(2))),
            ("wait_for", dict(states=(0,), cond=("sum_ge", 1), fail_delay=t(1))),
            ("from_store", dict(stores=(0,), fail_at=t(2))),
            ("from_store", dict(stores=(0,), fail_delay=t(1))),
            ("to_store", dict(stores=(1,), item=0, fail_at=t(2))),
            ("to_store", dict(stores=(1,), item=0, fail_delay=t(1))),
        ]
    fruns = [("run", None, {"duration": (k, 1)}) for k in ("fn", "dist")] + [("run", None, {"till": (k, 2)}) for k in ("fn", "dist")]
    fams.append(
        history_family(
            "callables",
            dict(world, cap_now=True),
            enabled_fn(perf, (("reset_now", None, {"new_now": -1}),), tuple(fruns), (END,), 1),
            4 if th else 3,
            "times given as callables and distributions",
            prefix=(("activate", 0, {}),),
        )
    )
    fams.append(
        history_family(
            "create",
            dict(world, absent=(0,)),
            enabled_fn(
                [("create", kw) for kw in product_kw(at=(None, 0, 1, 2, -5), delay=(None, 0, 1, -1), cap_now=CAP)]
                + [("create", kw) for kw in product_kw(process=("",), at=(None, 1), delay=(None, 1), priority=(None, 1), urgent=(None, True))]
                + [("create", {"process": "alt", "delay": 1}), ("create", {"mode": "m"}), ("create", {"at": ("fn", 2)}), ("create", {"delay": ("dist", 1)})]
                + [("hold", {"duration": 1})],
                (("reset_now", None, {"new_now": 1}),),
                (RUN1,),
                (END,),
                1,
            ),
            4,
            "component creation at every point in time",
        )
    )
    return fams
