"""C03: interrupt and resume preserve the remaining duration; levels nest."""

import math

from mc import driver
from mc.driver import history_family
from mc.ops import product_kw, on, enabled_fn, RUN1, RUN, END

inf = math.inf
PROPERTY = "C03"
SLACK = 1
ASSUMPTIONS = ["1-2 processes, histories of up to 7 operations, durations from {0, 0.5, 1, 1.25, 2, inf}"]


def families(tier):
    th = tier == "thorough"
    fams = []
    RUNH = ("run", None, {"duration": 0.5})
    per = [
        ("hold", {"duration": 1}),
        ("hold", {"duration": 2}),
        ("interrupt", {}),
        ("resume", {}),
        ("resume", {"all": True}),
        ("remaining_duration", {"value": 1.25}),
        ("passivate", {}),
    ]
    main = (RUNH, RUN1)
    fams.append(
        history_family(
            "single",
            dict(ncomp=1),
            enabled_fn(per, (), main, (END,), 1),
            8 if th else 7,
            "1 process, histories of 7 (8) operations",
            prefix=(("activate", 0, {"delay": 2}),),
        )
    )
    fams.append(
        history_family(
            "single_all_sequences",
            dict(ncomp=1),
            enabled_fn(per[2:6], (), (RUNH,), (("hold", 0, {"duration": 1}),), 1),
            7 if th else 6,
            "1 process, every sequence of 6 (7) interrupts, resumes and time steps, nothing merged",
            dedupe=False,
            prefix=(("activate", 0, {"delay": 2}),),
        )
    )
    per2 = [
        ("hold", {"duration": 1}),
        ("hold", {"duration": 2}),
        ("hold", {"duration": 2, "interrupted": True}),
        ("hold", {"duration": 1, "interrupted": 2}),
        ("hold", {"duration": inf}),
        ("activate", {"delay": 1}),
        ("interrupt", {}),
        ("resume", {}),
        ("resume", {"all": True}),
        ("resume", {"urgent": True}),
        ("resume", {"priority": -1}),
        ("passivate", {}),
        ("cancel", {}),
        ("standby", {}),
        ("remaining_duration", {"value": 0.5}),
        ("remaining_duration", {"value": 1, "urgent": True}),
        ("remaining_duration", {"value": 1, "priority": 1}),
    ]
    legal = lambda m, op: not (op[0] == "remaining_duration" and m.comps[op[1]].status == "data")
    fams.append(
        history_family(
            "pair",
            dict(ncomp=2),
            enabled_fn(per2, (), (RUNH, RUN1), (END,), 2, legal),
            5 if th else 4,
            "2 processes interrupting each other, 4 (5) operations",
            prefix=(("activate", 0, {"delay": 1}),),
            yieldless="both",
        )
    )
    fams.append(
        history_family(
            "levels",
            dict(ncomp=2),
            enabled_fn([("interrupt", {}), ("resume", {}), ("resume", {"all": True}), ("hold", {"duration": 1, "interrupted": 2})], (), (RUNH,), (), 2),
            7 if th else 6,
            "2 processes, nested interrupts only, 6 (7) operations",
            prefix=(("activate", 0, {"delay": 1}), ("activate", 1, {"delay": 2})),
        )
    )
    return fams
