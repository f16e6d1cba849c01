"""C04: standby components become current after every event that does not skip them; none is forgotten."""

import math

from mc import driver
from mc.driver import history_family
from mc.ops import product_kw, on, enabled_fn, RUN1, RUN, END

inf = math.inf
PROPERTY = "C04"
SLACK = 1
ASSUMPTIONS = ["2-3 processes, any of which may be marked skip_standby; histories of 4-6 operations"]


def families(tier):
    th = tier == "thorough"
    fams = []
    per = [
        ("standby", {}),
        ("activate", {}),
        ("activate", {"delay": 1}),
        ("hold", {"duration": 1}),
        ("hold", {}),
        ("passivate", {}),
        ("cancel", {}),
    ]
    for skip in ((), (0,), (1,), (0, 1)):
        fams.append(
            history_family(
                "pair_skip_" + "".join(map(str, skip)),
                dict(ncomp=2, skip=skip),
                enabled_fn(per, (), (RUN1, RUN), (END,), 2),
                7 if th else 6,
                f"2 processes, skip_standby={skip}, 6 (7) operations",
            )
        )
    per3 = per[:4] + [("cancel", {})]
    for skip in ((), (0,), (2,)):
        fams.append(
            history_family(
                "triple_skip_" + "".join(map(str, skip)),
                dict(ncomp=3, skip=skip),
                enabled_fn(per3, (), (RUN1, RUN), (END,), 3),
                6 if th else 5,
                f"3 processes, skip_standby={skip}, 5 (6) operations",
            )
        )
    fams.append(
        history_family(
            "pair_yield",
            dict(ncomp=2, skip=(1,)),
            enabled_fn(per, (), (RUN1, RUN), (END,), 2),
            6 if th else 5,
            "generator (yield) processes",
            yieldless=False,
        )
    )
    pers = [("standby", {}), ("activate", {"delay": 1}), ("hold", {"duration": 1}), ("skip_standby", {"value": True}), ("skip_standby", {"value": False})]
    for skip in ((), (1,)):
        fams.append(
            history_family(
                "changing_skip_" + "".join(map(str, skip)),
                dict(ncomp=2, skip=skip),
                enabled_fn(pers, (), (RUN1,), (END,), 2),
                7 if th else 6,
                f"skip_standby, initially {skip}, changed in between, 6 (7) operations",
            )
        )
    perx = [("standby", {}), ("standby", {"mode": "x"}), ("activate", {"delay": 1}), ("interrupt", {}), ("request", {"args": ((0,),)}), ("wait", {"args": ((0,),), "fail_delay": 1}), ("hold", {"duration": 1})]
    fams.append(
        history_family(
            "with_resources",
            dict(ncomp=2, resources=(dict(),), states=(dict(),)),
            enabled_fn(perx, (("set", None, {"s": 0}),), (RUN1,), (END,), 2),
            6 if th else 5,
            "standby mixed with requests and waits",
        )
    )
    return fams
