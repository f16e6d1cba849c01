"""C11: preemptive resources."""

import itertools
import math

from mc import driver
from mc.core import Family
from mc.driver import history_family, compare
from mc.ops import enabled_fn, RUN1, RUN, END

inf = math.inf
PROPERTY = "C11"
ASSUMPTIONS = ["2-4 processes, 1 preemptive resource (and a plain one), histories of 4-6 operations"]


def own(m, op):
    return op[1] is None or op[1] == m.current or op[0] in ("cancel", "activate", "release")


def start(n):
    return tuple(("activate", i, {}) for i in range(n)) + (RUN1,)


def families(tier):
    th = tier == "thorough"
    fams = []
    for nm, extra in (("plain", {}), ("first", {"honor_only_first": True}), ("highest", {"honor_only_highest_priority": True})):
        per = [
            ("request", {"args": ((0, 1, 1),)}),
            ("request", {"args": ((0, 1, 0),)}),
            ("request", {"args": ((0, 2, 0),)}),
            ("request", {"args": ((0, 2, -1),), "fail_delay": 1}),
            ("request", {"args": ((0, 3, -2),)}),
            ("release", {}),
            ("hold", {"duration": 1}),
        ] + ([("release", {"args": ((0, 1),)})] if nm == "plain" else [("request", {"args": ((0, 1, 2),)})])
        fams.append(
            history_family(
                f"{nm}_three",
                dict(ncomp=3, resources=(dict(capacity=2, preemptive=True, **extra),)),
                enabled_fn(per, (("set_capacity", None, {"r": 0, "cap": 3}),), (RUN1,), (END,), 3, own),
                6 if th else (5 if nm == "plain" else 4),
                "3 processes, 1 preemptive resource of capacity 2",
                prefix=start(3),
                paths=nm == "plain",
            )
        )
    per = [
        ("request", {"args": ((0, 1, 1),)}),
        ("request", {"args": ((0, 1, 0),)}),
        ("request", {"args": ((1,),)}),
        ("wait", {"args": ((0,),)}),
        ("passivate", {}),
        ("standby", {}),
        ("release", {}),
        ("interrupt", {}),
        ("resume", {}),
        ("hold", {"duration": 1}),
        ("set_mode", {"mode": "m"}),
    ]
    fams.append(
        history_family(
            "bumped_status",
            dict(ncomp=2, resources=(dict(preemptive=True), dict()), states=(dict(),)),
            enabled_fn(per, (), (RUN1,), (END,), 2, lambda m, op: op[1] is None or op[1] == m.current or op[0] in ("interrupt", "resume", "request")),
            6 if th else 5,
            "a claimer that is bumped in any status",
            prefix=start(2),
        )
    )
    # all sets of claimers, all bumping requests
    claims = [(q, p) for q in (1, 2, 0.5) for p in (0, 1, 2)]
    reqs = [(q, p) for q in (0.5, 1, 2, 3, 4, 5) for p in (-1, 0, 1, 2)]
    cases = [
        (c, r, cap, None)
        for n in (1, 2, 3)
        for cap in (4, 3)
        for c in itertools.product(claims, repeat=n)
        for r in reqs
        if n < 3 or th or (cap == 4 and all(q != 0.5 for q, p in c))
    ]

    # the capacity is lowered (or raised) below what is claimed before the request
    cases += [(c, r, cap, newcap) for n in (1, 2, 3) for cap in (4, 6) for newcap in (2, 1, 5) for c in itertools.product([(2, 1), (3, 1), (1, 2), (2, 0)], repeat=n) for r in [(1, 0), (1, -1), (2, -1), (2, 1), (3, -1)]]

    def bump(case, st):
        c, r, cap, newcap = case
        n = len(c)
        world = dict(ncomp=n + 2, resources=(dict(capacity=cap, preemptive=True),))
        ops = start(n + 2)
        ops += tuple(("request", i, {"args": ((0, q, p),)}) for i, (q, p) in enumerate(c))
        # another one waits with a low priority
        ops += (("request", n + 1, {"args": ((0, 1, 3),)}),)
        if newcap is not None:
            ops += (("set_capacity", None, {"r": 0, "cap": newcap}),)
        ops += (("request", n, {"args": ((0,) + r,)}), ("nop", None, {}), ("nop", None, {}))
        msg = compare(world, ops, st, True)
        if newcap is not None:
            return msg
        if msg is None and n < 3:
            msg = compare(world, ops, st, False)
        if msg is None:
            msg = flags(c, r, cap)
        return msg

    def flags(c, r, cap):
        """isbumped/isclaiming agree with the claimers"""
        sim = driver.sim
        env = sim.Environment(trace=False, yieldless=False)
        res = sim.Resource("r", capacity=cap, preemptive=True, env=env)
        other = sim.Resource("o", capacity=100, env=env)
        seen = []

        class X(sim.Component):
            def process(self, q, p):
                yield self.request((res, q, p))
                yield self.hold(10)
                seen.append((env.now(), self.sequence_number(), self.isbumped(res), self.isclaiming(res), self.isbumped(), self.isclaiming()))

        xs = [X(q=q, p=p, env=env) for q, p in c]
        env.run(1)
        y = X(q=r[0], p=r[1], env=env)
        env.run(1)
        for x in xs + [y]:
            claiming = x in res.claimers()
            if x.isclaiming(res) != claiming or x.isbumped(res) == claiming or x.isclaiming() != claiming or x.isbumped() == claiming:
                return f"isclaiming/isbumped of {x.name()} disagree with claimers"
            if (x.claimed_quantity(res) > 0) != claiming:
                return f"claimed quantity of {x.name()} is {x.claimed_quantity(res)}, claiming {claiming}"
        for t, n, b, cl, b1, cl1 in seen:
            if not b or cl:
                return f"c{n} was activated at {t} before its time, without having been bumped"

    fams.append(Family("who_is_bumped", cases, bump, "all sets of 1-3 claimers (quantity, priority) times all requests, with a lower priority request waiting", driver.setup))
    return fams
