"""C09: resource accounting."""

import math

from mc.driver import history_family
from mc.ops import product_kw, enabled_fn, RUN1, RUN, END

inf = math.inf
PROPERTY = "C09"
SLACK = 1
ASSUMPTIONS = ["2-3 processes, 1-2 resources, histories of 4-6 operations, quantities from {0.5, 1, 1.5, 2}"]


def own(m, op):
    """resource operations are done by the component itself; the rest also by others"""
    return op[1] is None or op[1] == m.current or op[0] in ("cancel", "activate", "release", "interrupt", "resume", "passivate")


def families(tier):
    th = tier == "thorough"
    fams = []
    per = [
        ("request", {"args": ((0,),)}),
        ("request", {"args": ((0, 0.5),)}),
        ("request", {"args": ((0, 2),)}),
        ("request", {"args": ((0, 1.5, -1),), "fail_delay": 1}),
        ("request", {"args": ((0, 0.5), (0, 1))}),
        ("release", {}),
        ("release", {"args": ((0, 0.5),)}),
        ("release", {"args": ((0, 3),)}),
        ("hold", {"duration": 1}),
        ("activate", {}),
        ("cancel", {}),
    ]
    glob = (
        ("set_capacity", None, {"r": 0, "cap": 1}),
        ("set_capacity", None, {"r": 0, "cap": 2.5}),
        ("set_capacity", None, {"r": 0, "cap": 0}),
        ("set_capacity", None, {"r": 0, "cap": 2, "via_value": True}),
        ("res_release", None, {"r": 0}),
    )
    start = (("activate", 0, {}), ("activate", 1, {}), RUN1)
    fams.append(
        history_family(
            "one_resource",
            dict(ncomp=2, resources=(dict(capacity=2),)),
            enabled_fn(per, glob, (RUN1, RUN), (END,), 2, own),
            5 if th else 4,
            "2 processes, 1 resource of capacity 2, 4 (5) operations",
            prefix=start,
            paths=True,
        )
    )
    per2 = [
        ("request", {"args": ((0,), (1, 2))}),
        ("request", {"args": ((1,), (0,))}),
        ("request", {"args": ((0, 2), (1,)), "oneof": True}),
        ("request", {"args": ((1, 1.5),)}),
        ("request", {"args": ((0,),), "fail_delay": 1}),
        ("release", {}),
        ("release", {"args": ((0,),)}),
        ("release", {"args": ((1, 1),)}),
        ("release", {"args": ((0,), (1,))}),
        ("hold", {"duration": 1}),
        ("cancel", {}),
    ]
    glob2 = (("set_capacity", None, {"r": 1, "cap": 3}), ("res_release", None, {"r": 1}))
    fams.append(
        history_family(
            "two_resources",
            dict(ncomp=2, resources=(dict(), dict(capacity=2))),
            enabled_fn(per2, glob2, (RUN1,), (END,), 2, own),
            5 if th else 4,
            "2 processes, 2 resources, 4 (5) operations",
            prefix=start,
            paths=True,
        )
    )
    per3 = [
        ("request", {"args": ((0,),)}),
        ("request", {"args": ((0, 2, -1),)}),
        ("release", {}),
        ("release", {"args": ((0, 0.5),)}),
        ("hold", {"duration": 1}),
        ("passivate", {}),
        ("interrupt", {}),
        ("resume", {}),
        ("activate", {}),
        ("cancel", {}),
    ]
    fams.append(
        history_family(
            "three_processes",
            dict(ncomp=3, resources=(dict(capacity=3),)),
            enabled_fn(per3, (("set_capacity", None, {"r": 0, "cap": 2}),), (RUN1,), (END,), 3, own),
            6 if th else 4,
            "3 processes, 1 resource, 4 (6) operations",
            prefix=(("activate", 0, {}), ("activate", 1, {}), ("activate", 2, {}), RUN1),
            paths=True,
        )
    )
    # every quantity from a grid, including ones that are not exactly representable: no residue after everything is released
    import itertools
    from mc import driver
    from mc.core import Family

    qs = (0.1, 0.2, 0.3, 0.7, 1 / 3, 1)

    def drift(case, st):
        driver.setup() if driver.sim is None else None
        sim = driver.sim
        n, q, parts = case
        env = sim.Environment(trace=False, yieldless=False)
        r = sim.Resource("r", capacity=1 if n == 1 else n, env=env)

        class X(sim.Component):
            def process(self, q, parts):
                yield self.request((r, q))
                for p in parts:
                    yield self.hold(1)
                    self.release((r, q * p))
                yield self.hold(1)
                self.release()

        xs = [X(q=q[i % len(q)], parts=parts, env=env) for i in range(n)]
        for k in range(8):
            env.run(1)
            tot = sum(x.claimed_quantity(r) for x in xs)
            if abs(tot - r.claimed_quantity()) > 1e-6:
                return f"t={env.now()}: claims add up to {tot}, resource says {r.claimed_quantity()}"
            if r.claimed_quantity() > r.capacity() + 1e-7:
                return f"t={env.now()}: {r.claimed_quantity()} claimed of capacity {r.capacity()}"
            if abs(r.available_quantity() + r.claimed_quantity() - r.capacity()) > 1e-9:
                return f"t={env.now()}: available {r.available_quantity()} + claimed {r.claimed_quantity()} != capacity"
            st.state((n, q, parts, k, round(tot, 6)))
            st.trans()
        env.run()
        if r.claimed_quantity() != 0 or r.available_quantity() != r.capacity() or len(r.claimers()) or len(r.requesters()):
            return f"not everything returned: claimed {r.claimed_quantity()}, claimers {len(r.claimers())}, requesters {len(r.requesters())}"
        st.outcome("all released")

    cases = [
        (n, q, parts)
        for n in (1, 2, 3)
        for q in itertools.product(qs, repeat=min(n, 2) if not th else n)
        for parts in ((), (0.1,), (0.5, 0.5), (1 / 3, 1 / 3), (0.1, 0.2, 0.3), (0.7, 0.3))
    ]
    fams.append(Family("fractions", cases, drift, "1-3 processes, fractional quantities and partial releases that cannot be represented exactly", driver.setup))
    # initial claimed quantity
    init = [dict(capacity=c, initial_claimed_quantity=q, anonymous=True) for c in (1, 2, 4) for q in (0, 1, 0.5)]

    def initial(kw, st):
        sim = driver.sim
        env = sim.Environment(trace=False, yieldless=False)
        r = sim.Resource("r", env=env, **kw)
        st.state(repr(kw))
        for step in range(3):
            q = kw["initial_claimed_quantity"] if step == 0 else 0
            want = (kw["capacity"], q, kw["capacity"] - q, q / kw["capacity"])
            got = (r.capacity(), r.claimed_quantity(), r.available_quantity(), r.occupancy())
            if got != want:
                return f"step {step}: capacity, claimed, available, occupancy observed {got} expected {want}"
            got = (r.claimed_quantity.mean(), r.available_quantity.mean(), r.occupancy.mean()) if step == 1 else None
            env.run(1)
            if step == 0:
                got = (r.claimed_quantity.mean(), r.available_quantity.mean(), r.occupancy.mean())
                if got != want[1:]:
                    return f"means observed {got} expected {want[1:]}"
                r.release()
            st.trans()

    fams.append(Family("initial_claim", init, initial, "all combinations of capacity and initially claimed quantity", driver.setup))
    from mc import owned

    fams.append(Family("monitors", owned.resource_cases(4 if th else 3), owned.resource, "the monitors of a resource against plain models: all histories of 3 (4) requests, releases, capacity changes, switches and resets", owned.setup))
    return fams
