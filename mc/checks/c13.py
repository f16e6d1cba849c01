"""C13: waiting for states."""

import itertools
import math

from mc import driver
from mc.core import Family
from mc.driver import history_family, compare
from mc.ops import enabled_fn, RUN1, RUN, END

inf = math.inf
PROPERTY = "C13"
SLACK = 1
ASSUMPTIONS = ["2-4 processes, 1-2 states with values from {False, True, 0, 1, 2, 'red', 'green'}, histories of 4-6 operations"]


def own(m, op):
    return op[1] is None or op[1] == m.current or op[0] in ("cancel", "activate")


# every call makes a new object
FRESH = (
    lambda: int("1000"),
    lambda: float("1000"),
    lambda: float("0.5"),
    lambda: "".join(["re", "d"]),
    lambda: tuple([1, int("2000")]),
    lambda: [1, int("2000")],
    lambda: frozenset([1, 2]),
    lambda: int("1"),
    lambda: bool(1),
    lambda: None,
    lambda: {"a": 1},
)


def same_value(case, st):
    """only a change of the value is recorded and makes that the waiters are checked"""
    a, b, how = case
    sim = driver.sim
    env = driver._Env(trace=False)
    before, after = FRESH[a](), FRESH[b]()
    change = before != after
    s = sim.State("s", value=before, env=env)
    flag = []
    got = []
    n_start = len(s.value.tx(add_now=False)[0])

    class Waiter(sim.Component):
        def process(self):
            self.wait((s, lambda value, component, state: bool(flag)))
            got.append(env.now())

    Waiter(env=env)
    env.run(1)
    flag.append(1)
    if how == "set":
        s.set(after)
    elif how == "reset":
        s.reset(after)
    elif how == "value":
        s.value.value = after
    else:
        s.trigger(after, value_after=FRESH[b](), max=3)
    env.run(1)
    want = [1] if change or how == "trigger" else []
    if st is not None:
        st.trans(2)
        st.state((case, change))
        st.outcome(f"change {change}")
    if got != want:
        return f"{how} {before!r} to {after!r}: waiter honored at {got}, should be {want}"
    if s.get() != after or s() != after or s.value() != after:
        return f"{how} {before!r} to {after!r}: get() is {s.get()!r}"
    n = len(s.value.tx(add_now=False)[0]) - n_start
    if how != "trigger" and n != (1 if change else 0):
        return f"{how} {before!r} to {after!r}: {n} values recorded"


def start(n):
    return tuple(("activate", i, {}) for i in range(n)) + (RUN1,)


def families(tier):
    th = tier == "thorough"
    fams = []
    # one state, values
    per = [
        ("wait", {"args": ((0,),)}),
        ("wait", {"args": ((0, ("value", 2), -1),)}),
        ("wait", {"args": ((0, ("value", 1)), (0, ("value", 2)))}),
        ("wait", {"args": ((0, ("expr_ge", 1)),), "fail_delay": 1}),
        ("wait", {"args": ((0, ("fn_in", (0, 2))),), "request_priority": 1}),
        ("hold", {"duration": 1}),
        ("activate", {}),
        ("cancel", {}),
    ]
    glob = [
        ("set", None, {"s": 0}),
        ("set", None, {"s": 0, "value": 2}),
        ("set", None, {"s": 0, "value": 1, "via_value": True}),
        ("reset", None, {"s": 0}),
        ("trigger", None, {"s": 0, "max": 1}),
        ("trigger", None, {"s": 0, "value": 2, "value_after": 1}),
        ("trigger", None, {"s": 0, "value": 2, "max": 0}),
        ("trigger", None, {"s": 0, "value": 2, "value_after": 0, "max": 2}),
    ]
    fams.append(
        history_family(
            "one_state",
            dict(ncomp=3, states=(dict(value=0),)),
            enabled_fn(per, glob, (RUN1,), (END,), 3, own),
            5 if th else 4,
            "3 processes, 1 state, 4 (5) operations",
            prefix=start(3),
            paths=True,
        )
    )
    per = [
        ("wait", {"args": ((0,), (1,))}),
        ("wait", {"args": ((0,), (1,)), "all": True}),
        ("wait", {"args": ((0, ("expr_ge", 1)), (1, ("value", 2))), "all": True, "fail_delay": 1}),
        ("wait", {"args": ((1, ("fn_ge", 2), -1), (0, ("expr_in", (2,))), (0, ("value", 1))), "all": False}),
        ("wait", {"args": ((0, ("expr_ge", 1)), (0, ("fn_in", (2, 3))), (1, ("fn_ge", 0))), "all": True}),
        ("wait_for", {"cond": ("sum_ge", 3), "states": (0, 1)}),
        ("wait_for", {"cond": ("equal", None), "states": (1,), "request_priority": -1, "priority": 1, "fail_delay": 1}),
        ("hold", {"duration": 1}),
    ]
    glob = [("set", None, {"s": s, "value": v}) for s in (0, 1) for v in (0, 1, 2)]
    glob += [("trigger", None, {"s": 0, "value": 2, "max": 1}), ("trigger", None, {"s": 1, "value": 1, "value_after": 2})]
    fams.append(
        history_family(
            "two_states",
            dict(ncomp=3, states=(dict(value=0), dict(value=1))),
            enabled_fn(per, glob, (RUN1,), (END,), 3, own),
            5 if th else 4,
            "3 processes, 2 states, any/all/wait_for, 4 (5) operations",
            prefix=start(3),
        )
    )
    fams.append(
        history_family(
            "two_states_yield",
            dict(ncomp=2, states=(dict(value=0), dict(value=1))),
            enabled_fn(per, glob, (RUN1,), (END,), 2, own),
            5 if th else 4,
            "2 generator processes, 2 states, 4 (5) operations",
            prefix=start(2),
            yieldless=False,
        )
    )
    # conditions that look more than once at the value, or at the component, or at the state
    per = [
        ("wait", {"args": ((0, ("value", 0)), (1, ("expr_between", (1, 2)))), "all": True}),
        ("wait", {"args": ((1, ("expr_between", (2, 3))), (0, ("expr_between", (1, 1))))}),
        ("wait", {"args": ((0, ("fn_own", 0)), (1, ("fn_between", (1, 2)))), "all": True, "fail_delay": 1}),
        ("wait", {"args": ((1, ("fn_own", 1)),)}),
        ("wait", {"args": ((0, ("expr_between", (1, 2))), (0, ("expr_between", (2, 3))), (1, ("value", 3))), "all": True}),
    ]
    glob = [("set", None, {"s": s, "value": v}) for s in (0, 1) for v in (0, 1, 2, 3)] + [("trigger", None, {"s": 1, "value": 2, "max": 1})]
    for mode in (True, False):
        fams.append(
            history_family(
                "conditions_" + ("yieldless" if mode else "yield"),
                dict(ncomp=3, states=(dict(value=0), dict(value=0))),
                enabled_fn(per, glob, (RUN1,), (), 3, own),
                5 if th else 4,
                "3 processes, 2 states, conditions that use the value twice, the component or the state, 4 (5) operations",
                prefix=start(3),
                yieldless=mode,
            )
        )
    # every kind of condition times every kind of value, for any and all
    vals = [False, True, 0, 1, 2, -1, 1.5, "red", "green", "", None, "a b", "1"]
    specs = [("value", v) for v in vals]
    specs += [("expr_in", (v, 2, "red")) for v in ("green", 1, None, "")] + [("fn_in", (v, 2, "red")) for v in ("green", 1, None, "")]
    cases = [(init, sp, al, new) for init in vals for sp in specs for al in (False, True) for new in vals]

    def kinds(case, st):
        init, sp, al, new = case
        world = dict(ncomp=1, states=(dict(value=init),))
        ops = (("activate", 0, {}), RUN1, ("wait", 0, {"args": ((0, sp),), "all": al}), ("set", None, {"s": 0, "value": new}))
        return compare(world, ops, st, True)

    fams.append(Family("kinds", cases, kinds, "13 values x 21 conditions x any/all x 13 new values", driver.setup))
    # queues of waiters and trigger(max)
    waits = [{"args": ((0, ("value", 2), p),)} for p in (0, 1, -1)] + [{"args": ((0, ("fn_ge", 1)),)}, {"args": ((0, ("value", 2)), (1, ("value", 1)))}, {"args": ((0, ("value", 2)), (1, ("value", 1))), "all": True}]
    n = 4 if th else 3
    cases = [
        (combo, e)
        for combo in itertools.product(range(len(waits)), repeat=n)
        for e in [(v, a, mx) for v in (1, 2) for a in (None, 0, 1, 2) for mx in (0, 1, 2, 3, inf)]
    ]

    def triggers(case, st):
        combo, (v, a, mx) = case
        world = dict(ncomp=n, states=(dict(value=0), dict(value=0)))
        ops = start(n) + tuple(("wait", i, waits[w]) for i, w in enumerate(combo))
        kw = {"s": 0, "value": v, "max": mx}
        if a is not None:
            kw["value_after"] = a
        ops += (("trigger", None, kw),)
        ops += (("set", None, {"s": 1, "value": 1}),)
        return compare(world, ops, st, True)

    fams.append(Family("triggers", cases, triggers, f"every queue of {n} waiters, trigger with every value, value_after and max", driver.setup))
    cases = [(a, b, how) for a in range(len(FRESH)) for b in range(len(FRESH)) for how in ("set", "reset", "trigger", "value") if not (how == "trigger" and FRESH[b]() is None)]
    fams.append(Family("same_value", cases, same_value, "a state is given a value that is equal (though another object) or not, in 4 ways, with a waiter whose condition became true meanwhile", driver.setup))
    from mc import owned

    fams.append(Family("monitors", owned.state_cases(4 if th else 3), owned.state, "the monitors of a state against plain models: all histories of 3 (4) waits, changes, switches and resets", owned.setup))
    return fams
