"""C24: the same history executed by yieldless processes and by generator processes, on the real code, compared with each other."""

import itertools
import math

from mc import driver
from mc.core import Family
from mc.driver import Driver, history_family, describe
from mc.ops import enabled_fn, RUN1, RUN, END

inf = math.inf
PROPERTY = "C24"
ASSUMPTIONS = ["2-3 processes; histories of 3-5 operations; the reference model is used to enumerate the histories, the two executions on the real code are compared with each other"]


def both(world, ops, st):
    logs = []
    exc = []
    for mode in (True, False):
        d = Driver(world, ops, mode)
        logs.append(d.run())
        exc.append(getattr(d, "exception", None))
        d.close()
    a, b = logs
    if st is not None:
        st.trans(len(a))
        for e in a:
            st.state(e[:3] if e[0] in ("exc", "returned") else (e[0], e[1:2], e[2][1:] if len(e) > 2 else None))
        st.outcome(a[-1][1] if a[-1][0] == "exc" else f"{len(a)} control points")
    if a != b:
        for k in range(max(len(a), len(b))):
            x = a[k] if k < len(a) else None
            y = b[k] if k < len(b) else None
            if x != y:
                return f"yieldless (observed) and yield (expected) executions differ at control point {k}:\n{describe(x, y)}\nexceptions {exc}"
    if type(exc[0]) is not type(exc[1]):
        return f"exceptions differ: {exc}"


def family(name, world, enabled, depth, bounds, prefix=()):
    f = history_family(name, world, enabled, depth, bounds, prefix=prefix)
    f.check = lambda ops, st: both(world, ops, st)
    return f


# ------------------------------------------------------------------------------------------------ exceptions
class Own(Exception):
    pass


class OwnBase(BaseException):
    pass


EXCS = {e.__name__: e for e in (TypeError, ValueError, AttributeError, KeyError, IndexError, RuntimeError, ZeroDivisionError, Own, OwnBase, NotImplementedError, AssertionError, StopAsyncIteration)}
STEPS = ("none", "hold", "hold0", "standby", "passivate", "request", "wait", "store", "interrupt", "failed", "sub", "cancelled", "activated")
PLACES = ("process", "alt", "nested", "setup", "event", "generator", "at_end", "condition", "filter")


def exceptions(case, st):
    """an exception raised in a process leaves env.run() as the very same exception, at the same time, in both modes"""
    steps, place, ename, deep = case
    sim = driver.sim
    seen = []
    for mode in (True, False):
        exc = EXCS[ename]("own text", 7)
        env = driver._Env(trace=False, yieldless=mode, random_seed="")
        res = sim.Resource("r", env=env)
        state = sim.State("s", value=False, env=env)
        store = sim.Store("st", env=env)
        log = []

        def boom():
            log.append(("raise", env.now()))
            raise exc

        def ops(c):
            """what the process of c does; a generator of calls"""
            for s in steps:
                log.append((s, env.now()))
                if s == "hold":
                    yield lambda: c.hold(1)
                elif s == "hold0":
                    yield lambda: c.hold(0)
                elif s == "standby":
                    yield lambda: c.standby()
                elif s == "passivate":
                    yield lambda: c.passivate()
                elif s == "request":
                    yield lambda: c.request(res)
                elif s == "wait":
                    yield lambda: c.wait(state)
                elif s == "store":
                    yield lambda: c.from_store(store)
                elif s == "interrupt":
                    yield lambda: c.hold(4)
                elif s == "failed":
                    yield lambda: c.wait((state, "never"), fail_delay=1)
                elif s == "cancelled":
                    helper.activate()

        if mode:

            def body(c):
                for f in ops(c):
                    f()

            class Helper(sim.Component):
                def process(self):
                    while True:
                        self.hold(1.5)
                        if car.ispassive():
                            car.activate()
                        if car.isscheduled() and steps[:1] == ("interrupt",):
                            car.interrupt()
                            self.hold(0.5)
                            car.resume()
                        if self.claimed_resources():
                            self.release()
                        state.set()
                        sim.Component("item.", env=env).enter(store)

            class Car(sim.Component):
                def process(self):
                    body(self)
                    if place == "nested":
                        self.nested(deep)
                    if place in ("process", "nested", "condition", "filter"):
                        if place == "condition":
                            self.wait((state, lambda v, c, s: boom()))
                        elif place == "filter":
                            sim.Component("item.", env=env).enter(store)
                            self.from_store(store, filter=lambda c: boom())
                        else:
                            boom()
                    elif place == "alt":
                        self.activate(process="alt")
                    else:
                        later(self)
                    self.hold(50)

                def nested(self, n):
                    self.hold(0.25)
                    if n:
                        self.nested(n - 1)
                    boom()

                def alt(self):
                    self.hold(0.25)
                    boom()

        else:

            def body(c):
                for f in ops(c):
                    yield f()

            class Helper(sim.Component):
                def process(self):
                    while True:
                        yield self.hold(1.5)
                        if car.ispassive():
                            car.activate()
                        if car.isscheduled() and steps[:1] == ("interrupt",):
                            car.interrupt()
                            yield self.hold(0.5)
                            car.resume()
                        if self.claimed_resources():
                            self.release()
                        state.set()
                        sim.Component("item.", env=env).enter(store)

            class Car(sim.Component):
                def process(self):
                    yield from body(self)
                    if place == "nested":
                        yield from self.nested(deep)
                    if place in ("process", "nested", "condition", "filter"):
                        if place == "condition":
                            yield self.wait((state, lambda v, c, s: boom()))
                        elif place == "filter":
                            sim.Component("item.", env=env).enter(store)
                            yield self.from_store(store, filter=lambda c: boom())
                        else:
                            boom()
                    elif place == "alt":
                        yield self.activate(process="alt")
                    else:
                        later(self)
                    yield self.hold(50)

                def nested(self, n):
                    yield self.hold(0.25)
                    if n:
                        yield from self.nested(n - 1)
                    boom()

                def alt(self):
                    yield self.hold(0.25)
                    boom()

        class Bad(sim.Component):
            def setup(self):
                boom()

        def later(c):
            if place == "setup":
                Bad(env=env)
            elif place == "event":
                sim.Event(boom, delay=0.25, env=env)
            elif place == "generator":
                sim.ComponentGenerator(Bad, iat=0.25, number=2, env=env)
            elif place == "at_end":
                sim.ComponentGenerator(sim.Component, iat=0.25, number=2, at_end=boom, env=env)

        helper = Helper(env=env)
        if "request" in steps:
            helper.request(res)
            helper.activate()
        car = Car(env=env)
        try:
            env.run(30)
            got = "no exception"
        except (Exception, OwnBase) as e:
            got = "the exception raised" if e is exc else f"{type(e).__name__}({e})"
        seen.append((got, tuple(log), env.now()))
        if got != "the exception raised":
            return f"yieldless={mode}: the process raised {ename} after {log[:-1]}, env.run() gave {got}"
        if log[-1] != ("raise", env.now()):
            return f"yieldless={mode}: raised at {log[-1]}, now {env.now()}"
        if exc.args != ("own text", 7):
            return f"the exception has been changed: {exc.args}"
    if st is not None:
        st.trans(len(seen[0][1]))
        st.state(seen[0])
        st.outcome(place)
    if seen[0] != seen[1]:
        return f"yieldless {seen[0]}, yield {seen[1]}"


def start(n):
    return tuple(("activate", i, {}) for i in range(n)) + (RUN1,)


def items_free(m, op):
    name, i, kw = op
    if name in ("to_store", "item_enter"):
        it = kw["item"]
        if any(e[0] == it for s in m.sto for e in s.items) or any(c.to_item == it and c.to_stores for c in m.comps):
            return False
    if name == "item_leave" and not any(e[0] == kw["item"] for e in m.sto[kw["s"]].items):
        return False
    if name == "filter" and not m.comps[i].from_stores:
        return False
    return True


def families(tier):
    th = tier == "thorough"
    x = 1 if th else 0
    R = {"args": ((0,),)}
    fams = []
    world = dict(ncomp=2, resources=(dict(capacity=1),), states=(dict(),), stores=(dict(capacity=1),), nitems=1)
    per = [
        ("activate", {}),
        ("activate", {"delay": 1}),
        ("activate", {"process": "alt"}),
        ("hold", {"duration": 1}),
        ("hold", {"duration": 1, "urgent": True}),
        ("passivate", {"mode": "p"}),
        ("cancel", {}),
        ("standby", {}),
        ("interrupt", {}),
        ("resume", {}),
        ("request", R),
        ("request", dict(R, fail_delay=1)),
        ("wait", dict(R, fail_delay=1)),
        ("from_store", {"stores": (0,), "fail_delay": 1}),
        ("to_store", {"stores": (0,), "item": 0, "fail_delay": 1}),
        ("release", {}),
    ]
    common = (("set", None, {"s": 0}), ("item_enter", None, {"item": 0, "s": 0}))
    fams.append(
        family(
            "kernel",
            world,
            enabled_fn(per, common, (RUN1, RUN), (END,), 2, lambda m, op: items_free(m, op) and not (op[0] == "item_enter" and (m.sto[0].items or any(c.to_stores for c in m.comps)))),
            4 + x,
            "2 processes, all operations on either, 4 (5) operations",
        )
    )
    fams.append(
        family(
            "create",
            dict(ncomp=3, absent=(1, 2)),
            enabled_fn(
                [("create", {}), ("create", {"at": 1}), ("create", {"delay": 1, "process": "alt"}), ("create", {"urgent": True}), ("create", {"process": ""}), ("activate", {}), ("hold", {"duration": 1}), ("passivate", {}), ("cancel", {})],
                (),
                (RUN1,),
                (END,),
                3,
            ),
            4 + x,
            "components created by main and by processes",
            prefix=(("activate", 0, {}),),
        )
    )
    own = lambda m, op: (op[1] is None or op[1] == m.current or op[0] in ("cancel", "activate", "interrupt", "resume")) and items_free(m, op)
    per = [
        ("request", {"args": ((0,),)}),
        ("request", {"args": ((0,), (1, 2))}),
        ("request", {"args": ((1, 1), (0, 1, -1)), "oneof": True, "fail_delay": 1}),
        ("release", {}),
        ("release", {"args": ((1,),)}),
        ("hold", {"duration": 1}),
        ("cancel", {}),
        ("interrupt", {}),
        ("resume", {}),
    ]
    fams.append(
        family("resources", dict(ncomp=3, resources=(dict(), dict(capacity=2))), enabled_fn(per, (("set_capacity", None, {"r": 1, "cap": 1}),), (RUN1,), (END,), 3, own), 4 + x, "3 processes, 2 resources", prefix=start(3))
    )
    per = [
        ("request", {"args": ((0, 1, 0),)}),
        ("request", {"args": ((0, 1, -1),)}),
        ("request", {"args": ((0, 2, -2), (1,))}),
        ("request", {"args": ((1,),)}),
        ("release", {}),
        ("hold", {"duration": 1}),
    ]
    fams.append(
        family("preemptive", dict(ncomp=3, resources=(dict(capacity=2, preemptive=True), dict())), enabled_fn(per, (), (RUN1,), (END,), 3, own), 5 + x, "3 processes, a preemptive and a plain resource", prefix=start(3))
    )
    per = [
        ("get", {"args": ((0, 1),)}),
        ("get", {"args": ((0, 2), (1, 1)), "fail_delay": 1}),
        ("put", {"args": ((0, 1),)}),
        ("put", {"args": ((0, 2),), "fail_delay": 1}),
        ("put", {"args": ((1, 1), (0, 1))}),
        ("hold", {"duration": 1}),
        ("activate", {}),
    ]
    fams.append(
        family("anonymous", dict(ncomp=3, resources=(dict(anonymous=True, capacity=2, initial_claimed_quantity=1), dict(anonymous=True, initial_claimed_quantity=0, capacity=1))), enabled_fn(per, (("set_capacity", None, {"r": 0, "cap": 3}),), (RUN1,), (END,), 3, own), 4 + x, "3 processes, 2 anonymous resources", prefix=start(3))
    )
    per = [
        ("wait", {"args": ((0,), (1, ("value", 2))), "all": True}),
        ("wait", {"args": ((0, ("value", 1), -1),), "fail_delay": 1}),
        ("wait", {"args": ((1, ("fn_ge", 2)), (0, ("expr_in", (3,))))}),
        ("wait_for", {"cond": ("sum_ge", 3), "states": (0, 1), "fail_delay": 1}),
        ("hold", {"duration": 1}),
        ("interrupt", {}),
        ("resume", {}),
    ]
    glob = [("set", None, {"s": 0, "value": 1}), ("set", None, {"s": 1, "value": 2}), ("trigger", None, {"s": 0, "value": 1, "max": 1})]
    fams.append(family("states", dict(ncomp=3, states=(dict(value=0), dict(value=0))), enabled_fn(per, glob, (RUN1,), (END,), 3, own), 4 + x, "3 processes, 2 states", prefix=start(3)))
    per = [
        ("from_store", {"stores": (0, 1)}),
        ("from_store", {"stores": (1,), "filter": "not0", "fail_delay": 1}),
        ("from_store", {"stores": (0,), "key": "neg"}),
        ("to_store", {"stores": (0, 1), "item": 0}),
        ("to_store", {"stores": (1,), "item": 1, "fail_delay": 1}),
        ("hold", {"duration": 1}),
        ("filter", {"filter": "any"}),
        ("interrupt", {}),
        ("resume", {}),
    ]
    glob = [("item_enter", None, {"item": 2, "s": 0}), ("item_leave", None, {"item": 2, "s": 0})]
    fams.append(
        family("stores", dict(ncomp=3, nitems=3, stores=(dict(capacity=1), dict(capacity=1))), enabled_fn(per, glob, (RUN1,), (END,), 3, own), 5 + x, "3 processes, 2 stores, 3 items", prefix=start(3))
    )
    per = [("standby", {}), ("hold", {"duration": 1}), ("passivate", {}), ("activate", {}), ("cancel", {}), ("hold", {"duration": 0})]
    fams.append(family("standby", dict(ncomp=3, skip=(2,)), enabled_fn(per, (), (RUN1,), (END,), 3), 4 + x, "3 processes, standby", prefix=start(3)))
    cases = [((a,), pl, e, 0) for a in STEPS for pl in PLACES for e in EXCS]
    cases += [((a, b), pl, e, dp) for a in STEPS for b in STEPS[1:] if (a, b) != ("request", "request") for pl in ("process", "nested", "alt") for e in ("TypeError", "AttributeError", "Own") for dp in ((0, 2) if pl == "nested" else (0,))]
    fams.append(Family("exceptions", cases, exceptions, "an exception of 12 types raised at 9 places after all sequences of 1 and 2 of 13 operations, in both modes", setup=driver.setup))
    return fams
