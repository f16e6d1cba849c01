"""C31: Event objects: every history of creating, rescheduling and cancelling them against a small event-list model."""

import itertools
import math

from mc import driver
from mc.core import Family
from mc.driver import Driver
from mc.bfs import explore

inf = math.inf
PROPERTY = "C31"
SLACK = 1
ASSUMPTIONS = [
    "up to 3 events; delays 0-2, priorities 0 and 1; histories of up to 5 operations by main and one operation by the action of each event",
    "an action does not act on its own event",
]


class M:
    """reference model: a list of scheduled events, executed in order of (time, priority, urgent before, first come first served)"""

    def __init__(self):
        self.now = 0
        self.seq = 0
        self.ev = {}
        self.log = []
        self.current = None

    def copy(self):
        m = M()
        m.now, m.seq, m.current = self.now, self.seq, self.current
        m.ev = {k: dict(v) for k, v in self.ev.items()}
        return m

    def canon(self):
        order = sorted((i for i in self.ev if self.ev[i]["st"] == "scheduled"), key=lambda i: self.ev[i]["key"])
        return (
            self.now,
            tuple(order),
            tuple(sorted((i, e["st"], e["key"][:2] if e["st"] == "scheduled" else None, e["rem"], e["n"], repr(e["action"])) for i, e in self.ev.items())),
        )

    def snap(self):
        return (
            self.now,
            tuple(
                (i, e["st"], (e["key"][0] if e["st"] == "scheduled" else inf) if e["st"] != "interrupted" else None, e["n"] > 0 and i != self.first_running(), )
                for i, e in sorted(self.ev.items())
            ),
        )

    def first_running(self):
        return self.current if self.current is not None and self.ev[self.current]["n"] == 1 else None

    def schedule(self, i, t, prio, urgent):
        self.seq += 1
        self.ev[i].update(st="scheduled", key=(t, prio, -self.seq if urgent else self.seq))

    def ok(self, op):
        name, i = op[0], op[1]
        st = self.ev[i]["st"] if i in self.ev else None
        return legal(name, st)

    def do(self, op):
        if not self.ok(op):
            return
        name, i, kw = op
        e = self.ev.get(i)
        if name == "new":
            self.ev[i] = dict(st="data", key=None, rem=None, n=0, action=kw["action"])
            self.schedule(i, kw.get("at", self.now) + kw.get("delay", 0), kw.get("priority", 0), kw.get("urgent", False))
        elif name in ("activate", "hold"):
            if e["st"] == "interrupted":
                e["rem"] = None
            self.schedule(i, self.now + kw.get("delay", kw.get("duration", 0)), kw.get("priority", 0), kw.get("urgent", False))
        elif name == "cancel":
            e.update(st="data", key=None, rem=None)
        elif name == "passivate":
            e.update(st="passive", key=None, rem=None)
        elif name == "interrupt":
            e.update(st="interrupted", rem=e["key"][0] - self.now, key=None)
        elif name == "resume":
            r = e["rem"]
            e["rem"] = None
            self.schedule(i, self.now + r, 0, False)
        elif name == "action":
            e["action"] = kw["action"]

    def run(self, d):
        till = self.now + d
        while True:
            order = sorted((e["key"], i) for i, e in self.ev.items() if e["st"] == "scheduled")
            if not order or order[0][0][0] > till:
                break
            key, i = order[0]
            if len(self.log) > 40:
                self.log.append("limit")
                break
            e = self.ev[i]
            self.now = key[0]
            self.current = i
            e.update(st="current", key=None)
            e["n"] += 1
            self.log.append((i, e["action"], self.snap()))
            if e["action"]:
                self.do(e["action"])
            e["st"] = "data"
            self.current = None
        if till < inf:
            self.now = till

    def apply(self, op):
        if op[0] == "run":
            self.run(op[1])
        else:
            self.do(op)
        self.log.append(("main", self.snap()))


def legal(name, st):
    if name == "new":
        return st is None
    if st is None:
        return False
    if name == "action":
        return st != "current"
    if name == "activate":
        return st in ("data", "scheduled", "passive", "interrupted")
    if name == "hold":
        return st in ("scheduled", "passive")
    if name in ("cancel", "passivate"):
        return st in ("scheduled", "passive")
    if name == "interrupt":
        return st == "scheduled"
    if name == "resume":
        return st == "interrupted"


class Limit(Exception):
    pass


class Real:
    def __init__(self, yieldless):
        self.env = driver._Env(trace=False, yieldless=yieldless)
        self.ev = {}
        self.log = []

    def snap(self):
        out = []
        for i, e in sorted(self.ev.items()):
            st = e.status()
            out.append((i, st, e.scheduled_time() if st != "interrupted" else None, e.action_taken()))
        return (self.env.now(), tuple(out))

    def callback(self, i, action):
        def f():
            self.log.append((i, action, self.snap()))
            if len(self.log) > 60:
                raise Limit()
            if action:
                self.do(action)

        return f

    def do(self, op):
        name, i, kw = op
        e = self.ev.get(i)
        if not legal(name, None if e is None else e.status()):
            return
        if name == "new":
            kw = dict(kw)
            action = kw.pop("action")
            self.ev[i] = driver.sim.Event(self.callback(i, action), env=self.env, **kw)
        elif name == "action":
            e.action(self.callback(i, kw["action"]))
        else:
            getattr(e, name)(**kw)

    def apply(self, op):
        if op[0] == "run":
            self.env.run(op[1])
        else:
            self.do(op)
        self.log.append(("main", self.snap()))


def check(ops, st):
    ops = tuple(ops) + (("run", 1), ("run", 4))
    m = M()
    for op in ops:
        m.apply(op)
    if "limit" in m.log:
        return None
    if st is not None:
        st.trans(len(m.log))
        for e in m.log:
            st.state(e[-1])
        st.outcome(tuple(sorted(e["n"] for e in m.ev.values())))
    for mode in (True, False):
        r = Real(mode)
        try:
            for op in ops:
                r.apply(op)
        except Limit:
            r.log.append("limit")
        for k in range(max(len(m.log), len(r.log))):
            a = r.log[k] if k < len(r.log) else None
            b = m.log[k] if k < len(m.log) else None
            if a != b:
                return f"{'yieldless' if mode else 'yield'}: observation {k}: observed {a}, expected {b}\nops {ops}"


def histories(alphabet, depth):
    def cases():
        def ap(m, op):
            m = m.copy()
            m.apply(op)
            return m

        paths, n, t = explore(M, lambda m: [op for op in alphabet if op[0] == "run" or m.ok(op)], ap, M.canon, depth)
        return paths

    return cases


def actor(case, st):
    """the same operation, done by an event's action and by a process; the rest of the model must not see the difference"""
    prefix, op = case
    world = dict(ncomp=2, resources=(dict(capacity=1),), states=(dict(),), stores=(dict(capacity=1),), nitems=1)
    logs = []
    for by_event in (True, False):
        d = Driver(world, prefix, True)
        d.do_prefix = True

        def act():
            d.log.append(("act", d.snapshot()))
            d.do(op)
            d.log.append(("acted", d.snapshot()))

        if by_event:
            driver.sim.Event(act, delay=1.5, env=d.env)
        else:

            class P(driver.sim.Component):
                def process(self):
                    act()

            P(delay=1.5, env=d.env)
        log = d.run()
        logs.append(log)
        d.close()
    a, b = logs
    if st is not None:
        st.trans(len(a))
        for e in a:
            st.state(e[:2] if e[0] == "exc" else e[-1])
        st.outcome(len(a))
    if a != b:
        for x, y in itertools.zip_longest(a, b):
            if x != y:
                return f"done by an event {x}\ndone by a process {y}"


def families(tier):
    th = tier == "thorough"
    fams = []
    alph = [("run", 0), ("run", 1)]
    for i in range(2):
        alph += [("new", i, dict(delay=dl, action=None)) for dl in (0, 1)]
        alph += [("activate", i, {}), ("activate", i, {"delay": 1}), ("hold", i, {"duration": 1}), ("hold", i, {"duration": 2, "urgent": True})]
        alph += [(n, i, {}) for n in ("cancel", "passivate", "interrupt", "resume")]
    fams.append(Family("histories of two events", histories(alph, 8 if th else 6), check, "2 events, all histories of 6 (8) operations", driver.setup))

    # three events with every combination of time, priority and urgency
    kws = [dict(delay=dl, priority=p, urgent=u) for dl in (0, 1) for p in (0, 1) for u in (False, True)]
    cases = [tuple(("new", i, dict(kw, action=None)) for i, kw in enumerate(c)) for c in itertools.product(kws, repeat=3)]
    fams.append(Family("ties", cases, check, "3 events; delay 0/1, priority 0/1, urgent or not, all combinations", driver.setup))

    # absolute times
    cases = []
    for first in (0, 1, 2):
        for kw in (dict(at=2), dict(at=3), dict(at=2, delay=1), dict(at=1, delay=1), dict(delay=1)):
            for kw1 in (dict(at=3), dict(at=2, delay=1), dict(delay=2), dict(at=2, urgent=True), dict(at=2, delay=0.5, priority=-1)):
                if kw.get("at", 9) + kw.get("delay", 0) >= first and kw1.get("at", 9) + kw1.get("delay", 0) >= first:
                    cases.append((("run", first), ("new", 0, dict(kw, action=None)), ("new", 1, dict(kw1, action=None)), ("run", 0)))
    fams.append(Family("absolute times", cases, check, "at and delay combined, after a run", driver.setup))

    # actions that act on the other events
    def acts(i):
        others = [j for j in range(3) if j != i]
        out = [None]
        for j in others:
            out += [
                ("cancel", j, {}),
                ("activate", j, {}),
                ("activate", j, {"delay": 1}),
                ("activate", j, {"urgent": True}),
                ("passivate", j, {}),
                ("hold", j, {"duration": 1}),
                ("interrupt", j, {}),
                ("resume", j, {}),
                ("action", j, {"action": ("cancel", i, {})}),
                ("new", j, {"delay": 0, "action": None}),
                ("new", j, {"delay": 1, "action": ("activate", i, {})}),
            ]
        return out

    cases = []
    for a0 in acts(0):
        for a1 in acts(1):
            for d1 in (0, 1):
                for third in (None, ("new", 2, dict(delay=1, action=None)), ("new", 2, dict(delay=0, action=("activate", 0, {"delay": 1})))):
                    cases.append((("new", 0, dict(delay=0, action=a0)), ("new", 1, dict(delay=d1, action=a1))) + ((third,) if third else ()))
    for a0, a1, a2 in itertools.product(acts(0), acts(1), acts(2)):
        cases.append((("new", 0, dict(delay=0, action=a0)), ("new", 1, dict(delay=0, action=a1)), ("new", 2, dict(delay=1, action=a2))))
    fams.append(Family("actions acting on events", cases, check, "2-3 events whose actions create, reschedule, cancel or alter one another", driver.setup))

    R = {"args": ((0,),)}
    prefixes = [
        (("activate", 0, {}), ("activate", 1, {}), ("run", None, {"duration": 1})) + tail
        for tail in itertools.product(
            [("passivate", 0, {}), ("hold", 0, {"duration": 1}), ("request", 0, R), ("wait", 0, {"args": ((0,),)}), ("standby", 0, {}), ("from_store", 0, {"stores": (0,)})],
            [("passivate", 1, {}), ("hold", 1, {"duration": 0.5}), ("request", 1, R), ("wait", 1, {"args": ((0,),), "fail_delay": 2}), ("standby", 1, {})],
        )
    ]
    ops = []
    for i in range(2):
        ops += [(n, i, {}) for n in ("activate", "passivate", "cancel", "interrupt", "release", "standby")]
        ops += [("activate", i, {"delay": 1}), ("hold", i, {"duration": 1}), ("activate", i, {"urgent": True})]
    ops += [("set", None, {"s": 0}), ("trigger", None, {"s": 0}), ("set_capacity", None, {"r": 0, "cap": 2}), ("item_enter", None, {"item": 0, "s": 0})]
    ops += [("res_release", None, {"r": 0})]
    cases = [(p, o) for p in prefixes for o in ops]
    fams.append(Family("event or process", cases, actor, "2 processes in every status; each operation done by an event and by a process", driver.setup))
    return fams
