"""
C27: environments are isolated and names are serialized per environment.

pairs    two little models (all pairs of programs from a complete set), each with its own environment, their operations interleaved
         in every possible way (including the creation of the environments); each log must equal the log of the model run alone.
objects  every kind of object created (through the class with env=, through env.<Class> and in a process) in an environment that is
         not the default one: all parts belong to it, carry its time and names.
names    all sequences of object creations with all naming forms, against a model of serialization.
drivers  two kernel histories (reference worlds with resources, states and stores) interleaved at every main control point.
"""

import io
import itertools
import math

from mc import driver
from mc.core import Family
from mc.driver import Driver, MAIN
from mc.ops import enabled_fn, RUN1, RUN, END

PROPERTY = "C27"
ASSUMPTIONS = [
    "two environments, up to 4 operations each, all interleavings; objects are created with an explicit environment (env=, or the environment's own class alias), as an implicit one documentedly goes to the default environment",
    "the random generator is documented to be global, so the models draw no random numbers (or use a stream of their own)",
]
sim = None


def setup():
    global sim, Proc
    driver.setup()
    sim = driver.sim

    class Proc(sim.Component):
        def process(self):
            self.hold(0)



# ------------------------------------------------------------------------------------------------ little models
class Little:
    """a model under one environment; op(name) executes one operation of main and appends what can be seen to the log"""

    def __init__(self, tag):
        self.tag = tag
        self.log = []
        self.env = None

    def op(self, name):
        try:
            getattr(self, "op_" + name)()
        except Exception as e:
            self.log.append((name, type(e).__name__, str(e)))
        self.log.append((name, self.observe()))

    def op_new(self):
        tag = self.tag
        self.sink = io.StringIO()
        self.env = sim.Environment(trace=False, yieldless=tag["yieldless"], random_seed="", isdefault_env=tag["default"], time_unit=tag["unit"], name=tag["name"])
        log = self.log
        me = self
        self.objs = []
        env = self.env

        if tag["yieldless"]:

            class Car(sim.Component):
                def process(self):
                    log.append((self.name(), "start", self.env.now()))
                    self.enter(me.q)
                    self.hold(1)
                    self.request(me.r)
                    log.append((self.name(), "claims", self.env.now()))
                    self.hold(1)
                    self.wait((me.s, 1), fail_delay=1)
                    log.append((self.name(), "end", self.env.now(), self.failed()))
                    self.leave(me.q)

        else:

            class Car(sim.Component):
                def process(self):
                    log.append((self.name(), "start", self.env.now()))
                    self.enter(me.q)
                    yield self.hold(1)
                    yield self.request(me.r)
                    log.append((self.name(), "claims", self.env.now()))
                    yield self.hold(1)
                    yield self.wait((me.s, 1), fail_delay=1)
                    log.append((self.name(), "end", self.env.now(), self.failed()))
                    self.leave(me.q)

        self.Car = Car
        self.q = sim.Queue("q", env=env)
        self.r = env.Resource("r.")
        self.s = sim.State(value=0, env=env)
        self.m = env.Monitor("m", level=True)
        self.cars = []
        self.gens = []

    def op_car(self):
        self.cars.append(self.Car(env=self.env))

    def op_run(self):
        self.env.run(1)

    def op_reset_now(self):
        self.env.reset_now(10)

    def op_set(self):
        self.s.set(1)

    def op_tally(self):
        self.m.tally(self.m() + 1)

    def op_gen(self):
        self.gens.append(sim.ComponentGenerator(self.Car, iat=1, number=2, force_at=True, env=self.env))

    def op_trace(self):
        self.env.suppress_trace_linenumbers(True)
        self.env.trace(self.sink)

    def op_event(self):
        log = self.log
        sim.Event(lambda: log.append(("event", self.env.now())), delay=0.5, env=self.env)

    def op_interrupt(self):
        if self.cars and self.cars[0].isscheduled():
            self.cars[0].interrupt()
        elif self.cars and self.cars[0].isinterrupted():
            self.cars[0].resume()

    def op_cap(self):
        self.r.set_capacity(2)

    def op_objects(self):
        e = self.env
        self.objs += [e.Queue(), e.Store(), e.State(), e.Resource(), e.Monitor(), e.Component(), sim.Monitor("x,", env=e), sim.Component("y.", env=e), sim.Store("z.", env=e)]

    def observe(self):
        e = self.env
        if e is None:
            return None
        return (
            e.now(),
            e.name(),
            repr(e.current_component().name()),
            e.peek(),
            tuple((c.name(), c.sequence_number(), c.status(), c.scheduled_time(), c.creation_time(), c.mode_time(), c.claimed_quantity(), tuple(sorted(q.name() for q in c.queues()))) for c in self.cars),
            tuple(c.name() for c in self.q),
            repr(self.q.length.xt()),
            repr(self.m.xt()),
            (self.r.name(), self.r.claimed_quantity(), [c.name() for c in self.r.requesters()]),
            (self.s.name(), self.s(), [c.name() for c in self.s.waiters()]),
            tuple((o.name(), o.sequence_number()) for o in self.objs),
            self.sink.getvalue(),
        )


def tags():
    return [
        dict(yieldless=True, default=True, unit="n/a", name=None),
        dict(yieldless=False, default=True, unit="n/a", name=None),
        dict(yieldless=True, default=False, unit="minutes", name="mine"),
    ]


OPS = ("car", "run", "set", "tally", "gen", "event", "reset_now", "trace", "cap", "objects", "interrupt")


def alone(tagnr, prog, cache={}):
    key = (tagnr, prog)
    if key not in cache:
        sim.reset()
        d = Little(tags()[tagnr])
        for op in prog:
            d.op(op)
        cache[key] = d.log
    return cache[key]


def check_pair(case, st):
    t1, p1, t2, p2, order = case
    want = (alone(t1, p1), alone(t2, p2))
    sim.reset()
    ds = (Little(tags()[t1]), Little(tags()[t2]))
    it = (iter(p1), iter(p2))
    for k in order:
        ds[k].op(next(it[k]))
        st.trans()
    for k in (0, 1):
        a, b = ds[k].log, want[k]
        if a != b:
            for i in range(max(len(a), len(b))):
                x = a[i] if i < len(a) else None
                y = b[i] if i < len(b) else None
                if x != y:
                    return f"model {k}, entry {i} of its log: with another environment around\n  {x}\nalone\n  {y}"
    st.state((t1, p1, t2, p2))
    st.outcome((t1, t2, len(want[0]), len(want[1])))


def orders(n1, n2):
    for pos in itertools.combinations(range(n1 + n2), n1):
        yield tuple(0 if k in pos else 1 for k in range(n1 + n2))


def pair_cases(th):
    out = []
    fixed = ("new", "car", "run", "run", "run")
    # a fixed model disturbed by every program of the other, at every place
    n = 3 if th else 2
    for t1, t2 in ((0, 0), (0, 2), (1, 1), (2, 0), (0, 1), (2, 2), (1, 2)):
        for k in range(1, n + 1):
            for ops in itertools.product(OPS, repeat=k):
                p2 = ("new",) + ops
                for order in orders(len(fixed), len(p2)):
                    if k == n and order[0] == 1 and not th:
                        continue
                    out.append((t1, fixed, t2, p2, order))
    # both variable
    ops = OPS
    for t1, t2 in ((0, 0), (0, 2), (1, 0)):
        for a in itertools.product(ops, repeat=2):
            for b in itertools.product(("run", "car", "gen", "objects", "reset_now"), repeat=2):
                for order in ((0, 1, 0, 1, 0, 1), (0, 1, 1, 1, 0, 0), (1, 0, 1, 0, 1, 0), (0, 0, 1, 0, 1, 1)):
                    out.append((t1, ("new",) + a, t2, ("new",) + b, order))
    return out


# ------------------------------------------------------------------------------------------------ objects in another environment
def envs_of(o, depth=0, seen=None):
    """all objects reachable as direct attributes that carry an environment"""
    out = []
    for k, v in sorted(vars(o).items()):
        if k in ("env", "pc"):
            continue
        if hasattr(v, "env") and isinstance(getattr(v, "env"), sim.Environment) and not isinstance(v, sim.Environment) and not isinstance(v, type):
            out.append((k, v))
    return out


def object_cases():
    out = []
    for kind in KINDS:
        for how in ("env", "alias", "process"):
            for default in ("none", "before", "after"):
                for yieldless in (True, False):
                    if kind == "GeneratorDisturbance" and not yieldless:
                        continue
                    out.append((kind, how, default, yieldless))
    return out


class Thing:
    pass


KINDS = {
    "Component": lambda C, kw: C("Component")(**kw),
    "Queue": lambda C, kw: C("Queue")(**kw),
    "Store": lambda C, kw: C("Store")(**kw),
    "Resource": lambda C, kw: C("Resource")(**kw),
    "State": lambda C, kw: C("State")(**kw),
    "Monitor": lambda C, kw: C("Monitor")(**kw),
    "LevelMonitor": lambda C, kw: C("Monitor")(level=True, **kw),
    "Generator": lambda C, kw: C("ComponentGenerator")(sim.Component, iat=1, **kw),
    "GeneratorSpread": lambda C, kw: C("ComponentGenerator")(sim.Component, duration=3, number=2, **kw),
    "GeneratorMoments": lambda C, kw: C("ComponentGenerator")(sim.Component, moments=(101, 102), **kw),
    "GeneratorDisturbance": lambda C, kw: C("ComponentGenerator")(Proc, iat=1, disturbance=0.5, **kw),
    "Event": lambda C, kw: C("Event")(lambda: None, **kw),
    "Uniform": lambda C, kw: C("Uniform")(1, 2, **kw),
    "Exponential": lambda C, kw: C("Exponential")(1, time_unit="hours", **kw),
    "Constant": lambda C, kw: C("Constant")(1, "hours", **kw),
    "Pdf": lambda C, kw: C("Pdf")((1, 2), 1, time_unit="hours", **kw),
    "AnimateText": lambda C, kw: C("AnimateText")("x", **kw),
    "AnimateRectangle": lambda C, kw: C("AnimateRectangle")((0, 0, 1, 1), **kw),
    "AnimateCombined": lambda C, kw: C("AnimateText")("x", **kw),
}


def check_object(case, st):
    kind, how, default, yieldless = case
    sim.reset()
    other = None

    def make_other():
        o = sim.Environment(trace=False, yieldless=yieldless, random_seed="", time_unit="days")
        o.run(7)
        return o

    if default == "before":
        other = make_other()
    env = sim.Environment(trace=False, yieldless=yieldless, isdefault_env=False, random_seed="", time_unit="minutes")
    env.run(100)
    if default == "after":
        other = make_other()
    f = KINDS[kind]
    made = []
    nother = len(other.an_objects) if other else None
    if how == "process":
        if yieldless:

            class P(sim.Component):
                def process(self):
                    made.append(f(lambda n: getattr(sim, n), dict(env=self.env)))

        else:

            class P(sim.Component):
                def process(self):
                    made.append(f(lambda n: getattr(sim, n), dict(env=self.env)))
                    return
                    yield

        P(env=env)
        env.run(0)
    elif how == "env":
        made.append(f(lambda n: getattr(sim, n), dict(env=env)))
    else:
        made.append(f(lambda n: getattr(env, n), {}))
    o = made[0]
    st.trans()
    st.state(case)
    st.outcome((kind, default))
    if hasattr(o, "env") and o.env is not env:
        return f"{kind}: its environment is {o.env.name()}"
    for k, v in envs_of(o):
        if v.env is not env:
            return f"{kind}.{k}: its environment is {v.env.name()}"
    if hasattr(o, "creation_time") and o.creation_time() != 100:
        return f"{kind}: creation time {o.creation_time()}"
    for k, v in envs_of(o):
        if isinstance(v, sim.Monitor) and v.start_time() != 100:
            return f"{kind}.{k}: start time {v.start_time()}"
    if kind == "Exponential" and o.mean() != 60 or kind == "Constant" and o.sample() != 60 or kind == "Pdf" and o.mean() != 90:
        return f"{kind}: mean {o.mean()} in an environment in minutes"
    if other is not None and (len(other.an_objects) != nother or other.now() != 7 or other.peek() != math.inf):
        return f"{kind}: the other environment has been changed"
    env.run(2)
    if other is not None and (other.now() != 7 or other.peek() != math.inf):
        return f"{kind}: running one environment changed the other one: now {other.now()}"
    if env.now() != 102:
        return f"now {env.now()}"


GENS = {
    "iat": dict(iat=1, number=3),
    "force_at": dict(iat=1, number=3, force_at=True),
    "till": dict(iat=1, till=103),
    "disturbance": dict(iat=1, number=3, disturbance=0.5),
    "disturbance till": dict(iat=1, till=104, disturbance=0.5),
    "spread": dict(duration=3, number=3),
    "spread 1": dict(duration=3, number=1),
    "spread force": dict(duration=3, number=3, force_at=True, force_till=True),
    "moments": dict(moments=(101, 102, 102, 103)),
    "equidistant": dict(duration=3, number=3, equidistant=True),
    "equidistant disturbed": dict(duration=3, number=3, equidistant=True, disturbance=0.5),
}


def check_generator(case, st):
    """a generator in an environment that is not the default one: after each event the default environment is as it was"""
    kind, cls, default, yieldless, atend = case
    sim.reset()
    sim.default_cap_now(False)
    other = None
    made = []
    if default == "before":
        other = sim.Environment(trace=False, yieldless=yieldless, random_seed="", time_unit="days")
    env = sim.Environment(trace=False, yieldless=yieldless, isdefault_env=default == "self", random_seed="")
    env.run(100)
    if default == "after":
        other = sim.Environment(trace=False, yieldless=yieldless, random_seed="", time_unit="days")
    if default == "self":
        other = env

    if yieldless:

        class A(sim.Component):
            def setup(self):
                made.append(self)

            def process(self):
                made.append(sim.default_env())

    else:

        class A(sim.Component):
            def setup(self):
                made.append(self)

            def process(self):
                made.append(sim.default_env())
                return
                yield

    class B(A):
        def setup(self):
            super().setup()
            made.append(sim.Queue("q", env=self.env))

    d0 = sim.default_env()
    if d0 is not other:
        return f"the default environment is {d0}"
    c = {"class": B, "function": lambda: A(), "pdf": sim.Pdf((A, B), 1, env=env)}[cls]
    ends = []
    gen = sim.ComponentGenerator(c, env=env, at_end=(lambda: ends.append(sim.default_env())) if atend else None, **GENS[kind])
    n = 0
    while env.peek() < math.inf:
        if sim.default_env() is not d0:
            return f"{kind}: at {env.now()} the default environment has changed to {sim.default_env()}"
        if other not in (None, env) and (other.now() != 0 or other.peek() < math.inf):
            return f"{kind}: the default environment has been used"
        env.step()
        n += 1
        if n > 60:
            return f"{kind}: does not end"
    if sim.default_env() is not d0:
        return f"{kind}: at the end the default environment is {sim.default_env()}"
    if other is not None:
        q = sim.Queue()
        if q.env is not other:
            return f"{kind}: a queue created afterwards belongs to {q.env}"
    st.trans(n)
    st.state(case)
    st.outcome((kind, len(made)))
    if any(x is not d0 for x in ends):
        return f"{kind}: the default environment in at_end is {ends}"
    for o in made:
        if isinstance(o, (sim.Component, sim.Queue)) and o.env is not env:
            return f"{kind}: {o.name()} belongs to {o.env}"
        if isinstance(o, sim.Environment) and o is not d0:
            return f"{kind}: the default environment in the process of a component is {o}"


# ------------------------------------------------------------------------------------------------ names
NKINDS = ("Component", "Car", "CarSub", "Queue", "Store", "Resource", "State", "Monitor", "Event", "Gen")
SPACE = {"Component": "C", "Car": "C", "CarSub": "C", "Event": "C", "Gen": "C", "Queue": "Q", "Store": "Q", "Resource": "R", "State": "S", "Monitor": "M"}
FORMS = (None, "", ".", ",", "a", "a.", "a,", "b.", "car.", "a.b.")


def make(kind, name, env, Car, CarSub):
    kw = dict(env=env)
    if name is not None:
        kw["name"] = name
    if kind == "Car":
        return Car(**kw)
    if kind == "CarSub":
        return CarSub(**kw)
    if kind == "Event":
        return sim.Event(lambda: None, **kw)
    if kind == "Gen":
        return sim.ComponentGenerator(Car, iat=100, generator_name=name, env=env)
    return getattr(sim, kind)(**kw)


CLS = {"Gen": "componentgenerator", "Car": "car", "CarSub": "carsub"}


def check_names(case, st):
    """a sequence of (environment, kind, naming form)"""
    sim.reset()
    envs = [driver._Env(trace=False, yieldless=True, random_seed="") for _ in range(2)]

    class Car(sim.Component):
        pass

    class CarSub(Car):
        pass

    counters = {}
    objs = []
    for e, kind, form in case:
        o = make(kind, form, envs[e], Car, CarSub)
        base = form
        if form in (None, "", ".", ","):
            if kind == "Gen" and form is None:
                base = None
            else:
                base = CLS.get(kind, kind.lower()) + (form or ".")
        if base is None:  # automatic name of a generator (its form is not documented): serialized
            want = None
        elif base[-1] in ".,":
            key = (e, SPACE[kind], base)
            counters[key] = counters.get(key, -1 if base[-1] == "." else 0) + 1
            want = (f"{base[:-1]}.{counters[key]}", base, counters[key])
        else:
            want = (base, base, 1)
        got = (o.name(), o.base_name(), o.sequence_number())
        st.trans()
        if want is None:
            if not got[0].endswith("." + str(got[2])):
                return f"{kind} named {form!r}: (name, base_name, sequence_number) = {got}"
        elif got != want:
            return f"{kind} named {form!r}: (name, base_name, sequence_number) = {got}, expected {want}"
        objs.append((o, got))
        if kind == "Gen":
            # the generator itself consumes the name; the components are named after their class
            pass
    for o, got in objs:
        derived = derived_names(o)
        expected = []
        for d in derived:
            if d.endswith(got[0]):
                expected.append(d[: -len(got[0])] + "new")
            elif d.startswith(got[0]):
                expected.append("new" + d[len(got[0]) :])
            else:
                return f"derived names {derived} of {got[0]}"
        o.name("new")
        if (o.name(), o.base_name(), o.sequence_number()) != ("new", got[1], got[2]):
            return f"after name('new'): (name, base_name, sequence_number) = {(o.name(), o.base_name(), o.sequence_number())}, expected {('new',) + got[1:]}"
        d2 = derived_names(o)
        if d2 != expected:
            return f"derived names {derived} of {got[0]} become {d2} after name('new')"
        st.trans()
    st.state(case)
    st.outcome(len(case))


def derived_names(o):
    if isinstance(o, sim.Resource):
        ms = list(o.all_monitors()) + [o.requesters(), o.claimers()]
    elif isinstance(o, sim.State):
        ms = list(o.all_monitors()) + [o.waiters()]
    elif isinstance(o, sim.Store):
        ms = [o.length, o.length_of_stay, o.capacity, o.available_quantity, o.from_store_requesters(), o.to_store_requesters()]
    elif isinstance(o, sim.Queue):
        ms = [o.length, o.length_of_stay, o.capacity, o.available_quantity]
    else:
        ms = []
    return [m.name() for m in ms]


def name_cases(th):
    out = []
    for kind in NKINDS:
        for a, b, c in itertools.product(FORMS, repeat=3):
            out.append(((0, kind, a), (0, kind, b), (0, kind, c)))
    for k1, k2 in itertools.product(NKINDS, repeat=2):
        for a, b in itertools.product(FORMS[:7] if not th else FORMS, repeat=2):
            for e1, e2, e3 in ((0, 0, 0), (0, 1, 0), (1, 0, 1), (0, 1, 1)):
                out.append(((e1, k1, a), (e2, k2, b), (e3, k1, a)))
    return out


# ------------------------------------------------------------------------------------------------ two kernel worlds
class Stepper(Driver):
    """main's operations one at a time"""

    def begin(self):
        self.done = False

    def main_step(self):
        if self.done:
            return
        try:
            op = self.next(MAIN, "main")
            if op is None:
                self.env.run()
                self.log.append((MAIN, "main", self.snapshot()))
                self.done = True
            else:
                self.do(op)
        except driver.FlushLimit:
            self.log.append(("flush limit",))
            self.done = True
        except Exception as e:
            self.log.append(("exc", type(e).__name__))
            self.done = True


_log_cache = {}


def check_drivers(case, st):
    (w1, ops1), (w2, ops2) = case
    worlds = (WORLDS[w1], WORLDS[w2])
    base = []
    for w, ops in ((w1, ops1), (w2, ops2)):
        key = repr((w, ops))
        if key not in _log_cache:
            if len(_log_cache) > 20000:
                _log_cache.clear()
            sim.reset()
            d = Driver(WORLDS[w], ops, w % 2 == 0)
            _log_cache[key] = d.run()
            d.close()
        base.append(_log_cache[key])
    for order in ((0, 1) * 6, (1, 0) * 6, (0, 0, 1, 1) * 4, (1, 1, 0, 0, 0, 1, 1, 1, 0, 0, 0)):
        sim.reset()
        ds = [Stepper(worlds[0], ops1, w1 % 2 == 0), Stepper(worlds[1], ops2, w2 % 2 == 0)]
        for d in ds:
            d.begin()
        for k in order:
            ds[k].main_step()
        while not all(d.done for d in ds):
            for d in ds:
                d.main_step()
        logs = [d.log for d in ds]
        for d in ds:
            d.close()
        for k in (0, 1):
            if logs[k] != base[k]:
                for i in range(max(len(logs[k]), len(base[k]))):
                    x = logs[k][i] if i < len(logs[k]) else None
                    y = base[k][i] if i < len(base[k]) else None
                    if x != y:
                        return f"model {k}, control point {i}: interleaved {order}\n  {x}\nalone\n  {y}"
        st.trans(len(logs[0]) + len(logs[1]))
    st.state(case)
    st.outcome((len(base[0]), len(base[1])))


WORLDS = [
    dict(ncomp=2, resources=(dict(capacity=1),), states=(dict(),), stores=(dict(capacity=1),), nitems=1),
    dict(ncomp=2, resources=(dict(capacity=1),), states=(dict(),), stores=(dict(capacity=1),), nitems=1),
]


def driver_cases(th):
    from mc.checks.c24 import items_free

    R = {"args": ((0,),)}
    per = [
        ("activate", {}),
        ("hold", {"duration": 1}),
        ("passivate", {}),
        ("cancel", {}),
        ("standby", {}),
        ("interrupt", {}),
        ("resume", {}),
        ("request", R),
        ("wait", dict(R, fail_delay=1)),
        ("from_store", {"stores": (0,), "fail_delay": 1}),
        ("to_store", {"stores": (0,), "item": 0, "fail_delay": 1}),
    ]
    guard = lambda m, op: items_free(m, op) and not (op[0] == "item_enter" and (m.sto[0].items or any(c.to_stores for c in m.comps)))
    en = enabled_fn(per, (("set", None, {"s": 0}),), (RUN1, RUN), (END,), 2, guard)
    prefix = (("activate", 0, {}), ("activate", 1, {"delay": 0.5}), RUN1)
    hs = driver.history_family("x", WORLDS[0], en, 2 + (1 if th else 0), "", prefix=prefix).cases
    hs = list(hs() if callable(hs) else hs)
    others = [
        prefix + (("request", 0, R), RUN1, ("hold", 1, {"duration": 1})),
        prefix + (("standby", 0, {}), ("hold", 1, {"duration": 1}), ("set", None, {"s": 0})),
        prefix + (("from_store", 0, {"stores": (0,)}), ("wait", 1, dict(R, fail_delay=2))),
    ]
    out = []
    for h in hs:
        for o in others:
            for a, b in ((0, 0), (0, 1), (1, 0), (1, 1)):
                out.append(((a, h), (b, o)))
    return out


def families(tier):
    th = tier == "thorough"
    return [
        Family("names", name_cases(th), check_names, "all sequences of 3 creations over 10 kinds of objects, 10 naming forms, two environments", setup=setup),
        Family("objects", object_cases(), check_object, "all kinds of objects in a non default environment", setup=setup),
        Family(
            "generators",
            [(k, c, d, y, e) for k in GENS for c in ("class", "function", "pdf") for d in ("before", "after", "none", "self") for y in (True, False) for e in (False, True) if c == "class" or "disturb" not in k],
            check_generator,
            "11 kinds of generators in an environment that is not the default one, after each event",
            setup=setup,
        ),
        Family("pairs", pair_cases(th), check_pair, "all pairs of little models (2 (3) free operations) and all interleavings", setup=setup),
        Family("drivers", lambda: driver_cases(th), check_drivers, "all kernel histories of 2 (3) operations x 3 other models x 4 interleavings x yield modes", setup=setup),
    ]
