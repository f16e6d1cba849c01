"""C23: component generators: every combination of parameters, with controlled interarrival times and random draws."""

import itertools
import math
import random

from mc import core
from mc.core import Family

inf = math.inf
PROPERTY = "C23"
ASSUMPTIONS = [
    "times and interarrival times are multiples of 1/8 (exact in binary), so that arrival times can be compared exactly",
    "interarrival times, disturbances and random draws come from controlled sequences; at most 5 components per generator",
    "number=0 (nothing to generate at all) is not required to call at_end",
]
sim = None
HORIZON = 8
DRAWFUNCS = ("random", "uniform", "triangular", "betavariate", "expovariate", "gammavariate", "gauss", "normalvariate", "weibullvariate", "choice", "choices", "randint", "randrange", "shuffle", "sample", "getrandbits")


def setup():
    global sim, _Env
    sim = core.load_salabim()

    class Env(sim.Environment):
        def an_modelname(self):
            pass

        def an_clocktext(self):
            pass

    _Env = Env


class Controlled(random.Random):
    """random() gives the prescribed draws"""

    def __init__(self, draws):
        super().__init__(0)
        self.draws = list(draws)
        self.used = 0

    def random(self):
        self.used += 1
        if self.used > len(self.draws):
            return 0.5
        return self.draws[self.used - 1]


class controlled:
    """the module random (salabim's default stream) gives the prescribed draws"""

    def __init__(self, draws):
        self.r = Controlled(draws)

    def __enter__(self):
        self.saved = {n: getattr(random, n) for n in DRAWFUNCS}
        for n in DRAWFUNCS:
            setattr(random, n, getattr(self.r, n))
        return self.r

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(random, n, f)


class Seq:
    """callable giving the values in turn (the last one for ever)"""

    def __init__(self, values):
        self.values = list(values)
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.values[min(self.n, len(self.values)) - 1]


def spec(v):
    """number, ('seq', values): callable, ('const', v): distribution"""
    if isinstance(v, tuple):
        if v[0] == "seq":
            return Seq(v[1])
        if v[0] == "const":
            return sim.Constant(v[1])
        if v[0] == "fn":
            return lambda: v[1]
    return v


def value(v):
    if isinstance(v, tuple):
        return v[1] if v[0] in ("const", "fn") else v[1][0]
    return v


def reference(kw, draws, t0, offset):
    """
    what the documentation prescribes, in the user's time: (arrivals, time of at_end or None if it is not called)
    t0 is the time of creation (in user's time)
    """
    if kw.get("moments") is not None:
        ms = kw["moments"]
        ms = sorted(ms[1] if isinstance(ms, tuple) else ms)
        return ms, ms[-1]
    at = value(kw["at"]) if kw.get("at") is not None else t0 + (value(kw.get("delay")) or 0)
    if kw.get("till") is not None:
        till = value(kw["till"])
    elif kw.get("duration") is not None:
        till = at + value(kw["duration"])
    else:
        till = inf
    number = value(kw["number"]) if kw.get("number") is not None else inf
    if number == 0:
        return [], "any"
    force_at, force_till = kw.get("force_at", False), kw.get("force_till", False)
    if kw.get("equidistant"):
        step = (till - at) / (number - 1)
        base = [at + step * i for i in range(number)]
        if kw.get("disturbance") is not None:
            d = Seq(kw["disturbance"][1])
            return [b + d() for b in base], base[-1]
        return base, base[-1]
    if kw.get("iat") is None:
        ms = sorted(at + (till - at) * u for u in draws[:number])
        if number == 1 and (force_at or force_till):
            ms = [at] if force_at else [till]
        elif force_at or force_till:
            a, b = ms[0], ms[-1]
            va, vb = at if force_at else a, till if force_till else b
            ms = [va + (m - a) * (vb - va) / (b - a) for m in ms]
        return ms, ms[-1]
    iat = kw["iat"]
    iat = Seq(iat[1]) if isinstance(iat, tuple) and iat[0] == "seq" else (lambda v=value(iat): v)
    out = []
    if kw.get("disturbance") is not None:
        d = Seq(kw["disturbance"][1])
        t = at
        while len(out) < 40:
            i = iat()
            a = t + (0 if force_at else i) + d()
            if a > till:
                return out, max(till, t)
            out.append(a)
            if len(out) >= number:
                return out, t
            t += i
        return out, None
    t = at if force_at else at + iat()
    while len(out) < 40:
        if t > till:
            return out, till
        out.append(t)
        if len(out) >= number:
            return out, t
        t += iat()
    return out, None


def check(case, st):
    kw, draws, start, reset, yieldless = case
    log = []
    ends = []
    names = []
    with controlled(draws) as rnd:
        sim.default_cap_now(False)
        sim.yieldless(yieldless)
        env = _Env(trace=False, yieldless=yieldless, random_seed="")

        if yieldless:

            class Car(sim.Component):
                def setup(self, **k):
                    self.k = k
                    names.append((self.name(), self.sequence_number(), k, self.env is env))

                def process(self):
                    log.append((env.now(), self.name()))

        else:

            class Car(sim.Component):
                def setup(self, **k):
                    self.k = k
                    names.append((self.name(), self.sequence_number(), k, self.env is env))

                def process(self):
                    log.append((env.now(), self.name()))
                    return
                    yield

        if start:
            env.run(start)
        t0 = start
        if reset is not None:
            env.reset_now(reset)
            t0 = reset
        want, want_end = reference(kw, draws, t0, 0)
        if want and want_end is not None and want_end != "any" and want[0] < t0:
            return None
        args = {k: spec(v) for k, v in kw.items()}
        gen = sim.ComponentGenerator(Car, at_end=lambda: ends.append(env.now()), extra=5, env=env, **args)
        at = gen.scheduled_time()
        env.run(till=t0 + HORIZON)
        sim.yieldless(True)
    want = sorted(t for t in want if t <= t0 + HORIZON) if kw.get("disturbance") is None else [t for t in want if t <= t0 + HORIZON]
    got = [t for t, n in log]
    if st is not None:
        st.trans(len(got) + 1)
        st.state((kw, got))
        st.outcome(f"{len(got)} components, {len(ends)} at_end")
    if want_end is not None and want_end != "any" and want_end > t0 + HORIZON:
        want_end = None
    if len(got) != len(want) or sorted(got) != got or any(not same(a, b) for a, b in zip(got, sorted(want))):
        return f"components at {got}, expected {sorted(want)}"
    if want_end == "any":
        if len(ends) > 1:
            return f"at_end called at {ends}, expected at most once"
    elif len(ends) != (want_end is not None) or (ends and not same(ends[0], want_end)):
        return f"at_end called at {ends}, expected {[] if want_end is None else [want_end]}"
    n = len(names)
    if names != [(f"car.{i}", i, {"extra": 5}, True) for i in range(n)]:
        return f"generated components {names}"
    if n != len(got) and kw.get("disturbance") is None:
        return f"{n} components created, {len(got)} arrived"
    if n > len(got) and not all(t > HORIZON + t0 for t in [*reference(kw, draws, t0, 0)[0]][len(got):]):
        return f"{n} components created, {len(got)} arrived"
    if kw.get("disturbance") is not None:
        order = [nm for t, nm in sorted(((t, i) for i, t in enumerate(want)))]
        if [int(nm.split(".")[1]) for t, nm in log] != order:
            return f"order of arrival {log}, expected {order}"
    if gen.name() != "Car.generator.0":
        return f"generator is called {gen.name()}"


def same(a, b):
    return a == b or abs(a - b) < 1e-9


def classes(case, st):
    """component_class: class, function, distribution over classes"""
    kind, draws, yieldless, how = case
    made = []
    arrived = []
    with controlled(draws) as rnd:
        sim.default_cap_now(False)
        sim.yieldless(yieldless)
        env = _Env(trace=False, yieldless=yieldless, random_seed="")
        other = _Env(trace=False, yieldless=yieldless, random_seed="")

        class A(sim.Component):
            def setup(self, p):
                made.append(("a", self.name(), p, self.env is env, env.now()))

        class B(sim.Component):
            def setup(self, p):
                made.append(("b", self.name(), p, self.env is env, env.now()))

        def fn(p):
            c = A(p=p)
            return c

        if how == "disturbance":  # data components can't be scheduled

            def process(self):
                arrived.append(env.now())

            if not yieldless:

                def process(self):
                    arrived.append(env.now())
                    return
                    yield

            A.process = B.process = process

        cls = {"class": A, "function": fn, "pdf": sim.Pdf((A, 1, B, 3), env=env) if kind == "pdf" else None}[kind]
        n = len(draws)
        kw = dict(iat=dict(iat=1, number=n), moments=dict(moments=list(range(n, 0, -1))), force=dict(at=1, iat=1, force_at=True, number=n), equidistant=dict(at=1, till=n, number=n, equidistant=True), disturbance=dict(iat=0.5, number=n, disturbance=Seq([0.5 * i + 0.5 for i in range(n)])))[how]
        try:
            sim.ComponentGenerator(cls, p=7, env=env, **kw)
        except ValueError:
            if kind == "function" and how == "disturbance":
                return None  # has to be refused
            raise
        finally:
            sim.yieldless(True)
        if kind == "function" and how == "disturbance":
            return "a function with disturbance is not refused"
        sim.yieldless(yieldless)
        env.run(10)
        sim.yieldless(True)
    if kind == "pdf":
        ref = ["a" if u < 0.25 else "b" for u in draws]
    else:
        ref = ["a"] * len(draws)
    cnt = {"a": 0, "b": 0}
    want = []
    for i, k in enumerate(ref):
        want.append((k, f"{k}.{cnt[k]}", 7, True, i * 0.5 if how == "disturbance" else i + 1))
        cnt[k] += 1
    if st is not None:
        st.trans(len(made))
        st.state(made)
        st.outcome(tuple(ref))
    if made != want:
        return f"made {made}, expected {want}"
    if how == "disturbance" and arrived != [i + 1 for i in range(len(draws))]:
        return f"arrivals at {arrived}"


def two_environments(case, st):
    """a generator creates in its own environment, whatever the default environment is; reset_now while it is running"""
    kw, reset_at, reset_to, yieldless = case
    sim.default_cap_now(False)
    sim.yieldless(yieldless)
    env = _Env(trace=False, yieldless=yieldless)
    made = []

    if yieldless:

        class Car(sim.Component):
            def process(self):
                made.append((env.now(), self.env is env))

    else:

        class Car(sim.Component):
            def process(self):
                made.append((env.now(), self.env is env))
                return
                yield

    args = {k: spec(v) for k, v in kw.items()}
    ends = []
    sim.ComponentGenerator(Car, env=env, at_end=lambda: ends.append(env.now()), **args)
    other = _Env(trace=False, yieldless=yieldless)  # the default environment now
    env.run(reset_at)
    env.reset_now(reset_to)
    env.run(10)
    sim.yieldless(True)
    ref, end = reference(kw, (), 0, 0)
    sh = lambda t: t if t <= reset_at else t - reset_at + reset_to
    want = [(sh(t), True) for t in ref if t <= reset_at + 10]
    if st is not None:
        st.trans(len(made))
        st.state((case, made))
        st.outcome(len(made))
    if made != want:
        return f"made {made}, expected {want}"
    want_end = [] if end is None or end > reset_at + 10 else [sh(end)]
    if ends != want_end:
        return f"at_end called at {ends}, expected {want_end}"


def refused(case, st):
    """contradicting specifications are refused"""
    kw, yieldless = case
    sim.default_cap_now(False)
    sim.yieldless(yieldless)
    env = _Env(trace=False, yieldless=yieldless)

    class Car(sim.Component):
        pass

    if st is not None:
        st.trans()
        st.state(case)
        st.outcome("refused")
    try:
        sim.ComponentGenerator(Car, env=env, **{k: spec(v) for k, v in kw.items()})
    except ValueError:
        return None
    finally:
        sim.yieldless(True)
    return "not refused"


def clean(d):
    return {k: v for k, v in d.items() if v is not None and v is not False}


def families(tier):
    th = tier == "thorough"
    fams = []
    # interarrival times
    cases = []
    starts = [dict(), dict(at=2), dict(delay=0.5), dict(at=("const", 3)), dict(delay=("fn", 1.5)), dict(at=1)]
    ends = [dict(), dict(till=5), dict(till=("const", 4.5)), dict(duration=3), dict(duration=("fn", 2.5)), dict(till=3), dict(duration=0)]
    numbers = [dict(), dict(number=1), dict(number=3), dict(number=("fn", 2)), dict(number=0)]
    iats = [1, ("const", 1.5), ("seq", (0.5, 2, 0, 1)), ("seq", (4, 1)), ("seq", (0, 0, 3)), 3]
    clocks = [(0, None), (1, None), (1, 0), (1, 3), (2, 1)] if not th else [(0, None), (1, None), (1, 0), (1, 3), (2, 1), (0, 2)]
    for s, e, n, i, f, (start, reset), mode in itertools.product(starts, ends, numbers, iats, (False, True), clocks, (True, False)):
        kw = clean(dict(s, **e, **n, iat=i, force_at=f))
        t0 = start if reset is None else reset
        at = value(kw["at"]) if "at" in kw else t0 + value(kw.get("delay", 0))
        if at < t0:
            continue
        if "till" in kw and value(kw["till"]) < at:
            continue
        cases.append((kw, (), start, reset, mode))
    fams.append(Family("iat", cases, check, "at/delay x till/duration x number x iat (number, distribution, callable) x force_at x clock (reset or not) x mode", setup))

    # disturbances
    cases = []
    for s, e, n, i, d, (start, reset), mode, force_at in itertools.product(
        [dict(), dict(at=2), dict(delay=0.5)],
        [dict(), dict(till=5), dict(duration=3), dict(till=3)],
        [dict(), dict(number=1), dict(number=3)],
        [1, 2, ("seq", (0.5, 2, 1))],
        [("seq", (0.5,)), ("seq", (0, 1, 0.25)), ("seq", (-0.5, 0.25)), ("seq", (2, 0)), ("seq", (1.5, 0, 0, 1.25))] + [("seq", (-1.5,)), ("seq", (-0.25, -1.5))],
        [(0, None), (1, None), (1, 0), (1, 3)],
        (True, False),
        (False, True),
    ):
        kw = clean(dict(s, **e, **n, iat=i, disturbance=d, force_at=force_at))
        t0 = start if reset is None else reset
        at = value(kw["at"]) if "at" in kw else t0 + value(kw.get("delay", 0))
        if at < t0 or ("till" in kw and value(kw["till"]) < at):
            continue
        if (0 if force_at else min(value(i) if not isinstance(i, tuple) else min(i[1]), 9)) + min(d[1]) < 0:
            continue
        cases.append((kw, (), start, reset, mode))
    fams.append(Family("disturbance", cases, check, "at/delay x till/duration x number x iat x disturbance sequences x force_at x clock x mode", setup))

    # random spread
    grid = (0.0, 0.25, 0.5, 0.875) if not th else (0.0, 0.125, 0.25, 0.5, 0.75, 0.875)
    cases = []
    for s, e, fa, ft, n, (start, reset), mode in itertools.product(
        [dict(), dict(at=2), dict(delay=0.5)], [dict(till=6), dict(duration=4), dict(till=("const", 5)), dict(duration=("fn", 2))], (False, True), (False, True), (1, 2, 3, ("fn", 1), ("fn", 2)), [(0, None), (1, None), (1, 0), (1, 3)], (True, False)
    ):
        k = value(n)
        if k == 1 and fa and ft:
            continue
        kw = clean(dict(s, **e, number=n, force_at=fa, force_till=ft))
        t0 = start if reset is None else reset
        at = value(kw["at"]) if "at" in kw else t0 + value(kw.get("delay", 0))
        if at < t0 or ("till" in kw and value(kw["till"]) < at):
            continue
        for draws in itertools.product(grid, repeat=k):
            if k > 1 and len(set(draws)) == 1 and (fa or ft):
                continue
            if k == 3 and not mode and not th and draws != tuple(sorted(draws)):
                continue
            cases.append((kw, draws, start, reset, mode))
    fams.append(Family("spread", cases, check, "random spread: all draws from a grid x at/delay x till/duration x force_at x force_till x clock x mode", setup))

    # moments and equidistant
    cases = []
    for ms in itertools.product((0, 1, 2.5, 4), repeat=3):
        for form in ("list", "fn"):
            for (start, reset), mode in itertools.product([(0, None), (2, 0), (1, None), (1, 3)], (True, False)):
                t0 = start if reset is None else reset
                m = [x + t0 for x in ms]
                cases.append((dict(moments=m if form == "list" else ("fn", m)), (), start, reset, mode))
    for s, e, n, d, (start, reset), mode in itertools.product(
        [dict(), dict(at=2), dict(delay=0.5)],
        [dict(till=6), dict(duration=4), dict(duration=3), dict(duration=0)],
        (2, 3, 5),
        (None, ("seq", (0,)), ("seq", (0.5, 0)), ("seq", (0, 0.25, 2))),
        [(0, None), (1, None), (1, 0), (1, 3)],
        (True, False),
    ):
        kw = clean(dict(s, **e, number=n, equidistant=True, disturbance=d))
        t0 = start if reset is None else reset
        at = value(kw["at"]) if "at" in kw else t0 + value(kw.get("delay", 0))
        if at < t0:
            continue
        cases.append((kw, (), start, reset, mode))
    fams.append(Family("moments and equidistant", cases, check, "all triples of moments; equidistant with and without disturbance", setup))

    draws = (0.0, 0.125, 0.25, 0.625, 0.875)
    cases = [(k, d, m, h) for k in ("class", "function", "pdf") for m in (True, False) for h in ("iat", "moments", "force", "equidistant", "disturbance") for n in ((1, 2, 3) if h != "equidistant" else (2, 3)) for d in itertools.product(draws, repeat=n)]
    fams.append(Family("component classes", cases, classes, "class, function and distribution as component_class; all draws", setup))

    cases = []
    for kw in (
        dict(iat=1, number=4),
        dict(iat=1, force_at=True),
        dict(iat=1.5, till=6),
        dict(iat=1.5, duration=6, number=3),
        dict(iat=1, disturbance=("seq", (0.25, 0.5)), till=5),
        dict(iat=1, disturbance=("seq", (0.25, 0)), number=4),
        dict(equidistant=True, number=4, duration=6),
        dict(equidistant=True, number=4, till=6),
        dict(moments=[1, 2.5, 2, 6]),
    ):
        for ra in (0, 1, 2, 2.25, 3.5):
            for rt in (0, 1, 5):
                for mode in (True, False):
                    cases.append((kw, ra, rt, mode))
    fams.append(Family("own environment, reset_now meanwhile", cases, two_environments, "generator in a non default environment, clock reset while it is active", setup))
    bad = [
        dict(iat=1, at=1, delay=1),
        dict(iat=1, till=3, duration=2),
        dict(iat=1, at=3, till=2),
        dict(iat=1, delay=3, till=2),
        dict(iat=1, number=-1),
        dict(iat=1, till=5, force_till=True),
        dict(till=5),
        dict(number=5),
        dict(),
        dict(duration=5),
        dict(till=5, number=1, force_at=True, force_till=True),
        dict(duration=5, number=("fn", 1), force_at=True, force_till=True),
        dict(till=5, number=3, disturbance=("fn", 1)),
        dict(equidistant=True, number=1, till=5),
        dict(equidistant=True, number=3),
        dict(equidistant=True, till=5),
        dict(equidistant=True, duration=5, at=1),
        dict(equidistant=True, number=3, till=5, iat=1),
        dict(equidistant=True, number=3, at=6, till=5),
    ] + [dict(moments=[1, 2], **{k: v}) for k, v in dict(at=1, delay=1, till=3, duration=2, number=2, iat=1, force_at=True, force_till=True, disturbance=("fn", 1), equidistant=True).items()]
    fams.append(Family("refused specifications", [(kw, m) for kw in bad for m in (True, False)], refused, "contradicting parameters", setup))
    return fams
