"""C25: time units, datetimes and their printed forms."""

import datetime
import io
import itertools
import math
from fractions import Fraction as F

from mc import core, driver
from mc.core import Family
from mc.checks.c23 import Controlled, controlled

inf = math.inf
PROPERTY = "C25"
ASSUMPTIONS = [
    "all pairs of the 8 time units; times and durations from a grid of multiples of 1/60 and 1/16 units",
    "floating point: conversions agree with exact rational arithmetic to 12 digits; printed times to the microsecond, truncated to seconds as shown",
]
sim = None
UNITS = dict(years=F(31536000), weeks=F(604800), days=F(86400), hours=F(3600), minutes=F(60), seconds=F(1), milliseconds=F(1, 1000), microseconds=F(1, 1000000))
D0 = {"true": True, "date": datetime.datetime(2024, 2, 28, 22, 30, 15), "leap": datetime.datetime(2023, 12, 31, 23, 59, 59), "str": "2022-05-06 07:08:09"}
D0V = {"true": datetime.datetime(1970, 1, 1), "date": D0["date"], "leap": D0["leap"], "str": datetime.datetime(2022, 5, 6, 7, 8, 9)}


def setup():
    global sim, _Env
    driver.setup()
    sim = driver.sim
    _Env = driver._Env


def close(a, b):
    return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b), 1e-300)


def conversions(case, st):
    """every conversion function of the environment, there and back"""
    eu, u, t = case
    env = _Env(trace=False, time_unit=eu)
    f = UNITS[u] / UNITS[eu]
    v = F(t)
    if st is not None:
        st.trans(7)
        st.state(case)
        st.outcome(u)
    want = float(v * f)
    back = float(v / f)
    for text, got, w in (
        (f"{u}({t})", getattr(env, u)(t), want),
        (f"{u}(callable)", getattr(env, u)(lambda: t), want),
        (f"to_{u}({t})", getattr(env, "to_" + u)(t), back),
        (f"to_{u}(callable)", getattr(env, "to_" + u)(lambda: t), back),
        (f"to_time_unit({u})", env.to_time_unit(u, t), back),
        (f"to_{u}({u}({t}))", getattr(env, "to_" + u)(getattr(env, u)(t)), float(v)),
        (f"{u}(to_{u}({t}))", getattr(env, u)(getattr(env, "to_" + u)(t)), float(v)),
    ):
        if not close(got, w):
            return f"environment in {eu}: {text} = {got}, expected {w}"
    if env.get_time_unit() != eu:
        return f"get_time_unit {env.get_time_unit()}"


def no_unit(case, st):
    env = _Env(trace=False)
    name, = case
    if st is not None:
        st.trans()
        st.state(case)
        st.outcome(name)
    try:
        if name.startswith("dist"):
            sim.Uniform(1, 2, "hours", env=env)
        elif name == "to_time_unit":
            env.to_time_unit("hours", 1)
        else:
            getattr(env, name)(1)
    except Exception as e:
        return None
    return f"{name} without time unit not refused"


def monitors(case, st):
    eu, u = case
    env = _Env(trace=False, time_unit=eu)
    f = UNITS[eu] / UNITS[u]
    m = sim.Monitor("m", type="float", env=env)
    xs = (1, 2.5, 0, 60)
    for x in xs:
        m.tally(x)
    if st is not None:
        st.trans(len(xs))
        st.state(case)
        st.outcome(u)
    for text, mm in ((f"to_{u}", getattr(m, "to_" + u)()), ("to_time_unit", m.to_time_unit(u))):
        for a, x in zip(mm.x(), xs):
            if not close(a, float(F(x) * f)):
                return f"environment in {eu}: {text} of {x} gives {a}, expected {float(F(x) * f)}"
        if not close(mm.mean(), float(F(sum(xs)) * f / len(xs))):
            return f"mean {mm.mean()}"


DISTS = {
    "Uniform": ((1, 3), {}),
    "IntUniform": ((1, 6), {}),
    "Exponential": ((3,), {}),
    "Exponential rate": ((), {"rate": 0.25}),
    "Triangular": ((1, 5, 2), {}),
    "Normal": ((10, 1), {}),
    "Constant": ((4,), {}),
    "Weibull": ((2, 2), {}),
    "Gamma": ((2, 3), {}),
    "Erlang": ((2, 0.5), {}),
    "Erlang scale": ((2,), {"scale": 3}),
    "Cdf": (((1, 0, 2, 0.5, 4, 1),), {}),
    "Pdf": (((1, 1, 2, 3),), {}),
    "Pmf": (((1, 1, 2, 3),), {}),
    "Pdf equal": (((1, 2, 4), 1), {}),
    "CumPdf": (((1, 0.25, 2, 1),), {}),
    "CumPmf": (((1, 0.25, 2, 1),), {}),
}


def dists(case, st):
    """a distribution in another unit: the same physical duration for the same draws"""
    name, eu, u, draws = case
    env = _Env(trace=False, time_unit=eu)
    args, kw = DISTS[name]
    cls = getattr(sim, name.split()[0])
    f = float(UNITS[u] / UNITS[eu])
    r0, r1, r2 = Controlled(draws), Controlled(draws), Controlled(draws)
    plain = cls(*args, randomstream=r0, env=env, **kw)
    d = cls(*args, time_unit=u, randomstream=r1, env=env, **kw)
    v0, v1 = plain(), d()
    if st is not None:
        st.trans(2)
        st.state((name, eu, u, v1))
        st.outcome(name)
    if not close(v1, v0 * f):
        return f"{name} in {u}, environment in {eu}: sample {v1}, expected {v0 * f}"
    if not close(d.mean(), plain.mean() * f):
        return f"{name} in {u}, environment in {eu}: mean {d.mean()}, expected {plain.mean() * f}"
    b = sim.Bounded(sim.Uniform(0, 4, u, randomstream=Controlled((0.125, 0.75)), env=env), 1, 3.5, time_unit=u, env=env)
    v = b()
    if not close(v, 3 * f):
        return f"Bounded in {u}, environment in {eu}: {v}, expected {3 * f}"
    a = env.__getattribute__(u)(sim.Uniform(1, 3, randomstream=r2, env=env))
    if name == "Uniform" and not close(a, v1):
        return f"env.{u}(Uniform) {a} differs from Uniform(..., {u!r}) {v1}"


def us(x):
    """to whole microseconds (exactly)"""
    return round(x * 1000000)


def text_of(d):
    return f"{('Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun')[d.weekday()]} {d.year:04d}-{d.month:02d}-{d.day:02d} {d.hour:02d}:{d.minute:02d}:{d.second:02d}"


def datetimes(case, st):
    eu, d0, num, den, start, reset = case
    t = num / den
    env = _Env(trace=False, time_unit=eu, datetime0=D0[d0]) if eu else _Env(trace=False, datetime0=D0[d0])
    eu = eu or "seconds"
    base = D0V[d0]
    if start:
        env.run(start)
    shift = F(0)
    if reset is not None:
        env.reset_now(reset)
        shift = F(start) - F(reset)
    secs = (F(num, den) + shift) * UNITS[eu]
    want = base + datetime.timedelta(microseconds=us(secs))
    if st is not None:
        st.trans(6)
        st.state((eu, d0, str(want)))
        st.outcome(eu)
    exact = abs(us(secs) - secs * 1000000) > F(2, 5)  # too close to half a microsecond to tell
    got = env.t_to_datetime(t)
    if abs(got - want) > datetime.timedelta(microseconds=1 if exact else 0) and abs((got - want).total_seconds()) > 1e-6:
        return f"t_to_datetime({t}) in {eu} is {got}, expected {want}"
    back = env.datetime_to_t(got)
    if abs(back - t) > 1.1 * float(F(1, 1000000) / UNITS[eu]) + 1e-9 * abs(t):
        return f"datetime_to_t(t_to_datetime({t})) = {back}"
    if env.time_to_str(t) != text_of(got):
        return f"time_to_str({t}) is {env.time_to_str(t)!r}, expected {text_of(got)!r}"
    d = F(num, den) * UNITS[eu]
    delta = env.duration_to_timedelta(t)
    if abs(delta - datetime.timedelta(microseconds=us(d))) > datetime.timedelta(microseconds=1):
        return f"duration_to_timedelta({t}) in {eu} is {delta}"
    back = env.timedelta_to_duration(delta)
    if abs(back - t) > 1.1 * float(F(1, 1000000) / UNITS[eu]) + 1e-9 * abs(t):
        return f"timedelta_to_duration(duration_to_timedelta({t})) = {back}"
    s = us(d) // 1000000
    days, s = divmod(s, 86400)
    txt = f"{s // 3600:02d}:{s // 60 % 60:02d}:{s % 60:02d}"
    if days:
        txt = f"{days} {txt}"
    if env.duration_to_str(t) != txt:
        return f"duration_to_str({t}) in {eu} is {env.duration_to_str(t)!r}, expected {txt!r}"
    if env.spec_to_time(got) != env.datetime_to_t(got) or env.spec_to_time(lambda: got) != env.datetime_to_t(got):
        return "spec_to_time of a datetime"
    if env.spec_to_duration(delta) != env.timedelta_to_duration(delta):
        return "spec_to_duration of a timedelta"
    if env.spec_to_time(t) != t or env.spec_to_duration(t) != t:
        return "spec_to_time of a number"
    if env.datetime0() != base + datetime.timedelta(microseconds=us(shift * UNITS[eu])):
        return f"datetime0() {env.datetime0()}"


def plain_text(case, st):
    t, = case
    env = _Env(trace=False)
    if st is not None:
        st.trans()
        st.state(case)
        st.outcome("text")
    if env.time_to_str(t) != "%10.3f" % t:
        return f"time_to_str({t}) is {env.time_to_str(t)!r}"
    if env.duration_to_str(t) != "%.3f" % t:
        return f"duration_to_str({t}) is {env.duration_to_str(t)!r}"


# ---------------------------------------------------------------------------------------------------- entry points
def spec_time(kind, env, t, base, eu, shift):
    """the (user) time t, in one of the equivalent forms"""
    d = base + datetime.timedelta(microseconds=us((F(t) + F(shift)) * UNITS[eu]))
    if kind == "number":
        return t
    if kind == "datetime":
        return d
    if kind == "str":
        return str(d)
    if kind == "callable number":
        return lambda: t
    if kind == "callable datetime":
        return lambda: d
    if kind == "callable str":
        return lambda: str(d)
    if kind == "constant":
        return sim.Constant(t, env=env)


def spec_duration(kind, env, t, eu):
    d = datetime.timedelta(microseconds=us(F(t) * UNITS[eu]))
    if kind == "number":
        return t
    if kind == "datetime":
        return d
    if kind == "str":
        return str(d)
    if kind == "callable number":
        return lambda: t
    if kind == "callable datetime":
        return lambda: d
    if kind == "callable str":
        return lambda: str(d)
    if kind == "constant":
        return sim.Constant(t, env=env)


KINDS = ("number", "datetime", "str", "callable number", "callable datetime", "callable str", "constant")
ENTRIES_T = ("activate at", "component at", "hold till", "request fail_at", "get fail_at", "wait fail_at", "wait_for fail_at", "from_store fail_at", "to_store fail_at", "run till", "event at", "generator at", "generator till", "generator moments", "reset_now")
ENTRIES_D = ("activate delay", "component delay", "hold", "request fail_delay", "get fail_delay", "wait fail_delay", "wait_for fail_delay", "from_store fail_delay", "to_store fail_delay", "run", "event delay", "generator delay", "generator duration", "activate at+delay")


def entry(case, st):
    what, kind, eu, d0, t, start, reset = case
    base = D0V[d0]
    env = _Env(trace=False, time_unit=eu, datetime0=D0[d0], yieldless=True)
    now = start
    shift = 0
    if start:
        env.run(start)
    if reset is not None:
        env.reset_now(reset)
        shift = start - reset
        now = reset
    duration = what in ENTRIES_D
    if duration:
        v = spec_duration(kind, env, t, eu)
        want = now + t
    else:
        v = spec_time(kind, env, now + t, base, eu, shift)
        want = now + t
    log = []
    key = what.split()[-1]
    name = what.split()[0]
    kw = {key: v}
    res = sim.Resource("r", capacity=0, env=env)
    state = sim.State("s", env=env)
    store = sim.Store("st", env=env)
    full = sim.Store("f", capacity=0, env=env)

    class P(sim.Component):
        def process(self):
            log.append(env.now())
            yes = None
            if name == "hold":
                self.hold(till=v) if key == "till" else self.hold(v)
            elif name in ("request", "get"):
                getattr(self, name)(res, **kw)
            elif name == "wait":
                self.wait(state, **kw)
            elif name == "wait_for":
                self.wait_for(lambda: False, [state], **kw)
            elif name == "from_store":
                self.from_store(store, **kw)
            elif name == "to_store":
                self.to_store(full, sim.Component(env=env), **kw)
            log.append((env.now(), self.failed()))

    class Q(sim.Component):
        def process(self):
            log.append(env.now())

    if name in ("hold", "request", "get", "wait", "wait_for", "from_store", "to_store"):
        P(env=env)
        env.run(100)
        expect = [now, (want, name != "hold")]
    elif name == "component":
        Q(env=env, **kw)
        env.run(100)
        expect = [want]
    elif what == "activate at+delay":
        q = Q(env=env, process="")
        q.activate(at=now + 1, delay=v)
        env.run(100)
        expect = [want + 1]
    elif name == "activate":
        q = Q(env=env, process="")
        q.activate(**kw)
        env.run(100)
        expect = [want]
    elif name == "event":
        sim.Event(lambda: log.append(env.now()), env=env, **kw)
        env.run(100)
        expect = [want]
    elif name == "run":
        env.run(till=v) if key == "till" else env.run(v)
        log.append(env.now())
        expect = [want]
    elif name == "reset_now":
        env.reset_now(v)
        log.append(env.now())
        # the clock changes, the calendar does not
        log.append(us(F((env.t_to_datetime(env.now()) - base).total_seconds())))
        expect = [want, us(F(start) * UNITS[eu])]
    elif what == "generator moments":
        sim.ComponentGenerator(Q, moments=[v, now + 2 * t], env=env)
        env.run(100)
        expect = [want, now + 2 * t]
    elif what in ("generator at", "generator delay"):
        sim.ComponentGenerator(Q, iat=1, number=2, env=env, **kw)
        env.run(100)
        expect = [want + 1, want + 2]
    else:
        sim.ComponentGenerator(Q, iat=t / 2, env=env, **kw)
        env.run(100)
        expect = [now + t / 2, now + t]
    if st is not None:
        st.trans(len(log))
        st.state((what, log))
        st.outcome(what)
    flat = lambda l: [x for e in l for x in (e if isinstance(e, tuple) else (e,))]
    a, b = flat(log), flat(expect)
    if len(a) != len(b) or any(abs(x - y) > 1e-6 for x, y in zip(a, b)):
        return f"{what} = {v!r}: {log}, expected {expect}"


def traces(case, st):
    """the printed trace shows the times at which things happened"""
    eu, d0, start, reset, t = case
    out = io.StringIO()
    kw = dict(datetime0=D0[d0]) if d0 else {}
    env = _Env(trace=out, time_unit=eu, yieldless=True, **kw)
    if start:
        env.run(start)
    shift = 0
    now = start
    if reset is not None:
        env.reset_now(reset)
        shift = start - reset
        now = reset
    out.seek(0)
    out.truncate()
    when = []

    class P(sim.Component):
        def process(self):
            when.append(env.now())
            self.hold(t)
            when.append(env.now())

    P("abc", delay=t, env=env)
    env.run(5 * t)
    lines = out.getvalue().splitlines()
    if st is not None:
        st.trans(len(lines))
        st.state(lines)
        st.outcome(str(eu))
    if when != [now + t, now + 2 * t]:
        return f"happened at {when}"
    width = len(env.time_to_str(0))
    cur = [l for l in lines if l[7 + width :].split()[:2] == ["abc", "current"]]
    if d0:
        base = D0V[d0]
        want = [text_of(base + datetime.timedelta(microseconds=us((F(x) + F(shift)) * UNITS[eu]))) for x in when]
    else:
        want = ["%10.3f" % x for x in when]
    got = [l[7 : 7 + width] for l in cur]
    if got != want:
        return f"times in the trace {got}, expected {want}"
    sch = [l for l in lines if "scheduled for" in l]
    if d0 is None:
        wt = [f"scheduled for {env.time_to_str(now + t).strip()}", f"scheduled for {env.time_to_str(now + 2 * t).strip()}"]
    else:
        wt = [f"scheduled for {env.time_to_str(now + t).strip()}", f"scheduled for {env.time_to_str(now + 2 * t).strip()}"]
    sch = [l for l in sch if "main" not in l]
    for a, b in zip(wt, sch):
        if a not in b:
            return f"trace line {b!r} does not contain {a!r}"
    if len(sch) < 2:
        return f"schedule lines {sch}"


def frames(case, st):
    """as_dataframe and as_resampled_dataframe with datetimes"""
    eu, d0, reset, times = case
    env = _Env(trace=False, time_unit=eu, datetime0=D0[d0], yieldless=True)
    m = sim.Monitor("m", level=True, initial_tally=0, env=env)
    m1 = sim.Monitor("n", env=env)
    for i, t in enumerate(times):
        env.run(t)
        m.tally(i + 1)
        m1.tally(i + 1)
    shift = 0
    if reset is not None:
        shift = env.now() - reset
        env.reset_now(reset)
    env.run(1)
    a = m.as_dataframe()
    b = m.as_dataframe(use_datetime0=True)
    a1 = m1.as_dataframe()
    b1 = m1.as_dataframe(use_datetime0=True)
    if st is not None:
        st.trans(len(times))
        st.state((case, len(a)))
        st.outcome(eu)
    for x, y in ((a, b), (a1, b1)):
        if list(x.columns) != list(y.columns) or len(x) != len(y):
            return f"{x} / {y}"
        for t, d in zip(x["t"], y["t"]):
            # (the t-values of a monitor are not affected by reset_now, as documented)
            want = D0V[d0] + datetime.timedelta(seconds=t * float(UNITS[eu]))
            if abs((want - d.to_pydatetime()).total_seconds()) > 1e-5:
                return f"t={t} shown as {d}, expected {want}"
        if list(x[x.columns[-1]]) != list(y[y.columns[-1]]):
            return "values differ"
    dt = datetime.timedelta(seconds=float(UNITS[eu] / 2))
    c = m.as_resampled_dataframe(delta_t=0.5)
    d = m.as_resampled_dataframe(delta_t=dt, use_datetime0=True)
    if len(c) != len(d) or list(c[c.columns[-1]]) != list(d[d.columns[-1]]):
        return f"resampled with a timedelta:\n{c}\n{d}"
    for t, x in zip(c["t"], d["t"]):
        if abs((env.t_to_datetime(t) - x.to_pydatetime()).total_seconds()) > 1e-5:
            return f"resampled t={t} shown as {x}"
    lo, hi = float(c["t"][1]), float(c["t"][len(c) - 2])
    e = m.as_resampled_dataframe(delta_t=0.5, min_t=lo, max_t=hi)
    g = m.as_resampled_dataframe(delta_t=dt, min_t=env.t_to_datetime(lo), max_t=env.t_to_datetime(hi), use_datetime0=True)
    if list(e[e.columns[-1]]) != list(g[g.columns[-1]]):
        return f"resampled from {lo} to {hi}:\n{e}\n{g}"


def families(tier):
    th = tier == "thorough"
    fams = []
    ts = (0, 1, 2, 0.5, 24, 60, 365, 1000, 0.0625, -1, -2.5) if not th else (0, 1, 2, 0.5, 24, 60, 365, 1000, 0.0625, -1, -2.5, 7, 3600, 1e6, 1e-3, 12345.678)
    cases = [(e, u, t) for e in UNITS for u in UNITS for t in ts]
    fams.append(Family("conversions", cases, conversions, "all pairs of units, all functions", setup))
    cases = [(n,) for n in list(UNITS) + ["to_" + u for u in UNITS] + ["to_time_unit", "dist"]]
    fams.append(Family("no time unit", cases, no_unit, "without time unit", setup))
    fams.append(Family("monitors", [(e, u) for e in UNITS for u in UNITS], monitors, "all pairs of units", setup))
    grid = (0.0, 0.3, 0.9)
    cases = [(n, e, u, d) for n in DISTS for e in UNITS for u in UNITS for d in itertools.product(grid, repeat=2)]
    fams.append(Family("distributions", cases, dists, "all distributions x all pairs of units x draws", setup))
    cases = []
    nums = [(n, 60) for n in range(0, 200, 1 if th else 3)] + [(n, 16) for n in range(0, 70, 3)] + [(n, 10) for n in range(0, 50)] + [(100, 1), (400, 1), (1000, 1), (86399, 1), (86400, 1), (999999, 1)]
    for e in [None] + list(UNITS):
        for d0 in D0:
            for n, d in nums:
                if n / d * float(UNITS[e or "seconds"]) > 30 * 31536000:
                    continue
                for start, reset in ((0, None), (2, 0), (1, 3)):
                    cases.append((e, d0, n, d, start, reset))
    fams.append(Family("datetimes", cases, datetimes, "all units x 4 base dates x times x clock (reset or not)", setup))
    fams.append(Family("plain text", [(n / d,) for n, d in nums] + [(inf,)], plain_text, "without datetime0", setup))
    cases = []
    for what in ENTRIES_T + ENTRIES_D:
        for kind in KINDS:
            for e in ("minutes", "hours", "seconds", "days") if not th else ("minutes", "hours", "seconds", "days", "weeks"):
                for t in (4, 6, 3.5):
                    if "str" in kind and what in ENTRIES_D and t * UNITS[e] >= 86400:
                        continue
                    for start, reset in ((0, None), (2, None), (2, 0), (1, 5)):
                        if what == "reset_now" and reset is not None:
                            continue
                        cases.append((what, kind, e, "date", t, start, reset))
    fams.append(Family("entry points", cases, entry, "every method taking a time or duration x every form of it x units x clock", setup))
    cases = [(e, d0, s, r, t) for e in UNITS for d0 in list(D0) + [None] for s, r in ((0, None), (2, None), (2, 0), (1, 5)) for t in (1, 2.5)]
    fams.append(Family("traces", cases, traces, "units x base dates x clock", setup))
    try:
        import pandas  # noqa

        cases = [(e, d0, r, ts) for e in ("seconds", "minutes", "hours", "days") for d0 in ("date", "true") for r in (None, 0, 7) for n in (1, 2, 3) for ts in itertools.product((1, 1.5, 0.25), repeat=n)]
        fams.append(Family("data frames", cases, frames, "level and non level monitors, resampling, with datetimes", setup))
    except ImportError:
        pass
    return fams
