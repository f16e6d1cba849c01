"""
C26: observation is free of side effects.

Every history (of a completely enumerated set) is executed once quietly (nothing is read until the very end) and then again
with one way of observing it: reading and printing everything at every control point, tracing (on, toggled at every control
point), monitors off, toggled, reset at every control point or memory-less.  The sequence of control, the final state of every component,
queue, resource, state and store, and the state of the random generator have to be the same.
"""

import contextlib
import io
import itertools
import math
import random

from mc import driver
from mc.core import Family
from mc.driver import Driver, history_family, MAIN
from mc.ops import enabled_fn, RUN1, RUN, END

inf = math.inf
PROPERTY = "C26"
ASSUMPTIONS = [
    "2-3 processes; histories of 2-4 operations; observation at every control point of main and the processes; animation, which is observation as well, is the subject of C32"
]
sim = None


class Sink(io.StringIO):
    pass


def monitors(d):
    out = []
    for c in d.comps:
        if c is not None and hasattr(c, "status"):
            out += [c.status, c.mode]
    qs = []
    for r in d.res:
        out += [r.capacity, r.claimed_quantity, r.available_quantity, r.occupancy]
        qs += [r.requesters(), r.claimers()]
    for s in d.sta:
        out.append(s.value)
        qs.append(s.waiters())
    for s in d.sto:
        qs += [s, s.from_store_requesters(), s.to_store_requesters()]
    for q in qs:
        out += [q.length, q.length_of_stay, q.capacity, q.available_quantity]
    return out, qs


def attempt(f):
    try:
        return f()
    except Exception:
        return None


def is_level(m):
    return "[level]" in repr(m)


def contents(m):
    """what a monitor recorded"""
    return (m.name(), tuple(map(tuple, (m.tx(ex0=False, add_now=False) if is_level(m) else m.tx()))))


def read_all(d, f):
    """everything that only reads or prints"""
    env = d.env
    mons, qs = monitors(d)
    env.print_info(file=f)
    f.write(repr(env) + repr(env.current_component()) + repr(env.main()) + env.main().name())
    env.now(), env.t(), attempt(env.peek)
    env.trace(), env.suppress_trace_linenumbers(), env.suppress_trace_standby()
    with env.suppress_trace():
        env.print_trace("1", "2", "3", "4")
    for c in d.comps:
        if c is None or not hasattr(c, "status"):
            continue
        c.print_info(file=f)
        c.print_info(as_str=True)
        f.write(repr(c) + c.name() + c.base_name() + str(c.sequence_number()))
        (c.ispassive(), c.iscurrent(), c.isrequesting(), c.iswaiting(), c.isscheduled(), c.isstandby(), c.isinterrupted(), c.isdata(), c.isbumped(), c.isclaiming())
        (c.status(), c.mode(), c.mode_time(), c.failed(), c.interrupt_level(), c.interrupted_status() if c.isinterrupted() else None, c.remaining_duration(), c.scheduled_time(), c.scheduled_priority())
        (c.creation_time(), c.running_process(), c.suppress_trace(), c.skip_standby(), c.suppress_pause_at_step(), c.queues(), c.count(), c.remove_animation_children if hasattr(c, "x") else None)
        (c.from_store_item(), c.from_store_store())
        for q in qs:
            (c in q, c.count(q), q.index(c), q.count(c))
            if c in q:
                c.priority(q), c.enter_time(q), c.successor(q), c.predecessor(q), q.successor(c), q.predecessor(c)
        for r in d.res:
            (c.requested_quantity(r), c.claimed_quantity(r), c.isclaiming(r), c.isbumped(r))
        c.requested_resources(), c.claimed_resources(), c.requested_quantity(), c.claimed_quantity()
        if not (d.yieldless and c.status() == "current"):
            c.line_number()
    for r in d.res:
        r.print_info(file=f), r.print_statistics(file=f), r.print_histograms(file=f), repr(r), r.name(), r.ispreemptive(), r.all_monitors()
    for s in d.sta:
        s.print_info(file=f), s.print_statistics(file=f), s.print_histograms(file=f), repr(s), s(), s.get(), s.all_monitors()
    for q in qs:
        q.print_info(file=f), q.print_statistics(file=f), q.print_histograms(file=f), repr(q), q.all_monitors()
        list(q), list(reversed(q)), len(q), q.head(), q.tail(), q[:], q.as_list(), q.as_set(), q == q, q.name(), q.arrival_rate(), q.departure_rate()
        q.component_with_name("c0"), list(q.components() if hasattr(q, "components") else ())
        if len(q):
            q[0], q[-1], q.index(q[0]), q.count(q[0])
        sum(1 for _ in q), max(q, default=None, key=lambda c: c.name()), sorted(q, key=lambda c: c.name())
    for m in mons:
        level = is_level(m)
        repr(m), m.name(), m.base_name(), m.monitor(), m.stats_only(), m.number_of_entries(ex0=False) if not level else m.duration()
        (m() if level else None, m.mean(), m.std(), m.minimum(), m.maximum(), m.print_statistics(as_str=True), m.print_histogram(file=f, values=True))
        if not m.stats_only():
            (m.xt(), m.tx(), m.x() if not level else m.xduration(), m.percentile(50), m.median(), m.print_histogram(as_str=True), m.values(), m.copy() if hasattr(m, "copy") else None)
            if level and not m.monitor() is False:
                m.freeze(), m.get(env.now()), m[:]
            m.bin_duration(0, 1) if level else m.bin_number_of_entries(0, 1)
            m.as_dataframe() if False else None
    d.dist.print_info(file=f), repr(d.dist), d.dist.mean()


class Quiet(Driver):
    variant = "quiet"

    def __init__(self, world, ops, yieldless=True, variant="quiet"):
        self.variant = variant
        random.seed(4711)
        self.sink = Sink()
        world = dict(world)
        e = dict(world.get("env", {}), random_seed="")
        world["env"] = e
        super().__init__(world, ops, yieldless)
        self.dist = sim.Uniform(1, 2, env=self.env)
        self.turn = 0
        v = variant
        if v in ("trace_nolines", "halfway"):
            self.env.suppress_trace_linenumbers(True)
        if v in ("trace", "trace_nolines"):
            self.env.trace(self.sink)
        if v == "trace_full":
            self.env.suppress_trace_standby(False)
            self.env.suppress_trace_linenumbers(False)
            self.env.trace(self.sink)
        if v == "off":
            for m in monitors(self)[0]:
                m.monitor(False)
        if v == "stats_only":
            for m in monitors(self)[0]:
                m.reset(stats_only=True)

    def next(self, who, proc):
        v = self.variant
        self.turn += 1
        if v == "loud":
            read_all(self, self.sink)
        elif v == "toggle":
            self.env.trace(self.sink if self.turn % 2 else False)
            self.env.suppress_trace_standby(self.turn % 3 == 0)
        elif v in ("trace", "trace_nolines"):
            self.sink.write(f"== {who} {proc}\n")
        elif v == "monitors":
            for k, m in enumerate(monitors(self)[0]):
                if (self.turn + k) % 3 == 0:
                    m.reset()
                else:
                    m.monitor((self.turn + k) % 2 == 0)
        elif v == "stats_only":
            for m in monitors(self)[0]:
                m.mean(), m.print_statistics(as_str=True)
        elif v == "switch_memory":
            for k, m in enumerate(monitors(self)[0]):
                m.reset(stats_only=(self.turn + k) % 2 == 0)
        elif v == "reset_all":
            self.env.reset_monitors() if hasattr(self.env, "reset_monitors") else None
            for x in [c for c in self.comps if c is not None] + self.res + self.sta + self.sto:
                x.reset_monitors(monitor=bool(self.turn % 2))
        self.log.append((who, proc, self.env.now()))
        if self.pos < len(self.ops):
            op = self.ops[self.pos]
            self.pos += 1
            return op
        self.flush += 1
        if self.flush > driver.FLUSH_LIMIT:
            raise driver.FlushLimit()
        return None

    def time_spec(self, v):
        if v[0] == "uni":
            return self.dist
        return super().time_spec(v)

    def final(self):
        """the end of the history: everything, with the monitors that were off switched on"""
        if self.variant in ("off", "monitors", "reset_all"):
            for m in monitors(self)[0]:
                m.monitor(True)
        if self.variant in ("trace", "trace_nolines", "trace_full", "toggle"):
            self.env.trace(False)
        s = self.snapshot()
        _, qs = monitors(self)
        rec = tuple(contents(m) for m in monitors(self)[0]) if self.variant in OBSERVING else None
        return (s, rec, tuple(tuple((self.nr.get(id(c), -9), c.enter_time(q)) for c in q) if q not in self.sto else tuple((self.itemnr[id(c)], c.enter_time(q)) for c in q) for q in qs), random.getstate()[1][-1], random.getstate()[1][0])

    def snapshot(self):
        if self.pos < 10**6 and not getattr(self, "_final", False):
            return None
        return super().snapshot()


def execute(world, ops, mode, variant):
    d = Quiet(world, ops, mode, variant)
    log = d.run()
    d._final = True
    exc = getattr(d, "exception", None)
    fin = d.final()
    out = d.sink.getvalue()
    d.close()
    return log, (type(exc).__name__, str(exc)) if exc is not None else None, fin, out


OBSERVING = ("quiet", "loud", "trace", "trace_full", "toggle")
VARIANTS = ("loud", "trace", "trace_full", "toggle", "off", "monitors", "stats_only", "switch_memory", "reset_all")


def check(world, ops, st, mode, variants):
    ref = execute(world, ops, mode, "quiet")
    if st is not None:
        st.trans(len(ref[0]) * (1 + len(variants)))
        st.state(ref[:3])
        st.outcome(f"{len(ref[0])} control points" + (f" {ref[1][0]}" if ref[1] else ""))
    for v in variants:
        got = execute(world, ops, mode, v)
        for what, a, b in zip(("sequence of control", "exception", "final state"), ref, got):
            if what == "final state" and v not in OBSERVING:
                a, b = a[:1] + a[2:], b[:1] + b[2:]
            if a != b:
                return f"{what} with observation {v!r}:\n  {b}\nwithout observation:\n  {a}"
        if v in ("trace", "trace_full", "toggle"):
            again = execute(world, ops, mode, v)
            if again[3] != got[3]:
                return f"trace output ({v}) of the same history differs:\n{got[3]}\n---\n{again[3]}"
        if v == "trace" and ref[1] is None and all(x.startswith("==") for x in got[3].splitlines()):
            return "no trace output"


def family(name, world, enabled, depth, bounds, prefix=(), mode=True, variants=VARIANTS):
    f = history_family(name, world, enabled, depth, bounds + "; observed in " + str(len(variants)) + " ways", prefix=prefix)
    base = f.setup

    def setup():
        global sim
        if base:
            base()
        sim = driver.sim

    f.setup = setup
    f.check = lambda ops, st: check(world, ops, st, mode, variants)
    return f


def start(n):
    return tuple(("activate", i, {}) for i in range(n)) + (RUN1,)


# ------------------------------------------------------------------------------------------------ suppress_trace and friends
def suppress_cases():
    """programs with nested blocks that set, suppress or leave (normally, by exception, by a process interaction) a setting"""
    ctxs = ("suppress_trace", "cap_now", "over3d")
    leaves = ("normal", "exception", "full")
    for ctx in ctxs:
        for depth in (1, 2, 3):
            for initial in (False, True):
                for ls in itertools.product(leaves, repeat=depth):
                    for vals in itertools.product((True, False), repeat=depth if ctx != "suppress_trace" else 0):
                        yield (ctx, initial, ls, vals)


class Oops(Exception):
    pass


def check_suppress(case, st):
    ctx, initial, leaves, vals = case
    env = driver._Env(trace=False, yieldless=True)
    q = sim.Queue("q", capacity=1, env=env)
    q1 = sim.Queue("q1", env=env)
    c = [sim.Component(env=env, process="") for _ in range(3)]
    c[0].enter(q)
    c[1].enter(q1)
    sink = Sink()
    if ctx == "suppress_trace":
        env.trace(sink if initial else False)
        get = env.trace
        inside = [False] * len(leaves)
        make = lambda k: env.suppress_trace()
    elif ctx == "cap_now":
        sim.default_cap_now(initial)
        get = sim.default_cap_now
        inside = list(vals)
        make = lambda k: sim.cap_now(vals[k])
    else:
        sim.default_over3d(initial)
        get = sim.default_over3d
        inside = list(vals)
        make = lambda k: sim.over3d(vals[k])
    try:

        def level(k):
            before = get()
            try:
                with make(k):
                    if get() is not inside[k] and get() != inside[k]:
                        return f"inside level {k}: setting is {get()}"
                    if k + 1 < len(leaves):
                        msg = level(k + 1)
                        if msg:
                            return msg
                    if get() is not inside[k]:
                        return f"inside level {k} after the inner block: setting is {get()}"
                    if leaves[k] == "exception":
                        raise Oops()
                    if leaves[k] == "full":
                        c[2].enter(q)
            except Oops:
                pass
            except sim.QueueFullError:
                pass
            if get() is not before:
                return f"after the block at level {k}: setting is {get()}, was {before}"

        msg = level(0)
        st.trans(len(leaves))
        st.state((ctx, initial, leaves, vals))
        st.outcome(f"{ctx} {leaves}")
        if msg:
            return msg
        if ctx == "suppress_trace":
            # refused operations that suppress the trace internally
            for op in (lambda: q1.move(q), lambda: q.extend([c[2]]), lambda: q.__iadd__([c[2]]), lambda: sim.Queue("x", fill=[c[0], c[0]], env=env), lambda: sim.Queue("y", fill=[c[0], c[1]], capacity=1, env=env), lambda: q1.copy(capacity=0) and None):
                before = get()
                try:
                    op()
                except Exception:
                    pass
                if get() is not before:
                    return f"trace setting {get()} after a refused queue operation, was {before}"
    finally:
        sim.default_cap_now(False)
        sim.default_over3d(False)


# ------------------------------------------------------------------------------------------------ suffix: trace switched on halfway shows exactly the rest
def check_halfway(world, ops, st):
    full = execute(world, ops, True, "trace_nolines")[3].splitlines()
    n = sum(1 for x in full if x.startswith("== "))
    for k in range(1, n + 1):
        d = Halfway(world, ops, True, "halfway")
        d.k = k
        d.run()
        d._final = True
        out = d.sink.getvalue().splitlines()
        d.close()
        st.trans()
        st.state((ops, k, len(out)))
        want = out and [i for i, x in enumerate(full) if x.startswith("== ")][k - 1]
        if out != (full[want:] if out else []):
            return f"trace switched on at control point {k}:\n" + "\n".join(out) + "\n--- the corresponding part of the complete trace:\n" + "\n".join(full[want:])
    st.outcome(n)


class Halfway(Quiet):
    def next(self, who, proc):
        if self.turn + 1 == self.k:
            self.env.trace(self.sink)
        if self.turn + 1 >= self.k:
            self.sink.write(f"== {who} {proc}\n")
        return super().next(who, proc)


# ------------------------------------------------------------------------------------------------ queues
def queue_run(case, variant):
    """one history of queue operations, observed in one way"""
    from mc import qmodel

    nq, nc, caps, hist = case
    sink = Sink()
    env = driver._Env(trace=False, yieldless=True)
    if variant == "trace":
        env.trace(sink)
    if variant == "trace_full":
        env.suppress_trace_linenumbers(False)
        env.trace(sink)
    cls = sim.Store if variant.startswith("store") else sim.Queue
    qs = [cls(f"q{i}", capacity=caps[i], env=env) for i in range(nq)]
    cs = [sim.Component(f"c{i}", env=env) for i in range(nc)]
    nr = {id(c): i for i, c in enumerate(cs)}
    if variant == "off":
        for q in qs:
            q.monitor(False)
    if variant == "memoryless":
        for q in qs:
            q.reset_monitors(stats_only=True)
    log = []
    for step, op in enumerate(hist):
        try:
            r = qmodel.real_op(op, qs, cs, env)
            log.append(nr.get(id(r), r if isinstance(r, (int, float)) else None))
        except (ValueError, IndexError, sim.QueueFullError) as e:
            log.append((type(e).__name__, str(e)))
        if variant == "toggle":
            env.trace(sink if step % 2 else False)
        if variant == "loud":
            for q in qs:
                q.print_info(file=sink), q.print_statistics(file=sink), q.print_histograms(file=sink), repr(q), q.all_monitors()
                list(q), list(reversed(q)), len(q), q.head(), q.tail(), q[:], q[::-1], q.as_list(), q.as_set(), q == q, q < q, q.name(), q.arrival_rate(), q.departure_rate()
                q.component_with_name("c0"), q.copy(), q + q, q - q, q & q, q | q, q ^ q, q.union(q), q.intersection(q), q.difference(q), q.symmetric_difference(q)
                it = iter(q)
                next(it, None)
                it = reversed(q)
                next(it, None)
                for m in q.all_monitors():
                    repr(m), m.mean(), m.print_statistics(as_str=True), m.print_histogram(as_str=True), m.xt(), m[:], m.freeze()
            for c in cs:
                c.print_info(file=sink), repr(c), c.queues(), c.count()
                for q in qs:
                    if c in q:
                        c.priority(q), c.enter_time(q), c.successor(q), c.predecessor(q), c.index(q), c.count(q)
        env.run(1)
    if variant in ("off",):
        for q in qs:
            q.monitor(True)
    fin = tuple(
        (tuple((nr[id(c)], c.priority(q), c.enter_time(q)) for c in q), q.length(), q.available_quantity(), q.capacity(), q.number_of_arrivals, q.number_of_departures, q.arrival_rate(), q.departure_rate())
        for q in qs
    )
    rec = None if variant in ("off", "memoryless") else tuple(contents(m)[1] for q in qs for m in q.all_monitors())
    sizes = tuple(c.count() for c in cs)
    if variant == "loud":
        # the queues that were made while reading are of course still there: count the ones of the model only
        sizes = tuple(sum(any(x is q for q in qs) for x in c.queues()) for c in cs)
    return log, fin, sizes, rec, sink.getvalue()


def check_queue(case, st):
    ref = queue_run(case, "quiet")
    st.state(ref[:3])
    st.outcome(str(ref[1][0][1]))
    for v in ("loud", "trace", "trace_full", "toggle", "off", "memoryless"):
        got = queue_run(case, v)
        st.trans(len(case[3]))
        for what, a, b in zip(("results", "final queues", "memberships", "recorded"), ref, got):
            if b is not None and a != b:
                return f"{what} with observation {v!r}:\n  {b}\nwithout observation:\n  {a}"
        if v == "trace" and not got[4]:
            return "no trace output"


# ------------------------------------------------------------------------------------------------ distributions and generators
DISTS = {
    "Exponential": lambda s, e: s.Exponential(2, env=e),
    "Normal": lambda s, e: s.Normal(5, 1, env=e),
    "Normal_gauss": lambda s, e: s.Normal(5, 1, use_gauss=True, env=e),
    "IntUniform": lambda s, e: s.IntUniform(1, 6, env=e),
    "Uniform": lambda s, e: s.Uniform(1, 6, env=e),
    "Triangular": lambda s, e: s.Triangular(1, 6, 2, env=e),
    "Constant": lambda s, e: s.Constant(3, env=e),
    "Poisson": lambda s, e: s.Poisson(3),
    "Weibull": lambda s, e: s.Weibull(2, 1.5, env=e),
    "Gamma": lambda s, e: s.Gamma(2, 1.5, env=e),
    "Beta": lambda s, e: s.Beta(2, 1.5),
    "Erlang": lambda s, e: s.Erlang(2, 1.5, env=e),
    "Cdf": lambda s, e: s.Cdf((0, 0, 1, 50, 4, 100), env=e),
    "Pdf": lambda s, e: s.Pdf((0, 20, 1, 50, 4, 30), env=e),
    "Pdf_dists": lambda s, e: s.Pdf((s.Uniform(1, 2, env=e), 20, s.Exponential(3, env=e), 50), env=e),
    "Pmf": lambda s, e: s.Pmf((1, 3, 2, 4), env=e),
    "CumPdf": lambda s, e: s.CumPdf((0, 20, 1, 50, 4, 100), env=e),
    "CumPmf": lambda s, e: s.CumPmf((1, 30, 2, 100), env=e),
    "External": lambda s, e: s.External(random.gammavariate, 2, 3, env=e),
    "Distribution": lambda s, e: s.Distribution("Uniform(2,3)"),
    "expression": lambda s, e: (s.Uniform(1, 2, env=e) + s.Exponential(3, env=e)) * 2 - 1,
    "map": lambda s, e: s.Map(s.Uniform(1, 2, env=e), lambda x: x * 2),
    "bounded": lambda s, e: s.Bounded(s.Exponential(3, env=e), 1, 4, env=e),
    "constant_expression": lambda s, e: -(s.Constant(3, env=e) ** 2) / s.IntUniform(1, 3, env=e),
}


def check_dist(case, st):
    name, pattern = case
    runs = []
    for observe in (False, True):
        env = driver._Env(trace=False, yieldless=True)
        env.random_seed(11)
        d = DISTS[name](sim, env)
        out = []
        f = Sink()
        for p in pattern:
            if p == "s":
                out.append(d.sample())
            elif p == "c":
                out.append(d())
            elif observe:
                if hasattr(d, "print_info"):
                    d.print_info(file=f), d.print_info(as_str=True)
                repr(d), d.mean(), repr(d)
        out.append(d())
        runs.append((out, random.getstate()))
    st.trans(len(pattern))
    st.state((name, runs[0][0]))
    st.outcome(name)
    if runs[0] != runs[1]:
        return f"{name}: sampling {pattern!r} (p: print_info, repr, mean) gives {runs[1][0]}, without printing {runs[0][0]}"


def check_generator(case, st):
    """a component generator that is looked at all the time"""
    iat, kw, mode = case
    runs = []
    for observe in (False, True):
        env = driver._Env(trace=False, yieldless=mode)
        env.random_seed(7)
        made = []

        class X(sim.Component):
            def setup(self):
                made.append((self.name(), env.now()))

            def process(self):
                made.append((self.name(), env.now()))

        class Y(X):
            def process(self):
                made.append((self.name(), env.now()))
                yield self.hold(0)

        def spec(v):
            return getattr(sim, v[0])(*v[1:], env=env) if isinstance(v, tuple) and isinstance(v[0], str) else v

        try:
            g = sim.ComponentGenerator(X if mode else Y, iat=spec(iat), env=env, **{n: spec(v) for n, v in kw.items()})
        except ValueError:
            st.outcome("refused")
            return
        f = Sink()
        for t in range(12):
            if observe:
                g.print_info(file=f), g.print_info(as_str=True), repr(g), g.name(), g.scheduled_time(), g.status(), env.print_info(file=f), attempt(env.peek)
            env.run(0.5)
        runs.append((made, g.status(), g.scheduled_time(), random.getstate()))
    st.trans(12)
    st.state(tuple(runs[0][0]))
    st.outcome(len(runs[0][0]))
    if runs[0] != runs[1]:
        return f"arrivals {runs[1][:3]} when looking, {runs[0][:3]} otherwise"


def families(tier):
    th = tier == "thorough"
    x = 1 if th else 0
    R = {"args": ((0,),)}
    fams = []

    def setup():
        global sim
        driver.setup()
        sim = driver.sim

    fams.append(Family("suppress", list(suppress_cases()), check_suppress, "all nestings (up to 3) of suppress_trace/cap_now/over3d blocks, left normally or by an exception; refused queue operations", setup=setup))
    from mc.checks import c06

    opsq = c06.alphabet1(3, (0, 1)) + [("set_capacity", 0, 1), ("set_capacity", 0, 2), ("extend_list", 0, (0, 1, 2))]
    fams.append(Family("queues", c06.bfs_paths(1, 3, (2,), opsq, 3 + x), check_queue, "all queue operations from every state of a queue (capacity 2, 3 components) reachable in 2 (3) operations; observed in 6 ways", setup=setup))
    cases = [(n, "".join(p)) for n in DISTS for k in (1, 2, 3, 4, 5) for p in itertools.product("spc", repeat=k) if "p" in p]
    fams.append(Family("distributions", cases, check_dist, "every distribution, all sequences of up to 5 samples and prints", setup=setup))
    iats = [None, 1, ("Uniform", 0.5, 1.5), ("Exponential", 1)]
    kws = [
        dict(a, **b, **c)
        for a in ({}, {"number": 3}, {"till": 4}, {"duration": 3}, {"number": 3, "till": 5}, {"number": ("IntUniform", 1, 4)})
        for b in ({}, {"at": 1}, {"delay": 0.5}, {"force_at": True}, {"force_till": True, "duration": 4})
        for c in ({}, {"disturbance": ("Uniform", 0, 0.4)}, {"moments": (1, 3, 2)}, {"equidistant": True})
        if not ("duration" in a and "duration" in b)
    ]
    cases = [(i, k, m) for i in iats for k in kws for m in (True, False)]
    fams.append(Family("generators", cases, check_generator, "component generators with all combinations of arguments, printed at every half time unit", setup=setup))
    world = dict(ncomp=2, resources=(dict(capacity=1),), states=(dict(),), stores=(dict(capacity=1),), nitems=1)
    per = [
        ("activate", {}),
        ("activate", {"process": "alt"}),
        ("hold", {"duration": 1}),
        ("hold", {"duration": ("uni", 1)}),
        ("passivate", {"mode": 1}),
        ("cancel", {}),
        ("standby", {}),
        ("interrupt", {}),
        ("resume", {}),
        ("request", R),
        ("request", dict(R, fail_delay=1)),
        ("wait", dict(R, fail_delay=1)),
        ("from_store", {"stores": (0,), "fail_delay": 1}),
        ("to_store", {"stores": (0,), "item": 0, "fail_delay": 1}),
        ("release", {}),
    ]
    from mc.checks.c24 import items_free

    def guard(m, op):
        if op[0] == "hold" and type(op[2]["duration"]) is tuple and op[1] != m.current:
            return False
        return items_free(m, op) and not (op[0] == "item_enter" and (m.sto[0].items or any(c.to_stores for c in m.comps)))

    common = (("set", None, {"s": 0}), ("item_enter", None, {"item": 0, "s": 0}))
    en = enabled_fn(per, common, (RUN1, RUN), (END,), 2, guard)
    fams.append(family("kernel", world, en, 3 + x, "2 processes, all operations on either, 3 (4) operations"))
    fams.append(family("kernel_yield", world, en, 2 + x, "as kernel, generator processes", mode=False))
    own = lambda m, op: (op[1] is None or op[1] == m.current or op[0] in ("cancel", "activate")) and items_free(m, op)
    per = [
        ("request", {"args": ((0, 1, 0),)}),
        ("request", {"args": ((0, 2, -2), (1,))}),
        ("request", {"args": ((1, 1), (0, 1, -1)), "oneof": True, "fail_delay": 1}),
        ("release", {}),
        ("hold", {"duration": 1}),
        ("cancel", {}),
    ]
    fams.append(
        family("resources", dict(ncomp=3, resources=(dict(capacity=2, preemptive=True), dict())), enabled_fn(per, (("set_capacity", None, {"r": 0, "cap": 1}),), (RUN1,), (END,), 3, own), 3 + x, "3 processes, a preemptive and a plain resource", prefix=start(3))
    )
    per = [
        ("get", {"args": ((0, 1),)}),
        ("get", {"args": ((0, 2), (1, 1)), "fail_delay": 1}),
        ("put", {"args": ((0, 1),)}),
        ("put", {"args": ((1, 1), (0, 1))}),
        ("hold", {"duration": 1}),
    ]
    fams.append(
        family("anonymous", dict(ncomp=3, resources=(dict(anonymous=True, capacity=2, initial_claimed_quantity=1), dict(anonymous=True, initial_claimed_quantity=0, capacity=1))), enabled_fn(per, (("set_capacity", None, {"r": 0, "cap": 3}),), (RUN1,), (END,), 3, own), 3 + x, "3 processes, 2 anonymous resources", prefix=start(3))
    )
    per = [
        ("wait", {"args": ((0,), (1, ("value", 2))), "all": True}),
        ("wait", {"args": ((1, ("fn_ge", 2)), (0, ("expr_in", (3,))))}),
        ("wait_for", {"cond": ("sum_ge", 3), "states": (0, 1), "fail_delay": 1}),
        ("hold", {"duration": 1}),
    ]
    glob = [("set", None, {"s": 0, "value": 1}), ("set", None, {"s": 1, "value": 2}), ("trigger", None, {"s": 0, "value": 1, "max": 1})]
    fams.append(family("states", dict(ncomp=3, states=(dict(value=0), dict(value=0))), enabled_fn(per, glob, (RUN1,), (END,), 3, own), 3 + x, "3 processes, 2 states", prefix=start(3)))
    per = [
        ("from_store", {"stores": (0, 1)}),
        ("from_store", {"stores": (0,), "key": "neg"}),
        ("to_store", {"stores": (0, 1), "item": 0}),
        ("to_store", {"stores": (1,), "item": 1, "fail_delay": 1}),
        ("hold", {"duration": 1}),
        ("filter", {"filter": "any"}),
    ]
    glob = [("item_enter", None, {"item": 2, "s": 0}), ("item_leave", None, {"item": 2, "s": 0})]
    fams.append(family("stores", dict(ncomp=3, nitems=3, stores=(dict(capacity=1), dict(capacity=1))), enabled_fn(per, glob, (RUN1,), (END,), 3, own), 3 + x, "3 processes, 2 stores, 3 items", prefix=start(3)))
    per = [("standby", {}), ("hold", {"duration": 1}), ("passivate", {}), ("activate", {}), ("cancel", {})]
    fams.append(family("standby", dict(ncomp=3, skip=(2,)), enabled_fn(per, (), (RUN1,), (END,), 3), 3 + x, "3 processes, standby", prefix=start(3)))
    half = family("halfway", world, en, 2 + x, "trace switched on at every control point of every history; compared with the complete trace")
    half.check = lambda ops, st: check_halfway(world, ops, st)
    fams.append(half)
    return fams
