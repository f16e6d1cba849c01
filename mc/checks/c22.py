"""C22: seeds and random streams: every interleaving of draws and seedings against python's own generators."""

import hashlib
import itertools
import json
import os
import random
import subprocess
import sys

from mc import core, driver
from mc.core import Family
from mc.driver import Driver, history_family
from mc.ops import enabled_fn, RUN1, END

PROPERTY = "C22"
ASSUMPTIONS = [
    "sequences of 4-5 draws and seedings over 7 distributions on 3 random streams and numpy's",
    "model runs: a queueing model with all kinds of random input for 24 seeds, and all kernel/resource/state/store histories of depth 3 (which must not draw at all)",
]
sim = None


def setup():
    global sim, _Env
    driver.setup()
    sim = driver.sim
    _Env = driver._Env


class Ref:
    """python's generators"""

    def __init__(self):
        import numpy

        self.g = random.Random(1234567)
        self.r = random.Random(5)
        self.n = numpy.random.RandomState(1234567)
        self.known = True
        self.nknown = True

    def seed(self, seed, numpy=True):
        if seed == "":
            return
        if seed == "*":
            self.known = False
            self.nknown = self.nknown and not numpy
            return
        if seed is None:
            seed = 1234567
        self.g.seed(seed)
        self.known = True
        if numpy:
            self.n.seed(seed)
            self.nknown = True

    def draw(self, k):
        g, r = self.g, self.r
        if k == "uniform":
            return g.uniform(1, 3)
        if k == "exponential":
            return g.expovariate(1 / 2)
        if k == "string":
            return g.triangular(1, 5, 2)
        if k == "pdf":
            return 1 if g.random() < 0.25 else 2
        if k == "expression":
            return g.uniform(1, 3) + r.uniform(1, 3)
        if k == "own uniform":
            return r.uniform(1, 3)
        if k == "own string":
            return r.expovariate(1 / 3)
        if k == "own gauss":
            return r.gauss(1, 2)
        if k == "own pdf":
            return [7, 8, 9][r.sample(range(3), 1)[0]]
        if k == "external":
            return g.uniform(2, 4)
        if k == "numpy":
            return float(self.n.uniform(1, 3))


GLOBAL = {"uniform", "exponential", "string", "pdf", "expression", "external"}


def build(env, r):
    import numpy

    return {
        "uniform": sim.Uniform(1, 3, env=env),
        "exponential": sim.Exponential(2, env=env),
        "string": sim.Distribution("Tri(1,5,2)"),
        "pdf": sim.Pdf((1, 1, 2, 3), env=env),
        "expression": sim.Uniform(1, 3, env=env) + sim.Uniform(1, 3, randomstream=r, env=env),
        "own uniform": sim.Uniform(1, 3, randomstream=r, env=env),
        "own string": sim.Distribution("Exp(3)", randomstream=r),
        "own gauss": sim.Normal(1, 2, use_gauss=True, randomstream=r, env=env),
        "own pdf": sim.Pdf((7, 8, 9), 1, randomstream=r, env=env),
        "external": sim.External(random.uniform, 2, 4, env=env),
        "numpy": sim.External(numpy.random.uniform, 1, 3, env=env),
    }


def check(ops, st):
    import numpy

    env = _Env(trace=False, time_unit="minutes")  # seeds 1234567
    r = random.Random(5)
    ref = Ref()
    # the generators start in step with the reference
    env1 = _Env(trace=False, random_seed=None)
    dists = build(env, r)
    for k, op in enumerate(ops):
        if op[0] == "draw":
            got = dists[op[1]]()
            want = ref.draw(op[1])
            if op[1] == "numpy":
                ok = not ref.nknown or got == want
            else:
                ok = (op[1] in GLOBAL and not ref.known) or got == want
            if st is not None:
                st.outcome(op[1])
                st.state((op[1], want))
            if not ok:
                return f"operation {k} ({op}): {got}, expected {want}"
        elif op[0] == "seed":
            sim.random_seed(op[1], **op[2])
            ref.seed(op[1], op[2].get("set_numpy_random_seed", True))
        elif op[0] == "env":
            _Env(trace=False, **op[1])
            ref.seed(op[1].get("random_seed"), op[1].get("set_numpy_random_seed", True))
        elif op[0] == "stream":
            sim.random_seed(op[1], randomstream=r, set_numpy_random_seed=False)
            if op[1] != "":
                ref.r.seed(1234567 if op[1] is None else op[1])
        elif op[0] == "state":
            sim.random_seed(op[1], set_numpy_random_seed=False)
            ref.seed(op[1], False)
        if st is not None:
            st.trans()


# ---------------------------------------------------------------------------------------------------- models
def model(seed, mode, trace, extra):
    """a small queueing model with all kinds of random input; returns the complete log"""
    log = []
    env = _Env(trace=trace and open(os.devnull, "w"), yieldless=mode, random_seed=seed)
    res = sim.Resource("r", capacity=2, preemptive=True, env=env)
    own = random.Random(99)
    typ = sim.Pdf(("a", 1, "b", 3), env=env)
    srv = sim.Bounded(sim.Normal(3, 1), 0.5)
    prio = sim.IntUniform(0, 2, env=env)
    pat = sim.Distribution("1,4", randomstream=own)

    if mode:

        class Car(sim.Component):
            def process(self):
                t = typ()
                log.append((env.now(), self.name(), t))
                self.request((res, 1, prio()), fail_delay=pat)
                if self.failed():
                    log.append((env.now(), self.name(), "gone"))
                    return
                self.hold(srv)
                if self.isclaiming(res):
                    self.release()
                log.append((env.now(), self.name(), "done"))

    else:

        class Car(sim.Component):
            def process(self):
                t = typ()
                log.append((env.now(), self.name(), t))
                yield self.request((res, 1, prio()), fail_delay=pat)
                if self.failed():
                    log.append((env.now(), self.name(), "gone"))
                    return
                yield self.hold(srv)
                if self.isclaiming(res):
                    self.release()
                log.append((env.now(), self.name(), "done"))

    sim.ComponentGenerator(Car, iat=sim.Exponential(1.5), till=15, env=env)
    sim.ComponentGenerator(Car, duration=10, number=4, env=env)
    if extra:
        # observation and other streams in between
        noise = random.Random(3)
        u = sim.Uniform(0, 1, randomstream=noise)
        for _ in range(5):
            u()
        res.print_info(as_str=True)
        env.run(5)
        res.print_statistics(as_str=True)
        u()
        env.run(till=10)
        res.requesters().length_of_stay.print_histogram(as_str=True)
        env.run(till=30)
    else:
        env.run(till=30)
    log.append((res.requesters().length.mean(), res.occupancy.mean(), res.claimers().length_of_stay.mean()))
    return log


def models(case, st):
    seed, mode, trace, extra, between = case
    a = model(seed, mode, False, False)
    if between:
        model(between, mode, False, False)
        sim.Uniform(0, 1)()
    b = model(seed, mode, trace, extra)
    if st is not None:
        st.trans(len(a))
        st.state((seed, a))
        st.outcome(f"{len(a) // 10 * 10}+ events")
    if repr(a) != repr(b):
        for x, y in itertools.zip_longest(a, b):
            if repr(x) != repr(y):
                return f"the second run with the same seed differs: {x} / {y}"
    c = model((seed or 0) + 1000, mode, False, False)
    if repr(c) == repr(a):
        return "another seed gives exactly the same run"


# ---------------------------------------------------------------------------------------------------- generators and distributions
GENERATORS = {
    "iat": lambda n: dict(iat=sim.Exponential(0.25), number=n),
    "iat till": lambda n: dict(iat=sim.Exponential(0.5), till=n / 2),
    "iat force": lambda n: dict(iat=sim.Uniform(0.1, 1), number=n, force_at=True, at=1),
    "disturbance": lambda n: dict(iat=0.5, number=n, disturbance=sim.Uniform(-0.25, 0.25)),
    "spread": lambda n: dict(till=40, number=n),
    "spread duration": lambda n: dict(at=3, duration=20, number=n),
    "spread force": lambda n: dict(duration=30, number=n, force_at=True, force_till=n > 1),
    "equidistant": lambda n: dict(equidistant=True, duration=30, number=max(n, 2), disturbance=sim.Uniform(0, 2)),
    "random number": lambda n: dict(iat=1, number=sim.IntUniform(1, n)),
    "random times": lambda n: dict(iat=1, delay=sim.Uniform(0, 3), duration=sim.Uniform(10, n + 10)),
}


def gen_run(kind, n, seed, mode, classes):
    out = []
    env = _Env(trace=False, yieldless=mode, random_seed=seed)

    if mode:

        class A(sim.Component):
            def process(self):
                out.append((self.name(), env.now()))

        class B(sim.Component):
            def process(self):
                out.append((self.name(), env.now()))
                self.hold(sim.Uniform(1, 2))

    else:

        class A(sim.Component):
            def process(self):
                out.append((self.name(), env.now()))
                return
                yield

        class B(sim.Component):
            def process(self):
                out.append((self.name(), env.now()))
                yield self.hold(sim.Uniform(1, 2))

    cls = {"class": B, "pdf": sim.Pdf((A, 1, B, 3), env=env), "function": lambda: random.choice((A, B))()}[classes]
    sim.ComponentGenerator(cls, env=env, **GENERATORS[kind](n))
    env.run(500)
    out.append(random.random())
    return out


def generators(case, st):
    kind, n, seed, mode, classes = case
    sim.default_cap_now(False)
    a = gen_run(kind, n, seed, mode, classes)
    random.random()
    gen_run("iat", 3, 77, mode, "class")
    b = gen_run(kind, n, seed, mode, classes)
    if st is not None:
        st.trans(2 * len(a))
        st.state((kind, n, a))
        st.outcome(f"{kind}, {len(a) - 1} components")
    if a != b:
        for x, y in itertools.zip_longest(a, b):
            if x != y:
                return f"the second run with the same seed differs: {x} / {y}"
    if n >= 20 and gen_run(kind, n, (seed or 0) + 1000, mode, classes) == a:
        return "another seed gives exactly the same run"


DISTS = {
    "Exponential": lambda k: sim.Exponential(2, **k),
    "Exponential rate": lambda k: sim.Exponential(rate=2, **k),
    "Normal": lambda k: sim.Normal(5, 1, **k),
    "Normal gauss": lambda k: sim.Normal(5, 1, use_gauss=True, **k),
    "Normal coefficient": lambda k: sim.Normal(5, coefficient_of_variation=0.5, **k),
    "IntUniform": lambda k: sim.IntUniform(1, 1000, **k),
    "Uniform": lambda k: sim.Uniform(1, 3, **k),
    "Triangular": lambda k: sim.Triangular(1, 5, 2, **k),
    "Poisson": lambda k: sim.Poisson(3, **k),
    "Poisson large": lambda k: sim.Poisson(800, **k),
    "Weibull": lambda k: sim.Weibull(2, 3, **k),
    "Gamma": lambda k: sim.Gamma(2, 3, **k),
    "Gamma small": lambda k: sim.Gamma(0.5, 3, **k),
    "Gamma one": lambda k: sim.Gamma(1, 3, **k),
    "Beta": lambda k: sim.Beta(2, 3, **k),
    "Erlang": lambda k: sim.Erlang(2, 3, **k),
    "Cdf": lambda k: sim.Cdf((1, 0, 2, 25, 4, 75, 8, 100), **k),
    "Pdf": lambda k: sim.Pdf((1, 2, 3, 5, 8, 3), **k),
    "Pdf equal": lambda k: sim.Pdf((1, 2, 3, 4, 5), 1, **k),
    "Pdf nested": lambda k: sim.Pdf((sim.Uniform(1, 2, **k), 1, 3, 2), **k),
    "CumPdf": lambda k: sim.CumPdf((1, 20, 2, 70, 3, 100), **k),
    "string": lambda k: sim.Distribution("Uniform(1,3)", randomstream=k.get("randomstream")),
    "string short": lambda k: sim.Distribution("1,3", randomstream=k.get("randomstream")),
    "expression": lambda k: (sim.Uniform(1, 3, **k) + 1) * sim.Uniform(0, 1, **k),
    "Map": lambda k: sim.Map(sim.Uniform(1, 3, **k), lambda x: x * x),
    "Bounded": lambda k: sim.Bounded(sim.Normal(5, 2, **k), 4, 6),
}


def streams(case, st):
    """every distribution: draws from its own stream only (or from the global one), wholly determined by the seed"""
    kind, n, own = case
    env = _Env(trace=False, random_seed=11)
    seqs = []
    for rnd in range(2):
        random.seed(5)
        r = random.Random(9)
        kw = {}
        if own:
            kw["randomstream"] = r
        d = DISTS[kind](kw)
        g0, r0 = random.getstate(), r.getstate()
        seq = []
        for k in range(n):
            seq.append(d.sample() if k % 2 else d())
            if rnd:
                # another distribution on another stream in between
                if own:
                    random.random()
                else:
                    r.random()
        if st is not None:
            st.trans(n)
        if own and not rnd and random.getstate() != g0:
            return f"{kind} with its own random stream changed the global random stream"
        if not own and not rnd and r.getstate() != r0:
            return f"{kind} without a random stream changed another stream"
        seqs.append(seq)
    if st is not None:
        st.state((kind, seqs[0]))
        st.outcome(kind)
    if seqs[0] != seqs[1]:
        k = next(k for k in range(n) if seqs[0][k] != seqs[1][k])
        return f"{kind}: draw {k} with the same seed is {seqs[0][k]} and {seqs[1][k]}"
    if n >= 20 and len(set(map(repr, seqs[0]))) < 2:
        return f"{kind}: all draws equal"


def no_draws(world):
    def f(ops, st):
        """nothing in a model without random input draws or reseeds"""
        import numpy

        for mode in (True, False):
            random.seed(77)
            numpy.random.seed(78)
            w = dict(world, env={"random_seed": ""})
            s0, n0 = random.getstate(), numpy.random.get_state()[1].tolist()
            d = Driver(w, ops, mode)
            log = d.run()
            d.close()
            if st is not None:
                st.trans(len(log))
                st.state(log[-1])
                st.outcome(len(log))
            if random.getstate() != s0:
                return "random.getstate() changed by a model without random input"
            if numpy.random.get_state()[1].tolist() != n0:
                return "numpy.random.get_state() changed by a model without random input"

    return f


HASH_HISTORIES = [
    (("activate", 0, {}), ("activate", 1, {}), ("activate", 2, {}), RUN1)
    + tuple(x)
    for x in itertools.product(
        [("request", 0, {"args": ((0,), (1,))}), ("wait", 0, {"args": ((0,), (1,))}), ("from_store", 0, {"stores": (0, 1)})],
        [("request", 1, {"args": ((1,), (0,))}), ("wait", 1, {"args": ((1,), (0,))}), ("from_store", 1, {"stores": (1, 0)})],
        [("request", 2, {"args": ((0,), (1, 1, -1))}), ("set", None, {"s": 0}), ("item_enter", None, {"item": 0, "s": 1}), ("release", 0, {})],
    )
]


def digest():
    setup()
    world = dict(ncomp=3, resources=(dict(capacity=1), dict(capacity=1)), states=({}, {}), stores=({}, {}), nitems=2)
    h = hashlib.sha256()
    for ops in HASH_HISTORIES:
        for mode in (True, False):
            d = Driver(world, ops, mode)
            h.update(repr(d.run()).encode())
            d.close()
    for seed in (1, 2):
        h.update(repr(model(seed, True, False, True)).encode())
    return h.hexdigest()


_first = {}


def hashseeds(case, st):
    """the same results whatever PYTHONHASHSEED is"""
    out = []
    for seed in ("0", str(case)):
        env = dict(os.environ, PYTHONHASHSEED=seed)
        r = subprocess.run([sys.executable, "-c", "from mc.checks import c22; print(c22.digest())"], env=env, cwd=core.VERIF, capture_output=True, text=True, timeout=50)
        if r.returncode:
            return f"PYTHONHASHSEED={seed}: {r.stderr[-500:]}"
        out.append(r.stdout.strip())
    if st is not None:
        st.trans(len(HASH_HISTORIES))
        st.state(out)
        st.outcome("hash seed")
    if out[0] != out[1]:
        return f"results depend on PYTHONHASHSEED ({case})"


def families(tier):
    th = tier == "thorough"
    draws = [("draw", k) for k in ("uniform", "own uniform", "own gauss", "expression", "string", "own string", "pdf", "own pdf", "exponential", "external", "numpy")]
    seeds = [
        ("seed", 1, {}),
        ("seed", None, {}),
        ("seed", "", {}),
        ("seed", "*", {}),
        ("seed", 42, {"set_numpy_random_seed": False}),
        ("state", "text", {}),
        ("env", {}),
        ("env", {"random_seed": 8}),
        ("env", {"random_seed": ""}),
        ("env", {"random_seed": "*"}),
        ("env", {"random_seed": 9, "set_numpy_random_seed": False}),
        ("env", {"isdefault_env": False, "random_seed": 3}),
        ("stream", 6),
        ("stream", None),
        ("stream", ""),
    ]
    cases = []
    alph = draws + seeds
    for n in (3,) if not th else (4,):
        for ops in itertools.product(alph, repeat=n):
            if any(o[0] == "draw" for o in ops) and ops[-1][0] == "draw":
                cases.append(ops)
    # every seeding, with every pair of draws before and after
    small = [("draw", k) for k in ("uniform", "own uniform", "own gauss", "expression", "numpy")]
    for a, s, b, s1, c in itertools.product(small, seeds, small, seeds if th else seeds[:8:2], small):
        cases.append((a, s, b, s1, c))
    fams = [Family("draws and seedings", cases, check, "all sequences of 3 (4) over 11 distributions and 15 ways of seeding; two seedings with draws around them", setup)]
    cases = [(s, m, t, e, b) for s in ([None, 0] + list(range(1, 10 if not th else 60))) for m in (True, False) for t in (False, True) for e in (False, True) for b in (None, 7)]
    fams.append(Family("models", cases, models, "a queueing model, run twice for every seed, mode, trace, observation, other model in between", setup))
    cases = [(k, n, s, m, c) for k in GENERATORS for n in (1, 2, 5, 20, 60, 150) for s in ((None, 3) if not th else (None, 3, 4, 5)) for m in (True, False) for c in ("class", "pdf", "function") if c == "class" or k not in ("disturbance", "equidistant")]
    fams.append(Family("generators", cases, generators, "10 kinds of component generators with 1 to 150 components, run twice with the same seed", setup))
    cases = [(k, n, own) for k in DISTS for n in ((1, 2, 20, 300) if not th else (1, 2, 20, 300, 5000)) for own in (True, False)]
    fams.append(Family("streams", cases, streams, "26 distributions with and without an own stream, 1 to 300 (5000) draws", setup))

    R = {"args": ((0,),)}
    world = dict(ncomp=2, resources=(dict(capacity=1, preemptive=True),), states=(dict(),), stores=(dict(capacity=1),), nitems=1)
    per = [
        ("activate", {}),
        ("hold", {"duration": 1}),
        ("passivate", {}),
        ("standby", {}),
        ("interrupt", {}),
        ("request", {"args": ((0, 1, -1),), "fail_delay": 1}),
        ("release", {}),
        ("wait", {"args": ((0,),)}),
        ("from_store", {"stores": (0,)}),
    ]
    common = [("set", None, {"s": 0}), ("trigger", None, {"s": 0}), ("set_capacity", None, {"r": 0, "cap": 2}), ("item_enter", None, {"item": 0, "s": 0})]

    def free(m, op):
        return op[0] != "item_enter" or not any(e[0] == 0 for s in m.sto for e in s.items)

    f = history_family("no hidden draws", world, enabled_fn(per, common, (RUN1,), (END,), 2, free), 4 if th else 3, "all histories of 3 (4) operations, without random input", prefix=(("activate", 0, {}), ("activate", 1, {}), RUN1))
    f.check = no_draws(world)
    f.setup = setup
    fams.append(f)
    fams.append(Family("hash seeds", list(range(1, 9 if not th else 33)), hashseeds, "36 histories and 2 models under different PYTHONHASHSEED", setup))
    return fams
