"""C21: distributions: every draw of a grid through every distribution, against its textbook definition."""

import itertools
import math
import random

from mc import core
from mc.core import Family
from mc.checks.c23 import Controlled, controlled

inf = math.inf
nan = math.nan
PROPERTY = "C21"
ASSUMPTIONS = [
    "draws come from a grid including 0, the largest number below 1 and exact boundaries between outcomes; up to 4 draws per sample, then 0.5",
    "Normal, Gamma, Erlang, Beta: the value python's own normalvariate/gauss/gammavariate/betavariate makes of the same draws is the definition",
    "parameters from small domains; environment in minutes, distributions in no unit, seconds, hours or days",
    "mean() may be nan where the definition does not determine it from the means of the parts (products, powers, Map, Bounded)",
]
sim = None
BELOW1 = 1 - 2**-53
SECONDS = dict(years=31536000, weeks=604800, days=86400, hours=3600, minutes=60, seconds=1, milliseconds=1e-3, microseconds=1e-6)
GRID = (0.0, 2**-53, 0.0625, 0.25, 0.375, 0.5, 0.6875, 0.75, 0.9375, BELOW1)


def setup():
    global sim, _Env
    sim = core.load_salabim()

    class Env(sim.Environment):
        def an_modelname(self):
            pass

        def an_clocktext(self):
            pass

    _Env = Env


# ---------------------------------------------------------------------------------------------------- definitions

def exponential_mean(a):
    return a["mean"] if "mean" in a else 1 / a["rate"]


def scale_of(a):
    return a["scale"] if "scale" in a else 1 / a["rate"]


def tri(a):
    low = a["low"]
    high = a.get("high", low)
    return low, high, a.get("mode", (low + high) / 2)


def tri_sample(a, u):
    low, high, mode = tri(a)
    if high == low:
        return low
    f = (mode - low) / (high - low)
    if u <= f:
        return low + math.sqrt(u * (high - low) * (mode - low))
    return high - math.sqrt((1 - u) * (high - low) * (high - mode))


def cdf_points(a):
    sp = a["spec"]
    xs, cs = sp[::2], sp[1::2]
    return xs, [c / cs[-1] for c in cs]


def cdf_sample(a, u):
    xs, cs = cdf_points(a)
    for i in range(1, len(xs)):
        if u < cs[i]:
            return xs[i - 1] + (xs[i] - xs[i - 1]) * (u - cs[i - 1]) / (cs[i] - cs[i - 1])
    return xs[-1]


def cdf_mean(a):
    xs, cs = cdf_points(a)
    return sum((xs[i] + xs[i - 1]) / 2 * (cs[i] - cs[i - 1]) for i in range(1, len(xs)))


def sd(a):
    if "coefficient_of_variation" in a:
        return a["coefficient_of_variation"] * a["mean"]
    return a.get("standard_deviation", 0.0)


def poisson(lam, u, r):
    """smallest k with P(X <= k) >= u; where floating point cannot tell, the number of exponential interarrival times that fit in 1"""
    k = 0
    p = math.exp(-lam)
    s = p
    while s < u:
        k += 1
        p *= lam / k
        if s + p == s and k > 1:
            break
        s += p
    else:
        return k
    t = 0.0
    n = 0
    while True:
        u = r.random()
        t += inf if u == 0 else -math.log(u) / lam
        if t > 1:
            return n
        n += 1


DEF = {
    # name: (value of the draws of stream r, mean, time unit allowed)
    "Uniform": (lambda a, r: a["lowerbound"] + (a.get("upperbound", a["lowerbound"]) - a["lowerbound"]) * r.random(), lambda a: (a["lowerbound"] + a.get("upperbound", a["lowerbound"])) / 2, True),
    "Exponential": (lambda a, r: -math.log(1 - r.random()) * exponential_mean(a), exponential_mean, True),
    "Triangular": (lambda a, r: tri_sample(a, r.random()) if tri(a)[0] != tri(a)[1] else a["low"], lambda a: sum(tri(a)) / 3, True),
    "Constant": (lambda a, r: a["value"], lambda a: a["value"], True),
    "Weibull": (lambda a, r: a["scale"] * (-math.log(1 - r.random())) ** (1 / a["shape"]), lambda a: a["scale"] * math.gamma(1 + 1 / a["shape"]), True),
    "Cdf": (lambda a, r: cdf_sample(a, r.random()), cdf_mean, True),
    "Normal": (lambda a, r: (r.gauss if a.get("use_gauss") else r.normalvariate)(a["mean"], sd(a)), lambda a: a["mean"], True),
    "IntUniform": (lambda a, r: r.randint(a["lowerbound"], a.get("upperbound", a["lowerbound"])), lambda a: (a["lowerbound"] + a.get("upperbound", a["lowerbound"])) / 2, True),
    "Gamma": (lambda a, r: r.gammavariate(a["shape"], scale_of(a)), lambda a: a["shape"] * scale_of(a), True),
    "Erlang": (lambda a, r: r.gammavariate(a["shape"], scale_of(a)), lambda a: a["shape"] * scale_of(a), True),
    "Beta": (lambda a, r: r.betavariate(a["alpha"], a["beta"]), lambda a: a["alpha"] / (a["alpha"] + a["beta"]), False),
    "Poisson": (lambda a, r: poisson(a["mean"], r.random(), r), lambda a: a["mean"], False),
}

PARAMS = [
    ("Uniform", dict(lowerbound=1, upperbound=3)),
    ("Uniform", dict(lowerbound=-2, upperbound=0)),
    ("Uniform", dict(lowerbound=3)),
    ("Uniform", dict(lowerbound=2, upperbound=2)),
    ("Exponential", dict(mean=2)),
    ("Exponential", dict(rate=0.25)),
    ("Triangular", dict(low=1, high=5)),
    ("Triangular", dict(low=1, high=5, mode=2)),
    ("Triangular", dict(low=1, high=5, mode=1)),
    ("Triangular", dict(low=1, high=5, mode=5)),
    ("Triangular", dict(low=3)),
    ("Constant", dict(value=4)),
    ("Constant", dict(value=0)),
    ("Weibull", dict(scale=2, shape=1)),
    ("Weibull", dict(scale=2, shape=2)),
    ("Weibull", dict(scale=3, shape=0.5)),
    ("Cdf", dict(spec=(1, 0, 2, 0.5, 4, 1))),
    ("Cdf", dict(spec=(0, 0, 10, 4))),
    ("Cdf", dict(spec=(1, 0, 1, 0.5, 4, 1))),
    ("Cdf", dict(spec=(1, 0, 2, 0.25, 3, 0.25, 5, 1))),
    ("Cdf", dict(spec=(1, 0, 2, 10, 3, 40))),
]
PARAMS_MULTI = [
    ("Normal", dict(mean=10, standard_deviation=2)),
    ("Normal", dict(mean=10)),
    ("Normal", dict(mean=8, coefficient_of_variation=0.25)),
    ("Normal", dict(mean=0, standard_deviation=1, use_gauss=True)),
    ("Normal", dict(mean=-3, standard_deviation=1)),
    ("IntUniform", dict(lowerbound=1, upperbound=6)),
    ("IntUniform", dict(lowerbound=-1, upperbound=1)),
    ("IntUniform", dict(lowerbound=5)),
    ("Gamma", dict(shape=2, scale=3)),
    ("Gamma", dict(shape=0.5, scale=3)),
    ("Gamma", dict(shape=1, rate=0.5)),
    ("Gamma", dict(shape=3, rate=2)),
    ("Erlang", dict(shape=2, rate=0.5)),
    ("Erlang", dict(shape=1, scale=3)),
    ("Erlang", dict(shape=3, scale=2)),
    ("Beta", dict(alpha=1, beta=2)),
    ("Beta", dict(alpha=2, beta=3)),
    ("Beta", dict(alpha=0.5, beta=0.5)),
]


def build(form, name, args, unit, stream, env):
    """the distribution in one of its equivalent forms"""
    kw = dict(args)
    if form == "class":
        if unit:
            kw["time_unit"] = unit
        if stream is not None:
            kw["randomstream"] = stream
        if DEF.get(name, (0, 0, True))[2]:
            kw["env"] = env
        return getattr(sim, name)(**kw)
    if form == "string":  # time unit inside the specification
        s = ", ".join(f"{k}={v!r}" for k, v in kw.items())
        if unit:
            s += f", time_unit={unit!r}"
        return sim.Distribution(f"{name}({s})", randomstream=stream)
    if form == "string unit":  # time unit as parameter
        s = ", ".join(f"{k}={v!r}" for k, v in kw.items())
        return sim.Distribution(f"{name}({s})", randomstream=stream, time_unit=unit)
    if form == "string both":  # the one in the specification counts
        s = ", ".join(f"{k}={v!r}" for k, v in kw.items())
        return sim.Distribution(f"{name}({s}, time_unit={unit!r})", randomstream=stream, time_unit="weeks")
    raise ValueError(form)


def close(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
    return a == b and type(a) == type(b)


def factor(unit):
    return 1 if unit is None else SECONDS[unit] / SECONDS["minutes"]


def check(case, st):
    form, name, args, unit, own, draws = case
    env = _Env(trace=False, time_unit="minutes", random_seed="")
    decoy = [0.8125] * 8
    with controlled(decoy if own else draws):
        stream = Controlled(draws) if own else None
        d = build(form, name, args, unit, stream, env)
        got = [d(), d.sample()]
        mean = d.mean()
    ref = Controlled(draws)
    sample, m, _ = DEF[name]
    want = [sample(args, ref) * factor(unit) for _ in range(2)]
    if st is not None:
        st.trans(2)
        st.state((name, args, unit, want))
        st.outcome(name)
    if not all(close(a, b) for a, b in zip(got, want)):
        return f"samples {got}, expected {want}"
    if not close(mean, m(args) * factor(unit)):
        return f"mean {mean}, expected {m(args) * factor(unit)}"
    degenerate = args in (dict(low=3), dict(lowerbound=3), dict(lowerbound=5), dict(lowerbound=2, upperbound=2), dict(mean=10)) or name == "Constant"
    if own and not degenerate and stream.used != ref.used:
        return f"{stream.used} draws from its random stream, expected {ref.used}"


# ---------------------------------------------------------------------------------------------------- discrete ones
X = {"a": "a", "1": 1, "2": 2, "5.5": 5.5, "None": None, "U": ("Uniform", dict(lowerbound=10, upperbound=20)), "C": ("Constant", dict(value=7)), "E": "expr"}


def xvalue(x, stream, env):
    if isinstance(x, tuple) and x[0] in DEF:
        return getattr(sim, x[0])(env=env, randomstream=stream, **x[1])
    if isinstance(x, tuple) and x[0] == "expr":
        return sim.Uniform(x[1], x[2], env=env, randomstream=stream) + 1
    if isinstance(x, tuple) and x[0] == "hours":
        return sim.Uniform(x[1], x[2], "hours", env=env, randomstream=stream)
    return x


def xsample(x, r):
    if isinstance(x, tuple) and x[0] in DEF:
        return DEF[x[0]][0](x[1], r)
    if isinstance(x, tuple) and x[0] == "expr":
        return x[1] + (x[2] - x[1]) * r.random() + 1
    if isinstance(x, tuple) and x[0] == "hours":
        return (x[1] + (x[2] - x[1]) * r.random()) * 60
    return x


def xmean(x):
    if isinstance(x, tuple) and x[0] in DEF:
        return DEF[x[0]][1](x[1])
    if isinstance(x, tuple) and x[0] == "expr":
        return (x[1] + x[2]) / 2 + 1
    if isinstance(x, tuple) and x[0] == "hours":
        return (x[1] + x[2]) / 2 * 60
    try:
        return float(x)
    except (TypeError, ValueError):
        return nan


def discrete(case, st):
    """Pdf, Pmf, CumPdf, CumPmf in all forms"""
    cls, form, xs, ps, unit, draws = case
    env = _Env(trace=False, time_unit="minutes", random_seed="")
    stream, inner = Controlled(draws), Controlled((0.25, 0.75, 0.0))
    xs1 = [xvalue(x, inner, env) for x in xs]
    kw = dict(randomstream=stream, env=env)
    if unit:
        kw["time_unit"] = unit
    if cls in ("CumPdf", "CumPmf"):
        ps1 = list(itertools.accumulate(ps))
    else:
        ps1 = list(ps)
    if form == "pairs":
        d = getattr(sim, cls)(tuple(v for p in zip(xs1, ps1) for v in p), **kw)
    elif form == "list":
        d = getattr(sim, cls)([v for p in zip(xs1, ps1) for v in p], **kw)
    elif form == "dict":
        d = getattr(sim, cls)(dict(zip(xs1, ps1)), **kw)
    elif form == "two":
        d = getattr(sim, cls)(xs1, ps1, **kw)
    elif form == "two tuples":
        d = getattr(sim, cls)(tuple(xs1), tuple(ps1), **kw)
    elif form == "scalar":
        d = getattr(sim, cls)(xs1, 1, **kw)
    got = [d() for _ in draws]
    ref, rin = Controlled(draws), Controlled((0.25, 0.75, 0.0))
    want = []
    for _ in draws:
        if cls in ("Pdf", "Pmf") and len(set(ps)) == 1:
            x = xs[ref.sample(range(len(xs)), 1)[0]]
        else:
            u = ref.random()
            s = 0
            for x, p in zip(xs, ps):
                s += p
                if u * sum(ps) < s:
                    break
        w = xsample(x, rin)
        want.append(float(w) * factor(unit) if unit else w)
    m = [xmean(x) for x in xs]
    m = sum(a * p for a, p in zip(m, ps)) / sum(ps) * factor(unit)
    if st is not None:
        st.trans(len(draws))
        st.state((cls, xs, ps, unit, want))
        st.outcome(want[0])
    if not all(close(a, b) for a, b in zip(got, want)):
        return f"samples {got}, expected {want}"
    if not close(d.mean(), m):
        return f"mean {d.mean()}, expected {m}"


def several(case, st):
    """Pdf.sample(n): n different outcomes"""
    cls, k, n, equal, draws = case
    if equal == "sum" and k < 2:
        return None
    env = _Env(trace=False, time_unit="minutes", random_seed="")
    stream = Controlled(draws)
    xs = [10 * i for i in range(k - 1)] + [sim.Constant(99, env=env)]
    d = getattr(sim, cls)(xs, 1 if equal is True else [0.5, 1.5] + [1] * (k - 2) if equal == "sum" else list(range(1, k + 1)), randomstream=stream)
    if st is not None:
        st.trans()
        st.outcome((k, n, equal))
    try:
        got = d.sample(n)
    except ValueError:
        return None if (equal is not True and k > 1) or n < 0 else "refused"
    if (equal is not True and k > 1) or n < 0:
        return f"not refused: {got}"
    names = [10 * i for i in range(k - 1)] + [99]
    if st is not None:
        st.state(got)
    if not isinstance(got, list) or len(got) != min(n, k) or len(set(got)) != len(got) or not set(got) <= set(names):
        return f"sample({n}) of {names}: {got}"
    want = [names[i] for i in Controlled(draws).sample(range(k), min(n, k))]
    if got != want:
        return f"sample({n}) {got}, expected {want}"


def shares(case, st):
    """over an equally spaced grid of draws every outcome gets exactly its probability; the average is the mean"""
    name, args, n = case
    env = _Env(trace=False, time_unit="minutes", random_seed="")
    draws = [(i + (0.5 if name not in ("Pdf", "CumPdf", "Pmf", "CumPmf") else 0)) / n for i in range(n)]
    stream = Controlled(draws)
    d = getattr(sim, name)(randomstream=stream, **args)
    got = [d() for _ in draws]
    if st is not None:
        st.trans(n)
        st.state((name, args, got))
        st.outcome(name)
    if name in ("Pdf", "Pmf", "CumPdf", "CumPmf"):
        xs, ps = args["spec"][::2], args["spec"][1::2]
        if name.startswith("Cum"):
            ps = [b - a for a, b in zip((0,) + tuple(ps), ps)]
        for x, p in zip(xs, ps):
            if got.count(x) * sum(ps) != p * n:
                return f"outcome {x!r} {got.count(x)} times in {n} equally spaced draws, expected {p * n / sum(ps)}"
        if len(got) != sum(got.count(x) for x in xs):
            return f"values outside the outcomes: {set(got) - set(xs)}"
    avg = sum(got) / n
    if abs(avg - d.mean()) > 2e-2 * max(1, abs(d.mean())):
        return f"average {avg} over equally spaced draws, mean() {d.mean()}"


# ---------------------------------------------------------------------------------------------------- expressions
OPS = {
    "+": (lambda a, b: a + b, lambda a, b: a + b),
    "-": (lambda a, b: a - b, lambda a, b: a - b),
    "*": (lambda a, b: a * b, None),
    "/": (lambda a, b: a / b, None),
    "//": (lambda a, b: a // b, None),
    "**": (lambda a, b: a**b, None),
}


def expr(case, st):
    op, left, right, draws = case
    env = _Env(trace=False, time_unit="minutes", random_seed="")

    def mk(x, stream):
        if x == "U":
            return sim.Uniform(1, 3, randomstream=stream, env=env)
        if x == "Uh":
            return sim.Uniform(1, 3, "hours", randomstream=stream, env=env)
        if x == "C":
            return sim.Constant(2, env=env)
        if x == "Ch":
            return sim.Constant(2, "hours", env=env)
        if x == "UU":
            return sim.Uniform(1, 3, randomstream=stream, env=env) + sim.Uniform(1, 3, randomstream=stream, env=env)
        return x

    def val(x, r):
        if x == "U":
            return 1 + 2 * r.random()
        if x == "Uh":
            return (1 + 2 * r.random()) * 60
        if x == "C":
            return 2
        if x == "Ch":
            return 120
        if x == "UU":
            a = 1 + 2 * r.random()
            return a + 1 + 2 * r.random()
        return x

    def mean(x):
        return {"U": 2, "Uh": 120, "C": 2, "Ch": 120, "UU": 4}.get(x, x)

    stream = Controlled(draws)
    a, b = mk(left, stream), mk(right, stream)
    if op == "neg":
        d = -a
    elif op == "pos":
        d = +a
    elif op == "map":
        d = sim.Map(a, lambda x: x * x)
    else:
        d = OPS[op][0](a, b)
    got = d()
    r = Controlled(draws)
    if op == "neg":
        want, m = -val(left, r), -mean(left)
    elif op == "pos":
        want, m = val(left, r), mean(left)
    elif op == "map":
        v = val(left, r)
        want, m = v * v, None
    else:
        v0 = val(left, r)
        want = OPS[op][0](v0, val(right, r))
        m = None
        fixed = lambda x: not isinstance(x, str) or x in ("C", "Ch")
        if op in "+-" or (op == "*" and (fixed(left) or fixed(right))) or (op == "/" and fixed(right)):
            m = OPS[op][0](mean(left), mean(right))
    if st is not None:
        st.trans()
        st.state((case, want))
        st.outcome(op)
    if not close(got, want):
        return f"sample {got}, expected {want}"
    if m is None:
        if not math.isnan(d.mean()) and op == "map":
            return f"mean {d.mean()}, expected nan"
    elif not close(d.mean(), m):
        return f"mean {d.mean()}, expected {m}"


# ---------------------------------------------------------------------------------------------------- bounds
def bounded(case, st):
    how, kw, unit, draws = case
    env = _Env(trace=False, time_unit="minutes", random_seed="")
    stream = Controlled(draws)
    f = factor(unit)
    base = sim.Uniform(0, 4, unit, randomstream=stream, env=env)
    if how == "class":
        d = sim.Bounded(base, time_unit=unit, env=env, **kw)
        got = d()
    elif how == "method":
        if unit:
            kw = {k: (v * f if k in ("lowerbound", "upperbound") else v) for k, v in kw.items()}
        got = base.bounded_sample(**kw)
        if unit:
            kw = {k: (v / f if k in ("lowerbound", "upperbound") else v) for k, v in kw.items()}
    lo, hi = kw.get("lowerbound", -inf), kw.get("upperbound", inf)
    r = Controlled(draws)
    want = kw.get("fail_value", (lo if lo > -inf else hi) * f)
    n = kw.get("number_of_retries", 100)
    if lo == -inf and hi == inf:
        n = max(n, 1)
    for _ in range(n):
        v = 4 * r.random()
        if (v > lo or (v == lo and kw.get("include_lowerbound", True))) and (v < hi or (v == hi and kw.get("include_upperbound", True))):
            want = v * f
            break
    if st is not None:
        st.trans(r.used)
        st.state((case, want))
        st.outcome("fail value" if want == kw.get("fail_value") else "value")
    if not close(got, want):
        return f"sample {got}, expected {want}"
    if stream.used != r.used:
        return f"{stream.used} draws, expected {r.used}"
    if how == "class" and not (lo == -inf and hi == inf) and not math.isnan(d.mean()):
        return f"mean {d.mean()} of bounded distribution"


def bounded_other(case, st):
    """values that are not numbers are inside any bounds"""
    lo, hi, draws = case
    stream = Controlled(draws)
    d = sim.Bounded(sim.Pdf(("a", 1, 1, 2, 5, 1), randomstream=stream), lo, hi)
    got = d()
    want = None
    r = Controlled(draws)
    for _ in range(100):
        u = r.random()
        want = "a" if u < 0.25 else 1 if u < 0.75 else 5
        if want == "a" or (lo <= want <= hi):
            break
    else:
        want = lo
    if st is not None:
        st.trans(r.used)
        st.state((case, want))
        st.outcome(want)
    if got != want:
        return f"sample {got!r}, expected {want!r}"


# ---------------------------------------------------------------------------------------------------- strings
NAMES = ["Uniform", "Constant", "Triangular", "Exponential", "Normal", "Cdf", "Pdf", "CumPdf", "Weibull", "Gamma", "Erlang", "Beta", "IntUniform", "Poisson"]
STRARGS = dict(
    Uniform="1, 3",
    Constant="4",
    Triangular="1, 5, 2",
    Exponential="2",
    Normal="10, 2",
    Cdf="(1, 0, 2, 0.5, 4, 1)",
    Pdf="(1, 0.25, 2, 0.75)",
    CumPdf="(1, 0.25, 2, 1)",
    Weibull="2, 2",
    Gamma="2, 3",
    Erlang="2, 0.5",
    Beta="2, 3",
    IntUniform="1, 6",
    Poisson="3",
)
MINIMAL = dict(Erlang=2, Cdf=2, CumPdf=2, Poisson=2)


def strings(case, st):
    spec, same_as, draws = case
    _Env(trace=False, time_unit="minutes", random_seed="")
    s0, s1 = Controlled(draws), Controlled(draws)
    name, args = same_as
    a = sim.Distribution(spec, randomstream=s0)
    ref = eval(f"C({args}, randomstream=r)", {"C": getattr(sim, name), "r": s1})
    got, want = [a(), a.sample()], [ref(), ref()]
    if st is not None:
        st.trans(2)
        st.state((name, want))
        st.outcome(name)
    if got != want:
        return f"Distribution({spec!r}) gives {got}, {name}({args}) gives {want}"
    if not close(a.mean(), ref.mean()):
        return f"Distribution({spec!r}).mean() {a.mean()}, {name}({args}).mean() {ref.mean()}"


def external(case, st):
    kind, unit, n = case
    env = _Env(trace=False, time_unit="minutes", random_seed="")
    f = factor(unit)
    kw = dict(env=env)
    if unit:
        kw["time_unit"] = unit
    if kind == "random":
        with controlled((0.25, 0.5, 0.75)):
            d = sim.External(random.uniform, 1, 3, **kw)
            got = [d() for _ in range(3)]
        want = [v * f for v in (1.5, 2, 2.5)]
        m = nan
    elif kind == "function":
        it = iter([3, 1, 2])
        d = sim.External(lambda a, b=0: next(it) + a + b, 10, b=100, **kw)
        got = [d() for _ in range(3)]
        want = [v * f for v in (113, 111, 112)]
        m = nan
    elif kind == "numpy":
        import numpy

        numpy.random.seed(5)
        a = numpy.random.uniform(1, 3, size=n)
        numpy.random.seed(5)
        d = sim.External(numpy.random.uniform, 1, 3, size=n, **kw)
        got = sorted(d() for _ in range(n))
        want = sorted(v * f for v in a)
        m = nan
    else:
        import scipy.stats

        args, kwa, m = {
            "scipy kw": ((), dict(loc=1, scale=2), 2),
            "scipy args": ((1, 2), {}, 2),
            "scipy loc": ((1,), dict(scale=2), 2),
            "scipy gamma": ((3,), dict(scale=2), 6),
            "scipy gamma args": ((3, 1, 2), {}, 7),
            "scipy poisson": ((4,), {}, 4),
            "scipy sized": ((1, 2, n), {}, 2),
        }[kind]
        dis = scipy.stats.gamma if "gamma" in kind else scipy.stats.poisson if "poisson" in kind else scipy.stats.uniform
        import numpy

        numpy.random.seed(7)
        want = []
        while len(want) < n:
            v = dis.rvs(*args, **kwa)
            want += [float(x) * f for x in v] if hasattr(v, "__len__") else [float(v) * f]
        numpy.random.seed(7)
        d = sim.External(dis, *args, **kwa, **kw)
        got = [float(d()) for _ in range(n)]
        if kind == "scipy sized":
            got, want = sorted(got), sorted(want)
        m *= f
    if st is not None:
        st.trans(len(got))
        st.state((case, want))
        st.outcome(kind)
    if len(got) != len(want) or not all(close(a, b) for a, b in zip(got, want)):
        return f"samples {got}, expected {want}"
    if not close(float(d.mean()), float(m)):
        return f"mean {d.mean()}, expected {m}"


def refused(case, st):
    name, args = case
    env = _Env(trace=False, random_seed="")
    if st is not None:
        st.trans()
        st.state(case)
        st.outcome(name)
    try:
        getattr(sim, name)(**args)
    except (ValueError, TypeError):
        return None
    return f"{name}({args}) not refused"


def durations(case, st):
    """a distribution, a function, a number: the same wherever a duration is asked for"""
    kind, unit, u = case
    with controlled((u,) * 4):
        env = _Env(trace=False, time_unit="minutes", random_seed="")
        dist = {
            "class": lambda: sim.Uniform(1, 3, unit),
            "string": lambda: sim.Distribution("1,3", time_unit=unit),
            "callable": lambda: sim.Uniform(1, 3, unit).sample,
            "lambda": lambda: (lambda: sim.Uniform(1, 3, unit)()),
            "expression": lambda: sim.Uniform(1, 3, unit) + 0,
            "number": lambda: (1 + 2 * u) * factor(unit),
        }[kind]()
        t = []

        class P(sim.Component):
            def process(self):
                self.hold(dist)
                t.append(env.now())

        P()
        P(delay=dist)
        env.run()
    want = (1 + 2 * u) * factor(unit)
    if st is not None:
        st.trans()
        st.state((case, t))
        st.outcome(kind)
    if not (close(t[0], want) and close(t[1], 2 * want)):
        return f"held till {t}, expected {[want, 2 * want]}"


def families(tier):
    th = tier == "thorough"
    fams = []
    units = (None, "seconds", "hours", "days") if not th else (None, "microseconds", "milliseconds", "seconds", "minutes", "hours", "days", "weeks", "years")
    grid = GRID if not th else tuple(sorted(set(GRID) | {i / 32 for i in range(32)}))
    cases = []
    for (name, args), form, unit, own in itertools.product(PARAMS, ("class", "string", "string unit", "string both"), units, (True, False)):
        if form == "string both" and not unit:
            continue
        for u in grid:
            cases.append((form, name, args, unit, own, (u, 0.625)))
    fams.append(Family("one draw per sample", cases, check, "all draws x parameters x forms x time units x own or default stream", setup))
    cases = []
    small = (0.0, 0.25, 0.5, 0.8125, BELOW1) if not th else (0.0, 0.125, 0.25, 0.5, 0.625, 0.8125, BELOW1)
    for (name, args), form, unit, own in itertools.product(PARAMS_MULTI, ("class", "string"), (None, "hours"), (True, False)):
        if unit and not DEF[name][2]:
            continue
        for draws in itertools.product(small, repeat=3):
            if (form == "string" or not own) and draws[2] != 0.25:
                continue
            if name == "Beta" and args["alpha"] < 1 and 0.0 in draws:
                continue
            cases.append((form, name, args, unit, own, draws + (0.25, 0.375)))
    for lam in (0.5, 1, 3, 20, 100):
        for u in (0.0, 0.0625, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99, 0.999):
            cases.append(("class", "Poisson", dict(mean=lam), None, True, (u, 0.3)))
            cases.append(("string", "Poisson", dict(mean=lam), None, False, (u, 0.3)))
    for lam in (1, 3, 800, 1000):
        for draws in itertools.product((0.0, 0.001, 0.5, 0.999, BELOW1), repeat=4):
            if lam < 800:
                draws = (BELOW1,) + draws[1:]
            cases.append(("class", "Poisson", dict(mean=lam), None, True, draws))
    fams.append(Family("several draws per sample", cases, check, "all triples of draws x parameters", setup))

    # discrete
    cases = []
    U = ("Uniform", dict(lowerbound=10, upperbound=20))
    xss = [(1, 2, 3), ("a", 1, None), (1, U, 2), (U, ("Constant", dict(value=7)), 5), (("expr", 2, 4), 5, 6), (("hours", 1, 3), 2, 3), ("a", "b"), (5, 6), (5,), (("hours", 1, 3), ("expr", 2, 4))]
    pss = {1: [(1,), (0.5,)], 2: [(1, 3), (0.5, 0.5), (1, 1), (0, 1), (1, 0), (0.25, 0.75)], 3: [(1, 1, 2), (1, 1, 1), (0, 1, 1), (1, 0, 3), (0.125, 0.5, 0.375), (0, 0, 1), (2, 2, 4)]}
    near = [0.0, 2**-53, BELOW1]
    for k in range(1, 8):
        near += [k / 8, math.nextafter(k / 8, 0), math.nextafter(k / 8, 1)]
    for xs in xss:
        for ps in pss[len(xs)]:
            forms = [("Pdf", "pairs"), ("Pdf", "list"), ("Pdf", "two"), ("Pdf", "two tuples"), ("Pmf", "pairs"), ("CumPdf", "pairs"), ("CumPdf", "two"), ("CumPmf", "pairs"), ("CumPmf", "two tuples")]
            forms += [("Pdf", "dict"), ("Pmf", "dict")]
            if len(set(ps)) == 1:
                forms += [("Pdf", "scalar"), ("Pmf", "scalar")]
            for cls, form in forms:
                for unit in (None, "hours"):
                    if unit and not all(isinstance(x, (int, float)) for x in xs):
                        continue
                    for u in near:
                        for u1 in (0.0, 0.4375):
                            cases.append((cls, form, xs, ps, unit, (u, u1)))
    fams.append(Family("discrete", cases, discrete, "Pdf/Pmf/CumPdf/CumPmf in all forms; draws at and next to every boundary", setup))
    cases = [(cls, k, n, eq, d) for cls in ("Pdf", "Pmf") for k in (1, 2, 3, 4) for n in (-1, 0, 1, 2, 3, 5) for eq in (True, False, "sum") for d in itertools.product((0.0, 0.3, 0.6, 0.95), repeat=3)]
    fams.append(Family("Pdf.sample(n)", cases, several, "1-4 outcomes, all n, all triples of draws", setup))
    cases = [
        ("Pdf", dict(spec=(1, 1, 2, 3)), 1024),
        ("Pdf", dict(spec=(1, 0, 2, 3, 3, 5)), 1024),
        ("Pdf", dict(spec=(1, 0.25, 2, 0.5, 3, 0.25)), 1024),
        ("Pmf", dict(spec=(1, 1, 2, 3)), 1024),
        ("CumPdf", dict(spec=(1, 0.25, 2, 1)), 1024),
        ("CumPdf", dict(spec=(1, 0, 2, 0.25, 5, 1)), 1024),
        ("CumPmf", dict(spec=(1, 2, 2, 3, 7, 8)), 1024),
        ("Uniform", dict(lowerbound=1, upperbound=3), 2000),
        ("Triangular", dict(low=1, high=4, mode=2), 2000),
        ("Exponential", dict(mean=3), 20000),
        ("Exponential", dict(rate=3), 20000),
        ("Weibull", dict(scale=3, shape=2), 20000),
        ("Cdf", dict(spec=(1, 0, 2, 0.5, 4, 1)), 2000),
        ("Poisson", dict(mean=3), 20000),
    ]
    fams.append(Family("shares", cases, shares, "equally spaced draws", setup))

    cases = []
    operands = ("U", "Uh", "C", "Ch", "UU", 2, 0.5)
    for op in OPS:
        for a, b in itertools.product(operands, repeat=2):
            if not (isinstance(a, str) or isinstance(b, str)):
                continue
            if op == "**" and ("Uh" in (a, b) or "Ch" in (a, b)):
                continue
            for draws in itertools.product((0.0, 0.25, 0.75), repeat=3):
                cases.append((op, a, b, draws))
    for op in ("neg", "pos", "map"):
        for a in operands[:5]:
            for draws in itertools.product((0.0, 0.25, 0.75), repeat=2):
                cases.append((op, a, None, draws))
    fams.append(Family("expressions", cases, expr, "all operators on distributions, constants and numbers", setup))

    cases = []
    for lo, hi in ((None, None), (1, None), (None, 3), (1, 3), (2, 2), (3, None)):
        for fv, n, il, iu in itertools.product((None, -9), (None, 0, 1, 2), (None, False), (None, False)):
            kw = {k: v for k, v in dict(lowerbound=lo, upperbound=hi, fail_value=fv, number_of_retries=n, include_lowerbound=il, include_upperbound=iu).items() if v is not None}
            for how in ("class", "method"):
                for unit in (None, "hours"):
                    for draws in itertools.product((0.0, 0.25, 0.5, 0.75, 0.875), repeat=3 if n else 2):
                        cases.append((how, kw, unit, draws))
    cases += [(how, dict(lowerbound=3), None, (0.25,) * k + (0.875,)) for how in ("class", "method") for k in (98, 99, 100, 101)]
    fams.append(Family("bounded", cases, bounded, "bounds, inclusion, retries and fail value x all draws", setup))
    cases = [(lo, hi, d) for lo in (0, 2) for hi in (3, 6) for d in itertools.product((0.0, 0.25, 0.5, 0.75), repeat=3)]
    fams.append(Family("bounded non numbers", cases, bounded_other, "Pdf with text outcomes", setup))

    cases = []
    for name in NAMES:
        for n in range(MINIMAL.get(name, 1), len(name) + 1):
            for f in (str, str.upper, str.lower):
                for blanks in ("", " "):
                    cases.append((blanks + f(name[:n]) + "(" + STRARGS[name] + ")", (name, STRARGS[name])))
    for spec, same in (("10", ("Constant", "10")), ("12,15", ("Uniform", "12, 15")), ("(12,15)", ("Uniform", "12, 15")), ("(12, 15, 13)", ("Triangular", "12, 15, 13")), ("12,15,13", ("Triangular", "12, 15, 13")), (" 3.5 ", ("Constant", "3.5")), ("(3)", ("Constant", "3")), ("Tri(10,20)", ("Triangular", "10, 20, 15"))):
        cases.append((spec, same))
    cases = [c + (d,) for c in cases for d in itertools.product((0.0, 0.3, 0.7), repeat=2)]
    fams.append(Family("strings", cases, strings, "every abbreviation of every distribution in upper, lower and mixed case; the short forms", setup))
    kinds = ("random", "function", "numpy", "scipy kw", "scipy args", "scipy loc", "scipy gamma", "scipy gamma args", "scipy poisson", "scipy sized")
    cases = [(k, u, n) for k in kinds for u in (None, "hours") for n in (3, 5)]
    try:
        import scipy.stats  # noqa
    except ImportError:
        cases = [c for c in cases if "scipy" not in c[0]]
    fams.append(Family("external", cases, external, "functions of random, numpy and scipy", setup))
    bad = [
        ("Uniform", dict(lowerbound=3, upperbound=1)),
        ("IntUniform", dict(lowerbound=3, upperbound=1)),
        ("IntUniform", dict(lowerbound=1.5, upperbound=3)),
        ("IntUniform", dict(lowerbound=1, upperbound=3.5)),
        ("Triangular", dict(low=3, high=1)),
        ("Triangular", dict(low=1, high=3, mode=4)),
        ("Triangular", dict(low=1, high=3, mode=0)),
        ("Exponential", dict(mean=0)),
        ("Exponential", dict(mean=-1)),
        ("Exponential", dict(rate=0)),
        ("Exponential", dict(mean=1, rate=1)),
        ("Exponential", dict()),
        ("Normal", dict(mean=1, standard_deviation=-1)),
        ("Normal", dict(mean=1, standard_deviation=1, coefficient_of_variation=1)),
        ("Normal", dict(mean=0, coefficient_of_variation=1)),
        ("Poisson", dict(mean=0)),
        ("Weibull", dict(scale=1, shape=0)),
        ("Gamma", dict(shape=0, scale=1)),
        ("Gamma", dict(shape=1, scale=0)),
        ("Gamma", dict(shape=1)),
        ("Gamma", dict(shape=1, scale=1, rate=1)),
        ("Beta", dict(alpha=0, beta=1)),
        ("Beta", dict(alpha=1, beta=0)),
        ("Erlang", dict(shape=1.5, rate=1)),
        ("Erlang", dict(shape=0, rate=1)),
        ("Erlang", dict(shape=1)),
        ("Erlang", dict(shape=1, rate=1, scale=1)),
        ("Cdf", dict(spec=(1, 0.5, 2, 1))),
        ("Cdf", dict(spec=(2, 0, 1, 1))),
        ("Cdf", dict(spec=(1, 0, 2, 0))),
        ("Cdf", dict(spec=(1, 0, 2, 1, 3, 0.5))),
        ("Cdf", dict(spec=())),
        ("Pdf", dict(spec=())),
        ("Pdf", dict(spec=(1, 0, 2, 0))),
        ("Pdf", dict(spec=(1, 2, 3))),
        ("Pdf", dict(spec=(1, 2, 3), probabilities=(1, 2))),
        ("CumPdf", dict(spec=(1, 0.5, 2, 0.25))),
        ("CumPdf", dict(spec=(1, 0, 2, 0))),
        ("CumPdf", dict(spec=(1, 2, 3))),
        ("Bounded", dict(dis=None, lowerbound=3, upperbound=1)),
        ("Uniform", dict(lowerbound=1, upperbound=3, randomstream=5)),
    ]
    fams.append(Family("refused parameters", bad, refused, "parameters outside the definition", setup))
    cases = [(k, unit, u) for k in ("class", "string", "callable", "lambda", "expression", "number") for unit in units for u in GRID]
    fams.append(Family("as duration", cases, durations, "hold and delay with distributions, functions and numbers", setup))
    return fams
