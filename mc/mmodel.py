"""Reference models of salabim monitors: plain lists, statistics computed exactly (fractions) from their definition."""

import math
from fractions import Fraction

inf = math.inf
nan = math.nan
OFF = "<off>"  # marker in the model; the code shows the off value of the type instead
OFF_OF = {
    "any": -inf,
    "float": -inf,
    "double": -inf,
    "bool": 255,
    "uint8": 255,
    "int8": -128,
    "uint16": 65535,
    "int16": -32768,
    "uint32": 4294967295,
    "int32": -2147483648,
    "uint64": 18446744073709551615,
    "int64": -9223372036854775808,
}


def numeric(v):
    """the documented numeric interpretation of a value: numbers as is, texts that denote a number as that number, others 0"""
    if isinstance(v, (int, float)):
        return v
    try:
        if int(v) == float(v):
            return int(v)
        return float(v)
    except (ValueError, TypeError):
        return 0


def close(a, b, tol=1e-9):
    if a is None or b is None:
        return a is b
    if isinstance(b, float) and math.isnan(b):
        return isinstance(a, float) and math.isnan(a)
    if isinstance(a, float) and math.isnan(a):
        return False
    if a == b:
        return True
    if isinstance(a, float) and math.isinf(a):
        return False
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


def fr(v):
    return Fraction(v)


def wstats(pairs, ex0=False):
    """{mean, std, min, max, sumw, n} of [(numeric value, weight)]"""
    p = [(x, w) for x, w in pairs if not (ex0 and x == 0)]
    sw = sum((fr(w) for _, w in p), Fraction(0))
    d = {"sumw": sw, "n": len(p)}
    if sw:
        mean = sum((fr(x) * fr(w) for x, w in p), Fraction(0)) / sw
        var = sum((fr(w) * (fr(x) - mean) ** 2 for x, w in p), Fraction(0)) / sw
        d["mean"] = mean
        d["std"] = math.sqrt(var)
    else:
        d["mean"] = nan
        d["std"] = nan
    d["min"] = min((x for x, _ in p), default=nan)
    d["max"] = max((x for x, _ in p), default=nan)
    return d


def percentile_weighted(pairs, q, interpolation):
    """definition: the value where the cumulative weight passes q; exactly between two values: as the interpolation says"""
    p = sorted((x, fr(w)) for x, w in pairs)
    if not p:
        return nan
    if q <= 0:
        return p[0][0]
    if q >= 100:
        return p[-1][0]
    if len(p) == 1:
        return p[0][0]
    p = [(x, w) for x, w in p if w]
    if not p:
        return nan
    total = sum(w for _, w in p)
    target = Fraction(q) / 100 * total
    cum = Fraction(0)
    for k, (x, w) in enumerate(p):
        cum += w
        if cum == target and k + 1 < len(p):
            nx = p[k + 1][0]
            if interpolation in ("linear", "midpoint"):
                return (fr(x) + fr(nx)) / 2
            return x if interpolation == "lower" else nx
        if cum >= target:
            return x
    return p[-1][0]


def percentile_plain(xs, q, interpolation):
    p = sorted(xs)
    n = len(p)
    if not p:
        return nan
    q = min(max(q, 0), 100)
    pos = Fraction(q) / 100 * (n - 1)
    k = pos.numerator // pos.denominator
    f = pos - k
    if f == 0:
        return p[k]
    i, j = fr(p[k]), fr(p[k + 1])
    if interpolation == "linear":
        return i + (j - i) * f
    if interpolation == "lower":
        return i
    if interpolation == "higher":
        return j
    if interpolation == "midpoint":
        return (i + j) / 2
    return i if f <= Fraction(1, 2) else j


class Level:
    """a level monitor: the recorded path is a list of [time, value or OFF], at most one entry per point in time"""

    def __init__(self, now=0, initial=0, on=True, type="any"):
        self.now = now
        self.offset = 0
        self.value = initial
        self.on = on
        self.type = type
        self.start = now
        self.path = [[now, initial if on else OFF]]
        self.tlast = now  # time of the last tally

    def clone(self):
        m = Level.__new__(Level)
        m.__dict__.update(self.__dict__)
        m.path = [list(e) for e in self.path]
        return m

    def put(self, v):
        if self.path[-1][0] == self.now:
            self.path[-1][1] = v
        else:
            self.path.append([self.now, v])

    def tally(self, v):
        if v == OFF_OF[self.type]:
            raise ValueError
        self.value = v
        self.tlast = self.now
        if self.on:
            self.put(v)

    assign = tally

    def monitor(self, b):
        self.on = b
        self.put(self.value if b else OFF)

    def reset(self, monitor=None):
        if monitor is not None:
            self.on = monitor
        self.start = self.now
        self.path = [[self.now, self.value if self.on else OFF]]

    def run(self, d):
        self.now += d

    def reset_now(self, t):
        self.offset = self.now - t

    # reads
    def off_value(self):
        return OFF_OF[self.type]

    def shown(self, v, force_numeric=False):
        if v is OFF:
            return self.off_value()
        if force_numeric and self.type == "any":
            return numeric(v)
        return v

    def segments(self):
        """[(value, duration)] of what has been monitored, up to now"""
        out = []
        for k, (t, v) in enumerate(self.path):
            t1 = self.path[k + 1][0] if k + 1 < len(self.path) else self.now
            if v is not OFF:
                out.append((v, t1 - t))
        return out

    def pairs(self):
        return [(numeric(v) if self.type == "any" else v, w) for v, w in self.segments()]

    def at(self, t):
        """value current at user time t"""
        t += self.offset
        if t == self.now:
            return self.value
        v = OFF
        for tt, vv in self.path:
            if tt <= t:
                v = vv
        return self.shown(v)

    def xt(self, ex0, exoff, force_numeric, add_now):
        xs, ts = [], []
        entries = [tuple(e) for e in self.path]
        if add_now:
            entries.append((self.now, entries[-1][1]))
        for t, v in entries:
            if exoff and v is OFF:
                continue
            x = self.shown(v, force_numeric)
            if ex0 and v is not OFF and x == 0:
                continue
            xs.append(x)
            ts.append(t)
        return xs, ts


class Tallies:
    """a non level monitor: a list of (time, value, weight)"""

    def __init__(self, now=0, on=True, type="any"):
        self.now = now
        self.offset = 0
        self.on = on
        self.type = type
        self.start = now
        self.data = []

    def tally(self, v, w=1):
        if self.on:
            self.data.append((self.now, v, w))

    def monitor(self, b):
        self.on = b

    def reset(self, monitor=None):
        if monitor is not None:
            self.on = monitor
        self.start = self.now
        self.data = []

    def run(self, d):
        self.now += d

    def reset_now(self, t):
        self.offset = self.now - t

    def pairs(self):
        return [(numeric(x) if self.type == "any" else x, w) for _, x, w in self.data]

    def raw(self):
        return [(x, w) for _, x, w in self.data]


def value_list(v):
    if isinstance(v, str):
        return [v]
    try:
        iter(v)
        return list(v)
    except TypeError:
        return [v]


def sort_values(vals):
    """unique values, numbers first in order, then texts case-insensitively"""
    out = []
    for v in vals:
        if v not in out:
            out.append(v)

    def key(v):
        try:
            return (float(v), "")
        except (ValueError, TypeError):
            return (inf, str(v).lower())

    return sorted(out, key=key)


# --------------------------------------------------------------------------------------------------------- comparison
class Diff(Exception):
    pass


def want(label, got, exp):
    if isinstance(exp, (list, tuple)) or isinstance(got, (list, tuple)):
        if list(got) != list(exp):
            raise Diff(f"{label}: observed {list(got)} expected {list(exp)}")
    elif not close(got, exp if not isinstance(exp, Fraction) else float(exp)):
        raise Diff(f"{label}: observed {got} expected {exp if not isinstance(exp, Fraction) else float(exp)}")


def refuse(label, exc, f):
    try:
        r = f()
    except exc:
        return
    raise Diff(f"{label}: should be refused with {exc.__name__}, gave {r}")


def check_weighted_stats(m, pairs, total):
    """total: name of the method giving the sum of weights ('duration' or 'weight')"""
    for ex0 in (False, True):
        s = wstats(pairs, ex0)
        want(f"{total}(ex0={ex0})", getattr(m, total)(ex0=ex0), s["sumw"])
        want(f"mean(ex0={ex0})", m.mean(ex0=ex0), s["mean"])
        want(f"std(ex0={ex0})", m.std(ex0=ex0), s["std"])
        want(f"minimum(ex0={ex0})", m.minimum(ex0=ex0), s["min"])
        want(f"maximum(ex0={ex0})", m.maximum(ex0=ex0), s["max"])
    want(f"{total}_zero()", getattr(m, total + "_zero")(), sum((fr(w) for x, w in pairs if x == 0), Fraction(0)))


def check_level(m, ref, probe_values=(0, 1, 3), grid=(), light=False, current=True, last=False):
    """the real monitor m against the model"""
    if current:
        want("get()", [m.get()], [ref.value])
        want("call", [m()], [ref.value])
        want("value", [m.value], [ref.value])
    if last:
        want("t()", [m.t()], [ref.tlast - ref.offset])
    for t in grid:
        want(f"get({t})", [m(t)], [ref.at(t)])
    pairs = ref.pairs()
    check_weighted_stats(m, pairs, "duration")
    x, w = m.xduration(force_numeric=True)
    want("xduration values", x, [a for a, _ in pairs])
    want("xduration durations", w, [b for _, b in pairs])
    x, t = m.xt()
    ex, et = ref.xt(False, False, True, True)
    want("xt values", x, ex)
    want("xt times", t, et)
    if light:
        return
    for ex0 in (False, True):
        x, w = m.xduration(ex0=ex0, force_numeric=False)
        seg = [(v, d) for v, d in ref.segments() if not (ex0 and v == 0)]
        want(f"xduration(ex0={ex0}, force_numeric=False)", list(x) + list(w), [v for v, _ in seg] + [d for _, d in seg])
        for exoff in (False, True):
            for fn in (False, True):
                for add in (False, True):
                    ex, et = ref.xt(ex0, exoff, fn, add)
                    x, t = m.xt(ex0=ex0, exoff=exoff, force_numeric=fn, add_now=add)
                    want(f"xt(ex0={ex0}, exoff={exoff}, force_numeric={fn}, add_now={add})", list(x) + list(t), ex + et)
                    t, x = m.tx(ex0=ex0, exoff=exoff, force_numeric=fn, add_now=add)
                    want(f"tx(ex0={ex0}, exoff={exoff}, force_numeric={fn}, add_now={add})", list(x) + list(t), ex + et)
    for v in probe_values:
        want(f"value_duration({v!r})", m.value_duration(v), sum((fr(d) for x, d in ref.segments() if x in value_list(v)), Fraction(0)))
    want("value_duration of several", m.value_duration(list(probe_values)), sum((fr(d) for x, d in ref.segments() if x in probe_values), Fraction(0)))
    for lo, hi in ((-inf, inf), (0, 1), (-1, 0), (1, 10)):
        want(f"bin_duration({lo}, {hi})", m.bin_duration(lo, hi), sum((fr(d) for x, d in pairs if lo < x <= hi), Fraction(0)))
    want("values()", m.values(), sort_values([v for v, _ in ref.segments()]))
    for q in (0, 25, 50, 75, 100):
        want(f"percentile({q})", m.percentile(q), percentile_weighted(pairs, q, "linear"))
    want("median", m.median(), percentile_weighted(pairs, 50, "linear"))
    want("start_time", m.start_time(), ref.start - ref.offset)
    want("monitor()", [m.monitor()], [ref.on])
    for name in ("number_of_entries", "weight", "x", "xweight", "weight_zero"):
        refuse(name, TypeError, getattr(m, name))


def check_tallies(m, ref, probe_values=(0, 1, 3), light=False):
    pairs = ref.pairs()
    check_weighted_stats(m, pairs, "weight")
    for ex0 in (False, True):
        p = [(x, w) for x, w in pairs if not (ex0 and x == 0)]
        want(f"number_of_entries(ex0={ex0})", m.number_of_entries(ex0=ex0), len(p))
        want(f"x(ex0={ex0})", m.x(ex0=ex0), [x for x, _ in p])
        x, w = m.xweight(ex0=ex0)
        want(f"xweight(ex0={ex0})", list(x) + list(w), [x for x, _ in p] + [w for _, w in p])
    want("number_of_entries_zero", m.number_of_entries_zero(), sum(1 for x, _ in pairs if x == 0))
    if light:
        return
    raw = ref.raw()
    for ex0 in (False, True):
        r = [(t, x, w) for t, x, w in ref.data if not (ex0 and x == 0)]
        x = m.x(ex0=ex0, force_numeric=False)
        want(f"x(ex0={ex0}, force_numeric=False)", x, [b for _, b, _ in r])
        x, t = m.xt(ex0=ex0, force_numeric=False)
        want(f"xt(ex0={ex0}, force_numeric=False)", list(x) + list(t), [b for _, b, _ in r] + [a for a, _, _ in r])
        t, x = m.tx(ex0=ex0)
        want(f"tx(ex0={ex0})", list(x) + list(t), [b for _, b, _ in r] + [a for a, _, _ in r])
        rn = [(t, numeric(x) if ref.type == "any" else x) for t, x, w in ref.data]
        rn = [(t, x) for t, x in rn if not (ex0 and x == 0)]
        x, t = m.xt(ex0=ex0)
        want(f"xt(ex0={ex0})", list(x) + list(t), [b for _, b in rn] + [a for a, _ in rn])
    for v in list(probe_values) + [list(probe_values[:2])]:
        vl = value_list(v)
        want(f"value_number_of_entries({v!r})", m.value_number_of_entries(v), sum(1 for x, _ in raw if x in vl))
        want(f"value_weight({v!r})", m.value_weight(v), sum((fr(w) for x, w in raw if x in vl), Fraction(0)))
    for lo, hi in ((-inf, inf), (0, 1), (-1, 0), (1, 10)):
        want(f"bin_number_of_entries({lo}, {hi})", m.bin_number_of_entries(lo, hi), sum(1 for x, _ in pairs if lo < x <= hi))
        want(f"bin_number_of_entries({lo}, {hi}, ex0)", m.bin_number_of_entries(lo, hi, ex0=True), sum(1 for x, _ in pairs if lo < x <= hi and x != 0))
        want(f"bin_weight({lo}, {hi})", m.bin_weight(lo, hi), sum((fr(w) for x, w in pairs if lo < x <= hi), Fraction(0)))
    want("values()", m.values(), sort_values([x for x, _ in raw]))
    weighted = any(w != 1 for _, w in raw)
    for q in (0, 25, 50, 75, 100):
        e = percentile_weighted(pairs, q, "linear") if weighted else percentile_plain([x for x, _ in pairs], q, "linear")
        want(f"percentile({q})", m.percentile(q), e)
    want("start_time", m.start_time(), ref.start - ref.offset)
    want("monitor()", [m.monitor()], [ref.on])
    for name in ("duration", "xduration", "duration_zero", "get", "t"):
        refuse(name, TypeError, getattr(m, name))
    refuse("value", TypeError, lambda: m.value)
    refuse("value = 1", TypeError, lambda: setattr(m, "value", 1))


def apply(ref, m, env, op):
    """one operation on the model and on the real monitor; both have to agree about refusing it"""
    name, a = op[0], op[1:]
    try:
        getattr(ref, name)(*a)
        exp = None
    except ValueError:
        exp = ValueError
    try:
        if name == "run":
            env.run(duration=a[0])
        elif name == "reset_now":
            env.reset_now(a[0])
        elif name == "assign":
            m.value = a[0]
        else:
            getattr(m, name)(*a)
        got = None
    except ValueError:
        got = ValueError
    if got != exp:
        raise Diff(f"{op}: raised {got}, expected {exp}")


# ------------------------------------------------------------------------------------------------ magnitudes and sizes
BIG_VALUES = (-(2.0**30), -2.5, 2.0**-10, 7, 1234.5, 2.0**40)
BIG_WEIGHTS = (2.0**-10, 0.25, 7, 100.5, 2.0**20)
SIZES = (8, 31, 64, 100, 129, 257, 1000)


def patterns(n):
    """a few value sequences of length n"""
    return [
        tuple(range(n)),
        tuple(reversed(range(n))),
        tuple(i * 7 % 11 for i in range(n)),
        tuple((i % 3) - 1 for i in range(n)),
        (5,) * n,
        tuple(float(i % 2) * i for i in range(n)),
    ]


# --------------------------------------------------------------------- monitors that belong to resources, states, ...
def changes(xs, ts):
    """a path, without entries that do not change anything"""
    out = []
    for x, t in zip(xs, ts):
        if not out or out[-1][0] != x or type(out[-1][0]) is not type(x) and isinstance(x, str):
            out.append((x, t))
    return out


def check_owned(label, m, ref):
    """the monitor m (of a resource, a state, a component) against a Level or Tallies model"""
    level = isinstance(ref, Level)
    want(f"{label}.monitor()", [m.monitor()], [ref.on])
    want(f"{label}.start_time()", m.start_time(), ref.start - ref.offset)
    if level:
        want(f"{label}()", [m()], [ref.value])
    for ex0 in (False, True):
        s = wstats(ref.pairs(), ex0)
        name = "duration" if level else "weight"
        want(f"{label}.{name}(ex0={ex0})", getattr(m, name)(ex0=ex0), s["sumw"])
        want(f"{label}.mean(ex0={ex0})", m.mean(ex0=ex0), s["mean"])
        want(f"{label}.std(ex0={ex0})", m.std(ex0=ex0), s["std"])
    if m.stats_only():
        return
    if level:
        a = changes(*m.xt(force_numeric=False, add_now=False))
        b = changes(*ref.xt(False, False, False, False))
        want(f"{label} path", a, b)
    else:
        want(f"{label} values", m.x(), [x for _, x, _ in ref.data])
