"""C18: percentiles, bins and histograms."""

import itertools
import math
from fractions import Fraction

from mc import mmodel
from mc.core import Family, load_salabim
from mc.mmodel import Level, Tallies, Diff, want, percentile_plain, percentile_weighted, wstats, fr, sort_values

inf = math.inf
nan = math.nan
PROPERTY = "C18"
ASSUMPTIONS = [
    "up to 5 (6) recorded values out of 5, weights/durations 0, 0.5, 1, 2; percentages that are exactly representable as quotients",
    "a percentage in a printed histogram is compared with the precision in which it is printed",
]
QS = (-5, 0, 1, 10, 20, 25, 30, 33, 40, 50, 60, 66, 70, 75, 80, 90, 95, 99, 100, 120)


def setup():
    global sim, Env, _env, _n
    sim = load_salabim()
    sim.yieldless(False)
    _env = None
    _n = 0

    class Env(sim.Environment):
        def an_modelname(self):
            pass

        def an_clocktext(self):
            pass


def shared_env():
    global _env, _n
    _n += 1
    if _env is None or _n % 200 == 0:
        _env = Env(trace=False)
    return _env


def build(case):
    """(real monitor, pairs, weighted)"""
    kind, xs, ws = case
    if kind == "level":
        env = Env(trace=False)
        m = sim.Monitor("m", level=True, initial_tally=xs[0], env=env)
        pairs = []
        ref = Level(0, xs[0])
        for k, (x, w) in enumerate(zip(xs, ws)):
            if k:
                m.tally(x)
                ref.tally(x)
            if w:
                env.run(w)
                ref.run(w)
        return m, ref.pairs(), True, ref.segments()
    env = shared_env()
    m = sim.Monitor("m", env=env)
    for x, w in zip(xs, ws):
        m.tally(x, w)
    pairs = [(mmodel.numeric(x), w) for x, w in zip(xs, ws)]
    return m, pairs, any(w != 1 for w in ws), list(zip(xs, ws))


def percentiles(case, st):
    m, pairs, weighted, _ = build(case)
    inter = ("linear", "lower", "higher", "midpoint") + (() if weighted else ("nearest",))
    n = 0
    try:
        for ex0 in (False, True):
            p = [(x, w) for x, w in pairs if not (ex0 and x == 0)]
            s = wstats(p)
            for i in inter:
                last = -inf
                for q in QS:
                    got = m.percentile(q, ex0=ex0, interpolation=i)
                    exp = percentile_weighted(p, q, i) if weighted else percentile_plain([x for x, _ in p], q, i)
                    if i == "nearest" and got != exp:  # exactly halfway: either of them is nearest
                        half = [percentile_plain([x for x, _ in p], q, k) for k in ("lower", "higher", "midpoint", "linear")]
                        if half[2] == half[3] and got in half[:2]:
                            exp = got
                    want(f"percentile({q}, ex0={ex0}, interpolation={i})", got, exp)
                    n += 1
                    if not math.isnan(got):
                        if not (s["min"] <= got <= s["max"]):
                            raise Diff(f"percentile({q}, ex0={ex0}, interpolation={i})={got} not between {s['min']} and {s['max']}")
                        if got < last and 0 < q < 100:
                            raise Diff(f"percentile({q}, ex0={ex0}, interpolation={i})={got} lower than that of a lower percentage: {last}")
                        if 0 < q < 100:
                            last = got
            want(f"median(ex0={ex0})", m.median(ex0=ex0), percentile_weighted(p, 50, "linear") if weighted else percentile_plain([x for x, _ in p], 50, "linear"))
        if weighted:
            mmodel.refuse("interpolation nearest of a weighted monitor", ValueError, lambda: m.percentile(50, interpolation="nearest"))
        mmodel.refuse("unknown interpolation", ValueError, lambda: m.percentile(50, interpolation="other"))
    except Diff as e:
        return f"{case}: {e}"
    st.trans(n)
    st.state((tuple(sorted(pairs)), weighted))
    st.outcome("weighted" if weighted else "plain")


def num(s):
    s = s.strip()
    return nan if s == "" else float(s)


def near(label, got, exp, digits=3):
    if math.isnan(exp) or math.isnan(got):
        ok = math.isnan(exp) and math.isnan(got)
    else:
        ok = got == exp or abs(got - exp) <= 0.51 * 10**-digits + 1e-9 * abs(exp)
    if not ok:
        raise Diff(f"{label}: printed {got}, expected {float(exp)}")


def check_statistics(lines, m, pairs, weighted, stats_only=False):
    """the 10 lines of print_statistics (7 for a stats_only monitor)"""
    rows = {}
    for ln in lines:
        if ln.strip():
            rows[ln[:14].strip()] = (num(ln[14:27]), num(ln[27:40]), num(ln[40:53]) if len(ln) > 40 else None)
    sa, sx = wstats(pairs), wstats(pairs, True)
    tot = [(len(pairs), sum(1 for x, _ in pairs if x), sum(1 for x, _ in pairs if not x))]
    if weighted:
        key = "duration" if m.weight_legend == "duration" else "weight"
        exp = (sa["sumw"], sx["sumw"], sa["sumw"] - sx["sumw"])
    else:
        key = "entries"
        exp = tot[0]
    for k in range(3):
        near(f"statistics {key}", rows[key][k], float(exp[k]))
    P = (lambda p, q: percentile_weighted(p, q, "linear")) if weighted else (lambda p, q: percentile_plain([x for x, _ in p], q, "linear"))
    px = [(x, w) for x, w in pairs if x]
    for label, a, b in (
        ("mean", sa["mean"], sx["mean"]),
        ("std.deviation", sa["std"], sx["std"]),
        ("minimum", sa["min"], sx["min"]),
        ("maximum", sa["max"], sx["max"]),
        ("median", P(pairs, 50), P(px, 50)),
        ("90% percentile", P(pairs, 90), P(px, 90)),
        ("95% percentile", P(pairs, 95), P(px, 95)),
    ):
        if stats_only and label in ("median", "90% percentile", "95% percentile"):
            if label in rows:
                raise Diff(f"statistics {label}: printed {rows[label]} for a stats_only monitor")
            continue
        near("statistics " + label, rows[label][0], a)
        near("statistics " + label + " excl.zero", rows[label][1], b)


def histograms(case, st):
    m, pairs, weighted, raw = build(case)
    level = case[0] == "level"
    numericvals = all(not isinstance(x, str) for x, _ in raw)
    n = 0
    try:
        check_statistics(m.print_statistics(as_str=True, show_header=False, show_legend=False).split("\n"), m, pairs, weighted)
        for ex0 in (False, True):
            p = [(x, w) for x, w in pairs if not (ex0 and x == 0)]
            tot = sum((fr(w) for _, w in p), Fraction(0)) if weighted else len(p)
            # with bins
            for nb, lb, bw in ((None, None, None), (3, -1, 1), (0, 0, 1), (2, 0.5, 2), (4, 0, 0.5)):
                kw = {} if nb is None else {"number_of_bins": nb, "lowerbound": lb, "bin_width": bw}
                text = m.print_histogram(ex0=ex0, as_str=True, graph_scale=20, **kw)
                lines = text.split("\n")
                k0 = next(k for k, ln in enumerate(lines) if ln.startswith("           <="))
                check_statistics(lines[3:k0], m, pairs, weighted)
                rows = [ln for ln in lines[k0 + 1 :] if ln.strip()]
                lo = -inf
                cum = 0
                for ln in rows:
                    ub, count, perc, cumperc = num(ln[:13]), num(ln[14:27]), num(ln[27:33]), num(ln[33:39])
                    c = [w for x, w in p if lo < x <= ub]
                    exp = sum(map(fr, c), Fraction(0)) if weighted else len(c)
                    label = f"histogram {kw} ex0={ex0}, bin up to {ub}"
                    near(label, count, float(exp))
                    ep = float(exp / tot * 100) if tot else 0
                    cum += ep
                    near(label + " %", perc, ep, 1)
                    near(label + " cum%", cumperc, cum, 1)
                    if ub <= lo:
                        raise Diff(f"bins do not increase: {rows}")
                    lo = ub
                    n += 1
                if lo != inf:
                    raise Diff(f"the last bin ends at {lo}: {rows}")
                if nb is not None:
                    want("number of rows", len(rows), nb + 2)
                elif tot:
                    want("nothing above the automatically scaled bins", num(rows[-1][14:27]), 0)
                    if len(rows) > 32:
                        raise Diff(f"{len(rows)} rows in an automatically scaled histogram")
                if tot:
                    near("cum% at the end", cum, 100, 1)
            # with values
            r = [(x, w) for x, w in raw if not (ex0 and x == 0)]
            for vals, skw in ((True, {}), ((1, 7), {}), ((7, 0, 1), {}), (True, {"sort_on_duration" if level else "sort_on_weight": True}), ((2.5, 1, 9), {"sort_on_value": True})):
                text = m.print_histogram(values=vals, ex0=ex0, as_str=True, graph_scale=20, **skw)
                lines = text.split("\n")
                k0 = next(k for k, ln in enumerate(lines) if ln.startswith("value "))
                rows = [ln for ln in lines[k0 + 1 :] if ln.strip()]
                rt = sum((fr(w) for _, w in r), Fraction(0)) if weighted else len(r)
                uniq = sort_values([x for x, _ in r])
                weight_of = lambda v: sum((fr(w) for x, w in r if x == v), Fraction(0)) if weighted else sum(1 for x, _ in r if x == v)
                if vals is True:
                    labels = [str(v) for v in uniq]
                    if skw:
                        labels = [str(v) for v in sorted(uniq, key=lambda v: -sum(fr(w) for x, w in raw if x == v))]
                    rest = []
                else:
                    order = list(vals)
                    if skw:
                        order = [v for v in uniq if v in vals] + sorted(v for v in vals if v not in uniq)
                    labels = [str(v) for v in order]
                    rest = [v for v in uniq if v not in vals]
                    if rest:
                        labels.append("<rest>")
                want(f"histogram values={vals} ex0={ex0} labels", [ln[:20].strip() for ln in rows], labels)
                sumcount = 0
                for ln, lab in zip(rows, labels):
                    if lab == "<rest>" and rest:
                        exp = sum(weight_of(v) for v in rest)
                    else:
                        v = next(v for v in (uniq if vals is True else order) if str(v) == lab)
                        exp = weight_of(v)
                    count = num(ln[20:34]) if (level or weighted) else num(ln[20:27])
                    perc = num(ln[34:40]) if (level or weighted) else num(ln[27:33])
                    near(f"histogram values={vals} ex0={ex0} of {lab}", count, float(exp))
                    near(f"histogram values={vals} ex0={ex0} % of {lab}", perc, float(exp / rt * 100) if rt else 0, 1)
                    sumcount += count
                    n += 1
                near(f"histogram values={vals} ex0={ex0}: total", sumcount, float(rt))
    except Diff as e:
        return f"{case}: {e}"
    st.trans(n)
    st.state((case[0], tuple(raw)))
    st.outcome("weighted" if weighted else "plain")


def families(tier):
    th = tier == "thorough"
    vals = (-1, 0, 1, 2.5, 4)
    fams = []
    cases = []
    for n in range(0, 7 if th else 6):
        for xs in itertools.combinations_with_replacement(vals, n):
            for perm in {xs, xs[::-1], xs[1:] + xs[:1]}:
                cases.append(("plain", perm, (1,) * n))
    # more values, to have all fractions
    for n in (7, 11, 21):
        cases.append(("plain", tuple((k * 7) % 13 for k in range(n)), (1,) * n))
        cases.append(("plain", tuple(range(n)), (1,) * n))
    fams.append(Family("percentile_plain", sorted(cases, key=lambda c: (len(c[1]), c)), percentiles, "all multisets of up to 5 (6) values in 3 orders x 20 percentages x 5 interpolations x ex0", setup))
    cases = []
    for n in range(1, 5 if th else 4):
        for xs in itertools.product(vals, repeat=n):
            for ws in itertools.product((0, 0.5, 1, 2), repeat=n):
                if n == 4 and (sorted(xs) != list(xs)):
                    continue
                cases.append(("weighted", xs, ws))
                if n >= 2:
                    cases.append(("level", xs, ws))
    fams.append(Family("percentile_weighted", cases, percentiles, "all sequences of up to 3 (4) values and weights/durations", setup))
    cases = []
    for n in range(0, 5 if th else 4):
        for xs in itertools.product(vals, repeat=n):
            cases.append(("plain", xs, (1,) * n))
            if n >= 1 and n <= 3:
                for ws in itertools.product((0.5, 1, 2), repeat=n):
                    cases.append(("weighted", xs, ws))
                    if all(w for w in ws[:-1]) and (n < 3 or th):
                        cases.append(("level", xs, ws))
    for xs in itertools.product(("a", "B", 1, 0, "2"), repeat=3):
        cases += [("plain", xs, (1, 1, 1)), ("weighted", xs, (2, 1, 0.5)), ("level", xs, (1, 2, 1))]
    big = [(-100, 0, 1), (0, 31), (0, 30), (5, 3000), (7, 7), (99, 100), (0.25, 0.75), (1e5, 3e5), (-0.5, 29.75)]
    for xs in big:
        cases.append(("plain", xs, (1,) * len(xs)))
        cases.append(("weighted", xs, (2,) + (1,) * (len(xs) - 1)))
        cases.append(("level", xs, (2,) + (1,) * (len(xs) - 1)))
    fams.append(Family("histograms", cases, histograms, "all sequences of up to 3 (4) values, weights/durations; 5 bin layouts, 5 value layouts, ex0", setup))
    return fams
