"""C19: derived monitors against the derived data."""

import copy
import itertools
import math
from fractions import Fraction

from mc import mmodel
from mc.core import Family, load_salabim
from mc.mmodel import Level, Tallies, Diff, OFF, want, wstats, numeric, fr

inf = math.inf
PROPERTY = "C19"
ASSUMPTIONS = [
    "points in time are multiples of 0.5, so a path is completely described by its value in every cell of 0.5",
    "sums of merged monitors stay within the range of the type of the monitors (a sum that equals the off value of an integer type is outside the bound)",
]
H = 0.5


def setup():
    global sim, Env
    sim = load_salabim()
    sim.yieldless(False)

    class Env(sim.Environment):
        def an_modelname(self):
            pass

        def an_clocktext(self):
            pass


def cells(ref):
    """{user time: value} for every cell [t, t+0.5) between start and now in which the monitor was on"""
    out = {}
    for k, (t, v) in enumerate(ref.path):
        t1 = ref.path[k + 1][0] if k + 1 < len(ref.path) else ref.now
        if v is not OFF:
            while t < t1:
                out[t - ref.offset] = v
                t += H
    return out


def expect_level(label, m, cel, lo, hi, off, scale=1, current=None):
    """the derived monitor shows exactly these cells"""
    try:
        t = lo - 1
        while t < hi + 1:
            if t != hi:
                want(f"get({t})", [m.get(t)], [cel.get(t, off)])
            t += H
        if current is not None:
            want("get()", [m.get()], [current])
        pairs = [(numeric(v), H) for v in cel.values()]
        mmodel.check_weighted_stats(m, pairs, "duration")
        for v in (0, 1, 3, 4):
            want(f"value_duration({v})", m.value_duration(v), sum((fr(H) for x in cel.values() if x == v), Fraction(0)))
        x, w = m.xduration(force_numeric=False)
        tot = {}
        for a, b in zip(x, w):
            tot[a] = tot.get(a, 0) + b
        exp = {}
        for v in cel.values():
            exp[v] = exp.get(v, 0) + H
        want("values with their durations", sorted((keyname(k), v) for k, v in tot.items() if v), sorted((keyname(k), v) for k, v in exp.items()))
        xs, ts = m.xt(force_numeric=False)
        if any(b < a for a, b in zip(ts, ts[1:])) and hi >= ts[-1]:
            raise Diff(f"times do not increase: {list(ts)}")
        mmodel.refuse("tally on a derived monitor", TypeError, lambda: m.tally(1))
        mmodel.refuse("reset of a derived monitor", TypeError, lambda: m.reset())
        mmodel.refuse("switching on a derived monitor", TypeError, lambda: m.monitor(True))
    except Diff as e:
        raise Diff(f"{label}: {e}")


def keyname(k):
    return str(float(k)) if isinstance(k, (int, float)) else repr(k)


def make_level(case):
    types, ops = case[0], case[1]
    env = Env(trace=False)
    ms, refs = [], []
    for k, ty in enumerate(types):
        ms.append(sim.Monitor(f"m{k}", level=True, type=ty, env=env))
        refs.append(Level(0, 0, True, ty))
    for op in ops:
        step(env, ms, refs, op)
    return env, ms, refs


def step(env, ms, refs, op):
    if op[0] == "run":
        env.run(op[1])
        for r in refs:
            r.run(op[1])
    elif op[0] == "reset_now":
        env.reset_now(op[1])
        for r in refs:
            r.reset_now(op[1])
    else:
        k = op[0]
        if k < len(ms):
            mmodel.apply(refs[k], ms[k], env, op[1:])


def span(refs):
    lo = min(r.start for r in refs) - refs[0].offset
    return lo, refs[0].now - refs[0].offset


def derive_one(case, st):
    env, ms, refs = make_level(case)
    m, ref = ms[0], refs[0]
    lo, hi = span(refs)
    c = cells(ref)
    off = ref.off_value()
    made = []
    try:
        bounds = [None, lo - 1, lo, lo + 0.5, lo + 1, lo + 2, hi - 1, hi, hi + 3]
        for a in bounds:
            for b in bounds:
                if a is not None and b is not None and b < a:
                    continue
                sel = {t: v for t, v in c.items() if (a is None or t >= a) and (b is None or t < b)}
                d = m.slice(a, b) if (a, b) != (lo, None) else m[a:]
                made.append((f"slice({a}, {b})", d, sel, off))
        for a, b, mod in ((0, 1, 2), (1, 2, 2), (1, 2, 3), (2, 4, 3), (0.5, 2, 2), (3, 4, 10), (9, 11, 10), (-1, 1, 5)):
            sel = {t: v for t, v in c.items() if (t - a) % mod < b - a}
            made.append((f"slice({a}, {b}, modulo={mod})", m.slice(a, b, mod), sel, off))
        for args in ((None, 1, 2), (1, None, 2), (2, 1, 5), (1, 4, 3)):
            mmodel.refuse(f"slice{args}", (TypeError, ValueError) if False else Exception, lambda: m.slice(*args))
        f = lambda x: numeric(x) * 2 + 1
        made.append(("x_map", m.x_map(f), {t: f(v) for t, v in c.items()}, -inf))
        made.append(("x_map twice", m.x_map(lambda x, y: (x, y), [m]).x_map(lambda p: numeric(p[0]) + numeric(p[1])), {t: 2 * numeric(v) for t, v in c.items()}, -inf))
        made.append(("merge with itself", m + m, {t: 2 * numeric(v) for t, v in c.items()}, off))
        # a derived monitor can be derived from again
        s1 = m.slice(lo, lo + 2)
        made.append(("slice of a slice", s1.slice(lo + 1, hi), {t: v for t, v in c.items() if lo + 1 <= t < lo + 2}, off))
        made.append(("map of a slice", s1.x_map(f), {t: f(v) for t, v in c.items() if t < lo + 2}, -inf))
        if ref.offset == 0:
            for k in (2, 0.5, 1):
                sel = {}
                for t, v in c.items():
                    if k == 2:
                        sel[2 * t] = v
                        sel[2 * t + H] = v
                    elif k == 1:
                        sel[t] = v
                if k == 0.5:
                    d = m.t_multiply(0.5)
                    want("t_multiply(0.5) duration", d.duration(), fr(H) * len(c) / 2)
                    for t, v in c.items():
                        if 0.5 * t != hi:
                            want(f"t_multiply(0.5).get({0.5*t})", [d.get(0.5 * t)], [v])
                else:
                    d = m.t_multiply(k)
                    want(f"t_multiply({k}) duration", d.duration(), fr(H) * len(sel))
                    for t, v in sel.items():
                        want(f"t_multiply({k}).get({t})", [d.get(t)], [v])
                    for t in (lo - 1, k * hi + H):
                        if t != hi:
                            want(f"t_multiply({k}).get({t})", [d.get(t)], [off])
        for label, d, sel, o in made:
            expect_level(label, d, sel, lo, hi, o)
        fz = m.freeze()
        fref = ref.clone()
        mmodel.check_level(fz, fref, grid=[hi - 1, hi], light=True)
        # deriving changed nothing
        mmodel.check_level(m, ref, grid=[hi - 1, hi], light=True)
        # the source goes on, the derived ones do not
        for op in ((0, "tally", 3), ("run", 1), (0, "monitor", False), ("run", 1), (0, "reset")):
            step(env, ms, refs, op)
        for label, d, sel, o in made:
            expect_level(label + ", after the source went on", d, sel, lo, hi, o)
        mmodel.check_level(fz, fref, grid=[hi - 1, hi], light=True)
    except Diff as e:
        return f"{case}: {e}"
    st.trans(len(made))
    st.state((tuple(map(tuple, fref.path)), fref.now, fref.offset))
    st.outcome(f"{len(fref.path)} entries")


def derive_two(case, st):
    env, ms, refs = make_level(case)
    lo, hi = span(refs)
    cs = [cells(r) for r in refs]
    made = []
    try:
        both = sorted(set(cs[0]) & set(cs[1]))
        cur = None
        if all(r.on for r in refs):
            cur = numeric(refs[0].value) + numeric(refs[1].value)
        new_off = refs[0].off_value() if refs[0].type == refs[1].type else -inf
        sm = {t: numeric(cs[0][t]) + numeric(cs[1][t]) for t in both}
        made.append(("merge", ms[0].merge(ms[1]), sm, new_off, cur))
        made.append(("merge the other way", ms[1] + ms[0], sm, new_off, cur))
        made.append(("sum", sum(ms), sm, new_off, cur))
        f = lambda x, y: 10 * numeric(x) + numeric(y)
        made.append(("x_map", ms[0].x_map(f, [ms[1]]), {t: f(cs[0][t], cs[1][t]) for t in both}, -inf, None if cur is None else f(refs[0].value, refs[1].value)))
        made.append(("merge of three", ms[0].merge(ms[1], ms[0]), {t: 2 * numeric(cs[0][t]) + numeric(cs[1][t]) for t in both}, new_off, None))
        made.append(("slice of a merge", ms[0].merge(ms[1])[lo + 1 : lo + 3], {t: v for t, v in sm.items() if lo + 1 <= t < lo + 3}, new_off, None))
        for label, d, sel, o, cu in made:
            expect_level(label, d, sel, lo, hi, o, current=cu)
        for m, r in zip(ms, refs):
            mmodel.check_level(m, r, light=True)
        for op in ((0, "tally", 3), ("run", 1), (1, "reset")):
            step(env, ms, refs, op)
        for label, d, sel, o, cu in made:
            expect_level(label + ", after the sources went on", d, sel, lo, hi, o)
        # resampling
    except Diff as e:
        return f"{case}: {e}"
    st.trans(len(made))
    st.state((tuple(tuple(map(tuple, r.path)) for r in refs), hi))
    st.outcome("overlap" if both else "no overlap")


def resample(case, st):
    env, ms, refs = make_level(case)
    lo, hi = span(refs)
    cs = [cells(r) for r in refs]
    import pandas as pd

    na = lambda v: None if v is pd.NA or v != v else v
    try:
        for delta, a, b in ((1, None, None), (0.5, None, None), (1, lo - 1, hi + 1), (0.5, lo + 0.5, hi - 0.5)):
            kw = {} if a is None else {"min_t": a, "max_t": b}
            df = ms[0].as_resampled_dataframe(extra_monitors=ms[1:], delta_t=delta, **kw)
            t0, t1 = (lo, hi) if a is None else (a, b)
            ts = []
            t = t0
            while t < t1:
                ts.append(t)
                t += delta
            want("t column", list(df["t"]), ts)
            for k, r in enumerate(refs):
                exp = []
                for t in ts:
                    if t >= hi:
                        last = r.path[-1][1]
                        exp.append(None if last is OFF else last)
                    else:
                        exp.append(cs[k].get(t))
                want(f"column of monitor {k}, delta_t={delta}, {kw}", [na(v) for v in df[f"m{k}.x"]], exp)
        df = ms[0].as_dataframe()
        xs, ts = refs[0].xt(False, False, True, True)
        want("as_dataframe t", list(df["t"]), ts)
        want("as_dataframe x", list(df["m0.x"]), xs)
        for m, r in zip(ms, refs):
            mmodel.check_level(m, r, light=True)
    except Diff as e:
        return f"{case}: {e}"
    st.trans(5)
    st.state((tuple(tuple(map(tuple, r.path)) for r in refs), hi))
    st.outcome("done")


def derive_tallies(case, st):
    types, ops = case
    env = Env(trace=False)
    ms = [sim.Monitor(f"m{k}", type=ty, env=env) for k, ty in enumerate(types)]
    refs = [Tallies(0, True, ty) for ty in types]
    try:
        for op in ops:
            step(env, ms, refs, op)
        now, offs = refs[0].now, refs[0].offset
        made = []

        def add(label, d, data, ty=None):
            r = Tallies(0, False, ty or types[0])
            r.data = list(data)
            made.append((label, d, r))

        m, ref = ms[0], refs[0]
        u = now - offs
        bounds = [None, -offs, 0, 1, u - 1, u, u + 2]
        for a in bounds:
            for b in bounds:
                if a is not None and b is not None and b < a:
                    continue
                add(f"slice({a}, {b})", m.slice(a, b), [e for e in ref.data if (a is None or e[0] - offs >= a) and (b is None or e[0] - offs < b)])
        for a, b, mod in ((0, 1, 2), (1, 2, 2), (2, 4, 3), (0.5, 2, 2), (9, 11, 10)):
            add(f"slice({a}, {b}, modulo={mod})", m.slice(a, b, mod), [e for e in ref.data if (e[0] - offs - a) % mod < b - a])
        f = lambda x: numeric(x) * 2 + 1
        add("x_map", m.x_map(f), [(t, f(x), w) for t, x, w in ref.data], "any")
        if types[0] == "float":
            add("multiply", m.multiply(2.5), [(t, x * 2.5, w) for t, x, w in ref.data])
            add("*", m * 2, [(t, x * 2, w) for t, x, w in ref.data])
            add("reversed *", 2 * m, [(t, x * 2, w) for t, x, w in ref.data])
            add("/", m / 2, [(t, x / 2, w) for t, x, w in ref.data])
        else:
            mmodel.refuse("multiply of a non float monitor", ValueError, lambda: m.multiply(2))
        if len(ms) > 1:
            mixed = types[0] if types[0] == types[1] else "any"
            both = sorted([(t, 0, k, x, w) for k, (t, x, w) in enumerate(ref.data)] + [(t, 1, k, x, w) for k, (t, x, w) in enumerate(refs[1].data)], key=lambda e: e[:3])
            add("merge", m.merge(ms[1]), [(t, x, w) for t, _, _, x, w in both], mixed)
            add("+", m + ms[1], [(t, x, w) for t, _, _, x, w in both], mixed)
            add("merge, slice", (m + ms[1])[0:2], [(t, x, w) for t, _, _, x, w in both if 0 <= t - offs < 2], mixed)
        else:
            dbl = [e for t in sorted({e[0] for e in ref.data}) for _ in (0, 1) for e in ref.data if e[0] == t]
            add("merge with itself", m.merge(m), dbl)
        fz = m.freeze()
        add("freeze", fz, ref.data)

        def verify(when):
            for label, d, r in made:
                try:
                    mmodel.check_tallies(d, r, light=True)
                    x, t = d.xt(force_numeric=False)
                    want("xt", list(x) + list(t), [e[1] for e in r.data] + [e[0] for e in r.data])
                    if label != "freeze":
                        mmodel.refuse("tally on a derived monitor", TypeError, lambda: d.tally(1))
                except Diff as e:
                    raise Diff(f"{label}{when}: {e}")

        verify("")
        for mm, r in zip(ms, refs):
            mmodel.check_tallies(mm, r, light=True)
        for op in ((0, "tally", 1, 3), ("run", 1), (0, "tally", 0), (0, "reset"), (0, "tally", 3)):
            step(env, ms, refs, op)
        verify(", after the source went on")
    except Diff as e:
        return f"{case}: {e}"
    st.trans(len(made))
    st.state(tuple(tuple(r.data) for r in refs))
    st.outcome(f"{len(refs)} monitors")


def families(tier):
    th = tier == "thorough"
    fams = []
    T = [(0, "tally", 1), (0, "tally", 3), ("run", 1), ("run", 0.5), (0, "monitor", False), (0, "monitor", True), (0, "reset")]
    d = 6 if th else 5

    def useful(ops):
        if not any(o[0] == "run" for o in ops):
            return False
        return not any(a == b and a[0] != "run" for a, b in zip(ops, ops[1:]))

    cases = [(("any",), ops) for ops in itertools.product(T, repeat=d - 1) if useful(ops)]
    cases += [(("any",), ops) for ops in itertools.product([T[0], T[1], T[2], T[4], T[5]], repeat=d) if useful(ops)]
    T2 = [(0, "tally", 1), ("run", 2), (0, "monitor", False), (0, "monitor", True), ("reset_now", 0), ("reset_now", 7), ("reset_now", -3)]
    cases += [(("float",), (("run", 1),) + ops + (("run", 1),)) for ops in itertools.product(T2, repeat=d - 2) if useful(ops)]
    cases += [(("uint8",), ops) for ops in itertools.product(T[:3] + T[4:6], repeat=d - 1) if useful(ops)]
    cases += [(("any",), ((0, "tally", a), ("run", 1), (0, "tally", b), ("run", 1))) for a in ("a", "3", None) for b in ("", 1, "2")]
    fams.append(Family("level", cases, derive_one, f"all histories of {d-1} ({d}) operations; every slice, modulo slice, map, merge, freeze; the source then goes on", setup))
    T = [(0, "tally", 1), (1, "tally", 3), (0, "tally", 0), ("run", 1), (0, "monitor", False), (1, "monitor", False), (0, "monitor", True), (1, "monitor", True), (1, "reset"), (0, "reset")]
    cases = []
    for types in (("any", "any"), ("float", "float"), ("uint8", "float"), ("any", "int8"), ("bool", "uint16")):
        dd = d if th and types == ("any", "any") else d - 1
        for ops in itertools.product(T, repeat=dd):
            if useful(ops):
                o = tuple((x[0], x[1], 1) if types[1] == "bool" and x[1:2] == ("tally",) else x for x in ops)
                cases.append((types, o + (("run", 1),)))
    fams.append(Family("two_levels", cases, derive_two, f"all histories of {d-1} operations on 2 monitors, 5 combinations of types; merges and maps", setup))
    cases = []
    for types in (("any",), ("any", "uint8"), ("float", "any")):
        Tr = T[:6] + T[6:8] if len(types) > 1 else [x for x in T if x[0] != 1]
        for ops in itertools.product(Tr, repeat=3):
            if useful(ops):
                cases.append((types, ops + (("run", 1),)))
                cases.append((types, (("run", 1), ("reset_now", 0)) + ops + (("run", 1),)) if types == ("any",) else (types, (("run", 1),) + ops + (("run", 1),)))
    fams.append(Family("resample", [c for c in cases if not any(x[0] == "reset_now" for x in c[1])], resample, "all histories of 3 operations; resampled dataframes with 4 grids", setup))
    T = [(0, "tally", 1), (0, "tally", 0, 2), (0, "tally", 3, 0.5), ("run", 1), (0, "monitor", False), (0, "monitor", True)]
    cases = [((ty,), ops) for ty in ("any", "float", "uint8") for ops in itertools.product(T, repeat=d - 1)]
    T1 = [(0, "tally", 1), (1, "tally", 0, 2), (1, "tally", 1), (0, "tally", 3, 2), ("run", 1), (0, "reset")]
    cases += [(types, ops) for types in (("any", "any"), ("float", "float"), ("uint8", "float")) for ops in itertools.product(T1, repeat=d - 1)]
    T2 = [(0, "tally", 1), ("run", 1), ("run", 2), ("reset_now", 0), ("reset_now", 5), (0, "tally", 0, 2)]
    cases += [(("float",), (("run", 1),) + ops) for ops in itertools.product(T2, repeat=d - 2)]
    fams.append(Family("tallies", cases, derive_tallies, f"all histories of {d-1} operations on 1 or 2 non level monitors; every derivation", setup))
    return fams
