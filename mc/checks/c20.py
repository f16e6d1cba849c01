"""C20: stats_only monitors against the model of full monitors."""

import itertools
import math

from mc import mmodel
from mc.core import Family, load_salabim
from mc.checks.c18 import check_statistics
from mc.mmodel import Level, Tallies, Diff, want

inf = math.inf
PROPERTY = "C20"
ASSUMPTIONS = ["values, weights and time steps are small dyadic numbers; results may differ by rounding (1e-9)"]


def setup():
    global sim, Env
    sim = load_salabim()
    sim.yieldless(False)

    class Env(sim.Environment):
        def an_modelname(self):
            pass

        def an_clocktext(self):
            pass


REFUSED = {
    "percentile": lambda m: m.percentile(50),
    "median": lambda m: m.median(),
    "values": lambda m: m.values(),
    "xt": lambda m: m.xt(),
    "tx": lambda m: m.tx(),
    "slice": lambda m: m.slice(0, 1),
    "[:]": lambda m: m[0:1],
    "merge": lambda m: m.merge(m),
    "+": lambda m: m + m,
    "freeze": lambda m: m.freeze(),
    "x_map": lambda m: m.x_map(lambda x: x),
    "histogram_autoscale": lambda m: m.histogram_autoscale(),
    "as_dataframe": lambda m: m.as_dataframe(),
    "x": lambda m: m.x(),
    "xweight": lambda m: m.xweight(),
    "xduration": lambda m: m.xduration(),
    "bin_number_of_entries": lambda m: m.bin_number_of_entries(0, 1),
    "bin_weight": lambda m: m.bin_weight(0, 1),
    "bin_duration": lambda m: m.bin_duration(0, 1),
    "value_number_of_entries": lambda m: m.value_number_of_entries(1),
    "value_weight": lambda m: m.value_weight(1),
    "value_duration": lambda m: m.value_duration(1),
    "t_multiply": lambda m: m.t_multiply(2),
    "*": lambda m: m * 2,
    "get(t)": lambda m: m.get(m.env.now() - 1),
}


def refusals(m):
    for name, f in REFUSED.items():
        try:
            r = f(m)
        except Exception:
            continue
        raise Diff(f"{name} needs the individual values, but gives {r} for a stats_only monitor")


def check(m, ref, level, ref_too=False):
    if level:
        want("get()", [m.get()], [ref.value])
        want("value", [m.value], [ref.value])
        want("t()", [m.t()], [ref.tlast - ref.offset])
        mmodel.check_weighted_stats(m, ref.pairs(), "duration")
    else:
        pairs = ref.pairs()
        mmodel.check_weighted_stats(m, pairs, "weight")
        for ex0 in (False, True):
            want(f"number_of_entries(ex0={ex0})", m.number_of_entries(ex0=ex0), sum(1 for x, _ in pairs if not (ex0 and x == 0)))
        want("number_of_entries_zero", m.number_of_entries_zero(), sum(1 for x, _ in pairs if x == 0))
    want("monitor()", [m.monitor()], [ref.on])
    want("start_time", m.start_time(), ref.start - ref.offset)
    if m.stats_only():
        lines = m.print_statistics(as_str=True, show_header=False, show_legend=False).split("\n")
        check_statistics(lines, m, ref.pairs(), level or any(ln.startswith("weight") for ln in lines), stats_only=True)
    if ref_too and m.stats_only():
        refusals(m)


def run_history(case, st):
    level, kind, on, ops, every = case
    env = Env(trace=False)
    if level:
        m = sim.Monitor("m", level=True, type=kind, monitor=on, stats_only=True, env=env)
        ref = Level(0, 0, on, kind)
    else:
        m = sim.Monitor("m", type=kind, monitor=on, stats_only=True, env=env)
        ref = Tallies(0, on, kind)
    k = -1
    try:
        check(m, ref, level)
        for k, op in enumerate(ops):
            if op[0] == "stats_only":
                m.reset(stats_only=op[1])
                ref.reset()
                want("stats_only()", [m.stats_only()], [op[1]])
            else:
                mmodel.apply(ref, m, env, op)
            if every:
                check(m, ref, level)
        check(m, ref, level, every and len(ops) < 5)
        st.trans(len(ops))
        st.state((level, kind, ref.on, ref.now, tuple(map(tuple, ref.path if level else ref.data))))
        st.outcome("level" if level else "non level")
    except Diff as e:
        return f"{'level' if level else 'non level'} monitor, after {ops[:k+1]}: {e}"


def prune(ops):
    for a, b in zip(ops, ops[1:]):
        if a == b and a[0] in ("monitor", "reset", "reset_now", "stats_only"):
            return False
    return True


def families(tier):
    th = tier == "thorough"
    fams = []
    T = [("tally", 1), ("tally", 0), ("assign", 3), ("run", 1), ("monitor", False), ("monitor", True), ("reset",), ("reset", False), ("reset", True)]
    d = 6 if th else 5
    cases = [(True, "any", True, ops, every) for ops in itertools.product(T, repeat=d) if prune(ops) for every in (False, True)]
    fams.append(Family("level", cases, run_history, f"all histories of {d} operations on a level monitor", setup))
    d -= 1
    cases = [(True, "any", False, ops, every) for ops in itertools.product(T, repeat=d) if prune(ops) for every in (False, True)]
    fams.append(Family("level_initially_off", cases, run_history, f"all histories of {d} operations", setup))
    T = [("tally", 1), ("tally", 0), ("tally", 3, 2), ("tally", 1, 0), ("tally", 0, 0.5), ("run", 1), ("monitor", False), ("monitor", True), ("reset",), ("reset", False)]
    d = 5 if th else 4
    cases = [(False, "any", on, ops, every) for on in (True, False) for ops in itertools.product(T, repeat=d) if prune(ops) for every in (False, True)]
    fams.append(Family("non_level", cases, run_history, f"all histories of {d} operations on a non level monitor", setup))
    T = [("tally", 1), ("tally", 0), ("tally", -2), ("tally", "a"), ("tally", "4"), ("run", 2), ("monitor", False), ("monitor", True), ("stats_only", False), ("stats_only", True), ("reset_now", 3)]
    cases = [(level, "any", True, ops, True) for level in (True, False) for ops in itertools.product(T, repeat=d) if prune(ops)]
    fams.append(Family("changing", cases, run_history, f"all histories of {d} operations, changing between stats_only and full, with non numeric values and reset_now", setup))
    vals = (-2, 0, 1, 1.5, 4)
    n = 6 if th else 5
    cases = []
    for vs in itertools.product(vals, repeat=n):
        lev = ()
        non = ()
        for k, v in enumerate(vs):
            lev += (("tally", v), ("run", (1, 2, 0.5)[k % 3]))
            non += (("tally", v, (1, 2, 0.5)[k % 3]),)
        cases.append((True, "float", True, lev, False))
        cases.append((False, "float", True, non, False))
    fams.append(Family("running_moments", cases, run_history, f"all sequences of {n} out of 5 values", setup))
    cases = []
    for vs in itertools.product((-1024.0, -2.5, 2.0**-10, 7, 1234.5), repeat=2):
        for ws in itertools.product((0.25, 1, 7, 100.5, 128), repeat=2):
            cases.append((True, "float", True, tuple(x for v, d in zip(vs, ws) for x in (("tally", v), ("run", d))), True))
            cases.append((False, "float", True, tuple(("tally", v, w) for v, w in zip(vs, ws)), True))
    fams.append(Family("magnitudes", cases, run_history, "all pairs of values and weights/durations of larger magnitude (range limited, because the running moments of stats_only monitors round)", setup))
    cases = []
    for n in mmodel.SIZES:
        for vs in mmodel.patterns(n):
            cases.append((True, "any", True, tuple(x for k, v in enumerate(vs) for x in (("tally", v), ("run", (1, 0.5, 0)[k % 3]))), False))
            cases.append((False, "any", True, tuple(("tally", v, (1, 1, 0.5, 3)[k % 4]) for k, v in enumerate(vs)), False))
    fams.append(Family("sizes", cases, run_history, "8 to 1000 tallies in 6 patterns", setup))
    return fams
