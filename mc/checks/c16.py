"""C16: level monitors against the exact piecewise constant path."""

import itertools
import math

from mc import mmodel
from mc.core import Family, load_salabim
from mc.mmodel import Level, Diff

inf = math.inf
PROPERTY = "C16"
ASSUMPTIONS = [
    "values and points in time are small integers and halves, for which the floating point results are exact or differ by rounding only (1e-9)",
    "a value tallied at this very moment counts (with duration 0) for minimum and maximum, as the code documents no other rule",
]


def setup():
    global sim, Env
    sim = load_salabim()
    sim.yieldless(False)

    class Env(sim.Environment):
        def an_modelname(self):
            pass

        def an_clocktext(self):
            pass


def run_history(case, st):
    kind, initial, on, ops, every = case
    env = Env(trace=False)
    m = sim.Monitor("m", level=True, type=kind, initial_tally=initial, monitor=on, env=env)
    ref = Level(0, initial, on, kind)
    probes = PROBES.get(kind, (0, 1, 3))
    try:
        for k, op in enumerate(ops):
            mmodel.apply(ref, m, env, op)
            if every:
                u = env.now()
                mmodel.check_level(m, ref, probes, (u - 1, u), light=k + 1 < len(ops), last=True)
        u = env.now()
        mmodel.check_level(m, ref, probes, [u - d for d in (5, 4, 3.5, 3, 2.5, 2, 1.5, 1, 0.5, 0)], last=True)
        st.trans(len(ops))
        st.state((kind, tuple(map(tuple, ref.path)), ref.on, ref.value, ref.now))
        st.outcome("off" if not ref.on else "on")
    except Diff as e:
        return f"after {ops[:k+1]}: {e}"


PROBES = {"any": (0, 1, 3, "a", "3", None)}


def prune(ops):
    """histories ending in time passing or reading only, without two consecutive identical switches"""
    for a, b in zip(ops, ops[1:]):
        if a == b and a[0] in ("monitor", "reset", "reset_now"):
            return False
    return True


def families(tier):
    th = tier == "thorough"
    fams = []
    T = [("tally", 1), ("tally", 0), ("assign", 3), ("run", 1), ("monitor", False), ("monitor", True), ("reset",), ("reset", False), ("reset", True)]
    for on in (True, False):
        d = (6 if th else 5) if on else 4
        cases = [("any", 0, on, ops, every) for ops in itertools.product(T, repeat=d) if prune(ops) for every in (False, True)]
        fams.append(Family(f"switches_{'on' if on else 'off'}", cases, run_history, f"all histories of {d} operations, read at the end only and after every operation", setup))
    T = [("tally", 1), ("tally", 0), ("run", 1), ("run", 2), ("monitor", False), ("monitor", True)]
    d = 7 if th else 6
    cases = [("float", 0, True, ops, False) for ops in itertools.product(T, repeat=d) if prune(ops) and not any(a[0] == b[0] == "run" for a, b in zip(ops, ops[1:]))]
    fams.append(Family("deep", cases, run_history, f"all histories of {d} tallies, time steps and switches", setup))
    T = [("tally", 1), ("tally", 0), ("run", 1), ("monitor", False), ("monitor", True), ("reset_now", 0), ("reset_now", 5), ("reset",)]
    d = 5 if th else 4
    cases = [("any", 3, True, (("run", 2),) + ops, every) for ops in itertools.product(T, repeat=d) if prune(ops) for every in (False, True)]
    fams.append(Family("reset_now", cases, run_history, f"all histories of {d} operations with reset_now", setup))
    cases = []
    for kind, vals in (
        ("any", ("a", "3", "2.5", None, True, -1, "")),
        ("bool", (True, False, 255)),
        ("int8", (0, -5, -128)),
        ("uint8", (0, 5, 255)),
        ("int16", (0, -5, -32768)),
        ("uint16", (0, 5, 65535)),
        ("int32", (0, -5, -2147483648)),
        ("uint32", (0, 5, 4294967295)),
        ("int64", (0, -5)),
        ("uint64", (0, 5)),
        ("float", (0.0, -0.5, 2.5, -inf)),
        ("double", (0.0, -0.5)),
    ):
        for n in (3, 4) if th else (3,):
            for vs in itertools.product(vals, repeat=n):
                ops = ()
                for v in vs:
                    ops += (("tally", v), ("run", 1))
                cases.append((kind, vals[0], True, ops, False))
                cases.append((kind, vals[1], True, ops[:2] + (("monitor", False),) + ops[2:4] + (("monitor", True),) + ops[4:], True))
    fams.append(Family("types", cases, run_history, "every type and kind of value, 3 (4) tallies, with and without an off period", setup))
    cases = []
    for kind in ("any", "float"):
        for vs in itertools.product(mmodel.BIG_VALUES, repeat=2):
            for ds in itertools.product(mmodel.BIG_WEIGHTS, repeat=2):
                cases.append((kind, 0, True, tuple(x for v, d in zip(vs, ds) for x in (("tally", v), ("run", d))), True))
    fams.append(Family("magnitudes", cases, run_history, "all pairs of values and durations from 2**-10 to 2**40", setup))
    cases = []
    for n in mmodel.SIZES[:-1]:
        for vs in mmodel.patterns(n):
            for off in (False, True):
                ops = tuple(x for k, v in enumerate(vs) for x in (("tally", v), ("run", (1, 0.5, 0)[k % 3])) + ((("monitor", k % 14 == 6),) if off and k % 7 == 6 else ()))
                cases.append(("any" if off else "float", 0, True, ops, False))
    fams.append(Family("sizes", cases, run_history, "8 to 257 changes in 6 patterns, with and without off periods", setup))
    return fams
