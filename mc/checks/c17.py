"""C17: non level monitors against the plain list of tallies."""

import itertools
import math

from mc import mmodel
from mc.core import Family, load_salabim
from mc.mmodel import Tallies, Diff

inf = math.inf
PROPERTY = "C17"
ASSUMPTIONS = ["values and weights are dyadic numbers (2**-10 to 2**40), so that results are exact up to rounding (1e-9); weights are non negative"]


def setup():
    global sim, Env
    sim = load_salabim()
    sim.yieldless(False)

    class Env(sim.Environment):
        def an_modelname(self):
            pass

        def an_clocktext(self):
            pass


def run_history(case, st):
    kind, on, fill, ops, every = case
    env = Env(trace=False)
    kw = {}
    ref = Tallies(0, on, kind)
    if fill is not None:
        kw["fill"] = list(fill)
        ref.data = [(0, v, 1) for v in fill]
    m = sim.Monitor("m", type=kind, monitor=on, env=env, **kw)
    probes = PROBES.get(kind, (0, 1, 3))
    k = -1
    try:
        mmodel.check_tallies(m, ref, probes)
        for k, op in enumerate(ops):
            mmodel.apply(ref, m, env, op)
            if every:
                mmodel.check_tallies(m, ref, probes, light=k + 1 < len(ops))
        mmodel.check_tallies(m, ref, probes)
        st.trans(len(ops))
        st.state((kind, tuple(ref.data), ref.on, ref.now))
        st.outcome(f"{len(ref.data)} entries, {'on' if ref.on else 'off'}")
    except Diff as e:
        return f"after {ops[:k+1]}: {e}"


PROBES = {"any": (0, 1, 3, "a", "3", None)}


def prune(ops):
    for a, b in zip(ops, ops[1:]):
        if a == b and a[0] in ("monitor", "reset", "reset_now"):
            return False
    return True


def families(tier):
    th = tier == "thorough"
    fams = []
    T = [("tally", 1), ("tally", 0), ("tally", 3, 2), ("tally", 0, 0.5), ("run", 1), ("monitor", False), ("monitor", True), ("reset",), ("reset", False), ("reset", True)]
    for on in (True, False):
        d = (6 if th else 5) if on else 4
        cases = [("any", on, None, ops, every) for ops in itertools.product(T, repeat=d) if prune(ops) for every in (False, True) if every or d < 5 or th]
        fams.append(Family(f"switches_{'on' if on else 'off'}", cases, run_history, f"all histories of {d} operations, read at the end only and after every operation", setup))
    T = [("tally", 1), ("tally", 0), ("tally", -1, 1), ("tally", 3, 2), ("tally", 1, 0), ("tally", 0, 0.5), ("monitor", False), ("monitor", True)]
    d = 6 if th else 5
    cases = [("float", True, None, ops, False) for ops in itertools.product(T, repeat=d) if prune(ops)]
    fams.append(Family("weights", cases, run_history, f"all histories of {d} weighted tallies and switches", setup))
    T = [("tally", 1), ("tally", 0, 2), ("run", 1), ("reset_now", 0), ("reset_now", 5), ("reset",), ("monitor", False)]
    d = 5 if th else 4
    cases = [("any", True, fill, (("run", 2),) + ops, True) for ops in itertools.product(T, repeat=d) if prune(ops) for fill in (None, (1, 0), ("a", "2"))]
    fams.append(Family("reset_now", cases, run_history, f"all histories of {d} operations with reset_now, initially filled or not", setup))
    cases = []
    for kind, vals in (
        ("any", ("a", "3", "2.5", None, True, -1, "", "A b")),
        ("bool", (True, False)),
        ("int8", (0, -5, 127, -128)),
        ("uint8", (0, 5, 255)),
        ("int16", (0, -5)),
        ("uint16", (0, 5)),
        ("int32", (0, -5)),
        ("uint32", (0, 5)),
        ("int64", (0, -5)),
        ("uint64", (0, 5)),
        ("float", (0.0, -0.5, 2.5, 1e6)),
        ("double", (0.0, -0.5)),
    ):
        for vs in itertools.product(vals, repeat=4 if th else 3):
            for w in (1, 2, 0.5):
                ops = ()
                for k, v in enumerate(vs):
                    ops += (("tally", v, w if k != 1 else 1), ("run", 1))
                cases.append((kind, True, None, ops, w == 2))
    fams.append(Family("types", cases, run_history, "every type and kind of value, 3 (4) tallies", setup))
    cases = []
    for kind in ("any", "float"):
        for vs in itertools.product(mmodel.BIG_VALUES, repeat=2):
            for ws in itertools.product((1,) + mmodel.BIG_WEIGHTS, repeat=2):
                cases.append((kind, True, None, tuple(x for v, w in zip(vs, ws) for x in (("tally", v, w), ("run", w))), True))
    fams.append(Family("magnitudes", cases, run_history, "all pairs of tallies with values and weights from 2**-10 to 2**40", setup))
    cases = []
    for n in mmodel.SIZES:
        for vs in mmodel.patterns(n):
            for w in (None, 3, 0.5):
                ops = tuple(("tally", v) if w is None else ("tally", v, 1 if k % 5 else w) for k, v in enumerate(vs))
                cases.append(("any", True, None, ops, False))
                cases.append(("float", True, vs if w is None else None, (("run", 1),) + ops, False))
    fams.append(Family("sizes", cases, run_history, "8 to 1000 tallies in 6 patterns", setup))
    return fams
