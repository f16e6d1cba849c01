"""C01: order of events and monotone clock."""

import itertools
import math

from mc import driver
from mc.core import Family
from mc.driver import history_family, compare
from mc.ops import product_kw, on, enabled_fn, RUN1, RUN, END

inf = math.inf
PROPERTY = "C01"
ASSUMPTIONS = [
    "at most 3-7 processes and 2-5 scheduling decisions per history; times from a small set with deliberate ties",
    "reference model: the event with the smallest (time, priority), most recent urgent first, then oldest non-urgent first",
]


def check(world):
    def f(ops, st):
        for mode in (True, False):
            msg = compare(world, ops, st, mode)
            if msg:
                return msg

    return f


def fam(name, world, cases, bounds, modes=(True, False)):
    def f(ops, st):
        for mode in modes:
            msg = compare(world, ops, st, mode)
            if msg:
                return msg

    return Family(name, cases, f, bounds, driver.setup)


def ties(n, delays, prios, urgents, ops=("activate", "create")):
    kws = product_kw(delay=delays, priority=prios, urgent=urgents)
    out = []
    for combo in itertools.product(kws, repeat=n):
        for op in ops:
            out.append(tuple((op, i, kw) for i, kw in enumerate(combo)))
    return out


def removal_cases(n):
    """n scheduled processes in every order of times, then one is cancelled/rescheduled, then everything runs"""
    out = []
    for perm in itertools.permutations(range(n)):
        base = tuple(("activate", i, {"delay": t}) for i, t in enumerate(perm))
        for victim in range(n):
            out.append(base + (("cancel", victim, {}),))
    return out


def reschedule_cases(n):
    out = []
    for perm in itertools.permutations(range(n)):
        base = tuple(("activate", i, {"delay": t}) for i, t in enumerate(perm))
        for victim in range(n):
            for t in (0, n // 2, n):
                out.append(base + (("activate", victim, {"delay": t}), ("interrupt", (victim + 1) % n, {}), ("hold", (victim + 2) % n, {"duration": 1.5})))
    return out


def heap_orders(n):
    """all orders of n distinct times in which every element i comes after element (i-1)//2 in time (all distinct binary heaps)"""
    out = []

    def rec(arr, free):
        i = len(arr)
        if i == n:
            out.append(tuple(arr))
            return
        for t in sorted(free):
            if i == 0 or arr[(i - 1) // 2] < t:
                # only the smallest free value can be at the root; prune impossible prefixes cheaply
                rec(arr + [t], free - {t})

    rec([0], set(range(1, n)))
    return out


def level_removal_cases(n, levels):
    """n events at only a few distinct times, no event before the one it would be below in a binary heap; one is withdrawn or moved"""
    arrs = []

    def rec(arr):
        i = len(arr)
        if i == n:
            arrs.append(tuple(arr))
            return
        for t in range(arr[(i - 1) // 2] if i else 0, levels):
            rec(arr + [t])

    rec([])
    out = []
    for arr in arrs:
        base = tuple(("activate", i, {"delay": t}) for i, t in enumerate(arr))
        for victim in range(n):
            out.append(base + (("cancel", victim, {}),))
    return out


def heap_removal_cases(n):
    out = []
    for perm in heap_orders(n):
        base = tuple(("activate", i, {"delay": t}) for i, t in enumerate(perm))
        for victim in range(n):
            out.append(base + (("cancel", victim, {}),))
    return out


def long_run(case, st):
    """many events: pattern of delays, a fraction withdrawn or moved; and processes that hold again and again at tied times"""
    kind, n, mode = case
    sim = driver.sim
    env = driver._Env(trace=False, yieldless=mode, random_seed="")
    log = []
    if kind[0] == "many":
        delay = {"same": lambda i: 1, "up": lambda i: i // 3, "down": lambda i: (n - i) // 2, "zigzag": lambda i: (i * 7) % 11, "scatter": lambda i: (i * i * 31 + 7 * i) % (n + 3)}[kind[1]]
        if mode:

            class C(sim.Component):
                def process(self):
                    log.append((env.now(), self.nr))

        else:

            class C(sim.Component):
                def process(self):
                    log.append((env.now(), self.nr))
                    return
                    yield

        cs = []
        ref = {}
        seq = 0
        for i in range(n):
            c = C(process=None, env=env)
            c.nr = i
            cs.append(c)
            prio, urgent = (0, 1, -1)[i % 3] if kind[2] else 0, kind[2] and i % 5 == 0
            seq += 1
            ref[i] = (delay(i), prio, -seq if urgent else seq)
            c.activate(delay=delay(i), priority=prio, urgent=urgent)
        if kind[3]:
            for i in range(0, n, 3):
                if i % 2:
                    cs[i].cancel()
                    del ref[i]
                else:
                    seq += 1
                    ref[i] = (delay(i) // 2, 0, seq)
                    cs[i].activate(delay=delay(i) // 2)
        env.run()
        want = [(k[0], i) for k, i in sorted((k, i) for i, k in ref.items())]
    else:
        # m processes, process i holds (i % 2) + 1 all the time
        m = kind[1]
        if mode:

            class C(sim.Component):
                def setup(self, nr):
                    self.nr = nr

                def process(self):
                    while True:
                        log.append((env.now(), self.nr))
                        self.hold(self.nr % 2 + 1)

        else:

            class C(sim.Component):
                def setup(self, nr):
                    self.nr = nr

                def process(self):
                    while True:
                        log.append((env.now(), self.nr))
                        yield self.hold(self.nr % 2 + 1)

        for i in range(m):
            C(nr=i, env=env)
        till = n // m
        env.run(till)
        import heapq

        h = [(0, i, i) for i in range(m)]
        seq = m
        want = []
        while h[0][0] <= till:
            t, _, i = heapq.heappop(h)
            want.append((t, i))
            heapq.heappush(h, (t + i % 2 + 1, seq, i))
            seq += 1
    st.trans(len(want))
    st.state(case)
    st.outcome((kind[0], len(want)))
    if log != want:
        k = next(k for k in range(max(len(log), len(want))) if log[k : k + 1] != want[k : k + 1])
        return f"event {k} of {len(want)}: (time, process) {log[k:k+1]}, expected {want[k:k+1]}"


def families(tier):
    th = tier == "thorough"
    fams = []
    w3 = dict(ncomp=3)
    w3a = dict(ncomp=3, absent=(0, 1, 2))
    T = (None, True)
    P = (None, 1, -1)
    fams.append(fam("ties_activate", w3, lambda: ties(3, (None, 1), P, T, ("activate",)), "3 processes, all (delay, priority, urgent) combinations"))
    fams.append(
        fam("ties_create", w3a, lambda: ties(3, (None, 1), P, T, ("create",)), "3 processes created with all (delay, priority, urgent) combinations")
    )
    w5 = dict(ncomp=5 if th else 4)
    fams.append(
        fam("ties_more", w5, lambda: ties(w5["ncomp"], (0,), (0, 1), (False, True), ("activate",)) + ties(w5["ncomp"], (0, 1), (0,), (False, True), ("activate",)), "4 (5) processes at tied times")
    )
    n = 7 if th else 6
    fams.append(fam("removal", dict(ncomp=n), lambda: removal_cases(n), f"every order of {n} events, one event withdrawn", (True,)))
    nh = 9 if th else 8
    fams.append(fam("removal_many", dict(ncomp=nh), lambda: heap_removal_cases(nh), f"every heap-shaped order of {nh} events, one event withdrawn", (False,)))
    for nl, lev in ((12, 2), (14, 2)) if not th else ((12, 3), (16, 2)):
        fams.append(
            fam(f"removal_{nl}", dict(ncomp=nl), lambda nl=nl, lev=lev: level_removal_cases(nl, lev), f"{nl} events at {lev} different times, in every heap-shaped order, one event withdrawn", (False,))
        )
    n2 = 6 if th else 5
    fams.append(
        fam("reschedule", dict(ncomp=n2), lambda: reschedule_cases(n2), f"every order of {n2} events, events moved, interrupted, replaced", (True,))
    )
    # times that are equal only up to rounding are different times; exactly equal sums are ties
    DT = (0.1, 0.2, 0.3, 0.1 + 0.2, 0.30000000000000004, 1e-9, 1e9, 1e9 + 1e-6)
    fl = []
    for a, b, c in itertools.product(DT, repeat=3):
        fl.append((("activate", 0, {"delay": a}), ("activate", 1, {"delay": b}), ("run", None, {"duration": 0.1}), ("activate", 2, {"delay": c})))
        fl.append((("activate", 0, {"at": a}), ("activate", 1, {"delay": b, "at": 0.1}), ("activate", 2, {"at": c, "priority": 1})))
    fams.append(fam("float_times", w3, fl, "3 processes, all combinations of floating point times that nearly coincide"))
    cases = [(("many", p, pr, w), n, mode) for n in ((20, 100, 600, 3000) if not th else (20, 100, 300, 600, 3000, 20000)) for p in ("same", "up", "down", "zigzag", "scatter") for pr in (False, True) for w in (False, True) if not (w and n > 3000) for mode in (True, False)]
    cases += [(("again", m), n, mode) for m in (2, 3, 17) for n in ((500, 5000, 20000) if not th else (500, 5000, 20000, 200000)) for mode in (True, False)]
    fams.append(Family("long", cases, long_run, "20 to 3000 (20000) events in 5 patterns of times, with priorities, withdrawn and moved events; up to 20000 (200000) holds at tied times", driver.setup))
    # processes that schedule themselves and each other while time advances, with ties
    per = [("activate", kw) for kw in product_kw(delay=(None, 1), priority=(None, -1), urgent=T)]
    per += [("hold", kw) for kw in product_kw(duration=(None, 1), priority=(None, 1), urgent=T)]
    per += [("activate", {"at": 1}), ("hold", {"till": 1}), ("passivate", {}), ("cancel", {})]
    fams.append(
        history_family(
            "nested",
            dict(ncomp=2),
            enabled_fn(per, (), (RUN1, RUN), (END,), 2),
            5 if th else 4,
            f"2 processes, histories of {5 if th else 4} operations chosen by whichever process is in control",
            yieldless="both" if not th else True,
        )
    )
    per = [("activate", {}), ("activate", {"delay": 1}), ("activate", {"urgent": True}), ("activate", {"priority": 1}), ("hold", {"duration": 1}), ("hold", {})]
    fams.append(
        history_family(
            "nested3",
            dict(ncomp=3),
            enabled_fn(per, (), (RUN1,), (END,), 3),
            5 if th else 4,
            f"3 processes, histories of {5 if th else 4} operations",
        )
    )
    # the end of a run relative to events at the same moment
    per = [("activate", {"delay": 1}), ("activate", {"delay": 2}), ("activate", {"delay": 1, "priority": 1}), ("hold", {"duration": 1}), ("activate", {"delay": inf})]
    runs = [("run", None, kw) for kw in product_kw(duration=(0, 1, 2), priority=(None, 0, -1), urgent=T)]
    runs += [("run", None, {"till": 1}), ("run", None, {"till": 2}), RUN]
    fams.append(
        history_family(
            "run_end",
            dict(ncomp=2),
            enabled_fn(per, (), tuple(runs), (), 2),
            5 if th else 4,
            "where a run ends relative to events at the same time, for every priority/urgency of the run",
        )
    )
    return fams
