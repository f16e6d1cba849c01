"""
C28: PeriodMonitor.  All histories of tallies, time steps, resets and switches of the parent monitor, attaching a second and removing
the first period monitor, against a model that sorts every tally (or every piece of a level path) into the period it lies in; a twin
monitor without period monitor is fed with the same and must stay equal to the parent.
"""

import itertools
import math

from mc import driver
from mc.core import Family

PROPERTY = "C28"
ASSUMPTIONS = [
    "a tally by a process at exactly a period boundary may be counted in either of the adjacent periods (but exactly one), as the order of events at that instant decides",
    "histories of up to 4 (5) operations, 1-3 periods, one or two period monitors, full and stats_only monitors, both yield modes",
]
sim = None


def setup():
    global sim
    driver.setup()
    sim = driver.sim


class Model:
    """one period monitor: records (t, x, w) in the order they were tallied, per period"""

    def __init__(self, periods, t0, level, value):
        self.periods = periods
        self.t0 = t0
        self.level = level
        self.entries = []  # (t, x, w) since reset
        self.start = t0  # since when there is data (attach or reset)
        self.end = None
        self.value0 = value  # level: value at start

    def period(self, t):
        u = (t - self.t0) % sum(self.periods)
        for i, d in enumerate(self.periods):
            if u < d:
                return i
            u -= d

    def tally(self, t, x, w):
        if self.end is None:
            self.entries.append((t, x, w))

    def reset(self, t, value):
        if self.end is None:
            self.entries = []
            self.start = t
            self.value0 = value

    def bounds(self, now):
        out = [self.t0]
        for d in itertools.cycle(self.periods):
            out.append(out[-1] + d)
            if out[-1] > now:
                return out

    def durations(self, now):
        """per period {value: duration}"""
        now = now if self.end is None else self.end
        out = [{} for _ in self.periods]
        path = [(self.start, self.value0)] + [(t, x) for t, x, _ in self.entries]
        for (a, x), (b, _) in zip(path, path[1:] + [(now, None)]):
            # cut at period bounds
            cuts = [a] + [c for c in self.bounds(now) if a < c < b] + [b]
            for c, d in zip(cuts, cuts[1:]):
                if d > c:
                    i = self.period(c)
                    out[i][x] = out[i].get(x, 0) + d - c
        return out


def observe_level(mon, stats_only):
    if stats_only:
        return (mon.duration(), mon.mean())
    out = {}
    for x, d in zip(*mon.xduration(force_numeric=False)):
        if d:
            out[x] = out.get(x, 0) + d
    return out


def same(a, b):
    return a == b or (a != a and b != b) or abs(a - b) < 1e-9


def check(case, st):
    level, stats_only, periods, yieldless, by, ops = case
    sim.default_cap_now(False)
    env = driver._Env(trace=False, yieldless=yieldless)
    m = sim.Monitor("m", level=level, stats_only=stats_only, env=env)
    twin = sim.Monitor("twin", level=level, stats_only=stats_only, env=env)
    pms = []
    models = []
    value = [0]
    weights = [False]
    failed = []

    def attach(per):
        pms.append(sim.PeriodMonitor(m, periods=list(per), env=None if by == "main" else env))
        models.append(Model(per, env.now(), level, value[0]))
        if not level:
            pass

    def do(op):
        k = op[0]
        if k == "t":
            m.tally(op[1])
            twin.tally(op[1])
            value[0] = op[1]
            for x in models:
                x.tally(env.now(), op[1], 1)
        elif k == "w":
            m.tally(op[1], op[2])
            twin.tally(op[1], op[2])
            for x in models:
                x.tally(env.now(), op[1], op[2])
        elif k == "reset":
            m.reset()
            twin.reset()
            for x in models:
                x.reset(env.now(), value[0])
        elif k in ("off", "on"):
            m.monitor(k == "on")
            twin.monitor(k == "on")
        elif k == "attach":
            attach((1, 0.5) if len(pms) == 1 else (2,))
        elif k == "remove":
            for p, x in zip(pms, models):
                if x.end is None:
                    x.end = env.now()
                    p.remove()
                    break

    def compare(where):
        now = env.now()
        if stats_only:
            fs = ("mean", "std", "minimum", "maximum") + (("duration",) if level else ("number_of_entries", "weight"))
            a = [getattr(m, f)() for f in fs]
            b = [getattr(twin, f)() for f in fs]
            if not all(same(x, y) for x, y in zip(a, b)):
                return f"{where}: monitored monitor {a}, same monitor without period monitor {b}"
        else:
            a = (m.xt(), m.monitor()) if level else (m.xt(), m.xweight(), m.monitor())
            b = (twin.xt(), twin.monitor()) if level else (twin.xt(), twin.xweight(), twin.monitor())
            if repr(a) != repr(b):
                return f"{where}: monitored monitor {a}, same monitor without period monitor {b}"
        for nr, (pm, mod) in enumerate(zip(pms, models)):
            if any(pm[i].stats_only() != stats_only for i in range(len(mod.periods))):
                return f"{where}: period monitors stats_only {[pm[i].stats_only() for i in range(len(mod.periods))]}, parent {stats_only}"
            if level:
                want = mod.durations(now)
                for i, per in enumerate(mod.periods):
                    got = observe_level(pm[i], stats_only)
                    if stats_only:
                        d = sum(want[i].values())
                        w = (d, sum(x * y for x, y in want[i].items()) / d if d else math.nan)
                        if not same(got[0], w[0]) or not same(got[1], w[1]):
                            return f"{where}: period monitor {nr}, period {i}: duration, mean {got}, expected {w}"
                    elif got != want[i]:
                        return f"{where}: period monitor {nr}, period {i}: durations {got}, expected {want[i]}"
                    if not same(pm[i].duration(), sum(want[i].values())):
                        return f"{where}: period monitor {nr}, period {i}: duration() {pm[i].duration()}, expected {sum(want[i].values())}"
            else:
                total = 0
                got = []
                for i in range(len(mod.periods)):
                    total += pm[i].number_of_entries()
                    if not stats_only:
                        xs, ts = pm[i].xt()
                        ws = pm[i].xweight()[1]
                        got.append(list(zip(ts, xs, ws)))
                    else:
                        got.append((pm[i].number_of_entries(), pm[i].weight(), pm[i].mean(), pm[i].minimum()))
                if total != len(mod.entries):
                    return f"{where}: period monitor {nr}: {total} entries in all periods, {len(mod.entries)} tallied"
                if by == "process" and any(t in mod.bounds(now) for t, _, _ in mod.entries):
                    if not stats_only:
                        left = list(mod.entries)
                        for i, es in enumerate(got):
                            for e in es:
                                e = (e[0], e[1], e[2])
                                if e not in left:
                                    return f"{where}: period monitor {nr}, period {i}: entry {e} not among {left}"
                                left.remove(e)
                                n = len(mod.periods)
                                if mod.period(e[0]) != i and not (e[0] in mod.bounds(now) and (mod.period(e[0]) - 1) % n == i):
                                    return f"{where}: period monitor {nr}, period {i}: entry {e} belongs to period {mod.period(e[0])}"
                else:
                    for i in range(len(mod.periods)):
                        es = [e for e in mod.entries if mod.period(e[0]) == i]
                        if stats_only:
                            n = len(es)
                            sw = sum(e[2] for e in es)
                            w = (n, sw, sum(e[1] * e[2] for e in es) / sw if sw else math.nan, min((e[1] for e in es), default=math.nan))
                            if not all(same(a, b) for a, b in zip(got[i], w)):
                                return f"{where}: period monitor {nr}, period {i}: entries, weight, mean, minimum {got[i]}, expected {w}"
                        elif got[i] != es:
                            return f"{where}: period monitor {nr}, period {i}: (t, x, weight) {got[i]}, expected {es}"

    attach(periods)
    msg = None
    if by == "main":
        for k, op in enumerate(ops):
            if op[0] == "run":
                env.run(op[1])
            else:
                do(op)
            st.trans()
            msg = compare(f"after operation {k} {op}")
            if msg:
                return msg
        env.run(0.75)
        msg = compare("after a final run")
    else:
        if yieldless:

            class P(sim.Component):
                def process(self):
                    for k, op in enumerate(ops):
                        if op[0] == "run":
                            self.hold(op[1])
                        else:
                            do(op)

        else:

            class P(sim.Component):
                def process(self):
                    for k, op in enumerate(ops):
                        if op[0] == "run":
                            yield self.hold(op[1])
                        else:
                            do(op)
                    return
                    yield

        P(env=env)
        env.run(sum(op[1] for op in ops if op[0] == "run"))
        st.trans(len(ops))
        msg = compare("at the end")
        if not msg:
            env.run(0.75)
            msg = compare("after a final run")
    st.state((level, [len(x.entries) for x in models], [x.entries for x in models], env.now()))
    st.outcome((level, stats_only, len(pms), len(models[0].entries)))
    return msg


def cases(th):
    out = []
    n = 4 + (1 if th else 0)
    alph = {
        True: [("t", 0), ("t", 1), ("t", 2), ("run", 1), ("run", 0.5), ("reset",), ("off",), ("on",), ("attach",), ("remove",)],
        False: [("t", 0), ("t", 2), ("w", 1, 3), ("run", 1), ("run", 0.5), ("reset",), ("off",), ("on",), ("attach",), ("remove",)],
    }
    for level in (True, False):
        for stats_only in (False, True):
            for periods in ((1,), (1, 2), (2, 1, 0.5)):
                for yieldless in (True, False):
                    for by in ("main", "process"):
                        depth = n if (yieldless and periods != (1,)) else n - 1
                        if by == "process":
                            depth -= 1
                        if stats_only:
                            depth -= 1
                        for k in range(depth + 1):
                            for ops in itertools.product(alph[level], repeat=k):
                                if sum(o[0] == "attach" for o in ops) > 2 or sum(o[0] == "remove" for o in ops) > 2:
                                    continue
                                if any(a == b and a[0] in ("reset", "off", "on") for a, b in zip(ops, ops[1:])):
                                    continue
                                out.append((level, stats_only, periods, yieldless, by, ops))
    return out


def families(tier):
    return [Family("periods", cases(tier == "thorough"), check, "all histories up to 4 (5) operations, periods (1), (1,2), (2,1,0.5)", setup=setup)]
