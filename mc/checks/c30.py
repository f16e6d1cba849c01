"""
C30: interpolation helpers and trajectories, against exact models: piecewise linear functions in rational arithmetic, and the fastest
movement under a speed limit and acceleration and deceleration limits.
"""

import itertools
import math
from fractions import Fraction as F

from mc import core, driver
from mc.core import Family

inf = math.inf
PROPERTY = "C30"
ASSUMPTIONS = [
    "floating point: agreement to 9 digits; at a vertex (or where two merged trajectories meet) the angle may be that of either side",
    "speeds v0 and v1 not above vmax, except that an infeasible combination has to be refused with ValueError",
    "grids: polygons of 1-3 segments, circles of 9 angle pairs, merges of up to 3 trajectories in all groupings",
]
sim = None
EPS = 1e-9


def setup():
    global sim
    driver.setup()
    sim = driver.sim


def close(a, b):
    return abs(a - b) <= EPS * max(1, abs(a), abs(b))


def vclose(a, b):
    if isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and len(a) == len(b) and all(vclose(x, y) for x, y in zip(a, b))
    return close(float(a), float(b))


# ------------------------------------------------------------------------------------------------------------------ helpers


def line(x, xs, ys):
    """piecewise linear function, constant outside, in exact arithmetic"""
    if x <= xs[0]:
        return ys[0]
    for (x0, y0), (x1, y1) in zip(zip(xs, ys), list(zip(xs, ys))[1:]):
        if x <= x1:
            p = F(x - x0) / F(x1 - x0)
            if isinstance(y0, (tuple, list)):
                return tuple(float(a + (b - a) * p) for a, b in zip(y0, y1))
            return float(y0 + (y1 - y0) * p)
    return ys[-1]


def interpolate_check(case, st):
    t, t0, t1, v0, v1 = case
    if t0 == t1:
        want = (v0, v1)  # either
    elif max(t0, t1) == inf:
        want = (v0 if t1 == inf else v1,)
    else:
        a, b = ((t0, v0), (t1, v1)) if t0 < t1 else ((t1, v1), (t0, v0))
        want = (line(t, (a[0], b[0]), (a[1], b[1])),)
    got = sim.interpolate(t, t0, t1, v0, v1)
    if st is not None:
        st.trans()
        st.state((t, t0, t1))
        st.outcome(type(got).__name__)
    if not any(vclose(got, w) for w in want):
        return f"interpolate{case} = {got}, expected {want}"


def interp_check(case, st):
    xp, fp, kind = case
    xs = sorted({a + d for a in xp for d in (-1, -0.5, 0, 0.25, 0.5, 1)})
    conv = {"scalar": lambda y: y, "tuple": lambda y: (y, -2 * y + 1), "list": lambda y: [y, 3, y * y]}[kind]
    fv = [conv(y) for y in fp]
    for x in xs:
        for left, right in ((None, None), (conv(77), conv(88))):
            if left is not None and x < xp[0]:
                want = left
            elif right is not None and x > xp[-1]:
                want = right
            else:
                want = line(x, xp, fv)
            got = sim.interp(x, xp, fv) if left is None else sim.interp(x, xp, fv, left=left, right=right)
            if st is not None:
                st.trans()
                st.outcome(kind)
            if not vclose(got, want) or type(got) is not type(fv[0]) and kind != "scalar":
                return f"interp({x}, {xp}, {fv}, left={left}, right={right}) = {got}, expected {want}"
    if st is not None:
        st.state(case)


def sorted_check(case, st):
    a, v = case
    if st is not None:
        st.trans(4)
        st.state(case)
        st.outcome(len(a))
    mod = __import__("sys").modules[sim.searchsorted.__module__]
    orig = getattr(mod, "has_numpy", None)
    for numpyless in (False, True):
        if numpyless:
            if orig is None:
                continue
            mod.has_numpy = lambda: False
        try:
            left = sim.searchsorted(list(a), v)
            left1 = sim.searchsorted(list(a), v, side="left")
            right = sim.searchsorted(list(a), v, "right")
        finally:
            if numpyless:
                mod.has_numpy = orig
        if left != sum(x < v for x in a) or left1 != left or right != sum(x <= v for x in a):
            return f"searchsorted({a}, {v}): left {left} {left1}, right {right} ({'without' if numpyless else 'with'} numpy)"


def space_check(case, st):
    start, stop, step, num = case
    if st is not None:
        st.trans(4)
        st.state(case)
        st.outcome(num)
    n = max(0, math.ceil(F(stop - start) / F(step)))
    want = [float(F(start) + k * F(step)) for k in range(n)]
    mod = __import__("sys").modules[sim.arange.__module__]
    orig = getattr(mod, "has_numpy", None)
    for numpyless in (False, True):
        if numpyless:
            if orig is None:
                continue
            mod.has_numpy = lambda: False
        try:
            got = [float(x) for x in sim.arange(start, stop, step)]
            got1 = [float(x) for x in sim.arange(start, stop)] if step == 1 else got
        finally:
            if numpyless:
                mod.has_numpy = orig
        if got != want or got1 != want:
            return f"arange({start}, {stop}, {step}) = {got} ({'without' if numpyless else 'with'} numpy), expected {want}"
    for endpoint in (True, False):
        got = sim.linspace(start, stop, num, endpoint)
        if num == 1:
            want = [float(start)]
        else:
            want = [float(F(start) + F(stop - start) * k / (num - 1 if endpoint else num)) for k in range(num)]
        if not vclose(got, want):
            return f"linspace({start}, {stop}, {num}, endpoint={endpoint}) = {got}, expected {want}"


# -------------------------------------------------------------------------------------------------------------- trajectories


class Infeasible(Exception):
    pass


class Move:
    """fastest movement over length s: speed v0 at the start, v1 at the end, at most vmax, acceleration acc, deceleration dec"""

    def __init__(self, s, vmax=None, v0=None, v1=None, acc=None, dec=None):
        vmax = 1 if vmax is None else vmax
        self.v0 = v0 = vmax if v0 is None else v0
        self.v1 = v1 = vmax if v1 is None else v1
        acc = inf if acc is None else acc
        dec = inf if dec is None else dec
        self.s = s
        if acc == inf:
            v0 = vmax
        if dec == inf:
            v1 = vmax
        # highest speed at the start of a final deceleration / the end of an initial acceleration
        if (dec < inf and v1 > vmax) or (acc < inf and v0 > vmax):
            raise Infeasible
        peak2 = float(vmax) ** 2
        if acc < inf and dec < inf:
            peak2 = min(peak2, (2 * acc * dec * s + dec * v0**2 + acc * v1**2) / (acc + dec))
        elif acc < inf:
            peak2 = min(peak2, v0**2 + 2 * acc * s)
        elif dec < inf:
            peak2 = min(peak2, v1**2 + 2 * dec * s)
        if acc < inf and peak2 < v0**2 - EPS or dec < inf and peak2 < v1**2 - EPS:
            raise Infeasible
        # boundary: exactly feasible up to rounding
        self.delicate = (acc < inf and abs(peak2 - v0**2) < 1e-7 and v0 < vmax) or (dec < inf and abs(peak2 - v1**2) < 1e-7 and v1 < vmax)
        p = math.sqrt(max(peak2, 0))
        self.phases = []  # (duration, start speed, acceleration)
        sa = sd = 0
        if acc < inf:
            ta = max(0, p - v0) / acc
            self.phases.append((ta, v0, acc))
            sa = v0 * ta + acc * ta * ta / 2
        if dec < inf:
            td = max(0, p - v1) / dec
            sd = v1 * td + dec * td * td / 2
        self.phases.append(((max(0, s - sa - sd) / p) if s - sa - sd > 1e-12 else 0, p, 0))
        if dec < inf:
            self.phases.append((td, p, -dec))
        self.duration = sum(t for t, _, _ in self.phases)

    def at(self, t):
        s = 0
        for d, v, a in self.phases:
            u = min(max(t, 0), d)
            s += v * u + a * u * u / 2
            t -= d
        return min(s, self.s) if t >= 0 else s


class PolyModel:
    def __init__(self, points, orientation, **kw):
        self.points = points
        self.orientation = orientation
        self.cum = [0.0]
        for (x0, y0), (x1, y1) in zip(points, points[1:]):
            self.cum.append(self.cum[-1] + math.hypot(x1 - x0, y1 - y0))
        self.length = self.cum[-1]
        self.move = Move(self.length, **kw)
        self.duration = self.move.duration

    def direction(self, i):
        (x0, y0), (x1, y1) = self.points[i], self.points[i + 1]
        a = math.degrees(math.atan2(y1 - y0, x1 - x0))
        if self.orientation is None:
            return a
        return self.orientation(a) if callable(self.orientation) else self.orientation

    def at(self, t):
        """x, y, length, set of possible angles at t after the start"""
        s = self.move.at(t)
        n = len(self.points) - 1
        near = [i for i in range(n) if self.cum[i] - 1e-6 <= s <= self.cum[i + 1] + 1e-6]
        i = next((i for i in range(n) if self.cum[i] <= s <= self.cum[i + 1] and self.cum[i + 1] > self.cum[i]), None)
        if i is None:
            x, y = self.points[-1] if s > 0 else self.points[0]
        else:
            p = (s - self.cum[i]) / (self.cum[i + 1] - self.cum[i])
            (x0, y0), (x1, y1) = self.points[i], self.points[i + 1]
            x, y = x0 + (x1 - x0) * p, y0 + (y1 - y0) * p
        return x, y, s, {self.direction(k) for k in near}


class CircleModel:
    def __init__(self, radius, xc, yc, a0, a1, orientation, **kw):
        self.c = (xc, yc, radius)
        self.a0, self.a1 = a0, a1
        self.orientation = orientation
        self.length = abs(a1 - a0) * math.pi / 180 * radius
        self.move = Move(self.length, **kw)
        self.duration = self.move.duration

    def at(self, t):
        s = self.move.at(t)
        a = self.a0 if self.length == 0 else self.a0 + (self.a1 - self.a0) * s / self.length
        xc, yc, r = self.c
        angles = [a + 90] if self.a1 > self.a0 else [a - 90] if self.a1 < self.a0 else [a + 90, a - 90]
        if self.orientation is not None:
            angles = [self.orientation(b) if callable(self.orientation) else self.orientation for b in angles]
        return xc + r * math.cos(math.radians(a)), yc + r * math.sin(math.radians(a)), s, set(angles)


class StandModel:
    def __init__(self, xy, duration, orientation):
        self.xy = xy
        self.duration = duration
        self.length = 0
        self.angle = orientation(0) if callable(orientation) else orientation

    def at(self, t):
        return self.xy[0], self.xy[1], 0, {self.angle}


class MergeModel:
    """the parts one after the other"""

    def __init__(self, parts):
        self.parts = parts
        self.duration = sum(p.duration for p in parts)
        self.length = sum(p.length for p in parts)

    def at_all(self, t):
        """all descriptions that are allowed at t (both sides of a join)"""
        out = []
        start, s = 0, 0
        n = len(self.parts)
        for k, p in enumerate(self.parts):
            end = start + p.duration
            if (k == 0 or t >= start - 1e-7) and (k == n - 1 or t <= end + 1e-7):
                x, y, z, a = p.at(t - start)
                out.append((x, y, s + z, a))
            start, s = end, s + p.length
        return out


def agree(tr, model, t0, t, text):
    got = (tr.x(t), tr.y(t), tr.length(t), tr.angle(t))
    options = model.at_all(t - t0) if isinstance(model, MergeModel) else [model.at(t - t0)]
    for x, y, s, angles in options:
        # near a square root singularity positions agree only to ~1e-8
        if all(abs(a - b) <= 1e-6 for a, b in zip(got, (x, y, s))) and any(abs(got[3] - a) <= 1e-4 for a in angles):
            return None
    return f"{text}: at t={t} (t0={t0}, duration={model.duration}) x, y, length, angle = {got}, expected {options}"


def agree_all(tr, model, t0, text, st):
    T = model.duration
    if not (close(tr.t0(), t0) and close(tr.duration(), T) and close(tr.t1(), t0 + T)):
        return f"{text}: t0 {tr.t0()} duration {tr.duration()} t1 {tr.t1()}, expected {t0} {T} {t0 + T}"
    if not close(tr.length(), model.length):
        return f"{text}: length() {tr.length()}, expected {model.length}"
    times = [t0 - 1, t0] + [t0 + T * k / 8 for k in range(1, 8)] + [t0 + T, t0 + T + 1.5]
    for t in times + times[::-2]:
        msg = agree(tr, model, t0, t, text)
        if msg:
            return msg
        if st is not None:
            st.trans(4)
    for t, want in ((t0 - 0.001, False), (t0, True), (tr.t1(), True), (tr.t1() + 0.001, False), (t0 + T / 2, True)):
        if bool(tr.in_trajectory(t)) != want:
            return f"{text}: in_trajectory({t}) is {not want} for {tr.t0()}..{tr.t1()}"
    for step in (1, 0.3):
        got = tr.rendered_polygon(time_step=step)
        n = math.ceil((tr.t1() - tr.t0()) / step)
        times = [tr.t0() + k * step for k in range(n)] + [tr.t1()]
        flat = [float(x) for p in got for x in (p if isinstance(p, tuple) else (p,))]
        pts = list(zip(flat[::2], flat[1::2]))
        ok = len(flat) % 2 == 0 and abs(len(pts) - len(times)) <= 1
        for t, (x, y) in zip(times[:-1] if ok else (), pts[:-1]):
            options = model.at_all(t - t0) if isinstance(model, MergeModel) else [model.at(t - t0)]
            ok = ok and any(abs(x - o[0]) + abs(y - o[1]) < 1e-6 for o in options)
        if not ok or not vclose(pts[-1], (tr.x(tr.t1()), tr.y(tr.t1()))):
            return f"{text}: rendered_polygon({step}) {flat}"
    return None


ORIENT = {"none": None, "const": 30, "half": lambda a: a / 2 + 1}


def build(spec, **extra):
    """trajectory and model of a literal spec"""
    kind = spec[0]
    if kind == "S":
        _, xy, d, o = spec
        o = 0 if o == "none" else ORIENT[o]
        return lambda: sim.TrajectoryStandstill(xy=xy, duration=d, orientation=o, **extra), lambda: StandModel(xy, d, o)
    if kind == "P":
        _, pts, o, kw = spec
        o = ORIENT[o]
        kw = dict(kw)
        flat = [c for p in pts for c in p]
        return lambda: sim.TrajectoryPolygon(flat, orientation=o, **kw, **extra), lambda: PolyModel(pts, o, **kw)
    _, (r, xc, yc, a0, a1), o, kw = spec
    o = ORIENT[o]
    kw = dict(kw)
    return lambda: sim.TrajectoryCircle(radius=r, x_center=xc, y_center=yc, angle0=a0, angle1=a1, orientation=o, **kw, **extra), lambda: CircleModel(r, xc, yc, a0, a1, o, **kw)


def single_check(case, st):
    spec, when = case
    extra = {}
    t0 = when
    env = driver._Env(trace=False)
    if when == "now":
        env.run(till=3)
        t0 = 3
    elif when == "env":
        other = driver._Env(trace=False, isdefault_env=False)
        other.run(till=7)
        extra = dict(env=other)
        t0 = 7
    else:
        extra = dict(t0=when)
        env.run(till=2)
    make, model = build(spec, **extra)
    if st is not None:
        st.state(spec)
    try:
        m = model()
    except Infeasible:
        try:
            make()
        except ValueError:
            if st is not None:
                st.trans()
                st.outcome("infeasible")
            return None
        return f"{spec}: accepted although it is not feasible"
    if getattr(getattr(m, "move", None), "delicate", False):
        try:
            make()
        except ValueError:
            if m.length > 0:  # exactly feasible, but for the last digit
                if st is not None:
                    st.outcome("on the edge of feasibility")
                return None
            raise
    if st is not None:
        st.outcome(spec[0])
    return agree_all(make(), m, t0, f"{spec}", st)


def noenv_check(case, st):
    """trajectories can be made without any environment"""
    spec, t0 = case
    extra = {} if t0 is None else dict(t0=t0)
    mod = __import__("sys").modules[sim.Environment.__module__]
    keep = mod.g.default_env
    mod.g.default_env = None
    try:
        make, model = build(spec, **extra)
        tr = make()
    finally:
        mod.g.default_env = keep
    if st is not None:
        st.state(case)
        st.outcome(spec[0])
    return agree_all(tr, model(), t0 or 0, f"{spec} without environment", st)


POOL = {
    "a": ("P", ((0, 0), (3, 4)), "none", ()),
    "b": ("P", ((3, 4), (3, 0), (5, 0)), "half", (("vmax", 2), ("v0", 1), ("v1", 1), ("acc", 1), ("dec", 2))),
    "c": ("C", (2, 1, -1, 30, 120), "none", (("vmax", 2),)),
    "s": ("S", (1, 2), 2, "const"),
    "z": ("S", (9, 9), 0, "none"),
    "d": ("C", (1, 0, 0, 90, -90), "half", (("v0", 0), ("acc", 1))),
}
T0S = {"a": 1, "b": 10, "c": 100, "s": 4, "z": 50, "d": 0}


def merged_check(case, st):
    names, how = case
    driver._Env(trace=False)
    trs, models = [], []
    for n in names:
        make, model = build(POOL[n], t0=T0S[n])
        trs.append(make())
        models.append(model())
    if how == "list":
        tr = sim.TrajectoryMerged(trs)
    elif how == "tuple":
        tr = sim.TrajectoryMerged(tuple(trs))
    elif how == "sum":
        tr = sum(trs)
    elif how == "left":
        tr = trs[0]
        for x in trs[1:]:
            tr = tr + x
    elif how == "right":
        tr = trs[-1]
        for x in trs[-2::-1]:
            tr = x + tr
    elif how == "twice":
        # the same (merged) trajectory used in two merges
        m = sim.TrajectoryMerged(trs)
        tr = sim.TrajectoryMerged([m, m])
        models = models + models
    if st is not None:
        st.state(case)
        st.outcome(how)
    if tr in trs:
        return None if len(names) == 1 else "one of the parts returned"
    return agree_all(tr, MergeModel(models), T0S[names[0]], f"{how} of {names}", st)


def spline_check(case, st):
    """splines pass through the points they have to"""
    pts, kind, res = case
    driver._Env(trace=False)
    flat = [c for p in pts for c in p]
    tr = sim.TrajectoryPolygon(flat, spline=kind, res=res, t0=0)
    if st is not None:
        st.state(case)
        st.trans(len(pts))
        st.outcome(kind[0].lower())
    ends = [(tr.x(0), tr.y(0)), (tr.x(tr.t1()), tr.y(tr.t1()))]
    if not vclose(ends, [pts[0], pts[-1]]):
        return f"spline {kind} of {pts}: starts and ends in {ends}"
    base = kind[0].lower()
    path = []
    if base == "b":
        n = len(pts) - 1
        for k in range(res):
            u = k / (res - 1)
            path.append(tuple(sum(math.comb(n, i) * (1 - u) ** (n - i) * u**i * pts[i][d] for i in range(n + 1)) for d in (0, 1)))
    else:
        ext = [(0, 2 * pts[0][1] - pts[1][1])] + list(pts) + [(0, 2 * pts[-1][1] - pts[-2][1])]
        for i in range(len(pts) - 1):
            p0, p1, p2, p3 = (ext[i + k][1] for k in range(4))
            for k in range(res):
                u = k / res
                y = 0.5 * (2 * p1 + (p2 - p0) * u + (2 * p0 - 5 * p1 + 4 * p2 - p3) * u**2 + (3 * p1 - p0 - 3 * p2 + p3) * u**3)
                path.append((pts[i][0] + (pts[i + 1][0] - pts[i][0]) * u, y))
        path.append(pts[-1])
    m = PolyModel(path, None)
    if not close(tr.length(), m.length) or not close(tr.duration(), m.duration):
        return f"spline {kind} of {pts}: length {tr.length()} duration {tr.duration()}, expected {m.length}"
    for s in m.cum:
        x, y, z, _ = m.at(s)
        if abs(tr.x(s) - x) + abs(tr.y(s) - y) > 1e-6:
            return f"spline {kind} of {pts}, res {res}: at length {s} in {(tr.x(s), tr.y(s))}, expected {(x, y)}"


def families(tier):
    full = tier == "thorough"
    grid = (-1, 0, 0.5, 1, 3) if not full else (-2, -1, 0, 0.25, 0.5, 1, 3, 7)
    vals = [(0, 1), (2, 2), (5, -3), ((0, 1), (4, 1)), ([0, 10, 2], [1, 0, 2]), ((1,), (3,))]
    ip = [(t, a, b, v0, v1) for t in grid + (0.75, 2) for a in grid + (inf,) for b in grid + (inf,) if not (a == b == inf) for v0, v1 in vals]
    xs = (0, 1, 1.5, 4, 6)
    ys = (0, 1, -2) if not full else (0, 1, -2, 5)
    interp = [(xp, fp, kind) for n in (1, 2, 3, 4) for xp in itertools.combinations(xs, n) for fp in itertools.product(ys, repeat=n) for kind in ("scalar", "tuple", "list")]
    ss = [(a, v) for n in range(6 if full else 5) for a in itertools.combinations_with_replacement((0, 1, 2.5, 4), n) for v in (-1, 0, 0.5, 1, 2, 2.5, 3, 4, 5)]
    sp = [(a, b, s, n) for a in (-1, 0, 0.5, 3) for b in (-2, 0, 0.5, 1, 4) for s in (1, 0.5, 0.25, 3, -1, -0.5) for n in (0, 1, 2, 3, 5, 50)]
    V = (None, 0, 1, 2)
    moves = []
    for vmax in (None, 1, 2, 3):
        for v0 in (None, 0, 1, 2, 2.5):
            for v1 in (None, 0, 1, 2, 2.5):
                for acc in (None, 0.5, 2):
                    for dec in (None, 0.5, 1, 3):
                        lim = vmax or 1
                        if v0 is not None and v0 > lim and acc is None or v1 is not None and v1 > lim and dec is None:
                            continue
                        moves.append(tuple((k, v) for k, v in (("vmax", vmax), ("v0", v0), ("v1", v1), ("acc", acc), ("dec", dec)) if v is not None))
    shapes = [((0, 0), (3, 4)), ((1, 1), (1, 1)), ((0, 0), (0, 2), (4, 2)), ((0, 0), (1, 0), (1, 0), (-3, 0)), ((2, 2), (0.5, 2), (0.5, -6), (0, 0)), ((0, 0), (0, 0.25))]
    single = [(("P", s, "none", m), w) for s in shapes for m in moves for w in (2,)]
    few = moves[:: 17]
    single += [(("P", s, o, m), w) for s in shapes for m in few for o in ORIENT for w in ("now", "env", 0, -1.5)]
    arcs = [(1, 0, 0, 0, 360), (2, 1, -1, 30, 120), (1, 0, 0, 90, -90), (0.5, 3, 3, 0, 720), (1, 0, 0, 45, 45), (3, 0, 1, -10, -20)]
    single += [(("C", a, "none", m), 1) for a in arcs for m in moves]
    single += [(("C", a, o, m), w) for a in arcs for m in few for o in ORIENT for w in ("now", "env", 0, -1.5)]
    single += [(("S", (x, y), d, o), w) for x, y in ((0, 0), (1, -2)) for d in (0, 1, 2.5) for o in ORIENT for w in ("now", "env", 0, -1.5)]
    noenv = [(POOL[n], t) for n in POOL for t in (None, 0, 5, -2)]
    hows = ("list", "tuple", "sum", "left", "right", "twice")
    merged = [("".join(n), how) for k in range(1, 5 if full else 4) for n in itertools.product(POOL, repeat=k) for how in hows if k > 1 or how in ("list", "tuple", "sum", "twice")]
    pts = [((0, 0), (1, 2), (3, 1)), ((0, 0), (2, 2)), ((0, 1), (1, 0), (2, 5), (4, 4)), ((0, 0), (1, 1), (2, 2), (5, 0), (6, 6))]
    splines = [(p, k, r) for p in pts for k in ("bezier", "B", "catmull_rom", "c") for r in (2, 5, 50)]
    return [
        Family("interpolate", ip, interpolate_check, "all combinations of t, t0, t1 and values from a grid", setup),
        Family("interp", interp, interp_check, "all functions with up to 4 points, all x around them", setup),
        Family("searchsorted", ss, sorted_check, "all sorted lists up to length 4 (5), with and without numpy", setup),
        Family("spaces", sp, space_check, "arange and linspace over grids, with and without numpy", setup),
        Family("movements", single, single_check, "all combinations of speed limits and accelerations on polygons, circles, standstills", setup),
        Family("noenv", noenv, noenv_check, "trajectories without environment", setup),
        Family("merged", merged, merged_check, "all merges of up to 3 (4) trajectories, all groupings", setup),
        Family("splines", splines, spline_check, "splines against their formulas", setup),
    ]
