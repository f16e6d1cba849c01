"""
C32: animating (here: recording a video without a display) does not change the run, and the frames are made at the right times.

Every history of a completely enumerated set is executed once without animation and then again with it, switched on and off at every
control point, with several frame intervals.  Everything the processes see, the final state and everything the monitors recorded have
to be the same; every frame has to be made at start + k * speed / fps, and the k-th picture has to show the state of that moment.
"""

import contextlib
import math
import os
import random
import shutil
import tempfile

from mc import driver
from mc.core import Family
from mc.driver import Driver, history_family, MAIN
from mc.ops import enabled_fn, RUN1, END

inf = math.inf
PROPERTY = "C32"
ASSUMPTIONS = [
    "2-3 processes; histories of 2-4 operations followed by a run of 4 time units; 4 (5) frame intervals; the animation is made without a display (blind_animation), "
    "so the tkinter/OpenGL event loops are not exercised",
    "no standby components (a frame is an event, after which standby components get control) and no run() without an end (the last frame postpones it) and no reset_now during the animation",
    "whether the frame of the very moment at which a run or the animation ends is still made is left open",
]
sim = None
Image = None
RUN2 = ("run", None, {"duration": 2})
TOO_MANY = 100


def setup():
    global sim, Image
    driver.setup()
    sim = driver.sim
    from PIL import Image


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="verif_c32_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def monitors(d):
    out = []
    for c in d.comps:
        if c is not None:
            out += [c.status, c.mode]
    qs = []
    for r in d.res:
        out += [r.capacity, r.claimed_quantity, r.available_quantity, r.occupancy]
        qs += [r.requesters(), r.claimers()]
    for s in d.sta:
        out.append(s.value)
        qs.append(s.waiters())
    for s in d.sto:
        qs += [s, s.from_store_requesters(), s.to_store_requesters()]
    for q in qs:
        out += [q.length, q.length_of_stay]
    return out, qs


def same(x):
    """nan is equal to nan"""
    if isinstance(x, float) and x != x:
        return "nan"
    if isinstance(x, (tuple, list)):
        return tuple(same(v) for v in x)
    return x


def statistics(d, full=False):
    out = []
    ms = monitors(d)[0]
    for m in (d.wm, d.lm, d.lm.merge(d.lm)):
        s = m.slice(0, 1), m.slice(0.5), m.slice(0, 1, 3)
        out.append((m.mean(), m.std(), m.percentile(60), tuple(m.tx()[0]), tuple(m.tx()[1]), tuple((x.mean(), tuple(map(tuple, x.tx()))) for x in s)))
    for m in ms if full else [m for m in ms if m.name().startswith("Length") or "laimed" in m.name() or m.name().startswith("Status")]:
        level = "[level]" in repr(m)
        tx = m.tx()
        rec = (m.name(), tuple(tx[0]), tuple(tx[1]))
        if not isinstance(m(), str) if level else True:
            rec += (m.mean(), m.std(), m.maximum())
        if full or level:
            rec += ((m.duration(), m.value_duration(m())) if level else (m.number_of_entries(), m.percentile(50)))
            s = m[0:1]
            rec += (tuple(map(tuple, s.tx())), s.duration() if level else s.number_of_entries())
        out.append(rec)
    return same(out)


class Anim(Driver):
    """how: None (not animated) or (frame interval numerator, fps, control point to start, control point to stop, how to stop, decorated)"""

    def __init__(self, world, ops, yieldless, how, folder):
        random.seed(4711)
        self.how = how
        self.folder = folder
        self.turn = 0
        self.frames = []
        self.period = []
        e = dict(world.get("env", {}), random_seed="")
        if how is not None:
            e["blind_animation"] = True
        super().__init__(dict(world, env=e), ops, yieldless)
        self.wm = sim.Monitor("weighted", env=self.env)
        self.lm = sim.Monitor("levels", level=True, type="float", initial_tally=0, env=self.env)
        if how is not None:
            self.dt = how[0] / how[1]
            self.an_objects()

    def an_objects(self):
        env = self.env

        def colour(t):
            self.frames.append((t, env.now(), env.t()))
            if len(self.frames) > TOO_MANY:
                raise driver.FlushLimit()
            return self.encode(t)

        sim.AnimateRectangle(spec=(0, 0, 6, 6), fillcolor=colour, linewidth=0, env=env)
        if self.how[5]:
            for k, r in enumerate(self.res):
                sim.AnimateQueue(r.requesters(), x=2, y=2, title="", env=env) if False else sim.AnimateQueue(r.requesters(), x=2, y=2, title="")
                sim.AnimateMonitor(r.claimed_quantity, x=1, y=1, width=4, height=4, title="")
                r.requesters().length_of_stay.animate(x=1, y=1, width=3, height=3, title="")
            for c in self.comps:
                sim.AnimateCircle(radius=lambda c, t: 1 + len(c.status()), x=lambda c, t: c.remaining_duration() if c.isscheduled() else 0, visible=lambda c, t: c.isscheduled(), arg=c, parent=c, env=env)

    def encode(self, t):
        n = round(t * 16)
        return (n % 256, n // 256, 77, 255)

    def control(self):
        if self.how is None:
            return
        num, fps, start, stop, way, _ = self.how
        if self.turn == start:
            self.period.append(self.env.now())
            self.env.animation_parameters(animate=True, width=6, height=6, x0=0, x1=6, speed=num, fps=fps, video=os.path.join(self.folder, "f*.png"))
        if self.turn == stop:
            self.stop(way)

    def stop(self, way):
        self.period.append(self.env.now())
        if way == "close":
            self.env.video_close()
        else:
            self.env.animate(False)

    def next(self, who, proc):
        self.control()
        self.turn += 1
        self.wm.tally(self.turn, weight=self.turn)
        self.lm.tally(self.turn % 3)
        self.log.append((who, proc, self.env.now(), statistics(self)))
        if self.pos < len(self.ops):
            op = self.ops[self.pos]
            self.pos += 1
            return op
        self.flush += 1
        if self.flush > driver.FLUSH_LIMIT:
            raise driver.FlushLimit()
        return None

    def run(self):
        try:
            while True:
                op = self.next(MAIN, "main")
                if op is None:
                    break
                self.do(op)
            self.env.run(duration=4)
            self.log.append((MAIN, "main", self.env.now()))
        except driver.FlushLimit:
            self.log.append(("flush limit",))
        except Exception as e:
            self.log.append(("exc", type(e).__name__, str(e)))
        return self.log

    def final(self):
        s = super().snapshot()
        qs = monitors(self)[1]
        st = statistics(self, full=True)
        return s, st, tuple(tuple((c.name(), c.enter_time(q)) for c in q) for q in qs), random.getstate()

    def check_frames(self):
        """None or a message"""
        if not self.period:
            return None
        start, end = self.period[0], self.env.now()
        stopped = len(self.period) > 1
        if stopped:
            end = self.period[1]
        elif self.log[-1][0] == MAIN:
            self.env.video_close()
        want = []
        k = 0
        while start + k * self.dt <= end:
            want.append(start + k * self.dt)
            k += 1
        got = []
        for t, now, tt in self.frames:
            if not (t == now == tt):
                return f"a frame is drawn for time {t} (t() is {tt}) at time {now}"
            if not got or got[-1] != t:
                got.append(t)
        if got != want and not (want and want[-1] == end and got == want[:-1]):
            return f"frames at {got}, should be {want} (the last one may be missing if at {end})"
        names = sorted(os.listdir(self.folder))
        if names != [f"f{i:06d}.png" for i in range(len(got))]:
            return f"{len(got)} frames at {got}, but the files are {names}"
        for t, name in zip(got, names):
            with Image.open(os.path.join(self.folder, name)) as im:
                p = im.convert("RGBA").getpixel((3, 3)) if not self.how[5] else None
            if p is not None and p != self.encode(t):
                return f"picture {name} of time {t} shows {p}, should be {self.encode(t)}"


def execute(world, ops, mode, how):
    with scratch() as folder:
        d = Anim(world, ops, mode, how, folder)
        try:
            log = d.run()
            fin = d.final()
            msg = d.check_frames() if how is not None else None
        finally:
            d.close()
        return log, fin, msg, d.turn


def hows(n, decorated, intervals):
    out = []
    for num, fps in intervals:
        out.append((num, fps, 0, None, "", decorated))
    num, fps = intervals[0]
    for k in range(1, n):
        out.append((num, fps, k, None, "", decorated))
    for k in range(0, n):
        out.append((num, fps, 0, k, "close" if k % 2 else "off", decorated))
    return out


def check(world, ops, st, mode, decorated, intervals, every):
    ref = execute(world, ops, mode, None)
    if st is not None:
        st.state(ref[:2])
        st.outcome(f"{len(ref[0])} control points" + (f" {ref[0][-1][1]}" if ref[0][-1][0] == "exc" else ""))
    for how in hows(ref[3] if every else 1, decorated, intervals):
        got = execute(world, ops, mode, how)
        if st is not None:
            st.trans(len(got[0]))
        for what, a, b in zip(("what the processes see", "final state"), ref, got):
            if a != b:
                for x, y in zip(a, b):
                    if x != y:
                        a, b = x, y
                        break
                return f"{what} with animation {how}:\n  {b}\nwithout animation:\n  {a}"
        if got[2]:
            return f"animation {how}: {got[2]}"


def family(name, world, enabled, depth, bounds, prefix=(), mode=True, decorated=False, intervals=((1, 2),), every=True):
    f = history_family(name, world, enabled, depth, bounds, prefix=prefix)
    f.setup = setup
    f.check = lambda ops, st: check(world, ops, st, mode, decorated, intervals, every)
    return f


# ---------------------------------------------------------------------------------------------------------------- frame times
def speed_cases():
    for num, fps in ((1, 1), (2, 1), (1, 4), (3, 8), (0.5, 2)):
        for stop in (0.25, 1, 3.5, 4):
            for kind in ("f*.png", "f.gif", "f.png", "f.webp", "f*.jpg"):
                for start in (0, 1.25):
                    for more in (0, 1.5):
                        yield (num, fps, stop, kind, start, more)


def check_speed(case, st):
    num, fps, stop, kind, start, more = case
    env = driver._Env(trace=False, blind_animation=True)
    if start:
        env.run(start)
    dt = num / fps
    seen = []

    def colour(t):
        if not seen or seen[-1] != t:
            seen.append(t)
        n = len(seen)
        return (n * 40 % 256, n * 90 % 256, n * 7 % 256)

    sim.AnimateRectangle(spec=(0, 0, 8, 8), fillcolor=colour, linewidth=0, env=env)
    ticks = []

    class Ticker(sim.Component):
        def process(self):
            while True:
                ticks.append(env.now())
                self.hold(1)

    Ticker(env=env)
    with scratch() as folder:
        env.animation_parameters(animate=True, width=8, height=8, x0=0, x1=8, speed=num, fps=fps)
        env.video(os.path.join(folder, kind))
        env.run(stop)
        if more:
            env.run(more)
        env.video_close()
        n_before = len(seen)
        end = env.now()
        env.run(2)
        if len(seen) != n_before:
            return f"frames at {seen[n_before:]} after the video was closed"
        want = [start + k * dt for k in range(200) if start + k * dt <= end]
        if seen != want and not (want[-1] == end and seen == want[:-1]):
            return f"frames at {seen}, should be {want}"
        if ticks != [start + k for k in range(len(ticks))] or not end + 1 <= ticks[-1] <= end + 2:
            return f"the ticker ran at {ticks}"
        files = sorted(os.listdir(folder))
        if "*" in kind:
            if len(files) != len(seen):
                return f"{len(files)} files, {len(seen)} frames"
        else:
            if files != [kind]:
                return f"files {files}"
            if kind != "f.png":
                with Image.open(os.path.join(folder, kind)) as im:
                    if im.size != (8, 8):
                        return f"size {im.size}"
                    if len(seen) > 0 and getattr(im, "n_frames", 1) > len(seen):
                        return f"{im.n_frames} frames in the file, {len(seen)} made"
                    if kind == "f.webp" and getattr(im, "n_frames", 1) != len(seen):
                        return f"{im.n_frames} frames in the file, {len(seen)} made"
    if st is not None:
        st.trans(len(seen))
        st.state(tuple(seen))
        st.outcome(len(seen))


def start(n):
    return tuple(("activate", i, {}) for i in range(n)) + (RUN1,)


def families(tier):
    th = tier == "thorough"
    x = 1 if th else 0
    fams = [Family("speed", list(speed_cases()), check_speed, "5 speeds and frame rates, 4 lengths of the run, in one or two runs, 5 kinds of video, started at once or later", setup=setup)]
    R = {"args": ((0,),)}
    world = dict(ncomp=2, resources=(dict(capacity=1),), states=(dict(),), stores=(dict(capacity=1),), nitems=1)
    per = [
        ("activate", {}),
        ("activate", {"at": 2, "process": "alt"}),
        ("hold", {"duration": 1}),
        ("hold", {"duration": 0.75}),
        ("passivate", {"mode": 1}),
        ("cancel", {}),
        ("interrupt", {}),
        ("resume", {}),
        ("request", R),
        ("request", dict(R, fail_delay=1)),
        ("wait", dict(R, fail_delay=1)),
        ("from_store", {"stores": (0,), "fail_delay": 1}),
        ("release", {}),
    ]
    from mc.checks.c24 import items_free

    guard = lambda m, op: items_free(m, op)
    common = (("set", None, {"s": 0}), ("item_enter", None, {"item": 0, "s": 0}))
    en = enabled_fn(per, common, (RUN1, RUN2), (END,), 2, guard)
    iv = ((1, 2), (3, 8), (7, 1)) + (((1, 16),) if th else ())
    fams.append(family("kernel", world, en, 3, "2 processes, all operations on either, 3 operations; animation switched on and off at every control point", intervals=iv))
    fams.append(family("kernel_yield", world, en, 2, "as kernel, generator processes", mode=False, intervals=iv))
    own = lambda m, op: op[1] is None or op[1] == m.current or op[0] in ("cancel", "activate")
    per = [
        ("request", {"args": ((0, 1, 0),)}),
        ("request", {"args": ((0, 2, -2), (1,))}),
        ("request", {"args": ((1, 1), (0, 1, -1)), "oneof": True, "fail_delay": 1}),
        ("release", {}),
        ("hold", {"duration": 1}),
        ("cancel", {}),
    ]
    wr = dict(ncomp=2, resources=(dict(capacity=2, preemptive=True), dict()))
    en = enabled_fn(per, (("set_capacity", None, {"r": 0, "cap": 1}),), (RUN1,), (END,), 2, own)
    fams.append(family("resources", wr, en, 3 + x, "2 processes, a preemptive and a plain resource, 3 (4) operations", prefix=start(2), every=False))
    fams.append(family("decorated", wr, en, 2 + x, "as resources, with queues, monitors and components shown", prefix=start(2), decorated=True, intervals=((1, 1),), every=False))
    return fams
