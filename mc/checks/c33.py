"""
C33: a frame shows exactly what should be visible at its moment.

Scenes of animation objects (completely enumerated within bounds) are recorded without a display; every definite pixel of every frame
(more than two pixels away from any edge) is compared with an independent painter that only knows the documented meaning of the attributes.
"""

import contextlib
import itertools
import math
import os
import shutil
import tempfile

from mc import driver
from mc.core import Family

inf = math.inf
PROPERTY = "C33"
ASSUMPTIONS = [
    "frames of 40 x 30 pixels, 4 frames (at times 0, 1, 2 and 3), 1-3 objects; changes happen between two frames, at 0.5 and 1.5",
    "pixels closer than 2 pixels to an edge of a visible object are not judged (anti-aliasing and rounding are not specified); texts are only judged on being there",
    "the picture is made without a display (video of a blind animation); tkinter canvas and OpenGL are not exercised",
]
sim = None
Image = None
W, H = 40, 30
FRAMES = 4
MARGIN = 2.0
BG = (255, 255, 255)
RED, GREEN, BLUE = (255, 0, 0), (0, 128, 0), (0, 0, 255)


def setup():
    global sim, Image
    driver.setup()
    sim = driver.sim
    from PIL import Image


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="verif_c33_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Scene:
    """an environment with a process that calls functions at given times"""

    def __init__(self, yieldless=True, **kw):
        self.env = driver._Env(trace=False, blind_animation=True)
        self.agenda = []
        self.kw = dict(dict(width=W, height=H, x0=0, y0=0, x1=W, background_color="white", foreground_color="black"), **kw)
        self.env.animation_parameters(animate=False, **self.kw)

    def at(self, t, f):
        self.agenda.append((t, f))

    def record(self, frames=FRAMES):
        """list of pictures (as RGB pixel access), one per frame"""
        env = self.env
        agenda = sorted(self.agenda, key=lambda a: a[0])

        class Director(sim.Component):
            def process(self):
                for t, f in agenda:
                    self.hold(till=t)
                    f()

        if agenda:
            Director(env=env)
        pics = []
        with scratch() as folder:
            env.animation_parameters(animate=True, speed=1, fps=1, video=os.path.join(folder, "f*.png"))
            env.run(frames - 0.5)
            env.video_close()
            for name in sorted(os.listdir(folder)):
                with Image.open(os.path.join(folder, name)) as im:
                    pics.append(im.convert("RGB").copy())
        return pics


# ---------------------------------------------------------------------------------------------------------------- the painter
def transform(shape, px, py):
    """screen coordinates to those of the (unrotated, not moved) shape"""
    dx, dy = px - shape["x"], py - shape["y"]
    a = math.radians(shape.get("angle", 0))
    c, s = math.cos(a), math.sin(a)
    ux, uy = dx * c + dy * s, -dx * s + dy * c
    return ux - shape.get("offsetx", 0), uy - shape.get("offsety", 0)


def distance_inside(shape, px, py):
    """how far (px, py) is inside the shape, negative if outside (in pixels)"""
    ux, uy = transform(shape, px, py)
    kind = shape["kind"]
    if kind == "rectangle":
        x0, y0, x1, y1 = shape["spec"]
        return min(ux - min(x0, x1), max(x0, x1) - ux, uy - min(y0, y1), max(y0, y1) - uy)
    if kind == "circle":
        return shape["radius"] - math.hypot(ux, uy)
    if kind == "round":
        x0, y0, x1, y1, r = shape["spec"]
        qx, qy = abs(ux - (x0 + x1) / 2) - (abs(x1 - x0) / 2 - r), abs(uy - (y0 + y1) / 2) - (abs(y1 - y0) / 2 - r)
        return r - math.hypot(max(qx, 0), max(qy, 0)) - min(max(qx, qy), 0)
    if kind == "ellipse":
        r0, r1 = shape["spec"]
        return (1 - math.hypot(ux / r0, uy / r1)) * min(r0, r1)
    if kind == "pie":
        r, a0, a1 = shape["spec"]
        c0, s0, c1, s1 = math.cos(math.radians(a0)), math.sin(math.radians(a0)), math.cos(math.radians(a1)), math.sin(math.radians(a1))
        left, right = c0 * uy - s0 * ux, s1 * ux - c1 * uy  # left of the first radius, right of the second one
        if a1 - a0 >= 360:  # whole, but the two radii may leave a seam
            sector = abs(left) if c0 * ux + s0 * uy > 0 else math.hypot(ux, uy)
        else:
            sector = min(left, right) if a1 - a0 <= 180 else max(left, right)
        return min(r - math.hypot(ux, uy), sector)
    if kind == "ring":
        return shape["linewidth"] / 2 - abs(shape["radius"] - math.hypot(ux, uy))
    if kind == "polygon":
        p = shape["spec"]
        n = len(p) // 2
        pts = [(p[2 * i], p[2 * i + 1]) for i in range(n)]
        area = sum(pts[i][0] * pts[(i + 1) % n][1] - pts[(i + 1) % n][0] * pts[i][1] for i in range(n))
        sign = 1 if area > 0 else -1
        d = inf
        for i in range(n):
            (ax, ay), (bx, by) = pts[i], pts[(i + 1) % n]
            length = math.hypot(bx - ax, by - ay)
            d = min(d, sign * ((bx - ax) * (uy - ay) - (by - ay) * (ux - ax)) / length)
        return d
    if kind == "line":
        ax, ay, bx, by = shape["spec"]
        length = math.hypot(bx - ax, by - ay)
        along = ((ux - ax) * (bx - ax) + (uy - ay) * (by - ay)) / length
        across = abs((ux - ax) * (by - ay) - (uy - ay) * (bx - ax)) / length
        return min(along, length - along, shape["linewidth"] / 2 - across)
    raise RuntimeError(kind)


def judge(pic, shapes, bg=BG, size=(W, H), step=1, margin=MARGIN, tolerance=2):
    """shapes: the visible ones, bottom first.  None or a message; the number of definite pixels of each colour"""
    if pic.size != size:
        return f"the size of the picture is {pic.size}, should be {size}", {}
    count = {}
    w, h = size
    for j in range(0, h, step):
        for i in range(0, w, step):
            px, py = i + 0.5, h - (j + 0.5)
            colour = bg
            unclear = False
            for s in shapes:
                d = distance_inside(s, px, py)
                if d > margin:
                    c = s["colour"]
                    if len(c) == 4 and c[3] != 255:
                        if not unclear:
                            a = c[3] / 255
                            colour = tuple(b + (v - b) * a for b, v in zip(colour, c))
                    else:
                        colour = c[:3]
                        unclear = False
                elif d > -margin:
                    unclear = True
            if unclear:
                continue
            got = pic.getpixel((i, j))
            if any(abs(a - b) > tolerance for a, b in zip(got, colour)):
                return f"pixel ({i}, {j}) (from the top left) is {got}, should be {tuple(map(round, colour))}; shapes: {shapes}", count
            key = tuple(map(round, colour))
            count[key] = count.get(key, 0) + 1
    return None, count


def compare(pics, want, st, **kw):
    """want: per frame the visible shapes, bottom first"""
    if len(pics) != len(want):
        return f"{len(pics)} frames, should be {len(want)}"
    for t, (pic, shapes) in enumerate(zip(pics, want)):
        msg, count = judge(pic, shapes, **kw)
        if msg:
            return f"frame at time {t}: {msg}"
        if st is not None:
            st.trans()
            st.state((tuple(sorted(count.items())), tuple(repr(s) for s in shapes)))
            st.outcome(len(count))


# ---------------------------------------------------------------------------------------------------------------- layers, visible, keep
PATTERN = {"yes": (1, 1, 1, 1), "no": (0, 0, 0, 0), "later": (0, 0, 1, 1), "once": (1, 1, 0, 0), "second": (0, 1, 0, 0)}


def layer_cases():
    for n_layers in itertools.product((0, 1, -1, "up"), repeat=2):
        for vis in itertools.product(("yes", "no", "later", "once"), repeat=2):
            for keep in itertools.product(("yes", "once", "second"), repeat=2):
                if (vis[0] != "yes") + (keep[0] != "yes") + (vis[1] != "yes") + (keep[1] != "yes") > 2:
                    continue
                yield (n_layers, vis, keep)
    for n_layers in itertools.product((0, 1, -1, "up"), repeat=3):
        yield (n_layers, ("yes",) * 3, ("yes",) * 3)


def dyn(pattern):
    if len(set(pattern)) == 1:
        return bool(pattern[0])
    return lambda t: bool(pattern[int(t)])


def check_layers(case, st):
    layers, vis, keep = case
    sc = Scene()
    n = len(layers)
    shapes, lay, show = [], [], []
    for k in range(n):
        colour = ("red", "green", "blue")[k]
        lt = (0, 2, -2, 1) if layers[k] == "up" else (layers[k],) * 4
        sim.AnimateRectangle(
            spec=(0, 0, 16, 12), x=4 + 6 * k, y=4 + 5 * k, fillcolor=colour, linewidth=0, layer=(lambda t, lt=lt: lt[int(t)]) if layers[k] == "up" else layers[k], visible=dyn(PATTERN[vis[k]]), keep=dyn(PATTERN[keep[k]]), env=sc.env
        )
        shapes.append(dict(kind="rectangle", spec=(0, 0, 16, 12), x=4 + 6 * k, y=4 + 5 * k, colour=(RED, GREEN, BLUE)[k]))
        lay.append(lt)
        # an object that is not kept is gone for good
        show.append([PATTERN[vis[k]][t] and all(PATTERN[keep[k]][: t + 1]) for t in range(4)])
    want = []
    for t in range(FRAMES):
        # the higher the layer, the more to the back; in one layer the last one made is in front
        order = sorted((k for k in range(n) if show[k][t]), key=lambda k: (-lay[k][t], k))
        want.append([shapes[k] for k in order])
    return compare(sc.record(), want, st)


# ---------------------------------------------------------------------------------------------------------------- ways to give an attribute
ATTRS = {
    "x": (3, 6, 10, 15),
    "y": (2, 2, 9, 4),
    "angle": (0, 90, 30, 180),
    "offsetx": (0, 5, -3, 8),
    "offsety": (0, 4, 9, -2),
    "fillcolor": ("red", "green", "blue", "red"),
    "spec": ((0, 0, 12, 8), (-2, 1, 14, 9), (0, 0, 12, 8), (6, 5, 18, 12)),
    "visible": (True, False, True, True),
    "layer": (0, 2, -2, 0),
    "keep": (True, True, False, True),
}
FORMS = ("constant", "fn0", "fn1", "fn2_arg", "fn2_self", "method", "subclass", "subclass_attr", "assign", "call", "combined", "default", "shared")
COLOURS = {"red": RED, "green": GREEN, "blue": BLUE}


def form_cases():
    for kind in ("rectangle", "polygon"):
        for a in ATTRS:
            for f in FORMS:
                yield (kind, (a,), f)
        for a, b in itertools.combinations(ATTRS, 2):
            for f in ("fn1", "assign", "subclass"):
                yield (kind, (a, b), f)


def as_spec(kind, r):
    if kind == "rectangle":
        return r
    x0, y0, x1, y1 = r
    return (x0, y0, x1, y0, x1, y1)


def check_forms(case, st):
    kind, attrs, form = case
    sc = Scene()
    env = sc.env
    values = {}
    for a, vs in ATTRS.items():
        if a == "spec":
            vs = tuple(as_spec(kind, v) for v in vs)
        if a not in attrs or form in ("constant", "subclass_attr"):
            vs = (vs[1 if a in attrs and a not in ("visible", "keep") else 0],) * 4
        values[a] = vs
    base = dict(x=3, y=2, spec=as_spec(kind, (0, 0, 12, 8)), fillcolor="red", linewidth=0)
    cls = {"rectangle": sim.AnimateRectangle, "polygon": sim.AnimatePolygon}[kind]

    def scalar(v):
        return v

    kw = dict(base)
    later = []
    members = {}
    if form in ("default", "shared") and len(set(values[attrs[0]])) == 1:
        return None

    class Holder:
        """an arg"""

        def __init__(self):
            self.t0 = 0

        def value(self, a, t):
            return values[a][int(t)]

    holder = Holder()
    for a in attrs:
        vs = values[a]
        if form in ("constant",):
            kw[a] = vs[0]
        elif form == "fn0":
            kw[a] = lambda a=a: values[a][int(env.now())]
        elif form == "fn1":
            kw[a] = lambda t, a=a: values[a][int(t)]
        elif form == "fn2_arg":
            kw["arg"] = holder
            kw[a] = lambda arg, t, a=a: arg.value(a, t)
        elif form == "fn2_self":
            # without arg, the animation object itself is given
            kw[a] = lambda arg, t, a=a: arg.table[a][int(t)]
        elif form == "method":
            h = type("H", (), {"m": lambda self, t, a=a: values[a][int(t)]})()
            kw[a] = h.m
        elif form == "subclass":
            kw.pop(a, None)
            members[a] = lambda self, t, a=a: values[a][int(t)]
        elif form == "subclass_attr":
            kw.pop(a, None)
            members[a] = vs[0]
        elif form in ("default", "shared"):
            kw[a] = lambda t, self=object, a=a: self.table[a][int(t)]
        else:
            kw[a] = vs[0]
            later.append(a)
    if form in ("subclass", "subclass_attr"):
        cls = type("Mine", (cls,), members)
    if form == "shared":
        # another (transparent) object with the same function
        decoy = cls(env=env, **dict(kw, **({} if "fillcolor" in attrs else {"fillcolor": ""})))
        decoy.table = {a: (("",) * 4 if a == "fillcolor" else (vs[0],) * 4) for a, vs in values.items()}
    ao = cls(env=env, **kw)
    ao.table = values
    target = sim.AnimateCombined([ao]) if form == "combined" else ao
    for a in later:
        for t in (1, 2, 3):
            if form == "assign":
                sc.at(t - 0.5, lambda a=a, t=t: setattr(ao, a, values[a][t]))
            elif form == "call":
                sc.at(t - 0.5, lambda a=a, t=t: ao(**{a: values[a][t]}))
            elif form == "combined":
                sc.at(t - 0.5, (lambda a=a, t=t: setattr(target, a, values[a][t])) if t != 2 else (lambda a=a, t=t: target.update(**{a: values[a][t]})))
    # something to be in front of or behind
    other = dict(kind="rectangle", spec=(0, 0, 30, 4), x=5, y=10, colour=(200, 200, 0))
    sim.AnimateRectangle(spec=(0, 0, 30, 4), x=5, y=10, fillcolor=(200, 200, 0), linewidth=0, env=env)
    want = []
    for t in range(FRAMES):
        shapes = [other]
        if values["visible"][t] and all(values["keep"][: t + 1]):
            shape = dict(kind=kind, spec=values["spec"][t], x=values["x"][t], y=values["y"][t], angle=values["angle"][t], offsetx=values["offsetx"][t], offsety=values["offsety"][t], colour=COLOURS[values["fillcolor"][t]])
            shapes = [shape, other] if values["layer"][t] >= 0 else [other, shape]
        want.append(shapes)
    return compare(sc.record(), want, st)


# ---------------------------------------------------------------------------------------------------------------- geometry
def geometry_cases():
    views = ((0, 0, 40), (10, -5, 30), (-20, 10, 60))
    for shape in ("rectangle", "polygon", "line", "circle", "round"):
        for angle in (0, 45, 90, 200):
            for anchor in ("", "sw", "c", "ne", "n", "w", "s", "e", "nw", "se"):
                for view in views:
                    for screen in (False, True):
                        for off in ((0, 0), (4, 3)):
                            if shape in ("line", "polygon") and anchor not in ("", "c"):
                                continue
                            yield (shape, angle, anchor, view, screen, off)


def check_geometry(case, st):
    shape, angle, anchor, (x0, y0, x1), screen, (ox, oy) = case
    sc = Scene(x0=x0, y0=y0, x1=x1)
    scale = 1 if screen else W / (x1 - x0)
    y1 = y0 + H * (x1 - x0) / W
    # the reference point on the screen
    sx, sy = 17, 11
    ax = {"w": 0, "e": W}.get(anchor[-1:] if anchor not in ("n", "s") else "", W / 2) if anchor else 0
    ay = {"n": H, "s": 0}.get(anchor[:1], H / 2) if anchor else 0
    if anchor in ("c",):
        ax, ay = W / 2, H / 2
    if screen:
        x, y = sx - ax, sy - ay
    else:
        ux, uy = x0 + sx / scale, y0 + sy / scale
        if anchor:
            x, y = ux - (x0 + ax / scale), uy - (y0 + ay / scale)
        else:
            x, y = ux, uy
    f = 1 / scale
    kw = dict(x=x, y=y, angle=angle, xy_anchor=anchor, offsetx=ox * f, offsety=oy * f, screen_coordinates=screen, env=sc.env)
    model = dict(x=sx, y=sy, angle=angle, offsetx=ox, offsety=oy, colour=RED)
    sc_ = lambda p: tuple(v * f for v in p)
    margin = MARGIN
    if shape in ("rectangle", "round"):
        spec = (-6, -4, 12, 9)
        sim.AnimateRectangle(spec=sc_(spec) + ((2 * f,) if shape == "round" else ()), fillcolor="red", linewidth=0, **kw)
        model.update(kind="rectangle", spec=spec)
        if shape == "round":
            margin = 3
    elif shape == "polygon":
        spec = (-8, -4, 12, -2, 5, 13)
        sim.AnimatePolygon(spec=sc_(spec), fillcolor="red", linewidth=0, **kw)
        model.update(kind="polygon", spec=spec)
    elif shape == "line":
        spec = (-10, -4, 10, 6)
        sim.AnimateLine(spec=sc_(spec), linecolor="red", linewidth=7 * f, **kw)
        model.update(kind="line", spec=spec, linewidth=7)
        margin = 2.5
    else:
        # angle does not matter; the offset turns with it
        sim.AnimateCircle(radius=8 * f, fillcolor="red", linewidth=0, **kw)
        model.update(kind="circle", radius=8)
    return compare(sc.record(), [[model]] * FRAMES, st, margin=margin)


# ---------------------------------------------------------------------------------------------------------------- more shapes
def shape_cases():
    for angle in (0, 30, 90):
        for screen, scale in ((True, 1), (True, 2), (False, 1), (False, 2), (False, 0.5), (False, 4)):
            for r in (0, 4, 9, 12, 20):
                yield ("round", (r,), angle, screen, scale)
            for r in ((18, 18), (20, 10), (8, 20)):
                yield ("ellipse", r, angle, screen, scale)
            for a in ((0, 90), (45, 180), (0, 270), (200, 330), (-90, 45), (0, 360), (90, 0), (10, 500)):
                yield ("pie", a, angle, screen, scale)
            for lw in (6, 8):
                yield ("rectangle line", (lw,), angle, screen, scale)
                yield ("polygon line", (lw,), angle, screen, scale)
                if lw == 6:  # the joints of a thicker one have holes
                    yield ("circle line", (lw,), angle, screen, scale)
            for lw in (7, 9):
                for kind in ("points", "rectangle points", "polygon points", "line points"):
                    yield (kind, (lw,), angle, screen, scale)
            for kind in ("no radius", "no width", "round no width", "no length", "one point", "tiny radius", "no image"):
                yield (kind, (), angle, screen, scale)


def check_shapes(case, st):
    """rounded rectangles, ellipses, sectors, outlines and points; degenerated ones show nothing"""
    kind, arg, angle, screen, scale = case
    size = (80, 60)
    if screen and scale != 1:
        sc = Scene(width=80, height=60, x0=5, y0=-3, x1=5 + 80 / scale)  # the view does not matter
        scale = 1
    else:
        sc = Scene(width=80, height=60, x0=0 if screen else -10, y0=0 if screen else 7, x1=80 if screen else -10 + 80 / scale)
    f = 1 if screen else 1 / scale
    sx, sy = 40, 30
    x, y = (sx, sy) if screen else (-10 + sx * f, 7 + sy * f)
    kw = dict(x=x, y=y, angle=angle, screen_coordinates=screen, env=sc.env)
    plain = dict(kw, fillcolor="red", linewidth=0)
    m = dict(x=sx, y=sy, angle=angle, colour=RED)
    S = lambda p: tuple(v * f for v in p)
    shapes = []
    margin = 2.5
    rect, tri = (-15, -12, 15, 12), (-16, -10, 16, -10, 0, 16)
    sides = lambda p, lw: [dict(m, kind="line", spec=(p[i], p[i + 1], p[(i + 2) % len(p)], p[(i + 3) % len(p)]), linewidth=lw, colour=BLUE) for i in range(0, len(p), 2)]
    corners = (-15, -12, 15, -12, 15, 12, -15, 12)
    dots = lambda p, lw: [dict(x=sx + c * p[i] - s_ * p[i + 1], y=sy + s_ * p[i] + c * p[i + 1], kind="rectangle", spec=(-lw / 2, -lw / 2, lw / 2, lw / 2), colour=BLUE) for i in range(0, len(p), 2)]
    c, s_ = math.cos(math.radians(angle)), math.sin(math.radians(angle))
    if kind == "round":
        sim.AnimateRectangle(S(rect + arg), **plain)
        shapes = [dict(m, kind="round", spec=rect + (min(arg[0], 12),))]
    elif kind == "ellipse":
        sim.AnimateCircle(arg[0] * f, radius1=arg[1] * f, **plain)
        shapes = [dict(m, kind="ellipse", spec=arg)]
    elif kind == "pie":
        sim.AnimateCircle(20 * f, arc_angle0=arg[0], arc_angle1=arg[1], **plain)
        a0, a1 = min(arg), max(arg)
        shapes = [dict(m, kind="pie", spec=(20, a0, min(a1, a0 + 360)))]
    elif kind.endswith(" line"):
        lw = arg[0]
        kw.update(linewidth=lw * f, linecolor="blue", fillcolor="red")
        if kind == "rectangle line":
            sim.AnimateRectangle(S(rect), **kw)
            shapes = [dict(m, kind="rectangle", spec=rect)] + sides(corners, lw)
        elif kind == "polygon line":
            sim.AnimatePolygon(S(tri), **kw)
            shapes = [dict(m, kind="polygon", spec=tri)] + sides(tri, lw)
            margin = 4.5  # the corners of an outline
        else:
            sim.AnimateCircle(18 * f, **kw)
            shapes = [dict(m, kind="circle", radius=18), dict(m, kind="ring", radius=18, linewidth=lw, colour=BLUE)]
        if kind == "rectangle line":
            margin = 3
    elif kind.endswith("points"):
        lw = arg[0]
        kw.update(linewidth=lw * f, linecolor="blue")
        if kind == "points":
            sim.AnimatePoints(S(tri), **kw)
            shapes = dots(tri, lw)
        elif kind == "line points":
            sim.AnimateLine(S(tri), as_points=True, **kw)
            shapes = dots(tri, lw)
        elif kind == "rectangle points":
            sim.AnimateRectangle(S(rect), as_points=True, **kw)
            shapes = dots(corners, lw)
        else:
            sim.AnimatePolygon(S(tri), as_points=True, **kw)
            shapes = dots(tri, lw)
    elif kind == "no radius":
        sim.AnimateCircle(0, **plain)
    elif kind == "tiny radius":
        sim.AnimateCircle(0.01 * f, **plain)
        shapes = [dict(m, kind="circle", radius=0.01)]
    elif kind == "no width":
        sim.AnimateRectangle((0, 0, 0, 10 * f), **plain)
        shapes = [dict(m, kind="line", spec=(0, 0, 0, 10), linewidth=1)]
    elif kind == "round no width":
        sim.AnimateRectangle((0, 0, 0, 10 * f, 3 * f), **plain)
        shapes = [dict(m, kind="line", spec=(0, 0, 0, 10), linewidth=1)]
    elif kind == "no length":
        sim.AnimateLine((3 * f, 3 * f, 3 * f, 3 * f), linewidth=2 * f, linecolor="red", **kw)
        shapes = dots((3, 3), 2)
    elif kind == "one point":
        sim.AnimatePolygon((3 * f, 3 * f), **plain)
        shapes = dots((3, 3), 2)
    else:
        sim.AnimateImage("", width=0, height=0, **kw)
    return compare(sc.record(frames=2), [shapes] * 2, st, margin=margin, size=size)


# ---------------------------------------------------------------------------------------------------------------- remove, show, parent
LIFE = ("remove", "show", "end", "cancel", "children", "nothing")


def life_cases():
    for kind in ("rectangle", "queue", "combined", "text", "over3d"):
        for ops in itertools.product(LIFE, repeat=3):
            yield (kind, ops)


def check_life(case, st):
    """an object with a parent component; at 0.5, 1.5 and 2.5 something happens to it"""
    kind, ops = case
    sc = Scene()
    env = sc.env

    class Parent(sim.Component):
        def process(self):
            self.passivate()

        def animation_objects(self, id):
            return 20, 20, sim.AnimateRectangle(spec=(0, 0, 12, 12), fillcolor="red", linewidth=0, env=env)

    p = Parent(env=env)
    if kind == "queue":
        q = sim.Queue("q", env=env)
        member = Parent("member", process="", env=env)
        member.enter(q)
        ao = sim.AnimateQueue(q, x=5, y=5, direction="e", title="", parent=p)
    elif kind == "combined":
        ao = sim.AnimateCombined([sim.AnimateRectangle(spec=(0, 0, 12, 6), x=5, y=5, fillcolor="red", linewidth=0, parent=p, env=env), sim.AnimateRectangle(spec=(0, 6, 12, 12), x=5, y=5, fillcolor="red", linewidth=0, parent=p, env=env)])
    elif kind == "text":
        ao = sim.AnimateRectangle(spec=(0, 0, 12, 12), x=5, y=5, fillcolor="red", textcolor="red", text="X", fontsize=6, linewidth=0, parent=p, env=env)
    else:
        ao = sim.AnimateRectangle(spec=(0, 0, 12, 12), x=5, y=5, fillcolor="red", linewidth=0, parent=p, env=env, over3d=kind == "over3d")
    shown = True
    child = True  # still known to the parent
    alive = True
    pattern = [shown]
    problems = []
    for t, op in zip((0.5, 1.5, 2.5), ops):
        if op == "remove":
            sc.at(t, ao.remove)
            shown = False
        elif op == "show":
            sc.at(t, ao.show)
            shown = True
        elif op in ("end", "cancel"):
            if alive:
                sc.at(t, p.activate if op == "end" else p.cancel)
                if op == "end":
                    shown = shown and not child
                    child = False
                    alive = False
                else:
                    alive = False
        elif op == "children":
            sc.at(t, p.remove_animation_children)
            shown = shown and not child
            child = False
        sc.at(t + 0.25, lambda want=not shown, t=t: problems.append((t, want)) if bool(ao.is_removed()) is not want else None)
        pattern.append(shown)
    model = dict(kind="rectangle", spec=(0, 0, 12, 12), x=5, y=5, colour=RED)
    msg = compare(sc.record(), [[model] if s and kind != "over3d" else [] for s in pattern], st)
    if msg is None and problems:
        return f"(time, should be removed): {problems} is not what is_removed() gives"
    return msg


# ---------------------------------------------------------------------------------------------------------------- queues
QOPS = ("in0", "in1", "in2", "head1", "out0", "out1", "clear", "nothing")


def queue_cases():
    opts = [("e", False, None), ("w", True, None), ("n", False, 1), ("s", True, 2), ("e", True, 1), ("w", False, 2), ("n", True, None), ("s", False, None)]
    for ops in itertools.product(QOPS, repeat=3):
        for o in opts[:4] if "clear" not in ops else opts[:1]:
            yield ("plain", o, ops)
    for o in opts:
        for ops in itertools.product(("in0", "in1", "head1", "out0"), repeat=3):
            yield ("plain", o, ops)
    for direction in "ewns":
        for special in ("visible", "keep", "x", "direction", "reverse", "max_length", "anchor", "second", "two", "dynamic size", "id", "trajectory", "user"):
            if special == "trajectory" and direction != "e":
                continue
            for ops in itertools.product(("in0", "in1", "out0"), repeat=3):
                yield (special, (direction, False, None), ops)


def check_queue(case, st):
    special, (direction, reverse, max_length), ops = case
    sc = Scene(x0=-10, y0=-5, x1=10) if special == "user" else Scene()
    env = sc.env
    q = sim.Queue("q", env=env)
    sizes = ((7, 6), (9, 5), (6, 8))
    colours = (RED, GREEN, BLUE)
    f = 0.5 if special == "user" else 1

    class C(sim.Component):
        if special == "id":

            def animation_objects(self, id):
                w, h = sizes[self.nr]
                return w, h, sim.AnimateRectangle(spec=(-3, -3, 3, 3), fillcolor=(RED, GREEN, BLUE)[(self.nr + id) % 3], linewidth=0, env=env)

        elif special == "user":

            def animation_objects(self, screen_coordinates):
                w, h = sizes[self.nr]
                return w * f, h * f, sim.AnimateRectangle(spec=(-3 * f, -3 * f, 3 * f, 3 * f), fillcolor=colours[self.nr], linewidth=0, screen_coordinates=screen_coordinates, env=env)

        else:

            def animation_objects(self):
                w, h = sizes[self.nr]
                colour = colours[self.nr]
                if special == "two":
                    return (w, h) + tuple(sim.AnimateRectangle(spec=(-3, y0, 3, y1), fillcolor=colour, linewidth=0, env=env) for y0, y1 in ((-3, 1), (-1, 3)))
                if special == "dynamic size":
                    return lambda t: sizes[self.nr][0] + int(t) % 2, lambda c, t: sizes[c.nr][1] + int(t) % 2, sim.AnimateRectangle(spec=(-3, -3, 3, 3), fillcolor=colour, linewidth=0, env=env)
                return w, h, sim.AnimateRectangle(spec=(-3, -3, 3, 3), fillcolor=colour, linewidth=0, env=env)

    cs = []
    for i in range(3):
        c = C(f"c{i}", env=env)
        c.nr = i
        cs.append(c)
    x, y = {"e": (5, 15), "w": (34, 15), "n": (20, 5), "s": (20, 24)}[direction]
    opposite = dict(e="w", w="e", n="s", s="n")
    kw = dict(x=x, y=y, direction=direction, reverse=reverse, max_length=max_length, title="")
    dirs = [direction] * 4
    revs = [reverse] * 4
    maxs = [max_length] * 4
    xs = [x] * 4
    vis = [True] * 4
    if special == "visible":
        kw["visible"] = lambda t: int(t) != 1
        vis = [True, False, True, True]
    elif special == "keep":
        kw["keep"] = lambda t: int(t) != 1
        vis = [True, False, False, False]
    elif special == "x":
        xs = [x, x + 2, x + 2, x - 2]
        kw["x"] = lambda t: xs[int(t)]
    elif special == "direction":
        dirs = [direction, opposite[direction], direction, opposite[direction]]
        kw.update(direction=lambda t: dirs[int(t)], x=20, y=15)
        xs, y = [20] * 4, 15
    elif special == "reverse":
        revs = [False, True, True, False]
        kw["reverse"] = lambda: revs[int(env.now())]
    elif special == "max_length":
        maxs = [None, 1, 2, 0]
        kw["max_length"] = lambda arg, t: maxs[int(t)]
    elif special == "anchor":
        kw.update(xy_anchor="ne", x=x - W, y=y - H)
    elif special == "id":
        kw["id"] = 1
        colours = (GREEN, BLUE, RED)
    elif special == "user":
        kw.update(x=x * f, y=y * f, screen_coordinates=False)  # relative to the lower left corner
    elif special == "trajectory":
        kw.update(x=1, y=2, trajectory=sim.TrajectoryPolygon((5, 15, 12, 15, 12, 3, 30, 3), t0=7, vmax=1, env=env))
    ao = sim.AnimateQueue(q, **kw)
    second = None
    if special == "second":
        second = sim.AnimateQueue(q, x=20, y=2, direction="e", title="")
    content = []
    contents = []
    for t in range(FRAMES):
        contents.append(list(content))
        if t < 3:
            op = ops[t]
            i = int(op[-1]) if op[-1].isdigit() else None
            if op.startswith("in") and i not in content:
                content.append(i)
                sc.at(t + 0.5, lambda i=i: cs[i].enter(q))
            elif op.startswith("head") and i not in content:
                content.insert(0, i)
                sc.at(t + 0.5, lambda i=i: q.add_at_head(cs[i]))
            elif op.startswith("out") and i in content:
                content.remove(i)
                sc.at(t + 0.5, lambda i=i: cs[i].leave(q))
            elif op == "clear":
                content = []
                sc.at(t + 0.5, q.clear)
    want = []
    for t in range(FRAMES):
        shapes = []
        for d, x0, y0, r, m, v in [(dirs[t], xs[t], y, revs[t], maxs[t], vis[t])] + ([("e", 20, 2, False, None, True)] if second else []):
            if not v:
                continue
            cx, cy = x0, y0
            seq = contents[t][::-1] if r else contents[t]
            for i in seq if m is None else seq[:m]:
                w, h = sizes[i]
                if special == "trajectory":
                    a = cx - x0
                    px, py = (5 + a, 15) if a <= 7 else (12, 15 - (a - 7)) if a <= 19 else (12 + a - 19, 3)
                    shapes.append(dict(kind="rectangle", spec=(-3, -3, 3, 3), x=1 + px, y=2 + py, colour=colours[i]))
                else:
                    shapes.append(dict(kind="rectangle", spec=(-3, -3, 3, 3), x=cx, y=cy, colour=colours[i]))
                if special == "dynamic size":
                    w, h = w + t % 2, h + t % 2
                cx += {"e": w, "w": -w}.get(d, 0)
                cy += {"n": h, "s": -h}.get(d, 0)
        want.append(shapes)
    return compare(sc.record(), want, st, margin=1.5)


# ---------------------------------------------------------------------------------------------------------------- colours and coordinates
def colour_cases():
    specs = ["", "none", "transparent", None, "fg", "bg"]
    for name in ("red", "Red", " red ", "light blue", "50%gray", "lightgrey", "salmon", "rebecca"):
        specs += [name, (name, 0), (name, 128), name + "#80", [name, 200]]
    specs += ["#102030", "#10203040", "#ABCDEF", "#abcdef01", (1, 2, 3), [1, 2, 3], (1, 2, 3, 4), [1, 2, 3, 4], ("#102030", 7), ("#10203040", 7), ("fg", 9), ("bg", 9), ("", 9)]
    specs += ["#12345", "#1234567", (1,), (1, 2, 3, 4, 5), "#", "nocolour", "red#8"]
    for s in specs:
        for fg, bg in (("black", "white"), ("#01020304", (9, 8, 7)), (("lime", 5), "bg" if False else "#050607")):
            yield (s, fg, bg)


NAMES = {"red": (255, 0, 0), "lightblue": (0xAD, 0xD8, 0xE6), "50%gray": (0x7F,) * 3, "lightgrey": (0xD3,) * 3, "salmon": (0xFA, 0x80, 0x72), "black": (0, 0, 0), "white": (255, 255, 255), "lime": (0, 255, 0)}
NAMES.update({"": (0, 0, 0, 0), "none": (0, 0, 0, 0), "transparent": (0, 0, 0, 0)})


def colour_model(s, fg, bg):
    """(r, g, b, a) or None if not a colour"""
    if s is None:
        s = ""
    if s == "fg":
        return colour_model(fg, fg, bg)
    if s == "bg":
        return colour_model(bg, fg, bg)
    if isinstance(s, (tuple, list)):
        if len(s) == 2:
            c = colour_model(s[0], fg, bg)
            return None if c is None else c[:3] + (s[1],)
        if len(s) in (3, 4):
            return tuple(s) if len(s) == 4 else tuple(s) + (255,)
        return None
    if s.startswith("#"):
        if len(s) not in (7, 9):
            return None
        v = tuple(int(s[i : i + 2], 16) for i in range(1, len(s), 2))
        return v if len(v) == 4 else v + (255,)
    name, _, alpha = s.partition("#")
    name = name.replace(" ", "").lower()
    if name not in NAMES or len(alpha) not in (0, 2):
        return None
    v = NAMES[name]
    if len(v) == 4:
        return v
    return v + (int(alpha, 16) if alpha else 255,)


def check_colour(case, st):
    s, fg, bg = case
    env = driver._Env(trace=False)
    env.animation_parameters(animate=False, foreground_color=fg, background_color=bg)
    want = colour_model(s, fg, bg)
    try:
        got = env.colorspec_to_tuple(s)
    except Exception as e:
        got = None
    if st is not None:
        st.trans()
        st.state((s, want))
        st.outcome(want is None)
    if got != want:
        return f"colorspec_to_tuple({s!r}) with foreground {fg!r} and background {bg!r} is {got}, should be {want or 'refused'}"
    if want is not None:
        h = env.colorspec_to_hex(s, withalpha=True)
        if h.lower() != "#" + "".join(f"{v:02x}" for v in want):
            return f"colorspec_to_hex({s!r}) is {h}"
        h = env.colorspec_to_hex(s, withalpha=False)
        if h.lower() != "#" + "".join(f"{v:02x}" for v in want[:3]):
            return f"colorspec_to_hex({s!r}, withalpha=False) is {h}"


def coordinate_cases():
    for w in (40, 100):
        for h in (30, 50):
            for x0 in (0, -10, 5):
                for y0 in (0, 7):
                    for x1 in (None, 25, 160):
                        yield (w, h, x0, y0, x1)


def check_coordinates(case, st):
    w, h, x0, y0, x1 = case
    env = driver._Env(trace=False)
    kw = dict(x0=x0, y0=y0)
    if x1 is not None:
        kw["x1"] = x1
    env.animation_parameters(animate=False, width=w, height=h, **kw)
    real_x1 = env.x1()
    if x1 is not None and real_x1 != x1:
        return f"x1() is {real_x1}"
    if (env.width(), env.height(), env.x0(), env.y0()) != (w, h, x0, y0):
        return f"width, height, x0, y0: {(env.width(), env.height(), env.x0(), env.y0())}"
    scale = w / (real_x1 - x0)
    if not math.isclose(env.scale(), scale):
        return f"scale() is {env.scale()}, should be {scale}"
    if not math.isclose(env.y1(), y0 + h / scale):
        return f"y1() is {env.y1()}, should be {y0 + h / scale}"
    for v in (-3, 0, 1, 12.5, 40):
        for name, f, g, want in (
            ("x", env.user_to_screen_coordinates_x, env.screen_to_user_coordinates_x, (v - x0) * scale),
            ("y", env.user_to_screen_coordinates_y, env.screen_to_user_coordinates_y, (v - y0) * scale),
            ("size", env.user_to_screen_coordinates_size, env.screen_to_user_coordinates_size, v * scale),
        ):
            s = f(v)
            if not math.isclose(s, want, abs_tol=1e-9):
                return f"user_to_screen_coordinates_{name}({v}) is {s}, should be {want}"
            if not math.isclose(g(s), v, abs_tol=1e-9):
                return f"screen_to_user_coordinates_{name}({s}) is {g(s)}, should be {v}"
        if st is not None:
            st.trans(3)
    if st is not None:
        st.state(case)


# ---------------------------------------------------------------------------------------------------------------- interpolated movement
def movement_cases():
    for t0 in (None, 0, 1, 2):
        for t1 in (None, 1, 2, 3, 4):
            for keep in (True, False):
                for start in (0, 0.5):
                    for what in ("x", "y", "angle", "colour", "rectangle"):
                        yield (t0, t1, keep, start, what)


def mix(t, t0, t1, v0, v1):
    """v0 until t0, v1 from t1 on, linear in between"""
    if v0 == v1:
        return v0
    if isinstance(v0, tuple):
        return tuple(mix(t, t0, t1, a, b) for a, b in zip(v0, v1))
    if t1 == inf or t <= t0 and t0 < t1:
        return v0
    if t >= t1:
        return v1
    return v0 + (v1 - v0) * (t - t0) / (t1 - t0)


def check_movement(case, st):
    t0, t1, keep, start, what = case
    sc = Scene()
    v = dict(x=(6, 14), y=(4, 10), angle=(0, 60), colour=((255, 0, 0), (0, 0, 200)), rectangle=((0, 0, 14, 9), (2, 2, 20, 14)))
    kw = dict(rectangle0=v["rectangle"][0], x0=v["x"][0], y0=v["y"][0], angle0=0, fillcolor0=v["colour"][0], linewidth0=0, keep=keep)
    name = {"colour": "fillcolor"}.get(what, what)
    kw[name + "1"] = v[what][1]
    if t0 is not None:
        kw["t0"] = t0
    if t1 is not None:
        kw["t1"] = t1
    e0 = start if t0 is None else t0
    e1 = inf if t1 is None else t1
    if e1 <= e0:
        return None
    made = []
    make = lambda: made.append(sim.Animate(env=sc.env, **kw))
    if start:
        sc.at(start, make)
    else:
        make()
    want = []
    for t in range(FRAMES):
        shown = t >= start and t >= e0 and (keep or t <= e1)
        m = {k: mix(t, e0, e1, *pair) if k == what else pair[0] for k, pair in v.items()}
        want.append([dict(kind="rectangle", spec=m["rectangle"], x=m["x"], y=m["y"], angle=m["angle"], colour=m["colour"])] if shown else [])
    return compare(sc.record(), want, st)


# ---------------------------------------------------------------------------------------------------------------- texts
def text_cases():
    for text in ("Ag", "", None, "  ", "A\nB"):
        for vis in ("yes", "later", "once", "no"):
            for kind in ("text", "rectangle", "circle", "line", "polygon"):
                for colour in ("blue", "fg", ""):
                    yield (text, vis, kind, colour)


def check_text(case, st):
    """a text is there when it should be, and nothing else"""
    text, vis, kind, colour = case
    sc = Scene()
    kw = dict(text=text, textcolor=colour, fontsize=14, visible=dyn(PATTERN[vis]), env=sc.env, x=12, y=8)
    if text is None:
        kw.pop("text")
    if kind == "text":
        sim.AnimateText(**kw)
    elif kind == "rectangle":
        sim.AnimateRectangle(spec=(0, 0, 16, 14), fillcolor="", linewidth=0, **kw)
    elif kind == "circle":
        sim.AnimateCircle(radius=8, fillcolor="", linewidth=0, **kw)
    elif kind == "line":
        sim.AnimateLine(spec=(0, 0, 12, 12), linecolor="", **kw)
    else:
        sim.AnimatePolygon(spec=(0, 0, 16, 0, 8, 14), fillcolor="", linewidth=0, **kw)
    pics = sc.record()
    rgb = {"blue": BLUE, "fg": (0, 0, 0), "": None}[colour]
    for t, pic in enumerate(pics):
        want = bool(PATTERN[vis][t] and text and text.strip() and rgb)
        pixels = {p for p in pic.getdata()} - {BG}
        if st is not None:
            st.trans()
            st.state((case, len(pixels)))
            st.outcome(want)
        if want != bool(pixels):
            return f"frame at time {t}: the text should {'' if want else 'not '}be visible; colours: {sorted(pixels)[:5]}"
        if want and rgb not in pixels and min(sum(abs(a - b) for a, b in zip(p, rgb)) for p in pixels) > 60:
            return f"frame at time {t}: the text is not in colour {rgb}: {sorted(pixels)[:5]}"
    if len(pics) != FRAMES:
        return f"{len(pics)} frames"


# ---------------------------------------------------------------------------------------------------------------- where a text is
TW, TH = 160, 120
SIDES = {"sw": (-1, -1), "s": (0, -1), "se": (1, -1), "w": (-1, 0), "c": (0, 0), "e": (1, 0), "nw": (-1, 1), "n": (0, 1), "ne": (1, 1)}
_ink = {}


def ink(pic):
    """the box (y upwards) of everything that is not background"""
    pts = [(i, pic.size[1] - j) for j in range(pic.size[1]) for i in range(pic.size[0]) if sum(pic.getpixel((i, j))) < 3 * 255 - 120]
    if not pts:
        return None
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    return (min(xs), min(ys) - 1, max(xs) + 1, max(ys))


def free_text(anchor, angle, text="HH", fontsize=12):
    """the box of a free text, relative to its position"""
    key = (anchor, angle, text, fontsize)
    if key not in _ink:
        sc = Scene(width=TW, height=TH, x1=TW)
        sim.AnimateText(text, x=80, y=60, text_anchor=anchor, angle=angle, fontsize=fontsize, textcolor="black", screen_coordinates=True, env=sc.env)
        b = ink(sc.record(frames=1)[0])
        _ink[key] = None if b is None else (b[0] - 80, b[1] - 60, b[2] - 80, b[3] - 60)
    return _ink[key]


def text_place_cases():
    for anchor in SIDES:
        for angle in (0, 90, 180, 270):
            yield ("free", anchor, angle, True, (0, 0), (0, 0))
            for host in ("rectangle", "polygon", "circle", "ellipse", "line", "points", "image", "text"):
                for screen in (True, False):
                    for off in ((0, 0), (12, -8)):
                        for toff in ((0, 0), (-6, 10)):
                            if (host == "text" and toff != (0, 0)) or (angle in (180, 270) and off != toff):
                                continue
                            yield (host, anchor, angle, screen, off, toff)
    for direction in ("e", "w", "n", "s", "trajectory"):
        for tox in (None, 0, 10):
            for toy in (None, 0, -15):
                for screen in (True, False) if direction != "trajectory" else (True,):
                    yield ("queue", direction, tox, toy, screen, None)


def off_by(a, b, tolerance):
    return a is None or b is None or any(abs(p - q) > tolerance for p, q in zip(a, b))


def check_text_place(case, st):
    host, anchor, angle, screen, off, toff = case
    if host == "queue":
        return check_title(case, st)
    fs = 12
    if host == "free":
        # a text of about the right size, anchored and rotated properly
        b = free_text(anchor, angle)
        sw, ne = free_text("sw", 0), free_text("ne", 0)
        if b is None or sw is None or ne is None:
            return "no text"
        w, h = sw[0] - ne[0], sw[1] - ne[1]  # size of the box that is anchored
        iw, ih = sw[2] - sw[0], sw[3] - sw[1]
        if not (0.4 * fs <= ih <= 1.2 * fs and 0.8 * fs <= iw <= 2.4 * fs):
            return f"a text of 2 characters with fontsize {fs} measures {iw} x {ih}"
        if abs(w - iw) > 6 or not (ih - 2 <= h <= ih + fs):
            return f"the box of the text is {w} x {h}, of the ink {iw} x {ih}"
        if not (-4 <= sw[0] <= 5 and -3 <= sw[1] <= fs / 2):
            return f"the ink of a text with anchor sw starts at {sw[:2]}"
        ax, ay = ANCHORS[anchor]
        u = (sw[0] - ax * w, sw[1] - ay * h)
        box = (u[0], u[1], u[0] + iw, u[1] + ih)
        for _ in range(angle // 90):
            box = (-box[3], box[0], -box[1], box[2])
        tolerance = 2
    else:
        f = 1 if screen else 0.5
        sc = Scene(width=TW, height=TH, x0=0 if screen else -10, y0=0 if screen else -5, x1=TW if screen else -10 + TW * f)
        sx, sy = 80, 60
        x, y = (sx, sy) if screen else (-10 + sx * f, -5 + sy * f)
        kw = dict(x=x, y=y, angle=angle, offsetx=off[0] * f, offsety=off[1] * f, text="HH", text_anchor=anchor, fontsize=fs * f, textcolor="black", screen_coordinates=screen, env=sc.env)
        if host != "text":
            kw.update(text_offsetx=toff[0] * f, text_offsety=toff[1] * f)
        c, dim = (20, 12), (40, 24)
        if host == "rectangle":
            sim.AnimateRectangle((0, 0, 40 * f, 24 * f), fillcolor="", linewidth=0, **kw)
        elif host == "polygon":
            sim.AnimatePolygon((0, 0, 40 * f, 0, 20 * f, 24 * f), fillcolor="", linewidth=0, **kw)
        elif host == "circle":
            sim.AnimateCircle(15 * f, fillcolor="", linewidth=0, **kw)
            c, dim = (0, 0), (30, 30)
        elif host == "ellipse":
            sim.AnimateCircle(15 * f, radius1=10 * f, fillcolor="", linewidth=0, **kw)
            c, dim = (0, 0), (30, 20)
        elif host == "line":
            sim.AnimateLine((0, 0, 40 * f, 24 * f), linecolor="", **kw)
        elif host == "points":
            sim.AnimatePoints((0, 0, 40 * f, 24 * f), linecolor="", **kw)
        elif host == "image":
            sim.AnimateImage(quad_image(), width=40 * f, height=24 * f, alpha=0, **kw)
        else:
            kw.pop("text")
            sim.AnimateText("HH", **kw)
            c, dim = (0, 0), (0, 0)
        b = ink(sc.record(frames=1)[0])
        r = free_text(anchor, angle)
        px, py = c[0] + SIDES[anchor][0] * dim[0] / 2 + off[0] + toff[0], c[1] + SIDES[anchor][1] * dim[1] / 2 + off[1] + toff[1]
        for _ in range(angle // 90):
            px, py = -py, px
        box = (sx + px + r[0], sy + py + r[1], sx + px + r[2], sy + py + r[3])
        tolerance = 4
    if st is not None:
        st.trans()
        st.state(case)
        st.outcome(host)
    if off_by(b, box, tolerance):
        return f"the text is in {b}, should be in {tuple(map(round, box))} (left, bottom, right, top)"


def check_title(case, st):
    """the title of an AnimateQueue"""
    _, direction, tox, toy, screen, _ = case
    f = 1 if screen else 0.5
    sc = Scene(width=TW, height=TH, x0=0 if screen else -10, y0=0 if screen else -5, x1=TW if screen else -10 + TW * f)
    sx, sy = 80, 60
    x, y = sx * f, sy * f  # relative to the lower left corner
    q = sim.Queue("HH", env=sc.env)
    kw = {}
    if direction == "trajectory":
        kw["trajectory"] = sim.TrajectoryPolygon((0, 0, 50, 0), env=sc.env)
    else:
        kw["direction"] = direction
    if tox is not None:
        kw["titleoffsetx"] = tox * f
    if toy is not None:
        kw["titleoffsety"] = toy * f
    sim.AnimateQueue(q, x=x, y=y, title="HH", titlefontsize=12 * f, titlecolor="black", screen_coordinates=screen, **kw)
    b = ink(sc.record(frames=1)[0])
    r = free_text("se" if direction == "w" else "sw", 0)
    # by default, 25 off (in the coordinates of the queue)
    xs = [(25 if direction == "w" else -25) / f] if tox is None else [tox]
    ys = [25 / f, -25 / f] if toy is None else [toy]
    if st is not None:
        st.trans()
        st.state(case)
        st.outcome(direction)
    if all(off_by(b, (sx + dx + r[0], sy + dy + r[1], sx + dx + r[2], sy + dy + r[3]), 3) for dx in xs for dy in ys):
        return f"the title is in {b} (left, bottom, right, top), it should be {xs[0]} to the right and {' or '.join(map(str, ys))} above ({sx}, {sy})"


# ---------------------------------------------------------------------------------------------------------------- images
QUADS = ((RED, GREEN), (BLUE, (200, 200, 0)))  # rows from the top, columns from the left
ANCHORS = {"sw": (0, 0), "s": (0.5, 0), "se": (1, 0), "w": (0, 0.5), "c": (0.5, 0.5), "e": (1, 0.5), "nw": (0, 1), "n": (0.5, 1), "ne": (1, 1)}


def quad_image(w=16, h=12, quads=QUADS):
    im = Image.new("RGB", (w, h))
    for i in range(w):
        for j in range(h):
            im.putpixel((i, j), quads[2 * j // h][2 * i // w])
    return im


def image_shapes(x, y, w, h, anchor="sw", angle=0, offsetx=0, offsety=0, fh=False, fv=False, alpha=255, quads=QUADS):
    ax, ay = ANCHORS[anchor]
    result = []
    for row in range(2):
        for col in range(2):
            c = quads[1 - row if fv else row][1 - col if fh else col]
            left, bottom = -ax * w + col * w / 2, -ay * h + (1 - row) * h / 2
            result.append(dict(kind="rectangle", spec=(left, bottom, left + w / 2, bottom + h / 2), x=x, y=y, angle=angle, offsetx=offsetx, offsety=offsety, colour=c + (alpha,)))
    return result


def image_cases():
    for anchor in ANCHORS:
        for angle in (0, 90, 180, 270):
            for screen in (False, True):
                for off in ((0, 0), (6, -4)):
                    yield ("pil", anchor, angle, (None, None), screen, off, "00", 255)
    for source in ("pil", "png", "path", "zip"):
        for size in ((None, None), (24, None), (None, 20), (10, 24)):
            for flip in ("00", "10", "01", "11", "later"):
                for alpha in (255, 100, "later"):
                    for screen in (False, True):
                        yield (source, "c", 0, size, screen, (0, 0), flip, alpha)


def check_image(case, st):
    source, anchor, angle, (width, height), screen, (ox, oy), flip, alpha = case
    sc = Scene() if screen else Scene(x0=-10, y0=-5, x1=10)
    f = 1 if screen else 0.5
    sx, sy = 19, 14
    x, y = (sx, sy) if screen else (-10 + sx * f, -5 + sy * f)
    im = quad_image()
    fn = lambda a, b: lambda t: a if t < 1.5 else b
    with scratch() as folder:
        spec = im
        if source in ("png", "path"):
            spec = os.path.join(folder, "i.png")
            im.save(spec)
            if source == "path":
                import pathlib

                spec = pathlib.Path(spec)
        elif source == "zip":
            import zipfile

            im.save(os.path.join(folder, "i.png"))
            with zipfile.ZipFile(os.path.join(folder, "i.zip"), "w") as z:
                z.write(os.path.join(folder, "i.png"), "j.png")
            spec = os.path.join(folder, "i.zip") + "|j.png"
        sim.AnimateImage(
            spec,
            x=x,
            y=y,
            width=None if width is None else width * f,
            height=None if height is None else height * f,
            anchor=anchor,
            angle=angle,
            offsetx=ox * f,
            offsety=oy * f,
            flip_horizontal=fn(False, True) if flip == "later" else flip[0] == "1",
            flip_vertical=flip[1] == "1",
            alpha=fn(255, 100) if alpha == "later" else alpha,
            screen_coordinates=screen,
            env=sc.env,
        )
        pics = sc.record()
    # without a width, an image of 16 pixels is 16 wide, in user coordinates 16 user units
    native = 1 if screen else 2
    if width is None and height is None:
        w, h = 16 * native, 12 * native
    elif width is None:
        w, h = height * 16 / 12, height
    elif height is None:
        w, h = width, width * 12 / 16
    else:
        w, h = width, height
    want = []
    for t in range(FRAMES):
        want.append(image_shapes(sx, sy, w, h, anchor, angle, ox, oy, (t >= 2) if flip == "later" else flip[0] == "1", flip[1] == "1", (255 if t < 2 else 100) if alpha == "later" else alpha))
    return compare(pics, want, st, margin=2.5, tolerance=70)


GIF_COLOURS = (RED, GREEN, BLUE)


def gif_cases():
    for start in (None, -0.5, 0.25, 1.25):
        for speed in (1, 0.5, 2):
            for repeat in (False, True):
                for pingpong in (False, True):
                    for t_from in (None, 1):
                        for t_to in (None, 2):
                            if (t_from, t_to) != (1, 2):
                                yield (start, speed, repeat, pingpong, t_from, t_to)


def gif_model(t, repeat, pingpong, t_from, t_to):
    """index of the frame(s) shown at t (seconds after the start); None is nothing.  At the boundary of two frames, either of them"""
    if t < 0:
        return {None}
    n = t_to - t_from
    interval = 2 * n if pingpong else n
    result = set()
    for e in (-1e-6, 1e-6):
        u = t + e
        if u < 0:
            continue
        if u >= interval:
            if not repeat:
                result.add(None)
                continue
            u %= interval
        if pingpong and u >= n:
            u = interval - u
        result.update(min(int(t_from + u + d), 2) for d in (-2e-6, 2e-6) if t_from + u + d >= 0)
    return result


def check_gif(case, st):
    """an animated gif of three frames of one second"""
    start, speed, repeat, pingpong, t_from, t_to = case
    sc = Scene()
    with scratch() as folder:
        spec = os.path.join(folder, "a.gif")
        ims = [Image.new("RGB", (20, 16), c) for c in GIF_COLOURS]
        ims[0].save(spec, save_all=True, append_images=ims[1:], duration=1000, loop=0)
        kw = dict(animation_speed=speed, animation_repeat=repeat, animation_pingpong=pingpong)
        if start is not None:
            kw["animation_start"] = start
        if t_from is not None:
            kw["animation_from"] = t_from
        if t_to is not None:
            kw["animation_to"] = t_to
        ao = sim.AnimateImage(spec, x=8, y=6, env=sc.env, **kw)
        if abs(ao.duration() - 3) > 1e-9:
            return f"duration() is {ao.duration()}, should be 3"
        pics = sc.record(frames=9)
    if len(pics) != 9:
        return f"{len(pics)} frames"
    for t, pic in enumerate(pics):
        allowed = gif_model((t - (start or 0)) * speed, repeat, pingpong, t_from or 0, t_to or 3)
        msgs = []
        for i in allowed:
            shapes = [] if i is None else [dict(kind="rectangle", spec=(0, 0, 20, 16), x=8, y=6, colour=GIF_COLOURS[i])]
            msg, count = judge(pic, shapes)
            if not msg:
                break
            msgs.append(msg)
        else:
            return f"frame at time {t}: {msgs}"
        if st is not None:
            st.trans()
            st.state((case, t, tuple(sorted(count.items()))))
            st.outcome(len(allowed))


# ---------------------------------------------------------------------------------------------------------------- monitors
YELLOW = (240, 240, 100)


def monitor_cases():
    for level in (True, False):
        for values in itertools.product((0, 1, 2), repeat=3):
            for hs in (15, 8):
                for vo in (0, 3):
                    for extra in ("", "reset", "visible", "again", "keep", "labels", "user"):
                        if extra and (vo or hs == 8):
                            continue
                        yield (level, values, hs, vo, extra)


def check_monitor(case, st):
    level, values, hs, vo, extra = case
    sc = Scene(x0=-10, y0=-5, x1=10) if extra == "user" else Scene()
    f = 0.5 if extra == "user" else 1
    env = sc.env
    m = sim.Monitor("m", level=level, initial_tally=values[0], env=env) if level else sim.Monitor("m", level=False, env=env)
    times = (0, 0.5, 1.5) if level else (0.5, 1.5, 2.5)
    wid, hei, vs = 30, 22, 8
    kw = {}
    if extra == "visible":
        kw["visible"] = dyn(PATTERN["second"])
    elif extra == "keep":
        kw["keep"] = dyn((1, 1, 0, 1))
    elif extra == "labels":
        kw.update(labels={1: " "}, label_linecolor=(0, 128, 0), label_linewidth=6, label_color="")
    x0, y0 = 5, 4
    am = sim.AnimateMonitor(
        m,
        x=(-10 + x0 * f) if extra == "user" else x0,
        y=(-5 + y0 * f) if extra == "user" else y0,
        width=wid * f,
        height=hei * f,
        horizontal_scale=hs * f,
        vertical_scale=vs * f,
        vertical_offset=vo * f,
        linewidth=7 * f,
        linecolor="blue",
        fillcolor=YELLOW,
        bordercolor="",
        borderlinewidth=0,
        nowcolor="red",
        title="",
        screen_coordinates=extra != "user",
        **kw,
    )
    for t, v in list(zip(times, values))[(1 if level else 0) :]:
        sc.at(t, lambda v=v: m.tally(v))
    removed = []
    if extra == "reset":
        sc.at(1.25, m.reset)
    elif extra == "again":
        sc.at(0.75, lambda: (am.remove(), removed.append(am.is_removed())))
        sc.at(1.75, lambda: (am.show(), removed.append(am.is_removed())))
    pics = sc.record()
    if removed not in ([], [True, False]):
        return f"is_removed() after remove() and after show(): {removed}, should be [True, False]"
    want = []
    nows = []
    for T in range(FRAMES):
        there = True
        if extra == "visible":
            there = T == 1
        elif extra == "keep":
            there = T < 2
        elif extra == "again":
            there = T != 1
        if not there:
            want.append([])
            nows.append(None)
            continue
        shapes = [dict(kind="rectangle", spec=(0, 0, wid, hei), x=x0, y=y0, colour=YELLOW)]
        if extra == "labels":
            shapes.append(dict(kind="line", spec=(0, vs, wid, vs), x=x0, y=y0, colour=GREEN, linewidth=6))
        start = 1.25 if extra == "reset" and T > 1 else 0
        path = [(t, v) for t, v in zip(times, values) if t <= T]
        if start:
            before = [v for t, v in path if t <= start]
            path = ([(start, before[-1])] if level else []) + [(t, v) for t, v in path if t > start]
        left = max(0, T - start - wid / hs)
        tx = lambda t: max(0, (t - start - left) * hs)
        vy = lambda v: max(0, min(hei, v * vs + vo))
        lines = []
        if level:
            px = None
            for (t, v), (t1, v1) in zip(path, path[1:] + [(T, path[-1][1])]):
                if t1 - start < left - 1e-9:
                    continue
                a, b = tx(t), tx(t1)
                if b > a:
                    lines.append((a, vy(v), b, vy(v)))
                if vy(v1) != vy(v):
                    lines.append((b, vy(v), b, vy(v1)))
            shapes.extend(dict(kind="line", spec=p, x=x0, y=y0, colour=BLUE, linewidth=7) for p in lines)
        else:
            for t, v in path:
                if t - start >= left:
                    a, b = tx(t), vy(v)
                    shapes.append(dict(kind="rectangle", spec=(a - 3.5, b - 3.5, a + 3.5, b + 3.5), x=x0, y=y0, colour=BLUE))
        now = min(T - start, wid / hs) * hs
        shapes.append(dict(kind="line", spec=(now, 0, now, hei), x=x0, y=y0, colour=RED, linewidth=1))
        nows.append(now + x0)
        want.append(shapes)
    msg = compare(pics, want, st, margin=2.75)
    if msg:
        return msg
    for T, (pic, now) in enumerate(zip(pics, nows)):
        red = [(i, j) for i in range(W) for j in range(H) if pic.getpixel((i, j)) == RED]
        if now is None:
            if red:
                return f"frame at time {T}: there is a line for the current time, but the monitor is not shown"
        elif len(red) < hei - 4 or any(abs(i + 0.5 - now) > 2 for i, j in red):
            return f"frame at time {T}: the line for the current time should be at x={now}, the red pixels are {red}"


# ---------------------------------------------------------------------------------------------------------------- grid
def grid_cases():
    for x0, y0, x1 in ((0, 0, 40), (-20, 10, 20), (10, -30, 90), (-8, -8, 8)):
        for spacing in ((x1 - x0) / 2, (x1 - x0) / 4):
            yield (x0, y0, x1, spacing)


def check_grid(case, st):
    """lines over the full width and height at each multiple of the spacing from the lower left corner"""
    x0, y0, x1, spacing = case
    sc = Scene(x0=x0, y0=y0, x1=x1)
    sim.AnimateGrid(spacing=spacing, env=sc.env, linecolor="red", linewidth=8 * (x1 - x0) / W, textcolor="")
    scale = W / (x1 - x0)
    shapes = []
    k = 0
    while k * spacing * scale <= W + 1:
        v = k * spacing * scale
        shapes.append(dict(kind="line", spec=(v, 0, v, H), x=0, y=0, colour=RED, linewidth=8))
        if v <= H + 1:
            shapes.append(dict(kind="line", spec=(0, v, W, v), x=0, y=0, colour=RED, linewidth=8))
        k += 1
    return compare(sc.record(), [shapes] * FRAMES, st, margin=2.5)


# ---------------------------------------------------------------------------------------------------------------- removed or not
KINDS = ("text", "rectangle", "polygon", "line", "points", "circle", "image", "classic", "combined", "queue", "monitor", "box3d", "bar3d", "sphere3d", "queue3d", "combined3d")


def removed_cases():
    for kind in KINDS:
        for over in (False, True):
            for n in range(5):
                for seq in itertools.product(("remove", "show"), repeat=n):
                    yield (kind, over, seq)


def check_removed(case, st):
    """is_removed() is what remove() and show() imply, for all kinds of objects"""
    kind, over, seq = case
    env = Scene().env
    kw = dict(env=env, over3d=over)
    q = sim.Queue("q", env=env)
    if kind == "text":
        ao = sim.AnimateText("a", **kw)
    elif kind == "rectangle":
        ao = sim.AnimateRectangle((0, 0, 1, 1), text="a", **kw)
    elif kind == "polygon":
        ao = sim.AnimatePolygon((0, 0, 1, 1, 2, 0), **kw)
    elif kind == "line":
        ao = sim.AnimateLine((0, 0, 1, 1), **kw)
    elif kind == "points":
        ao = sim.AnimatePoints((0, 0, 1, 1), **kw)
    elif kind == "circle":
        ao = sim.AnimateCircle(3, **kw)
    elif kind == "image":
        ao = sim.AnimateImage("", **kw)
    elif kind == "classic":
        ao = sim.Animate(rectangle0=(0, 0, 1, 1), **kw)
    elif kind == "combined":
        ao = sim.AnimateCombined([sim.AnimateText("a", **kw), sim.AnimateCircle(3, **kw)])
    elif kind == "queue":
        ao = sim.AnimateQueue(q, over3d=over)
    elif kind == "monitor":
        ao = sim.AnimateMonitor(q.length, over3d=over)
    elif kind == "box3d":
        ao = sim.Animate3dBox(env=env)
    elif kind == "bar3d":
        ao = sim.Animate3dBar(env=env)
    elif kind == "sphere3d":
        ao = sim.Animate3dSphere(env=env)
    elif kind == "queue3d":
        ao = sim.Animate3dQueue(q)
    else:
        ao = sim.AnimateCombined([sim.Animate3dBox(env=env), sim.AnimateText("a", **kw)])
    removed = False
    for i, op in enumerate(("",) + seq):
        if op:
            getattr(ao, op)()
            removed = op == "remove"
        if st is not None:
            st.trans()
            st.state((kind, over, removed, seq[:i][-1:]))
            st.outcome(removed)
        got = ao.is_removed()
        if got != removed:
            return f"is_removed() is {got}, should be {removed}, after {seq[:i]}"


def families(tier):
    F = lambda name, cases, check, bounds: Family(name, list(cases), check, bounds, setup=setup)
    return [
        F("layers", layer_cases(), check_layers, "2-3 overlapping rectangles, all combinations of layers (one changing), visible and keep patterns (at most 2 not constant)"),
        F("forms", form_cases(), check_forms, "10 attributes, each given in 13 ways (constant, functions of 0-2 parameters, method, subclass, assigned or updated during the run); all pairs of attributes in 3 ways"),
        F("geometry", geometry_cases(), check_geometry, "5 shapes, 4 angles, all anchors, 3 views, screen or user coordinates, offsets"),
        F("shapes", shape_cases(), check_shapes, "rounded rectangles, ellipses, sectors, outlines, points and degenerated shapes: 3 angles, 6 views"),
        F("life", life_cases(), check_life, "5 kinds of object, all sequences of 3 of remove, show, end and cancel of the parent, removal of the children"),
        F("queue", queue_cases(), check_queue, "all sequences of 3 queue operations; 4 directions, reversed, maximum length; changing attributes"),
        F("colours", colour_cases(), check_colour, "all forms of a colour specification, legal and not"),
        F("coordinates", coordinate_cases(), check_coordinates, "72 views"),
        F("movement", movement_cases(), check_movement, "position, angle, colour or shape changing from t0 to t1 (all combinations, given or not), kept or not, made at 0 or at 0.5"),
        F("image", image_cases(), check_image, "an image from 4 kinds of source; all anchors, 4 angles, sizes, flips, transparency, offsets, screen or user coordinates"),
        F("gif", gif_cases(), check_gif, "an animated gif: all combinations of start, speed, repeat, pingpong, from and to; 9 frames"),
        F("monitor", monitor_cases(), check_monitor, "AnimateMonitor of a level and of a non-level monitor: all sequences of 3 values, 2 scales, 2 offsets, reset, removed and shown, visible, keep, labels"),
        F("grid", grid_cases(), check_grid, "4 views, 2 spacings"),
        F("removed", removed_cases(), check_removed, "16 kinds of object (2d and 3d), all sequences of up to 4 of remove and show"),
        F("text_place", text_place_cases(), check_text_place, "free texts and texts of 8 kinds of object: all anchors, 4 angles, offsets, screen or user coordinates; the title of a queue in every direction"),
        F("text", text_cases(), check_text, "texts of 5 kinds of object, visible or not, in 3 colours"),
    ]
