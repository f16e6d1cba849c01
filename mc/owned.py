"""The monitors that belong to a resource, a state and a component, against plain models, while being switched and reset."""

from mc import mmodel
from mc.core import load_salabim
from mc.mmodel import Level, Tallies, Diff, want


def setup():
    global sim
    sim = load_salabim()
    sim.yieldless(False)


class Model:
    """the monitors, by name"""

    def __init__(self, mons):
        self.mons = mons
        self.stats = {n: False for n in mons}

    def now(self, d):
        for r in self.mons.values():
            r.run(d)

    def monitor(self, v, names=None):
        for n in names or self.mons:
            self.mons[n].monitor(v)

    def reset(self, v, stats=None):
        for n, r in self.mons.items():
            if stats is not None:
                self.stats[n] = stats
            r.reset(v)

    def reset_now(self, t):
        for r in self.mons.values():
            r.reset_now(t)

    def check(self, real):
        for n, r in self.mons.items():
            want(f"{n}.stats_only()", [real[n].stats_only()], [self.stats[n]])
            mmodel.check_owned(n, real[n], r)


def common(op, obj, env, model, real):
    k = op[0]
    if k == "run":
        env.run(op[1])
        model.now(op[1])
    elif k == "monitor":
        obj.monitor(op[1])
        model.monitor(op[1])
    elif k == "one":
        real[op[1]].monitor(op[2])
        model.monitor(op[2], [op[1]])
    elif k == "reset":
        obj.reset_monitors(**({} if op[1] is None else {"monitor": op[1]}))
        model.reset(op[1])
    elif k == "stats":
        obj.reset_monitors(stats_only=op[1])
        model.reset(None, op[1])
    elif k == "reset_now":
        env.reset_now(op[1])
        model.reset_now(op[1])
    else:
        return False
    return True


# ----------------------------------------------------------------------------------------------------------- resource
def resource(case, st):
    on, ops = case
    env = sim.Environment(trace=False, yieldless=False)
    r = sim.Resource("r", capacity=2, env=env, monitor=on)

    class X(sim.Component):
        def process(self):
            while True:
                yield self.passivate()
                yield self.request((r, self.q))

    xs = [X(env=env) for _ in range(2)]
    env.run(0)
    real = {
        "capacity": r.capacity,
        "claimed_quantity": r.claimed_quantity,
        "available_quantity": r.available_quantity,
        "occupancy": r.occupancy,
        "requesters.length": r.requesters().length,
        "claimers.length": r.claimers().length,
        "requesters.length_of_stay": r.requesters().length_of_stay,
        "claimers.length_of_stay": r.claimers().length_of_stay,
    }
    mons = {n: (Tallies(0, on) if n.endswith("stay") else Level(0, 0, on, "uint32" if n.endswith("length") else "any")) for n in real}
    for n in ("capacity", "available_quantity"):
        mons[n] = Level(0, 2, on)
    model = Model(mons)
    if set(map(id, r.all_monitors())) != set(map(id, real.values())):
        return f"all_monitors() gives {[m.name() for m in r.all_monitors()]}"
    cap = 2
    claims, waiting, since = {}, [], {}

    def update():
        c = sum(claims.values())
        for n, v in (("capacity", cap), ("claimed_quantity", c), ("available_quantity", cap - c), ("occupancy", 0 if cap <= 0 else c / cap)):
            if mons[n].value != v:
                mons[n].tally(v)

    def enter(what, i):
        since[what, i] = mons["capacity"].now
        n = f"{what}.length"
        mons[n].tally(mons[n].value + 1)

    def leave(what, i):
        n = f"{what}.length"
        mons[n].tally(mons[n].value - 1)
        mons[f"{what}.length_of_stay"].tally(mons[n].now - since.pop((what, i)))

    def honor(i, q):
        waiting.remove((i, q))
        leave("requesters", i)
        if i not in claims:
            enter("claimers", i)
        claims[i] = claims.get(i, 0) + q
        update()

    def scan():
        for i, q in list(waiting):
            if q <= cap - sum(claims.values()):
                honor(i, q)

    k = -1
    try:
        for k, op in enumerate(ops):
            if common(op, r, env, model, real):
                pass
            elif op[0] == "req":
                _, i, q = op
                if any(w[0] == i for w in waiting):
                    continue
                xs[i].q = q
                xs[i].activate()
                env.run(0)
                waiting.append((i, q))
                enter("requesters", i)
                if q <= cap - sum(claims.values()):
                    honor(i, q)
            elif op[0] == "rel":
                i = op[1]
                if i in claims:
                    xs[i].release()
                    env.run(0)
                    del claims[i]
                    leave("claimers", i)
                    update()
                    scan()
            elif op[0] == "cap":
                r.set_capacity(op[1])
                env.run(0)
                cap = op[1]
                update()
                scan()
        model.check(real)
    except Diff as e:
        return f"{'monitored' if on else 'not monitored'}, after {ops[:k+1]}: {e}"
    st.trans(len(ops))
    st.state((on, cap, tuple(sorted(claims.items())), tuple(waiting), tuple((n, m.on, model.stats[n], m.start) for n, m in mons.items())))
    st.outcome("waiting" if waiting else "claimed" if claims else "free")


# -------------------------------------------------------------------------------------------------------------- state
def state(case, st):
    on, ops = case
    env = sim.Environment(trace=False, yieldless=False)
    s = sim.State("s", value=0, env=env, monitor=on)

    class X(sim.Component):
        def process(self):
            while True:
                yield self.passivate()
                yield self.wait((s, self.v))

    xs = [X(env=env) for _ in range(2)]
    env.run(0)
    real = {"value": s.value, "waiters.length": s.waiters().length, "waiters.length_of_stay": s.waiters().length_of_stay}
    mons = {"value": Level(0, 0, on), "waiters.length": Level(0, 0, on, "uint32"), "waiters.length_of_stay": Tallies(0, on)}
    model = Model(mons)
    if set(map(id, s.all_monitors())) != set(map(id, real.values())):
        return f"all_monitors() gives {[m.name() for m in s.all_monitors()]}"
    waiting = {}

    def leave(i):
        mons["waiters.length"].tally(mons["waiters.length"].value - 1)
        mons["waiters.length_of_stay"].tally(mons["value"].now - waiting.pop(i)[1])

    k = -1
    try:
        for k, op in enumerate(ops):
            if common(op, s, env, model, real):
                pass
            elif op[0] == "wait":
                _, i, v = op
                if i in waiting:
                    continue
                xs[i].v = v
                xs[i].activate()
                env.run(0)
                if mons["value"].value != v:  # not met: joins the waiters
                    waiting[i] = (v, mons["value"].now)
                    mons["waiters.length"].tally(mons["waiters.length"].value + 1)
                else:  # passes through the waiters
                    waiting[i] = (v, mons["value"].now)
                    mons["waiters.length"].tally(mons["waiters.length"].value + 1)
                    leave(i)
            elif op[0] == "set":
                s.set(op[1])
                env.run(0)
                if mons["value"].value != op[1]:
                    mons["value"].tally(op[1])
                for i in list(waiting):
                    if waiting[i][0] == op[1]:
                        leave(i)
            elif op[0] == "assign":
                s.value.value = op[1]
                env.run(0)
                if mons["value"].value != op[1]:
                    mons["value"].tally(op[1])
                for i in list(waiting):
                    if waiting[i][0] == op[1]:
                        leave(i)
        model.check(real)
    except Diff as e:
        return f"{'monitored' if on else 'not monitored'}, after {ops[:k+1]}: {e}"
    st.trans(len(ops))
    st.state((on, mons["value"].value, tuple(sorted(waiting)), tuple((n, m.on, model.stats[n], m.start) for n, m in mons.items())))
    st.outcome("waiting" if waiting else "no waiters")


# ---------------------------------------------------------------------------------------------------------- component
STEPS = {
    ("activate", "passive"): "scheduled",
    ("activate", "data"): "scheduled",
    ("passivate", "scheduled"): "passive",
    ("cancel", "scheduled"): "data",
    ("cancel", "passive"): "data",
    ("cancel", "interrupted"): "data",
    ("interrupt", "scheduled"): "interrupted",
}


def component(case, st):
    ops = case
    env = sim.Environment(trace=False, yieldless=False)

    class X(sim.Component):
        def process(self):
            yield self.passivate()

    c = X(env=env, mode=1)
    real = {"mode": c.mode, "status": c.status}
    mons = {"mode": Level(0, 1, True), "status": Level(0, "data", True)}
    model = Model(mons)
    mons["status"].tally("scheduled")
    env.run(0)
    mons["status"].tally("current")
    mons["status"].tally("passive")
    mode_time = 0
    k = -1
    try:
        for k, op in enumerate(ops):
            if common(op, c, env, model, real):
                pass
            elif op[0] in ("mode", "mode_value"):
                if op[0] == "mode":
                    c.set_mode(op[1])
                else:
                    c.mode.value = op[1]
                mons["mode"].tally(op[1])
                mode_time = mons["mode"].now
            elif (op[0], mons["status"].value) in STEPS:
                if op[0] == "activate":
                    c.activate(at=float("inf"), process="process")
                else:
                    getattr(c, op[0])()
                mons["status"].tally(STEPS[op[0], mons["status"].value])
        model.check(real)
        want("mode_time()", c.mode_time(), mode_time - mons["mode"].offset)
    except Diff as e:
        return f"after {ops[:k+1]}: {e}"
    st.trans(len(ops))
    st.state((mons["mode"].value, mons["status"].value, tuple((n, m.on, model.stats[n], m.start) for n, m in mons.items())))
    st.outcome(str(mons["status"].value))


def histories(ops, depth):
    import itertools

    for h in itertools.product(ops, repeat=depth):
        if not any(a == b and a[0] not in ("run", "req") for a, b in zip(h, h[1:])):
            yield h


COMMON = [("run", 1), ("monitor", False), ("monitor", True), ("reset", None), ("reset", False), ("reset", True), ("stats", True), ("stats", False), ("reset_now", 0), ("reset_now", 5)]


def resource_cases(depth):
    one = [("one", n, v) for n in ("claimed_quantity", "occupancy") for v in (False, True)]
    ops = COMMON + [("req", 0, 1), ("req", 1, 2), ("rel", 0), ("rel", 1), ("cap", 1), ("cap", 3)]
    first = [(("req", 0, 1), ("run", 1)), (("req", 0, 2), ("req", 1, 1), ("run", 1)), (("run", 2),)]
    return [(on, f + h) for on in (True, False) for f in first for h in histories(ops, depth)] + [(True, first[1] + h) for h in histories(one + ops[:1] + ops[10:], depth)]


def state_cases(depth):
    one = [("one", n, v) for n in ("value", "waiters.length") for v in (False, True)]
    ops = COMMON + [("wait", 0, 1), ("wait", 1, 2), ("set", 1), ("set", 2), ("assign", 0)]
    first = [(("wait", 0, 1), ("run", 1)), (("wait", 1, 2), ("set", 1), ("run", 1))]
    return [(on, f + h) for on in (True, False) for f in first for h in histories(ops, depth)] + [(True, first[1] + h) for h in histories(one + ops[:1] + ops[10:], depth)]


def component_cases(depth):
    one = [("one", n, v) for n in ("mode", "status") for v in (False, True)]
    ops = [c for c in COMMON if c[0] != "monitor"] + one + [("mode", 1), ("mode", 0), ("mode_value", "a")] + [(n,) for n in ("activate", "passivate", "cancel", "interrupt")]
    return [(("activate",), ("run", 1)) + h for h in histories(ops, depth)]
