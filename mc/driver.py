"""
Runs an operation history on the real salabim through its public interface and records what every process sees at every
point where it has control; `compare` runs the same history on the reference model and reports the first difference.
"""

import math

import greenlet

from mc.core import load_salabim
from mc.refsim import RefSim, FILTERS, KEYS, MAIN, TIMES

inf = math.inf
BLOCKING = {"activate", "hold", "passivate", "cancel", "standby", "request", "get", "put", "wait", "wait_for", "from_store", "to_store"}
FLUSH_LIMIT = 60
sim = None
_X = None


class FlushLimit(Exception):
    pass


def setup():
    global sim, _X, _XG, _Env
    sim = load_salabim()

    class X(sim.Component):
        def process(self):
            self.drv.loop(self, "process")

        def alt(self):
            self.drv.loop(self, "alt")

    class XG(sim.Component):
        def process(self):
            yield from self.drv.loop_gen(self, "process")

        def alt(self):
            yield from self.drv.loop_gen(self, "alt")

    class Env(sim.Environment):
        """without the (documented, overridable) animation texts, which only cost time here"""

        def an_modelname(self):
            pass

        def an_clocktext(self):
            pass

    _X = X
    _XG = XG
    _Env = Env


class Driver:
    def __init__(self, world, ops, yieldless=True):
        self.world = world
        self.ops = ops
        self.pos = 0
        self.log = []
        self.flush = 0
        self.yieldless = yieldless
        if world.get("cap_now"):
            sim.default_cap_now(True)
        else:
            sim.default_cap_now(False)
        env = self.env = _Env(trace=False, yieldless=yieldless, **world.get("env", {}))
        cls = _X if yieldless else _XG
        self.res = [sim.Resource(f"r{k}", env=env, **kw) for k, kw in enumerate(world.get("resources", ()))]
        self.sta = [sim.State(f"s{k}", env=env, **kw) for k, kw in enumerate(world.get("states", ()))]
        self.sto = [sim.Store(f"st{k}", env=env, **kw) for k, kw in enumerate(world.get("stores", ()))]
        self.items = [sim.Component(f"i{k}", env=env) for k in range(world.get("nitems", 0))]
        self.itemnr = {id(x): k for k, x in enumerate(self.items)}
        self.flag = 0
        self.comps = []
        self.cls = cls
        for i in range(world.get("ncomp", 2)):
            if i in world.get("absent", ()):
                self.comps.append(None)
                continue
            c = cls(f"c{i}", process="", env=env, skip_standby=(i in world.get("skip", ())))
            c.drv = self
            c.nr = i
            self.comps.append(c)
        self.nr = {id(c): c.nr for c in self.comps if c is not None}
        self.resnr = {id(r): k for k, r in enumerate(self.res)}
        self.glets = []

    # ------------------------------------------------------------------------------------------------ control points
    def next(self, who, proc):
        self.log.append((who, proc, self.snapshot()))
        if who == MAIN:
            self.check_peek()
        if self.pos < len(self.ops):
            op = self.ops[self.pos]
            self.pos += 1
            return op
        self.flush += 1
        if self.flush > FLUSH_LIMIT:
            raise FlushLimit()
        return None

    def check_peek(self):
        """when main has control, the next event is that of a component"""
        comps = [c for c in self.comps if c is not None]
        if any(c.status() == "standby" for c in comps):
            return
        want = min((c.scheduled_time() for c in comps), default=inf)
        if want < inf and self.env.peek() != want:
            self.log.append(("peek()", self.env.peek(), want))

    def close(self):
        """end the processes that are still suspended, so that all memory of this history can be reclaimed"""
        me = greenlet.getcurrent()
        glets = self.glets + [g.parent for g in self.glets[:1]]
        for g in glets:
            if g is not None and g is not me and not g.dead:
                try:
                    g.parent = me
                    g.throw()
                except BaseException:
                    pass
        self.glets = []

    def loop(self, c, proc):
        self.glets.append(greenlet.getcurrent())
        start = "*"  # to tell a process that starts from one that continues
        while True:
            op = self.next(c.nr, proc + start)
            start = ""
            if op is None:
                c.passivate()
                continue
            if op[0] == "end":
                return
            r = self.do(op)
            if op[0] == "from_store" and op[1] == c.nr:
                self.log.append(("returned", c.nr, None if r is None else self.itemnr[id(r)]))

    def loop_gen(self, c, proc):
        start = "*"
        while True:
            op = self.next(c.nr, proc + start)
            start = ""
            if op is None:
                yield c.passivate()
                continue
            if op[0] == "end":
                return
            r = self.do(op)
            if op[1] == c.nr and op[0] in BLOCKING:
                r = yield r
                if op[0] == "from_store":
                    self.log.append(("returned", c.nr, None if r is None else self.itemnr[id(r)]))

    def run(self):
        try:
            while True:
                op = self.next(MAIN, "main")
                if op is None:
                    break
                self.do(op)
            self.env.run()
            self.log.append((MAIN, "main", self.snapshot()))
        except FlushLimit:
            self.log.append(("flush limit",))
        except Exception as e:
            self.log.append(("exc", type(e).__name__))
            self.exception = e
        return self.log

    # ------------------------------------------------------------------------------------------------ operations
    def do(self, op):
        name, i, kw = op
        env = self.env
        if any(k in kw and type(kw[k]) is tuple for k in TIMES):
            kw = {k: (self.time_spec(v) if k in TIMES and type(v) is tuple else v) for k, v in kw.items()}
        if name == "create":
            c = self.cls.__new__(self.cls)
            c.drv = self
            c.nr = i
            self.nr[id(c)] = i
            self.comps[i] = c
            c.__init__(f"c{i}", env=env, **kw)
            return None
        c = self.comps[i] if i is not None and i >= 0 else None
        if name == "nop":
            return None
        if name == "run":
            return env.run(**kw)
        if name == "reset_now":
            return env.reset_now(**kw)
        if name in ("activate", "hold", "passivate", "interrupt", "resume", "cancel", "standby", "remaining_duration"):
            return getattr(c, name)(**kw)
        if name == "skip_standby":
            c.skip_standby(kw["value"])
            if c.skip_standby() is not kw["value"]:
                raise RuntimeError("skip_standby() does not give the value set")
            return None
        if name == "set_mode":
            return c.set_mode(kw["mode"])
        if name in ("request", "get", "put"):
            kw = dict(kw)
            args = [self.res[a[0]] if len(a) == 1 else (self.res[a[0]],) + tuple(a[1:]) for a in kw.pop("args")]
            return getattr(c, name)(*args, **kw)
        if name == "release":
            args = [self.res[a[0]] if len(a) == 1 else (self.res[a[0]],) + tuple(a[1:]) for a in kw.get("args", ())]
            return c.release(*args)
        if name == "res_release":
            r = self.res[kw["r"]]
            return r.release() if kw.get("quantity") is None else r.release(kw["quantity"])
        if name == "set_capacity":
            if kw.get("via_value"):
                self.res[kw["r"]].capacity.value = kw["cap"]
                return None
            return self.res[kw["r"]].set_capacity(kw["cap"])
        if name == "wait":
            kw = dict(kw)
            args = []
            for a in kw.pop("args"):
                s = self.sta[a[0]]
                if len(a) == 1:
                    args.append(s)
                else:
                    args.append((s, self.spec(a[1])) + tuple(a[2:]))
            return c.wait(*args, **kw)
        if name == "wait_for":
            kw = dict(kw)
            kind, v = kw.pop("cond")
            states = [self.sta[s] for s in kw.pop("states")]
            if kind == "sum_ge":
                cond = lambda: sum(s() for s in self.sta) >= v
            else:
                cond = lambda: self.sta[0]() == self.sta[-1]()
            return c.wait_for(cond, states, **kw)
        if name in ("set", "reset", "trigger"):
            kw = dict(kw)
            s = self.sta[kw.pop("s")]
            if kw.pop("via_value", False):
                s.value.value = kw["value"]
                return None
            return getattr(s, name)(**kw)
        if name in ("from_store", "to_store"):
            kw = dict(kw)
            st = [self.sto[s] for s in kw.pop("stores")]
            if len(st) == 1:
                st = st[0]
            if name == "from_store":
                if "filter" in kw:
                    kw["filter"] = self.filter(kw["filter"])
                if kw.get("key"):
                    key = KEYS[kw["key"]]
                    kw["key"] = lambda x: key(self.itemnr[id(x)])
                return c.from_store(st, **kw)
            kw["item"] = self.items[kw["item"]]
            return c.to_store(st, **kw)
        if name == "item_enter":
            it = self.items[kw["item"]]
            if kw.get("priority") is None:
                return it.enter(self.sto[kw["s"]])
            return it.enter_sorted(self.sto[kw["s"]], kw["priority"])
        if name == "item_leave":
            return self.items[kw["item"]].leave(self.sto[kw["s"]])
        if name == "store_capacity":
            return self.sto[kw["s"]].set_capacity(kw["cap"])
        if name == "flag":
            self.flag = kw["value"]
            return None
        if name == "filter":
            return c.filter(self.filter(kw["filter"]))
        if name == "rescan":
            return self.sto[kw["s"]].rescan()
        raise RuntimeError(op)

    def time_spec(self, v):
        kind, x = v
        if kind == "fn":
            return lambda: x
        if kind == "dist":
            return sim.Constant(x, env=self.env)
        raise RuntimeError(v)

    def filter(self, name):
        if name == "flag":
            return lambda x: self.itemnr[id(x)] < self.flag
        f = FILTERS[name]
        return lambda x: f(self.itemnr[id(x)])

    @staticmethod
    def spec(v):
        kind, x = v
        if kind == "value":
            return x
        if kind == "expr_in":
            return f"$ in {x!r}"
        if kind == "expr_ge":
            return f"$ >= {x!r}"
        if kind == "expr_between":
            return f"{x[0]!r} <= $ and $ <= {x[1]!r}"
        if kind == "fn_between":
            return lambda value, component, state: x[0] <= value and state() <= x[1]
        if kind == "fn_own":
            return lambda value, component, state: value == component.nr + x
        if kind == "fn_in":
            return lambda value, component, state: value in x
        if kind == "fn_ge":
            return lambda value, component, state: state.get() >= x
        raise RuntimeError(v)

    # ------------------------------------------------------------------------------------------------ observation
    def members(self, q, table=None):
        table = self.nr if table is None else table
        return tuple((table[id(c)], c.priority(q)) for c in q)

    def snapshot(self):
        env = self.env
        comps = []
        for c in self.comps:
            if c is None:
                comps.append(None)
                continue
            st = c.status()
            item = c.from_store_item()
            comps.append(
                (
                    st,
                    None if st == "standby" else c.scheduled_time(),
                    c.remaining_duration(),
                    c.scheduled_priority(),
                    c.interrupt_level(),
                    c.failed(),
                    c.mode(),
                    c.mode_time(),
                    c.running_process(),
                    tuple((self.resnr[id(r)], c.requested_quantity(r)) for r in c.requested_resources()),
                    tuple((self.resnr[id(r)], c.claimed_quantity(r)) for r in c.claimed_resources()),
                    None if item is None else self.itemnr[id(item)],
                )
            )
        res = [
            (r.capacity(), r.claimed_quantity(), r.available_quantity(), r.occupancy(), self.members(r.requesters()), self.members(r.claimers()))
            for r in self.res
        ]
        sta = [(s.get(), self.members(s.waiters())) for s in self.sta]
        for s in self.sta:
            if not (s.value.value == s.get() == s.value() == s()):
                sta.append(("state", s.get(), "value", s.value.value))
        sto = [
            (s.capacity(), s.available_quantity(), self.members(s, self.itemnr), self.members(s.from_store_requesters()), self.members(s.to_store_requesters()))
            for s in self.sto
        ]
        cur = env.current_component()
        return (env.now(), self.nr.get(id(cur), MAIN), tuple(comps), tuple(res), tuple(sta), tuple(sto))


def run_ref(world, ops, record=False):
    """the whole history plus the default ending on the model; returns (log, final model)"""
    m = RefSim(world)
    if record:
        m.tlog = []
    m.point()
    log = list(m.log)
    last_op = {}
    for op in ops:
        who = m.current
        last_op[who] = op
        m.apply(op)
        log.extend(m.log)
        if m.err:
            return _returns(log, ops), m
    n = 1
    while n <= FLUSH_LIMIT + 2:
        if m.current == MAIN:
            m.apply(("run", None, {}))
            log.extend(m.log)
            if m.current == MAIN or m.err:
                return _returns(log, ops), m
            # the final run has started; main does nothing else afterwards
            while m.current != MAIN:
                n += 1
                if n > FLUSH_LIMIT:
                    log.append(("flush limit",))
                    return _returns(log, ops), m
                m.apply(("passivate", m.current, {}))
                log.extend(m.log)
                if m.err:
                    break
            return _returns(log, ops), m
        n += 1
        m.apply(("passivate", m.current, {}))
        log.extend(m.log)
        if m.err:
            return _returns(log, ops), m
    log.append(("flush limit",))
    return _returns(log, ops), m


def _returns(log, ops):
    return log


def strip_returns(log):
    return [e for e in log if e[0] != "returned"]


def last_values(mon):
    """{t: value after the last tally at t} of a level monitor"""
    xs, ts = mon.xt(force_numeric=False, add_now=False)
    out = {}
    for x, t in zip(xs, ts):
        out[t] = x
    return out


def check_paths(drv, m):
    """every level monitor has recorded exactly the path the model went through"""
    # occupancy has nothing to divide by without capacity
    tlog = m.tlog + [(m.now, m.snapshot())]
    probes = []
    for k, r in enumerate(drv.res):
        for name, mon, idx, f in (
            ("capacity", r.capacity, 0, None),
            ("claimed_quantity", r.claimed_quantity, 1, None),
            ("available_quantity", r.available_quantity, 2, None),
            ("occupancy", r.occupancy, 3, None),
            ("requesters().length", r.requesters().length, 4, len),
            ("claimers().length", r.claimers().length, 5, len),
        ):
            probes.append((f"r{k}.{name}", mon, lambda s, k=k, idx=idx, f=f: f(s[3][k][idx]) if f else s[3][k][idx]))
    for k, x in enumerate(drv.sta):
        probes.append((f"s{k}.value", x.value, lambda s, k=k: s[4][k][0]))
        probes.append((f"s{k}.waiters().length", x.waiters().length, lambda s, k=k: len(s[4][k][1])))
    for k, x in enumerate(drv.sto):
        probes.append((f"st{k}.capacity", x.capacity, lambda s, k=k: s[5][k][0]))
        probes.append((f"st{k}.available_quantity", x.available_quantity, lambda s, k=k: s[5][k][1]))
        probes.append((f"st{k}.length", x.length, lambda s, k=k: len(s[5][k][2])))
        probes.append((f"st{k}.from_store_requesters().length", x.from_store_requesters().length, lambda s, k=k: len(s[5][k][3])))
        probes.append((f"st{k}.to_store_requesters().length", x.to_store_requesters().length, lambda s, k=k: len(s[5][k][4])))
    for k, c in enumerate(drv.comps):
        if c is not None and k not in drv.world.get('absent', ()):
            probes.append((f"c{k}.status", c.status, lambda s, k=k: s[2][k][0]))
            probes.append((f"c{k}.mode", c.mode, lambda s, k=k: s[2][k][6]))
    for name, mon, f in probes:
        rec = last_values(mon)
        cur = None
        times = dict(tlog)
        for t in sorted(set(rec) | set(times)):
            if t in rec:
                cur = rec[t]
            if t in times:
                want = f(times[t])
                if cur != want:
                    return f"monitor {name}: value at the end of t={t} is {cur}, expected {want}; recorded {rec}"
            else:
                return f"monitor {name}: recorded a value at t={t}, when nothing happened; {rec}"
    return None


def compare(world, ops, st=None, yieldless=True, paths=False):
    want, m = run_ref(world, ops, paths)
    drv = Driver(world, ops, yieldless)
    raw = drv.run()
    try:
        return _compare(world, ops, st, yieldless, paths, want, m, drv, raw)
    finally:
        drv.close()


def _compare(world, ops, st, yieldless, paths, want, m, drv, raw):
    got = strip_returns(raw)
    if st is not None:
        st.trans(len(want))
        for e in want:
            st.state(e[:3] if e[0] == "exc" else (e[0], e[1], e[2][1:]))
        st.outcome(want[-1][1] if want[-1][0] == "exc" else "completed, " + str(len(want)) + " control points")
    if got == want:
        # what from_store gives back is the item the component then reports
        for k, e in enumerate(raw):
            if e[0] == "returned" and k + 1 < len(raw) and raw[k + 1][0] == e[1]:
                if raw[k + 1][2][2][e[1]][11] != e[2]:
                    return f"from_store of c{e[1]} returned item {e[2]} but from_store_item() is {raw[k+1][2][2][e[1]][11]}"
        if drv.sto and not m.err:
            for i, (c, x) in enumerate(zip(m.comps, drv.comps)):
                if c.item is not None and x.from_store_store() is not drv.sto[c.from_store]:
                    return f"from_store_store() of c{i} is {x.from_store_store()}, expected {drv.sto[c.from_store]}"
                if c.to_store is not None and x.to_store_store() is not drv.sto[c.to_store]:
                    return f"to_store_store() of c{i} is {x.to_store_store()}, expected {drv.sto[c.to_store]}"
        if paths and not m.err and got[-1] != ("flush limit",):
            return check_paths(drv, m)
        return None
    if want[-1] == ("exc", "Undefined"):
        if got[: len(want) - 1] == want[:-1]:
            return None
    for k in range(max(len(got), len(want))):
        g = got[k] if k < len(got) else None
        w = want[k] if k < len(want) else None
        if g != w:
            exc = getattr(drv, "exception", None)
            return (
                f"{'yieldless' if yieldless else 'yield'} mode, at control point {k} (operations {ops[:k]}):\n"
                + describe(g, w)
                + (f"\nexception raised: {exc!r}" if exc else "")
            )
    return None


COMP_FIELDS = "status scheduled_time remaining_duration scheduled_priority interrupt_level failed mode mode_time process requests claims from_store_item".split()
RES_FIELDS = "capacity claimed_quantity available_quantity occupancy requesters claimers".split()


def describe(g, w):
    if g is None or w is None or len(g) != 3 or len(w) != 3:
        return f"observed {g}\nexpected {w}"
    out = []
    if g[:2] != w[:2]:
        out.append(f"in control: observed {g[:2]} expected {w[:2]}")
    a, b = g[2], w[2]
    for name, x, y in (("now", a[0], b[0]), ("current_component", a[1], b[1])):
        if x != y:
            out.append(f"{name}: observed {x} expected {y}")
    for i, (x, y) in enumerate(zip(a[2], b[2])):
        for f, p, q in zip(COMP_FIELDS, x, y):
            if p != q:
                out.append(f"c{i}.{f}: observed {p} expected {q}")
    for i, (x, y) in enumerate(zip(a[3], b[3])):
        for f, p, q in zip(RES_FIELDS, x, y):
            if p != q:
                out.append(f"r{i}.{f}: observed {p} expected {q}")
    for nm, k in (("state", 4), ("store", 5)):
        for i, (x, y) in enumerate(zip(a[k], b[k])):
            if x != y:
                out.append(f"{nm}{i}: observed {x} expected {y}")
    return "\n".join(out)


def history_family(name, world, enabled, depth, bounds, yieldless=True, dedupe=True, prefix=(), extra_key=None, post=None, paths=False):
    """every operation from every model state that is reachable by at most depth-1 operations (after `prefix`), executed on the real code"""
    from mc.core import Family
    from mc import bfs

    def initial():
        m = RefSim(world)
        for op in prefix:
            m.apply(op)
        if m.err:
            raise RuntimeError(f"bad prefix {prefix}: {m.err}")
        return m

    def apply(m, op):
        return m.clone().apply(op)

    def cases():
        paths, ns, nt = bfs.explore(initial, enabled, apply, lambda m: m.canon(), depth, dedupe=dedupe, stop=lambda m: m.err is not None, extra_key=extra_key)
        family.model_states = ns
        family.model_transitions = nt
        return [tuple(prefix) + p for p in paths]

    modes = (True, False) if yieldless == "both" else (yieldless,)

    def check(ops, st):
        for mode in modes:
            msg = compare(world, ops, st, mode, paths)
            if msg:
                return msg
        if post:
            return post(world, ops, st)
        return None

    family = Family(name, cases, check, bounds, setup)
    return family
