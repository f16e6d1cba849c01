"""C08: queue statistics and capacity over time."""

import itertools
import math

from mc import mmodel, qmodel
from mc.core import Family, load_salabim
from mc.mmodel import Level, Tallies, Diff, want
from mc.qmodel import QModel, QErr

inf = math.inf
nan = math.nan
PROPERTY = "C08"
ASSUMPTIONS = ["1-2 queues, 2-3 components, points in time are integers; monitoring is switched for the whole queue (Queue.monitor) or reset as a whole (Queue.reset_monitors)"]


def setup():
    global sim, Env
    sim = load_salabim()
    sim.yieldless(False)

    class Env(sim.Environment):
        def an_modelname(self):
            pass

        def an_clocktext(self):
            pass


class Ref:
    """list model plus monitor models, driven by its changes"""

    def __init__(self, nq, nc, caps, on):
        self.m = QModel(nq, nc, caps)
        self.length = [Level(0, 0, on, "uint32") for _ in range(nq)]
        self.stay = [Tallies(0, on, "float") for _ in range(nq)]
        self.avail = [Level(0, c, True, "float") for c in self.m.cap]
        self.cap = [Level(0, c, True, "float") for c in self.m.cap]
        self.arr_t0 = [0] * nq
        self.dep_t0 = [0] * nq
        self.offset = 0

    def all(self):
        return self.length + self.stay + self.avail + self.cap

    def op(self, op):
        name, k = op[0], op[1]
        if name == "run":
            self.m.now += op[2]
            for x in self.all():
                x.run(op[2])
        elif name == "monitor":
            self.length[k].monitor(op[2])
            self.stay[k].monitor(op[2])
        elif name == "reset_monitors":
            self.length[k].reset(*op[2:])
            self.stay[k].reset(*op[2:])
        elif name == "arrival_rate":
            self.m.arr[k] = 0
            self.arr_t0[k] = self.m.now
        elif name == "departure_rate":
            self.m.dep[k] = 0
            self.dep_t0[k] = self.m.now
        elif name == "reset_now":
            self.offset = self.m.now - op[2]
            for x in self.all():
                x.reset_now(op[2])
        else:
            before = [len(q) for q in self.m.q]
            nst = [len(s) for s in self.m.stays]
            cap0 = list(self.m.cap)
            nl = [len(h) for h in self.m.len_hist]
            try:
                self.m.op(op)
            finally:
                for q in range(len(before)):
                    for s in self.m.stays[q][nst[q] :]:
                        self.stay[q].tally(s)
                    for _, n in self.m.len_hist[q][nl[q] :]:
                        self.length[q].tally(n)
                    if len(self.m.len_hist[q]) > nl[q] or name == "set_capacity" and q == k:
                        self.avail[q].tally(self.m.cap[q] - len(self.m.q[q]))
                    if name == "set_capacity" and q == k:
                        self.cap[q].tally(self.m.cap[q])


def real(op, qs, cs, env):
    name, k = op[0], op[1]
    if name == "monitor":
        return qs[k].monitor(op[2])
    if name == "reset_monitors":
        return qs[k].reset_monitors(*op[2:])
    if name in ("arrival_rate", "departure_rate"):
        return getattr(qs[k], name)(reset=True)
    if name == "reset_now":
        return env.reset_now(op[2])
    if name == "set_capacity" and len(op) > 3:
        qs[k].capacity.value = op[2]
        return None
    return qmodel.real_op(op, qs, cs, env)


def observe(ref, qs, cs, env, full):
    m = ref.m
    u = env.now()
    for k, q in enumerate(qs):
        try:
            mmodel.check_level(q.length, ref.length[k], grid=(u - 1, u), light=not full)
            mmodel.check_tallies(q.length_of_stay, ref.stay[k], light=not full)
            want("capacity", q.capacity(), m.cap[k])
            want("available_quantity", q.available_quantity(), m.cap[k] - len(m.q[k]))
            if m.cap[k] != inf and ref.cap[k].path[0][1] != inf:
                mmodel.check_level(q.available_quantity, ref.avail[k], grid=(u - 1, u), light=True)
                mmodel.check_level(q.capacity, ref.cap[k], grid=(u - 1, u), light=True)
            want("number_of_arrivals", q.number_of_arrivals, m.arr[k])
            want("number_of_departures", q.number_of_departures, m.dep[k])
            d = m.now - ref.arr_t0[k]
            want("arrival_rate", q.arrival_rate(), m.arr[k] / d if d else nan)
            d = m.now - ref.dep_t0[k]
            want("departure_rate", q.departure_rate(), m.dep[k] / d if d else nan)
            want("members", [cs.index(c) for c in q], m.order(k))
            want("enter times", [c.enter_time(q) for c in q], [e[2] - ref.offset for e in m.q[k]])
        except Diff as e:
            raise Diff(f"queue {k}: {e}")


def run_history(case, st):
    nq, nc, caps, on, hist = case
    env = Env(trace=False)
    kw = {} if on else {"monitor": False}
    qs = [sim.Queue(f"q{i}", env=env, **({} if caps is None else {"capacity": caps[i]}), **kw) for i in range(nq)]
    cs = [sim.Component(f"c{i}", env=env) for i in range(nc)]
    ref = Ref(nq, nc, caps, on)
    if not on:
        for k in range(nq):
            ref.avail[k] = Level(0, ref.m.cap[k], False, "float")
            ref.cap[k] = Level(0, ref.m.cap[k], False, "float")
    step = -1
    try:
        for step, op in enumerate(hist):
            exp = got = None
            try:
                ref.op(op)
            except QErr as e:
                exp = str(e)
            try:
                real(op, qs, cs, env)
            except Exception as e:
                got = type(e).__name__
            if exp != got:
                raise Diff(f"raised {got}, expected {exp}")
            observe(ref, qs, cs, env, step + 1 == len(hist))
        st.trans(len(hist))
        st.state((ref.m.canon(), tuple(tuple(map(tuple, x.path)) for x in ref.length), tuple(tuple(x.data) for x in ref.stay)))
        st.outcome(f"{sum(ref.m.arr)} in, {sum(ref.m.dep)} out")
    except Diff as e:
        return f"after {hist[:step+1]}: {e}"


def internal(case, st):
    """the queues of resources, states and stores, in first come first served scenarios of which everything is known beforehand"""
    kind, gaps, serv, par, mode = case
    env = Env(trace=False, yieldless=mode)
    n = len(gaps)
    arr = list(itertools.accumulate(gaps))
    want = []  # (queue, [(enter, leave)] in the order of leaving)
    if kind == "resource":
        r = sim.Resource("r", capacity=par, env=env)

        def go(self):
            yield lambda: self.hold(till=arr[self.nr])
            yield lambda: self.request(r)
            yield lambda: self.hold(serv[self.nr])
            yield lambda: self.release(r)

        free = [0] * par
        s, f = [], []
        for a, d in zip(arr, serv):
            k = free.index(min(free))
            s.append(max(a, free[k]))
            f.append(s[-1] + d)
            free[k] = f[-1]
        want = [(r.requesters(), list(zip(arr, s)), True), (r.claimers(), list(zip(s, f)), False)]
        procs = [go] * n
    elif kind == "state":
        s = sim.State("s", value=0, env=env)

        def go(self):
            yield lambda: self.hold(till=arr[self.nr] + 0.25)
            yield lambda: self.wait((s, 1))

        def ctl(self):
            for i, t in enumerate(serv):
                yield lambda: self.hold(t + 0.5)
                if par == 0:
                    s.trigger(value=1, value_after=0, max=1)
                elif i % 2 == 0:
                    s.set(1)
                else:
                    s.set(0)

        procs = [go] * n + [ctl]
        waiting, ref, now = [], [], 0
        todo = [(a + 0.25, 1, i) for i, a in enumerate(arr)]
        t = 0
        for i, d in enumerate(serv):
            t += d + 0.5
            todo.append((t, 0, i))
        val = 0
        # ties between an arrival and a change do not occur: x.25 or x.75 against multiples of 0.5
        for t, typ, i in sorted(todo):
            if typ:
                if val:
                    ref.append((t, t))
                else:
                    waiting.append(t)
            elif par == 0:
                if waiting:
                    ref.append((waiting.pop(0), t))
            else:
                val = 1 - i % 2
                if val:
                    ref += [(w, t) for w in waiting]
                    waiting = []
        want = [(s.waiters(), ref + [(w, None) for w in waiting], True)]
    else:
        # producers offer at arr, consumers ask at the partial sums of serv
        ask = [t + 0.5 for t in itertools.accumulate(serv)]
        s = sim.Store("s", env=env, **({} if par is None else {"capacity": par}))
        items = [sim.Component("item.", env=env, process=None) for _ in range(n)]
        gone = []

        def go(self):
            yield lambda: self.hold(till=arr[self.nr])
            yield lambda: self.to_store(s, items[self.nr])

        def get(self):
            yield lambda: self.hold(till=ask[self.nr - n])
            yield lambda: self.from_store(s)
            gone.append(items.index(self.from_store_item()))

        procs = [go] * n + [get] * n
        E, L = [], []
        for i in range(n):
            E.append(max(arr[i], L[i - par]) if par is not None and i >= par else arr[i])
            L.append(max(E[i], ask[i]))
        # what can be served at once does not become a requester
        waited = lambda pairs: [(a, b) for a, b in pairs if b > a]
        want = [(s.to_store_requesters(), waited(zip(arr, E)), True), (s.from_store_requesters(), waited(zip(ask, L)), True), (s, list(zip(E, L)), True)]

    class P(sim.Component):
        if mode:

            def process(self):
                for action in procs[self.nr](self):
                    action()

        else:

            def process(self):
                for action in procs[self.nr](self):
                    yield action()

    ps = [P(process=None, env=env) for _ in procs]
    for i, c in enumerate(ps):
        c.nr = i
    for c in ps:
        c.activate(process="process")
    env.run()
    end = env.now()
    for q, ref, ordered in want:
        stays = [b - a for a, b in ref if b is not None]
        got = list(q.length_of_stay.x())
        if (got != stays) if ordered else (sorted(got) != sorted(stays)):
            return f"{q.name()}: lengths of stay {got}, expected {stays}"
        inside = [a for a, b in ref if b is None]
        if q.number_of_arrivals != len(ref) or q.number_of_departures != len(stays) or len(q) != len(inside):
            return f"{q.name()}: {q.number_of_arrivals} arrivals, {q.number_of_departures} departures, {len(q)} members, expected {len(ref)}, {len(stays)}, {len(inside)}"
        if end:
            area = sum((end if b is None else b) - a for a, b in ref)
            if abs(q.length.mean() * end - area) > 1e-9:
                return f"{q.name()}: mean length {q.length.mean()} over {end}, expected {area / end}"
        pts = sorted({0, end} | {t for ab in ref for t in ab if t is not None})
        for t0, t1 in zip(pts, pts[1:]):
            m = (t0 + t1) / 2
            k = sum(a < m and (b is None or b > m) for a, b in ref)
            if q.length(m) != k:
                return f"{q.name()}: length {q.length(m)} at {m}, expected {k}"
        if stays and abs(q.length_of_stay.mean() - sum(stays) / len(stays)) > 1e-9:
            return f"{q.name()}: mean length of stay {q.length_of_stay.mean()}"
        st.trans(len(ref) * 2)
        st.state((q.name(), tuple(ref)))
    st.outcome(f"{kind} {len(set(tuple(x) for w in want for x in w[1]))}")
    return None


def legal_histories(ops, depth, nq, nc, caps, keep_errors):
    """all histories; operations the model refuses are only kept as last one"""
    out = []

    def rec(hist, ref):
        if len(hist) == depth:
            out.append(hist)
            return
        import copy

        for op in ops:
            if hist and hist[-1] == op and op[0] in ("monitor", "reset_monitors", "reset_now", "arrival_rate", "departure_rate"):
                continue
            r = copy.deepcopy(ref)
            try:
                r.op(op)
            except QErr:
                if keep_errors:
                    out.append(hist + (op,))
                continue
            rec(hist + (op,), r)

    rec((), Ref(nq, nc, caps, True))
    return out


def families(tier):
    th = tier == "thorough"
    fams = []
    RUN = ("run", None, 1)
    ops = [("add", 0, 0), ("enter", 0, 1), ("leave", 0, 0), ("pop", 0), ("clear", 0), RUN, ("add_sorted", 0, 1, -1), ("priority", 0, 0, 1)]
    d = 6 if th else 5
    fams.append(Family("stays", lambda d=d: [(1, 2, None, True, h) for h in legal_histories(ops, d, 1, 2, None, False)], run_history, f"1 queue, 2 components, {d} operations", setup))
    ops1 = [("add", 0, 0), ("add", 0, 1), ("leave", 0, 0), ("pop", 0), RUN, ("monitor", 0, False), ("monitor", 0, True), ("reset_monitors", 0), ("reset_monitors", 0, False), ("reset_monitors", 0, True)]
    d = 6 if th else 5
    fams.append(Family("switching", lambda d=d: [(1, 2, None, on, h) for h in legal_histories(ops1, d, 1, 2, None, False) for on in (True, False)], run_history, f"1 queue, 2 components, {d} operations, initially monitored or not", setup))
    ops2 = [("add", 0, 0), ("add", 0, 1), ("leave", 0, 0), ("pop", 0), RUN, ("arrival_rate", 0), ("departure_rate", 0), ("reset_now", None, 0), ("reset_now", None, 5)]
    fams.append(Family("rates", lambda d=d: [(1, 2, None, True, h) for h in legal_histories(ops2, d, 1, 2, None, False)], run_history, f"1 queue, 2 components, {d} operations, resetting rates and now", setup))
    ops3 = [("add", 0, 0), ("add", 0, 1), ("add_at_head", 0, 2), ("insert", 0, 0, 1), ("leave", 0, 0), ("pop", 0), RUN, ("set_capacity", 0, 1), ("set_capacity", 0, 3), ("set_capacity", 0, 0, "value"), ("append", 0, 2)]
    d = 5 if th else 4
    fams.append(Family("capacity", lambda d=d: [(1, 3, (cap,), True, h) for cap in (0, 1, 2) for h in legal_histories(ops3, d, 1, 3, (cap,), True)], run_history, f"1 queue of capacity 0, 1 or 2, 3 components, {d} operations incl. refused ones", setup))
    ops4 = [("add", 0, 0), ("add", 1, 0), ("add", 0, 1), ("leave_all", 0, 0), ("extend", 1, 0, False), ("extend", 1, 0, True), ("extend", 0, 1, True), ("clear", 1), RUN, ("delslice", 0, 0, 1)]
    fams.append(Family("two_queues", lambda d=d: [(2, 2, caps, True, h) for caps in (None, (2, 1)) for h in legal_histories(ops4, d, 2, 2, caps, True)], run_history, f"2 queues, moving components, {d} operations", setup))
    G = (0, 1, 2)
    S = (0, 1, 3)
    n = 4 if th else 3
    cases = []
    for mode in (True, False):
        for g in itertools.product(G, repeat=n):
            for s in itertools.product(S, repeat=n):
                cases += [("resource", g, s, par, mode) for par in (1, 2)]
                cases += [("state", g, s, par, mode) for par in (0, 1)]
                cases += [("store", g, s, par, mode) for par in (1, 2, None)]
    fams.append(Family("internal", cases, internal, f"requesters, claimers, waiters, store requesters and store content in every first come first served scenario of {n} arrivals", setup))
    # more of them, all at once or spread
    cases = []
    for n in (9, 17, 40):
        for g in ((0,) * n, (1,) * n, tuple(i % 3 for i in range(n))):
            for s in ((0,) * n, (1,) * n, (2,) * n, tuple((i * 2) % 5 for i in range(n))):
                for mode in (True, False):
                    cases += [("resource", g, s, par, mode) for par in (1, 2, 7)] + [("state", g, s, par, mode) for par in (0, 1)] + [("store", g, s, par, mode) for par in (1, 8, None)]
    fams.append(Family("internal_many", cases, internal, "the same with 9, 17 and 40 arrivals", setup))
    return fams
