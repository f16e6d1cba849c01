"""C06: queue order and membership.  Every history of queue operations against a list model."""

import itertools
import math

from mc import bfs, qmodel
from mc.core import Family, load_salabim

inf = math.inf
PROPERTY = "C06"
ASSUMPTIONS = [
    "component and priority alphabets are small (2-4 components, 3 priorities); list structure bugs needing more members are outside the bound",
    "the reference model is a plain python list with python list semantics",
]

_env = None
_n = 0


def setup():
    global sim, _env
    sim = load_salabim()
    sim.yieldless(True)
    _env = None


def fresh(nq, nc, caps=None, reuse=True):
    """fresh queues and components, in an environment that is shared by 100 cases (fresh when time is to advance)"""
    global _env, _n
    if not reuse or _env is None or _n >= 100:
        env = sim.Environment(trace=False)
        _env = env if reuse else None
        _n = 0
    else:
        env = _env
        _n += 1
    qs = [sim.Queue(f"q{i}", capacity=(caps[i] if caps else inf), env=env) for i in range(nq)]
    cs = [sim.Component(f"c{i}", env=env) for i in range(nc)]
    return env, qs, cs


def observe_model(m, k):
    order = m.order(k)
    prio = [e[1] for e in m.q[k]]
    n = len(order)
    o = {
        "list": order,
        "reversed": order[::-1],
        "len": n,
        "priorities": prio,
        "enter_times": [e[2] for e in m.q[k]],
        "head": order[0] if order else None,
        "tail": order[-1] if order else None,
        "index": [order.index(c) if c in order else -1 for c in range(m.nc)],
        "contains": [c in order for c in range(m.nc)],
        "count": [int(c in order) for c in range(m.nc)],
        "succ": [order[i + 1] if i + 1 < n else None for i in range(n)],
        "pred": [order[i - 1] if i > 0 else None for i in range(n)],
        "getitem": [order[i] for i in range(-n, n)],
        "length()": n,
        "available": m.cap[k] - n,
        "capacity": m.cap[k],
    }
    return o


def observe_real(q, cs, ident):
    order = [ident(c) for c in q]
    n = len(q)
    members = [cs[i] for i in order]
    return {
        "list": order,
        "reversed": [ident(c) for c in reversed(q)],
        "len": n,
        "priorities": [c.priority(q) for c in members],
        "enter_times": [c.enter_time(q) for c in members],
        "head": ident(q.head()),
        "tail": ident(q.tail()),
        "index": [q.index(c) for c in cs],
        "contains": [c in q for c in cs],
        "count": [c.count(q) for c in cs],
        "succ": [ident(q.successor(c)) for c in members],
        "pred": [ident(q.predecessor(c)) for c in members],
        "getitem": [ident(q[i]) for i in range(-n, n)],
        "length()": q.length(),
        "available": q.available_quantity(),
        "capacity": q.capacity(),
    }


def check_history(case, st):
    nq, nc, caps, hist = case
    env, qs, cs = fresh(nq, nc, caps, not any(op[0] == 'run' for op in hist))
    number = {id(c): i for i, c in enumerate(cs)}
    ident = lambda c: None if c is None else number[id(c)]
    m = qmodel.QModel(nq, nc, caps)
    for step, op in enumerate(hist):
        try:
            want_res = m.op(op)
            want_exc = None
        except qmodel.QErr as e:
            want_res = None
            want_exc = str(e)
        got_exc = None
        got_res = None
        try:
            r = qmodel.real_op(op, qs, cs, env)
            if op[0] == "pop":
                got_res = ident(r)
            elif op[0] == "priority":
                got_res = r
            elif op[0] in ("add", "append", "add_sorted", "add_at_head", "add_in_front_of", "add_behind", "insert", "remove", "remove_all"):
                if r is not qs[op[1]]:
                    return f"step {step} {op}: returned {r!r} instead of the queue itself"
            elif op[0].startswith(("enter", "leave")):
                if r is not cs[op[2]]:
                    return f"step {step} {op}: returned {r!r} instead of the component itself"
        except (ValueError, IndexError, sim.QueueFullError) as e:
            got_exc = type(e).__name__
        st.trans()
        if got_exc != want_exc:
            return f"step {step} {op}: raised {got_exc}, expected {want_exc}"
        if got_res != want_res:
            return f"step {step} {op}: returned {got_res!r}, expected {want_res!r}"
        for k in range(nq):
            want = observe_model(m, k)
            got = observe_real(qs[k], cs, ident)
            if got != want:
                diff = {key: (got[key], want[key]) for key in want if got[key] != want[key]}
                return f"after step {step} {op}, queue {k}: (observed, expected) {diff}"
        for c in range(nc):
            inq = {k for k in range(nq) if m._pos(k, c) is not None}
            if {i for i in range(nq) if any(qq is qs[i] for qq in cs[c].queues())} != inq or cs[c].count() != len(inq):
                return f"after step {step} {op}: component {c} reports queues {cs[c].queues()}, expected {inq}"
        st.state(m.canon())
    st.outcome(tuple(tuple(m.order(k)) for k in range(nq)).__repr__())
    return None


def sized_history(n, kind):
    """a deterministic history with up to n members"""
    h = []
    prio = {
        "none": lambda i: None,
        "same": lambda i: 1,
        "up": lambda i: i,
        "down": lambda i: -i,
        "cycle": lambda i: (i * 7) % 5,
        "inf": lambda i: (inf, -inf, 0, 1e300, -0.5, True)[i % 6],
        "mixed": lambda i: None if i % 4 == 0 else (i * 5) % 7,
    }[kind]
    for i in range(n):
        p = prio(i)
        op = ("add", "append", "enter")[i % 3]
        h.append((op, 0, i) if p is None else (op, 0, i, p))
        if i % 6 == 5:
            h.append(("priority", 0, i // 2, (prio(i) or 0)))
        if i % 7 == 6:
            h.append(("leave", 0, i - 3))
    for i in range(0, n, 2):
        j = (i * 3) % n
        h.append((("pop", 0), ("pop", 0, -1), ("leave", 0, j), ("priority", 0, j, 2), ("add", 0, j), ("add_at_head", 0, j), ("add_behind", 0, j, (j + 1) % n), ("insert", 0, 3, j), ("add_sorted", 0, j, 1), ("del", 0, 4), ("delslice", 0, 1, None, 3))[(i // 2) % 11])
    return tuple(h)


def check_sized(case, st):
    """as check_history, everything observed after every operation near the end and after every 9th"""
    n, kind, capacity = case
    hist = sized_history(n, kind)
    env, qs, cs = fresh(1, n, (capacity,), False)
    number = {id(c): i for i, c in enumerate(cs)}
    ident = lambda c: None if c is None else number[id(c)]
    m = qmodel.QModel(1, n, (capacity,))
    for step, op in enumerate(hist):
        want_exc = got_exc = None
        try:
            m.op(op)
        except qmodel.QErr as e:
            want_exc = str(e)
        try:
            qmodel.real_op(op, qs, cs, env)
        except (ValueError, IndexError, sim.QueueFullError) as e:
            got_exc = type(e).__name__
        st.trans()
        if got_exc != want_exc:
            return f"step {step} {op}: raised {got_exc}, expected {want_exc}"
        if [ident(c) for c in qs[0]] != m.order(0):
            return f"after step {step} {op}: {[ident(c) for c in qs[0]]}, expected {m.order(0)}"
        if step % 9 == 0 or step == len(hist) - 1:
            want = observe_model(m, 0)
            got = observe_real(qs[0], cs, ident)
            if got != want:
                diff = {key: (got[key], want[key]) for key in want if got[key] != want[key]}
                return f"after step {step} {op}: (observed, expected) {diff}"
    st.state(case)
    st.outcome(len(m.q[0]))


def alphabet1(nc, prios, rich=True, k=0):
    ops = []
    C = range(nc)
    for c in C:
        ops.append(("add", k, c))
        for p in prios:
            ops.append(("add", k, c, p))
    for c in C:
        ops.append(("remove", k, c))
        ops.append(("add_at_head", k, c))
        for p in prios:
            ops.append(("priority", k, c, p))
    ops.append(("pop", k))
    for i in range(-nc, nc + 1):
        ops.append(("pop", k, i))
    for i in range(-1, nc + 2):
        for c in C:
            ops.append(("insert", k, i, c))
    for c, d in itertools.product(C, C):
        ops.append(("add_in_front_of", k, c, d))
        ops.append(("add_behind", k, c, d))
    ops.append(("clear", k))
    if rich:
        for c in C:
            ops.append(("append", k, c))
            ops.append(("enter", k, c))
            ops.append(("enter_at_head", k, c))
            ops.append(("leave", k, c))
            ops.append(("leave_all", k, c))
            for p in prios:
                ops.append(("append", k, c, p))
                ops.append(("enter", k, c, p))
                ops.append(("enter_sorted", k, c, p))
                ops.append(("add_sorted", k, c, p))
        for c, d in itertools.product(C, C):
            ops.append(("enter_in_front_of", k, c, d))
            ops.append(("enter_behind", k, c, d))
        ops.append(("remove_all", k))
        for i in range(-nc - 1, nc + 1):
            ops.append(("del", k, i))
        for a in ((None, None), (1, None), (None, 1), (0, -1)):
            ops.append(("delslice", k) + a)
        ops.append(("delslice", k, None, None, 2))
        ops.append(("delslice", k, None, None, -1))
        ops.append(("extend_list", k, tuple(C)))
        ops.append(("extend_list", k, tuple(reversed(C))))
    return ops


def bfs_paths(nq, nc, caps, ops, depth, extra_key=None):
    def run():
        paths, ns, nt = bfs.explore(
            lambda: qmodel.QModel(nq, nc, caps), lambda s: ops, qmodel.apply, lambda s: s.canon(), depth, extra_key=extra_key
        )
        return [(nq, nc, caps, p) for p in paths]

    return run


def check_fill(case, st):
    """a queue or store that is filled when it is created"""
    cls, order, form, cap, mon, before = case
    env = sim.Environment(trace=False)
    cs = [sim.Component(f"c{i}", env=env) for i in range(4)]
    env.run(before)
    src = sim.Queue("src", env=env)
    for k in sorted(set(order), key=order.index):
        cs[k].enter_sorted(src, 5)
    objs = [cs[k] for k in order]
    fill = {"list": objs, "tuple": tuple(objs), "generator": (o for o in objs), "queue": src, "none": None}[form]
    wanted = [] if form == "none" else list(order)
    refused = None
    if len(set(wanted)) < len(wanted):
        refused = ValueError
    elif len(wanted) > cap:
        refused = sim.QueueFullError
    try:
        q = getattr(sim, cls)("q", fill=fill, capacity=cap, monitor=mon, env=env)
    except (ValueError, sim.QueueFullError) as e:
        st.outcome("refused")
        if refused is None or not isinstance(e, refused):
            return f"refused with {type(e).__name__}: {e}"
        return
    if refused:
        return f"should be refused with {refused.__name__}"
    env.run(1)
    got = [cs.index(c) for c in q]
    st.outcome("accepted")
    st.state(case)
    for name, a, b in (
        ("contents", got, wanted),
        ("len", len(q), len(wanted)),
        ("length()", q.length(), len(wanted)),
        ("priorities", [q_c.priority(q) for q_c in q], [0] * len(wanted)),
        ("enter times", [q_c.enter_time(q) for q_c in q], [before] * len(wanted)),
        ("available_quantity", q.available_quantity(), cap - len(wanted)),
        ("capacity", q.capacity(), cap),
        ("source", [cs.index(c) for c in src], sorted(set(order), key=order.index)),
        ("arrivals", q.number_of_arrivals, len(wanted)),
        ("departures", q.number_of_departures, 0),
        ("monitored", q.length.monitor(), mon),
        ("mean length", q.length.mean() if mon else None, len(wanted) if mon else None),
        ("queues", [q in c.queues() for c in cs], [k in wanted for k in range(4)]),
    ):
        if a != b:
            return f"{name}: observed {a} expected {b}"
    first = q.pop() if len(q) else None
    if (first is None and wanted) or (first is not None and cs.index(first) != wanted[0]):
        return f"pop gives {first}"
    cs[3].enter_sorted(q, -1)
    if q.head() is not cs[3]:
        return "a component with a lower priority number is not at the head"
    st.trans(3)


def families(tier):
    th = tier == "thorough"
    fams = []
    cases = [
        (cls, order, form, cap, mon, before)
        for cls in ("Queue", "Store")
        for n in (0, 1, 2, 3)
        for order in itertools.product(range(3), repeat=n)
        for form in ("list", "tuple", "generator", "queue", "none")
        for cap in (inf, 3, 2)
        for mon in (True, False)
        for before in (0, 2)
        if not (form in ("queue", "none") and len(set(order)) < n)
    ]
    fams.append(Family("fill", cases, check_fill, "queues and stores that are filled when created: all orders of up to 3 components, every kind of iterable, capacity, monitored or not", setup))
    P = (0, 1, -1)
    fams.append(
        Family(
            "one_queue_closure",
            bfs_paths(1, 3, (inf,), alphabet1(3, P), 8),
            check_history,
            "all reachable states of 1 queue, 3 components, priorities {-1,0,1}, every operation from every state",
            setup,
        )
    )
    ops_cap = alphabet1(3, (0, 2), rich=False) + [("set_capacity", 0, 0), ("set_capacity", 0, 1), ("set_capacity", 0, 2), ("set_capacity", 0, inf)]
    ops_cap += [("extend_list", 0, (0, 1, 2)), ("enter", 0, 0), ("append", 0, 1, 0)]
    fams.append(
        Family(
            "capacity_closure",
            bfs_paths(1, 3, (2,), ops_cap, 6 if th else 5),
            check_history,
            "as above with finite, changing capacity: refused entries leave everything unchanged",
            setup,
        )
    )
    cases = [(n, k, c) for n in ((9, 17, 33, 70, 130) if not th else (9, 17, 33, 70, 130, 520)) for k in ("none", "same", "up", "down", "cycle", "inf", "mixed") for c in (inf, n // 2)]
    fams.append(Family("sizes", cases, check_sized, "histories with up to 130 (520) members, 7 patterns of priorities (infinite ones included), with and without capacity", setup))
    fams.append(
        Family(
            "odd_priorities",
            bfs_paths(1, 3, (inf,), [(o, 0, c, p) for o in ("add", "enter_sorted", "priority") for c in range(3) for p in (inf, -inf, 0, 0.5)] + [("add", 0, c) for c in range(3)] + [("add_at_head", 0, c) for c in range(3)] + [("remove", 0, c) for c in range(3)] + [("pop", 0)], 6),
            check_history,
            "infinite and fractional priorities, every operation from every reachable state",
            setup,
        )
    )
    # two queues
    ops2 = []
    for k in (0, 1):
        for c in range(3):
            ops2 += [("add", k, c), ("add", k, c, 1), ("add", k, c, -1), ("remove", k, c), ("add_at_head", k, c), ("priority", k, c, 1)]
        ops2 += [("pop", k), ("clear", k), ("extend", k, 1 - k, False), ("extend", k, 1 - k, True), ("extend", k, k, False)]
    for c in range(3):
        ops2 += [("leave_all", None, c)]
    fams.append(
        Family(
            "two_queues",
            bfs_paths(2, 3, (inf, inf), ops2, 4 if th else 3),
            check_history,
            f"2 queues, 3 components, every operation from every state reachable in {3 if th else 2} operations",
            setup,
        )
    )
    opsd = []
    for c in range(3):
        opsd += [("add", 0, c), ("add", 0, c, 1), ("add", 0, c, -1), ("add_at_head", 0, c), ("remove", 0, c), ("priority", 0, c, 1), ("priority", 0, c, 0)]
        opsd += [("insert", 0, 1, c)]
    opsd += [("pop", 0), ("pop", 0, -1), ("add_behind", 0, 2, 0), ("add_in_front_of", 0, 2, 1), ("run", None, 1)]
    fams.append(
        Family(
            "all_sequences",
            lambda: [(1, 3, (inf,), h) for h in bfs.sequences(opsd, 4 if th else 3)],
            check_history,
            f"every sequence of {4 if th else 3} operations without merging states (29 operations)",
            setup,
        )
    )
    if th:
        fams.append(
            Family(
                "one_queue_closure4",
                bfs_paths(1, 4, (inf,), alphabet1(4, P, rich=False), 10),
                check_history,
                "all reachable states of 1 queue, 4 components, 3 priorities",
                setup,
            )
        )
    return fams
