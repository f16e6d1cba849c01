"""C07: reading a queue (indexing, slicing, iteration under mutation, set algebra)."""

import itertools
import math

from mc import bfs, qmodel
from mc.core import Family, load_salabim

inf = math.inf
PROPERTY = "C07"
ASSUMPTIONS = [
    "queues of at most 5 members, mutation scripts of at most 2-3 mutations during one iteration",
    "iteration over internal queues and stores while components enter is not part of the claim",
]


def setup():
    global sim, env
    sim = load_salabim()
    sim.yieldless(True)
    env = None


_n = [0]


def get_env():
    global env
    if env is None or _n[0] > 200:
        env = sim.Environment(trace=False)
        _n[0] = 0
    _n[0] += 1
    return env


def check_slices(case, st):
    n, slices = case
    e = get_env()
    q = sim.Queue("q", env=e)
    cs = [sim.Component(f"c{i}", env=e) for i in range(n)]
    for c in cs:
        q.add(c)
    ref = list(cs)
    for a, b, s in slices:
        got = q[a:b:s]
        if [id(x) for x in got] != [id(x) for x in ref[a:b:s]]:
            return f"q[{a}:{b}:{s}] of {n} members gives {[x.name() for x in got]}, expected {[x.name() for x in ref[a:b:s]]}"
        st.trans()
        st.state((n, a, b, s, len(got)))
        # deletion of a slice
    for a, b, s in slices:
        q2 = q.copy("q2")
        del q2[a:b:s]
        ref2 = list(cs)
        del ref2[a:b:s]
        if [id(x) for x in q2] != [id(x) for x in ref2] or len(q2) != len(ref2):
            return f"del q[{a}:{b}:{s}] of {n} members leaves {[x.name() for x in q2]}, expected {[x.name() for x in ref2]}"
        st.trans()
        q2.clear()
    for i in range(-n - 2, n + 2):
        for what in ("get", "pop", "del"):
            try:
                want = ref[i]
            except IndexError:
                want = "IndexError"
            q2 = q.copy("q2")
            try:
                if what == "get":
                    got = q2[i]
                elif what == "pop":
                    got = q2.pop(i)
                else:
                    del q2[i]
                    got = want
            except IndexError:
                got = "IndexError"
            if got is not want:
                return f"{what} index {i} of {n} members gives {got}, expected {want}"
            left = list(q2)
            exp = list(cs)
            if what != "get" and want != "IndexError":
                exp.remove(want)
            if [id(x) for x in left] != [id(x) for x in exp]:
                return f"{what} index {i} of {n} members leaves {left}"
            q2.clear()
            st.trans()
    for bad in ("a", 1.5, None):
        try:
            q[bad]
            return f"q[{bad!r}] accepted"
        except TypeError:
            pass
    for c in cs:
        if q.component_with_name(c.name()) is not c:
            return f"component_with_name({c.name()}) wrong"
    if q.component_with_name("nobody") is not None:
        return "component_with_name('nobody') found something"
    if q.as_list() != ref or q.as_set() != set(ref):
        return "as_list/as_set wrong"
    q.clear()
    return None


# ---------------------------------------------------------------------------------------------------- iteration
def mut_ops(nc):
    ops = [None]
    for c in range(nc):
        ops += [("remove", 0, c), ("add", 0, c), ("add_at_head", 0, c), ("add", 0, c, 0), ("add", 0, c, 2), ("priority", 0, c, 2), ("priority", 0, c, 0)]
    ops += [("pop", 0), ("clear", 0)]
    return ops


def model_iteration(nc, start, direction, script):
    """returns the list of yielded components; script[i] is applied just after the i-th yield"""
    m = qmodel.QModel(1, nc)
    member = {}  # component -> membership number
    count = 0
    for c, p in start:
        m.add(0, c, p)
        count += 1
        member[c] = count
    visited = set()
    out = []
    while True:
        order = m.order(0)
        if direction < 0:
            order = order[::-1]
        for c in order:
            if member[c] not in visited:
                break
        else:
            break
        visited.add(member[c])
        out.append(c)
        i = len(out) - 1
        op = script[i] if i < len(script) else None
        if op is not None:
            before = set(m.order(0))
            try:
                m.op(op)
            except qmodel.QErr:
                out.append("ValueError")
                visited_marker = True
                break
            for c2 in m.order(0):
                if c2 not in before:
                    count += 1
                    member[c2] = count
        if len(out) > 40 + 2 * nc:
            break
    return out, m


def check_iteration(case, st):
    nc, start, direction, script = case
    want, m = model_iteration(nc, start, direction, script)
    e = get_env()
    q = sim.Queue("q", env=e)
    cs = [sim.Component(f"c{i}", env=e) for i in range(nc)]
    number = {id(c): i for i, c in enumerate(cs)}
    for c, p in start:
        cs[c].enter(q, p)
    got = []
    try:
        for c in q if direction > 0 else reversed(q):
            got.append(number[id(c)])
            i = len(got) - 1
            op = script[i] if i < len(script) else None
            if op is not None:
                qmodel.real_op(op, [q], cs, e)
            if len(got) > 40 + 2 * nc:
                break
    except ValueError:
        got.append("ValueError")
    st.trans(len(got) + 1)
    if got != want:
        return f"iterating {'forward' if direction>0 else 'backward'} over {start} with mutations {script} yields {got}, expected {want}"
    order = [number[id(c)] for c in q]
    if order != m.order(0):
        return f"queue is {order} after the iteration, expected {m.order(0)}"
    st.state((m.canon(), tuple(want)))
    st.outcome(repr(tuple(want)))
    for c in cs:
        c.leave()
    return None


def iteration_cases(nc, length, nmut):
    starts = [
        (),
        ((0, 1),),
        ((0, 1), (1, 1)),
        ((0, 0), (1, 1), (2, 2)),
        ((2, 1), (0, 1), (1, 1)),
    ]
    ops = mut_ops(nc)
    cases = []
    for nonnull in range(nmut + 1):
        for pos in itertools.combinations(range(length), nonnull):
            for choice in itertools.product(ops[1:], repeat=nonnull):
                script = [None] * length
                for p, o in zip(pos, choice):
                    script[p] = o
                for start in starts[1:]:
                    if pos and pos[0] >= len(start):
                        continue
                    for direction in (1, -1):
                        cases.append((nc, start, direction, tuple(script)))
    return cases


def size_cases(th):
    """longer queues: one or two mutations near the beginning, the middle, the tenth yield and the end"""
    cases = []
    for n in (7, 11, 17, 33) + ((64, 100) if th else ()):
        start = tuple((i, (0, 0, 1, 1, 1, 2)[i * 6 // n]) for i in range(n))
        at = sorted({0, 1, 5, 9, 10, 11, n // 2, n - 2, n - 1} & set(range(n)))
        ops = [("pop", 0), ("add_at_head", 0, n), ("add", 0, n), ("add", 0, n + 1, 1), ("remove", 0, 0), ("remove", 0, n // 2), ("remove", 0, n - 1), ("priority", 0, 0, 2), ("priority", 0, n // 2, 0), ("priority", 0, n - 1, 0), ("clear", 0)]
        for direction in (1, -1):
            cases.append((n + 2, start, direction, ()))
            for p in at:
                for o in ops:
                    cases.append((n + 2, start, direction, (None,) * p + (o,)))
                    if p + 1 < n:
                        for o2 in ops:
                            if o2 != o:
                                cases.append((n + 2, start, direction, (None,) * p + (o, o2)))
    return cases


def check_big(case, st):
    """slices, indices and set algebra of longer queues; names and types of the results"""
    n, m, sub = case
    e = sim.Environment(trace=False)
    cls = type("MyQueue", (sim.Queue,), {}) if sub else sim.Queue
    cs = [sim.Component("c.", env=e) for i in range(n + m)]
    qa, qb = cls("qa", env=e), cls("qb", env=e)
    A = cs[:n]
    for c in A:
        qa.add(c)
    B = [c for i, c in enumerate(reversed(cs)) if i % 3]
    for c in B:
        qb.add(c)
    edge = [None] + sorted({0, 1, 2, 9, 10, 11, n // 2, n - 1, n, n + 1, n + 20, -1, -2, -10, -n, -n - 1, -n + 1})
    for a, b in itertools.product(edge, repeat=2):
        for s in (None, 1, 2, 7, -1, -3):
            st.trans()
            if qa[a:b:s] != A[a:b:s]:
                return f"q[{a}:{b}:{s}] of {n} members is wrong"
    for i in edge[1:]:
        try:
            want = A[i]
        except IndexError:
            want = None
        try:
            got = qa[i]
        except IndexError:
            got = None
        if got is not want:
            return f"q[{i}] of {n} members gives {got}"
        if want is not None and (qa.index(want) != A.index(want) or want.index(qa) != A.index(want) or qa.component_with_name(want.name()) is not want or qa.successor(want) is not (A + [None])[A.index(want) + 1] or qa.predecessor(want) is not ([None] + A)[A.index(want)]):
            return f"index, component_with_name, successor or predecessor of member {i} of {n}"
    if list(qa) != A or list(reversed(qa)) != A[::-1] or len(qa) != n or [c in qa for c in cs] != [c in A for c in cs] or [qa.count(c) for c in cs] != [A.count(c) for c in cs]:
        return f"iteration, length or containment of {n} members"
    for name, q, want, qn in (
        ("union", qa.union(qb), A + [c for c in B if c not in A], "qa | qb"),
        ("|", qa | qb, A + [c for c in B if c not in A], "qa | qb"),
        ("intersection", qa.intersection(qb), [c for c in A if c in B], "qa & qb"),
        ("&", qa & qb, [c for c in A if c in B], "qa & qb"),
        ("difference", qa.difference(qb), [c for c in A if c not in B], "qa - qb"),
        ("-", qa - qb, [c for c in A if c not in B], "qa - qb"),
        ("symmetric_difference", qa.symmetric_difference(qb), [c for c in A if c not in B] + [c for c in B if c not in A], "qa ^ qb"),
        ("^", qa ^ qb, [c for c in A if c not in B] + [c for c in B if c not in A], "qa ^ qb"),
        ("copy", qa.copy(), A, "copy of qa"),
        ("union named", qa.union(qb, "u"), A + [c for c in B if c not in A], "u"),
        ("intersection named", qa.intersection(qb, "i"), [c for c in A if c in B], "i"),
        ("difference named", qa.difference(qb, "d"), [c for c in A if c not in B], "d"),
        ("symmetric_difference named", qa.symmetric_difference(qb, "s"), [c for c in A if c not in B] + [c for c in B if c not in A], "s"),
        ("copy named", qa.copy("c"), A, "c"),
    ):
        st.trans()
        if list(q) != want or len(q) != len(want):
            return f"{name} of {n} and {len(B)} members gives {len(q)} members: {[c.sequence_number() for c in q]}, expected {[c.sequence_number() for c in want]}"
        if q.name() != qn:
            return f"{name} has name {q.name()}, expected {qn}"
        if type(q) is not cls:
            return f"{name} of two {cls.__name__}s is a {type(q).__name__}"
        q.clear()
    if (qa < qb, qa <= qb, qa == qb, qa > qb, qa >= qb) != (set(A) < set(B), set(A) <= set(B), set(A) == set(B), set(A) > set(B), set(A) >= set(B)):
        return "comparisons"
    qa.extend(qb)
    if list(qa) != A + [c for c in B if c not in A]:
        return "extend"
    q = qa.move("z")
    if list(q) != A + [c for c in B if c not in A] or len(qa) or type(q) is not cls:
        return "move"
    st.state((n, m, sub))
    return None


def check_nested(case, st):
    """two iterators over the same queue, mutation inside the inner one"""
    n, op = case
    e = get_env()
    q = sim.Queue("q", env=e)
    cs = [sim.Component(f"c{i}", env=e) for i in range(n + 1)]
    number = {id(c): i for i, c in enumerate(cs)}
    for c in cs[:n]:
        c.enter(q, 1)
    m = qmodel.QModel(1, n + 1)
    for i in range(n):
        m.add(0, i, 1)
    got = []
    done = False
    for c in q:
        for d in q:
            got.append((number[id(c)], number[id(d)]))
            if not done and op is not None:
                done = True
                qmodel.real_op(op, [q], cs, e)
    want = []
    visited = []
    done = False
    while True:
        rest = [x for x in m.order(0) if x not in visited]
        if not rest:
            break
        c = rest[0]
        visited.append(c)
        v2 = []
        while True:
            rest2 = [x for x in m.order(0) if x not in v2]
            if not rest2:
                break
            d = rest2[0]
            v2.append(d)
            want.append((c, d))
            if not done and op is not None:
                done = True
                m.op(op)
    st.trans(len(got))
    st.outcome(repr(want))
    if got != want:
        return f"nested iteration with {op}: {got}, expected {want}"
    for c in cs:
        c.leave()
    return None


# ---------------------------------------------------------------------------------------------------- set algebra
def contents(nc, prios):
    out = []
    for k in range(nc + 1):
        for perm in itertools.permutations(range(nc), k):
            for p in itertools.combinations_with_replacement(prios, k):
                out.append(tuple(zip(perm, p)))
    return out


def check_algebra(case, st):
    nc, a, b = case
    e = get_env()
    cs = [sim.Component(f"c{i}", env=e) for i in range(nc)]
    number = {id(c): i for i, c in enumerate(cs)}
    qa, qb = sim.Queue("qa", env=e), sim.Queue("qb", env=e)
    for c, p in a:
        cs[c].enter(qa, p)
    for c, p in b:
        cs[c].enter(qb, p)
    A = [c for c, p in a]
    B = [c for c, p in b]

    def snap(q):
        return [(number[id(c)], c.priority(q)) for c in q]

    union = [(c, 0) for c in A + [c for c in B if c not in A]]
    inter = [(c, 0) for c in A if c in B]
    diff = [(c, p) for c, p in a if c not in B]
    symd = [(c, 0) for c in A if c not in B] + [(c, 0) for c in B if c not in A]
    results = [
        ("union", qa.union(qb), union),
        ("|", qa | qb, union),
        ("+", qa + qb, union),
        ("sum", sum([qa, qb]), union),
        ("intersection", qa.intersection(qb), inter),
        ("&", qa & qb, inter),
        ("difference", qa.difference(qb), diff),
        ("-", qa - qb, diff),
        ("symmetric_difference", qa.symmetric_difference(qb), symd),
        ("^", qa ^ qb, symd),
        ("copy", qa.copy(), list(a)),
        ("copy_capacity", qa.copy(copy_capacity=True), list(a)),
    ]
    for name, q, want in results:
        st.trans()
        got = snap(q)
        if got != want:
            return f"{name} of {a} and {b} gives {got}, expected {want}"
        if len(q) != len(want) or q.length() != len(want) or [number[id(c)] for c in reversed(q)] != [c for c, p in want][::-1]:
            return f"{name} of {a} and {b}: length {len(q)}, {q.length()}"
        for c, p in want:
            if not any(x is q for x in cs[c].queues()) or cs[c] not in q:
                return f"{name}: component {c} does not know it is in the result"
        if snap(qa) != list(a) or snap(qb) != list(b):
            return f"{name} altered an operand"
    for name, q, want in results:
        q.clear()
        if snap(qa) != list(a) or snap(qb) != list(b):
            return f"clearing the result of {name} altered an operand"
    SA, SB = set(A), set(B)
    LB = [cs[c] for c in B]
    for name, got, want in (
        ("==", qa == qb, SA == SB),
        ("!=", qa != qb, SA != SB),
        ("<", qa < qb, SA < SB),
        ("<=", qa <= qb, SA <= SB),
        (">", qa > qb, SA > SB),
        (">=", qa >= qb, SA >= SB),
        ("== list", qa == LB, SA == SB),
        ("!= list", qa != LB, SA != SB),
    ):
        st.trans()
        if got != want:
            return f"{a} {name} {b} gives {got}, expected {want}"
    for cap in (len(a), len(a) + 1, inf):
        qa.set_capacity(cap)
        q = qa.copy("x", copy_capacity=True)
        if q.capacity() != cap or q.available_quantity() != cap - len(a):
            return f"copy_capacity: capacity {q.capacity()} available {q.available_quantity()}, expected {cap}, {cap-len(a)}"
        q.clear()
        q = qa.copy("y")
        if q.capacity() != inf or q.available_quantity() != inf:
            return f"copy without copy_capacity: capacity {q.capacity()}"
        q.clear()
    q = qa.move("z")
    if snap(q) != list(a) or len(qa) != 0 or list(qa) != [] or qa.capacity() != inf:
        return f"move gives {snap(q)} and leaves {snap(qa)}"
    st.state((a, b))
    st.outcome((len(union), len(inter)).__repr__())
    for c in cs:
        c.leave()
    return None


def families(tier):
    th = tier == "thorough"
    fams = []
    vals = [None] + list(range(-7, 8)) if th else [None] + list(range(-5, 6))
    steps = [None, 1, 2, 3, -1, -2, -3]
    allsl = list(itertools.product(vals, vals, steps))

    def slice_cases():
        out = []
        for n in range(0, 6 if th else 5):
            for i in range(0, len(allsl), 60):
                out.append((n, tuple(allsl[i : i + 60])))
        return out

    fams.append(Family("slices", slice_cases, check_slices, "all slices start/stop within +-5 (7), steps +-1..3 and all indices, queues of 0..4 (5) members", setup))
    fams.append(
        Family(
            "iteration",
            lambda: iteration_cases(3, 4, 3 if th else 2),
            check_iteration,
            "forward/backward iteration with at most 2 (3) mutations placed at every combination of the first 4 yields",
            setup,
        )
    )
    fams.append(
        Family(
            "nested_iteration",
            lambda: [(n, op) for n in (1, 2, 3) for op in [None] + [o for o in mut_ops(n + 1)[1:] if _legal(n, o)]],
            check_nested,
            "two simultaneous iterators over one queue",
            setup,
        )
    )
    fams.append(Family("sizes", lambda: size_cases(th), check_iteration, "queues of 7..33 (100) members iterated forward and backward with 1-2 mutations", setup))
    fams.append(Family("big", lambda: [(n, m, s) for n in (0, 1, 6, 9, 10, 11, 16, 33, 65) for m in (0, 1, 5, 12) for s in (False, True)], check_big, "queues of up to 65 members: slices, indices, set algebra, names and classes of the results", setup))
    C = contents(3, (0, 1))
    fams.append(
        Family("algebra", lambda: [(3, a, b) for a in C for b in C], check_algebra, "all pairs of queue contents over 3 components and 2 priorities", setup)
    )
    return fams


def _legal(n, op):
    m = qmodel.QModel(1, n + 1)
    for i in range(n):
        m.add(0, i, 1)
    try:
        m.op(op)
        return True
    except qmodel.QErr:
        return False
