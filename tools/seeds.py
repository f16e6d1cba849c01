"""Planted bugs (definitions); `python3 tools/seeds.py [id ...]` validates them in a scratch copy and writes /verif/seeded."""
import sys
from seedlib import seed

S = {}


def bug(id, prop, pairs, needs, breaks, demo):
    S[id] = (prop, pairs, needs, breaks, demo)


bug(
    "B01_heap",
    "C01",
    [
        (
            """                    self.env._event_list[i] = self.env._event_list[0]
                    self.env._event_list.pop(0)
                    heapq.heapify(self.env._event_list)
""",
            """                    last = self.env._event_list.pop()
                    if i < len(self.env._event_list):
                        self.env._event_list[i] = last
                        heapq._siftup(self.env._event_list, i)
""",
        )
    ],
    "removal (by reschedule/cancel) of an event in a sub heap whose parent is larger than the last element: at least 6 pending events",
    "the event heap is not a heap anymore, so events are executed out of order",
    """
import random

for seed in range(300):
    r = random.Random(seed)
    env = sim.Environment(yieldless=False)
    log = []
    class X(sim.Component):
        def process(self):
            log.append((self.env.now(), self.sequence_number()))
            return
            yield
    times = [r.randint(1, 90) for _ in range(30)]
    xs = [X(at=t) for t in times]
    victim = r.randrange(30)
    xs[victim].cancel()
    env.run()
    want = sorted((t, i) for i, t in enumerate(times) if i != victim)
    assert [t for t, i in log] == [t for t, i in want], (times, victim, log)
    assert log == want, (times, victim, log)
""",
)
bug(
    "B02_resume",
    "C03",
    [
        (
            """            self._interrupt_level -= 1
            if self._interrupt_level and (not all):
""",
            """            self._interrupt_level -= 1
            if self._interrupt_level == 1:
                self._remaining_duration = max(self._remaining_duration, 0)
            if self._interrupt_level and (not all):
""",
        ),
        (
            """            self._interrupt_level += 1
            extra = "." + str(self._interrupt_level)
""",
            """            self._interrupt_level += 1
            self._remaining_duration = min(self._remaining_duration, self._remaining_duration - (self.env._now - self.status._t[-1]))
            extra = "." + str(self._interrupt_level)
""",
        ),
    ],
    "a second, nested interrupt, later than the first one",
    "the remaining duration runs down between nested interrupts",
    """
env = sim.Environment(yieldless=False)
class X(sim.Component):
    def process(self):
        yield self.hold(10)
        done.append(env.now())
done = []
x = X()
env.run(2)
x.interrupt()
env.run(3)
x.interrupt()
env.run(1)
x.resume()
env.run(1)
x.resume()
env.run()
assert done == [15], done
""",
)
bug(
    "B03_standby",
    "C04",
    [
        (
            """            if self in self.env._standbylist:
                self.env._standbylist.remove(self)
            if self in self.env._pendingstandbylist:
                self.env._pendingstandbylist.remove(self)
""",
            """            for standbylist in (self.env._standbylist, self.env._pendingstandbylist):
                for i, c in enumerate(standbylist):
                    if c is self:
                        del standbylist[i:]
                        break
""",
        )
    ],
    "a standby component that is rescheduled by another process while others became standby after it",
    "the components behind the removed one in the standby list are forgotten",
    """
class S(sim.Component):
    def process(self):
        while True:
            yield self.standby()
            log.append((env.now(), self.sequence_number()))
class K(sim.Component):
    def process(self):
        yield self.hold(1)
        s[victim].cancel()
        yield self.hold(1)
        yield self.hold(1)
for victim in range(3):
    env = sim.Environment(yieldless=False)
    log = []
    s = [S() for _ in range(3)]
    K()
    env.run()
    assert {i for t, i in log if t == 3} == {0, 1, 2} - {victim}, log
""",
)
bug(
    "B04_priority",
    "C06",
    [
        (
            """                while (m2 != q._tail) and (m2.priority <= priority):
                    m2 = m2.successor

                m1 = m2.predecessor
                m1.successor = mx
""",
            """                while (m2 != q._tail) and (m2.priority < priority or m2.priority == priority > mx.priority):
                    m2 = m2.successor

                m1 = m2.predecessor
                m1.successor = mx
""",
        )
    ],
    "a priority that is lowered to or raised to that of another member",
    "not FIFO among equal priorities",
    """
env = sim.Environment(yieldless=False)
for pa, pb, new in ((1, 2, 1), (2, 1, 1), (1, 2, 2), (3, 1, 1), (0, 0, 0)):
    q = sim.Queue("q")
    a, b, c = (sim.Component(n) for n in "abc")
    q.add_sorted(a, 1)
    q.add_sorted(b, 2)
    q.add_sorted(c, 3)
    for x, p in ((a, pa), (b, pb), (c, new)):
        before = [y for y in q if y is not x]
        old = x.priority(q)
        x.priority(q, p)
        if p != old:
            want = [y for y in before if y.priority(q) <= p] + [x] + [y for y in before if y.priority(q) > p]
            assert list(q) == want, (pa, pb, new, [y.name() for y in q], [y.name() for y in want])
""",
)

bug(
    "B05_minq",
    "C10",
    [
        (
            """                self.leave(r._requesters)
                if r._requesters._length == 0:
                    r._minq = inf

            self._requests = collections.OrderedDict()
            self._remove()
""",
            """                self.leave(r._requesters)
                r._minq = r._requesters[0]._requests[r] if r._requesters._length else inf

            self._requests = collections.OrderedDict()
            self._remove()
""",
        )
    ],
    "a request is honored while at least two others wait, of which the first one for the larger quantity",
    "the smallest requested quantity is overestimated, so a release does not wake up a request that fits",
    """
env = sim.Environment(yieldless=False)
r = sim.Resource("r", capacity=3)
got = []
class X(sim.Component):
    def setup(self, q):
        self.q = q
    def process(self):
        yield self.request((r, self.q))
        got.append(self.q)
        yield self.passivate()
class H(sim.Component):
    def process(self):
        yield self.request((r, 3))
        yield self.hold(2)
        self.release((r, 1))
        yield self.passivate()
for qs in ((2, 3), (1, 2), (1, 3), (1, 1), (2, 1), (1, 2, 3), (2, 2, 3), (1, 1, 2), (1, 3, 2), (1, 3, 1)):
    env = sim.Environment(yieldless=False)
    r = sim.Resource("r", capacity=3)
    got = []
    H()
    for q in qs:
        X(q=q, delay=1)
    env.run(10)
    assert got == ([1] if 1 in qs else []), (qs, got)
    for c in r.claimers():
        if isinstance(c, H):
            c.release()
    env.run(10)
    want = []
    for q in ([1] if 1 in qs else []):
        want.append(q)
    left = 3 - sum(want)
    todo = list(qs)
    for q in want:
        todo.remove(q)
    for q in todo:
        if q <= left:
            left -= q
            want.append(q)
    assert got == want, (qs, got, want)
""",
)
bug(
    "B06_bump",
    "C11",
    [
        (
            """                    if priority >= c.priority(this_claimers):
                        break
                    av += c.claimed_quantity(r)""",
            """                    if priority >= c.priority(this_claimers):
                        continue
                    if c.claimed_quantity(r) > q:
                        continue
                    av += c.claimed_quantity(r)""",
        )
    ],
    "a claimer with a lower priority that claims more than what is requested by the more important one",
    "such a claimer is not bumped, so the important request has to wait",
    """
env = sim.Environment(yieldless=False)
r = sim.Resource("r", capacity=4, preemptive=True)
log = []
class X(sim.Component):
    def setup(self, q, p):
        self.q = q
        self.p = p
    def process(self):
        yield self.request((r, self.q, self.p))
        log.append((env.now(), self.q, self.p))
        yield self.hold(10)
        if self.isclaiming(r):
            self.release(r)
X(q=3, p=2)
X(q=2, p=1, delay=1)
env.run(5)
assert log == [(0, 3, 2), (1, 2, 1)], log
""",
)
bug(
    "B07_anon",
    "C12",
    [
        (
            """                    c._tryrequest()
                    if c not in self._requesters:
                        mx = self._requesters._head.successor  # start again
""",
            """                    if c._tryrequest() and mx != self._requesters._tail:
                        mx = self._requesters._head.successor  # start again
""",
        )
    ],
    "a put, last in the queue of requesters, that makes a get possible of a component that is in front of it",
    "the earlier requester is not tried again, although it can be honored now",
    """
class P(sim.Component):
    def setup(self, q):
        self.q = q
    def process(self):
        yield self.get((r, self.q)) if self.q > 0 else self.put((r, -self.q))
        got.append(self.q)
env = sim.Environment(yieldless=False)
r = sim.Resource("r", capacity=2, anonymous=True, initial_claimed_quantity=1)
got = []
P(q=2)
P(q=-2)
P(q=1)
env.run(1)
assert got == [1, -2, 2], got
""",
)
bug(
    "B08_trigger",
    "C13",
    [
        (
            """            c = mx.component
            mx = mx.successor
            if c._trywait():
                max -= 1
""",
            """            c = mx.component
            mx = mx.successor
            if not c.env._current_component is c and c._trywait():
                max -= 1
                if max == 1 and mx.priority != 0 and mx != self._waiters._tail:
                    max = 0
""",
        )
    ],
    "trigger with max=2 and waiters with a non zero priority",
    "too few waiters are released",
    """
for prios in ((0, 0, 0), (0, 1, 1), (-1, 0, 0), (-2, -1, 0), (1, 2, 3)):
    for m in (1, 2, 3):
        env = sim.Environment(yieldless=False)
        s = sim.State("s")
        got = []
        class X(sim.Component):
            def setup(self, p):
                self.p = p
            def process(self):
                yield self.wait((s, True, self.p))
                got.append(self.p)
        for p in prios:
            X(p=p)
        env.run(1)
        s.trigger(max=m)
        env.run(1)
        assert got == list(prios)[:m], (prios, m, got)
""",
)
bug(
    "B09_waitall",
    "C13",
    [
        (
            """                    elif valuetype == 1:
                        if not eval(value.replace("$", "state._value")):
                            honored = False
                            break
                    elif valuetype == 2:
                        if not value(state._value, self, state):
""",
            """                    elif valuetype == 1:
                        if not eval(value.replace("$", "state._value", 1).replace("$", "self._waits[0][0]._value")):
                            honored = False
                            break
                    elif valuetype == 2:
                        if not value(state._value, self, state):
""",
        )
    ],
    "wait for all, with a condition that mentions $ twice, on a state that is not the first one",
    "the second $ refers to the first state",
    """
for v in range(6):
    env = sim.Environment(yieldless=False)
    s0 = sim.State("s0", value=0)
    s1 = sim.State("s1", value=v)
    got = []
    class X(sim.Component):
        def process(self):
            yield self.wait((s0, 0), (s1, "$ > 1 and $ < 4"), all=True)
            got.append(1)
    X()
    env.run(1)
    assert bool(got) == (1 < v < 4), v
""",
)
bug(
    "B10_store",
    "C14",
    [
        (
            """                    for store0 in requester._from_stores:
                        requester.leave(store0._from_store_requesters)
                    requester._from_stores = []
                    c.leave(store)  # this might cause a to_store requester to be honored
""",
            """                    for store0 in requester._from_stores:
                        requester.leave(store0._from_store_requesters)
                    c.leave(store)  # this might cause a to_store requester to be honored
                    requester._from_stores = []
                    if c.env._now == requester.status._t[-1] and len(store) and requester._from_store_filter(store[0]):
                        c = store[0]
                        c.leave(store)
""",
        )
    ],
    "an item that enters at the very moment that the requester started to wait, with another acceptable item in the store",
    "two items are taken from the store, one gets lost",
    """
env = sim.Environment(yieldless=False)
st = sim.Store("st")
a, b, d = (sim.Component(n) for n in "abd")
flag = [False]
a.enter(st)
got = []
class C(sim.Component):
    def process(self):
        item = yield self.from_store(st, filter=lambda c: flag[0])
        got.append(item.name())
C()
class P(sim.Component):
    def process(self):
        flag[0] = True
        yield self.to_store(st, b)
P()
env.run(5)
assert sorted(got + [c.name() for c in st]) == ["a", "b"], (got, [c.name() for c in st])
""",
)
bug(
    "B11_to_store",
    "C14",
    [
        (
            """        if cap >= old_cap:
            self._rescan_to()
""",
            """        if cap - old_cap >= 1 and self.available_quantity() == cap - old_cap:
            self._rescan_to()
""",
        )
    ],
    "the capacity is lowered below the number of items and later raised again, with a waiting to_store",
    "the waiting to_store is not honored although there is room",
    """
env = sim.Environment(yieldless=False)
st = sim.Store("st", capacity=3)
items = [sim.Component(f"i{k}") for k in range(4)]
for x in items[:2]:
    x.enter(st)
st.set_capacity(1)
done = []
class P(sim.Component):
    def process(self):
        yield self.to_store(st, items[2])
        done.append(env.now())
P()
env.run(1)
assert not done
st.set_capacity(3)
env.run(1)
assert done == [1], done
""",
)
bug(
    "B12_residue",
    "C15",
    [
        (
            """            for state, _, _ in self._waits:
                if self in state._waiters:  # there might be more values for this state
                    self.leave(state._waiters)
            self._waits = []
            self._failed = True
""",
            """            for state, _, _ in self._waits[:1] if self._wait_all else self._waits:
                if self in state._waiters:  # there might be more values for this state
                    self.leave(state._waiters)
            self._waits = []
            self._failed = True
""",
        )
    ],
    "a wait with all=True for at least two states, that fails or is cancelled",
    "the component stays in the waiters of the second state",
    """
env = sim.Environment(yieldless=False)
s = [sim.State(f"s{k}") for k in range(3)]
class X(sim.Component):
    def process(self):
        yield self.wait(*s, all=True, fail_delay=1)
        yield self.hold(5)
x = X()
env.run(2)
assert [len(y.waiters()) for y in s] == [0, 0, 0]
""",
)
bug(
    "B13_fail_delay",
    "C15",
    [
        (
            """            self._requests = collections.OrderedDict()
            self._remove()
            honoredstr""",
            """            self._requests = collections.OrderedDict()
            if self._scheduled_time - self.env._now > 1e-6:
                self._remove()
            else:
                self._on_event_list = False
            honoredstr""",
        )
    ],
    "a request that is honored at the very moment of its fail time, before the fail event itself is handled",
    "the fail event stays on the event list, so the component is activated twice",
    """
env = sim.Environment(yieldless=False)
r = sim.Resource("r")
log = []
class A(sim.Component):
    def process(self):
        yield self.request(r)
        yield self.hold(2, priority=-1)
        self.release(r)
class B(sim.Component):
    def process(self):
        yield self.request(r, fail_delay=2)
        log.append((env.now(), self.failed()))
        yield self.hold(3)
        log.append((env.now(), "done"))
A()
B()
env.run()
assert log == [(2, False), (5, "done")], log
""",
)
bug(
    "B14_levelcache",
    "C16",
    [
        (
            """                if self._monitor:
                    t = self.env._now
                    if self._t[-1] == t:
                        self._x[-1] = value
                    else:
                        self._x.append(value)
                        self._t.append(t)
            else:
                if self._monitor:
                    if weight == 1:
""",
            """                if self._monitor:
                    t = self.env._now
                    if self._t[-1] == t:
                        self._x[-1] = value
                        if len(self._x) > 1 and self._x[-2] == value and self._t[-2] != self.start:
                            del self._x[-1], self._t[-1]
                    elif self._x[-1] != value or self._t[-1] == self.start:
                        self._x.append(value)
                        self._t.append(t)
            else:
                if self._monitor:
                    if weight == 1:
""",
        )
    ],
    "the same value tallied again later (or the value restored within the same moment), later than the start",
    "tx() and the number of changes lack entries (xt of the recorded path is not what was tallied)",
    """
env = sim.Environment(yieldless=False)
m = sim.Monitor("m", level=True)
for t, v in ((1, 5), (2, 5), (3, 6), (4, 6)):
    env.run(till=t)
    m.tally(v)
env.run(till=5)
assert tuple(map(list, m.tx(add_now=False))) == ([0, 1, 2, 3, 4], [0, 5, 5, 6, 6]), m.tx(add_now=False)
""",
)
bug(
    "B15_weight",
    "C17",
    [
        (
            """                        if self._weight:
                            self._weight.append(weight)
                    else:
                        if not self._weight:
                            self._weight = array.array("d", (1,) * len(self._x))
                        self._weight.append(weight)
                    self._x.append(value)
                    self._t.append(self.env._now)
""",
            """                        if self._weight:
                            self._weight.append(weight)
                    else:
                        if not self._weight:
                            self._weight = array.array("d", (1,) * len(self._x))
                        self._weight.append(int(weight) if weight > 100 else weight)
                    self._x.append(value)
                    self._t.append(self.env._now)
""",
        )
    ],
    "a fractional weight over 100",
    "the weight is truncated, so all weighted statistics are off",
    """
env = sim.Environment(yieldless=False)
m = sim.Monitor("m")
m.tally(1, 100.5)
m.tally(2, 0.5)
assert abs(m.weight() - 101) < 1e-9, m.weight()
assert abs(m.mean() - 101.5 / 101) < 1e-12
""",
)
bug(
    "B16_percentile",
    "C18",
    [
        (
            """            for k in range(n):
                if weight_cum[k + 1] > q:
                    break
""",
            """            for k in range(n):
                if weight_cum[k + 1] >= q:
                    break
""",
        )
    ],
    "an unweighted percentile that falls exactly on a data point, with an interpolation other than linear or higher",
    "lower, midpoint and nearest give another value than the data point",
    """
env = sim.Environment(yieldless=False)
m = sim.Monitor("m")
for x in (1, 2, 4, 8, 16):
    m.tally(x)
for q, x in ((25, 2), (50, 4), (75, 8)):
    for i in ("linear", "lower", "higher", "midpoint", "nearest"):
        assert m.percentile(q, interpolation=i) == x, (q, i, m.percentile(q, interpolation=i))
""",
)
bug(
    "B17_merge_off",
    "C19",
    [
        (
            """                sum = 0
                for xi in curx:
                    if xi == new.off:
                        sum = new.off
                        break
                    sum += xi
""",
            """                sum = new.off if curx[index] == new.off else 0
                for xi in curx:
                    if xi == new.off and sum == new.off:
                        break
                    if xi != new.off:
                        sum += xi
""",
        )
    ],
    "merge of level monitors of which one is off while another one changes",
    "the merged monitor is on although one of its parts is off",
    """
env = sim.Environment(yieldless=False)
a = sim.Monitor("a", level=True)
b = sim.Monitor("b", level=True)
a.tally(1)
b.tally(10)
env.run(1)
a.monitor(False)
env.run(1)
b.tally(20)
env.run(1)
a.monitor(True)
env.run(1)
m = a.merge(b)
assert m.duration() == 2, m.duration()
assert m.mean() == 16, m.mean()
""",
)
bug(
    "B18_slice",
    "C19",
    [
        (
            """                    if new._t[-1] == t:
                        new._x[-1] = curx
                    else:
                        if new._x[-1] != curx:
                            new._t.append(t)
                            new._x.append(curx)
                elif type""",
            """                    if new._t[-1] == t:
                        new._x[-1] = curx
                    else:
                        if new._x[-1] != curx and (modulo is None or t >= self._t[-1] or t not in self._t):
                            new._t.append(t)
                            new._x.append(curx)
                elif type""",
        )
    ],
    "a modulo slice where a period starts exactly at a moment of a tally of the value it had already",
    "the part of the period up to the next change is lost",
    """
env = sim.Environment(yieldless=False)
m = sim.Monitor("m", level=True)
m.tally(3)
for t in range(1, 7):
    env.run(till=t)
    m.tally(3 if t % 2 else 3)
s = m.slice(1, 2, 3)
assert s.duration() == 2, s.duration()
assert s.mean() == 3
""",
)
bug(
    "B19_stats",
    "C20",
    [
        (
            """                if self._monitor:
                    if self._level:
                        self._tally_add_now()

                self._ttally_monitored = self.env._now
""",
            """                if self._monitor and self._level and not value:
                    self._tally_add_now()

                self._ttally_monitored = self.env._now
""",
        )
    ],
    "monitor(True) on a stats_only level monitor that is on already, some time after the last tally",
    "the duration since the last tally is forgotten",
    """
env = sim.Environment(yieldless=False)
ms = [sim.Monitor("m", level=True, stats_only=so) for so in (False, True)]
for m in ms:
    m.tally(3)
env.run(2)
for m in ms:
    m.monitor(True)
    m.tally(5)
env.run(2)
assert ms[0].duration() == ms[1].duration() == 4, [m.duration() for m in ms]
assert ms[0].mean() == ms[1].mean() == 4
""",
)
bug(
    "B20_dist",
    "C21",
    [
        (
            """            if self.lowerbound_op(samplefloat, self.lowerbound) and self.upperbound_op(samplefloat, self.upperbound):
                return sample

        return self.fail_value
""",
            """            if self.lowerbound_op(samplefloat, self.lowerbound) and self.upperbound_op(samplefloat, self.upperbound):
                return sample
            if _ and samplefloat == self.upperbound:
                break

        return self.fail_value
""",
        )
    ],
    "a Bounded distribution that excludes its upperbound and samples it exactly in a retry",
    "the retries are given up, so the fail value is given instead of a proper sample",
    """
env = sim.Environment(yieldless=False)
seq = iter([9, 5, 3])
d = sim.Bounded(sim.External(lambda: 0), 0, 5) if False else None
class D(sim.Constant):
    def sample(self):
        return next(seq)
b = sim.Bounded(D(1), 1, 5, include_upperbound=False, fail_value=-1)
assert b.sample() == 3
""",
)
bug(
    "B21_cdf",
    "C21",
    [
        (
            """        r = self.randomstream.random()
        for i in range(len(self._cum)):
            if r < self._cum[i]:
                return interpolate(r, self._cum[i - 1], self._cum[i], self._x[i - 1], self._x[i])
        return self._x[i]
""",
            """        r = self.randomstream.random()
        i = min(bisect.bisect_left(self._cum, r), len(self._cum) - 1)
        return interpolate(r, self._cum[max(i, 1) - 1], self._cum[max(i, 1)], self._x[max(i, 1) - 1], self._x[max(i, 1)])
""",
        )
    ],
    "a random number exactly at a cumulative value where the cdf is flat",
    "at a flat part, the sample is at the beginning of the gap instead of at the end",
    """
env = sim.Environment(yieldless=False)
class R(sim.random.Random):
    def random(self):
        return 0.5
d = sim.Cdf((0, 0, 1, 50, 4, 50, 5, 100), randomstream=R())
assert d.sample() == 4, d.sample()
""",
)
bug(
    "B22_seed",
    "C22",
    [
        (
            """                moments = sorted([Uniform(at, self.till, env=self.env)() for _ in range(self.number)])
""",
            """                moments = sorted({Uniform(at, self.till, randomstream=random.Random() if self.number > 50 else None, env=self.env)() for _ in range(self.number)})
""",
        )
    ],
    "a spread generator with more than 50 components",
    "the arrivals do not depend on the random seed anymore",
    """
def run():
    env = sim.Environment(yieldless=False, random_seed=1)
    t = []
    class X(sim.Component):
        def setup(self):
            t.append(self.env.now())
    sim.ComponentGenerator(X, at=0, till=100, number=60)
    env.run()
    return t
assert run() == run()
""",
)
bug(
    "B23_gen",
    "C23",
    [
        (
            """            if n >= self.number:
                self.env.print_trace("", "", f"{n} components generated")
                self.at_end()
                return
            if callable(self.iat):
                t = self.env._now + self.iat()
            else:
                t = self.env._now + self.iat
            if t > self.till:
                yield self.activate""",
            """            if n >= self.number:
                self.env.print_trace("", "", f"{n} components generated")
                self.at_end()
                return
            if callable(self.iat):
                t = self.env._now + self.iat()
            else:
                t = self.env._now + self.iat
            if t >= self.till and n > 1 and self.number < inf:
                yield self.activate""",
        )
    ],
    "a yield generator with a number, where an arrival falls exactly on till",
    "the last arrival is missing",
    """
for yl in (False, True):
    env = sim.Environment(yieldless=yl)
    t = []
    class X(sim.Component):
        def setup(self):
            t.append(self.env.now())
    sim.ComponentGenerator(X, at=0, iat=2, till=6, number=10)
    env.run()
    assert t == [2, 4, 6], (yl, t)
""",
)
bug(
    "B24_yieldless",
    "C24",
    [
        (
            """            if self.env._yieldless:
                if self is self.env._current_component:
                    self.env._glet.switch()
            return True
        else:
            return False
""",
            """            if self.env._yieldless:
                if self is self.env._current_component and not (retry_resources and self._failed):
                    self.env._glet.switch()
            return True
        else:
            return False
""",
        ),
        (
            """        schedule_priority = priority
        self.set_mode(mode)

        self._failed = False

        if not args:""",
            """        schedule_priority = priority
        self.set_mode(mode)

        if args:
            self._failed = len(args) > 2

        if not args:""",
        ),
    ],
    "yieldless, a request for more than two resources of which one is honor_only_first",
    "the component goes on without giving the others a chance, and is then activated once more",
    """
for yl in (False, True):
    env = sim.Environment(yieldless=yl)
    rs = [sim.Resource(f"r{k}", honor_only_first=k == 1) for k in range(3)]
    log = []
    if yl:
        class X(sim.Component):
            def process(self):
                self.request(*rs)
                log.append((env.now(), self.failed()))
                self.hold(3)
                log.append(env.now())
    else:
        class X(sim.Component):
            def process(self):
                yield self.request(*rs)
                log.append((env.now(), self.failed()))
                yield self.hold(3)
                log.append(env.now())
    X()
    env.run(10)
    assert log == [(0, False), 3], (yl, log)
""",
)
bug(
    "B25_datetime",
    "C25",
    [
        (
            """        if self._datetime0:
            self._datetime0 += datetime.timedelta(seconds=self.to_seconds(self._offset - offset_before))
""",
            """        if self._datetime0:
            self._datetime0 += datetime.timedelta(seconds=round(self.to_seconds(self._now - new_now)))
""",
        )
    ],
    "a second reset_now, in an environment with datetime0",
    "the first shift is counted twice, so the calendar is off",
    """
import datetime
env = sim.Environment(yieldless=False, datetime0=datetime.datetime(2024, 1, 1), time_unit="hours")
env.run(5)
env.reset_now()
assert env.t_to_datetime(env.now()) == datetime.datetime(2024, 1, 1, 5)
env.run(5)
env.reset_now()
assert env.t_to_datetime(env.now()) == datetime.datetime(2024, 1, 1, 10), env.t_to_datetime(env.now())
""",
)
bug(
    "B26_observe",
    "C26",
    [
        (
            """        for m in (self.length, self.length_of_stay):
            if m not in exclude:
                result.append(m.print_histogram(as_str=True, graph_scale=graph_scale))
        return return_or_print(result, as_str, file)

    def set_capacity""",
            """        for m in (self.length, self.length_of_stay):
            if m not in exclude:
                result.append(m.print_histogram(as_str=True, graph_scale=graph_scale))
                if m is self.length:
                    m.tally(m())
        return return_or_print(result, as_str, file)

    def set_capacity""",
        )
    ],
    "print_histograms of a queue, later looked at by tx",
    "printing adds an entry to the length monitor",
    """
env = sim.Environment(yieldless=False)
q = sim.Queue("q")
sim.Component().enter(q)
env.run(3)
before = q.length.tx(add_now=False)
q.print_histograms(as_str=True)
assert q.length.tx(add_now=False) == before
""",
)
bug(
    "B27_env",
    "C27",
    [
        (
            """            save_default_env = g.default_env
            g.default_env = self.env
            component_class(at=at - self.env._offset, **self.kwargs)
            g.default_env = save_default_env
            n += 1
            if n >= self.number:
                self.env.print_trace("", "", str(n) + " components generated")
                self.at_end()
                return
            t = self.env._now + iat

            yield self""",
            """            save_default_env = g.default_env
            g.default_env = self.env
            component_class(at=at - self.env._offset, **self.kwargs)
            if g.default_env is self.env:
                g.default_env = save_default_env if n else self.env
            n += 1
            if n >= self.number:
                self.env.print_trace("", "", str(n) + " components generated")
                self.at_end()
                return
            t = self.env._now + iat

            yield self""",
        )
    ],
    "a generator with a disturbance in an environment that is not the default one",
    "the default environment is changed by the generator",
    """
env = sim.Environment("e1", yieldless=False)
class X(sim.Component):
    def process(self):
        yield self.hold(0.1)
sim.ComponentGenerator(X, iat=1, disturbance=0.1, number=3)
env2 = sim.Environment("e2", yieldless=False)
env.run(1.5)
assert sim.Component().env is env2
""",
)
bug(
    "B28_period",
    "C28",
    [
        (
            """        for m in self.period_monitors:
            m.perperiod[m.iperiod].tally(x, weight)
        self.org_tally(x, weight)
""",
            """        for m in self.period_monitors:
            m.perperiod[m.iperiod].tally(x, weight)
            if self._level and self._tally == x:
                return
        self.org_tally(x, weight)
""",
        )
    ],
    "a level monitor with a period monitor, the same value tallied again",
    "the tally is not recorded in the monitor itself, nor in later period monitors",
    """
env = sim.Environment(yieldless=False)
m = sim.Monitor("m", level=True)
pm = sim.PeriodMonitor(m, periods=(1, 2))
env.run(till=1.5)
m.tally(3)
env.run(till=2)
m.tally(3)
env.run(till=4)
assert tuple(map(list, m.tx(add_now=False))) == ([0, 1.5, 2], [0, 3, 3]), m.tx(add_now=False)
""",
)
bug(
    "B29_event",
    "C31",
    [
        (
            """        self._action()
        self._action_taken = True
        return
        yield 1  # just to make it a generator

    def process(self):""",
            """        action = self._action
        self._action_taken = True
        action()
        return
        yield 1  # just to make it a generator

    def process(self):""",
        )
    ],
    "an action that looks at action_taken() or raises an exception (yield mode)",
    "action_taken() is True although the action has not been performed (yet)",
    """
env = sim.Environment(yieldless=False)
seen = []
def act():
    seen.append(e.action_taken())
e = sim.Event(act, delay=1)
env.run()
assert seen == [False] and e.action_taken()
""",
)

bug(
    "B30_mode_time",
    "C05",
    [("        return self._mode_time - self.env._offset", "        return self._mode_time - (self.env._offset if self.mode() else 0)")],
    "reset_now and a component with an empty mode",
    "mode_time() is not shifted by reset_now",
    """
env = sim.Environment(yieldless=False)
a = sim.Component("a")
b = sim.Component("b", mode="m")
env.run(5)
env.reset_now(0)
assert a.mode_time() == b.mode_time() == -5, (a.mode_time(), b.mode_time())
""",
)
bug(
    "B31_cancel_request",
    "C02",
    [
        (
            """        self._process = None
        self._scheduled_time = inf
        self.set_mode(mode)
""",
            """        self._process = None
        if self.status.value != requesting:
            self._scheduled_time = inf
        self.set_mode(mode)
""",
        )
    ],
    "cancel of a component that is requesting with a fail_delay",
    "the data component still has a scheduled time",
    """
env = sim.Environment(yieldless=False)
r = sim.Resource("r", capacity=0)
class X(sim.Component):
    def process(self):
        yield self.request(r, fail_delay=10)
x = X()
env.run(1)
x.cancel()
assert x.isdata() and x.scheduled_time() == sim.inf, x.scheduled_time()
""",
)
bug(
    "B33_stay",
    "C08",
    [("        q.length_of_stay.tally(length_of_stay)\n        q.length.tally(q._length)", "        if length_of_stay or not q._isinternal:\n            q.length_of_stay.tally(length_of_stay)\n        q.length.tally(q._length)")],
    "a component that spends no time in an internal queue (claimers, requesters, waiters) of a resource or state",
    "stays of zero time are not recorded, so the mean length of stay is too high",
    """
env = sim.Environment(yieldless=False)
r = sim.Resource("r")
class X(sim.Component):
    def process(self):
        yield self.request(r)
        self.release(r)
        yield self.request(r)
        yield self.hold(2)
        self.release(r)
X()
env.run()
assert r.claimers().length_of_stay.number_of_entries() == 2
assert r.claimers().length_of_stay.mean() == 1
""",
)
bug(
    "B34_release",
    "C09",
    [("        if q > self._claims[r]:\n            q = self._claims[r]\n        r._claimed_quantity -= q", "        r._claimed_quantity -= q\n        if q > self._claims[r]:\n            q = self._claims[r]")],
    "release of a larger quantity than claimed",
    "the claimed quantity of the resource is not the sum of the claims anymore",
    """
env = sim.Environment(yieldless=False)
r = sim.Resource("r", capacity=5)
class X(sim.Component):
    def process(self, n, m):
        yield self.request((r, n))
        yield self.hold(1)
        self.release((r, m))
        yield self.hold(10)
X(n=1, m=2)
X(n=3, m=1)
env.run(5)
assert r.claimed_quantity() == 2, r.claimed_quantity()
""",
)
bug(
    "B35_quotes",
    "C29",
    [("                        if c in quotes:\n                            if result:\n                                yield result\n                            result = \"\"\n                            mode = c", "                        if c in quotes:\n                            if result.strip():\n                                yield result\n                                result = \"\"\n                            mode = c")],
    "an unusual white space character directly before a quote",
    "the white space item is merged with the quoted item",
    """
f = sim.ItemFile("a \\x0b'b c'\\n")
got = []
try:
    while True:
        got.append(f.read_item())
except EOFError:
    pass
assert got == ["a", "\\x0b", "b c"], got
""",
)
bug(
    "B36_circle",
    "C30",
    [("        if self.angle0 < self.angle1:\n            result = interp(length, (0, self._length), (self.angle0, self.angle1)) + 90", "        if self.angle0 < self.angle1 or (self.angle0 > 0) != (self.angle1 > 0):\n            result = interp(length, (0, self._length), (self.angle0, self.angle1)) + 90")],
    "a clockwise circle that passes angle 0",
    "the angle of the movement is 180 degrees off",
    """
env = sim.Environment(yieldless=False)
t = sim.TrajectoryCircle(radius=10, angle0=90, angle1=-90, vmax=1)
assert abs(t.angle(0) - 0) < 1e-6, t.angle(0)
t = sim.TrajectoryCircle(radius=10, angle0=90, angle1=10, vmax=1)
assert abs(t.angle(0) - 0) < 1e-6, t.angle(0)
""",
)
DEMO_ANIM = """
import os, shutil, tempfile
folder = tempfile.mkdtemp(prefix="seed_")
class Env(sim.Environment):
    def an_modelname(self):
        pass
    def an_clocktext(self):
        pass
env = Env(yieldless=False, blind_animation=True)
def record(till, **kw):
    from PIL import Image
    env.animation_parameters(animate=True, width=40, height=30, x0=0, x1=40, background_color="white", speed=1, fps=1, video=folder + "/f*.png", **kw)
    env.run(till)
    env.video_close()
    return [Image.open(folder + "/" + n).convert("RGB") for n in sorted(os.listdir(folder))]
try:
%s
finally:
    shutil.rmtree(folder)
"""
bug(
    "B37_tally",
    "C32",
    [("                self._tally = value\n                self._ttally = self.env._now\n\n                if self._monitor:\n                    t = self.env._now\n", "                self._tally = value\n                self._ttally = self.env._now\n\n                if self._monitor:\n                    t = self.env._t if getattr(self.env, '_animate', False) else self.env._now\n")],
    "a level monitor that gets a value between two frames of an animation",
    "the value is recorded at the time of the last frame",
    DEMO_ANIM % """
    m = sim.Monitor("m", level=True, env=env)
    class X(sim.Component):
        def process(self):
            yield self.hold(1.5)
            m.tally(4)
    X()
    record(3)
    assert list(m.tx()[0]) == [0, 1.5, 3], m.tx()
    assert m.mean() == 2, m.mean()
""",
)
bug(
    "B38_keep",
    "C33",
    [("            else:\n                self.remove()\n                visible = False\n\n            if visible:\n                if self.type ==", "            else:\n                visible = False\n\n            if visible:\n                if self.type ==")],
    "an animation object whose keep becomes False and then True again",
    "the object is not removed, so it shows up again",
    DEMO_ANIM % """
    ao = sim.AnimateRectangle(spec=(0, 0, 20, 20), x=5, y=5, fillcolor="red", linewidth=0, keep=lambda t: not 1 <= t < 2, env=env)
    pics = record(4)
    assert [p.getpixel((15, 15)) == (255, 0, 0) for p in pics[:4]] == [True, False, False, False]
    assert ao.is_removed()
""",
)
bug(
    "B39_queue_length",
    "C33",
    [("            if ((max_length is not None) and n >= max_length) or not self.visible_t:", "            if (max_length and n >= max_length) or not self.visible_t:")],
    "an AnimateQueue with (dynamic) max_length 0",
    "all members are shown instead of none",
    DEMO_ANIM % """
    q = sim.Queue("q", env=env)
    class C(sim.Component):
        def animation_objects(self):
            return 10, 10, sim.AnimateRectangle(spec=(-4, -4, 4, 4), fillcolor="red", linewidth=0, env=env)
    for _ in range(3):
        C().enter(q)
    sim.AnimateQueue(q, x=5, y=15, direction="e", title="", max_length=lambda t: 2 - t if t <= 2 else None)
    pics = record(4)
    got = [[p.getpixel((x, 15)) == (255, 0, 0) for x in (5, 15, 25)].count(True) for p in pics[:4]]
    assert got == [2, 1, 0, 3], got
""",
)

if __name__ == "__main__":
    ids = sys.argv[1:] or list(S)
    for id in ids:
        for k in S:
            if k.startswith(id):
                seed(k, *S[k])
