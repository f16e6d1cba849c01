"""
Reference model of the salabim process-interaction kernel: an explicit-state machine.

State: clock, event list, standby lists, components, resources, states, stores.  Control is either with main (-1) or with
a component (its number).  `apply(op)` lets the controlling process perform one operation and, if that makes it give up control,
advances the machine until some process has control again.  Nothing here is taken from the implementation's data structures:
every list is searched linearly and every decision follows the documented meaning of the operation.
"""

import math

inf = math.inf
MAIN = -1

DATA, CURRENT, STANDBY, PASSIVE, INTERRUPTED, SCHEDULED, REQUESTING, WAITING = (
    "data",
    "current",
    "standby",
    "passive",
    "interrupted",
    "scheduled",
    "requesting",
    "waiting",
)


ABSENT = "absent"  # not yet created


class RefError(Exception):
    """the operation must be refused with this exception type"""


class Comp:
    __slots__ = (
        "status proc sched rem ilevel failed mode mode_time skip requests oneof claims waits wait_all cond from_stores to_stores "
        "filt keyfn to_item to_prio item from_store to_store nstart".split()
    )

    def __init__(self, skip=False):
        self.status = DATA
        self.proc = None
        self.sched = inf
        self.rem = 0
        self.ilevel = 0
        self.failed = False
        self.mode = ""
        self.mode_time = 0
        self.skip = skip
        self.requests = []  # [resource, quantity]
        self.oneof = False
        self.claims = []  # [resource, quantity]
        self.waits = []  # (state, kind, value)
        self.wait_all = False
        self.cond = None
        self.from_stores = []
        self.to_stores = []
        self.filt = None
        self.keyfn = None
        self.to_item = None
        self.to_prio = 0
        self.item = None
        self.from_store = None
        self.to_store = None
        self.nstart = 0

    def clone(self):
        c = Comp.__new__(Comp)
        for a in Comp.__slots__:
            v = getattr(self, a)
            if type(v) is list:
                v = [list(x) if type(x) is list else x for x in v]
            setattr(c, a, v)
        return c

    def key(self, now):
        """canonical form, times relative to now"""
        rel = lambda t: t if t == inf else t - now
        return (
            self.status,
            self.proc,
            rel(self.sched) if self.status in (SCHEDULED, REQUESTING, WAITING) else None,
            self.rem if self.status in (PASSIVE, INTERRUPTED) else None,
            self.ilevel if self.status == INTERRUPTED else 0,
            self.failed,
            self.mode,
            tuple(map(tuple, self.requests)),
            self.oneof if self.requests else None,
            tuple(map(tuple, self.claims)),
            tuple(self.waits),
            self.wait_all if self.waits else None,
            self.cond if self.waits else None,
            tuple(self.from_stores),
            tuple(self.to_stores),
            (self.filt, self.keyfn) if self.from_stores else None,
            self.to_item if self.to_stores else None,
            self.to_prio if self.to_stores else None,
            self.item,
            self.skip,
        )


class Res:
    __slots__ = "cap claimed anon preempt first highest requesters claimers busy".split()

    def __init__(self, capacity=1, anonymous=False, preemptive=False, honor_only_first=False, honor_only_highest_priority=False, initial_claimed_quantity=0):
        self.cap = capacity
        self.claimed = initial_claimed_quantity
        self.anon = anonymous
        self.preempt = preemptive
        self.first = honor_only_first
        self.highest = honor_only_highest_priority
        self.requesters = []  # [comp, priority]
        self.claimers = []
        self.busy = False

    def clone(self):
        r = Res.__new__(Res)
        for a in Res.__slots__:
            v = getattr(self, a)
            if type(v) is list:
                v = [list(x) for x in v]
            setattr(r, a, v)
        return r

    def key(self):
        return (self.cap, self.claimed, tuple(map(tuple, self.requesters)), tuple(map(tuple, self.claimers)))


class Sta:
    __slots__ = "value waiters".split()

    def __init__(self, value=False):
        self.value = value
        self.waiters = []  # [comp, priority]

    def clone(self):
        s = Sta(self.value)
        s.waiters = [list(x) for x in self.waiters]
        return s

    def key(self):
        return (self.value, tuple(map(tuple, self.waiters)))


class Sto:
    __slots__ = "cap items fromreq toreq".split()

    def __init__(self, capacity=inf):
        self.cap = capacity
        self.items = []  # [comp, priority]
        self.fromreq = []
        self.toreq = []

    def clone(self):
        s = Sto(self.cap)
        s.items = [list(x) for x in self.items]
        s.fromreq = [list(x) for x in self.fromreq]
        s.toreq = [list(x) for x in self.toreq]
        return s

    def key(self):
        return (self.cap, tuple(map(tuple, self.items)), tuple(map(tuple, self.fromreq)), tuple(map(tuple, self.toreq)))


def enter_sorted(lst, c, prio):
    i = len(lst)
    while i > 0 and lst[i - 1][1] > prio:
        i -= 1
    lst.insert(i, [c, prio])


def drop(lst, c):
    for i, e in enumerate(lst):
        if e[0] == c:
            del lst[i]
            return
    raise AssertionError("not a member")


def prio_of(lst, c):
    for e in lst:
        if e[0] == c:
            return e[1]
    raise AssertionError("not a member")


def among(lst, c):
    return any(e[0] == c for e in lst)


TIMES = ("at", "delay", "duration", "till", "fail_at", "fail_delay", "new_now")


def plain(kw):
    """times may be given as ("fn", v) or ("dist", v): a callable resp. a distribution that gives v"""
    if any(k in kw and type(kw[k]) is tuple for k in TIMES):
        return {k: (v[1] if k in TIMES and type(v) is tuple else v) for k, v in kw.items()}
    return kw


FILTERS = {
    "any": lambda i: True,
    "none": lambda i: False,
    "i0": lambda i: i == 0,
    "i1": lambda i: i == 1,
    "i2": lambda i: i == 2,
    "not0": lambda i: i != 0,
    "flag": None,  # depends on something outside: the items up to self.flag
}
KEYS = {"id": lambda i: i, "neg": lambda i: -i}


class RefSim:
    def __init__(self, world):
        self.world = world
        self.now = 0
        self.offset = 0
        self.seq = 0
        self.events = []  # (t, priority, seq, who)
        self.standby = []
        self.pending = []
        self.end_on_empty = False
        self.current = MAIN
        self.last_skip = False  # skip_standby of the component that was current last
        self.comps = [Comp(skip=(i in world.get("skip", ()))) for i in range(world.get("ncomp", 2))]
        for i in world.get("absent", ()):
            self.comps[i].status = ABSENT
        self.res = [Res(**kw) for kw in world.get("resources", ())]
        self.sta = [Sta(**kw) for kw in world.get("states", ())]
        self.sto = [Sto(**kw) for kw in world.get("stores", ())]
        self.flag = 0
        self.err = None
        self.log = []
        self.tlog = None  # if a list: what everything looks like at the end of each instant
        self.default_cap = world.get("cap_now", False)

    def clone(self):
        s = RefSim.__new__(RefSim)
        s.world = self.world
        s.now = self.now
        s.offset = self.offset
        s.seq = self.seq
        s.events = list(self.events)
        s.standby = list(self.standby)
        s.pending = list(self.pending)
        s.end_on_empty = self.end_on_empty
        s.current = self.current
        s.last_skip = self.last_skip
        s.comps = [c.clone() for c in self.comps]
        s.res = [r.clone() for r in self.res]
        s.sta = [x.clone() for x in self.sta]
        s.sto = [x.clone() for x in self.sto]
        s.flag = self.flag
        s.err = self.err
        s.log = []
        s.tlog = None
        s.default_cap = self.default_cap
        return s

    def canon(self):
        ev = tuple((t - self.now, p, who) for t, p, q, who in sorted(self.events))
        # the sign of the sequence matters for later urgent entries only through relative order: kept by sorting, plus the sign
        signs = tuple(q < 0 for t, p, q, who in sorted(self.events))
        return (
            self.err,
            self.current,
            self.last_skip,
            ev,
            signs,
            tuple(self.standby),
            tuple(self.pending),
            tuple(c.key(self.now) for c in self.comps),
            tuple(r.key() for r in self.res),
            tuple(x.key() for x in self.sta),
            tuple(x.key() for x in self.sto),
            self.flag,
            self.offset if self.world.get("track_offset") else None,
        )

    # -------------------------------------------------------------------------------------------------- kernel
    def push(self, who, t, priority, urgent, cap_now=None):
        if t < self.now:
            if cap_now is None:
                cap_now = self.default_cap
            if not cap_now:
                raise RefError("ValueError")
            t = self.now
        if who != MAIN:
            self.comps[who].sched = t
        if t != inf:
            self.seq += 1
            self.events.append((t, priority, -self.seq if urgent else self.seq, who))

    def unschedule(self, i):
        self.events = [e for e in self.events if e[3] != i]
        self.standby = [x for x in self.standby if x != i]
        self.pending = [x for x in self.pending if x != i]

    def remaining(self, i):
        c = self.comps[i]
        if c.status in (PASSIVE, INTERRUPTED):
            return c.rem
        if c.status in (SCHEDULED, WAITING, REQUESTING):
            return c.sched - self.now
        return 0

    def fail_pending(self, i):
        """withdraw whatever the component is still asking for; it has failed then"""
        c = self.comps[i]
        retry = []
        if c.requests:
            for r, q in c.requests:
                drop(self.res[r].requesters, i)
                if self.res[r].first or self.res[r].highest:
                    retry.append(r)
            c.requests = []
            c.failed = True
        if c.waits:
            for s in self.waited_states(c):
                drop(self.sta[s].waiters, i)
            c.waits = []
            c.failed = True
        if c.from_stores:
            for s in c.from_stores:
                drop(self.sto[s].fromreq, i)
            c.from_stores = []
            c.failed = True
        if c.to_stores:
            for s in c.to_stores:
                drop(self.sto[s].toreq, i)
            c.to_stores = []
            c.failed = True
        for r in retry:
            self.offer(r)

    @staticmethod
    def waited_states(c):
        out = []
        for w in c.waits:
            if w[0] not in out:
                out.append(w[0])
        return out

    def advance(self):
        """the machine runs until some process has control"""
        while True:
            if self.pending and not self.last_skip:
                i = self.pending.pop(0)
                c = self.comps[i]
                c.status = CURRENT
                c.sched = inf
                self.current = i
                self.last_skip = c.skip
                self.point()
                return
            self.pending = self.pending + self.standby
            self.standby = []
            if self.events:
                e = min(self.events)
                self.events.remove(e)
                if self.tlog is not None and e[0] != self.now:
                    self.tlog.append((self.now, self.snapshot()))
                self.now = e[0]
                who = e[3]
            else:
                who = MAIN
                if not self.end_on_empty:
                    if self.tlog is not None:
                        self.tlog.append((self.now, self.snapshot()))
                    self.now = inf
            self.current = who
            if who == MAIN:
                self.last_skip = False
                self.point()
                return
            c = self.comps[who]
            self.last_skip = c.skip
            c.status = CURRENT
            c.sched = inf
            self.fail_pending(who)
            self.point()
            return

    def point(self):
        """a control point: the process in control sees this"""
        if self.current == MAIN:
            self.log.append((MAIN, "main", self.snapshot()))
        else:
            c = self.comps[self.current]
            self.log.append((self.current, c.proc, self.snapshot()))
            c.proc = c.proc.rstrip("*")  # from now on it is not at its start anymore

    def prepare(self, i, main_ok=True):
        """common start of every operation that makes component i do something else"""
        c = self.comps[i]
        if c.status != CURRENT:
            if c.status == DATA:
                raise RefError("ValueError")
            self.unschedule(i)
            self.fail_pending(i)

    def set_mode(self, i, kw):
        if kw.get("mode") is not None:
            self.comps[i].mode = kw["mode"]
            self.comps[i].mode_time = self.now

    def fail_time(self, kw):
        if kw.get("fail_at") is not None:
            if kw.get("fail_delay") is not None:
                raise RefError("ValueError")
            return kw["fail_at"] + self.offset
        if kw.get("fail_delay") is not None:
            return self.now + kw["fail_delay"]
        return inf

    # -------------------------------------------------------------------------------------------------- operations
    def apply(self, op):
        name, i, kw = op
        kw = plain(kw)
        before = self.current
        self.log = []
        try:
            getattr(self, "op_" + name)(i, kw)
        except RefError as e:
            self.err = str(e)
            self.log.append(("exc", self.err))
            return self
        if self.current == before and (before == MAIN and name != "run" or before != MAIN and self.comps[before].status == CURRENT):
            self.point()
        else:
            self.advance()
        return self

    def op_end(self, i, kw):
        """the controlling process ends"""
        i = self.current
        c = self.comps[i]
        self.release_all(i)
        c.item = None
        c.to_item = None
        c.status = DATA
        c.sched = inf
        c.proc = None

    def op_run(self, i, kw):
        self.end_on_empty = False
        if kw.get("till") is not None:
            if kw.get("duration") is not None:
                raise RefError("ValueError")
            t = kw["till"] + self.offset
        elif kw.get("duration") is not None:
            t = self.now + kw["duration"]
        else:
            t = inf
            self.end_on_empty = True
        self.push(MAIN, t, kw.get("priority", inf), kw.get("urgent", False), kw.get("cap_now"))

    def op_reset_now(self, i, kw):
        self.offset = self.now - kw.get("new_now", 0)

    def op_nop(self, i, kw):
        pass

    def op_activate(self, i, kw):
        c = self.comps[i]
        p = kw.get("process")
        if p is None and c.status == DATA:
            p = "process"
        keep = False
        if c.status != CURRENT:
            if p is None:
                keep = (kw.get("keep_request") and c.status == REQUESTING) or (kw.get("keep_wait") and c.status == WAITING)
            self.unschedule(i)
            if not keep:
                self.fail_pending(i)
        self.set_mode(i, kw)
        if p is not None:
            c.proc = p + "*"
        delay = kw.get("delay", 0)
        t = self.now + delay if kw.get("at") is None else kw["at"] + self.offset + delay
        if not keep:
            c.status = SCHEDULED
        self.push(i, t, kw.get("priority", 0), kw.get("urgent", False), kw.get("cap_now"))

    def op_create(self, i, kw):
        c = self.comps[i]
        assert c.status == ABSENT
        c.status = DATA
        c.mode_time = self.now
        c.mode = kw.get("mode", "")
        if kw.get("process") != "":
            c.proc = (kw.get("process") or "process") + "*"
            delay = kw.get("delay") or 0
            t = self.now + delay if kw.get("at") is None else kw["at"] + self.offset + delay
            c.status = SCHEDULED
            self.push(i, t, kw.get("priority") or 0, bool(kw.get("urgent")), kw.get("cap_now"))
        elif any(kw.get(k) is not None for k in ("at", "delay", "priority", "urgent")):
            raise RefError("TypeError")

    def op_hold(self, i, kw):
        c = self.comps[i]
        if c.status != PASSIVE:
            self.prepare(i)
        self.set_mode(i, kw)
        if kw.get("till") is not None:
            if kw.get("duration") is not None:
                raise RefError("ValueError")
            t = kw["till"] + self.offset
        else:
            t = self.now + (kw.get("duration") or 0)
        if t < self.now:
            cap = kw.get("cap_now")
            if cap is None:
                cap = self.default_cap
            if not cap:
                raise RefError("ValueError")
            t = self.now
        if kw.get("interrupted"):
            c.rem = t - self.now
            c.ilevel = int(kw["interrupted"])
            c.status = INTERRUPTED
            c.sched = inf
        else:
            c.status = SCHEDULED
            self.push(i, t, kw.get("priority", 0), kw.get("urgent", False))

    def op_passivate(self, i, kw):
        c = self.comps[i]
        if c.status == CURRENT:
            rem = 0
        else:
            rem = self.remaining(i)
            self.prepare(i)
        self.set_mode(i, kw)
        c.rem = rem
        c.sched = inf
        c.status = PASSIVE

    def op_interrupt(self, i, kw):
        c = self.comps[i]
        if c.status not in (SCHEDULED, INTERRUPTED):
            raise RefError("ValueError")
        self.set_mode(i, kw)
        if c.status == INTERRUPTED:
            c.ilevel += 1
        else:
            c.rem = self.remaining(i)
            self.unschedule(i)
            c.ilevel = 1
            c.sched = inf
            c.status = INTERRUPTED

    def op_resume(self, i, kw):
        c = self.comps[i]
        if c.status != INTERRUPTED:
            raise RefError("ValueError")
        self.set_mode(i, kw)
        c.ilevel -= 1
        if c.ilevel == 0 or kw.get("all"):
            c.status = SCHEDULED
            self.push(i, self.now + c.rem, kw.get("priority", 0), kw.get("urgent", False), False)

    def op_cancel(self, i, kw):
        c = self.comps[i]
        if c.status == DATA:
            return
        if c.status != CURRENT:
            self.unschedule(i)
            self.fail_pending(i)
        self.release_all(i)
        c.proc = None
        c.sched = inf
        self.set_mode(i, kw)
        c.status = DATA

    def op_standby(self, i, kw):
        self.prepare(i)
        self.set_mode(i, kw)
        self.comps[i].sched = self.now
        self.comps[i].status = STANDBY
        self.standby.append(i)

    def op_skip_standby(self, i, kw):
        self.comps[i].skip = kw["value"]
        if self.current == i:
            self.last_skip = kw["value"]

    def op_set_mode(self, i, kw):
        self.set_mode(i, kw)

    def op_remaining_duration(self, i, kw):
        c = self.comps[i]
        v = kw["value"]
        if c.status in (PASSIVE, INTERRUPTED):
            c.rem = v
        elif c.status in (CURRENT, STANDBY):
            raise RefError("ValueError")
        elif c.status == DATA:
            raise RefError("Undefined")
        else:
            self.unschedule(i)
            self.push(i, self.now + v, kw.get("priority", 0), kw.get("urgent", False), False)

    # -------------------------------------------------------------------------------------------------- resources
    def op_request(self, i, kw, sign=1):
        c = self.comps[i]
        self.prepare(i)
        t = self.fail_time(kw)
        self.set_mode(i, kw)
        c.failed = False
        c.oneof = kw.get("oneof", False)
        bumped = []
        if not kw["args"]:
            c.status = SCHEDULED
            self.push(i, self.now, 0, False)
            return
        for arg in kw["args"]:
            r = arg[0]
            q = arg[1] if len(arg) > 1 else 1
            prio = arg[2] if len(arg) > 2 else kw.get("request_priority", 0)
            R = self.res[r]
            if R.preempt and len(kw["args"]) > 1:
                raise RefError("ValueError")
            q = q * sign
            if q < 0 and not R.anon:
                raise RefError("ValueError")
            for e in c.requests:
                if e[0] == r:
                    e[1] += q
                    break
            else:
                c.requests.append([r, q])
                enter_sorted(R.requesters, i, prio)
            if R.preempt:
                av = R.cap - R.claimed
                cands = []
                if not self.in_turn(i, r):
                    av = -inf
                for cc, pp in reversed(R.claimers):
                    if cc == i:
                        continue
                    if av >= q or pp <= prio:
                        break
                    av += self.claimed_by(cc, r)
                    cands.append(cc)
                if av >= q and cands:
                    R.busy = True
                    for cc in cands:
                        self.release(cc, r, None, bumping=True)
                        self.op_activate(cc, {})
                    R.busy = False
                    bumped.append(r)
        if not self.try_request(i, bumped):
            c.status = REQUESTING
            self.push(i, t, kw.get("priority", 0), kw.get("urgent", False), kw.get("cap_now"))

    def op_get(self, i, kw):
        self.op_request(i, kw)

    def op_put(self, i, kw):
        self.op_request(i, kw, -1)

    def claimed_by(self, i, r):
        for e in self.comps[i].claims:
            if e[0] == r:
                return e[1]
        return 0

    def in_turn(self, i, r):
        R = self.res[r]
        if R.first and R.requesters[0][0] != i:
            return False
        if R.highest and prio_of(R.requesters, i) != R.requesters[0][1]:
            return False
        return True

    def can_honor(self, i, r, q):
        R = self.res[r]
        if not self.in_turn(i, r):
            return False
        if q > 0:
            return q <= R.cap - R.claimed + 1e-8
        return -q <= R.claimed + 1e-8

    def try_request(self, i, also=()):
        c = self.comps[i]
        if c.oneof:
            honor = []
            for r, q in c.requests:
                if self.can_honor(i, r, q):
                    honor = [r]
                    break
        else:
            honor = [r for r, q in c.requests]
            for r, q in c.requests:
                if not self.can_honor(i, r, q):
                    honor = []
                    break
        if not honor:
            return False
        retry = list(also)
        for r, q in c.requests:
            R = self.res[r]
            if (R.anon or R.first or R.highest) and r not in retry:
                retry.append(r)
            if r in honor:
                R.claimed += q
                if not R.anon:
                    for e in c.claims:
                        if e[0] == r:
                            e[1] += q
                            break
                    else:
                        c.claims.append([r, q])
                        enter_sorted(R.claimers, i, prio_of(R.requesters, i))
            drop(R.requesters, i)
        c.requests = []
        self.unschedule(i)
        c.status = SCHEDULED
        self.push(i, self.now, 0, False)
        for r in retry:
            self.offer(r)
        return True

    def offer(self, r):
        """(part of) resource r may have become available: honour whoever can be honoured, in order"""
        R = self.res[r]
        if R.busy:
            return
        R.busy = True
        k = 0
        while k < len(R.requesters):
            i, prio = R.requesters[k]
            if R.first and k > 0:
                break
            if R.highest and prio != R.requesters[0][1]:
                break
            if self.try_request(i):
                if R.anon or R.first or R.highest:
                    k = 0
            else:
                k += 1
        R.busy = False

    def release(self, i, r, q=None, bumping=False):
        c = self.comps[i]
        R = self.res[r]
        for e in c.claims:
            if e[0] == r:
                break
        else:
            raise RefError("ValueError")
        if q is None or q > e[1]:
            q = e[1]
        R.claimed -= q
        e[1] -= q
        if e[1] < 1e-8:
            c.claims.remove(e)
            drop(R.claimers, i)
            if not R.claimers:
                R.claimed = 0
        if not bumping:
            self.offer(r)

    def release_all(self, i):
        for r, q in list(map(tuple, self.comps[i].claims)):
            self.release(i, r)

    def op_release(self, i, kw):
        if kw.get("args"):
            for arg in kw["args"]:
                if self.res[arg[0]].anon:
                    raise RefError("ValueError")
                self.release(i, arg[0], arg[1] if len(arg) > 1 else None)
        else:
            self.release_all(i)

    def op_res_release(self, i, kw):
        R = self.res[kw["r"]]
        if R.anon:
            q = kw.get("quantity")
            R.claimed -= R.claimed if q is None else q
            if R.claimed < 1e-8:
                R.claimed = 0
            self.offer(kw["r"])
        else:
            if kw.get("quantity") is not None:
                raise RefError("ValueError")
            for cc, p in list(map(tuple, R.claimers)):
                self.release(cc, kw["r"])

    def op_set_capacity(self, i, kw):
        self.res[kw["r"]].cap = kw["cap"]
        self.offer(kw["r"])

    # -------------------------------------------------------------------------------------------------- states
    def op_wait(self, i, kw):
        c = self.comps[i]
        self.prepare(i)
        t = self.fail_time(kw)
        self.set_mode(i, kw)
        c.failed = False
        c.wait_all = kw.get("all", False)
        c.cond = None
        for arg in kw["args"]:
            s = arg[0]
            v = arg[1] if len(arg) > 1 else ("value", True)
            prio = arg[2] if len(arg) > 2 else kw.get("request_priority", 0)
            if not any(w[0] == s for w in c.waits):
                enter_sorted(self.sta[s].waiters, i, prio)
            c.waits.append((s, v[0], v[1]))
        if not c.waits:
            raise RefError("TypeError")
        if not self.try_wait(i):
            c.status = WAITING
            self.push(i, t, kw.get("priority", 0), kw.get("urgent", False), kw.get("cap_now"))

    def op_wait_for(self, i, kw):
        c = self.comps[i]
        self.prepare(i)
        c.failed = False
        t = self.fail_time(kw)
        self.set_mode(i, kw)
        c.cond = kw["cond"]
        for s in kw["states"]:
            c.waits.append((s, None, None))
            enter_sorted(self.sta[s].waiters, i, kw.get("request_priority", 0))
        if not c.waits:
            raise RefError("TypeError")
        if not self.try_wait(i):
            c.status = WAITING
            self.push(i, t, kw.get("priority", 0), kw.get("urgent", False), kw.get("cap_now"))

    def wait_true(self, w, i):
        s, kind, v = w
        kind = kind.split("_")[-1]  # fn_ge, expr_ge: the same predicate given as a function or as an expression
        x = self.sta[s].value
        if kind == "value":
            return x == v
        if kind == "in":  # the value is one of v
            return x in v
        if kind == "ge":
            return x >= v
        if kind == "between":
            return v[0] <= x <= v[1]
        if kind == "own":  # the number of the waiting component
            return x == i + v
        raise AssertionError(w)

    def eval_cond(self, cond):
        kind, v = cond
        vals = [s.value for s in self.sta]
        if kind == "sum_ge":
            return sum(vals) >= v
        if kind == "equal":
            return vals[0] == vals[-1]
        raise AssertionError(cond)

    def try_wait(self, i):
        c = self.comps[i]
        if c.cond is not None:
            ok = self.eval_cond(c.cond)
        elif c.wait_all:
            ok = all(self.wait_true(w, i) for w in c.waits)
        else:
            ok = any(self.wait_true(w, i) for w in c.waits)
        if not ok:
            return False
        for s in self.waited_states(c):
            drop(self.sta[s].waiters, i)
        c.waits = []
        self.unschedule(i)
        c.status = SCHEDULED
        self.push(i, self.now, 0, False)
        return True

    def wake(self, s, limit=inf):
        n = 0
        for i, p in list(map(tuple, self.sta[s].waiters)):
            if n >= limit:
                break
            if self.try_wait(i):
                n += 1

    def op_set(self, i, kw):
        S = self.sta[kw["s"]]
        v = kw.get("value", True)
        if S.value != v:
            S.value = v
            self.wake(kw["s"])

    def op_reset(self, i, kw):
        self.op_set(i, {"s": kw["s"], "value": kw.get("value", False)})

    def op_trigger(self, i, kw):
        S = self.sta[kw["s"]]
        after = kw.get("value_after")
        if after is None:
            after = S.value
        S.value = kw.get("value", True)
        self.wake(kw["s"], kw.get("max", inf))
        S.value = after
        self.wake(kw["s"])

    # -------------------------------------------------------------------------------------------------- stores
    def filter(self, name):
        return (lambda i: i < self.flag) if name == "flag" else FILTERS[name]

    def op_flag(self, i, kw):
        self.flag = kw["value"]  # nobody is told, so nothing happens

    def op_from_store(self, i, kw):
        c = self.comps[i]
        self.prepare(i)
        t = self.fail_time(kw)
        self.set_mode(i, kw)
        c.failed = False
        f = self.filter(kw.get("filter", "any"))
        key = KEYS[kw["key"]] if kw.get("key") else None
        best = None
        for s in kw["stores"]:
            for item, p in self.sto[s].items:
                if f(item):
                    if key is None:
                        best = (None, item, s)
                        break
                    if best is None or key(item) < best[0]:
                        best = (key(item), item, s)
            if best and key is None:
                break
        if best:
            _, item, s = best
            self.item_leave(item, s)
            c.item = item
            c.from_store = s
            c.status = SCHEDULED
            self.push(i, self.now, 0, False)
            return
        c.from_stores = list(kw["stores"])
        for s in kw["stores"]:
            enter_sorted(self.sto[s].fromreq, i, kw.get("request_priority", 0))
        c.item = None
        c.filt = kw.get("filter", "any")
        c.keyfn = kw.get("key")
        c.status = REQUESTING
        self.push(i, t, kw.get("fail_priority", 0), kw.get("urgent", True), kw.get("cap_now"))

    def op_to_store(self, i, kw):
        c = self.comps[i]
        self.prepare(i)
        t = self.fail_time(kw)
        self.set_mode(i, kw)
        c.failed = False
        c.to_store = None
        for s in kw["stores"]:
            if len(self.sto[s].items) < self.sto[s].cap:
                self.item_enter(kw["item"], s, kw.get("priority", 0))
                c.to_store = s
                c.status = SCHEDULED
                self.push(i, self.now, 0, False)
                return
        c.to_stores = list(kw["stores"])
        for s in kw["stores"]:
            enter_sorted(self.sto[s].toreq, i, kw.get("request_priority", 0))
        c.to_item = kw["item"]
        c.to_prio = kw.get("priority", 0)
        c.status = REQUESTING
        self.push(i, t, kw.get("fail_priority", 0), kw.get("urgent", True), kw.get("cap_now"))

    def item_enter(self, item, s, prio):
        S = self.sto[s]
        if among(S.items, item):
            raise RefError("ValueError")
        if len(S.items) + 1 > S.cap:
            raise RefError("QueueFullError")
        enter_sorted(S.items, item, prio)
        for j, p in list(map(tuple, S.fromreq)):
            c = self.comps[j]
            if self.filter(c.filt)(item):
                for s0 in c.from_stores:
                    drop(self.sto[s0].fromreq, j)
                c.from_stores = []
                self.item_leave(item, s)
                c.item = item
                c.from_store = s
                self.unschedule(j)
                c.status = SCHEDULED
                self.push(j, self.now, 0, False)
                break

    def item_leave(self, item, s):
        S = self.sto[s]
        if not among(S.items, item):
            raise RefError("ValueError")
        drop(S.items, item)
        self.admit(s, 1)

    def admit(self, s, limit=inf):
        S = self.sto[s]
        n = 0
        while S.toreq and len(S.items) < S.cap and n < limit:
            n += 1
            j = S.toreq[0][0]
            c = self.comps[j]
            for s0 in c.to_stores:
                drop(self.sto[s0].toreq, j)
            c.to_stores = []
            self.item_enter(c.to_item, s, c.to_prio)
            self.unschedule(j)
            c.status = SCHEDULED
            self.push(j, self.now, 0, False)
            c.to_item = None
            c.to_store = s

    def op_item_enter(self, i, kw):
        if kw.get("priority") is None:
            S = self.sto[kw["s"]]
            self.item_enter(kw["item"], kw["s"], S.items[-1][1] if S.items else 0)
        else:
            self.item_enter(kw["item"], kw["s"], kw["priority"])

    def op_item_leave(self, i, kw):
        self.item_leave(kw["item"], kw["s"])

    def op_store_capacity(self, i, kw):
        S = self.sto[kw["s"]]
        old = S.cap
        S.cap = kw["cap"]
        self.admit(kw["s"])

    def op_filter(self, i, kw):
        c = self.comps[i]
        c.filt = kw["filter"]
        for s in list(c.from_stores):
            self.rescan(s)

    def op_rescan(self, i, kw):
        self.rescan(kw["s"])

    def rescan(self, s):
        S = self.sto[s]
        for j, p in list(map(tuple, S.fromreq)):
            c = self.comps[j]
            if not among(S.fromreq, j):
                continue
            items = [item for item, pp in S.items]
            if c.keyfn:
                items.sort(key=KEYS[c.keyfn])
            for item in items:
                if self.filter(c.filt)(item):
                    for s0 in c.from_stores:
                        drop(self.sto[s0].fromreq, j)
                    c.from_stores = []
                    self.item_leave(item, s)
                    c.item = item
                    c.from_store = s
                    self.unschedule(j)
                    c.status = SCHEDULED
                    self.push(j, self.now, 0, False)
                    break

    # -------------------------------------------------------------------------------------------------- observation
    def snapshot(self):
        off = self.offset
        comps = []
        evp = {e[3]: e[1] for e in self.events}
        for i, c in enumerate(self.comps):
            if c.status == ABSENT:
                comps.append(None)
                continue
            comps.append(
                (
                    c.status,
                    None if c.status == STANDBY else c.sched - off,
                    self.remaining(i),
                    evp.get(i),
                    c.ilevel if c.status == INTERRUPTED else 0,
                    c.failed,
                    c.mode,
                    c.mode_time - off,
                    c.proc and c.proc.rstrip("*"),
                    tuple((r, q) for r, q in c.requests),
                    tuple((r, q) for r, q in c.claims),
                    c.item,
                )
            )
        res = []
        for r in self.res:
            res.append(
                (
                    r.cap,
                    r.claimed,
                    r.cap - r.claimed,
                    0 if r.cap <= 0 else r.claimed / r.cap,
                    tuple(map(tuple, r.requesters)),
                    tuple(map(tuple, r.claimers)),
                )
            )
        sta = [(s.value, tuple(map(tuple, s.waiters))) for s in self.sta]
        sto = [(s.cap, s.cap - len(s.items), tuple(map(tuple, s.items)), tuple(map(tuple, s.fromreq)), tuple(map(tuple, s.toreq))) for s in self.sto]
        return (self.now - off, self.current, tuple(comps), tuple(res), tuple(sta), tuple(sto))
