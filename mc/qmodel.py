"""Reference model of salabim queues: a queue is a plain python list of [component, priority, enter_time]."""

import math

inf = math.inf


class QErr(Exception):
    pass


class QModel:
    """nq queues, nc components, one clock"""

    def __init__(self, nq, nc, caps=None):
        self.nc = nc
        self.now = 0
        self.q = [[] for _ in range(nq)]
        self.cap = list(caps) if caps else [inf] * nq
        self.err = None
        # statistics
        self.arr = [0] * nq
        self.dep = [0] * nq
        self.stays = [[] for _ in range(nq)]
        self.len_hist = [[(0, 0)] for _ in range(nq)]
        self.cap_hist = [[(0, c)] for c in self.cap]
        self.avail_hist = [[(0, c)] for c in self.cap]

    def clone(self):
        m = QModel.__new__(QModel)
        m.nc = self.nc
        m.now = self.now
        m.q = [[list(e) for e in q] for q in self.q]
        m.cap = list(self.cap)
        m.err = self.err
        m.arr = list(self.arr)
        m.dep = list(self.dep)
        m.stays = [list(s) for s in self.stays]
        m.len_hist = [list(s) for s in self.len_hist]
        m.cap_hist = [list(s) for s in self.cap_hist]
        m.avail_hist = [list(s) for s in self.avail_hist]
        return m

    def order(self, k):
        return [e[0] for e in self.q[k]]

    def canon(self):
        return (tuple(tuple((e[0], e[1]) for e in q) for q in self.q), tuple(self.cap), self.err)

    # primitives
    def _pos(self, k, c):
        for i, e in enumerate(self.q[k]):
            if e[0] == c:
                return i
        return None

    def _need(self, k, c):
        i = self._pos(k, c)
        if i is None:
            raise QErr("ValueError")
        return i

    def _neednot(self, k, c):
        if self._pos(k, c) is not None:
            raise QErr("ValueError")

    def _tally(self, k):
        self.len_hist[k].append((self.now, len(self.q[k])))
        self.avail_hist[k].append((self.now, self.cap[k] - len(self.q[k])))

    def _insert(self, k, i, c, prio):
        if len(self.q[k]) + 1 > self.cap[k]:
            raise QErr("QueueFullError")
        self.q[k].insert(i, [c, prio, self.now])
        self.arr[k] += 1
        self._tally(k)

    def _delete(self, k, c):
        i = self._need(k, c)
        e = self.q[k].pop(i)
        self.dep[k] += 1
        self.stays[k].append(self.now - e[2])
        self._tally(k)

    def _sorted_pos(self, k, prio):
        i = 0
        while i < len(self.q[k]) and self.q[k][i][1] <= prio:
            i += 1
        return i

    def add(self, k, c, prio=None):
        self._neednot(k, c)
        if prio is None:
            self._insert(k, len(self.q[k]), c, self.q[k][-1][1] if self.q[k] else 0)
        else:
            self._insert(k, self._sorted_pos(k, prio), c, prio)

    def op(self, op):
        """apply one operation; returns its result"""
        name, k = op[0], op[1]
        a = op[2:]
        q = self.q[k] if k is not None else None
        if name in ("add", "append", "enter", "add_sorted", "enter_sorted"):
            self.add(k, *a)
        elif name in ("add_at_head", "enter_at_head"):
            self._neednot(k, a[0])
            self._insert(k, 0, a[0], q[0][1] if q else 0)
        elif name in ("add_in_front_of", "enter_in_front_of"):
            self._neednot(k, a[0])
            i = self._need(k, a[1])
            self._insert(k, i, a[0], q[i][1])
        elif name in ("add_behind", "enter_behind"):
            self._neednot(k, a[0])
            i = self._need(k, a[1])
            self._insert(k, i + 1, a[0], q[i][1])
        elif name == "insert":
            i, c = a
            if i < 0 or i > len(q):
                raise QErr("IndexError")
            self._neednot(k, c)
            if not q:
                prio = 0
            elif i == len(q):
                prio = q[-1][1]
            else:
                prio = q[i][1]
            self._insert(k, i, c, prio)
        elif name in ("remove", "leave"):
            self._delete(k, a[0])
        elif name == "leave_all":
            for kk in range(len(self.q)):
                if self._pos(kk, a[0]) is not None:
                    self._delete(kk, a[0])
        elif name == "pop":
            if a:
                i = a[0]
                n = len(q)
                if i < -n or i >= n:
                    raise QErr("IndexError")
                c = q[i][0]
            else:
                if not q:
                    return None
                c = q[0][0]
            self._delete(k, c)
            return c
        elif name == "del":
            i = a[0]
            n = len(q)
            if i < -n or i >= n:
                raise QErr("IndexError")
            self._delete(k, q[i][0])
        elif name == "delslice":
            for c in self.order(k)[slice(*a)]:
                self._delete(k, c)
        elif name == "clear" or name == "remove_all":
            for c in self.order(k):
                self._delete(k, c)
        elif name == "priority":
            c, p = a
            i = self._need(k, c)
            if q[i][1] != p:
                e = q.pop(i)
                e[1] = p
                q.insert(self._sorted_pos(k, p), e)
            return p
        elif name == "extend":
            src, clear = a
            for c in self.order(src):
                if self._pos(k, c) is None:
                    self.add(k, c)
            if clear:
                for c in self.order(src):
                    self._delete(src, c)
        elif name == "extend_list":
            for c in a[0]:
                if self._pos(k, c) is None:
                    self.add(k, c)
        elif name == "set_capacity":
            self.cap[k] = a[0]
            self.cap_hist[k].append((self.now, a[0]))
            self.avail_hist[k].append((self.now, a[0] - len(q)))
        elif name == "run":
            self.now += a[0]
        else:
            raise RuntimeError(op)
        return None


def apply(m, op):
    m = m.clone()
    try:
        m.op(op)
    except QErr:
        pass  # a refused operation leaves the model as it was (checked on the implementation too)
    return m


def real_op(op, qs, cs, env):
    name, k = op[0], op[1]
    a = op[2:]
    q = qs[k] if k is not None else None
    if name == "add":
        return q.add(cs[a[0]], *a[1:])
    if name == "append":
        return q.append(cs[a[0]], *a[1:])
    if name == "enter":
        return cs[a[0]].enter(q, *a[1:])
    if name == "add_sorted":
        return q.add_sorted(cs[a[0]], a[1])
    if name == "enter_sorted":
        return cs[a[0]].enter_sorted(q, a[1])
    if name == "add_at_head":
        return q.add_at_head(cs[a[0]])
    if name == "enter_at_head":
        return cs[a[0]].enter_at_head(q)
    if name == "add_in_front_of":
        return q.add_in_front_of(cs[a[0]], cs[a[1]])
    if name == "enter_in_front_of":
        return cs[a[0]].enter_in_front_of(q, cs[a[1]])
    if name == "add_behind":
        return q.add_behind(cs[a[0]], cs[a[1]])
    if name == "enter_behind":
        return cs[a[0]].enter_behind(q, cs[a[1]])
    if name == "insert":
        return q.insert(a[0], cs[a[1]])
    if name == "remove":
        return q.remove(cs[a[0]])
    if name == "leave":
        return cs[a[0]].leave(q)
    if name == "leave_all":
        return cs[a[0]].leave()
    if name == "pop":
        return q.pop(*a)
    if name == "del":
        del q[a[0]]
        return None
    if name == "delslice":
        del q[slice(*a)]
        return None
    if name == "clear":
        return q.clear()
    if name == "remove_all":
        return q.remove()
    if name == "priority":
        return cs[a[0]].priority(q, a[1])
    if name == "extend":
        return q.extend(qs[a[0]], clear_source=a[1])
    if name == "extend_list":
        return q.extend([cs[i] for i in a[0]])
    if name == "set_capacity":
        return q.set_capacity(a[0])
    if name == "run":
        return env.run(duration=a[0])
    raise RuntimeError(op)
