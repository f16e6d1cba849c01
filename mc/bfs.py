"""
Explicit-state exploration of a reference model.

`explore` does a breadth-first search over the canonical states of a model; every transition of the explored graph lies on at
least one of the returned paths (operation histories), and each of those paths is then executed on the real code with the model
in lockstep.  Only paths that are not a proper prefix of another returned path are returned, so nothing is executed twice.
"""

# how many further operations histories that end in a state seen before are extended with, in all possible ways (set by core.main)
SLACK = 0


def explore(initial, enabled, apply, canon, depth, dedupe=True, stop=None, extra_key=None, max_states=None, tail=3):
    """
    initial: () -> model state (fresh)
    enabled: state -> list of ops (simplest first)
    apply:   (state, op) -> new state (must not alter state)
    canon:   state -> hashable
    stop:    state -> bool; such states are not expanded (e.g. after an error)
    tail:    a history that ends in a state seen before is continued with this many further operations, taken in rotation from the
             enabled ones, so that what an implementation may remember of the way it got there has a chance to show
    returns (paths, number_of_states, number_of_transitions)
    """
    turn = 0

    def continued(h, s):
        nonlocal turn
        for _ in range(tail):
            if stop and stop(s):
                break
            ops = enabled(s)
            if not ops:
                break
            op = ops[turn % len(ops)]
            turn += 1
            s = apply(s, op)
            h = h + (op,)
        return h

    s0 = initial()
    key0 = canon(s0)
    seen = {key0}
    frontier = [((), s0, SLACK)]
    paths = []
    nstates = 1
    ntrans = 0
    for d in range(depth):
        nxt = []
        for hist, s, slack in frontier:
            if stop and stop(s):
                paths.append(hist)
                continue
            ops = enabled(s)
            if not ops:
                paths.append(hist)
                continue
            for op in ops:
                ntrans += 1
                s1 = apply(s, op)
                h1 = hist + (op,)
                if dedupe:
                    k = canon(s1) if extra_key is None else (canon(s1), extra_key(h1))
                    if k in seen:
                        if slack == 0 or d + 1 == depth:
                            paths.append(continued(h1, s1))
                        else:
                            nxt.append((h1, s1, slack - 1))
                        continue
                    seen.add(k)
                nstates += 1
                if d + 1 == depth:
                    paths.append(continued(h1, s1) if dedupe else h1)
                else:
                    nxt.append((h1, s1, slack))
        frontier = nxt
    return paths, nstates, ntrans


def sequences(ops, depth):
    """all sequences of exactly `depth` operations (every shorter one is a prefix), simplest-first"""
    if depth == 0:
        yield ()
        return
    for h in sequences(ops, depth - 1):
        for op in ops:
            yield h + (op,)
