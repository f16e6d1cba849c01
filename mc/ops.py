"""Small builders for operation alphabets."""

from mc.refsim import MAIN, ABSENT, DATA, CURRENT


def product_kw(**domains):
    """all keyword dictionaries; a value None means: leave the keyword out"""
    out = [{}]
    for k, dom in domains.items():
        out = [dict(d, **({} if v is None else {k: v})) for d in out for v in dom]
    return out


def on(names_kw, targets):
    """[(name, kw), ...] applied to each target"""
    return [(n, i, kw) for i in targets for n, kw in names_kw]


def enabled_fn(per_comp, common=(), main_only=(), comp_only=(), ncomp=2, legal=None):
    """
    the alphabet: per_comp operations on every (existing) component, common ones, and those only main / only a component may do
    """
    per = on(per_comp, range(ncomp))

    def enabled(m):
        ops = []
        for op in per:
            st = m.comps[op[1]].status
            if (st == ABSENT) != (op[0] == "create"):
                continue
            if legal and not legal(m, op):
                continue
            ops.append(op)
        for op in common:
            if legal and not legal(m, op):
                continue
            ops.append(op)
        for op in main_only if m.current == MAIN else comp_only:
            if legal and not legal(m, op):
                continue
            ops.append(op)
        return ops

    return enabled


RUN1 = ("run", None, {"duration": 1})
RUN = ("run", None, {})
END = ("end", None, {})
