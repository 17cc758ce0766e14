"""Linearizability checker (Wing & Gong with memoisation)."""


class Op(object):
    __slots__ = ("inv", "ret", "label", "step", "task")

    def __init__(self, inv, ret, label, step, task=None):
        """step(state) -> list of next states (empty: impossible).  ret None: pending (may or may not
        have taken effect; step must then give all possible effects)"""
        self.inv, self.ret, self.label, self.step, self.task = inv, ret, label, step, task


def check(ops, initial, limit=200000):
    """True, False or None (undecided: limit reached)"""
    INF = float("inf")
    n = len(ops)
    done = [o for o in ops if o.ret is not None]
    full = 0
    for i, o in enumerate(ops):
        if o.ret is not None:
            full |= 1 << i
    rets = [o.ret if o.ret is not None else INF for o in ops]
    invs = [o.inv for o in ops]
    order = sorted(range(n), key=lambda i: rets[i])
    seen = set()
    stack = [(0, initial)]
    count = 0
    while stack:
        mask, state = stack.pop()
        if mask & full == full:
            return True
        key = (mask, state)
        if key in seen:
            continue
        seen.add(key)
        count += 1
        if count > limit:
            return None
        # earliest return among the operations not yet linearized
        first = INF
        for i in order:
            if not (mask >> i) & 1:
                first = rets[i]
                break
        for i in reversed(order):
            if (mask >> i) & 1 or invs[i] > first:
                continue
            for ns in ops[i].step(state):
                stack.append((mask | (1 << i), ns))
    return not done and True or False


def describe(ops):
    return "; ".join("%s[%s,%s] %s" % (o.task or "", o.inv, o.ret, o.label)
                     for o in sorted(ops, key=lambda o: o.inv))
