"""C10 Discrete transitions lead to the right next-period state."""
import numpy as np

from checks import common as k
from checks.c09 import BIG, NAMES, B, big, build
from checks.table import look
from symx.harness import Case

ASSUMPTIONS = [
    "The tables are built by the code for each combination of sizes in the case's bounds; row, choice and branch are symbolic "
    "integers over the whole table.",
]


def successors(**kw):
    def h(c):
        m, shape = build(c, **kw)
        n = int(np.prod(shape))
        c.same("shape", tuple(np.asarray(m.child_idx).shape), (n, 3, 2, 2))
        T, A = shape[0], m.age_max
        if tuple(np.asarray(m.child_idx).shape) != (n, 3, 2, 2) or m.states.shape != (n, 6):
            return
        if T > 1:
            r = c.intvar("row", 0, n // T * (T - 1) - 1)
            st = [c.let("state.%s" % NAMES[i], look(m.states[:, i], r), isint=True) for i in range(6)]
            c.claim("rows before the last period", st[0] <= T - 2)
            ch, kid, pn = c.intvar("choice", 0, 2), c.intvar("child", 0, 1), c.intvar("partner next", 0, 1)
            nxt = c.let("successor", look(m.child_idx, r, ch, kid, pn), isint=True)
            c.claim("successor exists", k.and_(nxt >= 0, nxt < n))
            to = [look(m.states[:, i], nxt) for i in range(6)]
            age = st[4]
            older = k.ite(k.eq(age, -1), -1, k.ite(age + 1 > A, -1, age + 1))
            want = [st[0] + 1, st[1], ch, st[3], k.ite(k.eq(kid, 1), 0, older), pn]
            for i in range(6):
                c.eq("next %s" % NAMES[i], to[i], want[i])
            c.eq("update rule", look(m.child_update, r), older)
        f = c.intvar("final row from %d" % (n // T * (T - 1)), n // T * (T - 1), n - 1)
        c.eq("final rows are in the last period", look(m.states[:, 0], f), T - 1)
        ch, kid, pn = c.intvar("final choice", 0, 2), c.intvar("final child", 0, 1), c.intvar("final partner", 0, 1)
        c.claim("no successor after the last period", look(m.child_idx, f, ch, kid, pn) < 0)
    return h


def large(**kw):
    def h(c):
        b = big(c, **kw)
        if b is None:
            return
        m, shape, n, block, t = b
        c.same("shape", tuple(np.asarray(m.child_idx).shape), (n, 3, 2, 2))
        if tuple(np.asarray(m.child_idx).shape) != (n, 3, 2, 2):
            return
        T, A = shape[0], m.age_max
        r = c.intvar("row in the period's block", 0, block - 1)
        ch, kid, pn = c.intvar("choice", 0, 2), c.intvar("child", 0, 1), c.intvar("partner next", 0, 1)
        nxt = look(m.child_idx[block * t:block * (t + 1)], r, ch, kid, pn)
        if t == T - 1:
            c.claim("no successor after the last period", nxt < 0)
            return
        st = [c.let("state.%s" % NAMES[i], look(m.states[block * t:block * (t + 1), i], r), isint=True) for i in range(6)]
        nxt = c.let("successor", nxt, isint=True)
        c.claim("successor in the next period's block", k.and_(nxt >= block * (t + 1), nxt < block * (t + 2)))
        to = [look(m.states[block * (t + 1):block * (t + 2), i], nxt - block * (t + 1)) for i in range(6)]
        age = st[4]
        older = k.ite(k.eq(age, -1), -1, k.ite(age + 1 > A, -1, age + 1))
        want = [t + 1, st[1], ch, st[3], k.ite(k.eq(kid, 1), 0, older), pn]
        for i in range(6):
            c.eq("next %s" % NAMES[i], to[i], want[i])
    return h


SMALL = dict(periods=(1, 2, 3), educ=(1, 2), types=(1, 2), ages=(0, 1, 2))
WIDE = dict(periods=(2,), educ=(1,), types=(2,), ages=(5, 10))
DEEP = dict(periods=(2, 4), educ=(1, 2, 3), types=(1, 2, 3), ages=(0, 1, 3, 4))
LONG = dict(periods=(8,), educ=(3,), types=(2,), ages=(11,))

CASES = [
    Case("successors", successors(**SMALL), bounds=B(SMALL), max_paths=64, budget=200),
    Case("successors_wide", successors(**WIDE), bounds=B(WIDE), budget=200),
    Case("large", large(**BIG), bounds=dict(B(BIG), rows=67200, shown="periods 0, 1, 341, 682, 698, 699")),
    Case("successors_deep", successors(**DEEP), bounds=B(DEEP), max_paths=128, tier="thorough", budget=800),
    Case("successors_long", successors(**LONG), bounds=B(LONG), tier="thorough", budget=800),
]
