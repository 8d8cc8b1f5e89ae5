"""C09 State space is complete, unique, period-ordered and correctly indexed."""
import numpy as np

from checks import common as k
from checks import model as mo
from checks.table import look
from symx.harness import Case

ASSUMPTIONS = [
    "The tables are built by the code for each combination of sizes in the case's bounds; the combination of coordinates, or "
    "the row, is a symbolic integer over the whole table.",
]


def build(c, periods, educ, types, ages):
    T, E, y, A = c.choice("periods", periods), c.choice("education levels", educ), c.choice("types", types), c.choice("maximum age", ages)
    return mo.build(c, periods=T, educ_years=[0] * E, types=y, child_age_max=A), (T, E, 3, y, A + 2, 2)


# columns of the state table in the order of the lookup table's axes
COLS = (0, 1, 2, 3, 4, 5)
NAMES = ("period", "education", "last choice", "type", "age", "partner")


def by_age(indexer):
    """The lookup table with the age axis ordered none, 0, 1, ... (the last entry is none)."""
    x = np.asarray(indexer).view(np.ndarray)
    return np.concatenate([x[:, :, :, :, -1:], x[:, :, :, :, :-1]], axis=4)


def coordinates(**kw):
    """From a combination to its row and back."""
    def h(c):
        m, shape = build(c, **kw)
        n = int(np.prod(shape))
        c.same("number of rows", m.states.shape, (n, 6))
        c.same("shape of the lookup table", np.asarray(m.indexer).shape, shape)
        if m.states.shape != (n, 6) or np.asarray(m.indexer).shape != shape:
            return
        x = [c.intvar(NAMES[i], 0, shape[i] - 1) for i in range(6)]
        row = c.let("row", look(by_age(m.indexer), *x), isint=True)
        c.claim("row exists", k.and_(row >= 0, row < n))
        for i in range(6):
            c.eq("%s of the row" % NAMES[i], look(m.states[:, COLS[i]], row),
                 x[i] - 1 if i == 4 else x[i])
    return h


def rows(**kw):
    """From a row to its combination and back; order of the blocks."""
    def h(c):
        m, shape = build(c, **kw)
        n = int(np.prod(shape))
        c.same("number of rows", m.states.shape, (n, 6))
        if m.states.shape != (n, 6) or np.asarray(m.indexer).shape != shape:
            return
        r = c.intvar("row", 0, n - 1)
        x = [c.let("state.%s" % NAMES[i], look(m.states[:, COLS[i]], r), isint=True) for i in range(6)]
        x[4] = x[4] + 1
        c.claim("within the model's range", k.and_(*[k.and_(x[i] >= 0, x[i] <= shape[i] - 1) for i in range(6)]))
        c.eq("row of its combination", look(by_age(m.indexer), *x), r)
        block = n // shape[0]
        c.claim("block of its period", k.and_(block * x[0] <= r, r < block * (x[0] + 1)))
        if shape[0] > 1:
            q = c.intvar("earlier row", 0, n - block - 1)
            for i in range(1, 6):
                c.eq("%s one block later" % NAMES[i], look(m.states[block:, COLS[i]], q), look(m.states[:-block, COLS[i]], q))
            c.eq("period one block later", look(m.states[block:, 0], q), look(m.states[:-block, 0], q) + 1)
    return h


class Typical:
    """Stands in for the context where the numbers of the model play no part: the middle of each typical range."""

    def __init__(self, c):
        self.c = c

    def real(self, name, lo=None, hi=None, typ=(1, 2), **kw):
        return (typ[0] + typ[1]) / 2

    def positive(self, name, typ=(1, 2), **kw):
        return (typ[0] + typ[1]) / 2

    def assume(self, cond):
        return None

    def __getattr__(self, name):
        return getattr(self.c, name)


def big(c, periods, educ, types, ages):
    """A model with more rows than 16-bit numbers; one period at a time, with the periods of rows 2^15 and 2^16."""
    T, E, y, A = c.choice("periods", periods), c.choice("education levels", educ), c.choice("types", types), c.choice("maximum age", ages)
    w = Typical(c)
    m = mo.build(c, periods=T, educ_years=[0] * E, types=y, child_age_max=A, p=mo.draw_params(w, E, y), s=mo.draw_spec(w))
    shape = (T, E, 3, y, A + 2, 2)
    n = int(np.prod(shape))
    c.same("number of rows", m.states.shape, (n, 6))
    c.same("shape of the lookup table", np.asarray(m.indexer).shape, shape)
    if m.states.shape != (n, 6) or np.asarray(m.indexer).shape != shape:
        return None
    block = n // shape[0]
    t = c.choice("period", sorted({0, 1, 2 ** 15 // block, 2 ** 16 // block, shape[0] - 2, shape[0] - 1} & set(range(shape[0]))))
    return m, shape, n, block, t


def large(**kw):
    def h(c):
        b = big(c, **kw)
        if b is None:
            return
        m, shape, n, block, t = b
        part = m.states[block * t:block * (t + 1)]
        r = c.intvar("row in the period's block", 0, block - 1)
        x = [c.let("state.%s" % NAMES[i], look(part[:, COLS[i]], r), isint=True) for i in range(6)]
        c.eq("period of the block", x[0], t)
        x[4] = x[4] + 1
        c.claim("within the model's range", k.and_(*[k.and_(x[i] >= 0, x[i] <= shape[i] - 1) for i in range(6)]))
        c.eq("row of its combination", look(by_age(m.indexer)[t], *x[1:]), block * t + r)
        y = [t] + [c.intvar(NAMES[i], 0, shape[i] - 1) for i in range(1, 6)]
        row = c.let("row", look(by_age(m.indexer)[t], *y[1:]), isint=True)
        c.claim("row exists in the period's block", k.and_(row >= block * t, row < block * (t + 1)))
        for i in range(6):
            c.eq("%s of the row" % NAMES[i], look(part[:, COLS[i]], row - block * t), y[i] - 1 if i == 4 else y[i])
    return h


SMALL = dict(periods=(1, 2, 3), educ=(1, 3), types=(1, 2), ages=(0, 2))
WIDE = dict(periods=(2,), educ=(2,), types=(3,), ages=(5, 10, 11))
DEEP = dict(periods=(2, 4), educ=(1, 2, 3), types=(1, 2, 3), ages=(0, 1, 3, 4))
BIG = dict(periods=(700,), educ=(2,), types=(2,), ages=(2,))
LONG = dict(periods=(10,), educ=(3,), types=(2,), ages=(11,))


def B(d):
    return {n: list(v) for n, v in d.items()}


CASES = [
    Case("coordinates", coordinates(**SMALL), bounds=B(SMALL), max_paths=64),
    Case("rows", rows(**SMALL), bounds=B(SMALL), max_paths=64),
    Case("coordinates_wide", coordinates(**WIDE), bounds=B(WIDE)),
    Case("rows_wide", rows(**WIDE), bounds=B(WIDE)),
    Case("large", large(**BIG), bounds=dict(B(BIG), rows=67200, shown="periods 0, 1, 341, 682, 698, 699")),
    Case("coordinates_deep", coordinates(**DEEP), bounds=B(DEEP), max_paths=128, tier="thorough", budget=800),
    Case("rows_deep", rows(**DEEP), bounds=B(DEEP), max_paths=128, tier="thorough", budget=800),
    Case("coordinates_long", coordinates(**LONG), bounds=B(LONG), tier="thorough", budget=800),
    Case("rows_long", rows(**LONG), bounds=B(LONG), tier="thorough", budget=800),
]
