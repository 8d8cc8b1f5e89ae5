"""Lookup in a table at a symbolic row."""
import numpy as np

from symx import term as tm
from symx.sym import Sym, toreal


def look(table, *idx):
    """table[idx] for symbolic or concrete indices in range: nested decision trees over the indices."""
    a = np.asarray(table).view(np.ndarray)
    assert a.ndim == len(idx)
    if not any(isinstance(i, Sym) for i in idx):
        return a[tuple(min(max(int(i), 0), n - 1) for i, n in zip(idx, a.shape))]
    return Sym(_tree(a, [toreal(i) for i in idx]))


def _in(i, a):
    return min(max(int(i.args[0]), 0), len(a) - 1)


def _tree(a, idx):
    if not idx:
        return toreal(a.item() if a.dtype != object else a[()])
    i, rest = idx[0], idx[1:]
    if i.op == "c":
        return _tree(a[_in(i, a)], rest)
    if i.ctree:
        return tm.map_ctree(i, lambda x: _tree(a[_in(x, a)], rest))
    sub = [_tree(x, rest) for x in a]

    def go(lo, hi):
        if all(t is sub[lo] for t in sub[lo:hi]):
            return sub[lo]
        mid = (lo + hi) // 2
        return tm.ite(tm.lt(i, tm.const(mid - 0.5)), go(lo, mid), go(mid, hi))
    return go(0, len(sub))
