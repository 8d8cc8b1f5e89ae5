"""Input tables of the exogenous processes with symbolic entries, served in place of the pickled files."""
import contextlib

import numpy as np
import pandas as pd


def frame(c, values, index, column):
    col = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        col[i] = v
    if not c.sym:
        col = col.astype(float)
    return pd.DataFrame({column: col}, index=index)


class Exog:
    pass


def tables(c, m, extra=0):
    """Symbolic raw tables (extra periods beyond the model's) and the probabilities they stand for."""
    x = Exog()
    ic = m.dict["INITIAL_CONDITIONS"]
    ages = list(range(-1, ic["child_age_init_max"] + 1))
    years = list(range(m.init_exp_max + 1))
    n, T = m.n_educ, m.periods + extra
    pr = dict(lo=0, hi=1)
    x.raw_educ = c.vec("x.educ", n, **pr)
    x.raw_age = c.mat("x.age", (n, len(ages)), **pr)
    ev = dict(lo=0.001, hi=0.999)  # random events with a symbolic probability are uncertain
    x.raw_partner = c.vec("x.partner", n, **ev)
    x.raw_pt = c.mat("x.pt", (n, len(years)), **pr)
    x.raw_ft = c.mat("x.ft", (n, len(years)), **pr)
    x.raw_child = c.mat("x.child", (T, 3), **ev)
    x.raw_arrival = c.mat("x.arrival", (T, n), **ev)
    x.raw_separation = c.mat("x.separation", (T, n), **ev)
    le = pd.Index(range(n), name="educ_level")
    mi = pd.MultiIndex.from_product

    def pe(k):
        return mi([range(T), range(k)], names=["period", "educ_level"])

    flat = lambda a: list(np.asarray(a).view(np.ndarray).ravel())  # noqa: E731
    x.frames = {
        "educ.pkl": frame(c, flat(x.raw_educ), le, "educ_shares"),
        "child_age.pkl": frame(c, flat(x.raw_age), mi([range(n), ages], names=["educ_level", "child_age"]), "child_age_shares"),
        "partner.pkl": frame(c, flat(x.raw_partner), le, "partner_shares"),
        "pt.pkl": frame(c, flat(x.raw_pt), mi([range(n), years], names=["educ_level", "pt_exp"]), "exper_shares"),
        "ft.pkl": frame(c, flat(x.raw_ft), mi([range(n), years], names=["educ_level", "ft_exp"]), "exper_shares"),
        "child.pkl": frame(c, flat(x.raw_child), pe(3), "prob_child_values"),
        "arrival.pkl": frame(c, flat(x.raw_arrival), pe(n), "prob_partner_values"),
        "separation.pkl": frame(c, flat(x.raw_separation), pe(n), "prob_partner_values"),
    }
    # what the tables mean
    last = m.dict["EXOG_PROC"]["last_child_bearing_period"]
    x.child = c.array([[x.raw_child[t, e] if t <= last else 0.0 for e in range(3)] for t in range(m.periods)])
    a, s = x.raw_arrival, x.raw_separation
    x.prob_partner = c.array([[[[1 - a[t, e], a[t, e]], [s[t, e], 1 - s[t, e]]] for e in range(n)] for t in range(m.periods)])
    x.educ, x.partner = x.raw_educ, x.raw_partner
    first = lambda r: [1 - sum(list(r)[1:])] + list(r)[1:]  # noqa: E731
    x.age = c.array([first(r) for r in x.raw_age])
    x.pt = c.array([first(r) for r in x.raw_pt])
    x.ft = c.array([first(r) for r in x.raw_ft])
    return x


@contextlib.contextmanager
def served(frames, extra=None):
    """pandas.read_pickle returns fresh copies of the frames."""
    real = pd.read_pickle
    store = dict(frames, **(extra or {}))

    def read(name, *a, **k):
        return store[str(name)].copy(deep=True)

    pd.read_pickle = read
    try:
        yield
    finally:
        pd.read_pickle = real
