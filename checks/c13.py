"""C13 Expected continuation value: interpolate, then weight by probabilities."""
import numpy as np

from checks import common as k
from checks import model as mo
from symx.harness import Case
from symx.sym import arr

ASSUMPTIONS = [
    "Next-period values, probabilities, experience grid, initial maximum and part-time increments (0 to 1.5) are symbolic reals, "
    "the period is a symbolic integer 0..60; successor tables are arbitrary (every entry a symbolic row of the next period).",
    "The grid starts at 0, ends at 1 and is strictly increasing.",
]


DIAG = [[[[0, 1], [2, 3]]] * 3]


def setup(c, n_states, n_next, n_grid, table=None, mid=None):
    g = [0.0]
    if mid is not None:
        g.append(mid)
    elif n_grid > 2:
        for i in range(n_grid - 2):
            name = "mid" if n_grid == 3 else "step%d" % i
            g.append(g[-1] + c.real(name, lo=1e-6, hi=1, typ=(0.05, 0.95 / (n_grid - 2))))
        c.assume(g[-1] <= 1 - 1e-6)
    g.append(1.0)
    v = c.mat("value", (n_next, n_grid))
    if table is None:
        t = np.empty((n_states, 3, 2, 2), dtype=object)
        for ix in np.ndindex(*t.shape):
            t[ix] = c.intvar("next%s" % (list(ix),), 0, n_next - 1)
        idx = arr(t.tolist()) if c.sym else t.astype(int)
        tab = t
    else:
        idx = tab = np.asarray(table)
    period = c.intvar("period", 0, 60)
    x0 = c.intvar("init_exp_max", 0, 10)
    inc = c.vec("inc", n_states, lo=0, hi=1.5)
    kid = c.vec("prob_child", n_states, lo=0, hi=1)
    p1 = c.vec("prob_partner", n_states, lo=0, hi=1)
    pp = c.array([[1 - p1[i], p1[i]] for i in range(n_states)])
    return dict(g=g, v=v, idx=idx, tab=tab, period=period, x0=x0, inc=inc, kid=kid, pp=pp, p1=p1)


def run(c, s, v=None, pp=None, kid=None):
    from soepy.solve.continuous_continuation import interpolate_then_weight_continuation_values as f

    import jax.numpy as jnp

    # the solution calls it inside a compiled function, on JAX arrays
    def a(x):
        return x if c.sym and x.dtype == object else jnp.asarray(x)

    return c.call(f, exp_grid=a(c.array(s["g"])), v_next_grid=a(s["v"] if v is None else v), child_state_indexes_local=a(s["idx"]),
                  period=s["period"], init_exp_max=s["x0"], pt_increment_states=a(s["inc"]),
                  prob_child_states=a(s["kid"] if kid is None else kid), prob_partner_states=a(s["pp"] if pp is None else pp))


def share(c, s, i, j, x):
    inc = s["inc"][i]

    def most(t):
        return s["x0"] + k.maximum(t, t * inc)
    y = x * most(s["period"]) + {0: 0.0, 1: inc, 2: 1.0}[j]
    return k.minimum(1.0, y / most(s["period"] + 1))


def pick(vals, i):
    if not hasattr(i, "t"):
        return vals[int(i)]
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = k.ite(k.eq(i, j), vals[j], r)
    return r


def values_at(c, s, ix):
    """Values of one successor on the grid."""
    return [pick([s["v"][r, q] for r in range(len(s["v"]))], s["tab"][ix]) for q in range(len(s["g"]))]


def formula(n_states, n_next, n_grid, table=None, choices=(0, 1, 2)):
    def h(c):
        s = setup(c, n_states, n_next, n_grid, table)
        got = run(c, s)
        c.same("shape", tuple(got.shape), (n_states, 3, n_grid))
        for i in range(n_states):
            for j in choices:
                for q, x in enumerate(s["g"]):
                    at = share(c, s, i, j, x)
                    want = 0.0
                    for kid in (0, 1):
                        for pn in (0, 1):
                            prob = (s["kid"][i] if kid else 1 - s["kid"][i]) * (s["p1"][i] if pn else 1 - s["p1"][i])
                            want = want + prob * mo.interp(s["g"], values_at(c, s, (i, j, kid, pn)), at)
                    c.eq("state %d choice %d grid %d" % (i, j, q), got[i, j, q], want)
    return h


def bounds(n_grid):
    """Between the smallest and the largest value: with the linearity and constancy cases, from values that are not negative."""
    def h(c):
        s = setup(c, 1, 4, n_grid, table=DIAG, mid=c.choice("middle", [0.25, 0.6]) if n_grid == 3 else None)
        v = c.mat("gain", (4, n_grid), lo=0)
        got = run(c, s, v=v)
        for j in range(3):
            for q in range(n_grid):
                c.le("not negative %d %d" % (j, q), 0.0, got[0, j, q])
    return h


def constant(c):
    s = setup(c, 2, 3, 3)
    v = c.real("constant")
    got = run(c, s, v=c.array([[v] * 3] * 3))
    for ix in np.ndindex(2, 3, 3):
        c.eq("constant %s" % (ix,), got[ix], v)




def irrelevant(c):
    """A branch of probability zero has no influence."""
    s = setup(c, 1, 4, 3, table=DIAG)
    other = c.vec("other", 3)
    for label, kid, p1, rows in (("no birth", 0.0, None, (2, 3)), ("birth", 1.0, None, (0, 1)), ("no partner", None, 0.0, (1, 3)),
                                 ("partner", None, 1.0, (0, 2)), ("no birth, no partner", 0.0, 0.0, (1, 2, 3))):
        kids = s["kid"] if kid is None else c.array([kid])
        pp = s["pp"] if p1 is None else c.array([[1 - p1, p1]])
        v2 = c.array([[other[q] if r in rows else s["v"][r, q] for q in range(3)] for r in range(4)])
        c.eq(label, run(c, s, pp=pp, kid=kids), run(c, s, v=v2, pp=pp, kid=kids))


def linear(c):
    """Unaffected order of averaging: linear in the next period's values."""
    s = setup(c, 1, 4, 3, table=DIAG)
    u, a = c.mat("other", (4, 3)), c.real("factor")
    mix = c.array([[s["v"][r, q] + a * u[r, q] for q in range(3)] for r in range(4)])
    g1, g2, g3 = run(c, s), run(c, s, v=u), run(c, s, v=mix)
    for ix in np.ndindex(1, 3, 3):
        c.eq("linear %s" % (ix,), g3[ix], g1[ix] + a * g2[ix])


def solved(biased=False, **kw):
    """The stored continuation values are these expectations, with each period's and group's own probabilities."""
    def h(c):
        m = mo.build(c, **kw)
        for e in range(m.n_educ):
            c.assume(k.and_(mo.pt_inc(m, e, 0, False) >= 0, mo.pt_inc(m, e, 0, False) <= 1))
        pc, pp = mo.probs(c, m)
        _, emaxs = mo.solve(c, m, pc, pp, biased)
        for st, i in m.row.items():
            t, e, lag, typ, age, partner = st
            for j in range(3):
                for q, x in enumerate(m.grid):
                    want = 0.0
                    for kid in (0, 1):
                        for pn in (0, 1):
                            if t == m.periods - 1:
                                continue
                            r = m.row[mo.successor(m, st, j, kid, pn)]
                            v = mo.interp(m.grid, [emaxs[r, g, 3] for g in range(len(m.grid))],
                                          mo.next_share(m, x, t, mo.pt_inc(m, e, age, biased), j))
                            want = want + (pc[t, e] if kid else 1 - pc[t, e]) * pp[t, e, partner, pn] * v
                    c.eq("state %s choice %d grid %d" % (st, j, q), emaxs[i, q, j], want)
    return h


CASES = [
    Case("solved", solved(periods=3, child_age_max=0), bounds={"periods": 3, "child ages": "none, 0", "grid points": 2}, budget=150),
    Case("solved_education", solved(periods=2, child_age_max=1, educ_years=(0, 1)), bounds={
        "periods": 2, "education levels": 2, "child ages": "none, 0, 1", "grid points": 2}, budget=150),
    Case("solved_types", solved(True, periods=2, types=2, child_age_max=0, n_draws=2), bounds={
        "periods": 2, "types": 2, "draws": 2, "grid points": 2}, budget=150),
    Case("formula", formula(1, 4, 3), bounds={"states": 1, "next states": 4, "grid points": 3}, budget=200),
    Case("formula_states", formula(3, 2, 2), bounds={"states": 3, "next states": 2, "grid points": 2}, budget=200),
    Case("formula_grid5", formula(1, 4, 5, table=DIAG), bounds={"states": 1, "next states": 4, "grid points": 5}, budget=200),
    Case("bounds", bounds(2), ineq=True, bounds={"next states": 4, "grid points": 2}),
    Case("bounds3", bounds(3), ineq=True, bounds={"next states": 4, "grid points": 3}),
    Case("constant", constant, bounds={"states": 2, "next states": 3, "grid points": 3}),
    Case("irrelevant", irrelevant, bounds={"next states": 4, "grid points": 3}),
    Case("linear", linear, bounds={"next states": 4, "grid points": 3}),
]
