"""C12 Work disutility and wage equation use the right coefficients."""
import numpy as np

from checks import common as k
from checks import model as mo
from symx.harness import Case
from symx.sym import arr

ASSUMPTIONS = [
    "Coefficients, wages and increments are arbitrary reals (increments in [0,1] where experience is measured); education level, "
    "type, age bin and period are symbolic integers.",
]
BINS = ("0_2", "3_5", "6_10")


def params(c, types=4):
    v = dict(theta_p=c.vec("theta_p", types), theta_f=c.vec("theta_f", types), gamma_0=c.vec("gamma_0", 3), gamma_1=c.vec("gamma_1", 3))
    for kid in ("no_kids", "yes_kids"):
        for j in "fp":
            v["%s_%s" % (kid, j)] = c.vec("%s_%s" % (kid, j), 3)
    for b in BINS:
        for j in "fp":
            v["child_%s_%s" % (b, j)] = c.real("child_%s_%s" % (b, j))
    return v, k.record("params", **v)


def pick(vals, i):
    r = vals[len(vals) - 1]
    for j in range(len(vals) - 2, -1, -1):
        r = k.ite(k.eq(i, j), vals[j], r)
    return r


def disutility(n, types=4, fork=False):
    def h(c):
        from soepy.shared.non_consumption_utility import calculate_non_consumption_utility

        v, rec = params(c, types)
        e = [c.intvar("educ%d" % i, 0, 2) for i in range(n)]
        y = [c.intvar("type%d" % i, 0, types - 1) for i in range(n)]
        b = [(c.integer if fork else c.intvar)("bin%d" % i, 0, 4) for i in range(n)]
        ia = arr if c.sym else np.array
        fa = (lambda x: arr(x)) if c.sym else (lambda x: np.array(x, dtype=float))
        got = c.call(calculate_non_consumption_utility, rec, ia(e), ia(y), fa(b))
        c.same("shape", tuple(got.shape), (n, 3))
        for i in range(n):
            def coef(j):
                kid = pick(v["yes_kids_" + j], e[i])
                extra = k.ite(k.eq(b[i], 1), v["child_0_2_" + j], k.ite(k.eq(b[i], 2), v["child_3_5_" + j], k.ite(
                    k.eq(b[i], 3), v["child_6_10_" + j], 0.0)))
                return k.ite(k.eq(b[i], 0), pick(v["no_kids_" + j], e[i]), kid + extra)
            c.eq("no work %d" % i, got[i, 0], 1.0)
            c.eq("full-time %d" % i, got[i, 2], k.exp(pick(v["theta_f"], y[i]) + coef("f")))
            c.eq("part-time %d" % i, got[i, 1], k.exp(pick(v["theta_p"], y[i]) + coef("f") + coef("p")))
    return h


def log_wage(c):
    from soepy.shared.wages import calculate_log_wage

    v, rec = params(c)
    e = [c.intvar("educ%d" % i, 0, 2) for i in range(2)]
    t = c.intvar("period", 0, 60)
    x0 = c.intvar("init_exp_max", 0, 10)
    inc = c.vec("inc", 2, lo=0)
    share = c.real("share", lo=0, hi=1)
    ia = arr if c.sym else np.array
    got = c.call(calculate_log_wage, rec, ia(e), share, x0, inc, t)
    one = c.call(calculate_log_wage, rec, e[0], share, x0, inc[0], t)
    for i in range(2):
        years = share * (x0 + k.maximum(t, t * inc[i]))
        c.eq("log wage %d" % i, got[i], pick(v["gamma_0"], e[i]) + pick(v["gamma_1"], e[i]) * k.log(1 + years))
    c.eq("one woman", one, got[0])


def grid(c):
    """A woman's log wage at several experience shares."""
    from soepy.shared.wages import calculate_log_wage

    v, rec = params(c)
    e, t = c.intvar("educ", 0, 2), c.intvar("period", 0, 60)
    x0 = c.intvar("init_exp_max", 0, 10)
    inc = c.real("inc", lo=0, typ=(0, 1.5))
    share = c.vec("share", 3, lo=0, hi=1)
    got = c.call(calculate_log_wage, rec, e, share, x0, inc, t)
    c.same("shape", tuple(got.shape), (3,))
    for i in range(3):
        c.eq("share %d" % i, got[i], pick(v["gamma_0"], e) + pick(v["gamma_1"], e) * k.log(
            1 + share[i] * (x0 + k.maximum(t, t * inc))))


def rising(c):
    """More experience never lowers the wage when the return is not negative."""
    from soepy.shared.wages import calculate_log_wage

    v, rec = params(c)
    e = c.integer("educ", 0, 2)
    c.assume(v["gamma_1"][e] >= 0)
    t = c.integer("period", 0, 3)
    x0 = c.real("init_exp_max", lo=0, typ=(0, 8))
    inc = c.real("inc", lo=0, typ=(0, 1.5))
    a, b = c.real("share", lo=0, hi=1), c.real("other", lo=0, hi=1)
    c.assume(a <= b)
    wa = c.call(calculate_log_wage, rec, e, a, x0, inc, t)
    wb = c.call(calculate_log_wage, rec, e, b, x0, inc, t)
    c.le("never falls", wa, wb)
    c.le("constant at no experience", v["gamma_0"][e], wa)


def solved(**kw):
    """Disutilities the solution reports for every state."""
    def h(c):
        m = mo.build(c, **kw)
        pc, pp = mo.probs(c, m)
        ncu, _ = mo.solve(c, m, pc, pp)
        c.same("shape", tuple(ncu.shape), (len(m.states), 3))
        for st, i in m.row.items():
            t, e, lag, typ, age, partner = st
            c.eq("disutility %s" % (st,), ncu[i], [mo.disutility(m, e, typ, age, j) for j in range(3)])
    return h


CASES = [
    Case("disutility", disutility(2), bounds={"women": 2, "types": 4}),
    Case("disutility_many_types", disutility(1, 12, fork=True), bounds={"women": 1, "types": 12}),
    Case("log_wage", log_wage, bounds={"women": 2, "periods": "0..60"}),
    Case("grid", grid, bounds={"shares": 3, "periods": "0..60"}),
    Case("rising", rising, ineq=True, bounds={"periods": "0..3"}),
    Case("solved", solved(periods=2, types=2, educ_years=(0, 0, 0), child_age_max=3), bounds={
        "periods": 2, "types": 2, "education levels": 3, "child ages": "none, 0..3"}),
    Case("solved_ages", solved(periods=1, types=3, child_age_max=12), bounds={"periods": 1, "types": 3, "child ages": "none, 0..12"}),
]
