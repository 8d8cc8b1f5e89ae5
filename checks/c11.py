"""C11 Household covariates match the household composition."""
import numpy as np

from checks import common as k
from checks import model as mo
from checks.table import look
from symx.harness import Case

ASSUMPTIONS = [
    "Coefficients of the partner's wage equation and child benefits are arbitrary reals (benefits positive). Direct cases: the "
    "household (period, education, age of the child up to the maximum of the case, partner) is a vector of symbolic integers; table "
    "cases: every row of the state space of the stated sizes.",
]


def bin_of(age):
    return k.ite(k.eq(age, -1), 0, k.ite(age <= 2, 1, k.ite(age <= 5, 2, k.ite(age <= 10, 3, 4))))


def check(c, m, cov, i, t, e, age, partner):
    s = m.s
    kid, couple = age >= 0, k.eq(partner, 1)
    log = k.log(s["partner_wage0"]) + s["partner_cf_age"] * t + s["partner_cf_age_sq"] * t * t + s["partner_cf_educ"] * e
    c.eq("age bin %s" % (i,), cov[0], bin_of(age))
    c.eq("partner's earnings %s" % (i,), cov[1], k.ite(couple, 38 * k.exp(log), 0.0))
    c.eq("equivalence scale %s" % (i,), cov[2], k.ite(couple, k.ite(kid, 1.8, 1.5), k.ite(kid, 1.3, 1.0)))
    c.eq("child benefits %s" % (i,), cov[3], k.ite(kid, s["child_benefits"], 0.0))


def direct(ages, rows=2):
    """The covariates of symbolic households."""
    def h(c):
        from soepy.solve.covariates import construct_covariates

        A = c.choice("maximum age", ages)
        m = mo.build(c, child_age_max=A, educ_years=(0, 0, 0), states=False)
        cols = []
        for r in range(rows):
            cols.append([c.intvar("period%d" % r, 0, 60), c.intvar("educ%d" % r, 0, 2), c.intvar("lagged%d" % r, 0, 2),
                         c.intvar("type%d" % r, 0, 3), c.intvar("age%d" % r, -1, A), c.intvar("partner%d" % r, 0, 1)])
        if c.sym:
            o = np.empty((rows, 6), dtype=object)
            for r in range(rows):
                o[r] = cols[r]
            st = c.array(o)
        else:
            st = np.array(cols, dtype=np.int32)
        cov = construct_covariates(st, m.spec)
        c.same("shape", tuple(cov.shape), (rows, 4))
        for r in range(rows):
            t, e, _, _, age, partner = cols[r]
            check(c, m, cov[r], r, t, e, age, partner)
    return h


def table(**kw):
    """All rows of the model's own covariates; the discrete ones by a symbolic row."""
    def h(c):
        m = mo.build(c, **kw)
        n = len(m.states)
        cov = m.covariates
        c.same("shape", tuple(cov.shape), (n, 4))
        for st, i in m.row.items():
            t, e, _, _, age, partner = st
            check(c, m, cov[i], st, t, e, age, partner)
    return h


def neighbours(c):
    """The covariates of a household do not depend on which other households are in the table."""
    from soepy.solve.covariates import construct_covariates

    m = mo.build(c, child_age_max=12, educ_years=(0, 0, 0), states=False)
    a, b = [np.array([[c.intvar("%s%d" % (n, r), lo, hi) for n, lo, hi in (
        ("period", 0, 60), ("educ", 0, 2), ("lagged", 0, 2), ("type", 0, 3), ("age", -1, 12), ("partner", 0, 1))] for r in rs],
        dtype=object if c.sym else np.int32) for rs in ((0, 1), (2,))]
    wrap = c.array if c.sym else (lambda x: x)
    both = construct_covariates(wrap(np.concatenate([a, b])), m.spec)
    c.eq("first two", both[:2], construct_covariates(wrap(a), m.spec))
    c.eq("last", both[2:], construct_covariates(wrap(b), m.spec))


AGES = (*range(0, 31), 40, 60, 100)

CASES = [
    Case("direct", direct(AGES), bounds={"periods": "0..60", "maximum child age": list(AGES)}),
    Case("neighbours", neighbours, bounds={"periods": "0..60", "maximum child age": 12}),
    Case("table", table(periods=3, educ_years=(0, 0, 0), child_age_max=12), bounds={"periods": 3, "education levels": 3, "child ages": "none, 0..12"}),
    Case("table_small", table(periods=2, types=2, child_age_max=0), bounds={"periods": 2, "types": 2, "child ages": "none, 0"}),
    Case("table_large", table(periods=8, educ_years=(0, 1, 2), child_age_max=20, types=2), tier="thorough",
         bounds={"periods": 8, "education levels": 3, "types": 2, "child ages": "none, 0..20"}, budget=600),
]
