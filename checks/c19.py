"""C19 Exogenous inputs become proper probabilities."""
import numpy as np

from checks import common as k
from checks import exog
from checks import model as mo
from checks import simu as si
from symx.harness import Case

ASSUMPTIONS = [
    "Table entries are symbolic reals in [0,1]; the tables list periods and education levels in ascending order (as the "
    "packaged input files do) and may cover more periods than the model. Shares after the first sum to at most one.",
]


def flat(x):
    return [v for v in np.asarray(x, dtype=object).view(np.ndarray).ravel().tolist()]


def setup(c, periods, educ, last=None, ages=1, init=2, extra=0):
    m = mo.build(c, periods=periods, educ_years=(0,) * educ, child_age_max=ages, init_exp_max=init, last_child=last,
                 child_age_init_max=ages, states=False)
    x = exog.tables(c, m, extra)
    for r in list(x.raw_age) + list(x.raw_pt) + list(x.raw_ft):
        c.assume(sum(list(r)[1:]) <= 1)
    return m, x


def partner(c):
    from soepy.exogenous_processes.partner import gen_prob_partner, gen_prob_partner_present_vector

    T, n, extra = c.choice("periods", (1, 2, 4)), c.choice("education levels", (1, 2, 3)), c.choice("extra periods", (0, 2))
    m, x = setup(c, T, n, extra=extra)
    with exog.served(x.frames):
        p = gen_prob_partner(m.spec)
        present = gen_prob_partner_present_vector(m.spec)
    c.same("shape", tuple(np.shape(p)), (T, n, 2, 2))
    for t in range(T):
        for e in range(n):
            a, s = x.raw_arrival[t, e], x.raw_separation[t, e]
            tag = " period %d education %d" % (t, e)
            c.eq("arrival" + tag, p[t, e, 0, 1], a)
            c.eq("separation" + tag, p[t, e, 1, 0], s)
            for now in (0, 1):
                c.eq("sum %d" % now + tag, p[t, e, now, 0] + p[t, e, now, 1], 1.0)
                for then in (0, 1):
                    c.claim("probability %d %d" % (now, then) + tag, k.and_(p[t, e, now, then] >= 0, p[t, e, now, then] <= 1 + 1e-9))
    c.eq("partner at entry", c.array(flat(present)), x.raw_partner)


def births(c):
    from soepy.exogenous_processes.children import gen_prob_child_vector

    T = c.choice("periods", (1, 2, 4))
    last = c.choice("last child-bearing period", [q for q in (0, 1, 2, 3, 4, 6) if q <= T + 2])
    m, x = setup(c, T, c.choice("education levels", (1, 3)), last=last, extra=c.choice("extra periods", (0, 2)))
    with exog.served(x.frames):
        p = gen_prob_child_vector(m.spec)
    c.same("shape", tuple(np.shape(p)), (T, 3))
    for t in range(T):
        for e in range(3):
            c.eq("birth period %d education %d" % (t, e), p[t, e], x.raw_child[t, e] if t <= last else 0.0)


def initial(c):
    from soepy.exogenous_processes.children import gen_prob_child_init_age_vector
    from soepy.exogenous_processes.education import gen_prob_educ_level_vector
    from soepy.exogenous_processes.experience import gen_prob_init_exp_component_vector

    n = c.choice("education levels", (1, 2, 3))
    m, x = setup(c, 1, n, ages=c.choice("oldest child at entry", (0, 1, 4)), init=c.choice("initial maximum", (0, 1, 4)))
    with exog.served(x.frames):
        age = gen_prob_child_init_age_vector(m.spec)
        pt = gen_prob_init_exp_component_vector(m.spec, m.spec.pt_exp_shares_file_name)
        ft = gen_prob_init_exp_component_vector(m.spec, m.spec.ft_exp_shares_file_name)
        educ = gen_prob_educ_level_vector(m.spec)
        # the tables as read by a second caller
        again = gen_prob_child_init_age_vector(m.spec)
    c.eq("education shares", c.array(flat(educ)), x.raw_educ)
    for label, got, raw in (("child age", age, x.raw_age), ("part-time years", pt, x.raw_pt), ("full-time years", ft, x.raw_ft),
                            ("child age again", again, x.raw_age)):
        c.same(label + " levels", len(got), n)
        for e in range(n):
            r, want = list(got[e]), list(raw[e])
            c.same(label + " length %d" % e, len(r), len(want))
            for i in range(1, len(r)):
                c.eq("%s share %d education %d" % (label, i, e), r[i], want[i])
            c.eq("%s sum education %d" % (label, e), sum(r), 1.0)
            c.claim("%s first share education %d" % (label, e), r[0] >= -1e-9)


def combined(init):
    def h(c):
        from soepy.exogenous_processes.experience import gen_prob_init_exp_years_vector

        m, x = setup(c, 1, 2, init=init)
        with exog.served(x.frames):
            p = gen_prob_init_exp_years_vector(m.spec)
        c.same("levels", len(p), 2)
        for e in range(2):
            r = list(p[e])
            c.same("length %d" % e, len(r), 2 * init + 1)
            for y in range(2 * init + 1):
                want = 0.0
                for a in range(init + 1):
                    if 0 <= y - a <= init:
                        want = want + x.pt[e][a] * x.ft[e][y - a]
                c.eq("chance of %d years education %d" % (y, e), r[y], want)
    return h


CASES = [
    Case("partner", partner, bounds={"periods": "1, 2, 4", "education levels": "1..3", "table periods": "up to 2 more"}),
    Case("births", births, bounds={"periods": "1, 2, 4", "last child-bearing period": "0..6"}),
    Case("initial", initial, bounds={"education levels": "1..3", "child ages": "up to 4", "initial maximum": "0, 1, 4"}),
    Case("combined1", combined(1), bounds={"initial maximum": 1}),
    Case("combined2", combined(2), bounds={"initial maximum": 2}),
    Case("combined4", combined(4), bounds={"initial maximum": 4}),
]
