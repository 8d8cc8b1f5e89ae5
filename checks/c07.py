"""C07 Part-time experience increments and biased beliefs."""
from checks import common as k
from checks import exog
from checks import model as mo
from checks import simu as si
from symx.harness import Case

ASSUMPTIONS = [
    "Increments and supplements are arbitrary reals in the direct cases; child ages -1..20 and education levels are symbolic "
    "integers. Solution and simulation: part-time increment in [0,1] in the simulated cases, sizes per case.",
]


def increment(c):
    from soepy.shared.experience_stock import get_pt_increment

    gam = c.vec("gamma_p", 3)
    mom = c.real("gamma_p_mom")
    params = k.record("params", gamma_p=gam, gamma_p_mom=mom)
    import numpy as np

    from symx.sym import arr
    ages = [c.intvar("age%d" % i, -1, 20) for i in range(3)]
    educ = [c.intvar("educ%d" % i, 0, 2) for i in range(3)]

    def want(i):
        return k.ite(k.eq(educ[i], 0), gam[0], k.ite(k.eq(educ[i], 1), gam[1], gam[2])) + k.ite(
            k.and_(ages[i] >= 0, ages[i] <= 2), mom, 0.0)

    ia = (lambda x: arr(x)) if c.sym else (lambda x: np.array(x))
    for i in range(3):
        c.eq("one woman %d" % i, c.call(get_pt_increment, params, educ[i], ages[i], False), want(i))
        c.eq("biased one woman %d" % i, c.call(get_pt_increment, params, educ[i], ages[i], True), 1.0)
    c.eq("women", c.call(get_pt_increment, params, ia(educ), ia(ages), False), [want(i) for i in range(3)])
    c.eq("biased women", c.call(get_pt_increment, params, ia(educ), ia(ages), True), [1.0] * 3)


def assume_years(c, m):
    for e in range(m.n_educ):
        for a in (0, 5):
            inc = mo.pt_inc(m, e, a, False)
            c.assume(k.and_(inc >= 0, inc <= 1))


def solved(**kw):
    """Biased solution: independent of the increments; equal to the unbiased one with increments of one year."""
    def h(c):
        m = mo.build(c, **kw)
        pc, pp = mo.probs(c, m)
        ncu, emaxs = mo.solve(c, m, pc, pp, True)
        other = dict(m.p, gamma_p_mom=c.real("q.gamma_p_mom", typ=(-1, 1)))
        for e in range(3):
            other["gamma_p_%d" % e] = c.real("q.gamma_p_%d" % e, typ=(0, 2))
        full = dict(m.p, gamma_p_mom=0.0, **{"gamma_p_%d" % e: 1.0 for e in range(3)})
        for name, p, biased in (("other increments", other, True), ("full years", full, False)):
            m2 = mo.build(c, p=p, s=m.s, **kw)
            ncu2, emaxs2 = mo.solve(c, m2, pc, pp, biased)
            c.eq("values with " + name, emaxs, emaxs2)
            c.eq("disutility with " + name, ncu, ncu2)
    return h


def unbiased(**kw):
    """The unbiased solution uses the increment of each state's own education and child."""
    from checks.c14 import bellman

    return bellman(**kw)


def believed(biased, **kw):
    """A prepared simulator: values as believed, careers and wages by the true increments."""
    def h(c):
        m = mo.build(c, agents=1, **kw)
        assume_years(c, m)
        t = exog.tables(c, m)
        rng = si.Rng(c, si.script(m, educ=0, type=0, pt=0, ft={0, 1}, age={-1, 0}, partner=[0], event=0))
        df = si.prepared(c, m, t, rng, biased)
        z = next(x for x in rng.calls if x.kind == "normal").out
        pp = t.prob_partner
        ncu, emaxs = mo.solve(c, m, t.child, pp, biased)
        rows = si.rows(df)
        for r in rows:
            p = si.as_int(r["Period"])
            si.check_row(c, m, r, z[p, 0] * m.p["sigma"], emaxs, ncu, " of 0")
        for a, b in zip(rows, rows[1:]):
            e, age, p = si.as_int(a["Education_Level"]), si.as_int(a["Age_Youngest_Child"]), si.as_int(a["Period"])
            ch = a["Choice"]
            inc = mo.pt_inc(m, e, age, False)
            nxt = [mo.next_share(m, a["Experience_Stock"], p, inc, j) for j in range(3)]
            c.eq("experience after %d" % p, b["Experience_Stock"], k.ite(k.eq(ch, 1), nxt[1], k.ite(k.eq(ch, 2), nxt[2], nxt[0])))
    return h


CASES = [
    Case("increment", increment, bounds={"women": 3, "child ages": "-1..20"}),
    Case("biased_solution", solved(periods=2, child_age_max=1), bounds={"periods": 2, "child ages": "none, 0, 1"}, budget=150),
    Case("biased_solution_educ", solved(periods=2, child_age_max=0, educ_years=(0, 1, 1), regime="erziehungsgeld"),
         bounds={"periods": 2, "education levels": 3, "child ages": "none, 0"}, budget=150),
    Case("unbiased_solution", unbiased(periods=2, child_age_max=3, select=lambda st: st[5] == 0 and st[2] == 0),
         bounds={"periods": 2, "child ages": "none, 0..3"}, budget=150),
    Case("simulator_biased", believed(True, periods=2, child_age_max=1), bounds={"periods": 2, "agents": 1}, budget=150),
    Case("simulator_unbiased", believed(False, periods=2, child_age_max=1), bounds={"periods": 2, "agents": 1}, budget=150),
]
