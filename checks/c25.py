"""C25 Rules for children and couples do not touch those without them."""
from checks import common as k
from checks import model as mo
from checks import simu as si
from symx.harness import Case

ASSUMPTIONS = [
    "Two symbolic specifications and parameter sets that agree except in the rules named by the case; 0 < |mu| <= 1; part-time "
    "increments in [0,1]. Birth (arrival) probabilities are zero, everything else is symbolic.",
]

CHILD_AMOUNTS = ("child_benefits", "care_under_3_0", "care_under_3_1", "care_3_to_6_0", "care_3_to_6_1", "elterngeld_replacement",
                 "elterngeld_min", "elterngeld_max", "erziehungsgeld", "erziehungsgeld_income_threshold_single",
                 "erziehungsgeld_income_threshold_married", "regelsatz_child", "addition_child_single", "housing_addtion",
                 "alg1_replacement_child")
COUPLE_AMOUNTS = ("partner_wage0", "partner_cf_age", "partner_cf_age_sq", "partner_cf_educ", "erziehungsgeld_income_threshold_married")


def mothers(n):
    return n.startswith("yes_kids") or n.startswith("child_") or n == "gamma_p_mom"


def other(c, m, amounts, parameters):
    """A second record: the named amounts and parameters anew, the others shared."""
    s, p = dict(m.s), dict(m.p)
    for n in amounts:
        s[n] = c.real("other." + n, typ=(-0.1, 0.1)) if n in ("partner_cf_age", "partner_cf_age_sq", "partner_cf_educ") else c.positive(
            "other." + n, typ=(0.1, 60))
    for n in p:
        if parameters(n):
            p[n] = c.real("other.p." + n, lo=-1, hi=1, typ=(-0.3, 0.3))
    return s, p


def pair(c, amounts, parameters=lambda n: False, regimes=("elterngeld", "elterngeld"), splitting=(True, True), types=1, **kw):
    a = mo.build(c, regime=regimes[0], splitting=splitting[0], types=types, **kw)
    s, p = other(c, a, amounts, parameters)
    b = mo.build(c, regime=regimes[1], splitting=splitting[1], types=types, s=s, p=p, **kw)
    for m in (a, b):
        for e in range(m.n_educ):
            for age in (-1, 0):
                inc = mo.pt_inc(m, e, age, False)
                c.assume(k.and_(inc >= 0, inc <= 1))
    return a, b


def chances(c, m, births=True, arrivals=True):
    pc = None if births else c.array([[0.0] * 3 for _ in range(m.periods)])
    pc, pp = mo.probs(c, m, child=pc)
    if not arrivals:
        pp = c.array([[[[1.0, 0.0], [pp[t, e, 1, 0], pp[t, e, 1, 1]]] for e in range(m.n_educ)] for t in range(m.periods)])
    return pc, pp


def compare(c, a, b, keep, births, arrivals, biased=False):
    pc, pp = chances(c, a, births, arrivals)
    na, va = mo.solve(c, a, pc, pp, biased)
    nb, vb = mo.solve(c, b, pc, pp, biased)
    n = 0
    for st, i in a.row.items():
        if keep(st):
            n += 1
            c.eq("disutility %s" % (st,), nb[b.row[st]], na[i])
            c.eq("values %s" % (st,), vb[b.row[st]], va[i])
    c.claim("states compared", n > 0)


def childless(regimes, biased=False, **kw):
    def h(c):
        a, b = pair(c, CHILD_AMOUNTS, mothers, regimes, **kw)
        compare(c, a, b, lambda st: st[4] == -1, False, True, biased)
    return h


def single(regime, splitting, biased=False, **kw):
    def h(c):
        a, b = pair(c, COUPLE_AMOUNTS, regimes=(regime, regime), splitting=splitting, **kw)
        compare(c, a, b, lambda st: st[5] == 0, True, False, biased)
    return h


def alone(c):
    """Neither children nor partners: both sets of rules at once."""
    a, b = pair(c, tuple(dict.fromkeys(CHILD_AMOUNTS + COUPLE_AMOUNTS)), mothers, ("erziehungsgeld", "elterngeld"), (False, True),
                periods=3, child_age_max=0)
    compare(c, a, b, lambda st: st[4] == -1 and st[5] == 0, False, False)


YEARS = ((0, 0), (1, 0), (0, 2))


def simulated(amounts, parameters, regimes, splitting, ages, partners, events=0):
    """The simulated rows of such women."""
    combos = [(x, y, z) for x in ages for y in partners for z in YEARS]
    col = lambda f: lambda e, i, alts: f(combos[i])  # noqa: E731
    ev = dict(educ=0, age=col(lambda x: x[0]), partner=col(lambda x: x[1]), pt=col(lambda x: x[2][0]), ft=col(lambda x: x[2][1]),
              type=0, event=events)

    def h(c):
        fixed = {"gamma_p_%d" % e: 0.375 for e in range(3)}
        if 0 in ages:
            fixed["gamma_p_mom"] = 0.125
        a, b = pair(c, amounts, parameters, regimes, splitting, p_over=fixed, periods=1, child_age_max=max(max(ages), 0), agents=len(combos))
        if 0 not in ages:
            c.assume(k.and_(a.p["gamma_p_mom"] > -0.3, b.p["gamma_p_mom"] > -0.3))
        t = si.tables(c, a)
        emaxs, ncu = si.solution(c, a)
        rng = si.Rng(c, si.script(a, **ev))
        da = si.rows(si.run(c, a, t, rng, emaxs, ncu))
        rng.restart("second")
        db = si.rows(si.run(c, b, t, rng, emaxs, ncu))
        c.same("rows", len(da), len(combos))
        for x, y in zip(da, db):
            for n in x:
                c.eq("%s of %d" % (n, si.as_int(x["Identifier"])), y[n], x[n])
    return h


def case(name, fn, tier="quick", budget=150, **b):
    return Case(name, fn, tier=tier, budget=budget, bounds=b, merge=name.startswith("simulated"))


E, Z = "elterngeld", "erziehungsgeld"
CASES = [
    case("childless_elterngeld", childless((E, E), periods=2, child_age_max=1), periods=2, child_ages="none, 0, 1"),
    case("childless_regime", childless((E, Z), periods=2, child_age_max=1, types=2), periods=2, child_ages="none, 0, 1", types=2),
    case("childless_erz", childless((Z, Z), True, periods=3, child_age_max=0, splitting=(False, False), educ_years=(0, 1)), periods=3,
         education_levels=2, beliefs="biased"),
    case("single_elterngeld", single(E, (True, False), periods=2, child_age_max=1), periods=2, child_ages="none, 0, 1"),
    case("single_erz", single(Z, (False, True), periods=2, child_age_max=2), periods=2, child_ages="none, 0..2"),
    case("single_levels", single(Z, (True, True), True, periods=3, child_age_max=0, educ_years=(0, 1)), periods=3, education_levels=2,
         beliefs="biased"),
    case("single_ages", single(Z, (True, False), periods=1, child_age_max=11), periods=1, child_ages="none, 0..11"),
    case("alone", alone, periods=3),
    case("simulated_childless", simulated(CHILD_AMOUNTS, mothers, (E, Z), (True, True), (-1,), (0, 1)), periods=1, agents=6),
    case("simulated_single", simulated(COUPLE_AMOUNTS, lambda n: False, (Z, Z), (True, False), tuple(range(-1, 12)), (0,)), periods=1,
         agents=39),
]
