"""C14 Solved values satisfy the Bellman equation in every period."""
import contextlib

from checks import common as k
from checks import model as mo
from symx.harness import Case
from symx.spec import maximum

ASSUMPTIONS = [
    "Parameters, benefit amounts and probabilities are symbolic reals (0 < |mu| <= 1, part-time increment in [0,1]); the "
    "number of periods, education levels, types, ages, draws and grid points is bounded per case.",
    "Integration draws are those of the Gauss-Hermite rule of the stated size (C22 covers the rules themselves).",
]


def bellman(select=None, biased=False, rule=None, around=None, **kw):
    def h(c):
        kw2 = {n: (v(c) if callable(v) else v) for n, v in kw.items()}
        m = mo.build(c, **kw2)
        for e in range(m.n_educ):
            c.assume(k.and_(mo.pt_inc(m, e, 0, False) >= 0, mo.pt_inc(m, e, 0, False) <= 1))
        pc, pp = mo.probs(c, m)
        with around(c) if around else contextlib.nullcontext():
            ncu, emaxs = mo.solve(c, m, pc, pp, biased)
        c.same("shape", tuple(emaxs.shape), (len(m.states), len(m.grid), 4))
        draws, weights = rule or mo.RULE[m.n_draws]
        for st, i in m.row.items():
            if select and not select(st):
                continue
            t, e, lag, typ, age, partner = st
            inc = mo.pt_inc(m, e, age, biased)
            c.eq("disutility %s" % (st,), ncu[i], [mo.disutility(m, e, typ, age, j) for j in range(3)])
            for g, x in enumerate(m.grid):
                want = 0.0
                for d, w in zip(draws, weights):
                    fl = mo.flows(m, st, x, d * m.p["sigma"], biased)
                    want = want + w * maximum(*[fl[j] + m.p["delta"] * emaxs[i, g, j] for j in range(3)])
                c.eq("value %s grid %d" % (st, g), emaxs[i, g, 3], want)
                for j in range(3):
                    if t == m.periods - 1:
                        want = 0.0
                    else:
                        want = 0.0
                        for child in (0, 1):
                            for pn in (0, 1):
                                r = m.row[mo.successor(m, st, j, child, pn)]
                                v = mo.interp(m.grid, [emaxs[r, q, 3] for q in range(len(m.grid))],
                                              mo.next_share(m, x, t, inc, j))
                                prob = (pc[t, e] if child else 1 - pc[t, e]) * pp[t, e, partner, pn]
                                want = want + prob * v
                    c.eq("continuation %s choice %d grid %d" % (st, j, g), emaxs[i, g, j], want)
    return h


def case(name, bounds, tier="quick", budget=150, **kw):
    b = {"periods": 2, "education levels": 1, "types": 1, "grid points": 2, "draws": 1, **bounds}
    return Case(name, bellman(**kw), tier=tier, bounds=b, budget=budget)


def middle(c):
    return [0.0, c.real("grid.mid", lo=0.05, hi=0.95, typ=(0.1, 0.9)), 1.0]


CASES = [
    case("elterngeld", {"child ages": "none, 0, 1"}, child_age_max=1),
    case("erziehungsgeld_individual", {"child ages": "none, 0..2"}, child_age_max=2, regime="erziehungsgeld", splitting=False),
    case("two_draws_types", {"child ages": "none, 0", "draws": 2, "types": 2}, child_age_max=0, n_draws=2, types=2),
    case("three_draws", {"child ages": "none, 0", "draws": 3}, child_age_max=0, n_draws=3),
    case("education", {"periods": 3, "education levels": 3, "child ages": "none, 0", "entry": "0, 1, 2"}, child_age_max=0,
         periods=3, educ_years=(0, 1, 2), regime="erziehungsgeld"),
    case("grid3", {"child ages": "none, 0", "grid points": "3, symbolic middle point"}, child_age_max=0, exp_grid=middle),
    case("biased", {"child ages": "none, 0", "beliefs": "biased"}, child_age_max=0, biased=True),
    case("all_ages", {"periods": 1, "child ages": "none, 0..11"}, periods=1, child_age_max=11, splitting=False),
    case("all_ages_erz", {"periods": 1, "child ages": "none, 0..11"}, periods=1, child_age_max=11, regime="erziehungsgeld"),
    case("ages2", {"child ages": "none, 0..11"}, tier="thorough", child_age_max=11, regime="erziehungsgeld", budget=900),
    case("periods4", {"periods": 4, "child ages": "none, 0, 1"}, tier="thorough", periods=4, child_age_max=1, budget=900),
    case("large", {"periods": 3, "child ages": "none, 0..3", "types": 2, "education levels": 2, "draws": 2, "grid points": 3},
         tier="thorough", periods=3, child_age_max=3, types=2, educ_years=(0, 1), n_draws=2, exp_grid=(0.0, 0.3, 1.0), budget=1400),
]
