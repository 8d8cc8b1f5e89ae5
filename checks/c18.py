"""C18 Agents enter with the drawn initial conditions at the end of education."""
import itertools

import numpy as np

from checks import common as k
from checks import exog
from checks import model as mo
from checks import simu as si
from symx.harness import Case

ASSUMPTIONS = [
    "Part-time increments (with the mothers' supplement) are symbolic in [0,1]; part-time years are whole numbers of years or "
    "at least 1e-6 away from one. Initial maxima are at least 1.",
    "Random events are scripted: one agent per combination of the drawn values; probabilities are symbolic.",
]


def flat(x):
    return [v for v in np.asarray(x, dtype=object).view(np.ndarray).ravel().tolist()]


def entry(educ, ages, pts, fts, types=1, partners=(0, 1), whole=None, through=False, **kw):
    def h(c):
        combos = list(itertools.product(educ, ages, partners, pts, fts, range(types)))
        if whole == "shuffled":
            combos = [combos[(i * 7) % len(combos)] for i in range(len(combos))]
        n = len(combos)

        def col(j):
            return lambda e, i, alts: [x[j] for x in combos if e is None or x[0] == e][i]
        ev = dict(educ=col(0), age=col(1), partner=col(2), pt=col(3), ft=col(4), type=col(5), event=0)
        m = mo.build(c, agents=n, types=types, **kw)
        for e in range(m.n_educ):
            for a in (-1, 0):
                inc = mo.pt_inc(m, e, a, False)
                c.assume(k.and_(inc >= 0, inc <= 1))
        rng = si.Rng(c, si.script(m, **ev))
        if through:
            t = exog.tables(c, m)
            df = si.prepared(c, m, t, rng, False)
        else:
            t = si.tables(c, m)
            emaxs, ncu = c.array(np.zeros((len(m.states), len(m.grid), 4))), c.array(np.ones((len(m.states), 3)))
            df = si.run(c, m, t, rng, emaxs, ncu)
        calls = [x for x in rng.calls if x.kind != "seed"]
        draws = {si.role(m, rng, x): x for x in calls[: 4 * m.n_educ + 2]}
        educ_call = draws[("educ", None)]
        drawn(c, "education", educ_call, "choice", list(range(m.n_educ)), flat(t.educ), n)
        who = {e: [i for i in range(n) if combos[i][0] == e] for e in range(m.n_educ)}
        first = m.dict["INITIAL_CONDITIONS"]["child_age_init_max"]
        years = list(range(m.init_exp_max + 1))
        for e in range(m.n_educ):
            size = len(who[e])
            drawn(c, "child age %d" % e, draws[("age", e)], "choice", list(range(-1, first + 1)), flat(t.age[e]), size)
            call = draws[("partner", e)]
            c.same("partner %d draw" % e, (call.kind, int(call.times), int(np.prod(call.size))), ("binomial", 1, size))
            c.eq("partner %d probability" % e, call.p, t.partner[e])
            drawn(c, "part-time years %d" % e, draws[("pt", e)], "choice", years, flat(t.pt[e]), size)
            drawn(c, "full-time years %d" % e, draws[("ft", e)], "choice", years, flat(t.ft[e]), size)
        shares = [m.p["share_%d" % i] for i in range(1, types)]
        drawn(c, "type", draws[("type", None)], "choice", list(range(types)), [1.0 - sum(shares)] + shares, n)
        rows = {}
        for r in si.rows(df):
            rows.setdefault(si.as_int(r["Identifier"]), []).append(r)
        c.same("agents", sorted(rows), list(range(n)))
        for i, (e, age, partner, pt, ft, typ) in enumerate(combos):
            r = rows[i][0]
            start = m.spec.educ_years[e]
            tag = " of %d (education %d, %d part-time, %d full-time years)" % (i, e, pt, ft)
            for name, want in (("Period", start), ("Education_Level", e), ("Age_Youngest_Child", age),
                               ("Partner_Indicator", partner), ("Experience_Part_Time", pt), ("Experience_Full_Time", ft),
                               ("Type", typ)):
                c.eq(name + tag, r[name], want)
            inc = mo.pt_inc(m, e, age, False)
            y = pt * inc + ft
            part = pt * inc
            apart, exact = [], []
            for q in range(pt + 1):
                apart.append(k.or_(part - q >= 1e-6, q - part >= 1e-6))
                exact.append(k.eq(part, q))
            c.assume(k.or_(k.and_(*apart), *exact))
            c.eq("last choice" + tag, r["Lagged_Choice"], k.ite(k.and_(*apart), 1, k.ite(y > 1, 2, 0)))
            # F4: the share is read against the maximum of period 0 whatever the period of entry
            c.eq("years" + tag, r["Experience_Stock"] * mo.max_years(m, start, inc), y,
                 known=("F4", y / m.init_exp_max * mo.max_years(m, start, inc)))
    return h


def drawn(c, label, call, kind, a, p, size):
    c.same(label + " draw", (call.kind, list(call.a), int(np.prod(call.size))), (kind, a, size))
    c.same(label + " probabilities", len(flat(call.p)), len(p))
    c.eq(label + " probability", c.array(flat(call.p)), c.array(p))


def case(name, fn, tier="quick", **b):
    return Case(name, fn, tier=tier, merge=True, budget=200, bounds=b)


CASES = [
    case("years", entry((0,), (-1, 0), (0, 1, 2), (0, 1, 2), partners=(0,), periods=1, child_age_max=0, init_exp_max=2),
         initial_maximum=2, periods=1),
    case("increment1", entry((0,), (2, 3), (0, 1, 3), (0, 3), partners=(1,), periods=1, child_age_max=3, init_exp_max=3),
         initial_maximum=3, periods=1),
    case("education", entry((0, 1, 2), (-1,), (0, 1), (0, 2), whole="shuffled", periods=3, child_age_max=0, educ_years=(0, 1, 2)),
         education_levels=3, periods=3),
    case("same_entry", entry((0, 1, 2), (-1, 1), (1,), (0, 1), types=2, whole="shuffled", periods=1, child_age_max=1, educ_years=(0, 0, 0)),
         education_levels=3, types=2),
    case("types", entry((0,), (-1,), (0,), (1,), types=4, periods=1, child_age_max=0), types=4),
    case("prepared", entry((0, 1), (-1, 1), (0, 1), (0, 2), whole="shuffled", through=True, periods=1, child_age_max=1, educ_years=(0, 0)),
         education_levels=2, input_tables="symbolic files"),
]
