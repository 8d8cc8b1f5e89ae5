"""C17 Simulation and solution price the same decision identically."""
import itertools

from checks import common as k
from checks import model as mo
from checks import simu as si
from symx.harness import Case
from symx.spec import maximum

ASSUMPTIONS = [
    "Part-time increments are fixed rationals in the cases that need agents on the experience grid (the grid points are their "
    "initial shares); every other parameter, benefit amount, probability and table entry is a symbolic real.",
    "Resources stay at or above 1e-14, below which the two sides floor them differently (1e-14 and machine epsilon).",
    "The integration rule has one draw (0) or two (-1 and 1), which are then also the agents' wage shocks.",
]
YEARS = ((0, 0), (1, 0), (0, 2))


def crowd(ages, partners=(0, 1), years=YEARS, types=1, educ=(0,), n_draws=1, probabilities=False, event=0, **kw):
    def h(c):
        shocks = [int(x) for x in mo.RULE[n_draws][0]]
        combos = list(itertools.product(educ, ages, partners, years, range(types), shocks))

        def col(n):
            return lambda e, i, alts: [x[n] for x in combos if e is None or x[0] == e][i]
        ev = dict(educ=col(0), age=col(1), partner=col(2), pt=lambda e, i, a: col(3)(e, i, a)[0],
                  ft=lambda e, i, a: col(3)(e, i, a)[1], type=col(4), event=event)
        # mothers of young children work half a year in part-time: share 0.25 of two years, others 0.1875
        over = dict(gamma_p_mom=0.125, **{"gamma_p_%d" % e: 0.375 for e in range(3)})
        grid = (0.0, 1.0) if probabilities else (0.0, 0.1875, 0.25, 1.0)
        m = mo.build(c, agents=len(combos), types=types, n_draws=n_draws, p_over=over, exp_grid=grid, **kw)
        for st in m.row:
            for x in m.grid:
                floors(c, m, st, x, shocks)
        t = si.tables(c, m)
        ncu, emaxs = mo.solve(c, m, t.child, t.prob_partner)
        rng = si.Rng(c, si.script(m, **ev), shock=lambda c, call, ix, name: float(combos[ix[-1]][5]))
        data = si.rows(si.run(c, m, t, rng, emaxs, ncu))
        moves = si.transitions(m, rng, data)
        groups = {}
        for r in data:
            n, p = si.as_int(r["Identifier"]), si.as_int(r["Period"])
            if p != m.spec.educ_years[si.as_int(r["Education_Level"])]:
                continue  # entrants only: later rows depend on the choices
            st = si.state_of(r)
            i = m.row[st]
            share = r["Experience_Stock"]
            g = [q for q, x in enumerate(m.grid) if not hasattr(share, "t") and abs(float(share) - x) < 1e-12]
            if g:
                groups.setdefault((st, i, g[0]), []).append((n, r))
            if p < m.periods - 1 and probabilities:
                chances(c, m, t, moves, st, i, n, emaxs)
        for (st, i, g), rs in groups.items():
            if len(rs) != n_draws:
                continue
            got = sum(maximum(*[r["Value_Function_" + a] for a in si.ALT]) for _, r in rs) / n_draws
            c.eq("value of %s grid %d" % (st, g), got, emaxs[i, g, 3])
            for n, r in rs:
                c.eq("disutility of %s %d" % (st, n), [r["Non_Consumption_Utility_" + a] for a in si.ALT], ncu[i])
                c.eq("continuation of %s %d" % (st, n), [r["Continuation_Value_" + a] for a in si.ALT],
                     [emaxs[i, g, j] for j in range(3)])
    return h


def floors(c, m, st, x, shocks):
    """Resources of a state stay above the floors of both sides."""
    t, e, lag, typ, age, partner = st
    w0 = mo.wage(m, t, e, x, mo.pt_inc(m, e, age, False)) * m.s["elasticity_scale"]
    c.at_least(mo.home_resources(m, t, e, lag, age, partner, w0), mo.FLOOR)
    for d in shocks:
        for j in (1, 2):
            c.at_least(mo.work_resources(m, t, e, age, partner, w0 * k.exp(d * m.p["sigma"]), j), mo.FLOOR)


def chances(c, m, t, moves, st, i, n, emaxs):
    """The solved continuation value is the expectation under the chances with which the simulation draws."""
    p, e, lag, typ, age, partner = st
    birth = moves.get(("birth", p, n), (0, 0.0))[1]
    # F3: the simulation draws births of the next period with the next period's table entry
    c.eq("birth chance of %d in %d" % (n, p), birth, t.child[p, e], known=("F3", t.child[p + 1, e]))
    stay = moves[("separation" if partner else "arrival", p, n)][1]
    to_partner = 1 - stay if partner else stay
    inc = mo.pt_inc(m, e, age, False)
    for g, x in enumerate(m.grid):
        for j in range(3):
            want = 0.0
            for child in (0, 1):
                for pn in (0, 1):
                    r = m.row[mo.successor(m, st, j, child, pn)]
                    v = mo.interp(m.grid, [emaxs[r, q, 3] for q in range(len(m.grid))], mo.next_share(m, x, p, inc, j))
                    want = want + (t.child[p, e] if child else 1 - t.child[p, e]) * (to_partner if pn else 1 - to_partner) * v
            c.eq("expectation of %d in %d choice %d grid %d" % (n, p, j, g), emaxs[i, g, j], want)


ALL = tuple(range(-1, 12))


def case(name, tier="quick", budget=200, bounds={}, **kw):
    b = {"agents": "one per state and shock", "periods": kw.get("periods", 1), "child ages": str(kw["ages"]), **bounds}
    return Case(name, crowd(**kw), tier=tier, bounds=b, budget=budget, merge=True)


CASES = [
    case("elterngeld", ages=ALL, periods=1, child_age_max=11, child_age_init_max=11),
    case("erziehungsgeld", ages=ALL, periods=1, child_age_max=11, child_age_init_max=11, regime="erziehungsgeld", splitting=False),
    case("two_shocks", ages=(-1, 1), periods=1, child_age_max=1, n_draws=2, types=2),
    case("education1", ages=(-1, 0, 3), periods=2, child_age_max=3, educ=(1,), educ_years=(0, 1, 1)),
    case("education2", ages=(-1, 0), periods=3, child_age_max=0, educ=(2,), educ_years=(0, 1, 2), years=((0, 0),),
         regime="erziehungsgeld"),
    case("chances", ages=(-1, 0, 1), periods=2, child_age_max=1, probabilities=True, years=((0, 0),), last_child=0),
    case("chances_education", ages=(-1,), periods=3, child_age_max=0, probabilities=True, years=((0, 0),), educ=(0, 1),
         educ_years=(0, 1)),
]
