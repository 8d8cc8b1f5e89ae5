"""C23 A prepared simulator equals a fresh simulation; sparse equals full."""
from checks import common as k
from checks import exog
from checks import model as mo
from checks import simu as si
from symx.harness import Case

ASSUMPTIONS = [
    "Two independent symbolic parameter sets (for preparing and for calling), symbolic specification amounts, input tables and "
    "shocks; initial conditions and random events are scripted per agent. Increments are fixed so that the initial last choice "
    "is concrete.",
    "Random numbers are a function of the seed and the position since seeding, and unknown otherwise.",
]


def fixed(n):
    """Increments differ between the parameter sets (n = 0, 1)."""
    return dict(gamma_p_mom=(0.125, 0.25)[n], **{"gamma_p_%d" % e: (0.375, 0.3)[n] for e in range(3)})


def by_group(n):
    """Parameters by education level or type."""
    return n[-1].isdigit() and not n.startswith("share") and not n.startswith("child")


def scalar(n):
    return not by_group(n) and not n.startswith("share")


def setup(c, events, agents, types=1, shared=None, **kw):
    """shared: predicate of the parameters on which the two sets agree."""
    m = mo.build(c, agents=agents, types=types, p_over=fixed(0), **kw)
    over = dict(fixed(1), **({n: v for n, v in m.p.items() if shared(n)} if shared else {}))
    other = mo.draw_params(c, m.n_educ, types, prefix="a", **over)
    x = exog.tables(c, m)
    rng = si.Rng(c, si.script(m, **events))
    return m, mo.params_frame(mo.param_rows(other, types)), x, rng


def same(c, label, got, want, columns=None):
    """Equal data sets row by row."""
    if columns is None:
        c.same("columns " + label, sorted(got.columns), sorted(want.columns))
        columns = list(want.columns)
    a, b = by_row(got), by_row(want)
    c.same("rows " + label, sorted(a), sorted(b))
    for key in sorted(b):
        for col in columns:
            c.eq("%s of %s %s" % (col, key, label), a[key][col], b[key][col])


def by_row(df):
    return {(si.as_int(r["Identifier"]), si.as_int(r["Period"])): r for r in si.rows(df)}


def prepare(m, x, rng, biased, sparse, params):
    from soepy.simulate.simulate_python import get_simulate_func

    with exog.served(x.frames), rng.installed():
        return get_simulate_func(params, m.dict, biased, sparse)


def call(m, x, rng, func, params):
    with exog.served(x.frames), rng.installed():
        return func(params, m.dict).reset_index()


def fresh(c, m, x, rng, biased, sparse, label):
    from soepy.simulate import simulate_python as sp

    rng.restart(label)
    with exog.served(x.frames), rng.installed():
        return sp.simulate(m.pframe, m.dict, biased_exp=biased, data_sparse=sparse).reset_index()


def prepared(events, agents, biased=True, sparse=False, **kw):
    def h(c):
        m, other, x, rng = setup(c, events, agents, **kw)
        want = fresh(c, m, x, rng, biased, sparse, "fresh")
        rng.restart("prepared")
        func = prepare(m, x, rng, biased, sparse, other)
        rng.restart("other parameters")
        first = call(m, x, rng, func, other)
        rng.restart("called")
        same(c, "after other parameters", call(m, x, rng, func, m.pframe), want)
        same(c, "without a pause", call(m, x, rng, func, m.pframe), want)
        rng.restart("again")
        same(c, "other parameters again", call(m, x, rng, func, other), first)
    return h


def in_place(events, agents, biased=True, **kw):
    """The caller's own table of parameters gets new values between the calls."""
    def h(c):
        m, other, x, rng = setup(c, events, agents, **kw)
        want = fresh(c, m, x, rng, biased, False, "fresh")
        rng.restart("prepared")
        table = other.copy()
        func = prepare(m, x, rng, biased, False, table)
        rng.restart("other parameters")
        call(m, x, rng, func, table)
        table["value"] = m.pframe["value"]
        rng.restart("changed")
        same(c, "after a change in place", call(m, x, rng, func, table), want)
    return h


def both_sizes(events, agents, biased=True, **kw):
    def h(c):
        m, other, x, rng = setup(c, events, agents, **kw)
        full = fresh(c, m, x, rng, biased, False, "full")
        small = fresh(c, m, x, rng, biased, True, "sparse")
        columns = ["Education_Level", "Lagged_Choice", "Experience_Part_Time", "Experience_Full_Time", "Experience_Stock",
                   "Type", "Age_Youngest_Child", "Partner_Indicator", "Choice", "Wage_Observed"]
        c.same("columns of both", [q for q in columns if q not in small.columns or q not in full.columns], [])
        same(c, "sparse", small, full, columns)
    return h


THREE = dict(educ=0, type=0, pt=[0, 1, 0], ft=[0, 0, 2], age=[-1, 0, 0], partner=[0, 1, 0], event=0)
TWO_LEVELS = dict(educ=[1, 0, 1], type=[0, 1, 1], pt=lambda e, i, alts: {0: [1], 1: [0, 1]}[e][i], ft=0,
                  age=lambda e, i, alts: {0: [-1], 1: [0, -1]}[e][i], partner=lambda e, i, alts: {0: [1], 1: [0, 1]}[e][i],
                  event=lambda e, i, alts: (e + i) % 2)


def case(name, fn, tier="quick", budget=200, **b):
    return Case(name, fn, tier=tier, merge=True, budget=budget, bounds=b)


CASES = [
    case("biased", prepared(THREE, 3, True, periods=2, child_age_max=0), periods=2, agents=3, beliefs="biased"),
    case("unbiased", prepared(THREE, 3, False, periods=2, child_age_max=0, regime="erziehungsgeld", splitting=False), periods=2, agents=3),
    case("levels_types", prepared(TWO_LEVELS, 3, True, periods=2, child_age_max=0, types=2, educ_years=(0, 1)), periods=2, agents=3, types=2,
         education_levels=2),
    case("sparse_prepared", prepared(THREE, 3, True, True, periods=2, child_age_max=0), periods=2, agents=3, data="sparse"),
    case("groups_only", prepared(TWO_LEVELS, 3, False, shared=scalar, periods=2, child_age_max=0, types=2, educ_years=(0, 1)), periods=2,
         agents=3, types=2, education_levels=2, parameter_sets="agree in all scalar parameters"),
    case("scalars_only", prepared(THREE, 3, True, shared=by_group, periods=2, child_age_max=0), periods=2, agents=3,
         parameter_sets="agree in all parameters by education"),
    case("in_place", in_place(THREE, 3, False, periods=2, child_age_max=0), periods=2, agents=3, parameter_table="changed in place"),
    case("sizes", both_sizes(THREE, 3, periods=2, child_age_max=0), periods=2, agents=3),
    case("sizes_levels", both_sizes(TWO_LEVELS, 3, periods=2, child_age_max=0, types=2, educ_years=(0, 1)), periods=2, agents=3, types=2),
]
