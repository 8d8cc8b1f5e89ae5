"""C24 The simulated panel is complete and aligned."""
from checks import common as k
from checks import exog
from checks import model as mo
from checks import simu as si
from checks.c16 import careers
from symx.harness import Case

ASSUMPTIONS = [
    "Solved values, work disutilities, parameters, amounts and shocks are arbitrary reals, so every choice is possible; initial "
    "conditions and random events are scripted and differ between agents.",
]


def by_choice(last, f):
    """f for the (symbolic) last choice."""
    if not hasattr(last, "t"):
        return f(int(last))
    a, b, d = f(0), f(1), f(2)
    pick = lambda x, y, z: k.ite(k.eq(last, 0), x, k.ite(k.eq(last, 1), y, z))  # noqa: E731
    return {n: ([pick(*v) for v in zip(a[n], b[n], d[n])] if isinstance(a[n], list) else pick(a[n], b[n], d[n])) for n in a}


def panel(events, levels, through=False, flows=True, **kw):
    """levels: education level of every agent."""
    n = len(levels)

    def h(c):
        p_over = dict(gamma_p_mom=0.125, **{"gamma_p_%d" % e: 0.375 for e in range(3)})
        m = mo.build(c, agents=n, p_over=p_over, **kw)
        rng = si.Rng(c, si.script(m, educ=list(levels), **events))
        if through:
            x = exog.tables(c, m)
            df = si.prepared(c, m, x, rng, False)
        else:
            t = si.tables(c, m)
            emaxs, ncu = si.solution(c, m)
            df = si.run(c, m, t, rng, emaxs, ncu)
        data = si.rows(df)
        want = sorted((i, p) for i in range(n) for p in range(m.spec.educ_years[levels[i]], m.periods))
        got = sorted((si.as_int(r["Identifier"]), si.as_int(r["Period"])) for r in data)
        c.same("rows", got, want)
        z = [q for q in rng.calls if q.kind == "normal"][-1].out
        c.same("shocks drawn", tuple(z.shape), (m.periods, n))
        # an agent keeps one place: agents line up by entry
        place = {i: j for j, i in enumerate(sorted(range(n), key=lambda i: (m.spec.educ_years[levels[i]], i)))}
        rows = {(si.as_int(r["Identifier"]), si.as_int(r["Period"])): r for r in data}
        for (i, p) in want:
            r, e = rows[(i, p)], levels[i]
            tag = " of %d in %d" % (i, p)
            c.eq("education" + tag, r["Education_Level"], e)
            age, partner = si.as_int(r["Age_Youngest_Child"]), si.as_int(r["Partner_Indicator"])
            share, typ = r["Experience_Stock"], si.as_int(r["Type"])
            shock = z[p, place[i]] * m.p["sigma"]
            w = mo.wage(m, p, e, share, mo.pt_inc(m, e, age, False)) * m.s["elasticity_scale"] * k.exp(shock)
            c.eq("wage" + tag, r["Wage_Observed"], k.ite(k.eq(r["Choice"], 0), float("nan"), w))
            c.eq("partner wage" + tag, r["Male_Wages"], mo.partner_wage(m, p, e) if partner else 0.0)
            value = [r["Value_Function_" + a] for a in si.ALT]
            flow = [r["Flow_Utility_" + a] for a in si.ALT]
            cont = [r["Continuation_Value_" + a] for a in si.ALT]
            c.eq("value" + tag, value, [flow[j] + m.p["delta"] * cont[j] for j in range(3)])
            c.eq("choice" + tag, r["Choice"], si.first_best(value))
            if flows and not through:
                def ref(last):
                    st = (p, e, last, typ, age, partner)
                    q = si.values(c, m, dict(r, Lagged_Choice=last), shock, emaxs, ncu, m.row[st])
                    home = mo.home_resources(m, p, e, last, age, partner, w0)
                    return {"work": q["flow"][1:], "cont": list(q["cont"]), "ncu": list(q["ncu"]), "home": home}
                w0 = mo.wage(m, p, e, share, mo.pt_inc(m, e, age, False)) * m.s["elasticity_scale"]
                want_row = by_choice(r["Lagged_Choice"], ref)
                c.eq("disutility" + tag, [r["Non_Consumption_Utility_" + a] for a in si.ALT], want_row["ncu"])
                c.eq("continuation" + tag, cont, want_row["cont"])
                c.eq("work flow" + tag, flow[1:], want_row["work"])
                home = mo.utility(m, k.maximum(want_row["home"], si.EPS), age, partner) * want_row["ncu"][0]
                c.eq("home flow" + tag, flow[0], home)
    return h


def case(name, fn, tier="quick", budget=200, **b):
    return Case(name, fn, tier=tier, merge=True, budget=budget, bounds=b)


def each(**lists):
    """Drawn values per agent and level: lists by education level."""
    return {n: (lambda e, i, alts, v=v: v[e][i]) for n, v in lists.items()}


MIX = dict(each(pt={0: [0, 1], 1: [1, 0, 0], 2: [0]}, ft={0: [2, 0], 1: [0, 2, 0], 2: [1]}, age={0: [-1, 0], 1: [0, -1, -1], 2: [0]},
                partner={0: [1, 0], 1: [0, 1, 0], 2: [1]}), type=[0, 1, 1, 0, 1, 0])
LEVELS = [1, 0, 2, 1, 0, 1]


def alternate(e, i, alts):
    return i % 2


CASES = [
    case("entry", panel(dict(MIX, event=0), LEVELS, types=2, periods=3, educ_years=(0, 1, 2), child_age_max=0),
         periods=3, agents=6, entry="0, 1, 2"),
    case("entry_reversed", panel(dict(MIX, event=alternate), LEVELS, types=2, periods=3, educ_years=(2, 1, 0), child_age_max=0,
                                 regime="erziehungsgeld"), periods=3, agents=6, entry="2, 1, 0"),
    case("late_first", panel(dict(MIX, event=0), LEVELS, types=2, periods=3, educ_years=(1, 2, 1), child_age_max=0),
         periods=3, agents=6, entry="1, 2, 1"),
    case("never", panel(dict(MIX, event=1), [1, 2, 1, 1], types=2, periods=2, educ_years=(0, 0, 3), child_age_max=0),
         periods=2, agents=4, entry="0 and after the last period"),
    case("prepared", panel(dict(MIX, event=alternate), LEVELS, through=True, types=2, periods=2, educ_years=(0, 1, 1), child_age_max=0),
         periods=2, agents=6, input_tables="symbolic"),
    case("careers", careers(dict(MIX, educ=LEVELS, event=alternate), agents=6, types=2, periods=3, educ_years=(0, 1, 2), child_age_max=0),
         periods=3, agents=6, entry="0, 1, 2"),
]
