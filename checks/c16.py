"""C16 Simulated careers move by the model's laws of motion."""
from checks import common as k
from checks import model as mo
from checks import simu as si
from symx.harness import Case

ASSUMPTIONS = [
    "Solved values, work disutilities, parameters and shocks are arbitrary reals (so every choice is possible), part-time "
    "increments are symbolic in [0,1]; initial conditions and random events are scripted or explored per case.",
]


def careers(events, agents=1, **kw):
    def h(c):
        m = mo.build(c, agents=agents, **kw)
        for e in range(m.n_educ):
            for a in (0, 5):
                inc = mo.pt_inc(m, e, a, False)
                c.assume(k.and_(inc >= 0, inc <= 1))
        t = si.tables(c, m)
        emaxs, ncu = si.solution(c, m)
        rng = si.Rng(c, si.script(m, **events))
        df = si.run(c, m, t, rng, emaxs, ncu)
        last = m.dict["EXOG_PROC"]["last_child_bearing_period"]
        data = si.rows(df)
        moves = si.transitions(m, rng, data)
        people = {}
        for r in data:
            people.setdefault(si.as_int(r["Identifier"]), []).append(r)
        c.same("agents", sorted(people), list(range(agents)))
        for n, rs in sorted(people.items()):
            for a, b in zip(rs, rs[1:]):
                p = si.as_int(a["Period"])
                tag = " of %d after %d" % (n, p)
                c.eq("next period" + tag, b["Period"], p + 1)
                for x in ("Education_Level", "Type"):
                    c.eq(x + tag, b[x], a[x])
                ch = a["Choice"]
                c.claim("choice is one of three" + tag, k.or_(k.eq(ch, 0), k.eq(ch, 1), k.eq(ch, 2)))
                c.eq("last choice" + tag, b["Lagged_Choice"], ch)
                c.eq("part-time years" + tag, b["Experience_Part_Time"], a["Experience_Part_Time"] + k.ite(k.eq(ch, 1), 1, 0))
                c.eq("full-time years" + tag, b["Experience_Full_Time"], a["Experience_Full_Time"] + k.ite(k.eq(ch, 2), 1, 0))
                e, age = si.as_int(a["Education_Level"]), si.as_int(a["Age_Youngest_Child"])
                inc = mo.pt_inc(m, e, age, False)
                nxt = [mo.next_share(m, a["Experience_Stock"], p, inc, j) for j in range(3)]
                c.eq("experience" + tag, b["Experience_Stock"], k.ite(k.eq(ch, 1), nxt[1], k.ite(k.eq(ch, 2), nxt[2], nxt[0])))
                # household
                born, arrives, leaves = (moves.get((kind, p, n), (0, 0))[0] for kind in ("birth", "arrival", "separation"))
                older = -1 if age == -1 or age + 1 > m.age_max else age + 1
                c.eq("child" + tag, b["Age_Youngest_Child"], 0 if born else older)
                if si.as_int(b["Age_Youngest_Child"]) == 0:
                    c.claim("born up to the last child-bearing period" + tag, p + 1 <= last)
                partner = si.as_int(a["Partner_Indicator"])
                c.eq("partner" + tag, b["Partner_Indicator"], (0 if leaves else 1) if partner else (1 if arrives else 0))
    return h


INIT = dict(educ=0, type=0, pt=0, ft=0, age=-1, partner=0)
CASES = [
    Case("events", careers(dict(INIT, age={-1, 0}, partner={0, 1}), periods=3, child_age_max=1), merge=True,
         bounds={"periods": 3, "agents": 1, "child ages": "none, 0, 1"}, budget=200),
    Case("last_child", careers(dict(INIT, age={-1, 0}), periods=3, child_age_max=2, last_child=0), merge=True,
         bounds={"periods": 3, "agents": 1, "last child-bearing period": 0}, budget=200),
    Case("couple_of_agents", careers(dict(INIT, educ=[0, 1], age=[-1], partner=[0], event={0, 1}), agents=2, periods=3, educ_years=(0, 1),
                                     child_age_max=1, last_child=1), merge=True,
         bounds={"periods": 3, "agents": 2, "education levels": 2}, budget=200),
    Case("experience", careers(dict(INIT, pt={0, 1}, ft={0, 2}, age={-1, 2}, event=0), periods=3, child_age_max=3), merge=True,
         bounds={"periods": 3, "agents": 1}, budget=200),
]
