"""C15 Simulated choices maximise, and the reported components add up."""
from checks.simu import crowd, sim
from symx.harness import Case

ASSUMPTIONS = [
    "Solved values, work disutilities, parameters, benefit amounts and shocks are arbitrary reals (part-time increments in "
    "[0,1]); random events are explored or scripted per case; sizes are bounded per case.",
    "Income tax is taken from the code's own schedule function (decided by C01, C02).",
]


def middle(c):
    return [0.0, c.real("grid.mid", lo=0.05, hi=0.95, typ=(0.1, 0.9)), 1.0]


ALONE = dict(educ=0, type=0, pt=0, ft=0)
CASES = [
    Case("states_elterngeld", crowd((-1, 0, 1, 3), types=2, periods=1, child_age_max=3),
         bounds={"periods": 1, "agents": 48, "child ages": "none, 0, 1, 3", "types": 2}),
    Case("states_erziehungsgeld", crowd((-1, 0, 1, 2), periods=1, child_age_max=2, regime="erziehungsgeld", splitting=False),
         bounds={"periods": 1, "agents": 24, "child ages": "none, 0..2"}),
    Case("states_ages", crowd((2, 3, 5, 6, 10, 11), years=((1, 0), (0, 2)), periods=1, child_age_max=11, child_age_init_max=11, splitting=False),
         bounds={"periods": 1, "agents": 24, "child ages": "2, 3, 5, 6, 10, 11"}),
    Case("education", crowd((-1, 0), educ=(0, 1, 2), partners=(1,), years=((0, 0), (0, 2)), periods=1, educ_years=(0, 0, 0), child_age_max=0),
         bounds={"periods": 1, "agents": 12, "education levels": 3}),
    Case("two_periods", sim(dict(ALONE, age={-1, 0}, partner=0, event=1), periods=2, child_age_max=1, agents=1),
         bounds={"periods": 2, "agents": 1, "child ages": "none, 0, 1"}),
    Case("grid3", sim(dict(ALONE, age=-1, partner=[1], event=0), periods=2, child_age_max=0, agents=1, exp_grid=middle),
         bounds={"periods": 2, "agents": 1, "grid points": "3, symbolic middle point"}),
    Case("two_agents", sim(dict(ALONE, educ=[0, 1], age=-1, partner=[1], event=0), periods=2, educ_years=(0, 1), child_age_max=0, agents=2),
         bounds={"periods": 2, "agents": 2, "education levels": 2}),
]
