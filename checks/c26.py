"""C26 Values react to opportunities in the right direction."""
from checks import common as k
from symx.harness import Case
from symx.spec import maximum

ASSUMPTIONS = [
    "One state, the expected maximum as the solution computes it; wages, partner's wage, child benefits, child care costs, "
    "out-of-work resources, equivalence scale, disutilities, continuation values, shocks and weights are symbolic reals "
    "(disutilities, equivalence scale, wages and out-of-work resources positive, the other amounts and weights not negative).",
    "Curvature 0 < |mu| <= 1, both signs.",
    "In the wage cases the monotonicity of net household income in the two wages is an assumption of the symbolic run: C03 "
    "decides it for every wage and contribution rule. Replays on the real code do not assume it.",
    "Erziehungsgeld: amounts are held on the same side of the income threshold, where the claim is lost (see DESIGN.md).",
]


def model(c, sign, n_draws, validation=False, split=True, partners=(0, 1), symbolic_shocks=False):
    x = dict(validation=validation, split=split)
    x["mu"] = c.real("mu", lo=0, hi=1, lo_strict=True, typ=(0.1, 0.9)) if sign > 0 else -c.real(
        "minus_mu", lo=0, hi=1, lo_strict=True, typ=(0.1, 0.9))
    x["delta"] = c.real("delta", lo=0, hi=1, typ=(0.5, 0.99))
    x["wage"] = c.positive("wage", typ=(5, 30))
    x["shock"] = [c.positive("shock%d" % i, typ=(0.6, 1.6)) for i in range(n_draws)] if symbolic_shocks else [1.0, 0.75, 1.5][:n_draws]
    x["weight"] = [c.real("weight%d" % i, lo=0, typ=(0.1, 1)) for i in range(n_draws)]
    x["ncu"] = [c.positive("ncu%d" % j, typ=(0.5, 2)) for j in range(3)]
    x["cont"] = [c.real("cont%d" % j, typ=(-5, 5)) for j in range(3)]
    x["home"] = c.positive("home", typ=(50, 600))
    x["partner"] = c.choice("partner", partners)
    x["male"] = c.positive("male", typ=(100, 1500)) if x["partner"] else 0.0
    x["cb"] = c.real("cb", lo=0, typ=(10, 60))
    x["eq"] = c.positive("equivalence", typ=(1, 2))
    x["bin"] = c.choice("child bin", (0, 1, 2, 3, 4))
    x["care"] = [[0.0, 0.0], [c.real("care10", lo=0, typ=(10, 90)), c.real("care11", lo=0, typ=(10, 90))],
                 [c.real("care20", lo=0, typ=(10, 90)), c.real("care21", lo=0, typ=(10, 90))]]
    x["d"] = [c.real("rate", lo=0, hi=0.5, typ=(0.05, 0.3)), c.positive("cap", typ=(300, 1800))]
    if validation:
        x["baby"] = c.choice("baby", (True, False))
        x["thr"] = [c.real("thr_single", lo=0, typ=(100, 900)), c.real("thr_married", lo=0, typ=(100, 1500))]
        x["eg"] = c.real("eg", lo=0, typ=(30, 90))
    x["tp"] = k.real_tax_params(c)
    return x


def emax(c, x, **over):
    import jax.numpy as jnp
    import numpy as np

    from soepy.shared.constants_and_indices import HOURS
    from soepy.solve.emaxs import construct_emax
    from soepy.solve.validation_solve import construct_emax_validation

    def a(v):  # the solution runs compiled, on JAX arrays
        v = c.array(v)
        return v if c.sym and v.dtype == object else jnp.asarray(v)

    x = dict(x, **over)
    kw = dict(ssc_deductions=a(x["d"]), tax_params=x["tp"], child_care_costs=a(x["care"]))
    more = {}
    if x["validation"]:
        kw.update(erziehungsgeld_income_threshold_single=x["thr"][0], erziehungsgeld_income_threshold_married=x["thr"][1],
                  erziehungsgeld=x["eg"])
        more["baby_child"] = np.array([x["baby"]])
    r = c.call(construct_emax_validation if x["validation"] else construct_emax,
               delta=x["delta"], log_wages_systematic=c.array([k.log(x["wage"])]), non_consumption_utilities=c.array([x["ncu"]]),
               draws=c.array([k.log(s) for s in x["shock"]]), draw_weights=c.array(x["weight"]),
               continuation_values=c.array([x["cont"]]), hours=HOURS, mu=x["mu"],
               non_employment_consumption_resources=c.array([x["home"]]),
               covariates=c.array([[x["bin"], x["male"], x["eq"], x["cb"]]]), model_spec=k.record("spec", **kw),
               tax_splitting=x["split"], **more)
    c.same("shape", tuple(r.shape), (1, 4))
    return r[0, 3]


def net(c, x, i, j, **over):
    from soepy.shared.tax_and_transfers_jax import calculate_net_income

    x = dict(x, **over)
    return c.call(calculate_net_income, x["tp"], c.array(x["d"]), k.HOURS[j] * (x["wage"] * x["shock"][i]), x["male"], x["split"])


def lemma(c, x, **over):
    """Net income does not fall (decided by C03)."""
    if c.sym:
        for i in range(len(x["shock"])):
            for j in (1, 2):
                c.assume(net(c, x, i, j) <= net(c, x, i, j, **over))


def same_side(c, x, **over):
    """The claim to Erziehungsgeld when working part-time is the same before and after."""
    if not x["validation"]:
        return
    thr = x["thr"][1] if x["partner"] else x["thr"][0]

    def income(i, **o):
        y = dict(x, **o)
        return k.HOURS[1] * (y["wage"] * y["shock"][i]) + y["male"]
    for i in range(len(x["shock"])):
        c.assume(k.or_(income(i, **over) <= thr, income(i) > thr))


def rise(what, sign, n_draws=1, **kw):
    """One amount rises, the others stay."""
    def h(c):
        x = model(c, sign, n_draws, partners=(1,) if what == "male" else (0, 1), **kw)
        e = c.real("rise", lo=0, typ=(0, 3) if what in ("wage", "cont") else (0, 60))
        if what == "cont":
            j = c.choice("alternative", (0, 1, 2))
            hi = dict(cont=[v + (e if i == j else 0) for i, v in enumerate(x["cont"])])
        elif what == "care":
            b, j = c.choice("care bin", (1, 2)), c.choice("care hours", (0, 1))
            hi = dict(care=[[v + (e if (r, q) == (b, j) else 0) for q, v in enumerate(w)] for r, w in enumerate(x["care"])])
        elif what == "home":
            hi = dict(home=c.positive("higher", typ=(300, 900)))
            c.assume(x["home"] <= hi["home"])
        else:
            hi = {what: x[what] + e}
        if what in ("male", "wage"):
            same_side(c, x, **hi)
            lemma(c, x, **hi)
        low, high = emax(c, x), emax(c, x, **hi)
        if what == "care":
            c.le("value", high, low, ineq="mono")
        else:
            c.le("value", low, high, ineq="mono")
    return h


def dominance(sign, **kw):
    """For a shock of weight one, at least the value of each single alternative."""
    def h(c):
        x = model(c, sign, 1, symbolic_shocks=True, **kw)
        x["weight"] = [1.0]
        got = emax(c, x)
        b = x["bin"] if x["bin"] <= 2 else 0
        for j in range(3):
            if j == 0:
                r = x["home"]
            else:
                r = net(c, x, 0, j) + x["cb"] - x["care"][b][j - 1]
                if x["validation"] and j == 1 and x["baby"]:
                    thr = x["thr"][1] if x["partner"] else x["thr"][0]
                    r = r + k.ite(k.HOURS[1] * (x["wage"] * x["shock"][0]) + x["male"] <= thr, x["eg"], 0)
                r = maximum(r, 1e-14)
            want = k.power(r / x["eq"], x["mu"]) / x["mu"] * x["ncu"][j] + x["delta"] * x["cont"][j]
            c.le("alternative %d" % j, want, got, ineq="mono")
    return h


def weighting(sign, n_draws, **kw):
    """Several shocks: the weighted sum of the values of the single shocks."""
    def h(c):
        x = model(c, sign, n_draws, symbolic_shocks=True, **kw)
        want = 0.0
        for s, w in zip(x["shock"], x["weight"]):
            want = want + w * emax(c, x, shock=[s], weight=[1.0])
        c.eq("weighted sum", emax(c, x), want)
    return h


CASES = []
WHAT = ("cont", "home", "cb", "care", "wage", "male")
for s, name in ((1, "positive"), (-1, "negative")):
    for v, reg in ((False, "elterngeld"), (True, "erziehungsgeld")):
        B = {"states": 1, "mu": "(0, 1]" if s > 0 else "[-1, 0)", "regime": reg}
        for w in WHAT:
            CASES.append(Case("%s_%s_%s" % (w, reg, name), rise(w, s, validation=v), bounds=dict(B, draws=1)))
        CASES.append(Case("alternatives_%s_%s" % (reg, name), dominance(s, validation=v), bounds=dict(B, draws=1)))
        CASES.append(Case("draws_%s_%s" % (reg, name), weighting(s, 2, validation=v), bounds=dict(B, draws=2)))
