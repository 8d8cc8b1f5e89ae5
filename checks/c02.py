"""C02 Net household income is gross minus contributions minus 1.05 times tax."""
from checks import common as k
from symx.harness import Case

ASSUMPTIONS = [
    "Wages are non-negative reals; contribution rate in [0,1], cap > 0; tax tables are arbitrary piecewise-quadratic schedules with ordered thresholds.",
]


def setup(c, general):
    tp = k.sym_schedule(c) if general else k.real_tax_params(c)
    s = 1.0 if general else 600.0
    d = c.array([c.real("rate", lo=0, hi=1, typ=(0.05, 0.3)), c.positive("cap", typ=(0.5 * s, 3 * s))])
    f = c.real("f", lo=0, typ=(0, 4 * s))
    m = c.real("m", lo=0, typ=(-1.5 * s, 5 * s))
    tax = (lambda y: k.schedule_tax(tp, y)) if general else k.tax_2007
    return tp, d, f, m, tax


def vectorised(general, splitting):
    def h(c):
        from soepy.shared.tax_and_transfers_jax import calculate_net_income

        tp, d, f, m, tax = setup(c, general)
        got = c.call(calculate_net_income, tp, d, f, m, splitting)
        c.eq("net", got, k.net_income(tax, d, f, m, splitting))
    return h


def vectorised_default(c):
    from soepy.shared.tax_and_transfers_jax import calculate_net_income

    tp, d, f, m, tax = setup(c, False)
    c.eq("default is splitting", c.call(calculate_net_income, tp, d, f, m), k.net_income(tax, d, f, m, True))
    fs, ms = c.vec("fs", 2, lo=0, typ=(0, 2500)), c.vec("ms", 2, lo=0, typ=(-800, 3000))
    got = c.call(calculate_net_income, tp, d, fs, ms, True)
    c.eq("arrays", got, [k.net_income(tax, d, fs[i], ms[i], True) for i in range(2)])


def scalar(splitting):
    def h(c):
        from soepy.shared.tax_and_transfers import calculate_net_income

        tp, d, f, m, tax = setup(c, False)
        got = calculate_net_income(tp, d, f, m, splitting)
        c.eq("net", got, k.net_income(tax, d, f, m, splitting))
        c.cover("done")
    return h


def scalar_general(c):
    from soepy.shared.tax_and_transfers import calculate_net_income

    tp, d, f, m, tax = setup(c, True)
    split = c.boolean("splitting")
    c.eq("net", calculate_net_income(tp, d, f, m, split), k.net_income(tax, d, f, m, split))


def simulation_resources(c):
    """The resources the simulation computes for part-time and full-time work."""
    from soepy.simulate import income_sim
    from types import SimpleNamespace

    tp, d, f, m, tax = setup(c, False)
    split = c.boolean("splitting")
    inc = c.mat("inc", (2, 2), lo=0, typ=(0, 2500))
    ms = c.vec("ms", 2, lo=0, typ=(-800, 3000))
    spec = SimpleNamespace(tax_params=tp, ssc_deductions=d)
    got = income_sim.calculate_employment_consumption_resources(spec, inc, ms, split)
    for i in range(2):
        for j in range(2):
            c.eq("agent %d choice %d" % (i, j + 1), got[i, j], k.net_income(tax, d, inc[i, j], ms[i], split))


def contributions(c):
    from soepy.shared import tax_and_transfers, tax_and_transfers_jax

    d = c.array([c.real("rate", lo=0, hi=1), c.positive("cap")])
    w = c.real("w", lo=0, typ=(0, 5))
    want = d[0] * k.minimum(w, d[1])
    c.eq("vectorised", c.call(tax_and_transfers_jax.calculate_ssc_deductions, d, w), want)
    c.eq("scalar", tax_and_transfers.calculate_ssc_deductions(d, w), want)


B = {"wages": ">= 0, unbounded", "partner": "with and without income"}
CASES = [
    Case("vectorised_split", vectorised(False, True), bounds=B),
    Case("vectorised_individual", vectorised(False, False), bounds=B),
    Case("vectorised_default_arrays", vectorised_default, bounds=B),
    Case("general_split", vectorised(True, True), bounds=B),
    Case("general_individual", vectorised(True, False), bounds=B),
    Case("scalar_split", scalar(True), bounds=B),
    Case("scalar_individual", scalar(False), bounds=B),
    Case("scalar_general", scalar_general, bounds=B),
    Case("simulation_resources", simulation_resources, bounds={"agents": 2, "choices": 2}),
    Case("contributions", contributions, bounds={"wage": ">= 0"}),
]
