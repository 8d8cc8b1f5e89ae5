"""C03 More gross income never lowers net income; splitting never hurts."""
from checks import common as k
from symx.harness import Case

ASSUMPTIONS = [
    "2007 tax table as built by the code; wages >= 0, contribution rate in [0, 0.5], cap > 0.",
]


def setup(c):
    from soepy.shared.tax_and_transfers_jax import calculate_net_income

    tp = k.real_tax_params(c)
    rate = c.real("rate", lo=0, hi=0.5, typ=(0.05, 0.3))
    cap = c.positive("cap", typ=(300, 1800))
    d = c.array([rate, cap])
    return tp, d, lambda f, m, s: c.call(calculate_net_income, tp, d, f, m, s)


def taxable(d, w):
    return w - d[0] * k.minimum(w, d[1])


def reduction(c):
    """Net income with contributions is net income without contributions of the taxable incomes, so the
    cases below (stated without contributions) carry over together with taxable_monotone."""
    from soepy.shared.tax_and_transfers_jax import calculate_net_income, calculate_ssc_deductions

    tp, d, net = setup(c)
    f, m = c.real("f", lo=0, typ=(0, 2500)), c.real("m", lo=0, typ=(-800, 3000))
    d0 = c.array([0.0, 1.0])
    tf = f - c.call(calculate_ssc_deductions, d, f)
    tm_ = m - c.call(calculate_ssc_deductions, d, m)
    for s in (True, False):
        c.eq("form split=%s" % s, net(f, m, s), c.call(calculate_net_income, tp, d0, tf, tm_, s))


def taxable_monotone(c):
    """Taxable income rises with the wage, from 0 up, never above the wage."""
    tp, d, net = setup(c)
    f = c.real("f", lo=0, typ=(0, 2500))
    e = c.real("e", lo=0, typ=(0, 2500))
    from soepy.shared.tax_and_transfers_jax import calculate_ssc_deductions

    a = f - c.call(calculate_ssc_deductions, d, f)
    b = f + e - c.call(calculate_ssc_deductions, d, f + e)
    c.le("monotone", a, b)
    c.le("nonnegative", 0.0, a)
    c.le("below wage", a, f)


def in_taxable(c):
    """With no contributions the wages are the taxable incomes: the properties of the tax part."""
    from soepy.shared.tax_and_transfers_jax import calculate_net_income

    tp = k.real_tax_params(c)
    d = c.array([0.0, 1.0])
    return lambda f, m, s: c.call(calculate_net_income, tp, d, f, m, s)


def monotone_own(partner):
    def h(c):
        net = in_taxable(c)
        f = c.real("f", lo=0, typ=(0, 2500))
        e = c.real("e", lo=0, typ=(0, 1500))
        m = c.positive("m", typ=(10, 3000)) if partner else 0.0
        for s in (True, False):
            c.le("split=%s" % s, net(f, m, s), net(f + e, m, s))
    return h


def monotone_partner(c):
    net = in_taxable(c)
    f = c.real("f", lo=0, typ=(0, 2500))
    m = c.positive("m", typ=(10, 3000))
    e = c.real("e", lo=0, typ=(0, 1500))
    for s in (True, False):
        c.le("split=%s" % s, net(f, m, s), net(f, m + e, s))
        c.le("first unit split=%s" % s, net(f, 0.0, s), net(f, m, s))


def bounds(c):
    net = in_taxable(c)
    f = c.real("f", lo=0, typ=(0, 2500))
    m = c.real("m", lo=0, typ=(-800, 3000))
    for s in (True, False):
        n = net(f, m, s)
        c.le("not above gross split=%s" % s, n, f + m)
        c.le("not negative split=%s" % s, 0.0, n)


def splitting(c):
    net = in_taxable(c)
    f = c.real("f", lo=0, typ=(0, 2500))
    m = c.real("m", lo=0, typ=(-800, 3000))
    c.le("splitting never hurts", net(f, m, False), net(f, m, True))


def symmetric(c):
    tp, d, net = setup(c)
    f, m = c.positive("f", typ=(1, 2500)), c.positive("m", typ=(1, 3000))
    for s in (True, False):
        c.eq("symmetric split=%s" % s, net(f, m, s), net(m, f, s))


def irrelevant_single(c):
    tp, d, net = setup(c)
    f = c.real("f", lo=0, typ=(0, 2500))
    c.eq("no partner", net(f, 0.0, True), net(f, 0.0, False))


B = {"wages": ">= 0, unbounded"}
CASES = [
    Case("reduction", reduction, bounds=B), Case("taxable_monotone", taxable_monotone, bounds=B),
    Case("monotone_own_partner", monotone_own(True), timeout=120, bounds=B),
    Case("monotone_own_single", monotone_own(False), timeout=60, bounds=B),
    Case("monotone_partner", monotone_partner, timeout=120, bounds=B), Case("bounds", bounds, timeout=60, bounds=B),
    Case("splitting", splitting, timeout=120, bounds=B), Case("symmetric", symmetric, bounds=B),
    Case("irrelevant_single", irrelevant_single, bounds=B),
]
