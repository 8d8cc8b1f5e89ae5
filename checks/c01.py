"""C01 Income tax follows the 2007 schedule for every income."""
import numpy as np

from checks import common as k
from symx.harness import Case

ASSUMPTIONS = ["Incomes are non-negative reals without upper bound; general schedules have four strictly increasing thresholds."]


def _mods():
    from soepy.shared import tax_and_transfers, tax_and_transfers_jax

    return tax_and_transfers, tax_and_transfers_jax


def schedule_2007(c):
    sc, ve = _mods()
    tp = k.real_tax_params(c)
    x = c.real("x", lo=0, typ=(0, 6000))
    c.eq("vectorised=spec", c.call(ve.calculate_inc_tax, tp, x), k.tax_2007(x))
    # array argument
    y = c.vec("y", 2, lo=0, typ=(0, 6000))
    got = c.call(ve.calculate_inc_tax, tp, y)
    c.eq("vectorised array=spec", got, [k.tax_2007(y[0]), k.tax_2007(y[1])])


def schedule_2007_scalar(c):
    sc, ve = _mods()
    tp = k.real_tax_params(c)
    x = c.real("x", lo=0, typ=(0, 6000))
    c.eq("scalar=spec", sc.calculate_inc_tax(tp, x), k.tax_2007(x))
    c.cover("done")


def shape_2007(c):
    """Monotone, marginal rate between zero and 45 percent and never falling."""
    sc, ve = _mods()
    tp = k.real_tax_params(c)
    x = c.real("x", lo=0, typ=(0, 6000))
    d = c.positive("d", typ=(0.01, 3000))
    e = c.positive("e", typ=(0.01, 3000))
    t0 = c.call(ve.calculate_inc_tax, tp, x)
    t1 = c.call(ve.calculate_inc_tax, tp, x + d)
    t2 = c.call(ve.calculate_inc_tax, tp, x + d + e)
    c.le("nonnegative", 0.0, t0)
    c.le("never falls", t0, t1)
    c.le("marginal rate at most 45 percent", t1 - t0, 0.45 * d)
    lo = 7664 / k.WEEKS_PER_YEAR
    c.claim("marginal rate at least 15 percent above the allowance", k.implies(x >= lo, t1 - t0 >= 0.15 * d - 1e-9 * (1 + d)))
    c.claim("zero below", k.implies(x <= lo, k.and_(t0 <= 1e-9, t0 >= -1e-9)))
    hi = 250000 / k.WEEKS_PER_YEAR
    c.claim("top rate", k.implies(x >= hi, k.and_(t1 - t0 <= 0.45 * d + 1e-9 * (1 + d), t1 - t0 >= 0.45 * d - 1e-9 * (1 + d))))


def convex_2007(c):
    """Marginal rates on the two sides of any point: slopes of tangents are ordered (never falls)."""
    sc, ve = _mods()
    tp = k.real_tax_params(c)
    x = c.real("x", lo=0, typ=(0, 6000))
    h = c.positive("h", typ=(0.01, 1500))
    t = [c.call(ve.calculate_inc_tax, tp, v) for v in (x, x + h, x + 2 * h)]
    # midpoint convexity on top of monotonicity
    c.claim("midpoint convex", k.implies(x >= 7664 / k.WEEKS_PER_YEAR, t[0] + t[2] - 2 * t[1] >= -1e-9 * (1 + h)))


def general(c):
    sc, ve = _mods()
    tp = k.sym_schedule(c)
    x = c.real("x", lo=0, typ=(0, 4))
    c.eq("vectorised=spec", c.call(ve.calculate_inc_tax, tp, x), k.schedule_tax(tp, x))


def general_scalar(c):
    sc, ve = _mods()
    tp = k.sym_schedule(c)
    x = c.real("x", lo=0, typ=(0, 4))
    c.eq("scalar=spec", sc.calculate_inc_tax(tp, x), k.schedule_tax(tp, x))


CASES = [
    Case("schedule_2007", schedule_2007, bounds={"income": ">= 0, unbounded", "schedule": "2007 table built by the code"}),
    Case("schedule_2007_scalar", schedule_2007_scalar, bounds={"income": ">= 0, unbounded"}),
    Case("shape_2007", shape_2007, timeout=30, bounds={"income": ">= 0, unbounded", "difference": "> 0"}),
    Case("convex_2007", convex_2007, timeout=60, bounds={"income": ">= 0", "step": "> 0"}),
    Case("general", general, bounds={"schedule": "16 symbolic entries, thresholds strictly increasing"}),
    Case("general_scalar", general_scalar, bounds={"schedule": "16 symbolic entries, thresholds strictly increasing"}),
]
