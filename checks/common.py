"""Shared specification pieces (independent restatements of the documented model)."""
from symx.spec import and_, arr, eq, exp, implies, ite, log, maximum, minimum, not_, or_, power  # noqa: F401

WEEKS_PER_MONTH = 4.3
WEEKS_PER_YEAR = 51.6
HOURS = (0, 18, 38)
SOLI = 1.05


# ---------------------------------------------------------------- taxes
def tax_2007(x):
    """Income tax as the integral of the marginal rate of the 2007 schedule (weekly amounts)."""
    t = [a / WEEKS_PER_YEAR for a in (7664, 12739, 52151, 250000)]
    r = [0.15, 0.2397, 0.42, 0.45]

    def zone(lo, hi, r0, r1, y):
        # area under the straight line from r0 at lo to r1 at hi, up to y
        d = y - lo
        return r0 * d + (r1 - r0) / (hi - lo) / 2 * d * d

    z0 = zone(t[0], t[1], r[0], r[1], t[1])
    z1 = zone(t[1], t[2], r[1], r[2], t[2])
    z2 = r[2] * (t[3] - t[2])
    return ite(x < t[0], 0.0,
               ite(x < t[1], zone(t[0], t[1], r[0], r[1], x),
                   ite(x < t[2], z0 + zone(t[1], t[2], r[1], r[2], x),
                       ite(x < t[3], z0 + z1 + r[2] * (x - t[2]),
                           z0 + z1 + z2 + r[3] * (x - t[3])))))


def marginal_2007(x):
    t = [a / WEEKS_PER_YEAR for a in (7664, 12739, 52151, 250000)]
    return ite(x < t[0], 0.0,
               ite(x < t[1], 0.15 + (0.2397 - 0.15) * (x - t[0]) / (t[1] - t[0]),
                   ite(x < t[2], 0.2397 + (0.42 - 0.2397) * (x - t[1]) / (t[2] - t[1]),
                       ite(x < t[3], 0.42, 0.45))))


def schedule_tax(tp, x):
    """Tax by a table: rows thresholds, intercepts, linear and quadratic rates."""
    def z(i):
        d = x - tp[0, i]
        return tp[1, i] + tp[2, i] * d + tp[3, i] * d * d

    return ite(x < tp[0, 0], 0.0, ite(x < tp[0, 1], z(0), ite(x < tp[0, 2], z(1), ite(x < tp[0, 3], z(2), z(3)))))


def ssc(spec, w):
    return spec[0] * minimum(w, spec[1])


def net_income(tax, dspec, f, m, splitting):
    """tax: function of taxable income; f, m gross wages."""
    fd, md = ssc(dspec, f), ssc(dspec, m)
    tf, tm_ = f - fd, m - md
    if splitting:
        couple = 2 * tax((tf + tm_) / 2)
    else:
        couple = tax(tf) + tax(tm_)
    return ite(m > 0, tf + tm_ - SOLI * couple, tf - SOLI * tax(tf))


def real_tax_params(c):
    """The tax table of the code, from its own processing of a specification."""
    from soepy.pre_processing.tax_and_transfers_params import process_tax_system

    d = process_tax_system({"TAXES_TRANSFERS": {"tax_year": 2007, "tax_splitting": True}})
    import numpy as np

    from symx.sym import demote

    return np.array(demote(np.asarray(d["TAXES_TRANSFERS"]["tax_params"])), dtype=float)


def sym_schedule(c, name="tp"):
    """A piecewise quadratic schedule with ordered thresholds and arbitrary coefficients."""
    th = c.grid(name + ".th", 4, lo=0.0, hi=None, scale=1.0)
    rows = [list(th)]
    for r, typ in (("int", (0.0, 0.5)), ("lin", (0.0, 0.5)), ("quad", (-0.05, 0.1))):
        rows.append([c.real("%s.%s%d" % (name, r, i), typ=typ) for i in range(4)])
    return c.array(rows)


# ---------------------------------------------------------------- records
def record(name="record", **fields):
    import collections

    return collections.namedtuple(name, fields.keys())(**fields)


# ---------------------------------------------------------------- out-of-work resources
def transfer_params(c, scale=1.0):
    g = lambda n, lo, hi: c.real("sp." + n, lo=0, typ=(lo * scale, hi * scale))  # noqa: E731
    p = dict(
        alg1_replacement_no_child=c.real("sp.repl_no_child", lo=0, hi=1, typ=(0.4, 0.9)),
        alg1_replacement_child=c.real("sp.repl_child", lo=0, hi=1, typ=(0.4, 0.9)),
        regelsatz_single=g("regelsatz", 50, 120), housing_single=g("housing", 40, 100),
        housing_addtion=g("housing_add", 5, 30), regelsatz_child=g("regel_child", 20, 60),
        addition_child_single=g("add_child", 10, 40),
        elterngeld_replacement=c.real("sp.eg_repl", lo=0, hi=1, typ=(0.4, 0.9)),
    )
    p["elterngeld_min"] = g("eg_min", 40, 120)
    p["elterngeld_max"] = p["elterngeld_min"] + g("eg_max_minus_min", 50, 400)
    p["erziehungsgeld_income_threshold_single"] = g("erz_single", 100, 900)
    p["erziehungsgeld_income_threshold_married"] = g("erz_married", 100, 1500)
    p["erziehungsgeld"] = g("erz", 30, 90)
    return p


def benefits(p, regime, age, lagged, partner, wage, male, cb):
    """Benefits of a non-working woman (before partner's net income); wage is the hourly wage."""
    child = not_(eq(age, -1))
    worked = not_(eq(lagged, 0))
    hours = ite(eq(lagged, 1), HOURS[1], ite(eq(lagged, 2), HOURS[2], 0))
    last_net = 0.65 * wage * hours
    rate = ite(child, p["alg1_replacement_child"], p["alg1_replacement_no_child"])
    alg1 = ite(worked, rate * last_net + ite(child, cb, 0), 0)
    floor = ite(eq(partner, 1), 0, ite(
        child,
        p["regelsatz_single"] + p["housing_single"] + p["regelsatz_child"] + p["addition_child_single"] + p["housing_addtion"],
        p["regelsatz_single"] + p["housing_single"]))
    if regime == "elterngeld":
        eg = ite(worked, minimum(maximum(p["elterngeld_replacement"] * last_net, p["elterngeld_min"]), p["elterngeld_max"]) + cb, 0)
        return maximum(ite(eq(age, 0), eg, alg1), floor)
    b = maximum(alg1, floor)
    return b + erziehungsgeld(p, age, partner, male + b)


def erziehungsgeld(p, age, partner, income):
    thr = ite(eq(partner, 1), p["erziehungsgeld_income_threshold_married"], p["erziehungsgeld_income_threshold_single"])
    return ite(and_(or_(eq(age, 0), eq(age, 1)), income <= thr), p["erziehungsgeld"], 0)
