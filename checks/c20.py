"""C20 Parameters reach the model under the right name, group and type."""
import numpy as np

from checks import common as k
from checks import exog
from checks import model as mo
from symx.harness import Case

ASSUMPTIONS = [
    "Every parameter value is a symbolic real; the order of the input rows is one of a list of permutations (as written, "
    "reversed, sorted by name, sorted by type number downwards, types as strings, interleaved, twelve shuffles) per case.",
]

ORDERS = {
    "as written": lambda rows: rows,
    "reversed": lambda rows: rows[::-1],
    "by name": lambda rows: sorted(rows, key=lambda r: (r[0], r[1])),
    "by name downwards": lambda rows: sorted(rows, key=lambda r: (r[0], r[1]), reverse=True),
    "by name only": lambda rows: sorted(rows, key=lambda r: r[1]),
    "interleaved": lambda rows: rows[::3] + rows[1::3] + rows[2::3],
    "halves swapped": lambda rows: rows[len(rows) // 2:] + rows[: len(rows) // 2],
}
for _s in range(12):
    ORDERS["shuffle %d" % _s] = lambda rows, s=_s: [rows[i] for i in np.random.RandomState(s).permutation(len(rows))]


def read(c, p, types, order, as_file=False):
    from soepy.pre_processing.model_processing import read_model_params_init

    frame = mo.params_frame(ORDERS[order](mo.param_rows(p, types)))
    before = frame.copy(deep=True)
    if as_file:
        with exog.served({"params.pkl": frame}):
            got = read_model_params_init("params.pkl")
    else:
        got = read_model_params_init(frame)
    c.same("rows kept", list(frame.index), list(before.index))
    c.eq("input untouched", c.array(list(frame["value"])), c.array(list(before["value"])))
    return got


def shares(c, p, types):
    for i in range(1, types):
        c.assume(p["share_%d" % i] >= 0)
    rest = [p["share_%d" % i] for i in range(1, types)]
    return [1.0 - sum(rest) if rest else 1.0] + rest


def values(c, q, p, types):
    """Every field of the parameters."""
    for e in range(3):
        for name in ("gamma_0", "gamma_1", "gamma_p"):
            c.eq("%s[%d]" % (name, e), getattr(q, name)[e], p["%s_%d" % (name, e)])
        for kid in ("no", "yes"):
            for j in ("f", "p"):
                name = "%s_kids_%s" % (kid, j)
                c.eq("%s[%d]" % (name, e), getattr(q, name)[e], p["%s_%d" % (name, e)])
    for b in ("0_2", "3_5", "6_10"):
        for j in ("f", "p"):
            name = "child_%s_%s" % (b, j)
            c.eq(name, getattr(q, name), p[name])
    for name in ("gamma_p_mom", "delta", "mu"):
        c.eq(name, getattr(q, name), p[name])
    c.eq("shock_sd", q.shock_sd, p["sigma"])
    want = shares(c, p, types)
    c.same("number of shares", len(q.type_shares), types)
    c.eq("type shares", c.array(list(q.type_shares)), c.array(want))
    c.eq("shares add up", sum(list(q.type_shares)), 1.0)
    for j in "pf":
        th = getattr(q, "theta_" + j)
        c.same("number of theta_" + j, len(th), types)
        for i in range(types):
            c.eq("theta_%s of type %d" % (j, i), th[i], p["theta_%s%d" % (j, i)] if i else 0.0)


def fields(types, orders):
    def h(c):
        p = mo.draw_params(c, 3, types)
        order = c.choice("order", orders)
        _, q = read(c, p, types, order, c.choice("from file", (False, True)) if order == "as written" else False)
        values(c, q, p, types)
    return h


def effects(types, orders):
    """The read parameters in the wage and disutility of every education level, type and child age group."""
    def h(c):
        from soepy.shared.non_consumption_utility import calculate_non_consumption_utility
        from soepy.shared.wages import calculate_log_wage

        p = mo.draw_params(c, 3, types)
        _, q = read(c, p, types, c.choice("order", orders))
        m = mo.Model()
        m.p, m.init_exp_max = p, 2
        cells = [(e, y, b) for e in range(3) for y in range(types) for b in range(5)]
        col = lambda i: np.array([x[i] for x in cells])  # noqa: E731
        got = c.call(calculate_non_consumption_utility, q, col(0), col(1), col(2))
        for r, (e, y, b) in enumerate(cells):
            age = (-1, 0, 3, 6, 11)[b]
            c.eq("disutility education %d type %d age %d" % (e, y, age), got[r], [mo.disutility(m, e, y, age, j) for j in range(3)])
        share, inc = c.real("share", lo=0, hi=1), c.real("increment", lo=0, hi=1)
        for e in range(3):
            w = c.call(calculate_log_wage, q, e, share, 2, inc, 3)
            c.eq("wage of education %d" % e, w, k.log(mo.wage(m, 3, e, share, inc)))
    return h


def spec_types(c):
    """The specification counts the types of the parameters."""
    types = c.choice("types", (1, 2, 3, 11))
    m = mo.build(c, types=types, educ_years=(0,) * c.choice("levels", (1, 2, 3)), states=False)
    c.same("number of types", int(m.spec.num_types), types)
    c.same("number of levels", int(m.spec.num_educ_levels), m.n_educ)


ALL = list(ORDERS)
CASES = [
    Case("one_type", fields(1, ALL), bounds={"types": 1, "row orders": len(ALL)}),
    Case("two_types", fields(2, ALL), bounds={"types": 2, "row orders": len(ALL)}),
    Case("four_types", fields(4, ALL), bounds={"types": 4, "row orders": len(ALL)}),
    Case("twelve_types", fields(12, ALL), bounds={"types": 12, "row orders": len(ALL)}),
    Case("effects2", effects(2, ALL[:6]), bounds={"types": 2, "row orders": 6}),
    Case("effects11", effects(11, ["as written", "by name", "shuffle 3"]), bounds={"types": 11, "row orders": 3}),
    Case("counts", spec_types, bounds={"types": "1, 2, 3, 11", "education levels": "1..3"}),
    Case("hundred_types", fields(101, ["as written", "by name"]), tier="thorough", bounds={"types": 101}, budget=900),
]
