"""C08 Interpolation on the experience grid is exact, bounded and shared."""
from checks import common as k
from checks import model as mo
from checks.simu import sim
from symx.harness import Case

ASSUMPTIONS = [
    "Grids are strictly increasing with arbitrary symbolic points (2 to 6 per case), values and queries are arbitrary reals; "
    "queries of the simulation lie in [0,1], grids there run from 0 to 1.",
]


def interp(c, g, v, x):
    from soepy.shared.interpolation import linear_interp_1d

    return c.call(linear_interp_1d, g, v, x)


def direct(n):
    def h(c):
        g = c.grid("grid", n, lo=None)
        v = c.vec("value", n)
        x = c.real("x", typ=(-0.5, 3.0))
        got = interp(c, g, v, c.array([x]))
        inside = k.and_(x >= g[0], x <= g[n - 1])
        c.eq("inside", k.ite(inside, got[0], 0.0), k.ite(inside, mo.interp(list(g), list(v), x), 0.0))
        c.eq("scalar query", interp(c, g, v, x), got[0])
        c.eq("grid points", interp(c, g, v, g), v)
        for i in range(n - 1):
            w = c.real("w%d" % i, lo=0, hi=1)
            y = g[i] + w * (g[i + 1] - g[i])
            q = interp(c, g, v, c.array([y]))[0]
            c.eq("on the line %d" % i, q, (1 - w) * v[i] + w * v[i + 1])
    return h


def bounded(n):
    def h(c):
        g = c.grid("grid", n, lo=None)
        v = c.vec("value", n)
        x = c.real("x", typ=(-0.5, 3.0))
        c.assume(k.and_(x >= g[0], x <= g[n - 1]))
        q = interp(c, g, v, c.array([x]))[0]
        c.claim("between the smallest and largest value",
                k.and_(q >= k.minimum(*[v[i] for i in range(n)]) - 1e-9, q <= k.maximum(*[v[i] for i in range(n)]) + 1e-9))
        u = c.vec("other", n)
        c.assume(k.and_(*[u[i] >= v[i] for i in range(n)]))
        c.claim("monotone in the values", interp(c, g, u, c.array([x]))[0] >= q - 1e-9)
    return h


def queries(c):
    """A whole vector of queries: each on its own."""
    g = c.grid("grid", 4, lo=None)
    v = c.vec("value", 4)
    x = c.vec("x", 3, typ=(-0.5, 3.0))
    got = interp(c, g, v, x)
    c.same("shape", tuple(got.shape), (3,))
    for i in range(3):
        c.eq("query %d" % i, got[i], interp(c, g, v, c.array([x[i]]))[0])


def simulated(n, years=(1,)):
    """The simulation's reading: one agent, the second period's share is symbolic."""
    def points(c):
        inner = c.grid("grid", n - 1, lo=0.0, hi=0.0)
        last = inner[n - 2]
        c.assume(last < 1)
        return [inner[i] for i in range(n - 1)] + [1.0]

    return sim(dict(educ=0, type=0, pt=0, ft=set(years), age=-1, partner=[1], event=0), periods=2, child_age_max=0, agents=1, exp_grid=points)


CASES = [
    Case("grid2", direct(2), bounds={"grid points": 2}),
    Case("grid3", direct(3), bounds={"grid points": 3}),
    Case("grid5", direct(5), bounds={"grid points": 5}),
    Case("bounded3", bounded(3), ineq=True, bounds={"grid points": 3}),
    Case("bounded5", bounded(5), ineq=True, bounds={"grid points": 5}, timeout=40),
    Case("queries", queries, bounds={"grid points": 4, "queries": 3}),
    Case("simulated3", simulated(3), bounds={"grid points": 3, "periods": 2, "agents": 1}),
    Case("simulated4", simulated(4), bounds={"grid points": 4, "periods": 2, "agents": 1}),
    Case("grid8", direct(8), tier="thorough", bounds={"grid points": 8}, budget=600),
    Case("simulated6", simulated(6, (0, 1, 2)), tier="thorough", bounds={"grid points": 6, "periods": 2, "agents": 1}, budget=600),
]
