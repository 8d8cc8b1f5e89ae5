"""C22 Integration draws and weights form a standard normal rule."""
import contextlib
import math

import numpy as np

from checks import common as k
from checks import model as mo
from checks import simu as si
from checks.c14 import bellman
from symx.harness import Case

ASSUMPTIONS = [
    "The library's Hermite rules are replaced by their contract (symmetric rules of symbolic nodes and weights with the moments "
    "0 to 3 of the rule's weight function); in the cases 'real' the library's own numbers are used.",
    "Random numbers are symbolic values indexed by seed and position: what a seeded generator guarantees.",
]


def f():
    from soepy.shared.numerical_integration import get_integration_draws_and_weights

    return get_integration_draws_and_weights


def spec(c, method, n, seed=321):
    m = mo.build(c, states=False, n_draws=n, method=method)
    return m.spec._replace(seed_emax=seed)


def symmetric(c, n, total, second):
    """A symmetric rule of n nodes with weights of the given total and second moment, otherwise arbitrary."""
    if n == 1:
        return c.array([0.0]), c.array([total])
    if n == 2:
        r = math.sqrt(second / total)
        return c.array([-r, r]), c.array([total / 2, total / 2])
    p, x = n // 2, []
    for i in range(p):
        x.append(c.positive("step %d" % i, typ=(0.3, 0.8)) + (x[-1] if x else 0.0))
    if n % 2 == 0:
        x[1] = 3 * x[0]  # keeps denominators simple; the other nodes are free
    w = [c.real("weight %d" % i, lo=-1, hi=1, typ=(0.0, 0.5)) for i in range(p)]
    if n % 2:
        w[0] = (second / 2 - sum(w[i] * x[i] * x[i] for i in range(1, p))) / (x[0] * x[0])
    else:
        rest = total / 2 - sum(w[2:])
        square = second / 2 - sum(w[i] * x[i] * x[i] for i in range(2, p))
        w[0] = (square - rest * x[1] * x[1]) / (-8 * x[0] * x[0])
        w[1] = rest - w[0]
    middle = [(0.0, total - 2 * sum(w))] if n % 2 else []
    pairs = [(-x[i], w[i]) for i in range(p - 1, -1, -1)] + middle + [(x[i], w[i]) for i in range(p)]
    return c.array([q[0] for q in pairs]), c.array([q[1] for q in pairs])


@contextlib.contextmanager
def rules(c, used):
    """Contract of the Gauss-Hermite rules in SciPy and NumPy."""
    import scipy.special as sp
    from soepy.shared import numerical_integration as module

    def stub(total, second):
        def rule(n, *a, **kw):
            n = int(n)
            used.append(n)
            return symmetric(c, n, total, second)
        return rule

    root = math.sqrt(math.pi)
    physicist, normal = stub(root, root / 2), stub(root * math.sqrt(2), root * math.sqrt(2))
    real = [(sp, "roots_hermite", physicist), (sp, "roots_hermitenorm", normal), (np.polynomial.hermite, "hermgauss", physicist),
            (np.polynomial.hermite_e, "hermegauss", normal)]
    saved = []
    for owner, name, s in real:
        func = getattr(owner, name)
        saved.append((owner, name, func))
        setattr(owner, name, s)
        for n, v in list(vars(module).items()):
            if v is func:
                saved.append((module, n, v))
                setattr(module, n, s)
    try:
        yield
    finally:
        for owner, name, func in saved:
            setattr(owner, name, func)


def moments(c, x, w, n, label=""):
    c.same("sizes" + label, (np.shape(x), np.shape(w)), ((n,), (n,)))
    c.eq("weights sum to one" + label, sum(w), 1.0)
    c.eq("mean zero" + label, sum(w * x), 0.0)
    if n > 1:
        c.eq("variance one" + label, sum(w * x * x), 1.0)
        c.eq("no skewness" + label, sum(w * x * x * x), 0.0)


def contract(c):
    n = c.choice("draws", tuple(range(1, 13)) + (20,))
    s = spec(c, "quadrature", n)
    used = []
    with rules(c, used):
        x, w = f()(s)
    moments(c, x, w, n)
    c.same("rule used", used, [n])


def real(c):
    """The library's numbers: every polynomial up to degree 7 (or 2n - 1) is integrated exactly."""
    n = c.choice("draws", tuple(range(1, 31)))
    x, w = f()(spec(c, "quadrature", n))
    x, w = np.asarray(x), np.asarray(w)
    c.same("sizes", (np.shape(x), np.shape(w)), ((n,), (n,)))
    for label, got, want in (("weights sum to one", sum(w), 1), ("mean zero", sum(w * x), 0), ("variance one", sum(w * x * x), 1 if n > 1 else 0)):
        c.claim(label, abs(float(got) - want) <= 1e-9)
    top = min(7, 2 * n - 1)
    a = [c.real("coefficient %d" % i, lo=-1, hi=1) for i in range(8)]
    normal = (1, 0, 1, 0, 3, 0, 15, 0)
    got = sum(float(wi) * sum(a[i] * float(xi) ** i for i in range(top + 1)) for xi, wi in zip(x, w))
    c.eq("polynomials up to degree %d" % top, got, sum(a[i] * normal[i] for i in range(top + 1)), tol=1e-7)
    for i in range(n):
        c.claim("positive weight %d" % i, w[i] > 0)


def monte_carlo(c):
    n, seed = c.choice("draws", (1, 2, 5, 9)), c.choice("seed", (0, 321, 9999))
    s = spec(c, "monte_carlo", n, seed)
    rng = si.Rng(c)
    out = []
    for label in ("a", "b"):
        rng.restart(label)
        if label == "b":
            with rng.installed():
                np.random.normal(0, 1, 3)
        with rng.installed():
            x, w = f()(s)
        call = [q for q in rng.calls if q.kind == "normal"][-1]
        c.same("stream of the solution seed", (call.stream, call.n), (seed, 0))
        c.eq("location", call.loc, 0.0)
        c.eq("scale", call.scale, 1.0)
        c.same("sizes", (np.shape(x), np.shape(w)), ((n,), (n,)))
        z = np.asarray(call.out).view(np.ndarray).ravel()
        c.same("numbers drawn", len(z), n)
        for i in range(n):
            c.eq("draw %d (%s)" % (i, label), x[i], z[i])
            c.eq("weight %d (%s)" % (i, label), w[i], 1.0 / n)
        out.append(x)
    c.eq("same draws whatever came before", out[0], out[1])


def unknown(c):
    s = spec(c, "quadrature", 3)
    s = s._replace(integration_method=c.choice("method", ("qmc", "", "Quadrature", "montecarlo", "monte carlo", "gauss", None)))
    c.raises("rejected", lambda: f()(s), ValueError)


Z = (0.25, -1.5, 0.75)


def fixed(c):
    rng = si.Rng(c, shock=lambda c, call, ix, name: Z[ix[-1]] if call.stream == 321 else 0.0)
    return rng.installed()


CASES = [
    Case("contract", contract, bounds={"nodes": "1..12, 20, symbolic nodes and weights"}),
    Case("real", real, bounds={"nodes": "1..30"}),
    Case("monte_carlo", monte_carlo, bounds={"draws": "1, 2, 5, 9", "seeds": 3}),
    Case("unknown", unknown, bounds={"methods": 7}),
    Case("solved_monte_carlo", bellman(child_age_max=0, n_draws=3, method="monte_carlo", rule=(Z, (1 / 3,) * 3), around=fixed),
         bounds={"periods": 2, "draws": "3 fixed numbers"}, budget=150),
    Case("solved_quadrature", bellman(child_age_max=0, n_draws=3), bounds={"periods": 2, "draws": 3}, budget=150),
]
