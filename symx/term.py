"""Hash-consed terms over exact reals and booleans in a canonical form.

Real terms are constants, atoms, or polynomials over atoms.  Atoms: variables, ite, max,
exp, log, pow, inv, floor and uninterpreted functions.  Float constants become exact
rationals; rationals closer than SNAP (relative) are identified, so that the order in which
the code multiplies literal constants does not matter.
"""
from __future__ import annotations

import math
import zlib
from fractions import Fraction

import numpy as np

SNAP = 1e-12
MAX_TERMS = 600  # expansion limit of a polynomial product
MAX_LEAVES = 48  # hoisting limit of ite trees


class T:
    __slots__ = ("op", "args", "id", "isbool", "pos", "nn", "leaves", "ctree", "isint")

    def __init__(self, op, args, id_, isbool):
        self.op = op
        self.args = args
        self.id = id_
        self.isbool = isbool
        self.pos = False
        self.nn = False
        self.leaves = 1
        self.ctree = False
        self.isint = False

    def __repr__(self):
        return show(self, 4)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


_table = {}
_byid = []
_snap = {}
_snap_cache = {}
VARS = {}  # name -> T
FACTS = {}  # id -> lower bound assumed for the term


def reset():
    _table.clear()
    _byid.clear()
    _snap.clear()
    _snap_cache.clear()
    VARS.clear()
    FACTS.clear()
    _not.clear()
    _scale.clear()
    global ZERO, ONE, TRUE, FALSE
    TRUE = _intern("b", (True,), True)
    FALSE = _intern("b", (False,), True)
    ZERO = const(0)
    ONE = const(1)


def node(i):
    return _byid[i]


def n_nodes():
    return len(_byid)


def _intern(op, args, isbool=False):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = T(op, args, len(_byid), isbool)
        _byid.append(t)
        _table[k] = t
        _attrs(t)
    return t


def _mono_sign(m):
    pos = nn = True
    for aid, e in m:
        a = _byid[aid]
        if not a.pos:
            pos = False
            if not (a.nn or e % 2 == 0):
                nn = False
    return pos, nn


def _attrs(t):
    op, a = t.op, t.args
    if op == "c":
        t.pos = a[0] > 0
        t.nn = a[0] >= 0
        t.ctree = True
        t.isint = a[0].denominator == 1
    elif op == "poly":
        t.nn = True
        t.isint = all(
            c.denominator == 1 and all(_byid[i].isint and e > 0 for i, e in m)
            for m, c in a
        )
        for m, c in a:
            if c < 0:
                t.nn = False
                t.pos = False
                break
            p, n = _mono_sign(m)
            if p:
                t.pos = True
            if not n:
                t.nn = False
        if not t.nn:
            t.pos = False
    elif op == "ite":
        t.pos = a[1].pos and a[2].pos
        t.nn = a[1].nn and a[2].nn
        t.leaves = a[1].leaves + a[2].leaves
        t.ctree = a[1].ctree and a[2].ctree
        t.isint = a[1].isint and a[2].isint
    elif op == "max":
        t.pos = any(x.pos for x in a)
        t.nn = t.pos or any(x.nn for x in a)
        t.isint = all(x.isint for x in a)
    elif op in ("exp",):
        t.pos = t.nn = True
    elif op == "pow":
        t.pos = a[0].pos
        t.nn = a[0].nn
    elif op == "inv":
        t.pos = a[0].pos
        t.nn = a[0].nn
    elif op == "floor":
        t.nn = a[0].nn
        t.isint = True


# ---------------------------------------------------------------- constants
def _simple(fr):
    return fr.denominator <= 4096


def snap(fr):
    r = _snap_cache.get(fr)
    if r is not None:
        return r
    if fr == 0:
        return fr
    try:
        f = float(fr)
    except OverflowError:
        return fr
    if f == 0.0 or math.isinf(f):
        return fr
    for g in (f, f * (1 + SNAP), f * (1 - SNAP)):
        k = "%.11e" % g
        r = _snap.get(k)
        if r is not None and abs(r - fr) <= abs(r) * Fraction(1, 10**11):
            break
        r = None
    if r is None:
        # prefer a nearby simple rational
        s = fr.limit_denominator(4096)
        if s != 0 and abs(s - fr) <= abs(fr) * Fraction(1, 10**13):
            r = s
        else:
            r = fr if fr.denominator < 2**80 else Fraction(f)
        _snap["%.11e" % f] = r
    _snap_cache[fr] = r
    return r


def tofrac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    f = float(x)
    if math.isnan(f):
        raise ValueError("NaN constant")
    if math.isinf(f):
        return Fraction(10**300) * (1 if f > 0 else -1)
    return Fraction(f)


def const(x):
    if isinstance(x, (float, np.floating)) and math.isnan(x):
        return _intern("fn", ("nan",))
    return _intern("c", (snap(tofrac(x)),))


def boolc(b):
    return TRUE if b else FALSE


def var(name, pos=False, nn=False, isint=False):
    t = VARS.get(name)
    if t is None:
        t = _intern("v", (name,))
        t.pos = pos
        t.nn = nn or pos
        t.isint = isint
        VARS[name] = t
    elif (t.pos, t.nn, t.isint) != (pos, nn or pos, isint):
        raise ValueError("variable %r is declared twice" % name)
    return t


def boolvar(name):
    t = VARS.get(name)
    if t is None:
        t = _intern("bv", (name,), True)
        VARS[name] = t
    return t


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.args[0]


# ---------------------------------------------------------------- polynomials
def pdict(t):
    if t.op == "c":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args)
    return {((t.id, 1),): Fraction(1)}


def _addc(d, m, c):
    o = d.get(m)
    if o is None:
        d[m] = c
        return
    s = o + c
    if s == 0 or abs(s) <= SNAP * max(abs(o), abs(c)):
        del d[m]
    else:
        d[m] = snap(s)


def mk(d):
    """Canonical node of a monomial->coefficient dictionary."""
    if not d:
        return ZERO
    # merge linear ite atoms with equal condition; push coefficients into ites
    groups = None
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1:
            a = _byid[m[0][0]]
            if a.op == "ite":
                if groups is None:
                    groups = {}
                groups.setdefault(a.args[0].id, []).append((m, a, c))
    if groups:
        work = [g for g in groups.values() if len(g) > 1 or g[0][2] != 1]
        if work:
            d = dict(d)
            extra = []
            for g in work:
                for m, _, _ in g:
                    del d[m]
                cond = g[0][1].args[0]
                x = add(*[scale(a.args[1], c) for _, a, c in g])
                y = add(*[scale(a.args[2], c) for _, a, c in g])
                extra.append(ite(cond, x, y))
            return add(mk(d), *extra)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _byid[m[0][0]]
    return _intern("poly", tuple(sorted((m, snap(c)) for m, c in d.items())))


def add(*ts):
    ts = [t for t in ts if t is not ZERO]
    if not ts:
        return ZERO
    if len(ts) == 1:
        return ts[0]
    d = pdict(ts[0])
    for t in ts[1:]:
        if t.op == "c":
            _addc(d, (), t.args[0])
        elif t.op == "poly":
            for m, c in t.args:
                _addc(d, m, c)
        else:
            _addc(d, ((t.id, 1),), Fraction(1))
    # ctree + const -> ctree
    if len(d) == 2 and () in d:
        (m,) = [m for m in d if m != ()]
        if d[m] == 1 and len(m) == 1 and m[0][1] == 1:
            a = _byid[m[0][0]]
            if a.ctree and a.op == "ite":
                k = const(d[()])
                return map_ctree(a, lambda x: add(x, k))
    return mk(d)


_scale = {}
_not = {}


def scale(t, c):
    if c == 0:
        return ZERO
    if c == 1:
        return t
    if t.op == "c":
        return const(t.args[0] * c)
    if t.op == "poly":
        key = (t.id, c)
        r = _scale.get(key)
        if r is None:
            r = _scale[key] = mk({m: snap(k * c) for m, k in t.args})
        return r
    return mk({((t.id, 1),): snap(c)})


def neg(t):
    return scale(t, Fraction(-1))


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            # only positive atoms carry negative exponents
            del d[a]
        else:
            d[a] = n
    return tuple(sorted(d.items()))


def _hoist_mono(m, c):
    """Move ite atoms of a nonlinear monomial outside; None if there is none."""
    if len(m) == 1 and m[0][1] == 1:
        return None
    for i, (aid, e) in enumerate(m):
        a = _byid[aid]
        if a.op == "ite" and a.leaves <= MAX_LEAVES and e > 0:
            cond = a.args[0]
            rest = m[:i] + m[i + 1 :]
            r1, c1 = _restrict_mono(rest, cond, True)
            r2, c2 = _restrict_mono(rest, cond, False)
            size = 0
            for bid, _ in rest:
                b = _byid[bid]
                if b.op == "ite":
                    size += b.leaves
            if size + a.leaves > MAX_LEAVES:
                continue
            x = mul(mul(powi(a.args[1], e), c1), mk({r1: c}) if r1 else const(c))
            y = mul(mul(powi(a.args[2], e), c2), mk({r2: c}) if r2 else const(c))
            return ite(cond, x, y)
    return None


def _restrict_mono(m, cond, val):
    keep = []
    fac = ONE
    for aid, e in m:
        a = _byid[aid]
        if a.op == "ite" and a.args[0] is cond and e > 0:
            fac = mul(fac, powi(a.args[1] if val else a.args[2], e))
        else:
            keep.append((aid, e))
    return tuple(keep), fac


def mul(a, b):
    if a.op == "c":
        return scale(b, a.args[0])
    if b.op == "c":
        return scale(a, b.args[0])
    k = ("*", a.id, b.id) if a.id <= b.id else ("*", b.id, a.id)
    r = _table.get(k)
    if r is not None:
        return r
    r = _mul(a, b)
    _table[k] = r
    return r


def _mul(a, b):
    pa, pb = pdict(a), pdict(b)
    if len(pa) * len(pb) > MAX_TERMS:
        if a.id > b.id:
            a, b = b, a
        return _intern("prod", (a, b))
    d = {}
    extra = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mmul(m1, m2)
            c = c1 * c2
            h = _hoist_mono(m, c) if len(m) > 1 or (m and m[0][1] != 1) else None
            if h is not None:
                extra.append(h)
            else:
                _addc(d, m, snap(c))
    r = mk(d)
    if extra:
        r = add(r, *extra)
    return r


def powi(t, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(powi(t, -n))
    if n == 1:
        return t
    if t.op not in ("poly", "c", "ite"):
        return _intern("poly", ((((t.id, n),), Fraction(1)),))
    h = powi(t, n // 2)
    h = mul(h, h)
    return mul(h, t) if n % 2 else h


def _lead(t):
    """(coefficient, normalised poly) with leading coefficient 1 (by sorted order)."""
    if t.op != "poly":
        return Fraction(1), t
    # leading: first non-constant monomial
    for m, c in t.args:
        if m != ():
            break
    return c, scale(t, 1 / c)


def inv(t):
    if t.op == "c":
        if t.args[0] == 0:
            return _intern("fn", ("inv0",))
        return const(1 / t.args[0])
    if t.op == "ite" and t.leaves <= MAX_LEAVES:
        return ite(t.args[0], inv(t.args[1]), inv(t.args[2]))
    if t.op == "poly" and len(t.args) == 1:
        m, c = t.args[0]
        r = const(1 / c)
        for aid, e in m:
            r = mul(r, _inv_atom(_byid[aid], e))
        return r
    if t.op == "poly":
        c, p = _lead(t)
        return scale(_intern("inv", (p,)), 1 / c) if not p.pos else scale(
            _intern("inv", (p,)), 1 / c
        )
    return _inv_atom(t, 1)


def _inv_atom(a, e):
    if a.op == "inv":
        base = a.args[0]
        return powi(base, e) if base.pos else powi(_intern("inv", (a,)), e)
    if a.pos or e < 0:
        return _intern("poly", ((((a.id, -e),), Fraction(1)),)) if -e != 1 else a
    return powi(_intern("inv", (a,)), e)


def div(a, b):
    if b.op == "c" and b.args[0] != 0:
        return scale(a, 1 / b.args[0])
    if a is b and a.pos:
        return ONE
    return mul(a, inv(b))


# ---------------------------------------------------------------- ite
def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if c.op == "not":
        return ite(c.args[0], y, x)
    if x.isbool:
        return or_(and_(c, x), and_(not_(c), y))
    # orientation: of c and not c keep the one with smaller id
    nc = not_(c)
    if nc.id < c.id:
        c, x, y = nc, y, x
    if x.op == "ite" and x.args[0] is c:
        x = x.args[1]
    if y.op == "ite" and y.args[0] is c:
        y = y.args[2]
    if x is y:
        return x
    # ite(c, x, ite(d, x, z)) -> ite(c or d, x, z)
    if y.op == "ite" and y.args[1] is x:
        return ite(or_(c, y.args[0]), x, y.args[2])
    if y.op == "ite" and y.args[2] is x:
        return ite(or_(c, not_(y.args[0])), x, y.args[1])
    if x.op == "ite" and x.args[1] is y:
        return ite(and_(c, not_(x.args[0])), x.args[2], y)
    if x.op == "ite" and x.args[2] is y:
        return ite(and_(c, x.args[0]), x.args[1], y)
    return _intern("ite", (c, x, y))


def map_ctree(t, f, _memo=None):
    if t.op == "c":
        return f(t)
    if _memo is None:
        _memo = {}
    r = _memo.get(t.id)
    if r is None:
        r = ite(t.args[0], map_ctree(t.args[1], f, _memo), map_ctree(t.args[2], f, _memo))
        _memo[t.id] = r
    return r


def map_ite(t, f):
    """Apply f to the leaves of an ite tree."""
    if t.op != "ite":
        return f(t)
    return ite(t.args[0], map_ite(t.args[1], f), map_ite(t.args[2], f))


# ---------------------------------------------------------------- max / min
def maximum(*ts):
    flat = []
    for t in ts:
        if t.op == "max":
            flat.extend(t.args)
        else:
            flat.append(t)
    # several ctrees: combine
    if len(flat) == 2:
        a, b = flat
        if a.op == "c" and b.ctree:
            return map_ctree(b, lambda x: x if cval(x) >= cval(a) else a)
        if b.op == "c" and a.ctree:
            return map_ctree(a, lambda x: x if cval(x) >= cval(b) else b)
        if a.ctree and b.ctree and a.leaves * b.leaves <= MAX_LEAVES:
            return map_ctree(a, lambda x: maximum(x, b))
        d = sub(a, b)
        if d.nn:
            return a
        if neg(d).nn:
            return b
    u = {}
    cst = None
    for t in flat:
        if t.op == "c":
            cst = t if cst is None or cval(t) > cval(cst) else cst
        else:
            u[t.id] = t
    if cst is not None and cval(cst) <= 0 and any(t.nn for t in u.values()):
        cst = None
    if cst is not None and FACTS and any(FACTS.get(i, cval(cst) - 1) >= cval(cst) for i in u):
        cst = None
    args = [u[i] for i in sorted(u)]
    if cst is not None:
        args.append(cst)
    if len(args) == 1:
        return args[0]
    args.sort(key=lambda t: t.id)
    return _intern("max", tuple(args))


def minimum(*ts):
    return neg(maximum(*[neg(t) for t in ts]))


def absolute(t):
    if t.nn:
        return t
    if neg(t).nn:
        return neg(t)
    return maximum(t, neg(t))


# ---------------------------------------------------------------- functions
def exp(t):
    if t is ZERO:
        return ONE
    if t.op == "c":
        return const(math.exp(min(float(cval(t)), 700)))
    if t.op == "ite" and t.leaves <= MAX_LEAVES:
        return map_ite(t, exp)
    r = ONE
    for m, c in pdict(t).items():
        r = mul(r, _exp_mono(m, c))
    return r


def _exp_mono(m, c):
    if m == ():
        return const(math.exp(min(float(c), 700)))
    for i, (aid, e) in enumerate(m):
        a = _byid[aid]
        if a.op == "log" and e == 1:
            rest = m[:i] + m[i + 1 :]
            ex = mk({rest: c}) if rest else const(c)
            return power(a.args[0], ex)
        if a.op == "ite" and len(m) == 1 and e == 1:
            return map_ite(a, lambda x: exp(scale(x, c)))
    if c.denominator == 1 and abs(c) < 64:
        at = _intern("exp", (mk({m: Fraction(1)}),))
        return powi(at, int(c)) if c > 0 else _intern(
            "poly", ((((at.id, int(c)),), Fraction(1)),)
        )
    return _intern("exp", (mk({m: c}),))


def log(t):
    if t.op == "c":
        v = cval(t)
        if v <= 0:
            return _intern("fn", ("logneg", t))
        if v == 1:
            return ZERO
        return const(math.log(v.numerator) - math.log(v.denominator)) if (
            v.denominator > 10**300 or v.numerator > 10**300
        ) else const(math.log(float(v)))
    if t.op == "ite" and t.leaves <= MAX_LEAVES:
        return map_ite(t, log)
    if t.op == "exp":
        return t.args[0]
    if t.op == "pow" and t.args[0].pos:
        return mul(t.args[1], log(t.args[0]))
    if t.op == "poly" and len(t.args) == 1:
        m, c = t.args[0]
        if c > 0 and all(_byid[a].pos for a, _ in m):
            return add(
                log(const(c)), *[scale(log(_byid[a]), Fraction(e)) for a, e in m]
            )
    if t.op == "poly" and t.pos:
        c, p = _lead(t)
        if c != 1 and c > 0:
            return add(log(const(c)), _intern("log", (p,)))
    return _intern("log", (t,))


def power(b, e):
    if e.op == "c":
        c = cval(e)
        if c == 0:
            return ONE
        if c == 1:
            return b
        if c.denominator == 1 and abs(c) <= 16:
            n = int(c)
            return powi(b, n) if n > 0 else inv(powi(b, -n))
    if b.op == "c" and cval(b) == 1:
        return ONE
    if b.op == "c" and e.op == "c" and cval(b) > 0:
        return const(float(cval(b)) ** float(cval(e)))
    if b.op == "ite" and b.leaves <= MAX_LEAVES:
        return map_ite(b, lambda x: power(x, e))
    if b.op == "exp":
        return exp(mul(b.args[0], e))
    if b.op == "pow" and b.args[0].pos:
        return power(b.args[0], mul(b.args[1], e))
    if b.op == "poly" and len(b.args) == 1:
        m, c = b.args[0]
        if c > 0 and all(_byid[a].pos for a, _ in m):
            r = ONE
            if c != 1:
                r = _pow_atom(const(c), e)
            for a, k in m:
                p = power(_byid[a], e)
                r = mul(r, powi(p, k) if k > 0 else inv(powi(p, -k)))
            return r
    if b.op == "poly" and b.pos:
        c, p = _lead(b)
        if c > 0 and c != 1:
            return mul(_pow_atom(const(c), e), _pow_atom(p, e))
    return _pow_atom(b, e)


def _pow_atom(b, e):
    if b.op == "c" and e.op == "c":
        return const(float(cval(b)) ** float(cval(e)))
    # pow(b, -e) = 1/pow(b, e) for b > 0: normalise the sign of the exponent
    if b.pos and e.op == "poly":
        for m, c in e.args:
            if m != ():
                break
        if c < 0:
            return inv(_pow_atom(b, neg(e)))
    return _intern("pow", (b, e))


def floor(t):
    if t.op == "c":
        return const(math.floor(cval(t)))
    if t.isint:
        return t
    if t.op == "ite" and t.leaves <= MAX_LEAVES:
        return map_ite(t, floor)
    return _intern("floor", (t,))


def ceil(t):
    return neg(floor(neg(t)))


def trunc(t):
    """Conversion to int (towards zero)."""
    if t.isint:
        return t
    if t.nn:
        return floor(t)
    return ite(lt(t, ZERO), ceil(t), floor(t))


def fn(name, *args):
    args = tuple(args)
    if all(a.op == "c" for a in args) and name in FN_IMPL:
        return const(FN_IMPL[name](*[float(cval(a)) for a in args]))
    return _intern("fn", (name,) + args)


FN_IMPL = {
    "sin": math.sin,
    "cos": math.cos,
    "tan": math.tan,
    "tanh": math.tanh,
    "erf": math.erf,
    "atan": math.atan,
    "sinh": math.sinh,
    "cosh": math.cosh,
}
FN_NP = {
    "sin": np.sin,
    "cos": np.cos,
    "tan": np.tan,
    "tanh": np.tanh,
    "erf": np.vectorize(math.erf),
    "atan": np.arctan,
    "sinh": np.sinh,
    "cosh": np.cosh,
    "inv0": lambda: np.float64(np.inf),
    "nan": lambda: np.float64(np.nan),
    "logneg": lambda x: np.full_like(x, np.nan),
}


# ---------------------------------------------------------------- booleans
def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    r = _not.get(b.id)
    if r is None:
        r = _not[b.id] = _not1(b)
    return r


def _not1(b):
    op = b.op
    if op == "not":
        return b.args[0]
    if op == "le0":
        return lt0(neg(b.args[0]))
    if op == "lt0":
        return le0(neg(b.args[0]))
    if op == "and":
        return or_(*[not_(x) for x in b.args])
    if op == "or":
        return and_(*[not_(x) for x in b.args])
    return _intern("not", (b,), True)


def and_(*bs):
    s = {}
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.op == "and":
            for x in b.args:
                s[x.id] = x
        else:
            s[b.id] = b
    if not s:
        return TRUE
    for x in list(s.values()):
        if not_(x).id in s:
            return FALSE
        if x.op == "or" and any(y.id in s for y in x.args):
            del s[x.id]
    if len(s) == 1:
        return next(iter(s.values()))
    return _intern("and", tuple(s[i] for i in sorted(s)), True)


def or_(*bs):
    s = {}
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        if b.op == "or":
            for x in b.args:
                s[x.id] = x
        else:
            s[b.id] = b
    if not s:
        return FALSE
    for x in list(s.values()):
        if not_(x).id in s:
            return TRUE
        if x.op == "and" and any(y.id in s for y in x.args):
            del s[x.id]
    if len(s) == 1:
        return next(iter(s.values()))
    return _intern("or", tuple(s[i] for i in sorted(s)), True)


def xor(a, b):
    return or_(and_(a, not_(b)), and_(not_(a), b))


def implies(a, b):
    return or_(not_(a), b)


def _ctree_plus(p):
    """p = ctree (with constants folded)?"""
    return p.ctree and p.op == "ite"


def _posscale(p):
    if p.op == "poly":
        for m, c in p.args:
            if m != ():
                break
        c = abs(c)
        return scale(p, 1 / c) if c != 1 else p
    return p


def le0(p):
    if p.op == "c":
        return boolc(cval(p) <= 0)
    if p.pos:
        return FALSE
    if neg(p).nn:
        return TRUE
    if _ctree_plus(p):
        return map_ctree(p, lambda x: boolc(cval(x) <= 0))
    p = _posscale(p)
    return _intern("le0", (p,), True)


def lt0(p):
    if p.op == "c":
        return boolc(cval(p) < 0)
    if p.nn:
        return FALSE
    if neg(p).pos:
        return TRUE
    if _ctree_plus(p):
        return map_ctree(p, lambda x: boolc(cval(x) < 0))
    p = _posscale(p)
    return _intern("lt0", (p,), True)


def eq0(p):
    if p.op == "c":
        return boolc(cval(p) == 0)
    if p.pos or neg(p).pos:
        return FALSE
    if _ctree_plus(p):
        return map_ctree(p, lambda x: boolc(cval(x) == 0))
    if p.op == "poly":
        p = _lead(p)[1]
    return _intern("eq0", (p,), True)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def ge(a, b):
    return le0(sub(b, a))


def gt(a, b):
    return lt0(sub(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if a.isbool or b.isbool:
        return not_(xor(tobool(a), tobool(b)))
    return eq0(sub(a, b))


def ne(a, b):
    return not_(eq(a, b))


def toreal(b):
    return ite(b, ONE, ZERO) if b.isbool else b


def tobool(t):
    return t if t.isbool else not_(eq0(t))


# ---------------------------------------------------------------- traversal
def children(t):
    op = t.op
    if op in ("c", "v", "b", "bv"):
        return ()
    if op == "poly":
        out = []
        for m, _ in t.args:
            for aid, _e in m:
                out.append(_byid[aid])
        return out
    if op == "fn":
        return t.args[1:]
    return t.args


def topo(roots, children=None):
    children = children or globals()["children"]
    seen = set()
    order = []
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done:
            order.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for c in children(t):
            if c.id not in seen:
                stack.append((c, False))
    return order


def free_vars(roots):
    return [t for t in topo(roots) if t.op in ("v", "bv")]


def rebuild(t, ch):
    """Rebuild node t with children mapping ch: T->T (canonicalising)."""
    op = t.op
    if op == "poly":
        s = []
        for m, c in t.args:
            r = const(c)
            for aid, e in m:
                a = ch(_byid[aid])
                if e > 0:
                    r = mul(r, powi(a, e))
                else:
                    r = mul(r, inv(powi(a, -e)))
            s.append(r)
        return add(*s)
    a = t.args
    if op == "ite":
        return ite(ch(a[0]), ch(a[1]), ch(a[2]))
    if op == "max":
        return maximum(*[ch(x) for x in a])
    if op == "exp":
        return exp(ch(a[0]))
    if op == "log":
        return log(ch(a[0]))
    if op == "pow":
        return power(ch(a[0]), ch(a[1]))
    if op == "inv":
        return inv(ch(a[0]))
    if op == "floor":
        return floor(ch(a[0]))
    if op == "prod":
        return mul(ch(a[0]), ch(a[1]))
    if op == "fn":
        return fn(a[0], *[ch(x) for x in a[1:]])
    if op == "not":
        return not_(ch(a[0]))
    if op == "and":
        return and_(*[ch(x) for x in a])
    if op == "or":
        return or_(*[ch(x) for x in a])
    if op == "le0":
        return le0(ch(a[0]))
    if op == "lt0":
        return lt0(ch(a[0]))
    if op == "eq0":
        return eq0(ch(a[0]))
    return t


def substitute(roots, mapping):
    """mapping: id->T applied bottom-up."""
    memo = {}
    for t in topo(roots):
        m = mapping.get(t.id)
        if m is not None:
            memo[t.id] = m
            continue
        if t.op in ("c", "v", "b", "bv"):
            memo[t.id] = t
            continue
        cs = children(t)
        if all(memo[c.id] is c for c in cs):
            memo[t.id] = t
        else:
            memo[t.id] = rebuild(t, lambda c: memo[c.id])
    return [memo[r.id] for r in roots]


# ---------------------------------------------------------------- evaluation
def evaluate(roots, env, k=None):
    """Float evaluation.  env: name -> float or array (k,).  Returns list of arrays."""
    memo = {}
    with np.errstate(all="ignore"):
        for t in topo(roots):
            memo[t.id] = _eval1(t, memo, env)
    return [memo[r.id] for r in roots]


def _eval1(t, memo, env):
    op, a = t.op, t.args
    if op == "c":
        try:
            return np.float64(float(a[0]))
        except OverflowError:
            return np.float64(np.inf if a[0] > 0 else -np.inf)
    if op == "v":
        return np.asarray(env[a[0]], dtype=float)
    if op == "bv":
        return np.asarray(env[a[0]], dtype=bool)
    if op == "b":
        return np.bool_(a[0])
    if op == "poly":
        s = 0.0
        for m, c in a:
            r = float(c)
            for aid, e in m:
                v = memo[aid]
                if e == 1:
                    r = r * v
                elif e == -1:
                    r = r / v
                else:
                    r = r * v ** float(e)
            s = s + r
        return np.asarray(s)
    if op == "ite":
        return np.where(memo[a[0].id], memo[a[1].id], memo[a[2].id])
    if op == "max":
        r = memo[a[0].id]
        for x in a[1:]:
            r = np.maximum(r, memo[x.id])
        return r
    if op == "exp":
        return np.exp(memo[a[0].id])
    if op == "log":
        return np.log(memo[a[0].id])
    if op == "pow":
        return np.power(memo[a[0].id], memo[a[1].id])
    if op == "inv":
        return 1.0 / memo[a[0].id]
    if op == "floor":
        return np.floor(memo[a[0].id])
    if op == "prod":
        return memo[a[0].id] * memo[a[1].id]
    if op == "fn":
        f = FN_NP.get(a[0])
        if f is None:
            # an arbitrary fixed interpretation of an uninterpreted function
            s = 0.37 + (zlib.crc32(a[0].encode()) % 97) / 97.0
            for i, x in enumerate(a[1:]):
                s = s + np.sin(1.3 + (i + 1.7) * memo[x.id])
            return np.asarray(s)
        return f(*[memo[x.id] for x in a[1:]])
    if op == "not":
        return ~np.asarray(memo[a[0].id], dtype=bool)
    if op == "and":
        r = memo[a[0].id]
        for x in a[1:]:
            r = np.logical_and(r, memo[x.id])
        return r
    if op == "or":
        r = memo[a[0].id]
        for x in a[1:]:
            r = np.logical_or(r, memo[x.id])
        return r
    if op == "le0":
        return memo[a[0].id] <= 0
    if op == "lt0":
        return memo[a[0].id] < 0
    if op == "eq0":
        return memo[a[0].id] == 0
    raise AssertionError(op)


def evaluate_mp(roots, env, digits=60):
    """High-precision evaluation at one point (mpmath); None where undefined."""
    import mpmath as mp

    memo = {}
    with mp.workdps(digits):
        for t in topo(roots):
            try:
                memo[t.id] = _mp1(t, memo, env, mp)
            except (ZeroDivisionError, ValueError, TypeError, OverflowError, KeyError):
                memo[t.id] = None
        return [memo[r.id] for r in roots]


def _mp1(t, memo, env, mp):
    op, a = t.op, t.args
    if op == "c":
        return mp.mpf(a[0].numerator) / a[0].denominator
    if op == "v":
        return mp.mpf(float(env[a[0]]))
    if op in ("bv",):
        return bool(env[a[0]])
    if op == "b":
        return a[0]
    if op == "poly":
        s = mp.mpf(0)
        for m, c in a:
            r = mp.mpf(c.numerator) / c.denominator
            for aid, e in m:
                r = r * memo[aid] ** e
            s += r
        return s
    if op == "ite":
        return memo[a[1].id] if memo[a[0].id] else memo[a[2].id]
    if op == "max":
        return max(memo[x.id] for x in a)
    if op == "exp":
        return mp.exp(memo[a[0].id])
    if op == "log":
        r = mp.log(memo[a[0].id])
        return r if isinstance(r, mp.mpf) else None
    if op == "pow":
        r = mp.power(memo[a[0].id], memo[a[1].id])
        return r if isinstance(r, mp.mpf) else None
    if op == "inv":
        return 1 / memo[a[0].id]
    if op == "floor":
        return mp.floor(memo[a[0].id])
    if op == "prod":
        return memo[a[0].id] * memo[a[1].id]
    if op == "not":
        return not memo[a[0].id]
    if op == "and":
        return all(memo[x.id] for x in a)
    if op == "or":
        return any(memo[x.id] for x in a)
    if op == "le0":
        return memo[a[0].id] <= 0
    if op == "lt0":
        return memo[a[0].id] < 0
    if op == "eq0":
        return memo[a[0].id] == 0
    return None


def show(t, depth=6):
    op, a = t.op, t.args
    if op == "c":
        f = a[0]
        return str(f) if f.denominator < 1000 else "%.9g" % float(f)
    if op in ("v", "bv", "b"):
        return str(a[0])
    if depth == 0:
        return "…"
    if op == "poly":
        out = []
        for m, c in a:
            fs = [show(_byid[i], depth - 1) + ("" if e == 1 else "^%d" % e) for i, e in m]
            cs = "" if (c == 1 and fs) else (str(c) if c.denominator < 1000 else "%.9g" % float(c))
            out.append("*".join(([cs] if cs else []) + fs))
        return "(" + " + ".join(out) + ")"
    if op == "fn":
        return a[0] + "(" + ", ".join(show(x, depth - 1) for x in a[1:]) + ")"
    if op in ("le0", "lt0", "eq0"):
        return show(a[0], depth - 1) + {"le0": "<=0", "lt0": "<0", "eq0": "==0"}[op]
    return op + "(" + ", ".join(show(x, depth - 1) for x in a) + ")"


reset()
