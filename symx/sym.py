"""Symbolic scalars and arrays for executing NumPy/pandas code, and the path explorer."""
from __future__ import annotations

import time
from fractions import Fraction

import numpy as np

from . import term as tm
from .term import T


class SymError(Exception):
    """The engine cannot execute this operation symbolically (no verdict)."""


class PathAbort(Exception):
    """The current path is infeasible."""


# ------------------------------------------------------------------ explorer
class Explorer:
    """Exhaustive path exploration by re-execution.

    decisions: list of (alternatives, index).  At a fork on a boolean term the branch true is
    taken first; alternatives are explored until none is left.  Feasibility of a branch is
    decided by the solver (an unknown counts as feasible, which is sound)."""

    cur = None

    def __init__(self, max_paths=20000, feasible=None, deadline=None):
        self.deadline = deadline
        self.prefix = []
        self.max_paths = max_paths
        self.feasible = feasible
        self.n_paths = 0
        self.n_forks = 0
        self.n_pruned = 0

    def run(self, f):
        """Yield (result, path_condition list) for every feasible path of f()."""
        self.prefix = []
        while True:
            self.pos = 0
            self.pc = []
            self.known = {}
            self.taken = []
            prev = Explorer.cur
            Explorer.cur = self
            aborted = False
            try:
                res = f()
            except PathAbort:
                aborted = True
                res = None
            finally:
                Explorer.cur = prev
            if not aborted:
                self.n_paths += 1
                if self.n_paths > self.max_paths:
                    raise SymError("path bound exceeded")
                if self.deadline is not None and time.time() > self.deadline:
                    raise SymError("time bound of the path exploration exceeded")
                yield res, list(self.pc)
            # backtrack
            stack = self.taken
            while stack and stack[-1][1] + 1 >= stack[-1][0]:
                stack.pop()
            if not stack:
                return
            n, i = stack[-1]
            stack[-1] = (n, i + 1)
            self.prefix = list(stack)

    # -- choice points
    def choose(self, n):
        """Non-deterministic choice among n alternatives (recorded)."""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos][1]
        else:
            i = 0
        self.pos += 1
        self.taken.append((n, i))
        self.n_forks += 1
        return i

    def assume(self, b):
        b = tobool(b)
        if b is tm.TRUE:
            return
        if b is tm.FALSE:
            raise PathAbort()
        self.pc.append(b)
        self._learn(b)

    def _learn(self, b):
        self.known[b.id] = True
        self.known[tm.not_(b).id] = False
        if b.op == "and":
            for x in b.args:
                self._learn(x)

    def decide(self, b):
        if b is tm.TRUE:
            return True
        if b is tm.FALSE:
            return False
        k = self.known.get(b.id)
        if k is not None:
            return k
        new = self.pos >= len(self.prefix)
        if new and self.feasible is not None:
            ft = self.feasible(self.pc, b)
            if not ft:
                self.n_pruned += 1
                self._learn(tm.not_(b))
                return False
            if not self.feasible(self.pc, tm.not_(b)):
                self.n_pruned += 1
                self._learn(b)
                return True
        elif not new and self.feasible is not None:
            # replaying: same pruning decisions must be reproduced
            ft = self.feasible(self.pc, b)
            if not ft:
                self._learn(tm.not_(b))
                return False
            if not self.feasible(self.pc, tm.not_(b)):
                self._learn(b)
                return True
        i = self.choose(2)
        v = i == 0
        c = b if v else tm.not_(b)
        self.pc.append(c)
        self._learn(c)
        return v

    def concretise(self, t):
        """Integer term -> concrete int by forking over its possible values."""
        if t.op == "c":
            v = t.args[0]
            if v.denominator != 1:
                raise SymError("non-integer index")
            return int(v)
        # candidate values from a ctree
        vals = leaves_of(t)
        if vals is None:
            raise SymError("cannot enumerate the values of " + tm.show(t))
        for v in vals[:-1]:
            if self.decide(tm.eq(t, tm.const(v))):
                return int(v)
        self.assume(tm.eq(t, tm.const(vals[-1])))
        return int(vals[-1])


INT_RANGES = {}  # var name -> (lo, hi)


def leaves_of(t):
    """Finite set of values of a discrete term, or None."""
    if t.op == "c":
        return [t.args[0]]
    if t.op == "ite":
        a, b = leaves_of(t.args[1]), leaves_of(t.args[2])
        if a is None or b is None:
            return None
        return sorted(set(a) | set(b))
    if t.op == "v" and t.args[0] in INT_RANGES:
        lo, hi = INT_RANGES[t.args[0]]
        return [Fraction(i) for i in range(lo, hi + 1)]
    if t.op == "poly":
        vals = [Fraction(0)]
        for m, c in t.args:
            mv = [Fraction(1)]
            for aid, e in m:
                lv = leaves_of(tm.node(aid))
                if lv is None or e < 0:
                    return None
                mv = sorted({x * y**e for x in mv for y in lv})
            vals = sorted({x + c * y for x in vals for y in mv})
            if len(vals) > 64:
                return None
        return vals
    if t.op == "max":
        ls = [leaves_of(x) for x in t.args]
        if any(x is None for x in ls):
            return None
        lo = max(x[0] for x in ls)
        return sorted({v for x in ls for v in x if v >= lo})
    return None


# ------------------------------------------------------------------ scalars
def lift(x):
    """python/numpy scalar or Sym -> T"""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, T):
        return x
    if isinstance(x, (bool, np.bool_)):
        return tm.boolc(bool(x))
    if isinstance(x, (int, float, np.integer, np.floating, Fraction)):
        return tm.const(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item() if not isinstance(x, SymArray) else x.view(np.ndarray).item())
    if hasattr(x, "__jax_array__") or type(x).__module__.startswith("jax"):
        return lift(np.asarray(x).item())
    raise SymError("cannot lift %r" % type(x))


def tobool(x):
    t = lift(x)
    return tm.tobool(t)


def toreal(x):
    return tm.toreal(lift(x))


def wrap(t):
    """T -> Sym or native python value."""
    if t.op == "b":
        return bool(t.args[0])
    if t.op == "c":
        v = t.args[0]
        if v.denominator == 1 and abs(v) < 2**53:
            return Sym(t)
        return Sym(t)
    return Sym(t)


def is_sym(x):
    return isinstance(x, Sym)


def fork(b):
    """Decide a symbolic boolean on the current path."""
    t = tobool(b)
    if t.op == "b":
        return t.args[0]
    if Explorer.cur is None:
        raise SymError("branch on a symbolic value outside of a path exploration: " + tm.show(t))
    return Explorer.cur.decide(t)


def _bin(f):
    def g(self, other):
        if isinstance(other, np.ndarray):
            return NotImplemented
        try:
            o = toreal(other)
        except SymError:
            return NotImplemented
        return wrap(f(tm.toreal(self.t), o))

    return g


def _rbin(f):
    def g(self, other):
        if isinstance(other, np.ndarray):
            return NotImplemented
        try:
            o = toreal(other)
        except SymError:
            return NotImplemented
        return wrap(f(o, tm.toreal(self.t)))

    return g


def _floordiv(a, b):
    return tm.floor(tm.div(a, b))


def _mod(a, b):
    return tm.sub(a, tm.mul(b, tm.floor(tm.div(a, b))))


def _logic(fb):
    def g(self, other):
        if isinstance(other, np.ndarray):
            return NotImplemented
        o = lift(other)
        if self.t.isbool or o.isbool:
            return wrap(fb(tm.tobool(self.t), tm.tobool(o)))
        raise SymError("bitwise operation on numbers")

    return g


class Sym:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    __add__ = _bin(tm.add)
    __radd__ = _rbin(tm.add)
    __sub__ = _bin(tm.sub)
    __rsub__ = _rbin(tm.sub)
    __mul__ = _bin(tm.mul)
    __rmul__ = _rbin(tm.mul)
    __truediv__ = _bin(tm.div)
    __rtruediv__ = _rbin(tm.div)
    __pow__ = _bin(tm.power)
    __rpow__ = _rbin(tm.power)
    __floordiv__ = _bin(_floordiv)
    __rfloordiv__ = _rbin(_floordiv)
    __mod__ = _bin(_mod)
    __rmod__ = _rbin(_mod)
    __lt__ = _bin(tm.lt)
    __le__ = _bin(tm.le)
    __gt__ = _bin(tm.gt)
    __ge__ = _bin(tm.ge)
    __and__ = _logic(tm.and_)
    __rand__ = _logic(tm.and_)
    __or__ = _logic(tm.or_)
    __ror__ = _logic(tm.or_)
    __xor__ = _logic(tm.xor)
    __rxor__ = _logic(tm.xor)

    def __eq__(self, other):
        if isinstance(other, np.ndarray):
            return NotImplemented
        try:
            o = lift(other)
        except SymError:
            return False
        if o.isbool or self.t.isbool:
            return wrap(tm.eq(tm.toreal(self.t), tm.toreal(o)))
        return wrap(tm.eq(self.t, o))

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        if isinstance(r, bool):
            return not r
        return wrap(tm.not_(r.t))

    def __hash__(self):
        return hash(("sym", self.t.id))

    def __invert__(self):
        return wrap(tm.not_(tm.tobool(self.t)))

    def __neg__(self):
        return wrap(tm.neg(tm.toreal(self.t)))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(tm.absolute(tm.toreal(self.t)))

    def __bool__(self):
        return fork(self)

    def __float__(self):
        if self.t.op == "c":
            return float(self.t.args[0])
        raise SymError("float() of symbolic value " + tm.show(self.t))

    def __int__(self):
        return self.__index__()

    def __index__(self):
        t = tm.toreal(self.t)
        if t.op == "c" and t.args[0].denominator == 1:
            return int(t.args[0])
        if not t.isint:
            raise SymError("int() of a symbolic real")
        if Explorer.cur is None:
            raise SymError("index by symbolic value")
        return Explorer.cur.concretise(t)

    def __round__(self, n=None):
        if n:
            raise SymError("round")
        return self.rint()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<%s>" % tm.show(self.t, 3)

    # numpy calls these on elements of object arrays
    def exp(self):
        return wrap(tm.exp(tm.toreal(self.t)))

    def log(self):
        return wrap(tm.log(tm.toreal(self.t)))

    def log1p(self):
        return wrap(tm.log(tm.add(tm.toreal(self.t), tm.ONE)))

    def expm1(self):
        return wrap(tm.sub(tm.exp(tm.toreal(self.t)), tm.ONE))

    def sqrt(self):
        return wrap(tm.power(tm.toreal(self.t), tm.const(Fraction(1, 2))))

    def floor(self):
        return wrap(tm.floor(tm.toreal(self.t)))

    def ceil(self):
        return wrap(tm.ceil(tm.toreal(self.t)))

    def trunc(self):
        return wrap(tm.trunc(tm.toreal(self.t)))

    def rint(self):
        return wrap(tm.floor(tm.add(tm.toreal(self.t), tm.const(Fraction(1, 2)))))

    def tanh(self):
        return wrap(tm.fn("tanh", tm.toreal(self.t)))

    def sin(self):
        return wrap(tm.fn("sin", tm.toreal(self.t)))

    def cos(self):
        return wrap(tm.fn("cos", tm.toreal(self.t)))

    def item(self):
        return self

    def astype(self, dtype):
        return cast_scalar(self, dtype)

    def is_integer(self):
        return self.t.isint

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return _array_ufunc(ufunc, method, *inputs, **kwargs)


def cast_scalar(x, dtype):
    """Conversion of one element to dtype."""
    dt = np.dtype(dtype)
    if not isinstance(x, Sym):
        if dt == object:
            return x
        return dt.type(x)
    t = x.t
    if dt == object:
        return x
    if dt.kind == "f":
        return wrap(tm.toreal(t))
    if dt.kind == "b":
        return wrap(tm.tobool(t))
    if dt.kind in "iu":
        t = tm.trunc(tm.toreal(t))
        info = np.iinfo(dt)
        if dt.itemsize < 8:
            # wrap-around of narrow integer types
            n = tm.const(2 ** (8 * dt.itemsize))
            lo = tm.const(int(info.min))
            inr = tm.and_(tm.le(lo, t), tm.le(t, tm.const(int(info.max))))
            if inr is not tm.TRUE:
                w = tm.add(_mod(tm.sub(t, lo), n), lo)
                t = tm.ite(inr, t, w)
        return wrap(t)
    raise SymError("cast to %s" % dt)


# ------------------------------------------------------------------ arrays
def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(e, Sym) for e in x.ravel().view(np.ndarray).tolist()) if x.size else False
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def demote(a):
    """Object array without symbolic elements -> native array."""
    if not isinstance(a, np.ndarray) or a.dtype != object:
        return a
    l = a.view(np.ndarray).ravel().tolist()
    kinds = set()
    out = []
    for e in l:
        if isinstance(e, Sym):
            t = e.t
            if t.op == "c":
                v = t.args[0]
                if v.denominator == 1 and abs(v) < 2**53:
                    out.append(int(v))
                    kinds.add("i")
                    continue
                out.append(float(v))
                kinds.add("f")
                continue
            if t.op == "b":
                out.append(bool(t.args[0]))
                kinds.add("b")
                continue
            return a
        if isinstance(e, (bool, np.bool_)):
            kinds.add("b")
        elif isinstance(e, (int, np.integer)):
            kinds.add("i")
        elif isinstance(e, (float, np.floating)):
            kinds.add("f")
        else:
            return a
        out.append(e)
    if not l:
        return a
    dt = bool if kinds == {"b"} else (np.int64 if kinds <= {"b", "i"} else float)
    return np.array(out, dtype=dt).reshape(a.shape)


def asobj(x):
    """Anything array-like -> object ndarray (plain)."""
    if isinstance(x, Masked):
        x = x.real()
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(np.ndarray)
        return x.view(np.ndarray).astype(object)
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)) and has_sym(x):
        return _nested(x)
    if isinstance(x, (list, tuple)):
        return np.array([asobj(e) if isinstance(e, np.ndarray) else e for e in x], dtype=object) \
            if not any(isinstance(e, np.ndarray) for e in x) else np.stack([asobj(e) for e in x])
    if type(x).__module__.startswith("pandas"):
        return asobj(x.to_numpy())
    return np.asarray(x).astype(object)


def _nested(x):
    if isinstance(x, Sym) or not isinstance(x, (list, tuple, np.ndarray)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, np.ndarray):
        return asobj(x)
    return np.stack([_nested(e) for e in x]) if len(x) else np.empty((0,), dtype=object)


def arr(x):
    """Anything array-like -> SymArray if symbolic, else native ndarray."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(SymArray)
        return x
    if has_sym(x):
        return asobj(x).view(SymArray)
    return np.asarray(x)


def out(a):
    """Post-process an object array result: scalars unwrapped, native if concrete."""
    if isinstance(a, np.ndarray) and a.dtype == object:
        if a.ndim == 0:
            return a.view(np.ndarray).item()
        d = demote(a)
        if d is a or d.dtype == object:
            return a.view(SymArray)
        return d
    return a


def elementwise(f, *xs):
    """Broadcast elementwise application on terms: f(T,...)->T."""
    os_ = np.broadcast_arrays(*[asobj(x) for x in xs])
    shape = os_[0].shape
    res = np.empty(shape, dtype=object)
    flat = [o.ravel().tolist() for o in os_]
    rl = [wrap(f(*[lift(e) for e in es])) for es in zip(*flat)]
    if shape == ():
        res[()] = rl[0]
    else:
        r = np.empty(len(rl), dtype=object)
        r[:] = rl
        res = r.reshape(shape)
    return out(res)


def _r(f):
    return lambda *ts: f(*[tm.toreal(t) for t in ts])


def _b(f):
    return lambda *ts: f(*[tm.tobool(t) for t in ts])


def _eqt(a, b):
    return tm.eq(tm.toreal(a), tm.toreal(b))


def _sign(t):
    return tm.ite(tm.gt(t, tm.ZERO), tm.ONE, tm.ite(tm.lt(t, tm.ZERO), tm.const(-1), tm.ZERO))


UF = {
    "add": _r(tm.add),
    "subtract": _r(tm.sub),
    "multiply": _r(tm.mul),
    "divide": _r(tm.div),
    "true_divide": _r(tm.div),
    "floor_divide": _r(_floordiv),
    "remainder": _r(_mod),
    "mod": _r(_mod),
    "power": _r(tm.power),
    "float_power": _r(tm.power),
    "negative": _r(tm.neg),
    "positive": _r(lambda t: t),
    "absolute": _r(tm.absolute),
    "fabs": _r(tm.absolute),
    "exp": _r(tm.exp),
    "exp2": _r(lambda t: tm.power(tm.const(2), t)),
    "log": _r(tm.log),
    "log1p": _r(lambda t: tm.log(tm.add(t, tm.ONE))),
    "log2": _r(lambda t: tm.div(tm.log(t), tm.log(tm.const(2)))),
    "log10": _r(lambda t: tm.div(tm.log(t), tm.log(tm.const(10)))),
    "expm1": _r(lambda t: tm.sub(tm.exp(t), tm.ONE)),
    "sqrt": _r(lambda t: tm.power(t, tm.const(Fraction(1, 2)))),
    "square": _r(lambda t: tm.mul(t, t)),
    "reciprocal": _r(tm.inv),
    "floor": _r(tm.floor),
    "ceil": _r(tm.ceil),
    "trunc": _r(tm.trunc),
    "rint": _r(lambda t: tm.floor(tm.add(t, tm.const(Fraction(1, 2))))),
    "maximum": _r(tm.maximum),
    "minimum": _r(tm.minimum),
    "fmax": _r(tm.maximum),
    "fmin": _r(tm.minimum),
    "sign": _r(_sign),
    "less": _r(tm.lt),
    "less_equal": _r(tm.le),
    "greater": _r(tm.gt),
    "greater_equal": _r(tm.ge),
    "equal": _eqt,
    "not_equal": lambda a, b: tm.not_(_eqt(a, b)),
    "logical_and": _b(tm.and_),
    "logical_or": _b(tm.or_),
    "logical_xor": _b(tm.xor),
    "logical_not": _b(tm.not_),
    "bitwise_and": _b(tm.and_),
    "bitwise_or": _b(tm.or_),
    "bitwise_xor": _b(tm.xor),
    "invert": _b(tm.not_),
    "isnan": lambda t: _isnan(t),
    "isfinite": lambda t: tm.not_(_isnan(t)),
    "isinf": lambda t: tm.FALSE,
    "tanh": _r(lambda t: tm.fn("tanh", t)),
    "sin": _r(lambda t: tm.fn("sin", t)),
    "cos": _r(lambda t: tm.fn("cos", t)),
    "heaviside": _r(lambda t, h: tm.ite(tm.lt(t, tm.ZERO), tm.ZERO, tm.ite(tm.gt(t, tm.ZERO), tm.ONE, h))),
}


def _isnan(t):
    if t.op == "ite":
        return tm.ite(t.args[0], _isnan(t.args[1]), _isnan(t.args[2]))
    return tm.boolc(t.op == "fn" and t.args[0] == "nan")


def _array_ufunc(ufunc, method, *inputs, out=None, **kwargs):
    name = ufunc.__name__
    if name == "matmul" and method == "__call__":
        return globals()["out"](asobj(inputs[0]) @ asobj(inputs[1]))
    f = UF.get(name)
    if f is None:
        raise SymError("ufunc " + name)
    where = kwargs.pop("where", True)
    dtype = kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    kwargs.pop("order", None)
    kwargs.pop("subok", None)
    if method == "__call__":
        res = elementwise(f, *inputs)
        if where is not True:
            base = out[0] if out else 0
            res = elementwise(lambda c, a, b: tm.ite(tm.tobool(c), tm.toreal(a), tm.toreal(b)), where, res, base)
        if dtype is not None:
            res = astype(res, dtype)
        if out is not None:
            o = out[0]
            if isinstance(o, np.ndarray) and (o.dtype == object or not has_sym(res)):
                o.view(np.ndarray)[...] = res
                return o
            raise SymError("out= into a native array")
        return res
    if method == "reduce":
        a = asobj(inputs[0])
        axis = kwargs.pop("axis", 0)
        keepdims = kwargs.pop("keepdims", False)
        initial = kwargs.pop("initial", None)
        if initial is np._NoValue:
            initial = None
        return reduce_(f, a, axis, keepdims, initial, name)
    if method == "accumulate":
        a = asobj(inputs[0])
        axis = kwargs.pop("axis", 0)
        return accumulate(f, a, axis)
    if method == "outer":
        a, b = asobj(inputs[0]), asobj(inputs[1])
        return elementwise(f, a.reshape(a.shape + (1,) * b.ndim), b)
    if method == "at":
        a, idx, val = inputs[0], inputs[1], inputs[2] if len(inputs) > 2 else None
        av = a.view(np.ndarray)
        ii = np.arange(a.size).reshape(a.shape)[idx].ravel()
        vv = np.broadcast_to(asobj(val), np.arange(a.size).reshape(a.shape)[idx].shape).ravel()
        fl = av.reshape(-1)
        for i, v in zip(ii, vv):
            fl[i] = wrap(f(lift(fl[i]), lift(v)))
        return None
    raise SymError("ufunc method " + method)


IDENT = {
    "add": tm.const(0),
    "multiply": tm.const(1),
    "logical_and": tm.TRUE,
    "logical_or": tm.FALSE,
}


def reduce_(f, a, axis, keepdims=False, initial=None, name=""):
    if axis is None:
        r = a.reshape(-1)
        nd = a.ndim
        res = reduce_(f, r, 0, False, initial, name)
        if keepdims:
            o = np.empty((1,) * nd, dtype=object)
            o[...] = res
            return out(o)
        return res
    if isinstance(axis, tuple):
        axes = sorted([x % a.ndim for x in axis], reverse=True)
        for x in axes:
            a = asobj(reduce_(f, a, x, keepdims, None, name))
        return out(a)
    axis %= a.ndim
    m = np.moveaxis(a, axis, 0)
    n = m.shape[0]
    rest = m.shape[1:]
    flat = m.reshape(n, -1)
    res = np.empty(flat.shape[1], dtype=object)
    for j in range(flat.shape[1]):
        col = [lift(e) for e in flat[:, j].tolist()]
        if initial is not None:
            col = [lift(initial)] + col
        if not col:
            if name in IDENT:
                acc = {"add": tm.ZERO, "multiply": tm.ONE, "logical_and": tm.TRUE, "logical_or": tm.FALSE}[name]
            else:
                raise SymError("empty reduction")
        elif name == "add":
            acc = tm.add(*[tm.toreal(c) for c in col])
        else:
            acc = col[0]
            if len(col) == 1 and name in ("maximum", "minimum", "multiply"):
                acc = tm.toreal(acc)
            elif len(col) == 1 and name in ("logical_and", "logical_or"):
                acc = tm.tobool(acc)
            for c in col[1:]:
                acc = f(acc, c)
        res[j] = wrap(acc)
    r = res.reshape(rest)
    if keepdims:
        r = np.expand_dims(r, axis)
    return out(r)


def accumulate(f, a, axis):
    m = np.moveaxis(a, axis, 0)
    res = np.empty(m.shape, dtype=object)
    prev = None
    for i in range(m.shape[0]):
        cur = m[i] if prev is None else asobj(elementwise(f, prev, m[i]))
        if m.ndim == 1:
            res[i] = cur if prev is None else cur.item()
            prev = res[i]
        else:
            res[i] = cur
            prev = cur
    return out(np.moveaxis(res, 0, axis))


def astype(a, dtype):
    if isinstance(a, Sym):
        return cast_scalar(a, dtype)
    if not isinstance(a, np.ndarray):
        return np.dtype(dtype).type(a)
    if a.dtype != object:
        return a.view(np.ndarray).astype(dtype)
    d = demote(a)
    if d.dtype != object:
        return d.view(np.ndarray).astype(dtype)
    res = np.empty(a.shape, dtype=object)
    fl = [cast_scalar(e, dtype) for e in a.view(np.ndarray).ravel().tolist()]
    r = np.empty(len(fl), dtype=object)
    r[:] = fl
    return out(r.reshape(a.shape))


def where(c, x, y):
    def g(ct, a, b):
        ct = tm.tobool(ct)
        if a.isbool and b.isbool:
            return tm.ite(ct, a, b)
        return tm.ite(ct, tm.toreal(a), tm.toreal(b))

    return elementwise(g, c, x, y)


def nonzero(c):
    c = concretise_array(elementwise(_b(lambda t: t), c))
    return np.nonzero(c)


def concretise_array(a):
    """Fork until every element is concrete (bool or int)."""
    a0 = a
    a = asobj(a)
    fl = []
    for e in a.ravel().tolist():
        if isinstance(e, Sym):
            if e.t.isbool:
                fl.append(fork(e))
            elif e.t.isint:
                fl.append(e.__index__())
            elif e.t.op == "c":
                fl.append(float(e.t.args[0]))
            else:
                raise SymError("cannot concretise " + tm.show(e.t))
        else:
            fl.append(e)
    r = np.array(fl).reshape(a.shape)
    if r.size == 0 and isinstance(a0, np.ndarray) and a0.dtype != object:
        return r.astype(a0.dtype)
    return r


def clip(a, lo=None, hi=None):
    r = a
    if lo is not None:
        r = elementwise(_r(tm.maximum), r, lo)
    if hi is not None:
        r = elementwise(_r(tm.minimum), r, hi)
    return r


def argmax(a, axis=None, better=tm.gt, keepdims=False):
    """First index of the maximum, symbolically (an ite tree of constants)."""
    a = asobj(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    m = np.moveaxis(a, axis, -1)
    flat = m.reshape(-1, m.shape[-1])
    res = np.empty(flat.shape[0], dtype=object)
    for i in range(flat.shape[0]):
        col = [toreal(e) for e in flat[i].tolist()]
        # first maximal: index k such that for all j<k: v_k > v_j and all j>k: v_k >= v_j
        r = tm.const(len(col) - 1)
        for k in range(len(col) - 2, -1, -1):
            cond = tm.and_(
                *[better(col[k], col[j]) for j in range(k)],
                *[tm.not_(better(col[j], col[k])) for j in range(k + 1, len(col))],
            )
            r = tm.ite(cond, tm.const(k), r)
        res[i] = wrap(r)
    r = res.reshape(m.shape[:-1])
    if keepdims:
        r = np.expand_dims(r, axis)
    return out(r)


def searchsorted(grid, x, side="left", sorter=None):
    g = [toreal(e) for e in asobj(grid).tolist()]
    if sorter is not None:
        raise SymError("searchsorted sorter")

    def f(t):
        t = tm.toreal(t)
        r = tm.const(len(g))
        for i in range(len(g) - 1, -1, -1):
            # number of grid points < x (left) or <= x (right), for a sorted grid
            c = tm.lt(t, g[i]) if side == "right" else tm.le(t, g[i])
            r = tm.ite(c, tm.const(i), r)
        return r

    return elementwise(f, x)


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side="left" if right else "right")


def take_ite(values, idx):
    """values: 1-d list of T; idx: integer term -> T (index clamped to range)."""
    n = len(values)
    if idx.op == "c":
        i = int(idx.args[0])
        if i < 0:
            i += n
        return values[max(0, min(n - 1, i))]
    if idx.ctree:
        return tm.map_ctree(idx, lambda c: take_ite(values, c))
    if idx.op == "v" and idx.args[0] in INT_RANGES:
        lo, hi = INT_RANGES[idx.args[0]]
        lo = max(lo, -n)
        hi = min(hi, n - 1)
        ks = list(range(lo, hi + 1))
    else:
        ks = list(range(n))
    r = values[ks[-1]]
    for k in reversed(ks[:-1]):
        r = tm.ite(tm.eq(idx, tm.const(k)), values[k], r)
    return r


def interp(x, xp, fp, left=None, right=None):
    xp_ = [toreal(e) for e in asobj(xp).tolist()]
    fp_ = [toreal(e) for e in asobj(fp).tolist()]

    def f(t):
        t = tm.toreal(t)
        r = fp_[-1] if right is None else toreal(right)
        r = tm.ite(tm.le(t, xp_[-1]), fp_[-1], r)
        for i in range(len(xp_) - 2, -1, -1):
            lin = tm.add(
                fp_[i],
                tm.mul(tm.mul(tm.sub(t, xp_[i]), tm.inv(tm.sub(xp_[i + 1], xp_[i]))), tm.sub(fp_[i + 1], fp_[i])),
            )
            r = tm.ite(tm.lt(t, xp_[i + 1]), lin, r)
        lo = fp_[0] if left is None else toreal(left)
        return tm.ite(tm.lt(t, xp_[0]), lo, r)

    return elementwise(f, x)


def take_along_axis(a, idx, axis):
    a = asobj(a)
    i = asobj(idx)
    if not has_sym(idx):
        return out(np.take_along_axis(a, np.asarray(demote(i)).astype(int), axis))
    a, i = np.moveaxis(a, axis, -1), np.moveaxis(i, axis, -1)
    lead = np.broadcast_shapes(a.shape[:-1], i.shape[:-1])
    a = np.broadcast_to(a, lead + a.shape[-1:])
    i = np.broadcast_to(i, lead + i.shape[-1:])
    res = np.empty(i.shape, dtype=object)
    for ix in np.ndindex(*lead):
        vals = [toreal(e) for e in a[ix].tolist()]
        for k in range(i.shape[-1]):
            res[ix + (k,)] = wrap(take_ite(vals, toreal(i[ix + (k,)])))
    return out(np.moveaxis(res, -1, axis))


def select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where(c, v, r)
    return r


FUNCS = {}


def _reg(*names):
    def d(f):
        for n in names:
            FUNCS[n] = f
        return f

    return d


@_reg("where")
def _f_where(c, *xy):
    if not xy:
        return nonzero(c)
    return where(c, *xy)


@_reg("clip")
def _f_clip(a, a_min=None, a_max=None, out=None, *, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    return clip(a, lo, hi)


@_reg("argmax")
def _f_argmax(a, axis=None, out=None, keepdims=False):
    return argmax(a, axis, keepdims=keepdims)


@_reg("argmin")
def _f_argmin(a, axis=None, out=None, keepdims=False):
    return argmax(a, axis, better=tm.lt, keepdims=keepdims)


@_reg("sum", "nansum")
def _f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, **k):
    return reduce_(UF["add"], asobj(a), axis, keepdims, initial, "add")


@_reg("prod")
def _f_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_(UF["multiply"], asobj(a), axis, keepdims, None, "multiply")


@_reg("mean")
def _f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asobj(a)
    n = a.size if axis is None else a.shape[axis]
    return reduce_(UF["add"], a, axis, keepdims, None, "add") / n


@_reg("max", "amax", "nanmax")
def _f_max(a, axis=None, out=None, keepdims=False, initial=None, **k):
    return reduce_(UF["maximum"], asobj(a), axis, keepdims, initial, "maximum")


@_reg("min", "amin", "nanmin")
def _f_min(a, axis=None, out=None, keepdims=False, initial=None, **k):
    return reduce_(UF["minimum"], asobj(a), axis, keepdims, initial, "minimum")


@_reg("any")
def _f_any(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(UF["logical_or"], asobj(a), axis, keepdims, None, "logical_or")


@_reg("all")
def _f_all(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(UF["logical_and"], asobj(a), axis, keepdims, None, "logical_and")


@_reg("cumsum")
def _f_cumsum(a, axis=None, dtype=None, out=None):
    a = asobj(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return accumulate(UF["add"], a, axis)


@_reg("searchsorted")
def _f_ss(a, v, side="left", sorter=None):
    return searchsorted(a, v, side, sorter)


@_reg("digitize")
def _f_dig(x, bins, right=False):
    return digitize(x, bins, right)


@_reg("interp")
def _f_interp(x, xp, fp, left=None, right=None, period=None):
    return interp(x, xp, fp, left, right)


@_reg("take_along_axis")
def _f_taa(arr, indices, axis=-1):
    return take_along_axis(arr, indices, axis)


@_reg("select")
def _f_select(condlist, choicelist, default=0):
    return select(condlist, choicelist, default)


@_reg("nonzero", "flatnonzero")
def _f_nonzero(a):
    return nonzero(a)


@_reg("count_nonzero")
def _f_cnz(a, axis=None, **k):
    return reduce_(UF["add"], asobj(elementwise(_b(lambda t: t), a)), axis, False, None, "add")


@_reg("isclose")
def _f_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return elementwise(
        _r(lambda x, y: tm.le(tm.absolute(tm.sub(x, y)), tm.add(tm.const(atol), tm.scale(tm.absolute(y), tm.tofrac(rtol))))),
        a,
        b,
    )


@_reg("allclose")
def _f_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return _f_all(_f_isclose(a, b, rtol, atol))


@_reg("round", "around", "rint")
def _f_round(a, decimals=0, out=None):
    if decimals:
        raise SymError("round to decimals")
    return elementwise(UF["rint"], a)


@_reg("diff")
def _f_diff(a, n=1, axis=-1, **k):
    return out(np.diff(asobj(a), n=n, axis=axis))


@_reg("nan_to_num")
def _f_n2n(x, *a, **k):
    return x


@_reg("convolve")
def _f_conv(a, v, mode="full"):
    a, v = asobj(a).tolist(), asobj(v).tolist()
    r = [0] * (len(a) + len(v) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(v):
            r[i + j] = r[i + j] + x * y
    if mode != "full":
        raise SymError("convolve mode")
    return arr(r)


@_reg("dot", "matmul")
def _f_dot(a, b, *r, **k):
    return out(np.dot(asobj(a), asobj(b)))


@_reg("outer")
def _f_outer(a, b, out=None):
    return elementwise(UF["multiply"], asobj(a).reshape(-1, 1), asobj(b).reshape(1, -1))


@_reg("einsum")
def _f_einsum(s, *ops, **k):
    return out(np.einsum(s, *[asobj(o) for o in ops], optimize=False))


@_reg("average")
def _f_avg(a, axis=None, weights=None, **k):
    if weights is None:
        return _f_mean(a, axis)
    raise SymError("weighted average")


@_reg("zeros_like")
def _f_zl(a, dtype=None, *r, shape=None, **k):
    r_ = np.zeros(shape if shape is not None else np.shape(asobj(a)), dtype=float if dtype is None or np.dtype(dtype) == object else dtype)
    return r_.astype(object).view(SymArray)


@_reg("ones_like")
def _f_ol(a, dtype=None, *r, shape=None, **k):
    return np.ones(asobj(a).shape, dtype=float if dtype is None else dtype).astype(object).view(SymArray)


@_reg("full_like")
def _f_fl(a, fill_value, dtype=None, *r, shape=None, **k):
    o = np.empty(asobj(a).shape, dtype=object)
    o[...] = fill_value
    return o.view(SymArray)


@_reg("empty_like")
def _f_el(a, dtype=None, *r, shape=None, **k):
    return _f_zl(a, dtype, shape=shape)


@_reg("copyto")
def _f_copyto(dst, src, casting=None, where=True):
    v = globals()["where"](where, src, dst) if where is not True else src
    dst.view(np.ndarray)[...] = v


@_reg("isin", "in1d")
def _f_isin(element, test, **k):
    ts = [lift(e) for e in asobj(test).ravel().tolist()]
    return elementwise(lambda t: tm.or_(*[_eqt(t, s) for s in ts]), element)


@_reg("sort", "argsort", "unique", "lexsort", "median", "percentile", "quantile")
def _f_unsup(*a, **k):
    raise SymError("sorting of symbolic values")


@_reg("real_if_close", "ascontiguousarray", "asfortranarray")
def _f_id(a, *r, **k):
    return a


@_reg("array_equal")
def _f_ae(a, b, **k):
    a, b = asobj(a), asobj(b)
    if a.shape != b.shape:
        return False
    return _f_all(elementwise(_eqt, a, b))


@_reg("ndim")
def _f_ndim(a):
    return asobj(a).ndim


@_reg("shape")
def _f_shape(a):
    return asobj(a).shape


@_reg("size")
def _f_size(a, axis=None):
    a = asobj(a)
    return a.size if axis is None else a.shape[axis]


class Masked:
    """Rows of an array (or Series) under a symbolic mask.  Elementwise arithmetic stays on the full
    array; whatever else is done with it selects the rows, forking on the mask."""

    __array_priority__ = 3000

    def __init__(self, full, mask, select):
        self.__dict__.update(full=full, mask=mask, select=select, done=None)

    def real(self):
        if self.__dict__["done"] is None:
            self.__dict__["done"] = self.select(self.full)
        return self.__dict__["done"]

    def fits(self, mask):
        m, o = self.mask, mask
        if self.done is not None:
            return False
        m, o = asobj(m), asobj(o)
        if m is o:
            return True
        return m.shape == o.shape and all(lift(a) is lift(b) for a, b in zip(m.ravel().tolist(), o.ravel().tolist()))

    def _op(self, f, *xs):
        """f applied to full arrays where every array among xs has this mask."""
        if self.done is None and all(x.fits(self.mask) if isinstance(x, Masked) else np.ndim(x) == 0 for x in xs):
            return Masked(f(*[x.full if isinstance(x, Masked) else x for x in xs]), self.mask, self.select)
        return f(*[x.real() if isinstance(x, Masked) else x for x in xs])

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if method == "__call__" and not kwargs and ufunc.nout == 1:
            return self._op(ufunc, *inputs)
        return getattr(ufunc, method)(*[x.real() if isinstance(x, Masked) else x for x in inputs], **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return func(*unmask(args), **unmask(kwargs))

    def __array__(self, *a, **k):
        return np.asarray(self.real(), *a, **k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.real(), n)

    def __len__(self):
        return len(self.real())

    def __iter__(self):
        return iter(self.real())

    def __getitem__(self, i):
        return self.real()[i]

    def __setitem__(self, i, v):
        self.real()[i] = v

    def __bool__(self):
        return bool(self.real())

    __hash__ = None


def _masked_ops():
    import operator as op

    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor"):
        f = getattr(op, n + "_" if n in ("and", "or") else n)
        setattr(Masked, "__%s__" % n, lambda a, b, f=f: a._op(f, a, b))
        setattr(Masked, "__r%s__" % n, lambda a, b, f=f: a._op(f, b, a))
    for n in ("lt", "le", "gt", "ge", "eq", "ne"):
        setattr(Masked, "__%s__" % n, lambda a, b, f=getattr(op, n): a._op(f, a, b))
    for n in ("neg", "pos", "abs", "invert"):
        setattr(Masked, "__%s__" % n, lambda a, f=getattr(op, n): a._op(f, a))


_masked_ops()


def unmask(x):
    if isinstance(x, Masked):
        return x.real()
    if isinstance(x, list):
        return [unmask(e) for e in x]
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(unmask(e) for e in x)
    if isinstance(x, dict):
        return {k: unmask(v) for k, v in x.items()}
    return x


STRUCT = True


class SymArray(np.ndarray):
    """Object array of symbolic or concrete scalars (or a native array whose indexing
    accepts symbolic indices)."""

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if self.dtype != object and not any(has_sym(i) for i in inputs):
            ins = [i.view(np.ndarray) if isinstance(i, SymArray) else i for i in inputs]
            o = kwargs.get("out")
            if o is not None:
                kwargs["out"] = tuple(x.view(np.ndarray) if isinstance(x, SymArray) else x for x in o)
            return getattr(ufunc, method)(*ins, **kwargs)
        return _array_ufunc(ufunc, method, *inputs, **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        name = func.__name__
        if not _any_sym(args, kwargs):
            a2, k2 = _strip(args), _strip(kwargs)
            r = func(*a2, **k2)
            return r
        f = FUNCS.get(name)
        if f is not None:
            return f(*args, **kwargs)
        if name in NONSTRUCT:
            raise SymError("numpy function " + name)
        a2, k2 = _plain(args), _plain(kwargs)
        return _post(func(*a2, **k2))

    # ---- indexing
    def __getitem__(self, idx):
        if MERGE[0]:
            r = _merged(self.view(np.ndarray), idx)
            if r is not None:
                return r
        if isinstance(idx, np.ndarray) and idx.dtype == object and idx.ndim and idx.shape == self.shape[: idx.ndim] and _symmask(idx):
            return Masked(self.copy(), idx.copy(), lambda full: full[concretise_array(idx)])
        idx = _conc_index(idx)
        r = self.view(np.ndarray)[idx]
        if isinstance(r, np.ndarray):
            return r.view(SymArray)
        return r

    def __setitem__(self, idx, val):
        base = self.view(np.ndarray)
        if isinstance(idx, np.ndarray) and has_sym(idx) and idx.shape == self.shape[: idx.ndim]:
            # symbolic mask
            if isinstance(val, Masked):
                if val.fits(idx) and np.shape(val.full) == self.shape and self.dtype == object:
                    m = asobj(idx)
                    base[...] = where(m.reshape(m.shape + (1,) * (self.ndim - m.ndim)), val.full, self)
                    return
                val = val.real()
            v = np.asarray(val) if not has_sym(val) else asobj(val)
            vs = getattr(v, "shape", ())
            if vs == () or vs == self.shape and idx.shape == self.shape:
                if self.dtype != object:
                    raise SymError("symbolic masked write into a native array")
                m = asobj(idx)
                m = m.reshape(m.shape + (1,) * (self.ndim - m.ndim))
                base[...] = where(m, val, self)
                return
        idx = _conc_index(idx)
        val = unmask(val)
        if self.dtype != object and has_sym(val):
            raise SymError("symbolic write into a native array")
        if has_sym(val) and not isinstance(val, Sym):
            val = asobj(val)
        if isinstance(val, np.ndarray) and val.ndim == 0:
            val = val.view(np.ndarray).item()
        base[idx] = val

    # ---- methods
    def astype(self, dtype, *a, **k):
        return astype(self, dtype)

    def clip(self, min=None, max=None, out=None, **k):
        return clip(self, min, max)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _f_sum(self, axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _f_mean(self, axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _f_prod(self, axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _f_max(self, axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _f_min(self, axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return _f_any(self, axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return _f_all(self, axis, keepdims=keepdims)

    def argmax(self, axis=None, out=None, keepdims=False):
        return argmax(self, axis, keepdims=keepdims)

    def argmin(self, axis=None, out=None, keepdims=False):
        return argmax(self, axis, better=tm.lt, keepdims=keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        return _f_cumsum(self, axis)

    def round(self, decimals=0, out=None):
        return _f_round(self, decimals)

    def nonzero(self):
        return nonzero(self)

    def dot(self, b):
        return out(np.dot(asobj(self), asobj(b)))

    def searchsorted(self, v, side="left", sorter=None):
        return searchsorted(self, v, side, sorter)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def copy(self, *a, **k):
        return self.view(np.ndarray).copy().view(SymArray)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(self.view(np.ndarray).reshape(-1)[0])

    def __float__(self):
        return float(self.view(np.ndarray).reshape(-1)[0])

    def item(self, *a):
        return self.view(np.ndarray).item(*a)


NONSTRUCT = {
    "std", "var", "nanmean", "nanstd", "trapz", "trapezoid", "linalg", "inv", "solve", "histogram",
    "bincount", "cumprod", "ptp", "cov", "corrcoef", "partition", "argpartition", "piecewise",
}


def _any_sym(args, kwargs):
    def w(x):
        if isinstance(x, Sym):
            return True
        if isinstance(x, np.ndarray):
            return x.dtype == object and has_sym(x)
        if isinstance(x, (list, tuple)):
            return any(w(e) for e in x)
        return False

    return any(w(a) for a in args) or any(w(v) for v in kwargs.values())


def _strip(x):
    if isinstance(x, SymArray):
        d = demote(x)
        return d.view(np.ndarray)
    if isinstance(x, list):
        return [_strip(e) for e in x]
    if isinstance(x, tuple):
        return tuple(_strip(e) for e in x)
    if isinstance(x, dict):
        return {k: _strip(v) for k, v in x.items()}
    return x


def _plain(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, list):
        return [_plain(e) for e in x]
    if isinstance(x, tuple):
        return tuple(_plain(e) for e in x)
    if isinstance(x, dict):
        return {k: _plain(v) for k, v in x.items()}
    return x


def _post(r):
    if isinstance(r, np.ndarray) and r.dtype == object:
        return r.view(SymArray)
    if isinstance(r, (list, tuple)) and not hasattr(r, "_fields"):
        return type(r)(_post(e) for e in r)
    return r


MERGE = [False]  # look symbolic integer indices up by case distinction in the value instead of forking the path


def _merged(base, idx, limit=12):
    """base[idx] with symbolic integers among the indices, or None where that is not possible."""
    ix = list(idx) if isinstance(idx, tuple) else [idx]

    def norm(i):
        if isinstance(i, Sym):
            return arr_ if i.t.isbool else i
        if isinstance(i, (list, np.ndarray)) and has_sym(i):
            return asobj(arr(i) if isinstance(i, list) else i)
        return i
    arr_ = object()
    ix = [norm(i) for i in ix]
    if any(i is arr_ for i in ix):
        return None
    adv = [k for k, i in enumerate(ix) if isinstance(i, (Sym, int, np.integer)) or isinstance(i, (list, np.ndarray))]
    symb = [k for k in adv if isinstance(ix[k], Sym) or (isinstance(ix[k], np.ndarray) and ix[k].dtype == object)]
    if not symb or adv != list(range(len(adv))) or any(not isinstance(i, slice) for i in ix[len(adv):]):
        return None
    els = []
    for i in ix[: len(adv)]:
        a = np.asarray(i, dtype=object) if isinstance(i, Sym) else (i.view(np.ndarray) if isinstance(i, np.ndarray) else np.asarray(i))
        if a.dtype == bool or any(isinstance(e, (bool, np.bool_)) or (isinstance(e, Sym) and e.t.isbool) for e in a.ravel().tolist()):
            return None
        els.append(a)
    shape = np.broadcast_shapes(*[a.shape for a in els])
    els = [np.broadcast_to(a, shape) for a in els]
    rest = tuple(ix[len(adv):])
    plan = []
    for pos in np.ndindex(*shape):
        es, n = [], 1
        for a in els:
            e = a[pos]
            if isinstance(e, Sym):
                if e.t.op == "c":
                    e = int(e.t.args[0])
                else:
                    lv = leaves_of(e.t)
                    if lv is None:
                        return None
                    n *= len(lv)
                    es.append((e, [int(v) for v in lv]))
                    continue
            es.append((int(e), None))
        if n > limit:
            return None
        plan.append((pos, es))

    def pick(es, done):
        if not es:
            return base[tuple(done) + rest]
        (e, lv), tail = es[0], es[1:]
        if lv is None:
            return pick(tail, done + [e])
        r = None
        for v in reversed(lv):
            x = pick(tail, done + [v])
            c = tm.eq(e.t, tm.const(v))
            r = x if r is None or c is tm.TRUE else r if c is tm.FALSE else where(Sym(c), x, r)
        return r
    res = None
    for pos, es in plan:
        v = pick(es, [])
        if res is None:
            res = np.empty(shape + np.shape(v), dtype=object)
        if np.ndim(v) == 0 and isinstance(v, np.ndarray):
            v = v.view(np.ndarray).item()
        res[pos] = v.view(np.ndarray) if isinstance(v, np.ndarray) else v
    if res is None:
        return None
    return res.item() if res.shape == () else res.view(SymArray)


def _symmask(m):
    """Symbolic booleans (not positions)?"""
    es = [e for e in asobj(m).ravel().tolist()]
    return all(e.t.isbool if isinstance(e, Sym) else isinstance(e, (bool, np.bool_)) for e in es) and any(
        isinstance(e, Sym) for e in es)


def _conc_index(idx):
    if isinstance(idx, tuple):
        return tuple(_conc1(i) for i in idx)
    return _conc1(idx)


def _conc1(i):
    if isinstance(i, Sym):
        if i.t.isbool:
            return fork(i)
        return i.__index__()
    if isinstance(i, np.ndarray) and i.dtype == object:
        return concretise_array(i) if i.size else np.zeros(i.shape, dtype=bool)
    if isinstance(i, SymArray):
        return i.view(np.ndarray)
    if isinstance(i, list) and has_sym(i):
        return concretise_array(arr(i))
    return i
