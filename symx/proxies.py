"""Running soepy's NumPy/pandas modules on symbolic values.

install() replaces, in every loaded soepy module, the globals bound to numpy, jax.numpy, jax and
the builtins float/int by proxies that behave identically on concrete values, dispatch to jax.numpy
on tracers, and compute symbolically on symbolic values.  The source of soepy is not changed."""
from __future__ import annotations

import builtins
import contextlib
import importlib
import os
import sys
import types

import jax
import jax.numpy as jnp
import numpy as np
import pandas as pd

from . import jaxpr as jx
from . import sym as sy
from . import term as tm
from .sym import Sym, SymArray, SymError, arr, asobj, demote, has_sym


def load_soepy():
    import soepy

    mods = {}
    root = os.path.dirname(soepy.__file__)
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x != "test" and not x.startswith((".", "__")))
        for f in sorted(files):
            if f.endswith(".py"):
                parts = os.path.relpath(os.path.join(d, f), root)[:-3].split(os.sep)
                name = ".".join(["soepy"] + [x for x in parts if x != "__init__"])
                mods[name] = importlib.import_module(name)
    return mods


# ------------------------------------------------------------------ builtins
class _MetaFloat(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class symfloat(metaclass=_MetaFloat):
    dtype = np.dtype(builtins.float)

    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == object:
            x = x.view(np.ndarray).reshape(-1)[0]
        if isinstance(x, Sym):
            return sy.cast_scalar(x, builtins.float)
        if isinstance(x, jax.core.Tracer):
            return x.astype(builtins.float)
        return builtins.float(x)


class _MetaInt(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class symint(metaclass=_MetaInt):
    dtype = np.dtype(builtins.int)

    def __new__(cls, x=0, *a):
        if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == object:
            x = x.view(np.ndarray).reshape(-1)[0]
        if isinstance(x, Sym):
            r = sy.cast_scalar(x, builtins.int)
            if isinstance(r, Sym) and r.t.op == "c":
                return builtins.int(r.t.args[0])
            return r
        if isinstance(x, jax.core.Tracer):
            return x.astype(builtins.int)
        return builtins.int(x, *a)


def symsum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def _fixdtype(k):
    for n in ("dtype",):
        d = k.get(n)
        if d is symfloat:
            k[n] = builtins.float
        elif d is symint:
            k[n] = builtins.int
    return k


# ------------------------------------------------------------------ numpy
def _to_symarrays(x):
    if isinstance(x, np.ndarray) and x.dtype == object and not isinstance(x, SymArray):
        return x.view(SymArray)
    if isinstance(x, sy.Masked):
        return _to_symarrays(x.real())
    if isinstance(x, (pd.Series,)) and x.dtype == object:
        return x.to_numpy()
    if isinstance(x, list):
        return [_to_symarrays(e) for e in x]
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(_to_symarrays(e) for e in x)
    return x


def _fl(dtype):
    """Floating dtype requested (arrays that may receive symbolic values)."""
    if dtype is None or dtype is symfloat:
        return True
    try:
        return np.dtype(dtype).kind in "fO"
    except TypeError:
        return False


def _creation(name):
    real = getattr(np, name)

    def f(*a, **k):
        k = _fixdtype(k)
        if name in ("zeros", "ones", "empty"):
            dt = k.get("dtype", a[1] if len(a) > 1 else None)
            if _fl(dt):
                shape = a[0] if a else k["shape"]
                base = np.ones(shape) if name == "ones" else np.zeros(shape)
                return base.astype(object).view(SymArray)
            a = (a[0],) + tuple(builtins.int if x is symint else x for x in a[1:])
            return real(*a, **k).astype(object).view(SymArray)
        if name == "full":
            fv = a[1] if len(a) > 1 else k.get("fill_value")
            dt = k.get("dtype", a[2] if len(a) > 2 else None)
            if has_sym(fv) or (_fl(dt) and (dt is not None or isinstance(fv, (builtins.float, np.floating)))):
                o = np.empty(a[0] if a else k["shape"], dtype=object)
                o[...] = fv
                return o.view(SymArray)
            return real(*a, **k).view(SymArray)
        raise AssertionError

    return f


def _np_array(x, dtype=None, copy=True, **k):
    if isinstance(x, jax.core.Tracer) or jx.any_tracer(x):
        return jnp.asarray(x, dtype=dtype)
    if dtype is symfloat:
        dtype = builtins.float
    if dtype is symint:
        dtype = builtins.int
    if isinstance(x, (pd.Series, pd.DataFrame)):
        x = x.to_numpy()
    if has_sym(x):
        a = asobj(x)
        a = a.copy() if copy else a
        a = a.view(SymArray)
        if a.ndim == 0 and not isinstance(x, np.ndarray):
            pass
        if dtype is not None and np.dtype(dtype) != object:
            a = sy.astype(a, dtype)
            if not isinstance(a, np.ndarray):
                o = np.empty((), dtype=object)
                o[()] = a
                a = o.view(SymArray)
        return a
    if isinstance(x, SymArray):
        d = demote(x).view(np.ndarray)
        r = np.array(d, dtype=dtype, copy=True) if copy else np.asarray(d, dtype=dtype)
        return r.astype(object).view(SymArray) if x.dtype == object and r.dtype.kind == "f" else r
    r = np.array(x, dtype=dtype, **k) if copy else np.asarray(x, dtype=dtype, **k)
    return _indexable(r)


def _indexable(r):
    """A view that symbolic integers can index."""
    return r.view(SymArray) if sy.MERGE[0] and type(r) is np.ndarray and r.ndim and r.dtype.kind in "fiu" else r


def _np_asarray(x, dtype=None, **k):
    return _np_array(x, dtype, copy=False)


SPECIAL_NP = {
    "array": _np_array,
    "asarray": _np_asarray,
    "asanyarray": _np_asarray,
    "ascontiguousarray": _np_asarray,
    "zeros": _creation("zeros"),
    "ones": _creation("ones"),
    "empty": _creation("empty"),
    "full": _creation("full"),
}


class NPProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, name):
        if name in SPECIAL_NP:
            return SPECIAL_NP[name]
        if name in ("float64", "float_", "double"):
            return _f64
        real = getattr(np, name)
        if isinstance(real, type) or isinstance(real, types.ModuleType) or not callable(real):
            return real
        return _np_func(name, real)


class _MetaF64(_MetaFloat):
    def __instancecheck__(cls, x):
        return isinstance(x, np.float64)


class _f64(symfloat, metaclass=_MetaF64):
    pass


_np_cache = {}


def _np_func(name, real):
    f = _np_cache.get(name)
    if f is not None:
        return f

    def g(*args, **kwargs):
        kwargs = _fixdtype(kwargs)
        if isinstance(real, np.ufunc) and not kwargs and any(isinstance(a, sy.Masked) for a in args):
            return next(a for a in args if isinstance(a, sy.Masked))._op(g, *args)
        if jx.any_tracer(args) or jx.any_tracer(kwargs):
            return getattr(jnp, name)(*args, **kwargs)
        args = tuple(_to_symarrays(a) for a in args)
        kwargs = {k: _to_symarrays(v) for k, v in kwargs.items()}
        if sy._any_sym(args, kwargs):
            if isinstance(real, np.ufunc):
                r = sy._array_ufunc(real, "__call__", *args, **kwargs)
            elif name in sy.FUNCS:
                r = sy.FUNCS[name](*args, **kwargs)
            else:
                args = tuple(arr(a) if isinstance(a, (list, tuple)) and has_sym(a) and not any(
                    isinstance(e, np.ndarray) for e in a) else a for a in args)
                r = real(*args, **kwargs)
            return sy._post(r)
        return _indexable(real(*sy._strip(args), **sy._strip(kwargs)))

    if isinstance(real, np.ufunc):
        for m in ("reduce", "accumulate", "outer", "at"):
            def mk(m):
                def h(*args, **kwargs):
                    args = tuple(_to_symarrays(a) for a in args)
                    if sy._any_sym(args, kwargs):
                        return sy._array_ufunc(real, m, *args, **kwargs)
                    return getattr(real, m)(*sy._strip(args), **sy._strip(kwargs))
                return h
            setattr(g, m, mk(m))
    g.__name__ = name
    _np_cache[name] = g
    return g


# ------------------------------------------------------------------ jax
class JNPProxy(types.ModuleType):
    def __init__(self):
        super().__init__("jax.numpy")

    def __getattr__(self, name):
        real = getattr(jnp, name)
        if isinstance(real, types.ModuleType) or not callable(real):
            return real
        if isinstance(real, type) and name in ("float64", "float32", "int32", "int64", "bool_", "ndarray"):
            return real
        return _jnp_func(name, real)


_jnp_cache = {}


def _jnp_func(name, real):
    f = _jnp_cache.get(name)
    if f is not None:
        return f

    def g(*args, **kwargs):
        kwargs = sy.unmask(_fixdtype(kwargs))
        args = sy.unmask(args)
        args = tuple(builtins.float if a is symfloat else builtins.int if a is symint else a for a in args)
        if jx.any_tracer(args) or jx.any_tracer(kwargs):
            if jx.any_symbolic(args) or jx.any_symbolic(kwargs):
                raise SymError("tracer mixed with symbolic constants in jnp." + name)
            return real(*args, **kwargs)
        if jx.any_symbolic(args) or jx.any_symbolic(kwargs):
            args = tuple(_to_symarrays(a) for a in args)
            if name in ("asarray", "array"):
                return _np_array(args[0], kwargs.get("dtype", args[1] if len(args) > 1 else None))
            if name in ("exp", "log", "maximum", "minimum", "where", "clip", "sum", "abs", "sqrt"):
                # exact counterparts; avoid a trace per call
                if name == "where" and len(args) == 3:
                    return sy.where(*args)
                if name in sy.UF and not kwargs and not any(isinstance(a, list) for a in args):
                    return sy.elementwise(sy.UF[name], *args)
            args = tuple(arr(a) if isinstance(a, (list, tuple)) and has_sym(a) and name in ("sum", "max", "min") else a for a in args)
            static = {k: v for k, v in kwargs.items() if not jx.any_symbolic(v)}
            dyn = {k: v for k, v in kwargs.items() if jx.any_symbolic(v)}
            spos = {i: a for i, a in enumerate(args) if not jx.any_symbolic(a) and isinstance(a, (builtins.int, str, type, tuple, type(None), bool)) and i > 0}
            dargs = [a for i, a in enumerate(args) if i not in spos]

            def h(*da, **dk):
                it = iter(da)
                full = [spos[i] if i in spos else next(it) for i in range(len(args))]
                return real(*full, **static, **dk)

            return jx.call(h, tuple(dargs), dyn, name="jnp." + name)
        return real(*sy._strip(args), **sy._strip(kwargs))

    g.__name__ = name
    _jnp_cache[name] = g
    return g


class JAXProxy(types.ModuleType):
    def __init__(self):
        super().__init__("jax")
        self.numpy = JNP

    def __getattr__(self, name):
        if name == "vmap":
            return sym_vmap
        if name == "jit":
            return sym_jit
        return getattr(jax, name)


def _norm(fn):
    return getattr(fn, "__wrapped_real__", fn)


def sym_vmap(fn, *va, **vk):
    def g(*args, **kwargs):
        if (jx.any_symbolic(args) or jx.any_symbolic(kwargs) or jx.captured(fn)) and not (jx.any_tracer(args) or jx.any_tracer(kwargs)):
            cap = jx.captured(fn)
            if cap is not None:
                return jx.call(lambda v, a, k: jax.vmap(cap[1](v), *va, **vk)(*a, **k), (cap[0], args, kwargs), {}, name="vmap")
            return _vmap_static(fn, va, vk, args, kwargs)
        return jax.vmap(fn, *va, **vk)(*args, **kwargs)

    return g


def _vmap_static(fn, va, vk, args, kwargs):
    return jx.call(jax.vmap(fn, *va, **vk), args, kwargs, name="vmap(%s)" % getattr(fn, "__name__", "f"))


def sym_jit(fn=None, **jk):
    if fn is None:
        return lambda f: sym_jit(f, **jk)

    def g(*args, **kwargs):
        if (jx.any_symbolic(args) or jx.any_symbolic(kwargs) or jx.captured(fn)) and not (jx.any_tracer(args) or jx.any_tracer(kwargs)):
            nm = "jit(%s)" % getattr(fn, "__name__", "f")
            cap = jx.captured(fn)
            if cap is None:
                return jx.memo(("jit", fn, jk, args, kwargs), lambda: jx._call(jax.jit(fn, **jk), args, kwargs, name=nm))
            return jx.memo(("jit", fn, jk, args, kwargs), lambda: jx._call(
                lambda v, a, k: jax.jit(cap[1](v), **jk)(*a, **k), (cap[0], args, kwargs), {}, name=nm))
        return jax.jit(fn, **jk)(*args, **kwargs)

    return g


NP = NPProxy()
JNP = JNPProxy()
JAXP = JAXProxy()

LIFT_PREFIX = ("soepy.shared.", "soepy.solve.continuous_continuation", "soepy.solve.emaxs", "soepy.solve.validation_solve")
NO_LIFT = ("soepy.shared.numerical_integration", "soepy.shared.tax_and_transfers.", "soepy.shared.constants")


def lift_fn(f):
    def g(*args, **kwargs):
        if jx.any_tracer(args) or jx.any_tracer(kwargs):
            return f(*args, **kwargs)
        if not (jx.any_symbolic(args) or jx.any_symbolic(kwargs)):
            return f(*sy._strip(args), **sy._strip(kwargs))
        try:
            return jx.call(f, args, kwargs, name=f.__module__ + "." + f.__name__)
        except (jax.errors.JAXTypeError, jax.errors.JAXIndexError, TypeError) as e:
            try:
                return f(*args, **kwargs)
            except Exception:
                raise e

    g.__name__ = f.__name__
    g.__wrapped_real__ = f
    return g


# ------------------------------------------------------------------ pandas
def _pd_patches():
    ps = []
    orig_s_to_numpy = pd.Series.to_numpy
    orig_d_to_numpy = pd.DataFrame.to_numpy
    orig_s_values = pd.Series.values
    orig_d_values = pd.DataFrame.values
    orig_s_astype = pd.Series.astype
    orig_d_astype = pd.DataFrame.astype

    def w(a):
        if isinstance(a, np.ndarray) and a.dtype == object and has_sym(a):
            return a.view(SymArray)
        if isinstance(a, np.ndarray) and a.dtype == object:
            return demote(a)
        return a

    def s_to_numpy(self, *a, **k):
        if self.dtype == object:
            k = {x: y for x, y in k.items() if x == "copy"}
            return w(orig_s_to_numpy(self, **k))
        return w(orig_s_to_numpy(self, *a, **k))

    def d_to_numpy(self, dtype=None, *a, **k):
        r = orig_d_to_numpy(self) if any(t == object for t in self.dtypes) else orig_d_to_numpy(self, dtype, *a, **k)
        return w(r)

    def s_astype(self, dtype, *a, **k):
        if self.dtype == object and has_sym(self.to_numpy()):
            if isinstance(dtype, dict):
                dtype = dtype[self.name]
            v = sy.astype(self.to_numpy(), dtype)
            return pd.Series(asobj(v), index=self.index, name=self.name, dtype=object)
        if self.dtype == object:
            dtype2 = builtins.float if dtype is symfloat else builtins.int if dtype is symint else dtype
            return orig_s_astype(self, dtype2, *a, **k)
        return orig_s_astype(self, dtype, *a, **k)

    def d_astype(self, dtype, *a, **k):
        if not any(t == object for t in self.dtypes):
            return orig_d_astype(self, dtype, *a, **k)
        out = self.copy()
        for i, c in enumerate(self.columns):
            if isinstance(dtype, dict):
                if c not in dtype:
                    continue
                dt = dtype[c]
            else:
                dt = dtype
            out[c] = self.iloc[:, i].astype(dt)
        if isinstance(dtype, dict):
            for c in dtype:
                if c not in self.columns:
                    raise KeyError(c)
        return out

    def ckey(k):
        if isinstance(k, tuple):
            return tuple(ckey(x) for x in k)
        if isinstance(k, Sym):
            return sy._conc1(k)
        if isinstance(k, pd.Series) and k.dtype == object and has_sym(k.to_numpy()):
            return pd.Series(sy.concretise_array(k.to_numpy()), index=k.index)
        if isinstance(k, np.ndarray) and k.dtype == object and has_sym(k):
            return sy.concretise_array(k)
        if isinstance(k, SymArray):
            return demote(k).view(np.ndarray)
        if isinstance(k, list) and has_sym(k):
            return sy.concretise_array(arr(k))
        return k

    def symmask(m):
        m = m.to_numpy() if isinstance(m, pd.Series) else m
        return isinstance(m, np.ndarray) and m.dtype == object and m.ndim == 1 and has_sym(m)

    def masked(self, key, val):
        """Write to the rows of a symbolic mask (a scalar or a full-length vector)."""
        if isinstance(self, pd.Series):
            obj, col = self, None
            mask = key
        elif isinstance(self, LOC) and isinstance(self.obj, pd.Series):
            obj, col, mask = self.obj, None, key
        elif isinstance(self, LOC) and isinstance(key, tuple) and len(key) == 2 and isinstance(key[1], str):
            (mask, col), obj = key, self.obj
        else:
            return False
        if not symmask(mask) or len(mask) != len(obj):
            return False
        if isinstance(val, sy.Masked):
            if not val.fits(mask.to_numpy() if isinstance(mask, pd.Series) else mask):
                return False
            val = val.full
        if np.ndim(val) > 1 or (np.ndim(val) == 1 and len(val) != len(obj)):
            return False
        m = mask.to_numpy() if isinstance(mask, pd.Series) else mask
        val = val.to_numpy() if isinstance(val, pd.Series) else val
        new = asobj(sy.where(asobj(m), val, asobj((obj if col is None else obj[col]).to_numpy())))
        if col is None:
            obj.iloc[:] = list(new)
        else:
            obj[col] = pd.Series(list(new), index=obj.index, dtype=object)
        return True

    def lazy(self, key, og):
        """A column under a symbolic mask."""
        if isinstance(self, pd.Series):
            full, mask = self, key
        elif isinstance(self, LOC) and isinstance(self.obj, pd.Series):
            full, mask = self.obj, key
        elif isinstance(self, LOC) and isinstance(key, tuple) and len(key) == 2 and isinstance(key[1], str):
            mask, full = key[0], self.obj
        else:
            return None
        if not symmask(mask) or len(mask) != len(full):
            return None
        m = asobj(mask.to_numpy() if isinstance(mask, pd.Series) else mask)
        if not sy._symmask(m):
            return None
        full = full if isinstance(full, pd.Series) else full[key[1]]
        return sy.Masked(full.astype(object), m.copy(), lambda f: f[sy.concretise_array(m)])

    def s_where(self, cond, other=np.nan, neg=False, **k):
        cond = cond(self) if callable(cond) else cond
        if not symmask(cond):
            return (orig_mask if neg else orig_where)(self, cond, other, **k)
        m = asobj(cond.to_numpy() if isinstance(cond, pd.Series) else cond)
        o = other.to_numpy() if isinstance(other, pd.Series) else other
        a = asobj(self.to_numpy())
        new = sy.where(m, o, a) if neg else sy.where(m, a, o)
        return pd.Series(list(asobj(new)), index=self.index, name=self.name, dtype=object)

    LOC = type(pd.DataFrame().loc)
    orig_where, orig_mask = pd.Series.where, pd.Series.mask
    ps.append((pd.Series, "where", s_where))
    ps.append((pd.Series, "mask", lambda self, cond, other=np.nan, **k: s_where(self, cond, other, True, **k)))

    def cval(v):
        if isinstance(v, SymArray) and not has_sym(v):
            return demote(v).view(np.ndarray)
        return v

    for cls in (type(pd.DataFrame().loc), type(pd.DataFrame().iloc), pd.DataFrame, pd.Series):
        og, os_ = cls.__getitem__, cls.__setitem__

        def gi(self, key, og=og):
            r = lazy(self, key, og)
            return og(self, ckey(key)) if r is None else r

        def si(self, key, val, os_=os_):
            if masked(self, key, val):
                return None
            return os_(self, ckey(key), cval(sy.unmask(val)))

        ps.append((cls, "__getitem__", gi))
        ps.append((cls, "__setitem__", si))
    from pandas.core import ops as pdops
    from pandas.core.ops import array_ops

    def sa(x):
        return x.view(SymArray) if isinstance(x, np.ndarray) and x.dtype == object else x

    orig_comp, orig_logical, orig_isin = array_ops.comp_method_OBJECT_ARRAY, array_ops.logical_op, pd.Series.isin

    def comp(op, x, y):
        if has_sym(x) or has_sym(y):
            y = y.to_numpy() if isinstance(y, (pd.Series, pd.Index)) else y
            return asobj(op(sa(x), sa(y)))
        return orig_comp(op, x, y)

    def logical(left, right, op):
        if has_sym(left) or has_sym(right):
            right = right.to_numpy() if isinstance(right, (pd.Series, pd.Index)) else right
            return asobj(op(sa(np.asarray(left, dtype=object)), sa(right)))
        return orig_logical(left, right, op)

    def s_isin(self, values):
        a = self.to_numpy()
        if not has_sym(a):
            return orig_isin(self, values)
        return pd.Series(list(asobj(sy.FUNCS["isin"](a, list(values)))), index=self.index, name=self.name, dtype=object)

    ps.append((array_ops, "comp_method_OBJECT_ARRAY", comp))
    ps.append((array_ops, "logical_op", logical))
    ps.append((pdops, "logical_op", logical))
    ps.append((pd.Series, "isin", s_isin))
    orig_cut = pd.cut

    def cut(x, bins, right=True, labels=None, include_lowest=False, **k):
        """Bins of symbolic values: their labels as numbers."""
        a = x.to_numpy() if isinstance(x, pd.Series) else np.asarray(x) if not isinstance(x, np.ndarray) else x
        if not has_sym(a):
            return orig_cut(x, bins, right=right, labels=labels, include_lowest=include_lowest, **k)
        if np.ndim(bins) == 0 or k or labels is None or has_sym(np.asarray(bins, dtype=object)):
            raise SymError("pandas.cut of symbolic values with these options")
        b = [float(v) for v in bins]
        labs = list(range(len(b) - 1)) if labels is False else list(labels)
        if len(labs) != len(b) - 1:
            raise ValueError("Bin labels must be one fewer than the number of bin edges")
        r = np.full(a.shape, float("nan"), dtype=object)
        for i in range(len(b) - 2, -1, -1):
            lo, hi = b[i], b[i + 1]
            if right:
                inside = (a >= lo if include_lowest and i == 0 else a > lo) & (a <= hi)
            else:
                inside = (a >= lo) & (a < hi)
            r = sy.where(inside, labs[i], r)
        r = asobj(r)
        return pd.Series(list(r), index=x.index, name=x.name, dtype=object) if isinstance(x, pd.Series) else r

    ps.append((pd, "cut", cut))
    ps.append((pd.Series, "to_numpy", s_to_numpy))
    ps.append((pd.DataFrame, "to_numpy", d_to_numpy))
    ps.append((pd.Series, "values", property(lambda self: w(orig_s_values.fget(self)))))
    ps.append((pd.DataFrame, "values", property(lambda self: w(orig_d_values.fget(self)))))
    ps.append((pd.Series, "astype", s_astype))
    ps.append((pd.DataFrame, "astype", d_astype))
    return ps


@contextlib.contextmanager
def installed(pandas=True):
    mods = load_soepy()
    undo = []

    def setg(m, name, val):
        missing = name not in vars(m)
        undo.append((m, name, None if missing else vars(m)[name], missing))
        setattr(m, name, val)

    for mn, m in mods.items():
        for name, v in list(vars(m).items()):
            if name.startswith("__"):
                continue
            if v is np:
                setg(m, name, NP)
            elif v is jnp:
                setg(m, name, JNP)
            elif v is jax:
                setg(m, name, JAXP)
            elif v is jax.vmap:
                setg(m, name, sym_vmap)
            elif v is jax.jit:
                setg(m, name, sym_jit)
            elif isinstance(v, types.FunctionType) and v.__module__ != mn and v.__module__.startswith("soepy."):
                src = v.__module__
                if any(src.startswith(p) for p in LIFT_PREFIX) and not any((src + ".").startswith(p) for p in NO_LIFT) \
                        and not mn.startswith("soepy.solve.solve_python"):
                    setg(m, name, lift_fn(v))
            elif isinstance(v, np.ufunc):
                setg(m, name, _np_func(v.__name__, v))
            elif callable(v) and getattr(v, "__module__", "") in ("numpy",) and hasattr(np, getattr(v, "__name__", "")) \
                    and not isinstance(v, type):
                setg(m, name, getattr(NP, v.__name__))
            elif callable(v) and str(getattr(v, "__module__", "")).startswith("jax._src.numpy") and hasattr(
                    jnp, getattr(v, "__name__", "")) and not isinstance(v, type):
                setg(m, name, getattr(JNP, v.__name__))
        setg(m, "float", symfloat)
        setg(m, "int", symint)
        setg(m, "sum", symsum)
    pds = []
    if pandas:
        for o, n, v in _pd_patches():
            pds.append((o, n, o.__dict__.get(n)))
            setattr(o, n, v)
    try:
        yield mods
    finally:
        for m, name, val, missing in reversed(undo):
            if missing:
                delattr(m, name)
            else:
                setattr(m, name, val)
        for o, n, v in pds:
            if v is None:
                delattr(o, n)
            else:
                setattr(o, n, v)
