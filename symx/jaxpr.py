"""Symbolic execution of jaxprs obtained from the real JAX code."""
from __future__ import annotations

import functools
import itertools
import types
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np

from . import term as tm
from .sym import (
    Sym, SymArray, SymError, UF, arr, asobj, argmax, accumulate, astype, concretise_array, demote,
    elementwise, has_sym, leaves_of, lift, out, reduce_, toreal, wrap,
)

jax.config.update("jax_enable_x64", True)

STATS = {"eqns": 0, "traces": 0}


def _r1(name):
    f = UF[name]
    return lambda eqn, *xs: elementwise(f, *xs)


ELEM = {
    "add": "add", "add_any": "add", "sub": "subtract", "mul": "multiply", "neg": "negative", "max": "maximum",
    "min": "minimum", "exp": "exp", "log": "log", "log1p": "log1p", "expm1": "expm1", "sqrt": "sqrt",
    "floor": "floor", "ceil": "ceil", "abs": "absolute", "sign": "sign", "lt": "less", "le": "less_equal",
    "gt": "greater", "ge": "greater_equal", "square": "square", "exp2": "exp2", "is_finite": "isfinite",
    "tanh": "tanh", "sin": "sin", "cos": "cos",
}
STRUCT = {
    "reshape", "broadcast_in_dim", "transpose", "squeeze", "expand_dims", "slice", "rev", "concatenate",
    "pad", "split", "copy", "copy_p", "tile", "stack", "unstack", "select_and_gather_add",
}


def _isbool_aval(v):
    return v.aval.dtype == np.bool_


def _conc(x):
    return not (isinstance(x, Sym) or (isinstance(x, np.ndarray) and x.dtype == object and has_sym(x)))


def _native(x, aval):
    """Concrete value as an array of the aval's dtype."""
    if isinstance(x, np.ndarray) and x.dtype == object:
        x = demote(x)
        if x.dtype == object and x.size == 0:
            x = x.astype(float)
    if isinstance(x, Sym):
        x = demote(asobj(x))
    if jax.dtypes.issubdtype(aval.dtype, jax.dtypes.extended):
        return x
    return jnp.asarray(np.asarray(x), dtype=aval.dtype)


def _div(eqn, a, b):
    dt = eqn.outvars[0].aval.dtype
    if np.issubdtype(dt, np.integer):
        return elementwise(lambda x, y: tm.trunc(tm.div(tm.toreal(x), tm.toreal(y))), a, b)
    return elementwise(UF["divide"], a, b)


def _rem(eqn, a, b):
    def f(x, y):
        x, y = tm.toreal(x), tm.toreal(y)
        return tm.sub(x, tm.mul(y, tm.trunc(tm.div(x, y))))

    return elementwise(f, a, b)


def _eq(eqn, a, b):
    return elementwise(UF["equal"], a, b)


def _ne(eqn, a, b):
    return elementwise(UF["not_equal"], a, b)


def _logic(name_b):
    def f(eqn, *xs):
        if eqn.outvars[0].aval.dtype != np.bool_:
            raise SymError("bitwise integer operation")
        return elementwise(UF[name_b], *xs)

    return f


def _select_n(eqn, which, *cases):
    isb = eqn.outvars[0].aval.dtype == np.bool_
    if len(cases) == 2:
        def f(w, a, b):
            w = tm.tobool(w)
            if isb:
                return tm.ite(w, tm.tobool(b), tm.tobool(a))
            return tm.ite(w, tm.toreal(b), tm.toreal(a))

        return elementwise(f, which, *cases)

    def g(w, *cs):
        w = tm.toreal(w)
        r = tm.toreal(cs[-1])
        for i in range(len(cs) - 2, -1, -1):
            r = tm.ite(tm.le(w, tm.const(i)), tm.toreal(cs[i]), r)
        return r

    return elementwise(g, which, *cases)


def _convert(eqn, x):
    src = eqn.invars[0].aval.dtype
    dt = np.dtype(eqn.params["new_dtype"])
    if dt.kind == "b":
        return elementwise(lambda t: tm.tobool(t), x)
    if dt.kind == "f":
        return elementwise(lambda t: tm.toreal(t), x)
    if np.issubdtype(src, np.floating):
        return elementwise(lambda t: tm.trunc(tm.toreal(t)), x)
    return elementwise(lambda t: tm.toreal(t), x)


def _integer_pow(eqn, x):
    n = eqn.params["y"]
    return elementwise(lambda t: tm.powi(tm.toreal(t), n) if n > 0 else tm.inv(tm.powi(tm.toreal(t), -n)), x)


def _pow(eqn, x, y):
    return elementwise(UF["power"], x, y)


def _clamp(eqn, lo, x, hi):
    return elementwise(lambda l, v, h: tm.minimum(tm.maximum(tm.toreal(v), tm.toreal(l)), tm.toreal(h)), lo, x, hi)


def _reduce(name):
    def f(eqn, x):
        axes = tuple(eqn.params["axes"])
        if not axes:
            return x
        return reduce_(UF[name], asobj(x), axes, False, None, name)

    return f


def _argm(better):
    def f(eqn, x):
        (ax,) = eqn.params["axes"]
        return argmax(x, ax, better=better)

    return f


def _cum(name):
    def f(eqn, x):
        ax = eqn.params["axis"]
        a = asobj(x)
        if eqn.params.get("reverse"):
            a = np.flip(a, ax)
        r = accumulate(UF[name], a, ax)
        if eqn.params.get("reverse"):
            r = np.flip(asobj(r), ax)
        return r

    return f


def _dot_general(eqn, a, b):
    ((lc, rc), (lb, rb)) = eqn.params["dimension_numbers"]
    a, b = asobj(a), asobj(b)
    letters = iter("abcdefghijklmnopqrstuvwxyz")
    la = [None] * a.ndim
    ra = [None] * b.ndim
    o = []
    for i, j in zip(lb, rb):
        la[i] = ra[j] = next(letters)
        o.append(la[i])
    for i, j in zip(lc, rc):
        la[i] = ra[j] = next(letters)
    for i in range(a.ndim):
        if la[i] is None:
            la[i] = next(letters)
            o.append(la[i])
    for j in range(b.ndim):
        if ra[j] is None:
            ra[j] = next(letters)
            o.append(ra[j])
    return out(np.einsum("".join(la) + "," + "".join(ra) + "->" + "".join(o), a, b, optimize=False))


def _bind(eqn, vals):
    bp = eqn.primitive.get_bind_params(eqn.params)
    with eqn.ctx.manager:
        if isinstance(bp, dict):
            return eqn.primitive.bind(*vals, **bp)
        subfuns, params = bp
        return eqn.primitive.bind(*subfuns, *vals, **params)


def _by_ids(eqn, vals, data_pos):
    """Structural primitive: run it on element numbers and map back."""
    flats = []
    ids = list(vals)
    off = 0
    for p in data_pos:
        v = asobj(vals[p])
        n = v.size
        ids[p] = jnp.asarray(np.arange(off, off + n, dtype=np.float64).reshape(v.shape))
        flats.extend(v.ravel().tolist())
        off += n
    for p in range(len(vals)):
        if p not in data_pos:
            ids[p] = _native(vals[p], eqn.invars[p].aval)
    r = _bind(eqn, ids)
    multi = eqn.primitive.multiple_results
    rs = r if multi else [r]
    res = []
    for x in rs:
        x = np.asarray(x)
        o = np.empty(x.size, dtype=object)
        for i, k in enumerate(x.ravel().tolist()):
            o[i] = flats[int(k)] if k == k else float("nan")
        res.append(out(o.reshape(x.shape)))
    return res if multi else res[0]


def _gather(eqn, operand, indices):
    if _conc(indices):
        return _by_ids(eqn, [operand, indices], [0])
    idx = asobj(indices)
    oshape = eqn.outvars[0].aval.shape
    offset = eqn.params["dimension_numbers"].offset_dims
    batch_dims = [d for d in range(len(oshape)) if d not in offset]
    rows = idx.reshape(-1, idx.shape[-1])
    combos = []
    for r in rows:
        per = []
        for e in r.tolist():
            t = toreal(e)
            lv = leaves_of(t)
            if lv is None:
                raise SymError("gather with an index that is not finitely valued: " + tm.show(t))
            per.append((t, [int(v) for v in lv]))
        combos.append(per)
    lists = [list(itertools.product(*[p[1] for p in per])) for per in combos]
    L = max(len(l) for l in lists)
    results = []
    for k in range(L):
        conc = np.array([l[min(k, len(l) - 1)] for l in lists]).reshape(idx.shape)
        results.append(asobj(_by_ids(eqn, [operand, conc], [0])))
    res = np.empty(oshape, dtype=object)
    bshape = tuple(oshape[d] for d in batch_dims)
    for ix in np.ndindex(*oshape):
        row = np.ravel_multi_index(tuple(ix[d] for d in batch_dims), bshape) if bshape else 0
        per, lst = combos[row], lists[row]
        symb = [(j, p) for j, p in enumerate(per) if len(p[1]) > 1]
        vals = {c: lift(results[k][ix]) for k, c in enumerate(lst)}
        if len(symb) == 1 and symb[0][1][0].ctree:
            j, (t, _) = symb[0]
            base = [p[1][0] for p in per]

            def g(leaf):
                b = list(base)
                b[j] = int(tm.cval(leaf))
                return vals[tuple(b)]

            res[ix] = wrap(tm.map_ctree(t, g))
            continue
        r = vals[lst[-1]]
        for c in reversed(lst[:-1]):
            cond = tm.and_(*[tm.eq(p[0], tm.const(v)) for p, v in zip(per, c)])
            r = tm.ite(cond, vals[c], r)
        res[ix] = wrap(r)
    return out(res)


def _dynamic_slice(eqn, operand, *starts):
    if all(_conc(s) for s in starts):
        return _by_ids(eqn, [operand, *starts], [0])
    ts, lv = [], []
    for s in starts:
        t = toreal(asobj(s).item())
        l = leaves_of(t)
        if l is None:
            raise SymError("dynamic_slice with an index that is not finitely valued")
        ts.append(t)
        lv.append([int(v) for v in l])
    res = {c: asobj(_by_ids(eqn, [operand, *c], [0])) for c in itertools.product(*lv)}
    symb = [j for j, l in enumerate(lv) if len(l) > 1]
    shape = eqn.outvars[0].aval.shape
    o = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        if len(symb) == 1 and ts[symb[0]].ctree:
            j = symb[0]

            def g(leaf):
                b = [l[0] for l in lv]
                b[j] = int(tm.cval(leaf))
                return lift(res[tuple(b)][ix])

            o[ix] = wrap(tm.map_ctree(ts[j], g))
            continue
        items = list(res.items())
        r = lift(items[-1][1][ix])
        for c, v in reversed(items[:-1]):
            r = tm.ite(tm.and_(*[tm.eq(t, tm.const(k)) for t, k in zip(ts, c)]), lift(v[ix]), r)
        o[ix] = wrap(r)
    return out(o)


def _dus(eqn, operand, update, *starts):
    if not all(_conc(s) for s in starts):
        starts = [concretise_array(asobj(s)) if not _conc(s) else s for s in starts]
    return _by_ids(eqn, [operand, update, *starts], [0, 1])


def _scatter(eqn, operand, indices, updates):
    if not _conc(indices):
        indices = concretise_array(asobj(indices))
    return _by_ids(eqn, [operand, indices, updates], [0, 2])


def _scatter_comb(name):
    f = UF[name]

    def g(eqn, operand, indices, updates):
        if not _conc(indices):
            indices = concretise_array(asobj(indices))
        # one update element at a time
        o = asobj(operand).copy()
        u = asobj(updates)
        oi = jnp.zeros(o.shape)
        for k in range(u.size):
            e = np.zeros(u.size)
            e[k] = 1.0
            hit = np.asarray(
                jax.lax.scatter_add_p.bind(
                    oi, _native(indices, eqn.invars[1].aval), jnp.asarray(e.reshape(u.shape)),
                    **{**eqn.params, "update_jaxpr": None, "update_consts": ()},
                )
            )
            for ix in zip(*np.nonzero(hit)):
                o[ix] = wrap(f(lift(o[ix]), lift(u.reshape(-1)[k])))
        return out(o)

    return g


PRIMS = {
    "div": _div, "rem": _rem, "eq": _eq, "ne": _ne, "and": _logic("logical_and"), "or": _logic("logical_or"),
    "xor": _logic("logical_xor"), "not": _logic("logical_not"), "select_n": _select_n,
    "convert_element_type": _convert, "integer_pow": _integer_pow, "pow": _pow, "clamp": _clamp,
    "reduce_sum": _reduce("add"), "reduce_prod": _reduce("multiply"), "reduce_max": _reduce("maximum"),
    "reduce_min": _reduce("minimum"), "reduce_and": _reduce("logical_and"), "reduce_or": _reduce("logical_or"),
    "argmax": _argm(tm.gt), "argmin": _argm(tm.lt), "cumsum": _cum("add"), "cumprod": _cum("multiply"),
    "cummax": _cum("maximum"), "cummin": _cum("minimum"), "dot_general": _dot_general, "gather": _gather,
    "dynamic_slice": _dynamic_slice, "dynamic_update_slice": _dus, "scatter": _scatter,
    "scatter-add": _scatter_comb("add"), "scatter_add": _scatter_comb("add"),
    "scatter-mul": _scatter_comb("multiply"), "scatter_mul": _scatter_comb("multiply"),
    "scatter_max": _scatter_comb("maximum"), "scatter_min": _scatter_comb("minimum"),
    "stop_gradient": lambda eqn, x: x, "reduce_precision": lambda eqn, x: x,
    "logistic": lambda eqn, x: elementwise(lambda t: tm.inv(tm.add(tm.ONE, tm.exp(tm.neg(tm.toreal(t))))), x),
    "rsqrt": lambda eqn, x: elementwise(lambda t: tm.inv(tm.power(tm.toreal(t), tm.const(Fraction(1, 2)))), x),
    "erf": lambda eqn, x: elementwise(lambda t: tm.fn("erf", tm.toreal(t)), x),
    "round": lambda eqn, x: elementwise(UF["rint"], x),
}
for _k, _v in ELEM.items():
    PRIMS.setdefault(_k, _r1(_v))


def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        if type(v).__name__ == "Literal":
            return v.val
        return env[v]

    def write(v, x):
        env[v] = x

    for v, c in zip(jaxpr.constvars, consts):
        write(v, c)
    for v, a in zip(jaxpr.invars, args):
        write(v, a)
    for eqn in jaxpr.eqns:
        vals = [read(v) for v in eqn.invars]
        STATS["eqns"] += 1
        res = _apply(eqn, vals)
        if eqn.primitive.multiple_results:
            for v, x in zip(eqn.outvars, res):
                write(v, x)
        else:
            write(eqn.outvars[0], res)
    return [read(v) for v in jaxpr.outvars]


CALLS = {"jit", "pjit", "closed_call", "core_call", "custom_jvp_call", "custom_vjp_call", "remat", "checkpoint",
         "custom_vjp_call_jaxpr", "xla_call", "remat2"}


def _apply(eqn, vals):
    name = eqn.primitive.name
    if all(_conc(v) for v in vals) and name not in CALLS and name not in ("scan", "while", "cond"):
        r = _bind(eqn, [_native(v, iv.aval) for v, iv in zip(vals, eqn.invars)])
        if eqn.primitive.multiple_results:
            return [_np(x) for x in r]
        return _np(r)
    if name in CALLS:
        p = eqn.params
        cj = p.get("jaxpr") or p.get("call_jaxpr") or p.get("fun_jaxpr")
        if hasattr(cj, "consts"):
            return eval_jaxpr(cj.jaxpr, cj.consts, vals)
        return eval_jaxpr(cj, [], vals)
    if name == "scan":
        return _scan(eqn, vals)
    if name == "while":
        return _while(eqn, vals)
    if name == "cond":
        branches = eqn.params["branches"]
        i = vals[0]
        if _conc(i):
            k = int(np.clip(int(np.asarray(demote(asobj(i)))), 0, len(branches) - 1))
            return eval_jaxpr(branches[k].jaxpr, branches[k].consts, vals[1:])
        outs = [eval_jaxpr(b.jaxpr, b.consts, vals[1:]) for b in branches]
        res = []
        it = tm.toreal(lift(i)) if not isinstance(i, np.ndarray) else tm.toreal(lift(asobj(i).item()))
        for os_ in zip(*outs):
            r = os_[-1]
            for k in range(len(branches) - 2, -1, -1):
                r = elementwise(lambda a, b: tm.ite(tm.le(it, tm.const(k)), tm.toreal(a), tm.toreal(b)), os_[k], r)
            res.append(r)
        return res
    if name in STRUCT:
        return _by_ids(eqn, vals, list(range(len(vals))))
    if name == "call_hi_primitive":
        r = _hi(eqn, vals)
        return r if eqn.primitive.multiple_results else r[0]
    if name == "copy":
        return vals[0]
    f = PRIMS.get(name)
    if f is None:
        raise SymError("jax primitive %s" % name)
    return f(eqn, *vals)


def _np(x):
    try:
        return np.asarray(x)
    except TypeError:
        return x


def _hi(eqn, vals):
    """Typed high-level primitive: SearchSorted directly, others through their expansion."""
    from . import sym as sy

    p = eqn.params["_prim"]
    if type(p).__name__ != "SearchSorted":
        avals = [jax.ShapeDtypeStruct(v.aval.shape, v.aval.dtype) for v in eqn.invars]
        cj = jax.make_jaxpr(lambda *a: jax.tree_util.tree_leaves(p.expand(*a)))(*avals)
        return eval_jaxpr(cj.jaxpr, cj.consts, vals)
    side = "right" if "right" in str(p.side).lower() else "left"
    nb = p.batch_dims
    a, q = asobj(vals[0]), asobj(vals[1])
    oshape = eqn.outvars[0].aval.shape
    res = np.empty(oshape, dtype=object)
    a = np.moveaxis(a, p.dimension, -1)
    for bx in np.ndindex(*a.shape[:nb]):
        ab, qb = a[bx], q[bx]
        for ix in np.ndindex(*ab.shape[:-1]):
            r = sy.searchsorted(ab[ix], qb, side)
            res[bx + ix] = asobj(r) if isinstance(r, np.ndarray) else r
    return [out(res)]


def _scan(eqn, vals):
    p = eqn.params
    length, rev = p["length"], p["reverse"]
    if "num_consts" in p:
        nc, nk = p["num_consts"], p["num_carry"]
    else:
        parts = [len(list(x.vals)) for x in p["ft_in"].unpack()]
        if len(parts) != 3 or sum(parts) != len(vals):
            raise SymError("scan layout")
        nc, nk = parts[0], parts[1]
    cj = p["jaxpr"]
    consts = vals[:nc]
    carry = list(vals[nc : nc + nk])
    xs = vals[nc + nk :]
    ys = [None] * length
    rng = range(length - 1, -1, -1) if rev else range(length)
    for i in rng:
        xi = [np.asarray(x)[i] if not isinstance(x, np.ndarray) else x[i] for x in xs]
        o = eval_jaxpr(cj.jaxpr, cj.consts, consts + carry + xi)
        carry = list(o[:nk])
        ys[i] = o[nk:]
    stacked = []
    n_y = len(ys[0]) if length else 0
    for k in range(n_y):
        stacked.append(out(np.stack([asobj(ys[i][k]) for i in range(length)])))
    return carry + stacked


def _while(eqn, vals):
    p = eqn.params
    cn, bn = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, st = vals[:cn], vals[cn : cn + bn], list(vals[cn + bn :])
    cj, bj = p["cond_jaxpr"], p["body_jaxpr"]
    for _ in range(100000):
        (c,) = eval_jaxpr(cj.jaxpr, cj.consts, cc + st)
        if not _conc(c):
            from .sym import fork

            c = fork(asobj(c).item())
        else:
            c = bool(np.asarray(demote(asobj(c))))
        if not c:
            return st
        st = eval_jaxpr(bj.jaxpr, bj.consts, bc + st)
    raise SymError("while loop bound")


# ------------------------------------------------------------------ lifting of functions
class _Hole:
    pass


def _is_leaf(x):
    return isinstance(x, (Sym, np.ndarray)) or (isinstance(x, list) and has_sym(x))


def _sample_like(x):
    """Abstract placeholder for a symbolic leaf."""
    if isinstance(x, Sym):
        x = asobj(x)
    a = asobj(x)
    kinds = set()
    for e in a.ravel().tolist():
        if isinstance(e, Sym):
            kinds.add("b" if e.t.isbool else ("i" if e.t.isint else "f"))
        elif isinstance(e, (bool, np.bool_)):
            kinds.add("b")
        elif isinstance(e, (int, np.integer)):
            kinds.add("i")
        else:
            kinds.add("f")
    dt = np.bool_ if kinds == {"b"} else (np.int64 if kinds and kinds <= {"b", "i"} else np.float64)
    return jax.ShapeDtypeStruct(a.shape, dt)


_trace_cache = {}
TRACED = {}  # (function name, shapes) -> number of equations


def count_eqns(jaxpr):
    n = 0
    for e in jaxpr.eqns:
        n += 1
        for v in e.params.values():
            for w in v if isinstance(v, (tuple, list)) else (v,):
                j = getattr(w, "jaxpr", w)
                if hasattr(j, "eqns"):
                    n += count_eqns(j)
    return n


def captured(fn):
    """Symbolic values a function captured -> (values, rebuild) or None."""
    if isinstance(fn, functools.partial):
        inner = captured(fn.func)
        if inner is None and not any_symbolic(fn.args) and not any_symbolic(fn.keywords):
            return None
        vals, mk = inner or (None, lambda v, f=fn.func: f)
        return (vals, fn.args, fn.keywords), lambda v: functools.partial(mk(v[0]), *v[1], **v[2])
    if not isinstance(fn, types.FunctionType) or not fn.__closure__ or not str(fn.__module__).startswith("soepy."):
        return None
    slots = {}
    for i, cell in enumerate(fn.__closure__):
        try:
            v = cell.cell_contents
        except ValueError:
            continue
        if any_symbolic(v):
            slots[i] = (v, lambda x: x)
        elif callable(v) and v is not fn:
            sub = captured(v)
            if sub is not None:
                slots[i] = sub
    if not slots:
        return None

    def rebuild(vals):
        cells = tuple(types.CellType(slots[i][1](vals[i])) if i in slots else c for i, c in enumerate(fn.__closure__))
        g = types.FunctionType(fn.__code__, fn.__globals__, fn.__name__, fn.__defaults__, cells)
        g.__kwdefaults__ = fn.__kwdefaults__
        return g

    return {i: v for i, (v, _) in slots.items()}, rebuild


_memo = {}


def _key(x, refs, depth=0):
    """Structural key of a value (functions by code and captured values, other objects by identity)."""
    if isinstance(x, Sym):
        return ("s", x.t.id)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("o", x.shape, tuple(_key(e, refs, depth + 1) for e in x.ravel().tolist()))
        return ("a", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (bool, int, float, complex, str, bytes, type(None))):
        return (type(x).__name__, repr(x))
    if isinstance(x, np.generic):
        return ("g", str(x.dtype), repr(x.item()))
    if depth < 12:
        if isinstance(x, tuple) and hasattr(x, "_fields"):
            return ("nt", x._fields, tuple(_key(e, refs, depth + 1) for e in x))
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, tuple(_key(e, refs, depth + 1) for e in x))
        if isinstance(x, dict):
            return ("d", tuple((_key(k, refs, depth + 1), _key(v, refs, depth + 1)) for k, v in x.items()))
        if isinstance(x, functools.partial):
            return ("p", _key((x.func, x.args, x.keywords), refs, depth + 1))
        if isinstance(x, types.FunctionType) and x.__module__ and str(x.__module__).startswith("soepy."):
            cells = []
            for c in x.__closure__ or ():
                try:
                    cells.append(_key(c.cell_contents, refs, depth + 1))
                except ValueError:
                    cells.append("empty")
            return ("f", x.__module__, x.__code__, _key((x.__defaults__, x.__kwdefaults__), refs, depth + 1), tuple(cells))
        if isinstance(x, jax.Array) and not isinstance(x, jax.core.Tracer):
            return _key(np.asarray(x), refs, depth + 1)
    refs.append(x)
    return ("id", id(x))


def _fresh(r):
    return jax.tree_util.tree_map(lambda x: x.copy() if isinstance(x, np.ndarray) else x, r, is_leaf=_is_leaf)


def memo(what, thunk):
    """Result of a pure computation, remembered for the current case."""
    refs = []
    key = _key(what, refs)
    if key not in _memo:
        _memo[key] = (thunk(), refs)
    return _fresh(_memo[key][0])


def call(fn, args, kwargs, name=None):
    return memo((fn, args, kwargs), lambda: _call(fn, args, kwargs, name))


def _call(fn, args, kwargs, name=None):
    """Call a JAX function with symbolic leaves: trace it, then execute the jaxpr."""
    cap = captured(fn)
    if cap is not None:
        vals, rebuild = cap
        return _call(lambda v, a, k: rebuild(v)(*a, **k), (vals, args, kwargs), {}, name or getattr(fn, "__qualname__", str(fn)))
    flat, tree = jax.tree_util.tree_flatten((args, kwargs), is_leaf=_is_leaf)
    symb = []
    for i, l in enumerate(flat):
        if isinstance(l, list):
            l = flat[i] = arr(l)
        if isinstance(l, np.ndarray) and l.dtype == object:
            d = demote(l)
            if d.dtype != object:
                flat[i] = d.view(np.ndarray)
                continue
            symb.append(i)
        elif isinstance(l, Sym):
            if l.t.op in ("c", "b"):
                flat[i] = demote(asobj(l)).item()
            else:
                symb.append(i)
        elif isinstance(l, SymArray):
            flat[i] = l.view(np.ndarray)
    if not symb:
        args, kwargs = jax.tree_util.tree_unflatten(tree, flat)
        r = fn(*args, **kwargs)
        return jax.tree_util.tree_map(_np, r)

    store = {}

    def inner(*leaves):
        f2 = list(flat)
        for i, l in zip(symb, leaves):
            f2[i] = l
        a, k = jax.tree_util.tree_unflatten(tree, f2)
        r = fn(*a, **k)
        fl, t = jax.tree_util.tree_flatten(r)
        store["tree"] = t
        return fl

    cj = jax.make_jaxpr(inner)(*[_sample_like(flat[i]) for i in symb])
    STATS["traces"] += 1
    nm = name or getattr(fn, "__qualname__", str(fn))
    TRACED[nm] = max(TRACED.get(nm, 0), count_eqns(cj.jaxpr))
    vals = [asobj(flat[i]).view(SymArray) for i in symb]
    res = eval_jaxpr(cj.jaxpr, cj.consts, vals)
    res = [_fin(r) for r in res]
    return jax.tree_util.tree_unflatten(store["tree"], res)


def _fin(r):
    if isinstance(r, np.ndarray) and r.dtype == object and r.ndim > 0:
        return r.view(SymArray)
    if isinstance(r, np.ndarray) and r.dtype == object:
        return r.item()
    if isinstance(r, np.ndarray) and r.ndim > 0:
        return r.view(SymArray)
    return r


def lifted(fn, name=None):
    """Wrapper: symbolic arguments -> trace and execute, otherwise call directly."""

    def g(*args, **kwargs):
        if any_symbolic((args, kwargs)):
            return call(fn, args, kwargs, name)
        return fn(*args, **kwargs)

    g.__wrapped__ = fn
    g.__name__ = getattr(fn, "__name__", "lifted")
    return g


def any_symbolic(x, depth=8):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if depth and isinstance(x, (list, tuple)):
        return any(any_symbolic(e, depth - 1) for e in x)
    if depth and isinstance(x, dict):
        return any(any_symbolic(e, depth - 1) for e in x.values())
    return False


def any_tracer(x):
    if isinstance(x, jax.core.Tracer):
        return True
    if isinstance(x, (list, tuple)):
        return any(any_tracer(e) for e in x)
    if isinstance(x, dict):
        return any(any_tracer(e) for e in x.values())
    return False
