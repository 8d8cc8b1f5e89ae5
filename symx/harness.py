"""Harness contexts, path exploration, discharge, replay and evidence."""
from __future__ import annotations

import json
import math
import os
import signal
import sys
import threading
import time
import traceback

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

from . import jaxpr as jx  # noqa: E402
from . import smt  # noqa: E402
from .smt import z3  # noqa: E402
from . import sym as sy  # noqa: E402
from . import term as tm  # noqa: E402
from .sym import Explorer, PathAbort, Sym, SymArray, SymError, arr, asobj, has_sym, wrap  # noqa: E402

TOL = 1e-8


class AssumptionFailed(Exception):
    pass


class TimeUp(BaseException):
    pass


class limit:
    """Raise TimeUp in the main thread after some seconds (repeatedly, until the block is left)."""

    def __init__(self, seconds):
        self.seconds = max(1.0, seconds)

    def __enter__(self):
        def fire(*a):
            if self.on:
                raise TimeUp()
        self.on = True
        self.main = threading.current_thread() is threading.main_thread()
        if self.main:
            self.old = signal.signal(signal.SIGALRM, fire)
            signal.setitimer(signal.ITIMER_REAL, self.seconds, 5)

    def __exit__(self, *a):
        self.on = False
        if self.main:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)


class Case:
    def __init__(self, name, fn, tier="quick", timeout=20, max_paths=4000, ineq=False, modes=("lin", "nl"),
                 bounds=None, samples=24, validate=6, pandas=True, budget=90, patch=True, merge=False):
        self.name, self.fn, self.tier = name, fn, tier
        self.timeout, self.max_paths, self.ineq, self.modes = timeout, max_paths, ineq, modes
        self.bounds = bounds or {}
        self.samples, self.validate, self.pandas, self.budget = samples, validate, pandas, budget
        self.patch = patch
        self.merge = merge  # symbolic table indices become case distinctions in values instead of forks


class Var:
    __slots__ = ("name", "lo", "hi", "tlo", "thi", "kind", "defn")

    def __init__(self, name, lo, hi, tlo, thi, kind, defn=None):
        self.name, self.lo, self.hi, self.tlo, self.thi, self.kind = name, lo, hi, tlo, thi, kind
        self.defn = defn  # kind "let": the named term


class Ob:
    """One obligation: label, kind eq|le|claim, terms (symbolic) or values (concrete)."""

    __slots__ = ("label", "kind", "got", "want", "tol", "known", "npc", "ineq", "modes")

    def __init__(self, label, kind, got, want, tol, known=None, npc=0, ineq=None, modes=None):
        self.label, self.kind, self.got, self.want, self.tol, self.known = label, kind, got, want, tol, known
        self.npc, self.ineq, self.modes = npc, ineq, modes


class Ctx:
    """Context handed to a harness.  mode 'sym' or 'conc'."""

    def __init__(self, mode, case, values=None, known=()):
        self.mode, self.case = mode, case
        self.values = values or {}
        self.known_ids = set(known)
        self.begin()

    def begin(self):
        self.vars = {}
        self.obs = []
        self.choices = {}
        self.covers = set()
        self.notes = {}
        self.stack = []
        self.facts = set()

    @property
    def sym(self):
        return self.mode == "sym"

    # ------------------------------------------------------------ inputs
    def real(self, name, lo=None, hi=None, typ=None, lo_strict=False):
        """Arbitrary real in [lo, hi]; typ = range for sampling."""
        if typ is None:
            typ = (lo if lo is not None else -2.0, hi if hi is not None else (2.0 if lo is None else lo + 4.0))
        self.vars[name] = Var(name, lo, hi, typ[0], typ[1], "real")
        if self.mode == "conc":
            v = float(self.values.get(name, 0.5 * (typ[0] + typ[1])))
            if lo is not None and v < lo or hi is not None and v > hi or (lo_strict and v < lo + 1e-6):
                raise AssumptionFailed(name)
            return v
        pos = lo is not None and (lo > 0 or (lo >= 0 and lo_strict))
        t = tm.var(name, pos=pos, nn=lo is not None and lo >= 0)
        E = Explorer.cur
        if lo is not None:
            if lo_strict:
                E.assume(Sym(tm.lt(tm.const(lo), t)))
            elif lo != 0:
                E.assume(Sym(tm.le(tm.const(lo), t)))
        if hi is not None:
            E.assume(Sym(tm.le(t, tm.const(hi))))
        return Sym(t)

    def positive(self, name, typ=(0.3, 3.0), hi=None):
        return self.real(name, lo=0, hi=hi, typ=typ, lo_strict=True)

    def vec(self, name, n, lo=None, hi=None, typ=None, lo_strict=False):
        return self.array([self.real("%s[%d]" % (name, i), lo, hi, typ, lo_strict) for i in range(n)])

    def mat(self, name, shape, lo=None, hi=None, typ=None, lo_strict=False):
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            o[ix] = self.real("%s[%s]" % (name, ",".join(map(str, ix))), lo, hi, typ, lo_strict)
        return self.array(o)

    def array(self, x):
        if self.mode == "conc":
            return np.array(x, dtype=float)
        o = asobj(x) if isinstance(x, np.ndarray) else arr(x)
        return o.view(SymArray)

    def iarray(self, x):
        return np.array(x, dtype=int)

    def choice(self, name, values):
        """One of finitely many concrete values (all explored)."""
        values = list(values)
        if self.mode == "conc":
            i = self.values.get("#" + name, 0)
        else:
            i = Explorer.cur.choose(len(values))
        self.choices["#" + name] = i
        return values[i]

    def integer(self, name, lo, hi):
        return self.choice(name, range(lo, hi + 1))

    def intvar(self, name, lo, hi):
        """Symbolic integer in [lo, hi] (not forked)."""
        self.vars[name] = Var(name, lo, hi, lo, hi, "int")
        if self.mode == "conc":
            return int(round(self.values.get(name, lo)))
        sy.INT_RANGES[name] = (lo, hi)
        t = tm.var(name, pos=lo > 0, nn=lo >= 0, isint=True)
        Explorer.cur.assume(Sym(tm.le(tm.const(lo), t)))
        Explorer.cur.assume(Sym(tm.le(t, tm.const(hi))))
        return Sym(t)

    def let(self, name, x, pos=False, nn=False, isint=False):
        """Name a value: symbolically a variable assumed equal to it."""
        if self.mode == "conc" or not isinstance(x, Sym):
            return x
        t = tm.var(name, pos=pos, nn=nn, isint=isint)
        self.vars[name] = Var(name, None, None, 0.0, 1.0, "let", x.t)
        Explorer.cur.assume(Sym(tm.eq(t, x.t)))
        return Sym(t)

    def boolean(self, name):
        return self.choice(name, [False, True])

    def grid(self, name, n, lo=0.0, hi=1.0, ends=False, scale=1.0):
        """Strictly increasing grid of n points (lo=None: free start)."""
        steps = [self.real("%s.d%d" % (name, i), lo=1e-6, typ=(0.1 * scale, scale)) for i in range(n - 1)]
        g = [self.real(name + ".0", lo=lo, hi=hi, typ=(lo or 0.0, (lo or 0.0) + 0.3 * scale)) if not ends else lo]
        for s in steps:
            g.append(g[-1] + s)
        return self.array(g)

    def assume(self, b):
        if self.mode == "conc":
            if isinstance(b, np.ndarray):
                b = b.all()
            if not b:
                raise AssumptionFailed("assume")
            return
        if isinstance(b, np.ndarray):
            for e in asobj(b).ravel().tolist():
                Explorer.cur.assume(e)
            return
        Explorer.cur.assume(b)

    def at_least(self, x, bound):
        """Assume x >= bound and let floors below the bound vanish from terms (declare before
        anything that depends on the path)."""
        self.assume(x >= bound)
        if isinstance(x, Sym) and x.t.op != "c":
            self.facts.add(x.t.id)
            tm.FACTS[x.t.id] = max(tm.FACTS.get(x.t.id, tm.tofrac(bound)), tm.tofrac(bound))

    # ------------------------------------------------------------ running code
    def call(self, fn, *args, **kwargs):
        """Execute a JAX function of the code under test."""
        fn = getattr(fn, "__wrapped_real__", fn)

        def dev(x):
            # arrays arrive as JAX arrays, as they do from the model's own callers
            return jx.jnp.asarray(x) if type(x) is np.ndarray and x.dtype != object else x
        args, kwargs = tuple(dev(a) for a in args), {n: dev(a) for n, a in kwargs.items()}
        if self.mode == "sym":
            return jx.call(fn, args, kwargs, name=getattr(fn, "__module__", "?") + "." + getattr(fn, "__name__", "?"))
        r = fn(*args, **kwargs)
        import jax

        return jax.tree_util.tree_map(lambda x: np.asarray(x) if hasattr(x, "shape") else x, r)

    # ------------------------------------------------------------ obligations
    def _add(self, label, kind, got, want, tol, known=None, ineq=None, modes=None):
        npc = len(Explorer.cur.pc) if self.mode == "sym" else 0
        self.obs.append(Ob(label, kind, got, want, tol, known, npc, ineq, modes))

    def eq(self, label, got, want, tol=TOL, known=None, ineq=None, modes=None):
        g, w = _flat(got), _flat(want)
        kn = _flat(known[1]) if known else None
        gs, ws = _shape(got), _shape(want)
        if gs != ws and ws != () and gs != ():
            self._add(label + ".shape", "claim", False, None, 0)
            self.notes[label + ".shape"] = "%s != %s" % (gs, ws)
            return
        n = max(len(g), len(w))
        if len(g) == 1:
            g = g * n
        if len(w) == 1:
            w = w * n
        for i in range(n):
            l = label if n == 1 else "%s[%s]" % (label, ",".join(map(str, np.unravel_index(i, gs or ws))))
            k = (known[0], kn[i if len(kn) > 1 else 0]) if known else None
            self._add(l, "eq", g[i], w[i], tol, k, ineq, modes)

    def le(self, label, a, b, tol=1e-7, ineq=True, modes=None):
        g, w = _flat(a), _flat(b)
        n = max(len(g), len(w))
        g = g * n if len(g) == 1 else g
        w = w * n if len(w) == 1 else w
        for i in range(n):
            self._add(label if n == 1 else "%s[%d]" % (label, i), "le", g[i], w[i], tol, None, ineq, modes)

    def claim(self, label, b, known=None, ineq=None, modes=None):
        if isinstance(b, np.ndarray):
            for i, e in enumerate(_flat(b)):
                self._add("%s[%d]" % (label, i), "claim", e, None, 0, None, ineq, modes)
            return
        self._add(label, "claim", b, None, 0, known, ineq, modes)

    def same(self, label, got, want):
        """Equality of concrete (non-numeric) data."""
        ok = bool(got == want)
        if not ok:
            self.notes[label] = "got %r want %r" % (got, want)
        self._add(label, "claim", ok, None, 0)

    def raises(self, label, f, exc=Exception):
        try:
            f()
        except (SymError, PathAbort, AssumptionFailed):
            raise
        except exc:
            self._add(label, "claim", True, None, 0)
            return
        self.notes[label] = "no exception"
        self._add(label, "claim", False, None, 0)

    def cover(self, label):
        self.covers.add(label)


def _shape(x):
    if isinstance(x, (pd.Series, pd.DataFrame)):
        x = x.to_numpy()
    if isinstance(x, (list, tuple)):
        x = asobj(arr(list(x)))
    return getattr(x, "shape", ())


def _flat(x):
    if isinstance(x, (pd.Series, pd.DataFrame)):
        x = x.to_numpy()
    if isinstance(x, Sym):
        return [x]
    if isinstance(x, (list, tuple)):
        x = arr(list(x))
    if hasattr(x, "shape") and not isinstance(x, (np.generic,)):
        if not isinstance(x, np.ndarray):
            x = np.asarray(x)
        return x.view(np.ndarray).ravel().tolist()
    return [x]


# ------------------------------------------------------------------ sampling
SPECIAL = [0.0, 0.25, 0.5, 1.0, 2.0, 3.0]


def _draw(vars_, n, rng, special=False):
    env = {}
    for v in vars_.values():
        if v.kind == "int":
            env[v.name] = rng.integers(v.lo, v.hi + 1, n).astype(float)
            continue
        if v.kind == "let":
            env[v.name] = np.broadcast_to(tm.evaluate([v.defn], env, n)[0], (n,))
            continue
        x = rng.uniform(v.tlo, v.thi, n)
        if special == "wide":
            x = v.tlo + (v.thi - v.tlo) * (rng.standard_cauchy(n) * 0.5 + 0.5)
        elif special:
            m = rng.random(n) < 0.5
            x = np.where(m, rng.choice(SPECIAL, n), np.round(x * 4) / 4)
        if v.lo is not None:
            x = np.maximum(x, v.lo)
        if v.hi is not None:
            x = np.minimum(x, v.hi)
        env[v.name] = x
    return env


def _holds(ts, env, n):
    with np.errstate(all="ignore"):
        try:
            vals = tm.evaluate(ts, env, n)
        except KeyError:
            return np.zeros(n, bool)
    ok = np.ones(n, bool)
    for v in vals:
        ok &= np.broadcast_to(np.asarray(v, bool), (n,))
    return ok


def sample(vars_, pc, k, seed=1, timeout=5, special=False):
    """Up to k assignments satisfying pc -> list of dicts."""
    rng = np.random.default_rng(seed)
    if not vars_:
        return [{}]
    out, names = [], list(vars_)
    plan = [False, False, True, "wide"] if not special else [True, "wide", True]
    for sp in plan:
        n = 2000
        env = _draw(vars_, n, rng, sp)
        ok = np.nonzero(_holds(pc, env, n))[0]
        for i in ok[: k - len(out)]:
            out.append({m: float(env[m][i]) for m in names})
        if len(out) >= k:
            return out
    if not out:
        # solver model, then perturbations of it
        for mode in ("lin", "nl"):
            r, m = smt.query(pc, tm.TRUE, mode, timeout)
            if r == "unsat":
                return []
            if m is None:
                continue
            base = _draw(vars_, 1, rng)
            a = {v: (m.get(v, base[v][0])) for v in names}
            env = {x: np.full(64, y) for x, y in a.items()}
            jitter = _draw(vars_, 64, rng)
            for x in names:
                mask = rng.random(64) < 0.5
                mask[0] = False
                env[x] = np.where(mask, jitter[x], env[x])
            for v in vars_.values():
                if v.kind == "let":
                    env[v.name] = np.broadcast_to(tm.evaluate([v.defn], env, 64)[0], (64,))
            ok = np.nonzero(_holds(pc, env, 64))[0]
            for i in ok[: k]:
                out.append({x: float(env[x][i]) for x in names})
            if out:
                break
    return out


# ------------------------------------------------------------------ obligations
def ob_term(ob):
    """Symbolic goal of an obligation."""
    if ob.kind == "eq":
        g, w = sy.lift(ob.got), sy.lift(ob.want)
        return tm.eq(tm.toreal(g), tm.toreal(w))
    if ob.kind == "le":
        return tm.le(tm.toreal(sy.lift(ob.got)), tm.add(tm.toreal(sy.lift(ob.want)), tm.const(ob.tol)))
    return tm.tobool(sy.lift(ob.got))


def _isnan(x):
    try:
        return bool(np.isnan(x))
    except TypeError:
        return False


def ob_holds(ob):
    """Concrete truth of an obligation -> (bool, detail)."""
    if ob.kind == "claim":
        return bool(ob.got), "claim is %r" % (ob.got,)
    g, w = float(ob.got), float(ob.want)
    if math.isnan(g) or math.isnan(w):
        return math.isnan(g) and math.isnan(w) and ob.kind == "eq", "got %r expected %r" % (g, w)
    if math.isinf(g) or math.isinf(w):
        return (g == w) if ob.kind == "eq" else g <= w, "got %r expected %r" % (g, w)
    s = ob.tol * (1.0 + max(abs(g), abs(w)))
    if ob.kind == "eq":
        return abs(g - w) <= s, "got %.12g expected %.12g" % (g, w)
    return g <= w + s, "%.12g is not <= %.12g" % (g, w)


def matches_known(ob):
    """Concrete: the value is exactly the recorded deviating behaviour."""
    if ob.known is None:
        return False
    g, k = float(ob.got), float(ob.known[1])
    return abs(g - k) <= ob.tol * (1.0 + max(abs(g), abs(k)))


def from_code(e):
    """Was the exception raised below a frame of the code under test (and not by the harness)?"""
    deepest = None
    for f in traceback.extract_tb(e.__traceback__):
        fn = f.filename.replace("\\", "/")
        if "/soepy/" in fn and "/verif/" not in fn:
            deepest = "code"
        elif "/verif/checks/" in fn:
            deepest = "harness"
    return deepest == "code"


def run_concrete(case, values, known=()):
    """Run a harness on the real code with concrete inputs.

    -> ('ok'|'violated'|'infeasible'|'raised', ctx, details)"""
    ctx = Ctx("conc", case, values, known)
    saved = np.random.get_state()
    try:
        with np.errstate(all="ignore"):
            case.fn(ctx)
    except AssumptionFailed:
        return "infeasible", ctx, []
    except Exception as e:  # noqa: BLE001
        det = ["%s: %s" % (type(e).__name__, str(e)[:300]), traceback.format_exc()[-1500:]]
        if from_code(e):
            return "raised", ctx, det
        # the harness stumbled: over something it had already reported?
        bad = _violations(ctx)
        return ("violated", ctx, bad) if any(x[2] is None for x in bad) else ("interface", ctx, det)
    finally:
        np.random.set_state(saved)
    bad = _violations(ctx)
    return ("violated" if bad else "ok"), ctx, bad


def _violations(ctx):
    bad = []
    for ob in ctx.obs:
        ok, d = ob_holds(ob)
        if not ok:
            kn = ob.known[0] if ob.known is not None and ob.known[0] in ctx.known_ids and matches_known(ob) else None
            bad.append((ob.label, d + ("; " + ctx.notes[ob.label] if ob.label in ctx.notes else ""), kn))
    return bad


class Result:
    def __init__(self, case):
        self.case = case
        self.paths = 0
        self.obligations = 0
        self.canonical = 0
        self.solver = 0
        self.within_slack = 0
        self.reduced = []  # (label, why)
        self.candidates = []  # (label, values, detail)
        self.known = {}  # finding id -> (label, values, detail)
        self.error = None
        self.tb = None
        self.interface = None
        self.wall = 0.0
        self.exec_s = 0.0
        self.validated = 0
        self.validation_mismatch = []
        self.covers = set()
        self.vacuous_paths = 0
        self.witnesses = 0
        self.pruned = 0
        self.maxterm = 0
        self.sample = None
        self.rounding = []  # labels whose concrete deviation is float rounding of an exact equality


def _values(ctx, asg):
    v = dict(ctx.choices)
    v.update(asg)
    return v


def run_case(case, known=(), seed=1, log=lambda s: None, deadline=None):
    """Symbolic execution of one case."""
    from . import proxies

    tm.reset()
    sy.INT_RANGES.clear()
    smt._feas.clear()
    jx._memo.clear()
    sy.MERGE[0] = case.merge
    res = Result(case.name)
    ctx = Ctx("sym", case, known=known)
    t0 = time.time()
    left = 1e6 if deadline is None else max(5.0, deadline - t0)
    ex = Explorer(max_paths=case.max_paths, feasible=lambda pc, b: smt.feasible(pc, b), deadline=t0 + 0.5 * left)
    paths = []

    def body():
        ctx.begin()
        try:
            case.fn(ctx)
            if ctx.facts != set(tm.FACTS):
                raise SymError("assumed lower bounds differ between paths")
        except (SymError, PathAbort, AssumptionFailed):
            raise
        except Exception as e:  # noqa: BLE001
            return ("exc", e, traceback.format_exc(), dict(ctx.vars), dict(ctx.choices), set(ctx.covers), list(ctx.obs), dict(ctx.notes))
        return ("ok", None, None, dict(ctx.vars), dict(ctx.choices), set(ctx.covers), list(ctx.obs), dict(ctx.notes))

    saved = np.random.get_state()
    try:
        with proxies.installed(pandas=case.pandas), np.errstate(all="ignore"), limit(0.6 * left):
            for r, pc in ex.run(body):
                paths.append((r, pc))
    except TimeUp:
        res.error = "encoding: time bound of the path exploration exceeded"
    except SymError as e:
        res.error = "encoding: %s" % e
        res.tb = traceback.format_exc()
    finally:
        np.random.set_state(saved)
    res.pruned = ex.n_pruned
    res.exec_s = time.time() - t0
    log("  %s: %d paths in %.1fs, %d terms" % (case.name, len(paths), time.time() - t0, tm.n_nodes()))
    try:
        with limit(left - (time.time() - t0) + 60):
            _decide(case, ctx, res, paths, known, seed, deadline)
    except TimeUp:
        res.reduced.append(("*", "time budget of the case used up", 0))
    res.maxterm = tm.n_nodes()
    if not paths and res.error is None:
        res.error = "no feasible path"
    if res.error is not None:
        try:
            with limit(40 if left > 20 else 10):
                _fallback(case, res, known, seed, 30 if left > 20 else 8)
        except TimeUp:
            pass
    res.wall = time.time() - t0
    return res


def _decide(case, ctx, res, paths, known, seed, deadline):
    ndet = 0
    for pi, (r, pc) in enumerate(paths):
        kind, exc, tb, vars_, choices, covers, obs, notes = r
        ctx.choices, ctx.vars, ctx.notes = choices, vars_, notes
        samples = None

        def get_samples(n=case.samples):
            nonlocal samples
            if samples is None:
                samples = sample(vars_, pc, n, seed + pi)
            return samples

        res.paths += 1
        if kind == "exc":
            ss = get_samples()
            if not ss:
                continue  # infeasible path
            hit, shown = None, False
            for s in ss[:4]:
                st, c2, det = run_concrete(case, _values(ctx, s), known)
                if st == "raised":
                    hit = (s, det)
                    break
                if st == "violated":
                    hit = None
                    new = [(l, _values(ctx, s), d) for l, d, kn in det if kn is None]
                    res.candidates += new
                    shown = bool(new)
                    break
                if st == "interface" and res.error is None:
                    res.error = "interface: " + det[0]
                    res.tb = det[1]
            if hit:
                res.candidates.append(("exception", _values(ctx, hit[0]), hit[1][0]))
            elif res.error is None and not shown:
                res.error = "encoding: %s: %s" % (type(exc).__name__, str(exc)[:200])
                res.tb = tb
            continue
        res.covers |= covers
        pend, canon = [], []
        for ob in obs:
            res.obligations += 1
            try:
                t = ob_term(ob)
            except (SymError, ValueError, TypeError) as e:
                if ob.kind == "eq" and _isnan(ob.got) and _isnan(ob.want):
                    res.canonical += 1
                    continue
                pend.append((ob, tm.FALSE))
                continue
            if t is tm.TRUE:
                res.canonical += 1
                canon.append(ob)
            else:
                pend.append((ob, t))
        if canon and not smt.confirm(canon, pc):
            res.error = res.error or "encoding: the solver rejects an equality of canonical forms"
        # encoding validation against the real code (also the reachability witness)
        if ndet < case.validate or (pi % max(1, len(paths) // max(1, case.validate)) == 0 and ndet < 4 * case.validate):
            ss = get_samples()
            if not ss:
                res.vacuous_paths += 1
            for s in ss[:1]:
                ndet += 1
                st, c2, det = run_concrete(case, _values(ctx, s), known)
                if st in ("raised",):
                    res.candidates.append(("exception", _values(ctx, s), det[0]))
                elif st == "violated":
                    for l, d, kn in _concrete_new(res, obs, c2, det, s):
                        res.candidates.append((l, _values(ctx, s), d))
                if st in ("ok", "violated"):
                    res.witnesses += 1
                    _validate(res, obs, c2.obs, s, ctx)
                    if res.sample is None:
                        res.sample = {k: v for k, v in list(_values(ctx, s).items())[:12]}
        if not pend:
            continue
        simp = smt.PathSimplifier(pc) if len(paths) > 1 else None
        if simp is None:
            pend = _joint_sweep(case, res, pend, pc, get_samples(), vars_, deadline)
        for ob, t in pend:
            if len(res.candidates) >= 12:
                break
            if simp is not None and t is not tm.FALSE:
                try:
                    t2 = simp(t)
                except z3.Z3Exception:
                    t2 = t
                if t2 is tm.TRUE:
                    res.solver += 1
                    continue
                if ob.kind == "eq" and t2 is not tm.FALSE:
                    ob = Ob(ob.label, ob.kind, wrap(simp(tm.toreal(sy.lift(ob.got)))),
                            wrap(simp(tm.toreal(sy.lift(ob.want)))), ob.tol, ob.known, ob.npc, ob.ineq, ob.modes)
                    t = ob_term(ob)
                    if t is tm.TRUE:
                        res.solver += 1
                        continue
                elif t2 is not tm.FALSE:
                    t = t2
            _discharge(case, ctx, res, obs, ob, t, pc, get_samples, vars_, known, deadline)


def _validate(res, sobs, cobs, s, ctx):
    if len(sobs) != len(cobs):
        res.validation_mismatch.append("different obligation lists on %r" % (_values(ctx, s),))
        return
    env = {k: np.array([v]) for k, v in s.items()}
    roots, idx = [], []
    for i, (a, b) in enumerate(zip(sobs, cobs)):
        if a.kind == "claim":
            continue
        try:
            roots.append(tm.toreal(sy.lift(a.got)))
            idx.append(i)
        except (SymError, ValueError):
            continue
    with np.errstate(all="ignore"):
        try:
            vals = tm.evaluate(roots, env, 1)
        except KeyError:
            return
    for v, i in zip(vals, idx):
        g = float(cobs[i].got)
        v = float(np.asarray(v).reshape(-1)[0])
        if math.isnan(g) and math.isnan(v):
            continue
        if not abs(g - v) <= 1e-6 * (1 + max(abs(g), abs(v))) and not (g == v):
            res.validation_mismatch.append("%s: symbolic %.12g, real code %.12g at %r" % (sobs[i].label, v, g, _values(ctx, s)))
            if len(res.validation_mismatch) > 5:
                return
        else:
            res.validated += 1


def _joint_sweep(case, res, pend, pc, ss, vars_, deadline):
    """Merge equal subterms of all pending equalities of a path at once."""
    eqs = [(ob, t) for ob, t in pend if ob.kind == "eq" and t is not tm.FALSE and ob.known is None]
    if len(eqs) < 2 or not ss:
        return pend
    env = {k: np.array([s[k] for s in ss]) for k in vars_}
    gs = [tm.toreal(sy.lift(ob.got)) for ob, _ in eqs]
    ws = [tm.toreal(sy.lift(ob.want)) for ob, _ in eqs]
    budget = case.budget
    if deadline is not None:
        budget = min(budget, max(0.0, (deadline - time.time()) / 2))
    ns = smt.sweep(gs, ws, pc, env, len(ss), budget=budget)
    new = {}
    for (ob, t), g, n in zip(eqs, gs, ns):
        if n is not g:
            o = Ob(ob.label, ob.kind, wrap(n), ob.want, ob.tol, ob.known, ob.npc, ob.ineq, ob.modes)
            new[id(ob)] = (o, ob_term(o))
    out = []
    for ob, t in pend:
        o, t2 = new.get(id(ob), (ob, t))
        if t2 is tm.TRUE:
            res.solver += 1
        else:
            out.append((o, t2))
    return out


def _rounding(res, ob, values, cob=None):
    """Does the (in)equality hold in exact arithmetic at this point, the float result being close to it?"""
    if ob is None or ob.kind not in ("eq", "le"):
        return False
    try:
        ts = [tm.toreal(sy.lift(ob.got)), tm.toreal(sy.lift(ob.want))]
        g, w = tm.evaluate_mp(ts, values)
    except (SymError, ValueError, TypeError):
        return False
    if g is None or w is None:
        return False
    s = 1e-9 * (1 + max(abs(g), abs(w)))
    if not (abs(g - w) <= s if ob.kind == "eq" else g <= w + s):
        return False
    if cob is not None:
        c = float(cob.got)
        if not math.isfinite(c) or abs(c - g) > 1e-3 * (1 + abs(g)):
            return False
    res.rounding.append(ob.label)
    return True


def _concrete_new(res, obs, c2, det, values):
    """Violations of a concrete run that are neither listed findings nor rounding."""
    by = {o.label: o for o in obs}
    cy = {o.label: o for o in c2.obs}
    return [d for d in det if d[2] is None and not _rounding(res, by.get(d[0]), values, cy.get(d[0]))]


def _discharge(case, ctx, res, obs, ob, goal, pc, get_samples, vars_, known, deadline):
    ineq = case.ineq if ob.ineq is None else ob.ineq
    modes = ob.modes or case.modes
    ass = pc[: ob.npc] if ob.npc else pc
    ass = pc
    timeout = case.timeout
    late = deadline is not None and time.time() > deadline
    if late:
        timeout = 1

    def attempt(goal, got, want):
        if goal is tm.FALSE:
            return ("sat", None) if get_samples() else ("proved", None)
        if ob.kind == "eq":
            ss = get_samples()
            env = {k: np.array([s[k] for s in ss]) for k in vars_} if ss else None
            if env is not None:
                # a sample that refutes the equality saves the solver time
                vals = tm.evaluate([tm.toreal(sy.lift(got)), tm.toreal(sy.lift(want))], env, len(ss))
                a, b = np.broadcast_to(vals[0], (len(ss),)), np.broadcast_to(vals[1], (len(ss),))
                bad = ~(np.abs(a - b) <= 1e-6 * (1 + np.maximum(np.abs(a), np.abs(b))))
                if bad.any():
                    return "refuted", ss[int(np.nonzero(bad)[0][0])]
            g, w = tm.toreal(sy.lift(got)), tm.toreal(sy.lift(want))
            if late:
                return smt.prove(ass, goal, timeout=1, modes=("lin",))
            r = smt.prove_equal(g, w, ass, env, len(ss or ()), timeout=timeout,
                                budget=min(case.budget, max(1.0, (deadline or 1e18) - time.time())))
            if r[0] != "proved":
                # equal up to rounding of the literal constants
                d, e = tm.sub(g, w), tm.const(1e-7)
                r2 = smt.prove(ass, tm.and_(tm.le(d, e), tm.le(tm.neg(d), e)), timeout=timeout, modes=modes)
                if r2[0] == "proved":
                    res.within_slack += 1
                    return r2
            return r
        ss = get_samples()
        if ss:
            env = {k: np.array([s[k] for s in ss]) for k in vars_}
            ok = _holds([goal], env, len(ss))
            if not ok.all():
                # decide whether it is a refutation beyond tolerance by replay below
                return "refuted", ss[int(np.nonzero(~ok)[0][0])]
        if ob.kind == "le" and ineq == "mono" and not late and smt.leq(
                tm.toreal(sy.lift(got)), tm.toreal(sy.lift(want)), list(ass), timeout=timeout):
            return "proved", None
        return smt.prove(ass, goal, timeout=timeout, modes=modes, ineq=ineq)

    v, m = attempt(goal, ob.got, ob.want)
    if v == "proved":
        res.solver += 1
        return
    # a listed finding: the deviation must be exactly the recorded one
    if ob.known is not None and ob.known[0] in known:
        kg = tm.eq(tm.toreal(sy.lift(ob.got)), tm.toreal(sy.lift(ob.known[1])))
        vk = "proved" if kg is tm.TRUE else attempt(kg, ob.got, ob.known[1])[0]
        if vk == "proved":
            res.solver += 1
            if ob.known[0] not in res.known:
                for s in get_samples():
                    st, c2, det = run_concrete(case, _values(ctx, s), known)
                    hit = [d for d in det if st == "violated" and d[2] == ob.known[0]]
                    if hit:
                        res.known[ob.known[0]] = (hit[0][0], _values(ctx, s), hit[0][1])
                        break
            return
    # search for a concrete counterexample and replay it on the real code
    cands = []
    if v == "refuted":
        cands.append(m)
    elif m:
        cands.append(_complete(m, vars_, get_samples()))
    cands += get_samples()[:3]
    if late and v != "refuted":
        res.reduced.append((ob.label, "time budget of the case used up", len(get_samples())))
        return
    if v != "refuted":
        for sp_seed in (11, 12):
            cands += sample(vars_, list(ass) + [tm.not_(goal)], 3, sp_seed, special=True) if goal is not tm.FALSE else []
        if goal is not tm.FALSE:
            for mode in ("nl", "lin"):
                r, m2 = smt.query(smt.relevant(ass, goal), tm.not_(goal), mode, min(timeout, 10), ineq)
                if m2:
                    cands.append(_complete(m2, vars_, get_samples()))
            cands += _dyadic(ass, goal, vars_, get_samples(), ineq)
    tried = 0
    for s in cands:
        if s is None:
            continue
        tried += 1
        st, c2, det = run_concrete(case, _values(ctx, s), known)
        if st == "raised":
            res.candidates.append(("exception", _values(ctx, s), det[0]))
            return
        if st == "violated":
            new = _concrete_new(res, obs, c2, det, s)
            if new:
                same = [d for d in new if d[0] == ob.label] or new
                res.candidates.append((same[0][0], _values(ctx, s), same[0][1]))
                return
    # not proved, not reproduced
    why = "solver %s, %d candidate assignments did not reproduce" % (v, tried)
    ok = _reduced(ob, goal, ass, get_samples(), vars_, ineq)
    res.reduced.append((ob.label, why, ok))


def _complete(m, vars_, samples):
    base = samples[0] if samples else {v.name: 0.5 * (v.tlo + v.thi) for v in vars_.values()}
    out = {}
    for n, v in vars_.items():
        x = m.get(n, base[n])
        if v.lo is not None:
            x = max(x, v.lo)
        if v.hi is not None:
            x = min(x, v.hi)
        out[n] = x
    return out


def _dyadic(ass, goal, vars_, samples, ineq):
    """Counterexamples with small dyadic values, where float arithmetic is exact."""
    out = []
    try:
        lo = smt.Lower("nl", ineq=ineq)
        asserts = [lo(a) for a in smt.relevant(ass, goal)] + [lo(tm.not_(goal))]
        import z3

        for n, v in list(lo.varmap.items()):
            if z3.is_real(v):
                i = z3.Int("dy!" + n)
                asserts.append(v * 4 == z3.ToReal(i))
                asserts.append(z3.And(i >= -4000, i <= 4000))
        r, m, _ = smt._solve(lo, asserts, 5)
        if m:
            out.append(_complete(m, vars_, samples))
    except Exception:  # noqa: BLE001
        pass
    return out


def _reduced(ob, goal, ass, samples, vars_, ineq):
    """Decide the goal with all but two variables pinned to sample points; number of decided slices."""
    n = 0
    if goal is tm.FALSE:
        return 0
    names = list({v.args[0] for v in tm.free_vars([goal])})
    rng = np.random.default_rng(5)
    for s in samples[:4]:
        free = set(rng.choice(names, min(2, len(names)), replace=False)) if names else set()
        mp = {tm.VARS[x].id: tm.const(s[x]) for x in names if x not in free and x in tm.VARS and x in s}
        try:
            sub = tm.substitute([goal] + list(ass), mp)
        except Exception:  # noqa: BLE001
            break
        v, _ = smt.prove(sub[1:], sub[0], timeout=3, ineq=ineq)
        n += v == "proved"
    return n


def _fallback(case, res, known, seed, seconds=60):
    """The encoding failed: decide the obligations with the real inputs pinned to points (all choices
    explored), by running the code itself; the reduction is reported."""
    n = 0
    t0 = time.time()

    class Pin(Exception):
        pass

    rng = np.random.default_rng(seed)
    ex = Explorer(max_paths=400)

    class PinCtx(Ctx):
        def __init__(self):
            super().__init__("conc", case, {}, known)

        def choice(self, name, values):
            values = list(values)
            i = Explorer.cur.choose(len(values))
            self.choices["#" + name] = i
            self.values["#" + name] = i
            return values[i]

        def real(self, name, lo=None, hi=None, typ=None, lo_strict=False):
            if name not in self.values:
                t = typ or (lo if lo is not None else -2.0, hi if hi is not None else (2.0 if lo is None else lo + 4.0))
                self.values[name] = float(rng.uniform(*t))
            return super().real(name, lo, hi, typ, lo_strict)

        def intvar(self, name, lo, hi):
            if name not in self.values:
                self.values[name] = int(rng.integers(lo, hi + 1))
            return super().intvar(name, lo, hi)

    def body():
        for _ in range(40):
            c = PinCtx()
            pos, taken = Explorer.cur.pos, list(Explorer.cur.taken)
            try:
                case.fn(c)
                return "ok", c, None
            except AssumptionFailed:
                Explorer.cur.pos, Explorer.cur.taken = pos, taken
                continue
            except Exception as e:  # noqa: BLE001
                if not from_code(e) and any(x[2] is None for x in _violations(c)):
                    return "ok", c, None
                return ("raised" if from_code(e) else "interface"), c, e
        return "infeasible", c, None

    reps = 6
    saved = np.random.get_state()
    try:
        for rep in range(reps):
            try:
                for (st, c, e), _ in ex.run(body):
                    if st == "ok":
                        n += 1
                        for ob in c.obs:
                            ok, d = ob_holds(ob)
                            if not ok and not (ob.known and ob.known[0] in known and matches_known(ob)):
                                res.candidates.append((ob.label, dict(c.values), d))
                    elif st == "raised":
                        res.candidates.append(("exception", dict(c.values), repr(e)[:200]))
                    elif st == "interface":
                        res.interface = repr(e)[:300]
                        return
                    if len(res.candidates) > 5 or time.time() - t0 > seconds:
                        break
            except SymError:
                pass
            if time.time() - t0 > seconds:
                break
    finally:
        np.random.set_state(saved)
        if not res.interface:
            res.reduced.append(("*", res.error, n))
