"""Lowering of terms to z3, queries, SAT sweeping."""
from __future__ import annotations

import sys
import time
from fractions import Fraction

import numpy as np

_p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _p not in sys.path:
    sys.path.append(_p)
import z3  # noqa: E402

from . import term as tm  # noqa: E402

STATS = {
    "queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0, "feasibility_queries": 0,
    "sweep_queries": 0, "sweep_merges": 0, "cvc5_queries": 0, "cvc5_unsat": 0, "cvc5_other": 0,
}


def q(fr):
    return z3.RealVal(str(fr.numerator) + "/" + str(fr.denominator)) if fr.denominator != 1 else z3.RealVal(
        str(fr.numerator)
    )


class Lower:
    """mode 'lin': nonlinear monomials are opaque reals; mode 'nl': real products."""

    def __init__(self, mode="lin", axioms=True, ineq=False):
        # 'cut': as 'lin', and large comparisons are free Booleans, arguments of opaque terms are not lowered
        self.cut = mode == "cut"
        self.mode = "lin" if self.cut else mode
        self.memo = {}
        self.facts = []
        self.monos = {}
        self.ineq = ineq
        self.apps = {"exp": [], "log": [], "pow": [], "inv": []}
        self.invs = {}
        self.varmap = {}

    def _children(self, t):
        op = t.op
        if op in ("exp", "log", "pow", "fn", "inv", "prod"):
            return ()
        if op in ("le0", "lt0", "eq0") and _large(t):
            return ()
        if op == "poly":
            return [tm.node(m[0][0]) for m, _ in t.args if len(m) == 1 and m[0][1] == 1]
        return tm.children(t)

    def __call__(self, t):
        for n in tm.topo([t], self._children) if self.cut else tm.topo([t]):
            if n.id not in self.memo:
                self.memo[n.id] = self._one(n)
        return self.memo[t.id]

    def _sign(self, v, n):
        if n.pos:
            self.facts.append(v > 0)
        elif n.nn:
            self.facts.append(v >= 0)

    def _mono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.memo[m[0][0]]
        v = self.monos.get(m)
        if v is not None:
            return v
        if self.mode == "lin":
            v = z3.Real("m!%d" % len(self.monos))
            pos, nn = tm._mono_sign(m)
            if pos:
                self.facts.append(v > 0)
            elif nn:
                self.facts.append(v >= 0)
            if nn or pos or self.cut:
                pass
            else:
                # sign of a product from the signs of its factors
                unk = [(a, e) for a, e in m if not tm.node(a).pos and e % 2 == 1]
                if len(unk) == 1:
                    x = self.memo[unk[0][0]]
                    self.facts.append((x > 0) == (v > 0) if all(
                        tm.node(a).pos for a, e in m if (a, e) != unk[0]) else z3.Implies(x >= 0, v >= 0))
                    if all(tm.node(a).pos for a, e in m if (a, e) != unk[0]):
                        self.facts.append((x == 0) == (v == 0))
            self.monos[m] = v
            return v
        r = None
        for a, e in m:
            x = self.memo[a]
            if e < 0:
                i = self.invs.get(a)
                if i is None:
                    i = z3.Real("r!%d" % a)
                    self.invs[a] = i
                    self.facts.append(i * x == 1)
                    self.facts.append(i > 0)
                x, e = i, -e
            for _ in range(e):
                r = x if r is None else r * x
        self.monos[m] = r
        return r

    def _one(self, t):
        op, a = t.op, t.args
        M = self.memo
        if op == "c":
            return q(a[0])
        if op == "b":
            return z3.BoolVal(a[0])
        if op == "v":
            if t.isint:
                i = z3.Int(a[0])
                self.varmap[a[0]] = i
                v = z3.ToReal(i)
            else:
                v = z3.Real(a[0])
                self.varmap[a[0]] = v
            self._sign(v, t)
            return v
        if op == "bv":
            v = z3.Bool(a[0])
            self.varmap[a[0]] = v
            return v
        if op == "poly":
            s = []
            for m, c in a:
                if m == ():
                    s.append(q(c))
                else:
                    x = self._mono(m)
                    s.append(x if c == 1 else q(c) * x)
            return z3.Sum(s) if len(s) > 1 else s[0]
        if op == "ite":
            return z3.If(M[a[0].id], M[a[1].id], M[a[2].id])
        if op == "max":
            v = z3.Real("x!%d" % t.id)
            xs = [M[x.id] for x in a]
            for x in xs:
                self.facts.append(v >= x)
            self.facts.append(z3.Or([v == x for x in xs]))
            self._sign(v, t)
            return v
        if op in ("exp", "log", "pow", "inv", "fn", "prod"):
            if op == "prod" and self.mode == "nl":
                return M[a[0].id] * M[a[1].id]
            v = z3.Real("%s!%d" % (op, t.id))
            self._sign(v, t)
            if self.cut:
                return v
            if op in self.apps:
                self.apps[op].append(t)
            if op == "inv":
                x = M[a[0].id]
                if self.mode == "nl":
                    self.facts.append(z3.Implies(x != 0, v * x == 1))
                else:
                    p = a[0]
                    # linearised p*inv(p) = 1
                    M[t.id] = v
                    pr = tm.mul(p, t)
                    if pr.op == "poly":
                        z = self(pr) if pr.id not in M else M[pr.id]
                        self.facts.append(z3.Implies(x != 0, z == 1))
                self.facts.append(z3.Implies(x > 0, v > 0))
                self.facts.append(z3.Implies(x < 0, v < 0))
            if self.ineq:
                self._axioms(op, t, v)
            M[t.id] = v
            return v
        if op == "floor":
            i = z3.Int("fl!%d" % t.id)
            v = z3.ToReal(i)
            x = M[a[0].id]
            self.facts += [v <= x, x < v + 1]
            return v
        if op == "not":
            return z3.Not(M[a[0].id])
        if op == "and":
            return z3.And([M[x.id] for x in a])
        if op == "or":
            return z3.Or([M[x.id] for x in a])
        if self.cut and op in ("le0", "lt0", "eq0") and a[0].id not in M:
            return z3.Bool("cut!%d" % t.id)
        if op == "le0":
            return M[a[0].id] <= 0
        if op == "lt0":
            return M[a[0].id] < 0
        if op == "eq0":
            return M[a[0].id] == 0
        raise AssertionError(op)

    def _axioms(self, op, t, v):
        M, F = self.memo, self.facts
        a = t.args
        if op == "exp":
            x = M[a[0].id]
            F.append(v >= 1 + x)
            F.append(z3.Implies(x <= 0, v <= 1))
            for u in self.apps["exp"][:-1]:
                y, w = M[u.args[0].id], M[u.id]
                F.append((x < y) == (v < w))
                F.append((x == y) == (v == w))
        elif op == "log":
            x = M[a[0].id]
            F.append(z3.Implies(x > 0, v <= x - 1))
            F.append(z3.Implies(x >= 1, v >= 0))
            F.append(z3.Implies(z3.And(x > 0, x <= 1), v <= 0))
            for u in self.apps["log"][:-1]:
                y, w = M[u.args[0].id], M[u.id]
                F.append(z3.Implies(z3.And(x > 0, y > 0), (x < y) == (v < w)))
                F.append(z3.Implies(x == y, v == w))
        elif op == "pow":
            b, e = M[a[0].id], M[a[1].id]
            F.append(z3.Implies(b > 0, v > 0))
            F.append(z3.Implies(z3.And(b >= 1, e >= 0), v >= 1))
            F.append(z3.Implies(z3.And(b >= 1, e <= 0), v <= 1))
            F.append(z3.Implies(z3.And(b > 0, b <= 1, e >= 0), v <= 1))
            F.append(z3.Implies(z3.And(b > 0, b <= 1, e <= 0), v >= 1))
            for u in self.apps["pow"][:-1]:
                if u.args[1] is not a[1]:
                    continue
                c, w = M[u.args[0].id], M[u.id]
                F.append(z3.Implies(z3.And(b > 0, c > 0, e > 0), (b < c) == (v < w)))
                F.append(z3.Implies(z3.And(b > 0, c > 0, e < 0), (b < c) == (v > w)))
                F.append(z3.Implies(b == c, v == w))


def _large(t, n=40):
    seen, stack = {t.id}, [t]
    while stack:
        for c in tm.children(stack.pop()):
            if c.id not in seen:
                seen.add(c.id)
                if len(seen) > n:
                    return True
                stack.append(c)
    return False


def _solve(lo, asserts, timeout, logic=None):
    s = z3.Solver() if logic is None else z3.SolverFor(logic)
    s.set("timeout", int(timeout * 1000))
    for f in asserts:
        s.add(f)
    for f in lo.facts:
        s.add(f)
    t0 = time.time()
    r = s.check()
    STATS["solver_s"] += time.time() - t0
    STATS["queries"] += 1
    r = str(r)
    STATS[r] += 1
    model = None
    if r == "sat":
        m = s.model()
        model = {}
        for name, v in lo.varmap.items():
            x = m.eval(v, model_completion=True)
            try:
                if z3.is_bool(x):
                    model[name] = bool(z3.is_true(x))
                elif z3.is_int_value(x):
                    model[name] = float(x.as_long())
                elif z3.is_rational_value(x):
                    model[name] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
                elif z3.is_algebraic_value(x):
                    ap = x.approx(20)
                    model[name] = float(Fraction(ap.numerator_as_long(), ap.denominator_as_long()))
            except Exception:
                pass
    return r, model, s


CROSS = {"cvc5": False, "timeout": 20}


def cross_check(s):
    """Independent confirmation of an unsat verdict by cvc5 (thorough tier)."""
    try:
        import cvc5

        STATS["cvc5_queries"] += 1
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(CROSS["timeout"] * 1000))
        sm = cvc5.SymbolManager(slv)
        p = cvc5.InputParser(slv, sm)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + s.to_smt2(), "q")
        last = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            if "sat" in str(o):
                last = str(o).strip()
        if last == "unsat":
            STATS["cvc5_unsat"] += 1
        else:
            STATS["cvc5_other"] += 1
        return last
    except Exception as e:  # noqa: BLE001
        STATS["cvc5_other"] += 1
        return "error %r" % (e,)


def query(assumptions, negated_goal, mode="lin", timeout=10, ineq=False):
    """Is assumptions and negated_goal satisfiable?  -> (verdict, model)"""
    if negated_goal is tm.FALSE:
        STATS["queries"] += 1
        STATS["unsat"] += 1
        return "unsat", None
    lo = Lower(mode, ineq=ineq)
    asserts = [lo(a) for a in assumptions] + [lo(negated_goal)]
    r, model, s = _solve(lo, asserts, timeout)
    if r == "unsat" and CROSS["cvc5"]:
        c = cross_check(s)
        if c == "sat":
            raise RuntimeError("z3 and cvc5 disagree")
    return r, model


def relevant(assumptions, goal):
    """Assumptions connected to the goal by shared variables (transitively, one pass to fixpoint)."""
    gv = {v.id for v in tm.free_vars([goal])}
    av = [(a, {v.id for v in tm.free_vars([a])}) for a in assumptions]
    used = [False] * len(av)
    changed = True
    while changed:
        changed = False
        for i, (a, vs) in enumerate(av):
            if not used[i] and (not vs or vs & gv):
                used[i] = True
                if not vs <= gv:
                    gv |= vs
                    changed = True
    return [a for (a, _), u in zip(av, used) if u]


_feas = {}


def feasible(pc, b, assumptions=()):
    """Explorer hook: can b hold on this path?  unknown counts as yes."""
    key = (tuple(a.id for a in assumptions), tuple(c.id for c in pc), b.id)
    r = _feas.get(key)
    if r is None:
        STATS["feasibility_queries"] += 1
        lo = Lower("lin")
        ass = [lo(x) for x in relevant(list(assumptions) + list(pc), b)] + [lo(b)]
        v, _, _ = _solve(lo, ass, 3)
        r = v != "unsat"
        _feas[key] = r
    return r


def prove(assumptions, goal, timeout=20, modes=("lin", "nl"), ineq=False, log=None):
    """-> ('proved'|'sat'|'unknown', model).  'sat' only in nl mode."""
    if goal is tm.TRUE:
        STATS["queries"] += 1
        STATS["unsat"] += 1
        return "proved", None
    ng = tm.not_(goal)
    if not ineq and _large(goal, 400):
        # a generalisation: proved here is proved
        r, _ = query([], ng, "cut", min(timeout, 5))
        if r == "unsat":
            return "proved", None
    ass = relevant(assumptions, goal)
    model = None
    verdict = "unknown"
    for mode in modes:
        r, m = query(ass, ng, mode, timeout if mode == "nl" else min(timeout, 10), ineq)
        if r == "unsat":
            return "proved", None
        if m is not None:
            model = m
        if r == "sat" and mode == "nl":
            verdict = "sat"
        elif r == "sat" and mode == "lin" and not _has_abstraction(ass + [ng]):
            return "sat", m
    return verdict, model


def _has_abstraction(ts):
    for n in tm.topo(ts):
        if n.op in ("exp", "log", "pow", "inv", "fn", "prod"):
            return True
        if n.op == "poly":
            for m, _ in n.args:
                if len(m) > 1 or (m and m[0][1] != 1):
                    return True
    return False


# ------------------------------------------------------------------ sweeping
def _close(a, b, tol=1e-7):
    with np.errstate(all="ignore"):
        return bool(np.all((np.abs(a - b) <= tol * (1e-12 + np.maximum(np.abs(a), np.abs(b)))) | (a == b)))


def sweep(got, want, assumptions, env, k, timeout=3, budget=60.0, log=None):
    """Merge subterms of `got` into equal-looking subterms of `want` when z3 proves them equal.

    env: name -> array (k,) of sample values satisfying the assumptions."""
    t0 = time.time()
    roots = list(got) + list(want)
    wanted = tm.topo(list(want))
    allowed = {"ite", "max", "exp", "log", "pow", "inv", "floor", "prod", "poly"}
    values = {}
    with np.errstate(all="ignore"):
        memo = {}
        for t in tm.topo(roots):
            memo[t.id] = tm._eval1(t, memo, env)
    sig = {}
    wset = set()
    for t in wanted:
        wset.add(t.id)
        if t.isbool or t.op not in allowed:
            continue
        v = np.broadcast_to(memo[t.id], (k,))
        if not np.all(np.isfinite(v)):
            continue
        sig.setdefault("%.5e" % v[0], []).append((t, v))
    bsig = {}
    for t in wanted:
        if t.isbool and t.op not in ("b", "bv"):
            v = np.broadcast_to(memo[t.id], (k,))
            bsig.setdefault(v.tobytes(), []).append(t)
    # nodes of got worth merging: arguments of atoms, ite branches, roots
    subst = {}
    new = {}
    interesting = set()
    for t in tm.topo(list(got)):
        if t.op in ("ite", "max", "exp", "log", "pow", "inv", "floor", "prod", "le0", "lt0", "eq0"):
            for c in tm.children(t):
                interesting.add(c.id)
        if t.op in ("ite", "max", "inv", "exp", "pow", "log", "floor", "prod"):
            interesting.add(t.id)
    for t in got:
        interesting.add(t.id)
    failed = 0
    for t in tm.topo(list(got)):
        if t.op in ("c", "v", "b", "bv"):
            new[t.id] = t
            continue
        cs = tm.children(t)
        n = t if all(new[c.id] is c for c in cs) else tm.rebuild(t, lambda c: new[c.id])
        new[t.id] = n
        if n.id in wset or t.id not in interesting or n.op == "c" or n.op == "b":
            continue
        if time.time() - t0 > budget:
            continue
        if not t.isbool:
            v = np.broadcast_to(memo[t.id], (k,))
            if not np.all(np.isfinite(v)):
                continue
            cands = []
            for f in (v[0], v[0] * (1 + 1e-5), v[0] * (1 - 1e-5)):
                for c, w in sig.get("%.5e" % f, ()):
                    if c is not n and _close(v, w) and all(c is not x for x in cands):
                        cands.append(c)
        else:
            v = np.broadcast_to(memo[t.id], (k,))
            if v.all() or not v.any():
                cands = [tm.TRUE if v.all() else tm.FALSE]
            else:
                cands = bsig.get(v.tobytes(), [])
        for c in cands[:3]:
            STATS["sweep_queries"] += 1
            g = tm.eq(n, c)
            r, _ = prove(assumptions, g, timeout=timeout, modes=("lin", "nl") if not t.isbool else ("lin",))
            if r == "proved":
                STATS["sweep_merges"] += 1
                new[t.id] = c
                break
            failed += 1
    return [new[t.id] for t in got]


def prove_equal(got, want, assumptions, env=None, k=0, timeout=20, budget=60.0):
    """got == want for all values under the assumptions -> (verdict, model)."""
    g = tm.eq(got, want)
    if g is tm.TRUE:
        STATS["queries"] += 1
        STATS["unsat"] += 1
        return "proved", None
    r, m = prove(assumptions, g, timeout=min(timeout, 5), modes=("lin",))
    if r == "proved":
        return r, m
    if env is not None:
        (g2,) = sweep([got], [want], assumptions, env, k, budget=budget)
        if g2 is not got:
            got = g2
            g = tm.eq(got, want)
            r, m = prove(assumptions, g, timeout=timeout, modes=("lin",))
            if r == "proved":
                return r, m
    return prove(assumptions, g, timeout=timeout, modes=("nl",))


def confirm(obs, pc):
    """One query for all obligations whose two sides share their normal form."""
    from . import sym as sy

    lo = Lower("lin")
    diff = []
    for o in obs:
        if o.kind == "claim":
            diff.append(lo(tm.not_(tm.tobool(sy.lift(o.got)))))
            continue
        g, w = tm.toreal(sy.lift(o.got)), tm.toreal(sy.lift(o.want))
        diff.append(lo(g) != lo(w) if o.kind == "eq" else lo(g) > lo(w))
    STATS["batched"] = STATS.get("batched", 0) + len(obs)
    r, _, _ = _solve(lo, [z3.Or(diff)], 20)
    return r == "unsat"


class PathSimplifier:
    """Replaces comparisons decided by a path condition by their truth value (one incremental solver)."""

    def __init__(self, pc, timeout=2):
        self.pc = list(pc)
        self.known = {}
        for c in self.pc:
            self._learn(c)
        self.lo = Lower("lin")
        self.s = z3.Solver()
        self.s.set("timeout", int(timeout * 1000))
        self.nf = 0
        for c in self.pc:
            self.s.add(self.lo(c))
        self._facts()
        self.memo = {}
        self.n = 0

    def _facts(self):
        for f in self.lo.facts[self.nf:]:
            self.s.add(f)
        self.nf = len(self.lo.facts)

    def _learn(self, b):
        self.known[b.id] = tm.TRUE
        self.known[tm.not_(b).id] = tm.FALSE
        if b.op == "and":
            for x in b.args:
                self._learn(x)

    def decide(self, b):
        r = self.known.get(b.id)
        if r is not None:
            return r
        z = self.lo(b)
        self._facts()
        out = b
        for val, neg in ((tm.TRUE, z3.Not(z)), (tm.FALSE, z)):
            t0 = time.time()
            self.s.push()
            self.s.add(neg)
            v = str(self.s.check())
            self.s.pop()
            STATS["solver_s"] += time.time() - t0
            STATS["queries"] += 1
            STATS[v] += 1
            self.n += 1
            if v == "unsat":
                out = val
                break
        self.known[b.id] = out
        return out

    def __call__(self, t, limit=400):
        """Top-down over ite/bool structure, so that only relevant comparisons are decided."""
        for n in tm.topo([t]):
            if n.id in self.memo:
                continue
            if n.isbool and n.op in ("le0", "lt0", "eq0"):
                m = n
                cs = tm.children(n)
                if any(self.memo[c.id] is not c for c in cs):
                    m = tm.rebuild(n, lambda c: self.memo[c.id])
                if m.op in ("le0", "lt0", "eq0") and self.n < limit:
                    m = self.decide(m)
                self.memo[n.id] = m
                continue
            cs = tm.children(n)
            m = n
            if any(self.memo[c.id] is not c for c in cs):
                m = tm.rebuild(n, lambda c: self.memo[c.id])
            if m.op == "max" and len(m.args) == 2 and self.n < limit:
                d = tm.le(m.args[0], m.args[1])
                d = self.decide(d) if d.op in ("le0", "lt0", "eq0") else d
                if d is tm.TRUE:
                    m = m.args[1]
                elif d is tm.FALSE:
                    m = m.args[0]
            self.memo[n.id] = m
        return self.memo[t.id]


# ------------------------------------------------------------------ monotone congruence
def leq(a, b, assumptions, timeout=10, memo=None, depth=0):
    """a <= b by descending through operations that are monotone in the place where the two sides differ.

    Products, sums, maxima, powers with a common exponent, exponentials and logarithms are taken apart; signs and what
    remains are solver queries under the assumptions."""
    memo = {} if memo is None else memo
    if a is b:
        return True
    key = (a.id, b.id)
    if key in memo:
        return memo[key]
    memo[key] = False
    r = _leq(a, b, assumptions, timeout, memo, depth)
    memo[key] = r
    return r


def _sign(t, assumptions, timeout):
    """+1: not negative, -1: not positive, 0: unknown."""
    if t.nn or t.pos:
        return 1
    if prove(assumptions, tm.le(tm.ZERO, t), timeout, modes=("lin",))[0] == "proved":
        return 1
    if prove(assumptions, tm.le(t, tm.ZERO), timeout, modes=("lin",))[0] == "proved":
        return -1
    return 0


def _leq(a, b, ass, timeout, memo, depth):
    def sub(x, y, extra=()):
        return leq(x, y, ass + list(extra) if extra else ass, timeout, {} if extra else memo, depth + 1)

    if depth < 40:
        if a.op == b.op == "max":
            def cands(x):
                ys = [y for y in b.args if y is x]
                return ys or [y for y in b.args if y.op == x.op] + [y for y in b.args if y.op != x.op]
            if all(any(sub(x, y) for y in cands(x)) for x in a.args):
                return True
        elif b.op == "max" and any(y is a or y.op == a.op and sub(a, y) for y in b.args):
            return True
        elif a.op == b.op == "pow" and a.args[1] is b.args[1] and a.args[0].pos and b.args[0].pos:
            s = _sign(a.args[1], ass, timeout)
            if s > 0 and sub(a.args[0], b.args[0]) or s < 0 and sub(b.args[0], a.args[0]):
                return True
        elif a.op == b.op and a.op in ("exp", "log") and (a.op == "exp" or a.args[0].pos and b.args[0].pos):
            if sub(a.args[0], b.args[0]):
                return True
        elif a.op == b.op == "inv" and a.args[0].pos and b.args[0].pos:
            if sub(b.args[0], a.args[0]):
                return True
        elif a.op == b.op == "ite" and a.args[0] is b.args[0]:
            c = a.args[0]
            if sub(a.args[1], b.args[1], [c]) and sub(a.args[2], b.args[2], [tm.not_(c)]):
                return True
        if "poly" in (a.op, b.op) and _leq_poly(a, b, sub, ass, timeout):
            return True
    return prove(ass, tm.le(a, b), timeout, modes=("lin",))[0] == "proved"


def _leq_poly(a, b, sub, ass, timeout):
    """b - a >= 0 by pairing monomials that differ in one factor."""
    d = tm.sub(b, a)
    if d.op != "poly":
        return False
    up = [(m, c) for m, c in d.args if c > 0]
    down = [(m, c) for m, c in d.args if c < 0]
    if len(up) > 12 or len(down) > 12:
        return False
    signs = {}

    def factor_sign(m):
        s = 1
        for x, e in m:
            if e % 2 == 0:
                continue
            if x not in signs:
                signs[x] = _sign(tm.node(x), ass, timeout)
            s *= signs[x]
        return s

    for m, c in down:
        if factor_sign(m) < 0:
            continue
        for i, (m2, c2) in enumerate(up):
            if c2 != -c:
                continue
            x, y = dict(m), dict(m2)
            common = {v: e for v, e in x.items() if y.get(v) == e}
            dx = [(v, e) for v, e in x.items() if v not in common]
            dy = [(v, e) for v, e in y.items() if v not in common]
            if len(dx) != 1 or len(dy) != 1 or dx[0][1] != dy[0][1] or abs(dx[0][1]) != 1:
                continue
            s = factor_sign(tuple(common.items()))
            lo, hi = tm.node(dx[0][0]), tm.node(dy[0][0])
            if dx[0][1] < 0:
                if not (lo.pos and hi.pos):
                    continue
                s = -s
            if s > 0 and sub(lo, hi) or s < 0 and sub(hi, lo):
                del up[i]
                break
        else:
            return False
    return all(m == () or factor_sign(m) > 0 for m, c in up)
