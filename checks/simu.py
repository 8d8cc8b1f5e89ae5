"""Simulation runs with recorded, scripted or explored random events."""
import contextlib
import copy
import itertools

import numpy as np

from symx.sym import SymArray

from checks import common as k
from checks import model as mo

EPS = float(np.finfo(float).eps)
NAMES = ("seed", "choice", "binomial", "normal", "standard_normal", "uniform", "rand", "randn", "random", "random_sample",
         "randint", "permutation", "shuffle", "multinomial", "RandomState", "default_rng")


class Call:
    def __init__(self, kind, stream, n, **kw):
        self.kind, self.stream, self.n = kind, stream, n
        self.__dict__.update(kw)


def certain(p):
    if hasattr(p, "t"):
        if p.t.op != "c":
            return None
        p = float(p.t.args[0])
    return {0.0: 0, 1.0: 1}.get(float(p))


class Rng:
    """Stand-in for numpy's global generator.

    Events depend only on the last seed and the number of calls since (that is what a seeded generator
    guarantees); pick(rng, call, i, alternatives) decides an event, shock(c, name) makes a shock."""

    def __init__(self, c, pick=None, shock=None):
        self.c, self.pick, self.shock = c, pick, shock
        self.calls = []
        self.memo = {}
        self.stream, self.n = ("unseeded", 0), 0

    def restart(self, label):
        """Another unknown state of the global generator; events of seeded streams stay the same."""
        self.stream, self.n = ("unseeded", label), 0
        self.calls = []

    def _new(self, kind, **kw):
        call = Call(kind, self.stream, self.n, **kw)
        self.n += 1
        self.calls.append(call)
        return call

    def _event(self, call, i, alts):
        key = (call.stream, call.n, call.kind, tuple(alts), i)
        if key not in self.memo:
            v = self.pick(self, call, i, alts) if self.pick else None
            if v is None:
                v = self.c.choice("%s%s.%d.%d" % (call.kind, call.stream, call.n, i), alts)
            self.memo[key] = v
        v = self.memo[key]
        return v if v in alts else alts[0]

    @staticmethod
    def _size(size):
        if size is None:
            return None
        return tuple(int(x) for x in np.atleast_1d(size))

    def _fill(self, call, size, alts):
        if size is None:
            return self._event(call, 0, alts)
        n = int(np.prod(size)) if len(size) else 1
        if callable(alts):
            return np.array([self._event(call, i, alts(i)) for i in range(n)], dtype=int).reshape(size)
        return np.array([self._event(call, i, alts) for i in range(n)], dtype=int).reshape(size)

    def seed(self, s=None):
        self.calls.append(Call("seed", self.stream, self.n, value=s))
        self.stream, self.n = (int(s) if s is not None else "none"), 0

    def choice(self, a, size=None, replace=True, p=None):
        vals = list(range(int(a))) if np.ndim(a) == 0 else [int(x) for x in a]
        size = self._size(size)
        call = self._new("choice", a=vals, size=size, p=p)
        call.out = self._fill(call, size, vals)
        return copy.copy(call.out)  # the caller may change it in place

    def binomial(self, n, p, size=None):
        size = self._size(size)
        if size is None and np.ndim(p):
            size = tuple(np.shape(p))
        call = self._new("binomial", times=n, size=size, p=p)
        ps = np.broadcast_to(np.asarray(p).view(np.ndarray), size or ()).ravel().tolist()

        def alts(i):
            # an event of probability zero or one is certain
            q = certain(ps[i])
            return list(range(int(n) + 1)) if q is None else [q * int(n)]
        call.out = self._fill(call, size, alts if size is not None else alts(0))
        return copy.copy(call.out)  # the caller may change it in place

    def normal(self, loc=0.0, scale=1.0, size=None):
        size = self._size(size)
        call = self._new("normal", loc=loc, scale=scale, size=size)
        out = np.empty(size if size is not None else (), dtype=object)
        for ix in np.ndindex(*out.shape):
            key = ("z", call.stream, call.n) + ix
            if key not in self.memo:
                name = "z%s.%d%s" % (call.stream, call.n, list(ix))
                self.memo[key] = self.shock(self.c, call, ix, name) if self.shock else self.c.real(name, typ=(-1.5, 1.5))
            out[ix] = self.memo[key]
        out = self.c.array(out) if self.c.sym else out.astype(float)
        call.out = out * scale + loc if size is not None else out.item() * scale + loc
        return copy.copy(call.out)  # the caller may change it in place

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def randn(self, *size):
        return self.normal(0.0, 1.0, size or None)

    def RandomState(self, seed=None):
        """A generator of its own gives the same stream as the seeded global one."""
        r = Rng(self.c, self.pick, self.shock)
        r.memo, r.calls = self.memo, self.calls
        r.seed(seed)
        return r

    def other(self, name):
        def f(*a, **kw):
            call = self._new(name)
            raise AssertionError("random call np.random.%s is not modelled" % name)

        return f

    @contextlib.contextmanager
    def installed(self):
        saved = {n: getattr(np.random, n) for n in NAMES}
        try:
            for n in NAMES:
                setattr(np.random, n, getattr(self, n, None) or self.other(n))
            yield self
        finally:
            for n, f in saved.items():
                setattr(np.random, n, f)


def role(m, rng, call):
    """What the call is for, by its position (a seeded stream fixes the order of the calls)."""
    pos = [x for x in rng.calls if x.kind != "seed"].index(call)
    if pos == 0:
        return ("educ", None)
    pos -= 1
    if pos < 4 * m.n_educ:
        return (("age", "partner", "pt", "ft")[pos % 4], pos // 4)
    pos -= 4 * m.n_educ
    if pos == 0:
        return ("type", None)
    if pos == 1:
        return ("shock", None)
    return ("event", pos - 2)


def script(m, **kw):
    """Scripted events: role=value, list of values per agent, or a set of alternatives to explore; roles left
    out are explored fully."""
    def pick(rng, call, i, alts):
        r, e = role(m, rng, call)
        v = kw.get(r)
        if v is None:
            return None
        if callable(v):
            v = v(e, i, alts)
        if isinstance(v, (list, tuple)):
            v = v[i]
        if isinstance(v, set):
            v = sorted(x for x in v if x in alts)
            return rng.c.choice("%s%s.%d.%d" % (call.kind, call.stream, call.n, i), v)
        return v
    return pick


def transitions(m, rng, data):
    """Household events by period and agent, from the recorded calls.

    The seeded stream fixes the order of the calls of a period: births of all agents, arrivals for those without and
    separations for those with a partner.  -> {(kind, period, agent): (outcome, probability)}"""
    calls = [x for x in rng.calls if x.kind != "seed"][4 * m.n_educ + 3:]
    last = m.dict["EXOG_PROC"]["last_child_bearing_period"]
    moves = {}

    def take(kind, p, who):
        call = calls.pop(0) if calls else None
        if call is None or call.kind != "binomial" or call.times != 1 or np.size(call.out) != len(who):
            raise AssertionError("unexpected random call for %s in period %d" % (kind, p))
        ps = np.broadcast_to(np.asarray(call.p).view(np.ndarray), (len(who),))
        for n, o, q in zip(who, np.ravel(call.out), ps):
            moves[(kind, p, n)] = (int(o), q)

    for p in range(m.periods):
        here = [r for r in data if as_int(r["Period"]) == p]
        ids = [as_int(r["Identifier"]) for r in here]
        couple = [as_int(r["Partner_Indicator"]) == 1 for r in here]
        if p < m.periods - 1 and p <= last:
            take("birth", p, ids)
        if p == m.periods - 1 and not calls:
            break  # events after the last period concern nobody
        if not all(couple):
            take("arrival", p, [n for n, x in zip(ids, couple) if not x])
        if any(couple):
            take("separation", p, [n for n, x in zip(ids, couple) if x])
    return moves


class Tables:
    """Exogenous probabilities of a simulation as symbolic values."""


def tables(c, m, pc=None, pp=None):
    t = Tables()
    t.educ = c.vec("prob_educ", m.n_educ, lo=0, hi=1)
    t.age = c.mat("prob_age", (m.n_educ, m.dict["INITIAL_CONDITIONS"]["child_age_init_max"] + 2), lo=0, hi=1)
    # random events with a symbolic probability are uncertain
    t.partner = c.vec("prob_partner0", m.n_educ, lo=0.001, hi=0.999)
    t.pt = c.mat("prob_pt", (m.n_educ, m.init_exp_max + 1), lo=0, hi=1)
    t.ft = c.mat("prob_ft", (m.n_educ, m.init_exp_max + 1), lo=0, hi=1)
    t.child, t.prob_partner = mo.probs(c, m, pc, pp, 0.001, 0.999)
    if pc is None:
        # no births after the last child-bearing period
        last = m.dict["EXOG_PROC"]["last_child_bearing_period"]
        t.child = c.array([[t.child[p, e] if p <= last else 0.0 for e in range(3)] for p in range(m.periods)])
    return t


def solution(c, m):
    """Arbitrary solved values and work disutilities."""
    n = len(m.states)
    emaxs = c.mat("emax", (n, len(m.grid), 4), typ=(-3, 1))
    ncu = c.mat("ncu", (n, 3), lo=0, lo_strict=True, typ=(0.3, 1.5))
    return emaxs, ncu


def run(c, m, t, rng, emaxs, ncu, biased=False, sparse=False):
    from soepy.simulate.simulate_auxiliary import pyth_simulate

    def v(x):
        # lets tables be indexed by symbolic integers
        return np.asarray(x).view(SymArray) if c.sym else np.asarray(x)

    with rng.installed():
        return pyth_simulate(
            model_params=m.params, model_spec=m.spec, states=v(m.states), indexer=v(m.indexer), emaxs=emaxs,
            covariates=v(m.covariates), non_consumption_utilities=ncu, child_age_update_rule=v(m.child_update),
            prob_educ_level=t.educ, prob_child_age=t.age, prob_partner_present=t.partner, prob_exp_pt=t.pt,
            prob_exp_ft=t.ft, prob_child=t.child, prob_partner=t.prob_partner, biased_exp=biased, data_sparse=sparse)


def prepared(c, m, x, rng, biased, sparse=False, params=None, spec=None, func=None):
    """Data of a prepared simulator (tables x of checks.exog)."""
    from soepy.simulate.simulate_python import get_simulate_func

    from checks import exog

    with exog.served(x.frames), rng.installed():
        f = func or get_simulate_func(m.pframe, m.dict, biased, sparse)
        df = f(m.pframe if params is None else params, m.dict if spec is None else spec)
    c.same("index", list(df.index.names), ["Identifier", "Period"])
    return df.reset_index()


def rows(df):
    """The data set as a list of dictionaries (integers concrete)."""
    out = []
    cols = list(df.columns)
    data = {x: df[x].to_numpy() for x in cols}
    for i in range(len(df)):
        r = {}
        for x in cols:
            v = data[x][i]
            r[x] = v
        out.append(r)
    return out


def as_int(v):
    if hasattr(v, "t"):
        return v.__index__()
    return int(v)


STATE = ("Period", "Education_Level", "Lagged_Choice", "Type", "Age_Youngest_Child", "Partner_Indicator")


def state_of(r):
    return tuple(as_int(r[x]) for x in STATE)


def values(c, m, r, shock, emaxs, ncu, i=None):
    """Independent statement of one row: flows, continuation values, values and wage."""
    st = state_of(r)
    if i is None:
        i = m.row[st]
    share = r["Experience_Stock"]
    t, e, lag, typ, age, partner = st
    fl = mo.flows(m, st, share, shock, ncu=[ncu[i, j] for j in range(3)], floor=EPS, home_floor=EPS)
    cont = [mo.interp(m.grid, [emaxs[i, g, j] for g in range(len(m.grid))], share) for j in range(3)]
    val = [fl[j] + m.p["delta"] * cont[j] for j in range(3)]
    w = mo.wage(m, t, e, share, mo.pt_inc(m, e, age, False)) * m.s["elasticity_scale"] * k.exp(shock)
    return dict(flow=fl, cont=cont, value=val, wage=w, ncu=[ncu[i, j] for j in range(3)],
                male=mo.partner_wage(m, t, e) if partner else 0.0)


ALT = ("N", "P", "F")


def first_best(vals):
    """The first alternative with the highest value."""
    a, b, d = vals
    return k.ite(k.and_(a >= b, a >= d), 0, k.ite(k.and_(b > a, b >= d), 1, 2))


def check_row(c, m, r, shock, emaxs, ncu, tag="", known=None):
    """C15 obligations of one row."""
    v = values(c, m, r, shock, emaxs, ncu)
    st = state_of(r)
    tag = "%s %s" % (tag, st)
    flow = [r["Flow_Utility_" + a] for a in ALT]
    cont = [r["Continuation_Value_" + a] for a in ALT]
    val = [r["Value_Function_" + a] for a in ALT]
    c.eq("disutility" + tag, [r["Non_Consumption_Utility_" + a] for a in ALT], v["ncu"])
    c.eq("flow" + tag, flow, v["flow"])
    c.eq("continuation" + tag, cont, v["cont"])
    c.eq("value" + tag, val, [flow[j] + m.p["delta"] * cont[j] for j in range(3)])
    c.eq("partner wage" + tag, r["Male_Wages"], v["male"])
    ch = r["Choice"]
    c.eq("choice" + tag, ch, first_best(val))
    c.eq("observed wage" + tag, r["Wage_Observed"], k.ite(k.eq(ch, 0), float("nan"), v["wage"]))
    return v


def sim(events, **kw):
    """Rows of a simulation with scripted events, against the reference."""
    def h(c):
        m = mo.build(c, **{n: (v(c) if callable(v) else v) for n, v in kw.items()})
        for e in range(m.n_educ):
            c.assume(k.and_(mo.pt_inc(m, e, 0, False) >= 0, mo.pt_inc(m, e, 0, False) <= 1))
        t = tables(c, m)
        emaxs, ncu = solution(c, m)
        rng = Rng(c, script(m, **events))
        df = run(c, m, t, rng, emaxs, ncu)
        z = next(x for x in rng.calls if x.kind == "normal").out
        for r in rows(df):
            i, p = as_int(r["Identifier"]), as_int(r["Period"])
            check_row(c, m, r, z[p, i] * m.p["sigma"], emaxs, ncu, " of %d" % i)
    return h


def crowd(ages, partners=(0, 1), years=((0, 0), (1, 0), (0, 2)), types=1, educ=(0,), **kw):
    """One agent per combination of household, experience, type and education (agents sorted by education)."""
    combos = list(itertools.product(educ, ages, partners, years, range(types)))

    def col(f):
        return lambda e, i, alts: [f(x) for x in combos if e is None or x[0] == e][i]
    ev = dict(educ=col(lambda x: x[0]), age=col(lambda x: x[1]), partner=col(lambda x: x[2]), pt=col(lambda x: x[3][0]),
              ft=col(lambda x: x[3][1]), type=col(lambda x: x[4]), event=0)
    # fixed increments keep the initial last choice concrete (C18 covers the rule)
    p = dict(gamma_p_mom=0.125, **{"gamma_p_%d" % e: 0.375 for e in range(3)})
    return sim(ev, agents=len(combos), types=types, p_over=p, **kw)
