"""C06 Experience stock stays in [0,1] and conserves experience years."""
from checks import common as k
from symx.harness import Case

ASSUMPTIONS = [
    "Shares in [0,1], increments in [0,3] (not negative), periods 0..60 and initial maxima 0..20 are symbolic; arrays of up to 4 elements.",
]


def experience():
    from soepy.shared import experience_stock as es

    return es


def inputs(c, i="", top=3):
    share = c.real("share" + i, lo=0, hi=1)
    inc = c.real("increment" + i, lo=0, hi=top, typ=(0, 1.5))
    return share, inc


def size(c):
    t = c.intvar("period", 0, 60)
    init = c.intvar("init_exp_max", 0, 20)
    return t, init


def most(init, t, inc):
    return init + k.maximum(t, t * inc)


def conversion(c):
    es = experience()
    t, init = size(c)
    share, inc = inputs(c)
    top = c.call(es.max_exp_years, t, init, inc)
    c.eq("maximum", top, most(init, t, inc))
    y = c.call(es.stock_to_exp_years, stock=share, period=t, init_exp_max=init, pt_increment=inc)
    c.eq("years", y, share * most(init, t, inc))
    years = c.real("years", lo=0, typ=(0, 10))
    c.assume(years <= most(init, t, inc))
    s = c.call(es.exp_years_to_stock, exp_years=years, period=t, init_exp_max=init, pt_increment=inc)
    c.claim("share in range", k.and_(s >= 0, s <= 1 + 1e-9))
    c.eq("years to share to years", c.call(es.stock_to_exp_years, stock=s, period=t, init_exp_max=init, pt_increment=inc), years)
    c.assume(most(init, t, inc) > 0.001)
    c.eq("share to years to share", c.call(es.exp_years_to_stock, exp_years=y, period=t, init_exp_max=init, pt_increment=inc), share)


def law(choice):
    def h(c):
        es = experience()
        t, init = size(c)
        share, inc = inputs(c)
        gain = {0: 0.0, 1: inc, 2: 1.0}[choice]
        n = c.call(es.next_stock, stock=share, period=t, init_exp_max=init, pt_increment=inc, choice=choice)
        now, then = most(init, t, inc), most(init, t + 1, inc)
        c.eq("share from years", n, (share * now + gain) / then)
        c.claim("share in range", k.and_(n >= 0, n <= 1 + 1e-9))
        y = c.call(es.stock_to_exp_years, stock=n, period=t + 1, init_exp_max=init, pt_increment=inc)
        c.eq("years add up", y, share * now + gain)
    return h


def arrays(c):
    """Several women and choices at once give the same as one at a time."""
    es = experience()
    t, init = size(c)
    si = [inputs(c, str(i)) for i in range(3)]
    share, inc = c.array([s for s, _ in si]), c.array([i for _, i in si])
    ch = [c.intvar("choice%d" % i, 0, 2) for i in range(3)]
    import numpy as np

    from symx.sym import arr
    chs = arr(ch) if c.sym else np.array(ch)
    n = c.call(es.next_stock, stock=share, period=t, init_exp_max=init, pt_increment=inc, choice=chs)
    for i in range(3):
        gain = k.ite(k.eq(ch[i], 1), si[i][1], k.ite(k.eq(ch[i], 2), 1.0, 0.0))
        c.eq("woman %d" % i, n[i], (si[i][0] * most(init, t, si[i][1]) + gain) / most(init, t + 1, si[i][1]))
        c.eq("woman %d alone" % i, n[i], c.call(es.next_stock, stock=si[i][0], period=t, init_exp_max=init, pt_increment=si[i][1], choice=ch[i]))
    g = c.array([0.0, c.real("g1", lo=0, hi=1), 1.0])
    for ch1 in range(3):
        n = c.call(es.next_stock, stock=g, period=t, init_exp_max=init, pt_increment=si[0][1], choice=ch1)
        gain = (0.0, si[0][1], 1.0)[ch1]
        c.eq("grid choice %d" % ch1, n, [(x * most(init, t, si[0][1]) + gain) / most(init, t + 1, si[0][1]) for x in (0.0, g[1], 1.0)])


def career(periods):
    """Many periods of arbitrary choices conserve the sum of the years."""
    def h(c):
        es = experience()
        init = c.intvar("init_exp_max", 0, 20)
        start = c.real("years", lo=0, typ=(0, 4))
        inc = c.real("increment", lo=0, hi=1)
        c.assume(start <= init)
        c.assume(init >= 1)
        s = c.call(es.exp_years_to_stock, exp_years=start, period=0, init_exp_max=init, pt_increment=inc)
        y = start
        for t in range(periods):
            ch = c.intvar("choice%d" % t, 0, 2)
            s = c.call(es.next_stock, stock=s, period=t, init_exp_max=init, pt_increment=inc, choice=ch)
            y = y + k.ite(k.eq(ch, 1), inc, k.ite(k.eq(ch, 2), 1.0, 0.0))
        c.eq("years", c.call(es.stock_to_exp_years, stock=s, period=periods, init_exp_max=init, pt_increment=inc), y)
        c.claim("share in range", k.and_(s >= 0, s <= 1 + 1e-9))
    return h


def child_grows(top, finding=None):
    """The increment changes when the child leaves the small-child age."""
    def h(c):
        es = experience()
        t, init = size(c)
        share, inc = inputs(c, top=top)
        inc2 = c.real("increment next", lo=0, hi=top, typ=(0, 1.5))
        ch = c.intvar("choice", 0, 2)
        gain = k.ite(k.eq(ch, 1), inc, k.ite(k.eq(ch, 2), 1.0, 0.0))
        n = c.call(es.next_stock, stock=share, period=t, init_exp_max=init, pt_increment=inc, choice=ch)
        y = c.call(es.stock_to_exp_years, stock=n, period=t + 1, init_exp_max=init, pt_increment=inc2)
        want = share * most(init, t, inc) + gain
        c.eq("years", y, want, known=finding and (finding, want / most(init, t + 1, inc) * most(init, t + 1, inc2)))
    return h


CASES = [
    Case("conversion", conversion, bounds={"women": 1}),
    Case("not_working", law(0), bounds={"women": 1}),
    Case("part_time", law(1), bounds={"women": 1}),
    Case("full_time", law(2), bounds={"women": 1}),
    Case("arrays", arrays, bounds={"women": 3, "grid points": 3}),
    Case("career", career(2), bounds={"periods": 2}),
    Case("changing_increment", child_grows(1), bounds={"increments": "at most 1"}),
    Case("changing_increment_large", child_grows(3, "F7"), bounds={"increments": "0..3"}),
]
