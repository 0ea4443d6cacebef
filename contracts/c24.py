from engine.spec import contract
from . import lib


@contract('C24', ['Simulator._apply_newton_step'])
def newton_update(E):
    g = E.grid()
    sim = lib.simulator(E, g, T=False, states=False)
    fl = sim.fluid
    n = g[0] * g[1] * g[2]
    fl.pressure = p = E.field('P', g, lo=100000, hi=100000000, samp=(5e5, 6e7))
    fl.s_w, fl.s_g = E.sat(g, fl.sw_cr, 0, fl.so_r)
    w = fl.s_w
    c = E.cell(g)
    p0, w0 = E.at(p, *c), E.at(w, *c)
    d = E.field('delta', (2 * n,), samp=(-3e6, 3e6) if not E.symbolic else None)
    if not E.symbolic: d[1::2] = d[1::2] / 1e7
    factor = E.real('factor', samp=(-1, 1.5))
    sim._apply_newton_step(d, factor)
    x = E.idx(g, *c)
    dp, dw = E.at(d, 2 * x) * factor, E.at(d, 2 * x + 1) * factor
    lim = E.min(p0 / 10, 2000000)
    clip = lambda v, a, b: E.max(a, E.min(v, b))
    p1, w1, o1 = E.at(fl.pressure, *c), E.at(fl.s_w, *c), E.at(fl.s_o, *c)
    E.cover('limited', E.abs(dp) > lim); E.cover('free', E.abs(dp) < lim)
    E.check('pressure moves by its own limited increment', E.eq(p1, clip(p0 + clip(dp, -lim, lim), 100000, 100000000)))
    E.check('saturation moves by its own limited increment', E.eq(w1, clip(w0 + clip(dw, -E.F('0.1'), E.F('0.1')), fl.sw_cr, 1 - fl.so_r)))
    E.check('pressure change at most ten percent', E.le(E.abs(p1 - p0), p0 / 10))
    E.check('pressure change at most 2 MPa', E.le(E.abs(p1 - p0), 2000000))
    E.check('saturation change at most 0.1', E.le(E.abs(w1 - w0), E.F('0.1')))
    E.check('pressure between 0.1 and 100 MPa', E.and_(E.ge(p1, 100000), E.le(p1, 100000000)))
    E.check('water saturation in its window', E.and_(E.ge(w1, fl.sw_cr), E.le(w1, 1 - fl.so_r)))
    E.check('oil is the complement', E.eq(o1, 1 - w1))
    for t in (fl.pressure, fl.s_w, fl.s_o):
        for a, b in zip(E.shape(t), g): E.check('fields keep their shape', E.eq(a, b))
