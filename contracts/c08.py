from engine.spec import contract
from . import lib


def exponents(E, generic):
    if generic: return {n: E.real(n, lo=1, samp=(1, 4)) for n in ('nw', 'no', 'ng')}
    return {n: E.choice(n, [1, 2, 3]) for n in ('nw', 'no', 'ng')}


def fluid(E, g, rp):
    res, rc = lib.reservoir(E, g)
    return E.cls('simulator.fluid', 'Fluid')(lib.fluid_cfg(E, relperm=rp), res)


def curves(E, fl, stone, ke=None):
    g = fl.dimensions
    kw = dict(samp=(-0.2, 1.2))
    w1, w2 = E.field('w1', g, **kw), E.field('w2', g, **kw)
    g1, g2 = E.field('g1', g, **kw), E.field('g2', g, **kw)
    o1, k1, r1 = fl.get_rel_perms(w1, g1)
    o2, k2, r2 = fl.get_rel_perms(w2, g2)
    c = E.cell(g)
    a, b, x, y = E.at(w1, *c), E.at(w2, *c), E.at(g1, *c), E.at(g2, *c)
    A = lambda t: E.at(t, *c)
    top = 1
    if stone: top = E.max(ke[0], ke[1])
    E.cover('cell')
    E.check('water between zero and one', E.and_(E.ge(A(k1), 0), E.le(A(k1), 1)))
    E.check('gas between zero and one', E.and_(E.ge(A(r1), 0), E.le(A(r1), 1)))
    E.check('oil between zero and its end point', E.and_(E.ge(A(o1), 0), E.le(A(o1), top)))
    E.check('water does not decrease with water', E.implies(E.le(a, b), E.le(A(k1), A(k2))))
    E.check('gas does not decrease with gas', E.implies(E.le(x, y), E.le(A(r1), A(r2))))
    E.check('oil does not increase with water or gas', E.implies(E.and_(E.le(a, b), E.le(x, y)), E.ge(A(o1), A(o2), scale=1)))
    E.check('water immobile at connate water', E.implies(a <= fl.sw_cr, E.eq(A(k1), 0)))
    E.check('gas immobile at zero gas', E.implies(x <= 0, E.eq(A(r1), 0)))
    E.check('water depends on water only', E.implies(E.eq(a, b), E.eq(A(k1), A(k2))))
    E.check('gas depends on gas only', E.implies(E.eq(x, y), E.eq(A(r1), A(r2))))
    E.check('water reaches one at residual oil', E.implies(a >= 1 - fl.so_r, E.eq(A(k1), 1)))
    return a, x, A(o1), top


@contract('C08', ['Fluid.__init__', 'Fluid.get_rel_perms', 'Fluid.calc_water_kr', 'Fluid.calc_oil_kr', 'Fluid.calc_gas_kr', 'Fluid._get_normalized_saturation'])
def corey(E):
    g = E.grid()
    fl = fluid(E, g, exponents(E, False))
    a, x, kro, top = curves(E, fl, False)
    E.check('oil immobile at residual oil', E.implies(a >= 1 - fl.so_r, E.eq(kro, 0)))
    E.check('oil reaches its end point at connate water', E.implies(a <= fl.sw_cr, E.eq(kro, 1)))


@contract('C08', ['Fluid.__init__', 'Fluid.get_rel_perms', 'Fluid.calc_water_kr', 'Fluid.calc_oil_kr', 'Fluid.calc_gas_kr', 'Fluid._get_normalized_saturation'])
def corey_any_exponent(E):
    g = E.grid()
    fl = fluid(E, g, exponents(E, True))
    a, x, kro, top = curves(E, fl, False)
    E.check('oil immobile at residual oil', E.implies(a >= 1 - fl.so_r, E.eq(kro, 0)))
    E.check('oil reaches its end point at connate water', E.implies(a <= fl.sw_cr, E.eq(kro, 1)))


@contract('C08', ['Fluid.calc_oil_kr', 'Fluid.get_rel_perms'])
def stone2(E):
    g = E.grid()
    ke = (E.real('ko_end_w', pos=True, hi=1, samp=(0.3, 1)), E.real('ko_end_g', pos=True, hi=1, samp=(0.3, 1)))
    rp = exponents(E, True)
    rp.update({'model': 'stone2', 'ko_end_w': ke[0], 'ko_end_g': ke[1], 'now': E.real('now', lo=1, samp=(1, 4)), 'nog': E.real('nog', lo=1, samp=(1, 4))})
    fl = fluid(E, g, rp)
    a, x, kro, top = curves(E, fl, True, ke)
    # the source regularises the normalisation by 1e-12, so the end of the window is met to 1e-9
    E.assume(1 - fl.sw_cr - fl.so_r >= E.F('0.01'))
    tail = ke[0] * E.F('1e-9')
    E.check('oil immobile at residual oil', E.implies(E.and_(a >= 1 - fl.so_r, ke[1] <= ke[0]), E.and_(E.ge(kro, 0), E.le(kro, tail))))
    E.check('oil immobile at residual oil when the gas end point is the larger', E.implies(E.and_(a >= 1 - fl.so_r, ke[1] > ke[0]), E.and_(E.ge(kro, 0), E.le(kro, tail))))
    E.check('oil reaches its end point at connate water without gas', E.implies(E.and_(a <= fl.sw_cr, x <= 0), E.eq(kro, top)))


@contract('C08', ['Fluid.get_rel_perms', 'Fluid.calc_oil_kr'])
def state_gas_is_the_default(E):
    """without an explicit gas saturation the state's own is used"""
    g = E.grid()
    rp = {'nw': 2, 'no': 2, 'ng': 2, 'model': E.choice('model', ['corey', 'stone2'])}
    fl = fluid(E, g, rp)
    w = E.field('w1', g, samp=(-0.2, 1.2))
    fl.s_g = E.field('g1', g, samp=(-0.2, 1.2))
    a = fl.get_rel_perms(w)
    b = fl.get_rel_perms(w, fl.s_g)
    c = E.cell(g)
    E.cover('cell')
    for n, p, q in zip(('oil', 'water', 'gas'), a, b): E.check('same as with the state\'s gas: ' + n, E.eq(E.at(p, *c), E.at(q, *c)))
