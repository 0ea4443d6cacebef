from engine.spec import contract
from . import lib


def fluid(E, g, generic, scale=True):
    if generic:
        rp = {n: E.real(n, lo=1, samp=(1, 4)) for n in ('nw', 'no', 'ng')}
        ex = [E.real('pce', pos=True, samp=(0.3, 2)), E.real('pcoge', pos=True, samp=(0.3, 2))]
    else:
        m = E.choice('exps', [(1, 2, 3, 1, 2), (2, 3, 1, 2, 1), (3, 1, 2, 1, 1)])
        rp = dict(zip(('nw', 'no', 'ng'), m))
        ex = m[3:]
    fc = lib.fluid_cfg(E, relperm=rp)
    fc['capillary_pressure'] = {'pc_scale': E.real('pc_scale', lo=0, samp=(0, 1e5)) if scale else 0, 'pc_exponent': ex[0]}
    fc['capillary_pressure_og'] = {'pc_scale': E.real('pcog_scale', lo=0, samp=(0, 1e5)) if scale else 0, 'pc_exponent': ex[1]}
    res, rc = lib.reservoir(E, g)
    fl = E.cls('simulator.fluid', 'Fluid')(fc, res)
    return fl, fc


SG = dict(samp=(-0.2, 1.2))


def curves(E, generic):
    g = E.grid()
    fl, fc = fluid(E, g, generic)
    w1, w2 = E.field('w1', g, **SG), E.field('w2', g, **SG)
    c = E.cell(g)
    a, b = E.at(w1, *c), E.at(w2, *c)
    for n, f in (('oil-water', fl.get_capillary_pressure), ('gas-oil', fl.get_capillary_pressure_og)):
        p, q = E.at(f(w1), *c), E.at(f(w2), *c)
        E.cover(n)
        E.check('non-negative ' + n, E.ge(p, 0))
        E.check('non-decreasing ' + n, E.implies(E.le(a, b), E.le(p, q)))


FN = ['Fluid.get_capillary_pressure', 'Fluid.get_capillary_pressure_og', 'Fluid._get_normalized_saturation']


@contract('C09', FN)
def capillary_curves(E): curves(E, False)


@contract('C09', FN)
def capillary_curves_any_exponent(E): curves(E, True)


@contract('C09', FN + ['Fluid.get_capillary_pressure_derivative', 'Fluid.get_capillary_pressure_og_derivative'])
def no_capillarity(E):
    g = E.grid()
    fl, fc = fluid(E, g, False, scale=False)
    w = E.field('w1', g, **SG)
    c = E.cell(g)
    for n in ('get_capillary_pressure', 'get_capillary_pressure_og', 'get_capillary_pressure_derivative', 'get_capillary_pressure_og_derivative'):
        t = getattr(fl, n)(w)
        E.check('zero when the scale is zero: ' + n, E.eq(E.at(t, *c), 0))
        for x, y in zip(E.shape(t), g): E.check('one value per cell: ' + n, E.eq(x, y))


def between(E, v, x, rel='1e-6'):
    """v equals x up to the 1e-10 regularisations of the source"""
    e = E.F(rel) * E.abs(x)
    return E.and_(E.le(v, x + e), E.ge(v, x - e))


def derivs(E, generic):
    g = E.grid()
    fl, fc = fluid(E, g, generic)
    R = 1 - fl.sw_cr - fl.so_r
    E.assume(R >= E.F('0.01'))
    w = E.field('w1', g, **SG)
    c = E.cell(g)
    s = E.at(w, *c)
    rp, pc, pg = fc['relative_permeability'], fc['capillary_pressure'], fc['capillary_pressure_og']
    A = lambda t: E.at(t, *c)
    dkro, dkrw = fl.get_rel_perms_derivatives(w)
    inside = E.and_(s > fl.sw_cr, s < 1 - fl.so_r)
    outside = E.or_(s < fl.sw_cr, s > 1 - fl.so_r)
    ginside = E.and_(s > 0, s < R)
    goutside = E.or_(s < 0, s > R + E.F('1e-9'))
    got = (('water (pair)', A(dkrw)), ('oil (pair)', A(dkro)), ('water', A(fl.calc_dkrw_dsw(w))), ('oil', A(fl.calc_dkro_dsw(w))),
           ('capillary', A(fl.get_capillary_pressure_derivative(w))))
    ggot = (('gas', A(fl.calc_dkrg_dsg(w))), ('gas-oil capillary', A(fl.get_capillary_pressure_og_derivative(w))))
    E.cover('inside', inside); E.cover('outside', outside)

    def ins():
        E.assume(inside)
        x = (s - fl.sw_cr) / R
        kw = rp['nw'] * E.pow(x, rp['nw'] - 1) / R
        ko = -(rp['no'] * E.pow(1 - x, rp['no'] - 1)) / R
        cp = pc['pc_scale'] * pc['pc_exponent'] * E.pow(1 - x + E.F('1e-6'), -pc['pc_exponent'] - 1) / R
        for (n, v), y in zip(got, (kw, ko, kw, ko, cp)): E.check('derivative inside: ' + n, E.eq(v, y, tol=1e-6))

    def gins():
        E.assume(ginside)
        x = s / (R + E.F('1e-10'))
        z = s / (R + E.F('1e-12'))
        y = rp['ng'] * E.pow(x, rp['ng'] - 1) / R
        E.check('derivative inside: gas', between(E, ggot[0][1], y))
        y = pg['pc_scale'] * pg['pc_exponent'] * E.pow(1 - z + E.F('1e-6'), -pg['pc_exponent'] - 1) / (R + E.F('1e-12'))
        E.check('derivative inside: gas-oil capillary', E.eq(ggot[1][1], y, tol=1e-5))

    def out():
        E.assume(outside)
        for n, v in got: E.check('zero outside: ' + n, E.eq(v, 0))

    def gout():
        E.assume(goutside)
        for n, v in ggot: E.check('zero outside: ' + n, E.eq(v, 0))
    for f in (ins, gins, out, gout): E.scoped(f)


DF = ['Fluid.get_rel_perms_derivatives', 'Fluid.calc_dkrw_dsw', 'Fluid.calc_dkro_dsw', 'Fluid.calc_dkrg_dsg',
      'Fluid.get_capillary_pressure_derivative', 'Fluid.get_capillary_pressure_og_derivative']


@contract('C09', DF)
def derivatives(E): derivs(E, False)


@contract('C09', DF)
def derivatives_any_exponent(E): derivs(E, True)
