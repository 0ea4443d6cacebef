from engine.spec import contract
from . import lib

FN = ['Fluid.calc_water_density', 'Fluid.calc_oil_density', 'Fluid.calc_gas_density', 'Fluid.rho_w', 'Fluid.rho_o', 'Fluid.rho_g', 'Fluid._eval_pvt']


def fluid(E, g, fc):
    res, rc = lib.reservoir(E, g)
    return E.cls('simulator.fluid', 'Fluid')(fc, res)


@contract('C10', FN + ['Fluid.__init__'])
def no_table(E):
    g = E.grid()
    fc = lib.fluid_cfg(E)
    fl = fluid(E, g, fc)
    p = E.field('P', g, samp=(0, 5e7))
    q = E.field('Q', g, samp=(0, 5e7))
    fl.pressure = p
    c = E.cell(g)
    E.cover('cell')
    for n, ref, comp, prop, fn in (('water', 'rho_water', 'c_water', 'rho_w', 'calc_water_density'), ('oil', 'rho_oil', 'c_oil', 'rho_o', 'calc_oil_density'),
                                   ('gas', 'rho_gas', 'c_gas', 'rho_g', 'calc_gas_density')):
        def law(x): return fc[ref] * (1 + fc[comp] / 1000000 * (x - 100000))
        E.check('state density of ' + n, E.eq(E.at(getattr(fl, prop), *c), law(E.at(p, *c))))
        E.check('density function of ' + n, E.eq(E.at(getattr(fl, fn)(q), *c), law(E.at(q, *c))))
    E.check('constant compressibility without a table', E.eq(E.at(fl.calc_total_compressibility(q, fl.s_w, fl.s_g), *c),
                                                             E.div(fc['c_oil'] + fc['c_water'] + fc['c_gas'] + fc['c_rock'], 3) / 1000000))


@contract('C10', FN)
def with_table(E):
    g = E.grid()
    fc = lib.fluid_cfg(E)
    fl = fluid(E, g, fc)
    fl.pvt = E.pvt()
    p = E.field('P', g, pos=True, samp=(5e5, 5e7))
    q = E.field('Q', g, pos=True, samp=(5e5, 5e7))
    fl.pressure = p
    c = E.cell(g)
    E.cover('cell')
    V = lambda k, x: E.pvtval(fl.pvt, k, x / 1000000)

    def mass(n, x):
        if n == 'water': return fc['rho_water'], V('Bw', x)
        if n == 'oil': return fc['rho_oil'] + V('Rs', x) * fc['rho_gas'], V('Bo', x)
        return fc['rho_gas'] + V('Rv', x) * fc['rho_oil'], V('Bg', x)
    for n, prop, fn in (('water', 'rho_w', 'calc_water_density'), ('oil', 'rho_o', 'calc_oil_density'), ('gas', 'rho_g', 'calc_gas_density')):
        a, b, d = E.at(getattr(fl, prop), *c), E.at(getattr(fl, fn)(q), *c), E.at(getattr(fl, fn)(p), *c)
        for where, v, x in (('state density of ', a, E.at(p, *c)), ('density function of ', b, E.at(q, *c))):
            m, B = mass(n, x)
            # the source regularises the division by 1e-12
            E.check(where + n, E.and_(E.le(v * B, m), E.ge(v * (B + E.F('1e-12')), m)))
        E.check('same through both interfaces: ' + n, E.eq(a, d))
    for n, prop, key in (('water', 'mu_w', 'mu_w'), ('oil', 'mu_o', 'mu_o'), ('gas', 'mu_g', 'mu_g')):
        E.check('viscosity in Pa s from the table in cP: ' + n, E.eq(E.at(getattr(fl, prop), *c), V(key, E.at(p, *c)) / 1000))


@contract('C10', ['Fluid.calc_total_compressibility', 'Fluid._eval_pvt'])
def compressibility(E):
    g = E.grid()
    fc = lib.fluid_cfg(E)
    fl = fluid(E, g, fc)
    fl.pvt = E.pvt()
    q = E.field('Q', g, pos=True, samp=(5e5, 5e7))
    sw, sg = E.field('sw', g, lo=0, hi=1), E.field('sg', g, lo=0, hi=1)
    c = E.cell(g)
    ct = E.at(fl.calc_total_compressibility(q, sw, sg), *c)
    x = E.at(q, *c)
    h = E.F('0.1')
    V = lambda k, y: E.pvtval(fl.pvt, k, y)
    slope = {}
    for k in ('Bw', 'Bo', 'Bg'):
        slope[k] = -E.div((V(k, x / 1000000 + h) - V(k, x / 1000000 - h)) / (2 * h), V(k, x / 1000000) + E.F('1e-12')) / 1000000
    w, gg = E.at(sw, *c), E.at(sg, *c)
    E.cover('cell')
    E.check('rock plus saturation-weighted relative slopes', E.eq(ct, fc['c_rock'] / 1000000 + w * slope['Bw'] + (1 - w - gg) * slope['Bo'] + gg * slope['Bg'], scale=1e-8, tol=1e-6))
