"""Shared set-up used by the contracts; written against the environment E, so the same text builds
symbolic inputs for the prover and random concrete ones for the replayer."""


class Wells:
    """what a simulator asks of its well manager"""
    def __init__(self, ws): self.ws = ws
    def get_wells(self): return self.ws


def reservoir(E, g, **kw):
    R = E.cls('simulator.reservoir', 'Reservoir')
    cfg = {'dimensions': list(g), 'grid_size': [E.real('dx', pos=True, samp=(1, 50)), E.real('dy', pos=True, samp=(1, 50)),
                                               E.real('dz', pos=True, samp=(1, 20))],
           'porosity': E.real('phi', pos=True, hi=1, samp=(0.05, 0.4)), 'permeability': E.real('kh', lo=0, samp=(1, 500)),
           'k_vertical_fraction': E.real('kvf', lo=0, hi=1, samp=(0.01, 1)), 'c_rock': E.real('c_rock', pos=True, samp=(1e-6, 1e-3), log=True)}
    cfg.update(kw)
    return R(cfg), cfg


def fluid_cfg(E, capillary=False, cap_og=False, relperm=None):
    cfg = {'pressure': E.real('p0', pos=True, samp=(5, 40)), 's_w': E.F('0.3'), 's_g': 0,
           'mu_oil': E.real('mu_o', pos=True, samp=(0.3, 10)), 'mu_water': E.real('mu_w', pos=True, samp=(0.2, 2)),
           'mu_gas': E.real('mu_g', pos=True, samp=(0.01, 0.1)),
           'rho_oil': E.real('rho_o', pos=True, samp=(600, 950)), 'rho_water': E.real('rho_w', pos=True, samp=(950, 1200)),
           'rho_gas': E.real('rho_g', pos=True, samp=(0.5, 2)),
           'c_oil': E.real('c_oil', pos=True, samp=(1e-5, 1e-2), log=True), 'c_water': E.real('c_water', pos=True, samp=(1e-5, 1e-2), log=True),
           'c_gas': E.real('c_gas', pos=True, samp=(1e-4, 5e-2), log=True), 'c_rock': E.real('c_rock_f', pos=True, samp=(1e-6, 1e-3), log=True)}
    rp = {'sw_cr': E.real('sw_cr', lo=0, samp=(0, 0.25)), 'so_r': E.real('so_r', lo=0, samp=(0, 0.25)), 'sg_cr': E.real('sg_cr', lo=0, samp=(0, 0.1))}
    E.assume(rp['sw_cr'] + rp['so_r'] + rp['sg_cr'] < 1)
    if relperm: rp.update(relperm)
    cfg['relative_permeability'] = rp
    if capillary:
        cfg['capillary_pressure'] = {'pc_scale': E.real('pc_scale', pos=True, samp=(1e3, 1e5)), 'pc_exponent': E.choice('pc_exp', [1, 2]),
                                     'pc_threshold': E.F('0.01')}
    if cap_og:
        cfg['capillary_pressure_og'] = {'pc_scale': E.real('pcog_scale', pos=True, samp=(1e3, 1e5)), 'pc_exponent': E.choice('pcog_exp', [1, 2])}
    return cfg


def simulator(E, g, wells=(), params=None, fcfg=None, rcfg=None, T=True, perm=False, states=True, pvt=False):
    """a simulator built by the real constructors on an arbitrary grid, then given an arbitrary state"""
    res, rc = reservoir(E, g, **(rcfg or {}))
    F = E.cls('simulator.fluid', 'Fluid')
    fcfg = fcfg or fluid_cfg(E)
    fl = F(fcfg, res)
    S = E.cls('simulator.simulation', 'Simulator')
    p = {'solver_type': 'impes'}
    p.update(params or {})
    if perm:
        for a in 'xyz': setattr(res, 'permeability_' + a, E.field('k' + a, g, lo=0, samp=(1e-16, 1e-12), log=True))
    sim = S(res, fl, Wells(list(wells) if isinstance(wells, tuple) else wells), p)
    if T:
        nx, ny, nz = g
        sim.T_x = E.field('Tx', (nx - 1, ny, nz), lo=0, samp=(0, 1e-10))
        sim.T_y = E.field('Ty', (nx, ny - 1, nz), lo=0, samp=(0, 1e-10))
        sim.T_z = E.field('Tz', (nx, ny, nz - 1), lo=0, samp=(0, 1e-10))
    if states:
        rp = fcfg['relative_permeability']
        fl.s_w, fl.s_g = E.sat(g, rp['sw_cr'], rp['sg_cr'], rp['so_r'])
        fl.s_o = 1 - fl.s_w - fl.s_g
        fl.pressure = E.field('P', g, pos=True, samp=(5e6, 4e7))
    sim.fluid_cfg = fcfg
    if pvt: fl.pvt = E.pvt()
    return sim


def abstract_curves(E, fl):
    """relative permeabilities and capillary curves enter through their contracts (C08, C09): arbitrary
    functions of the cell's saturations, relative permeabilities between 0 and 1.  Concrete runs keep the real ones."""
    if not E.symbolic: return
    o, w, g = E.curve('kro', 0, 1), E.curve('krw', 0, 1), E.curve('krg', 0, 1)
    pc, pg = E.curve('pcow', 0), E.curve('pcog', 0)
    fl.calc_oil_kr = lambda s_w, s_g=None: o(s_w, fl.s_g if s_g is None else s_g)
    fl.calc_water_kr = lambda s_w: w(s_w)
    fl.calc_gas_kr = lambda s_g: g(s_g)
    fl.get_capillary_pressure = lambda s_w: pc(s_w)
    fl.get_capillary_pressure_og = lambda s_g: pg(s_g)


def mobilities(E, sim, P):
    """phase mobilities at a pressure field: relative permeability over viscosity (Pa s)"""
    fl = sim.fluid
    kro, krw, krg = fl.get_rel_perms(fl.s_w)
    if fl.pvt is None:
        c = sim.fluid_cfg
        mu = {n: (lambda *q, v=v: v / 1000) for n, v in (('w', c['mu_water']), ('o', c['mu_oil']), ('g', c['mu_gas']))}
    else:
        mu = {n: (lambda *q, n=n: E.pvtval(fl.pvt, 'mu_' + n, E.at(P, *q) / 1000000) / 1000) for n in 'wog'}
    kr = {'w': krw, 'o': kro, 'g': krg}
    return {n: (lambda *q, n=n: E.at(kr[n], *q) / mu[n](*q)) for n in 'wog'}
