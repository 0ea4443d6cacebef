from engine.spec import contract
from . import lib


@contract('C31', ['Reservoir.__init__', 'Reservoir.permeability_tensors'])
def reservoir_units(E):
    g = E.grid()
    R = E.cls('simulator.reservoir', 'Reservoir')
    frac = E.flag('fraction_given')
    cfg = {'dimensions': list(g), 'grid_size': [E.real('dx', pos=True, samp=(1, 50)), E.real('dy', pos=True, samp=(1, 50)), E.real('dz', pos=True, samp=(1, 20))],
           'porosity': E.real('phi', pos=True, hi=1, samp=(0.05, 0.4)), 'permeability': E.real('kh', lo=0, samp=(1, 500)), 'c_rock': E.real('c_rock', pos=True, samp=(1e-6, 1e-3), log=True)}
    kvf = E.F('0.1')
    if frac: cfg['k_vertical_fraction'] = kvf = E.real('kvf', lo=0, samp=(0.01, 1.2))
    res = R(cfg)
    c = E.cell(g)
    mD = E.F('9.869233e-16')
    kx, ky, kz = res.permeability_tensors
    E.cover('cell')
    for n, t, f in (('x', kx, 1), ('y', ky, 1), ('z', kz, kvf)):
        E.check('permeability in m2 ' + n, E.eq(E.at(t, *c), cfg['permeability'] * f * mD, tol=1e-9))
        for a, b in zip(E.shape(t), g): E.check('permeability of every cell ' + n, E.eq(a, b))
    E.check('rock compressibility per Pa', E.eq(res.rock_compressibility, cfg['c_rock'] / 1000000))
    d = cfg['grid_size']
    E.check('cell volume', E.eq(E.num(res.cell_volume), d[0] * d[1] * d[2], tol=1e-6))
    E.check('pore volume is cell volume times porosity', E.eq(E.at(res.porous_volume, *c), d[0] * d[1] * d[2] * cfg['porosity'], tol=1e-6))
    for a, b in zip(res.dimensions, g): E.check('dimensions', E.eq(a, b))


@contract('C31', ['Fluid.__init__'])
def fluid_units(E):
    g = E.grid()
    res, rc = lib.reservoir(E, g)
    fc = lib.fluid_cfg(E)
    fc['s_w'] = E.real('s_w', lo=0, hi=1)
    fc['s_g'] = E.real('s_g', lo=0, hi=1)
    bad = fc['s_w'] + fc['s_g'] > 1
    F = E.cls('simulator.fluid', 'Fluid')
    box = {}

    def mk(): box['f'] = F(fc, res)
    r = E.raises(mk)
    E.cover('refused', bad); E.cover('accepted', E.not_(bad))
    # the limit itself is decided in floating point
    if r is not None:
        E.check('only impossible initial states are refused', bad)
        return
    E.check('an initial state above one is refused', E.not_(bad) if E.symbolic else fc['s_w'] + fc['s_g'] <= 1 + 1e-9)
    fl = box['f']
    c = E.cell(g)
    A = lambda t: E.at(t, *c)
    E.check('pressure in Pa', E.eq(A(fl.pressure), fc['pressure'] * 1000000))
    E.check('previous pressure starts as the initial one', E.eq(A(fl.prev_pressure), fc['pressure'] * 1000000))
    E.check('water saturation', E.eq(A(fl.s_w), fc['s_w']))
    E.check('gas saturation', E.eq(A(fl.s_g), fc['s_g']))
    E.check('previous saturations start as the initial ones', E.and_(E.eq(A(fl.prev_sw), fc['s_w']), E.eq(A(fl.prev_sg), fc['s_g'])))
    E.check('oil is what water and gas leave', E.eq(A(fl.s_o), 1 - fc['s_w'] - fc['s_g'], scale=1))
    for n, a, k in (('oil', fl.mu_oil, 'mu_oil'), ('water', fl.mu_water, 'mu_water'), ('gas', fl.mu_gas, 'mu_gas')):
        E.check('viscosity in Pa s: ' + n, E.eq(a, fc[k] / 1000))
    for n, a, k in (('oil', fl.oil_compressibility, 'c_oil'), ('water', fl.water_compressibility, 'c_water'), ('gas', fl.gas_compressibility, 'c_gas'), ('rock', fl.rock_compressibility, 'c_rock')):
        E.check('compressibility per Pa: ' + n, E.eq(a, fc[k] / 1000000))
    for n, a, k in (('oil', fl.rho_oil_ref, 'rho_oil'), ('water', fl.rho_water_ref, 'rho_water'), ('gas', fl.rho_gas_ref, 'rho_gas')):
        E.check('reference density: ' + n, E.eq(a, fc[k]))
    rp = fc['relative_permeability']
    for k in ('sw_cr', 'so_r', 'sg_cr'): E.check('saturation end point ' + k, E.eq(getattr(fl, k), rp[k]))


@contract('C31', ['Simulator.__init__', 'Simulator._move_data_to_device'])
def simulator_keeps_the_units(E):
    """building the simulator does not rescale what the reservoir and fluid hold"""
    g = E.grid()
    sim = lib.simulator(E, g, T=False, states=False)
    c = E.cell(g)
    E.cover('cell')
    E.check('pressure in Pa', E.eq(E.at(sim.fluid.pressure, *c), sim.fluid_cfg['pressure'] * 1000000))
    E.check('pore volume', E.eq(E.at(sim.porous_volume, *c), E.at(sim.reservoir.porous_volume, *c)))
