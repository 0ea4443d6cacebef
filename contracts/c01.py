from engine.spec import contract
from . import lib
ASSUME = ['relative permeability enters the saturation update as an arbitrary function of the cell saturations with values in [0, 1] (C08)',
          'PVTTable.eval enters through its contract (C11): functions of pressure, positive volume factors and viscosities']


def window_hints(E, rp):
    lo, hi = rp['sw_cr'], 1 - rp['so_r']

    def at_least(x):
        def h(L, p, entry, val, vals, k, n):
            if not is_grid(val): return []
            return [(val.shape_, lambda i: E.ge(val.at(*i), x))]
        return h

    def room(L, p, entry, val, vals, k, n):
        if not is_grid(val): return []
        return [(val.shape_, lambda i, v=v: E.le(val.at(*i) + v.at(*i), hi)) for q, v in vals.items() if q != p and is_grid(v)]
    E.hint(at_least(rp['sw_cr'])); E.hint(at_least(rp['sg_cr'])); E.hint(room)


def is_grid(v): return 'shape_' in getattr(v, '__dict__', ()) and len(v.shape_) == 3


def wells(E, g, pvt, kinds):
    W = E.cls('simulator.well', 'Well')

    def gen(k):
        ty, ct, ph, rt, sp, lim = kinds(E)
        c = [E.int('w' + a, lo=0, samp=(0, 4)) for a in 'ijk']
        return W('W', ty, c[0], c[1], c[2], E.F('0.1'), ct, E.real('v', samp=(-50, 300)), g, injected_phase=ph, rate_type=rt, surface_phase=sp, limits=lim)
    return E.seq('wells', gen)


def run(E, kinds, pvt, og=False, params=True):
    g = E.grid()
    E.exit_by_invariant()
    E.stated_invariants_only()
    fc = lib.fluid_cfg(E, cap_og=og)
    ws = wells(E, g, pvt, kinds) if kinds else []
    given, params = params, {}
    if given and E.flag('params_given'):
        params = {'max_saturation_change': E.real('max_dS', pos=True, samp=(0.01, 0.2)), 'max_substeps': E.int('max_sub', lo=1, samp=(1, 12))}
    sim = lib.simulator(E, g, wells=ws, fcfg=fc, pvt=pvt, params=params)
    lib.abstract_curves(E, sim.fluid)
    rp = fc['relative_permeability']
    window_hints(E, rp)
    P = E.field('P1', g, pos=True, samp=(1e6, 5e7))
    dt = E.real('dt', pos=True, samp=(10, 3e6), log=True)
    sim._impes_saturation_step(P, dt)
    f = sim.fluid
    E.cover('update')
    E.cuts = (60, 150, 300, 600, 1000)

    def at(*q):
        w, s, o = E.at(f.s_w, *q), E.at(f.s_g, *q), E.at(f.s_o, *q)
        E.check('water saturation at least connate', E.ge(w, rp['sw_cr'], 1))
        E.check('gas saturation at least critical', E.ge(s, rp['sg_cr'], 1))
        E.check('oil saturation at least residual', E.ge(o, rp['so_r'], 1))
        E.check('saturations sum to one', E.eq(w + s + o, 1))
    E.forall(g, at)


def rate_injector(E): return 'injector', 'rate', E.choice('ph', ['water', 'gas']), E.choice('rt', ['reservoir', 'surface']), None, None
def bhp_any(E): return E.choice('ty', ['injector', 'producer']), 'bhp', E.choice('ph', ['water', 'gas']), 'reservoir', None, None
def producer_plain(E): return 'producer', 'rate', 'water', 'reservoir', None, None


FN = ['Simulator._impes_saturation_step']


@contract('C01', FN)
def no_wells(E): run(E, None, E.flag('pvt'), og=True)


@contract('C01', FN)
def rate_injectors(E): run(E, rate_injector, E.flag('pvt'))


@contract('C01', FN)
def bhp_wells(E): run(E, bhp_any, E.flag('pvt'))


@contract('C01', FN)
def reservoir_rate_producers(E): run(E, producer_plain, E.flag('pvt'))


def limits(E, ks=('wopr', 'wlpr', 'wgpr', 'liqr')):
    """limits on these rates"""
    return {k: E.real(k, lo=0, samp=(0, 300)) for k in ks}


def producer_limited(*ks):
    return lambda E: ('producer', 'rate', 'water', 'reservoir', None, limits(E, ks))


def producer_surface(sp):
    return lambda E: ('producer', 'rate', 'water', 'surface', sp, limits(E) if not E.symbolic and E.flag('limited') else None)


@contract('C01', FN)
def oil_and_gas_limited_producers(E): run(E, producer_limited('wopr', 'wgpr'), True, params=False)


@contract('C01', FN)
def liquid_limited_producers(E): run(E, producer_limited('wlpr', 'liqr'), True, params=False)


@contract('C01', FN)
def surface_oil_producers(E): run(E, producer_surface('oil'), True, params=False)


@contract('C01', FN)
def surface_water_producers(E): run(E, producer_surface('water'), True, params=False)


@contract('C01', FN)
def surface_gas_producers(E): run(E, producer_surface('gas'), True, params=False)


@contract('C01', FN)
def surface_liquid_producers(E): run(E, producer_surface('liquid'), True, params=False)
