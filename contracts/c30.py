from engine.spec import contract
from . import lib, wells
ASSUME = ['both equations are compared at the same pressure field: mobilities of the pressure equation are those of the state at that pressure',
          'proved for one well; concrete runs add other wells in other cells; any number of wells enters the pressure equation by C06']
FN = ['Simulator._calculate_well_terms', 'Simulator._impes_saturation_step']


def pressure_rate(E, o):
    """volume rate that the pressure equation gives the cell of the well, and by how much a unit of pressure lowers it"""
    sim, fl = o.sim, o.sim.fluid
    kro, krw, krg = fl.get_rel_perms(fl.s_w)
    mu = lambda key, fixed: fl._eval_pvt(o.P, key) * E.F('0.001') if o.pvt else fixed
    mt = krw / mu('mu_w', fl.mu_water) + kro / mu('mu_o', fl.mu_oil) + krg / mu('mu_g', fl.mu_gas)
    q, b = sim._calculate_well_terms(mt, o.P)
    n = E.idx(o.g, *o.c)
    return E.at(q, n) - E.at(b, n) * o.p, E.at(b, n)


def agree(E, o, q, shares, conds, what):
    k = o.pv / o.dt

    def inside():
        E.cover(what)
        for n in 'wg': E.check('saturation update: phase share of the rate of the pressure equation', E.eq(o.u[n], q * shares[n], scale=k))
    E.under(o.free() + conds, inside)


def producer_rate(E, pvt):
    o = wells.One(E, 'producer', 'rate', pvt=pvt)
    q, b = pressure_rate(E, o)
    E.check('pressure equation: a rate producer withdraws its target', E.and_(E.eq(q, -o.v * o.scale / 86400), E.eq(b, 0)))
    o.step()
    agree(E, o, q, o.f, o.fits(-q) if pvt else [], 'rate producer')


@contract('C30', FN)
def rate_producers(E): producer_rate(E, False)


@contract('C30', FN)
def rate_producers_with_a_table(E): producer_rate(E, True)


@contract('C30', FN)
def rate_injectors(E):
    ph = E.choice('ph', ['water', 'gas'])
    o = wells.One(E, 'injector', 'rate', ph, pvt=E.flag('pvt'))
    q, b = pressure_rate(E, o)
    E.check('pressure equation: a rate injector adds its target', E.and_(E.eq(q, o.v * o.scale / 86400), E.eq(b, 0)))
    o.step()
    agree(E, o, q, {'w': 1 if ph == 'water' else 0, 'g': 1 if ph == 'gas' else 0}, [E.le(q * o.dt / o.pv, o.up), E.ge(o.up, E.F('1e-12'))], 'rate injector')


def bhp(E, ty, pvt):
    ph = E.choice('ph', ['water', 'gas']) if ty == 'injector' else 'water'
    o = wells.One(E, ty, 'bhp', ph, pvt=pvt)
    q, b = pressure_rate(E, o)
    wi = E.num(o.well.well_index)
    E.check('pressure equation: well index times mobility times pressure difference', E.eq(q, wi * o.mt * (o.v * 1000000 - o.p)))
    o.step()
    agree(E, o, q, o.f if ty == 'producer' else {'w': 1 if ph == 'water' else 0, 'g': 1 if ph == 'gas' else 0}, [], 'pressure well')


@contract('C30', FN)
def pressure_producers(E): bhp(E, 'producer', E.flag('pvt'))


@contract('C30', FN)
def pressure_injectors(E): bhp(E, 'injector', E.flag('pvt'))


# wells for which the two equations of the current tree differ (see known-findings.json)
@contract('C30', FN, mode='bounded')
def choked_wells(E):
    o = wells.One(E, 'producer', 'rate', pvt=True, others=False)
    q, b = pressure_rate(E, o)
    o.step()
    if all(bool(c) for c in o.fits(-q)): return
    E.check('the pressure was solved for the rate left by the availability choke', E.eq(E.num(o.well.last_q_total), q))


@contract('C30', FN, mode='bounded')
def limited_wells(E):
    o = wells.One(E, 'producer', 'rate', pvt=True, others=False, limits={'liqr': E.real('liqr', pos=True, samp=(0.1, 50))})
    q, b = pressure_rate(E, o)
    o.step()
    if not all(bool(c) for c in o.fits(-q)): return
    E.check('the pressure was solved for the rate left by the limits', E.eq(E.num(o.well.last_q_total), q))


@contract('C30', FN, mode='bounded')
def wells_with_a_minimum_pressure(E):
    o = wells.One(E, 'producer', 'rate', others=False)
    o.well.bhp_min = E.real('bhp_min', pos=True, samp=(1, 40))
    q, b = pressure_rate(E, o)
    o.step()
    if not all(o.free()): return
    E.check('the saturation update follows the switch to the minimum pressure', E.and_(*[E.eq(o.u[n], q * o.f[n], scale=o.pv / o.dt) for n in 'wg']))
