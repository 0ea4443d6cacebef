from engine.spec import contract
from . import lib, wells
ASSUME = ['relative permeability enters as an arbitrary function of the saturations between 0 and 1 (C08), PVT look-ups as functions of pressure (C11)',
          'proved for one well and one substep; concrete runs add other wells in other cells']
FN = ['Simulator._impes_saturation_step']


def injector(E, flow, rt, pvt):
    ph = E.choice('ph', ['water', 'gas'])
    o = wells.One(E, 'injector', 'rate', ph, rt, pvt=pvt, flow=flow, vmax=40 if flow else 200)
    o.step()
    n, m = ('g', 'w') if ph == 'gas' else ('w', 'g')
    B = o.B('Bg' if ph == 'gas' else 'Bw') if pvt and rt == 'surface' else 1
    q = o.v * o.scale / 86400 * B
    k = o.dt / o.pv

    def inside():
        E.cover('injected')
        E.check('an injector only adds', E.ge(o.u[n], 0, scale=1 / k))
        E.check('an injector adds no more than its target', E.le(o.u[n], q, scale=1 / k))
        E.check('an injector adds no more than the room of its cell', E.le(o.u[n] * k, o.up, scale=1))
        E.check('an injector adds nothing of the other phase', E.eq(o.u[m], 0, scale=1 / k))
    E.under(o.free(), inside)
    if ph == 'gas' and pvt:
        o.sane()
        gas = E.num(o.sim.component_balance['gas']['in'])
        if not E.symbolic and len(o.sim.well_manager.get_wells()) > 1: return
        E.check('gas booked is no more than the room of the cell holds', E.le(gas * o.B('Bg'), o.up * o.pv, scale=o.pv))


@contract('C16', FN)
def reservoir_injectors(E): injector(E, False, 'reservoir', E.flag('pvt'))


@contract('C16', FN)
def surface_injectors(E): injector(E, False, 'surface', True)


@contract('C16', FN, mode='bounded', trials=2000)
def injectors_in_a_flow(E): injector(E, True, E.choice('rt', ['reservoir', 'surface']), E.flag('pvt'))


KEYS = {'wopr': 'oil', 'wlpr': 'water', 'wgpr': 'gas', 'liqr': 'liquid'}


def producer(E, rt, ks, sp=None):
    lim = {k: E.real(k, lo=0, samp=(0, 300)) for k in ks} or None
    o = wells.One(E, 'producer', 'rate', rt=rt, sp=sp, limits=lim, pvt=True)
    o.sane()
    o.step()
    q = E.num(o.well.last_q_total)
    k = o.dt / o.pv
    E.cover('produced')
    E.check('a producer only withdraws', E.le(q, 0, scale=1 / k))
    for n in 'wg': E.check('a producer takes no more than its cell can give', E.le(-q * o.f[n] * k, o.down[n], scale=1))
    if rt == 'reservoir': E.check('a producer takes no more than its target', E.le(-q, o.v * o.scale / 86400))
    elif sp:
        y = o.yields()[sp]
        E.check('a producer takes no more than its target', E.le(-q * y * 86400, o.v * o.scale))
    if lim:
        y = o.yields()
        for a in ks:
            E.check('surface rates stay within their limits', E.le(-q * y[KEYS[a]] * 86400, lim[a]))
            E.check('recorded surface rates stay within their limits', E.le(E.num(o.well.last_surface_rates[KEYS[a]]), lim[a]))

    if lim and E.symbolic: return

    def moved():
        E.cover('moved')
        for n in 'wg': E.check('the cell loses what the well records', E.eq(o.u[n], q * o.f[n], scale=1 / k))
    E.under(o.free(), moved)


@contract('C16', FN)
def reservoir_producers(E): producer(E, 'reservoir', ())


@contract('C16', FN)
def surface_oil_and_gas_producers(E): producer(E, 'surface', (), E.choice('sp', ['oil', 'gas']))


@contract('C16', FN)
def surface_water_and_liquid_producers(E): producer(E, 'surface', (), E.choice('sp', ['water', 'liquid']))


def limited(E, rt, ks, sp=None):
    if E.symbolic or not E.flag('all_limits'): return producer(E, rt, ks, sp)
    producer(E, rt, tuple(KEYS), sp)


@contract('C16', FN)
def oil_limit_at_reservoir_rate(E): limited(E, 'reservoir', ('wopr',), None)


@contract('C16', FN)
def oil_limit_at_surface_rate(E): limited(E, 'surface', ('wopr',), 'liquid')


@contract('C16', FN)
def water_limit_at_reservoir_rate(E): limited(E, 'reservoir', ('wlpr',), None)


@contract('C16', FN)
def water_limit_at_surface_rate(E): limited(E, 'surface', ('wlpr',), 'liquid')


@contract('C16', FN)
def gas_limit_at_reservoir_rate(E): limited(E, 'reservoir', ('wgpr',), None)


@contract('C16', FN)
def gas_limit_at_surface_rate(E): limited(E, 'surface', ('wgpr',), 'oil')


@contract('C16', FN)
def liquid_limit_at_reservoir_rate(E): limited(E, 'reservoir', ('liqr',), None)


@contract('C16', FN)
def liquid_limit_at_surface_rate(E): limited(E, 'surface', ('liqr',), 'oil')


@contract('C16', FN, mode='bounded')
def two_limits(E): limited(E, 'reservoir', ('wopr', 'wgpr'))


@contract('C16', FN)
def producers_without_a_table(E):
    o = wells.One(E, 'producer', 'rate')
    o.step()
    q = o.v * o.scale / 86400

    def inside():
        E.cover('produced')
        for n in 'wg':
            E.check('a producer only withdraws', E.le(o.u[n], 0, scale=o.pv / o.dt))
            E.check('a producer takes no more than its target', E.le(-o.u[n], q, scale=o.pv / o.dt))
    E.under(o.free(), inside)
