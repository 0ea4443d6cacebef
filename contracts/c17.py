from engine.spec import contract
from . import lib, wells
ASSUME = ['relative permeability enters as an arbitrary function of the saturations between 0 and 1 (C08), PVT look-ups as functions of pressure (C11)',
          'proved for one well on a grid with closed faces and one substep; concrete runs add other wells; faces and several wells add up by C02 and the additive source terms']
FN = ['Simulator._impes_saturation_step']


@contract('C17', FN)
def injectors(E):
    ph = E.choice('ph', ['water', 'gas'])
    o = wells.One(E, 'injector', 'rate', ph, 'surface', pvt=True)
    o.step()
    B = o.B('Bg' if ph == 'gas' else 'Bw')
    q = o.v * o.scale / 86400 * B
    n = 'g' if ph == 'gas' else 'w'

    def inside():
        E.cover('injected')
        E.check('surface target times the volume factor of its phase', E.eq(o.u[n], q, scale=o.pv / o.dt))
        E.check('nothing of the other phase', E.eq(o.u['w' if n == 'g' else 'g'], 0, scale=o.pv / o.dt))
    E.under(o.free() + [E.le(q * o.dt / o.pv, o.up), E.ge(o.up, E.F('1e-12'))], inside)


def producer(E, sp):
    o = wells.One(E, 'producer', 'rate', rt='surface', sp=sp, pvt=True)
    o.sane()
    o.step()
    y = o.yields()
    t = o.v * o.scale
    key = sp if sp in ('oil', 'water', 'gas') else 'liquid'
    q = E.div(t / 86400, y[key])
    big = [E.ge(y[key], E.F('1e-12'))] + ([E.ge(o.f['w'], E.F('1e-8'))] if key == 'water' else [])

    def inside():
        E.cover('produced')
        E.check('yields its target of the named phase', E.eq(E.num(o.well.last_surface_rates[key]), t))
        E.check('withdraws the rate that yields it', E.eq(E.num(o.well.last_q_total), -q))
    E.under(big + o.fits(q), inside)
    for k in ('oil', 'water', 'gas', 'liquid'):
        E.check('recorded surface rates are the yields of the rate applied', E.eq(E.num(o.well.last_surface_rates[k]), E.abs(E.num(o.well.last_q_total)) * y[k] * 86400))

    def moved():
        E.cover('moved')
        for n in 'wg': E.check('the cell loses the rate applied', E.eq(o.u[n], E.num(o.well.last_q_total) * o.f[n], scale=o.pv / o.dt))
    E.under(o.free(), moved)


@contract('C17', FN)
def oil_producer(E): producer(E, 'oil')


@contract('C17', FN)
def water_producer(E): producer(E, 'water')


@contract('C17', FN)
def gas_producer(E): producer(E, 'gas')


@contract('C17', FN)
def liquid_producer(E): producer(E, E.choice('sp', ['liquid', None]))
