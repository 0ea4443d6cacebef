from engine.spec import contract
from . import lib, wells
ASSUME = ['relative permeability enters as an arbitrary function of the saturations between 0 and 1 (C08), PVT look-ups as functions of pressure (C11)',
          'component bookings are proved for one well and one substep; concrete runs add up the bookings of several wells', 'a sum over cells of a sum is the sum of the sums']
FN = ['Simulator._impes_saturation_step']
PH = ('water', 'gas', 'oil')


def start(E, sim):
    """arbitrary books"""
    mb = {p: {d: E.real('m_%s_%s' % (p, d), lo=0, samp=(0, 10)) for d in ('in', 'out')} for p in PH}
    sim.mass_balance = {p: dict(v) for p, v in mb.items()}
    cb = {p: {d: E.real('c_%s_%s' % (p, d), lo=0, samp=(0, 10)) for d in ('in', 'out')} for p in ('oil', 'gas')}
    sim.component_balance = {p: dict(v, accum=v['in'] - v['out']) for p, v in cb.items()}
    return mb, cb


def mass(E, pvt):
    g = E.grid()
    E.merge_writes()
    ws = []
    fc = lib.fluid_cfg(E)
    sim = lib.simulator(E, g, wells=ws, pvt=pvt, fcfg=fc, params={'max_substeps': E.choice('sub', [1, 4])} if not E.symbolic else {'max_substeps': 1})
    f = sim.fluid
    lib.abstract_curves(E, f)
    if E.symbolic: sim.T_y, sim.T_z = sim.T_y * 0, sim.T_z * 0      # flow along one axis makes the changes arbitrary
    if not E.symbolic:
        W = E.cls('simulator.well', 'Well')
        for n in range(E.int('wells', lo=0, samp=(0, 2))):
            c = [E.int('w%d%s' % (n, a), lo=0, samp=(0, 60)) % g['xyz'.index(a)] for a in 'xyz']
            ws.append(W('W%d' % n, E.choice('ty%d' % n, ['injector', 'producer']), c[0], c[1], c[2], 0.1, E.choice('ct%d' % n, ['rate', 'bhp']),
                        E.real('v%d' % n, pos=True, samp=(1, 40)), g, injected_phase=E.choice('ph%d' % n, ['water', 'gas'])))
        sim.well_manager.ws = ws
    mb, _ = start(E, sim)
    P = E.field('P1', g, pos=True, samp=(1e6, 1.02e6))
    dt = E.real('dt', pos=True, samp=(10, 3e5), log=True)
    w0, g0 = f.s_w.clone(), f.s_g.clone()
    sim._impes_saturation_step(P, dt)
    pv = sim.porous_volume
    E.cover('booked')
    dw = lambda *q: E.at(f.s_w, *q) - E.at(w0, *q)
    dg = lambda *q: E.at(f.s_g, *q) - E.at(g0, *q)
    chg = {'water': lambda *q: dw(*q) * E.at(pv, *q) * E.at(f.rho_w, *q), 'gas': lambda *q: dg(*q) * E.at(pv, *q) * E.at(f.rho_g, *q),
           'oil': lambda *q: -(dw(*q) + dg(*q)) * E.at(pv, *q) * E.at(f.rho_o, *q)}
    tol = lambda b: 0 if E.symbolic else b['in'] + b['out'] + 1e-3 * float(pv.sum())
    for p in PH:
        b, a = mb[p], sim.mass_balance[p]
        # max(c, 0) - max(-c, 0) = c: symbolically this follows from the two sides below
        if not E.symbolic: E.sumeq('%s mass: in minus out changes by the change in the cells' % p, (a['in'] - b['in']) - (a['out'] - b['out']), g, chg[p], tol(b))
        for d in ('in', 'out'):
            up = lambda *q, d=d, p=p: E.max(chg[p](*q) if d == 'in' else -chg[p](*q), 0)
            E.sumeq('%s mass: what enters cells is in, what leaves them is out' % p, a[d] - b[d], g, up, tol(b))


@contract('C18', FN)
def masses(E): mass(E, False)


@contract('C18', FN)
def masses_with_a_table(E): mass(E, True)


def booked(E, o, cb, phase, side):
    c = E.num(o.sim.component_balance[phase][side])
    return c - cb[phase][side]


def books(E, o, cb, oil, gas, side, what):
    """oil and gas of this step go to one side of the books, once, and nothing to the other"""
    E.cover(what)
    other = 'in' if side == 'out' else 'out'
    for ph, v in (('oil', oil), ('gas', gas)):
        E.check('%s: surface %s of the volume moved' % (what, ph), E.eq(booked(E, o, cb, ph, side), v, scale=cb[ph][side] + 1e-3))
        E.check('%s: nothing on the other side of the books' % what, E.eq(booked(E, o, cb, ph, other), 0, scale=cb[ph][other]))
        a = o.sim.component_balance[ph]
        E.check('accumulated is in minus out', E.eq(E.num(a['accum']), E.num(a['in']) - E.num(a['out']), scale=a['in'] + a['out']))


def surface(o, q):
    """surface oil and gas of a withdrawn rate"""
    y = o.yields()
    return q * y['oil'] * o.dt, q * y['gas'] * o.dt


def producer(E, rt, sp=None, lim=()):
    o = wells.One(E, 'producer', 'rate', rt=rt, sp=sp, pvt=True, others=False, limits={k: E.real(k, lo=0, samp=(0, 300)) for k in lim} or None)
    o.sane()
    mb, cb = start(E, o.sim)
    o.step()
    oil, gas = surface(o, -E.num(o.well.last_q_total))
    books(E, o, cb, oil, gas, 'out', 'production')
    if E.symbolic and lim: return

    def moved():
        E.cover('moved')
        for n in 'wg': E.check('the volume booked is the volume the cell loses', E.eq(o.u[n], E.num(o.well.last_q_total) * o.f[n], scale=o.pv / o.dt))
    E.under(o.free(), moved)


@contract('C18', FN)
def reservoir_producers(E): producer(E, 'reservoir')


@contract('C18', FN)
def surface_producers(E): producer(E, 'surface', E.choice('sp', ['oil', 'gas']) if E.symbolic else E.choice('sp', ['oil', 'gas', 'water', 'liquid']))


@contract('C18', FN)
def limited_producers(E): producer(E, 'reservoir', None, ('liqr',))


@contract('C18', FN)
def pressure_producers(E):
    o = wells.One(E, 'producer', 'bhp', pvt=True, others=False)
    o.sane()
    mb, cb = start(E, o.sim)
    o.step()
    q = E.num(o.well.well_index) * o.mt * (o.p - o.v * 1000000)
    oil, gas = surface(o, E.max(q, 0))
    books(E, o, cb, oil, gas, 'out', 'production')


@contract('C18', FN)
def gas_injectors(E):
    rt = E.choice('rt', ['reservoir', 'surface'])
    o = wells.One(E, 'injector', 'rate', 'gas', rt, pvt=True, others=False)
    o.sane()
    mb, cb = start(E, o.sim)
    o.step()
    Bg, Rv = o.B('Bg'), o.B('Rv')

    def inside(): books(E, o, cb, o.u['g'] / Bg * Rv * o.dt, o.u['g'] / Bg * o.dt, 'in', 'gas injection')
    E.under(o.free(), inside)
    # choked wells end on the boundary of their window: what they book is what the cell took
    gas = booked(E, o, cb, 'gas', 'in')
    E.check('gas injection books no more than the cell has room for', E.le(gas * Bg, o.up * o.pv, scale=o.pv))
    E.check('gas injection books no less than what the cell takes', E.ge(gas * Bg, o.u['g'] * o.dt, scale=o.pv))


@contract('C18', FN)
def pressure_gas_injectors(E):
    o = wells.One(E, 'injector', 'bhp', 'gas', pvt=True, others=False)
    o.sane()
    mb, cb = start(E, o.sim)
    o.step()
    Bg, Rv = o.B('Bg'), o.B('Rv')
    q = E.max(E.num(o.well.well_index) * o.mt * (o.v * 1000000 - o.p), 0)
    books(E, o, cb, q / Bg * Rv * o.dt, q / Bg * o.dt, 'in', 'gas injection')


@contract('C18', FN)
def water_injectors(E):
    o = wells.One(E, 'injector', E.choice('ct', ['rate', 'bhp']), 'water', 'reservoir', pvt=True, others=False)
    mb, cb = start(E, o.sim)
    o.step()
    books(E, o, cb, 0, 0, 'in', 'water injection')


@contract('C18', FN, mode='bounded')
def several_wells(E):
    """bookings of several wells are the sum of those of each well alone"""
    o = wells.One(E, E.choice('ty', ['injector', 'producer']), E.choice('ct', ['rate', 'bhp']), 'gas', 'reservoir', pvt=True)
    f = o.sim.fluid
    ws = list(o.sim.well_manager.get_wells())
    tot = {}
    for sel in [ws] + [[w] for w in ws]:
        o.sim.well_manager.ws = sel
        f.s_w, f.s_g, f.s_o = o.w0.clone(), o.g0.clone(), 1 - o.w0 - o.g0
        o.sim.component_balance = {p: {'in': 0.0, 'out': 0.0, 'accum': 0.0} for p in ('oil', 'gas')}
        o.sim._impes_saturation_step(o.P, o.dt)
        for p in ('oil', 'gas'):
            for d in ('in', 'out'): tot.setdefault((p, d), []).append(float(o.sim.component_balance[p][d]))
    for v in tot.values(): E.check('bookings of several wells add up', E.eq(v[0], sum(v[1:])))
