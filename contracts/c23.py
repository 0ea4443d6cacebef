from engine.spec import contract, Stub
from . import lib
ASSUME = ['in the contract of Simulator._impes_step the pressure solve enters as: leaves the state alone, returns an arbitrary field and an arbitrary flag (the frame is checked by contract pressure_step_frame); the saturation update enters as: sets arbitrary saturations',
          'in the contract of Simulator._fully_implicit_step the Newton iteration enters as: changes pressure, water and oil saturation arbitrarily, returns an arbitrary flag']


def same_fields(E, g, what, pairs):
    def at(*q):
        for n, a, b in pairs: E.check(what + ': ' + n, E.eq(E.at(a, *q), E.at(b, *q)))
    E.forall(g, at)


class Press(Stub):
    """the pressure solve of one attempt"""
    def __init__(self, E, sim, g, dt, factor):
        self.E, self.sim, self.g, self.factor = E, sim, g, factor
        self.next, self.calls, self.P, self.last, self.conv = dt, 0, None, dt, False
        f = sim.fluid
        self.state = [(n, getattr(f, n), getattr(f, n).clone()) for n in ('pressure', 's_w', 's_o', 's_g', 'prev_pressure', 'prev_sw')]

    def __call__(self, dt):
        E = self.E
        E.check('each attempt cuts the length of the one before by the factor', E.eq(dt, self.next))
        E.check('no further attempt after a success', not E.istrue(self.conv))
        f = self.sim.fluid
        same_fields(E, self.g, 'a failed attempt changes no state', [(n, getattr(f, n), c) for n, _, c in self.state])
        k = '' if E.symbolic else str(self.calls)
        E.put(self, 'calls', self.calls + 1)
        E.put(self, 'next', dt / self.factor)
        E.put(self, 'last', dt)
        c = E.istrue(E.bool('conv' + k))
        P = E.field('P_solved' + k, self.g, pos=True, samp=(1e6, 4e7))
        if c:
            E.put(self, 'P', P); E.put(self, 'conv', True)
        return P, c


class Sat(Stub):
    def __init__(self, E, sim, g, press):
        self.E, self.sim, self.g, self.press, self.calls = E, sim, g, press, 0

    def __call__(self, P, dt):
        E = self.E
        E.put(self, 'calls', self.calls + 1)
        E.check('saturations are updated with the solved pressure', P is self.press.P)
        E.check('saturations are updated with the length of the converged attempt', E.eq(dt, self.press.last))
        same_fields(E, self.g, 'the update works at the solved pressure', [('pressure', self.sim.fluid.pressure, P)])
        f = self.sim.fluid
        for n in ('s_w', 's_g', 's_o'): E.putf(f, n, E.field(n + '_new', self.g, lo=0, hi=1))
        E.put(self, 'sw', f.s_w.clone())


def setup(E, solver):
    g = E.grid()
    p = {'solver_type': solver}
    dt = E.real('dt', pos=True, samp=(100, 1e6))
    factor = E.F('2')
    if E.flag('attempts_given'): p['max_time_step_attempts'] = E.int('attempts', lo=1, samp=(1, 4))
    if E.flag('factor_given'): p['dt_reduction_factor'] = factor = E.real('factor', lo=E.F('1.01'), hi=10)
    sim = lib.simulator(E, g, params=p, T=False)
    sim.fluid.prev_pressure = E.field('Pp', g, pos=True, samp=(5e6, 4e7))
    sim.fluid.prev_sw = E.field('swp', g, lo=0, hi=1)
    return sim, g, p, dt, factor


@contract('C23', ['Simulator.run_step', 'Simulator._impes_step'])
def impes_step(E):
    sim, g, p, dt, factor = setup(E, 'impes')
    f = sim.fluid
    press = Press(E, sim, g, dt, factor)
    sat = Sat(E, sim, g, press)
    E.patch(sim, '_impes_pressure_step', press)
    E.patch(sim, '_impes_saturation_step', sat)
    before = [(n, getattr(f, n).clone()) for n in ('pressure', 's_w', 's_o', 's_g')]
    r = sim.run_step(dt)
    if E.istrue(press.conv):
        E.cover('success')
        E.check('a converged attempt is a success', E.istrue(r))
        E.check('saturations are updated once', E.eq(sat.calls, 1))
        same_fields(E, g, 'after success', [('solved pressure is stored', f.pressure, press.P), ('previous pressure is the new one', f.prev_pressure, press.P),
                                            ('saturation is the updated one', f.s_w, sat.sw), ('previous saturation is the new one', f.prev_sw, sat.sw)])
    else:
        E.cover('failure')
        E.check('exhausted attempts are a failure', not E.istrue(r))
        E.check('no update without a solved pressure', E.eq(sat.calls, 0))
        E.check('all attempts are made', E.eq(press.calls, p.get('max_time_step_attempts', 5)))
        same_fields(E, g, 'state after failure', [(n, getattr(f, n), c) for n, c in before])


class Newton(Stub):
    def __init__(self, E, sim, g, dt, factor):
        self.E, self.sim, self.g, self.factor = E, sim, g, factor
        self.next, self.calls, self.last, self.conv, self.p, self.w, self.o = dt, 0, dt, False, None, None, None
        f = sim.fluid
        self.state = [(n, getattr(f, n).clone()) for n in ('pressure', 's_w', 's_o')]

    def __call__(self, dt, *a, **kw):
        E = self.E
        f = self.sim.fluid
        E.check('each attempt cuts the length of the one before by the factor', E.eq(dt, self.next))
        E.check('no further attempt after a success', not E.istrue(self.conv))
        same_fields(E, self.g, 'an attempt starts from the state before the step', [(n, getattr(f, n), c) for n, c in self.state])
        k = '' if E.symbolic else str(self.calls)
        E.put(self, 'calls', self.calls + 1)
        E.put(self, 'next', dt / self.factor)
        E.put(self, 'last', dt)
        for n in ('pressure', 's_w', 's_o'): E.putf(f, n, E.field(n + '_newton' + k, self.g, lo=0, hi=1))
        c = E.istrue(E.bool('conv' + k))
        if c:
            E.put(self, 'conv', True)
            E.put(self, 'p', f.pressure.clone()); E.put(self, 'w', f.s_w.clone())
        return c, 3


@contract('C23', ['Simulator.run_step', 'Simulator._fully_implicit_step'])
def fully_implicit_step(E):
    sim, g, p, dt, factor = setup(E, 'fully_implicit')
    f = sim.fluid
    newton = Newton(E, sim, g, dt, factor)
    E.patch(sim, '_fully_implicit_newton_step', newton)
    before = [(n, getattr(f, n).clone()) for n in ('pressure', 's_w', 's_o', 's_g')]
    r = sim.run_step(dt)
    if E.istrue(newton.conv):
        E.cover('success')
        E.check('a converged attempt is a success', E.istrue(r))
        same_fields(E, g, 'after success', [('converged pressure is kept', f.pressure, newton.p), ('previous pressure is the new one', f.prev_pressure, newton.p),
                                            ('converged saturation is kept', f.s_w, newton.w), ('previous saturation is the new one', f.prev_sw, newton.w)])
    else:
        E.cover('failure')
        E.check('exhausted attempts are a failure', not E.istrue(r))
        E.check('all attempts are made', E.eq(newton.calls, p.get('max_time_step_attempts', 5)))
        same_fields(E, g, 'state after failure', [(n, getattr(f, n), c) for n, c in before])
