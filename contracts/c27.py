from engine.spec import contract, Stub
from . import lib
ASSUME = ['Simulator.run_step enters through an assumed contract: it may change the state and the wells arbitrarily and returns a truth value (its own guarantees are C23)',
          'gymnasium.Env.reset has no effect on the environment']


class Run(Stub):
    """stands for Simulator.run_step: arbitrary new state, chosen outcome"""
    def __init__(self, E, env, ok, tag=''):
        self.E, self.env, self.ok, self.tag, self.calls = E, env, ok, tag, []

    def __call__(self, dt):
        E = self.E
        self.calls.append(dt)
        f = self.env.fluid
        g = self.env.reservoir.dimensions
        f.pressure = E.field('P_new' + self.tag, g, pos=True, samp=(1e6, 4e7))
        f.s_w = E.field('sw_new' + self.tag, g, lo=0, hi=1)
        f.s_g = E.field('sg_new' + self.tag, g, lo=0, hi=1)
        f.s_o = E.field('so_new' + self.tag, g, lo=0, hi=1)
        return self.ok


def make(E, g, steps=None, days=True, wells=True):
    C = E.cls('rl_env', 'ReservoirEnv')
    fc = lib.fluid_cfg(E)
    fc['s_w'] = E.real('s_w', lo=0, hi=1)
    cfg = {'reservoir': {'dimensions': list(g), 'grid_size': [E.real('dx', pos=True, samp=(1, 50)), E.real('dy', pos=True, samp=(1, 50)), E.real('dz', pos=True, samp=(1, 20))],
                         'porosity': E.real('phi', pos=True, hi=1, samp=(0.05, 0.4))},
           'fluid': fc, 'simulation': {'solver_type': 'impes'}, 'wells': []}
    if days: cfg['simulation']['time_step_days'] = E.real('days', pos=True, samp=(0.1, 10))
    if wells:
        c = E.cell(g, 'w')
        cfg['wells'].append({'name': 'P', 'type': 'producer', 'i': c[0], 'j': c[1], 'k': c[2], 'radius': E.F('0.1'), 'control_type': 'rate', 'control_value': E.real('rate', pos=True, samp=(1, 100))})
    f = E.json_file(cfg)
    env = C(f) if steps is None else C(f, max_steps=steps)
    return env, cfg


def masscell(env, E, i, so, rho=None):
    r = env.reservoir
    return lambda *q: E.at(r.porosity, *q) * E.at(so, *q) * E.at(env.fluid.rho_o, *q) * E.num(r.cell_volume)


def observation(E, obs, env, g, why, press=None, sw=None):
    """pressures over 10 MPa, then water saturations, flat cell by flat cell"""
    n = g[0] * g[1] * g[2]
    E.check('length of the observation' + why, E.eq(E.shape(obs)[0], 2 * n))
    p = env.fluid.pressure if press is None else press
    w = env.fluid.s_w if sw is None else sw

    def at(i, j, k):
        q = E.idx(g, i, j, k)
        E.check('pressure of the cell over 10 MPa' + why, E.eq(E.at(obs, q), E.at(p, i, j, k) / 10000000, tol=1e-5))
        E.check('water saturation of the cell' + why, E.eq(E.at(obs, n + q), E.at(w, i, j, k), tol=1e-5))
    E.forall(g, at)


@contract('C27', ['ReservoirEnv.__init__', 'ReservoirEnv.step', 'ReservoirEnv._calc_reward', 'ReservoirEnv._calc_oil_mass', 'ReservoirEnv._get_observation'])
def one_step(E):
    g = E.grid()
    days = E.flag('days_given')
    env, cfg = make(E, g, days=days)
    r, f = env.reservoir, env.fluid
    ok = E.flag('solver_converges')
    run = Run(E, env, ok)
    E.patch(env.simulator, 'run_step', run)
    so0 = f.s_o.clone()
    rho0 = f.rho_o.clone()
    rate0 = env.well_manager.wells[0].control_value
    obs, rew, term, trunc, info = env.step(E.vec(E.field('act', (1,), lo=-1, hi=1)))
    E.cover('step')
    E.check('the simulator advances once', len(run.calls) == 1)
    d = cfg['simulation']['time_step_days'] if days else 1
    E.check('by the configured time step', E.eq(run.calls[0], d * 86400))
    E.check('never truncated', E.same(trunc, False))
    observation(E, obs, env, g, ' after a step')
    if not ok:
        E.check('failure is punished', E.eq(rew, -1000))
        E.check('failure ends the episode', E.istrue(term))
        return
    E.check('the episode goes on before the maximum', not E.istrue(term))
    vol = E.num(r.cell_volume)
    E.sumeq('reward is the decrease of oil in place', rew, g,
            lambda *q: E.at(r.porosity, *q) * vol * (E.at(so0, *q) * E.at(rho0, *q) - E.at(f.s_o, *q) * E.at(f.rho_o, *q)) / 1000000)


@contract('C27', ['ReservoirEnv.step', 'ReservoirEnv._calc_reward'])
def second_step(E):
    """the second reward counts from the first step, not from the start"""
    g = E.grid()
    env, cfg = make(E, g, wells=False, days=False)
    r, f = env.reservoir, env.fluid
    E.patch(env.simulator, 'run_step', Run(E, env, True, '1'))
    a = E.vec(E.field('act', (0,)))
    env.step(a)
    so1, rho1 = f.s_o.clone(), f.rho_o.clone()
    E.patch(env.simulator, 'run_step', Run(E, env, True, '2'))
    obs, rew, term, trunc, info = env.step(a)
    E.cover('second step')
    vol = E.num(r.cell_volume)
    E.sumeq('reward counts from the previous step', rew, g,
            lambda *q: E.at(r.porosity, *q) * vol * (E.at(so1, *q) * E.at(rho1, *q) - E.at(f.s_o, *q) * E.at(f.rho_o, *q)) / 1000000)


@contract('C27', ['ReservoirEnv.step'])
def episode_length(E):
    """from any step count the episode ends exactly when the maximum is reached"""
    g = E.grid()
    steps = E.int('max_steps', lo=1, samp=(1, 4))
    env, cfg = make(E, g, steps=steps, wells=False, days=False)
    E.patch(env.simulator, 'run_step', Run(E, env, True))
    a = E.vec(E.field('act', (0,)))
    n = 1
    if E.symbolic and hasattr(env, '_step_count'):
        # induction: an episode in progress has made fewer steps than the maximum
        k = E.int('made', lo=0)
        E.assume(k < steps)
        env._step_count = k
        obs, rew, term, trunc, info = env.step(a)
        E.cover('induction step')
        E.check('ends at the maximum number of steps', E.eq(k + 1, steps) if E.istrue(term) else k + 1 < steps)
        E.check('counts the step', E.eq(env._step_count, k + 1))
    else:
        for q in range(1, 6):
            obs, rew, term, trunc, info = env.step(a)
            E.check('ends at the maximum number of steps', bool(term) == (q == steps))
            if term: break
        E.cover('induction step')


@contract('C27', ['ReservoirEnv.reset', 'ReservoirEnv.__init__'])
def reset_restores(E):
    g = E.grid()
    env, cfg = make(E, g, steps=E.int('max_steps', lo=2, samp=(2, 4)), days=False)
    E.patch(env.simulator, 'run_step', Run(E, env, True))
    env.step(E.vec(E.field('act', (1,), lo=-1, hi=1)))
    env.well_manager.wells[0].control_value = E.real('changed', samp=(0, 50))
    env.reservoir.porosity = E.field('phi2', g, lo=0, hi=1)
    obs, info = env.reset()
    f = env.fluid
    E.cover('reset')

    def at(*q):
        E.check('configured pressure', E.eq(E.at(f.pressure, *q), cfg['fluid']['pressure'] * 1000000))
        E.check('configured water saturation', E.eq(E.at(f.s_w, *q), cfg['fluid']['s_w']))
        E.check('configured gas saturation', E.eq(E.at(f.s_g, *q), 0))
        E.check('oil fills the rest', E.eq(E.at(f.s_o, *q), 1 - cfg['fluid']['s_w']))
        E.check('configured porosity', E.eq(E.at(env.reservoir.porosity, *q), cfg['reservoir']['porosity']))
    E.forall(g, at)
    w = env.well_manager.wells
    E.check('configured wells', len(w) == 1)
    E.check('configured control', E.eq(w[0].control_value, cfg['wells'][0]['control_value']))
    E.check('the simulator works on the restored state', env.simulator.fluid is env.fluid and env.simulator.reservoir is env.reservoir and env.simulator.well_manager is env.well_manager)
    observation(E, obs, env, g, ' after reset')
    # and the next step starts a new episode
    run = Run(E, env, True, 'n')
    E.patch(env.simulator, 'run_step', run)
    so0, rho0 = f.s_o.clone(), f.rho_o.clone()
    obs, rew, term, trunc, info = env.step(E.vec(E.field('act3', (1,), lo=-1, hi=1)))
    vol = E.num(env.reservoir.cell_volume)
    E.check('a new episode starts', not E.istrue(term))
    E.sumeq('reward after a reset counts from the initial state', rew, g,
            lambda *q: E.at(env.reservoir.porosity, *q) * vol * (E.at(so0, *q) * E.at(rho0, *q) - E.at(f.s_o, *q) * E.at(f.rho_o, *q)) / 1000000)
