from engine.spec import contract
from . import lib


class Man:
    def __init__(self, ws): self.wells = ws
    def get_wells(self): return self.wells


def env_with(E, wells):
    C = E.cls('rl_env', 'ReservoirEnv')
    env = C.__new__(C)
    env.well_manager = Man(wells)
    return env


def well(E, g, tag=''):
    W = E.cls('simulator.well', 'Well')
    c = E.cell(g, 'w' + tag)
    ct = E.choice('ct' + tag, ['rate', 'bhp', 'other'])
    v = E.real('v' + tag, samp=(-300, 300))
    w = W('W', E.choice('ty' + tag, ['producer', 'injector']), c[0], c[1], c[2], E.F('0.1'), ct, v, g)
    return w, (ct, v, c)


def expected(E, ct, v, a):
    if ct == 'rate': return v * (1 + a / 5)
    if ct == 'bhp': return v + 5 * a
    return v


@contract('C26', ['ReservoirEnv._apply_action'])
def any_number_of_wells(E):
    g = E.grid()
    spec = {}

    def gen(k):
        w, s = well(E, g)
        spec[id(w)] = (k, s)
        return w
    ws = E.seq('wells', gen)
    n = E.len(ws)
    act = E.field('action', (n,), lo=-1, hi=1)
    env = env_with(E, ws)
    env._apply_action(E.vec(act))
    seen = []

    def one(i, v):
        w = v[0]
        k, (ct, val, c) = spec[id(w)]
        E.cover('control ' + ct)
        E.check('own component moves the control: ' + ct, E.eq(w.control_value, expected(E, ct, val, E.at(act, k))))
        E.check('nothing else of the well changes', E.and_(w.control_type == ct, E.eq(w.i, c[0]), E.eq(w.j, c[1]), E.eq(w.k, c[2])))
    E.each([ws], one)


@contract('C26', ['ReservoirEnv._apply_action'])
def two_wells(E):
    g = E.grid()
    pair = [well(E, g, 'A'), well(E, g, 'B')]
    act = E.field('action', (2,), lo=-1, hi=1)
    env = env_with(E, [w for w, _ in pair])
    zero = E.flag('zero')
    if zero:
        if E.symbolic:
            for q in range(2): E.assume(E.eq(E.at(act, q), 0))
        else: act[:] = 0
    env._apply_action(E.vec(act))
    E.cover('two wells')
    for q, (w, (ct, v, c)) in enumerate(pair):
        E.check('wells pair with components in order: ' + ct, E.eq(w.control_value, expected(E, ct, v, E.at(act, q))))
        if zero: E.check('zero action changes nothing', E.eq(w.control_value, v))


@contract('C26', ['ReservoirEnv._apply_action'])
def two_actions(E):
    """each action scales the control the previous one left"""
    g = E.grid()
    w, (ct, v, c) = well(E, g)
    env = env_with(E, [w])
    x, y = E.field('a1', (1,), lo=-1, hi=1), E.field('a2', (1,), lo=-1, hi=1)
    env._apply_action(E.vec(x))
    env._apply_action(E.vec(y))
    E.cover('two actions')
    E.check('second action acts on the result of the first: ' + ct, E.eq(w.control_value, expected(E, ct, expected(E, ct, v, E.at(x, 0)), E.at(y, 0))))
