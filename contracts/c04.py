from engine.spec import contract
from . import lib, pressure
ASSUME = ['in the contract of the whole pressure step, relative permeabilities are arbitrary point-wise functions with values in [0, 1] (C08) and well terms enter through the contract of _calculate_well_terms (C15): arbitrary non-negative diagonal terms']


def matrix(E, g, A, diag, T, acc, bhp):
    """T[axis](i): possible couplings across the face between i and its next cell along axis"""
    for ax, n in enumerate('xyz'):
        def face(*i):
            j = pressure.next_cell(i, ax)
            r, c = E.idx(g, *i), E.idx(g, *j)
            E.cover('face ' + n)
            a = E.entry(A, r, c)
            ts = T[ax](i)
            E.check('coupling is minus the transmissibility ' + n, E.or_(*[E.eq(a, -t) for t in ts]))
            E.check('coupling is symmetric ' + n, E.eq(E.entry(A, c, r), a))
            E.check('coupling is not positive ' + n, E.le(a, 0))
        E.forall([m - 1 if q == ax else m for q, m in enumerate(g)], face)

    def row(*i):
        r = E.idx(g, *i)
        off = 0
        for ax in range(3):
            if E.fork(i[ax] < g[ax] - 1): off = off - E.entry(A, r, E.idx(g, *pressure.next_cell(i, ax)))
            if E.fork(i[ax] > 0): off = off - E.entry(A, r, E.idx(g, *pressure.next_cell(i, ax, -1)))
        d = E.entry(A, r, r)
        E.check('diagonal is couplings plus accumulation plus wells', E.eq(d, off + acc(i) + bhp(i)))
        if diag is not None: E.check('reported diagonal is the diagonal of the matrix', E.eq(E.at(diag.reshape(-1), r), d))
        E.check('strictly diagonally dominant', E.gt(acc(i) + bhp(i), 0))
    E.forall(g, row)

    def strangers(*ij):
        i, j = ij[:3], ij[3:]
        d = [i[a] - j[a] for a in range(3)]
        near = [E.and_(*([E.or_(E.eq(d[a], 1), E.eq(d[a], -1))] + [E.eq(d[b], 0) for b in range(3) if b != a])) for a in range(3)]
        if E.fork(E.or_(E.and_(*[E.eq(x, 0) for x in d]), *near)): return
        E.cover('two cells without a common face')
        E.check('no coupling without a common face', E.eq(E.entry(A, E.idx(g, *i), E.idx(g, *j)), 0))
    E.forall(tuple(g) + tuple(g), strangers)


@contract('C04', ['Simulator._build_pressure_matrix_vectorized'])
def assembly(E):
    g = E.grid()
    sim = lib.simulator(E, g, T=False, pvt=False)
    nx, ny, nz = g
    T = [E.field('Tm' + n, tuple(m - 1 if a == q else m for q, m in enumerate(g)), lo=0, samp=(0, 1e-7)) for a, n in enumerate('xyz')]
    dt = E.real('dt', pos=True, samp=(10, 3e6), log=True)
    bhp = E.field('bhp', (nx * ny * nz,), lo=0, samp=(0, 1e-6))
    A, diag = sim._build_pressure_matrix_vectorized(T[0], T[1], T[2], dt, bhp)
    matrix(E, g, A, diag, [lambda i, t=t: [E.at(t, *i)] for t in T], lambda i: pressure.accumulation(E, sim, i, dt), lambda i: E.at(bhp, E.idx(g, *i)))


@contract('C04', ['Simulator._impes_pressure_step', 'Simulator._build_pressure_matrix_vectorized'])
def pressure_step(E):
    g = E.grid()
    sim = lib.simulator(E, g, params={'pressure_float64': E.flag('float64')})
    lib.abstract_curves(E, sim.fluid)
    dt = E.real('dt', pos=True, samp=(10, 3e6), log=True)
    size = g[0] * g[1] * g[2]
    bhp = E.field('bhp', (size,), lo=0, samp=(0, 1e-6))
    q = E.field('q', (size,), samp=(-1, 1))
    E.patch(sim, '_calculate_well_terms', lambda mob, P: (q, bhp))
    P = sim.fluid.pressure
    A, Q, diag = pressure.capture(E, sim, dt)
    m = lib.mobilities(E, sim, P)

    def total(*i): return m['w'](*i) + m['o'](*i) + m['g'](*i)
    Ts = [sim.T_x, sim.T_y, sim.T_z]

    def face(ax): return lambda i: [E.at(Ts[ax], *i) * u for u in pressure.upwind(E, P, total, ax, i)]
    matrix(E, g, A, diag, [face(a) for a in range(3)], lambda i: pressure.accumulation(E, sim, i, dt), lambda i: E.at(bhp, E.idx(g, *i)))
