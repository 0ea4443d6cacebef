from engine.spec import contract
from . import lib, pressure
ASSUME = ['relative permeability and capillary curves enter as arbitrary point-wise functions (C08, C09); densities of the state enter as arbitrary fields (C10) in the direct contract']


def exchange(E, i, g, ax, flow):
    """what cell i gets from a quantity flow(face) that leaves the first cell of each face and enters the second:
    sums of this form cancel over the grid"""
    out = 0
    if E.fork(i[ax] < g[ax] - 1): out = out - flow(list(i))
    if E.fork(i[ax] > 0): out = out + flow(pressure.next_cell(i, ax, -1))
    return out


def upwind_sel(E, P, m, ax, f):
    """value of the cell with the higher pressure; at equal pressures the second (no flow of its own)"""
    j = pressure.next_cell(f, ax)
    return E.ite(E.at(P, *f) - E.at(P, *j) > 0, m(f), m(j))


@contract('C06', ['Simulator._build_pressure_rhs'])
def right_hand_side(E):
    g = E.grid(nz1=E.flag('single_layer'))
    sim = lib.simulator(E, g, pvt=False)
    f = sim.fluid
    lib.abstract_curves(E, f)
    if E.flag('capillary'): f.pc_scale = E.real('pc_scale', pos=True, samp=(1e3, 1e5))
    else: f.pc_scale = 0
    if not E.symbolic: f.pc_exponent = 1.5
    dt = E.real('dt', pos=True, samp=(10, 3e6), log=True)
    P = f.pressure
    m = {n: E.field('mob_' + n, g, lo=0, samp=(0, 2000)) for n in 'wog'}
    q = E.field('q', (g[0] * g[1] * g[2],), samp=(-1, 1))
    dp = [P[:-1, :, :] - P[1:, :, :], P[:, :-1, :] - P[:, 1:, :], P[:, :, :-1] - P[:, :, 1:]]
    Q = sim._build_pressure_rhs(dt, P, m['w'], m['o'], m['g'], q, *dp)
    rho = {n: getattr(f, 'rho_' + n) for n in 'wog'}
    pc = f.get_capillary_pressure(f.s_w)
    cap = not (isinstance(f.pc_scale, int) and f.pc_scale == 0)
    Ts = [sim.T_x, sim.T_y, sim.T_z]
    dz = sim.reservoir.grid_size[2]
    layered = not (isinstance(g[2], int) and g[2] == 1)

    def head(face):
        u = upwind_sel(E, P, lambda c: sum((E.at(m[n], *c) * E.at(rho[n], *c) for n in 'wog'), 0), 2, face)
        return E.at(Ts[2], *face) * E.num(sim.g) * E.num(dz) * u

    def capillary(ax):
        def flow(face):
            j = pressure.next_cell(face, ax)
            u = upwind_sel(E, P, lambda c: E.at(m['o'], *c), ax, face)
            return E.at(Ts[ax], *face) * u * (E.at(pc, *j) - E.at(pc, *face))
        return flow

    def cell(*i):
        r = E.idx(g, *i)
        base = pressure.accumulation(E, sim, i, dt) * E.at(P, *i)
        want = base + E.at(q, r)
        if layered: want = want + exchange(E, i, g, 2, head)
        if cap:
            for ax in range(3): want = want + exchange(E, i, g, ax, capillary(ax))
        E.cover('cell')
        E.check('accumulation, wells and face exchanges only', E.eq(E.at(Q.reshape(-1), r), want, scale=base))
    E.forall(g, cell)
