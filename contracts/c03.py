from engine.spec import contract
from . import lib, pressure
ASSUME = ['relative permeability and capillary curves enter as arbitrary point-wise functions (C08, C09), PVT look-ups as functions of pressure (C11)',
          'the flux formula is proved for one substep (max_substeps = 1); that several substeps add up to the same change is proved apart from it for a grid without flow']


def flux(E, sim, P, mob, phase, pcog):
    """volume rate through the face between i and the next cell along axis ax, by Darcy's law"""
    Ts = [sim.T_x, sim.T_y, sim.T_z]
    dz = sim.reservoir.grid_size[2]
    nz = sim.reservoir.nz
    rho = getattr(sim.fluid, 'rho_' + phase)

    def flow(ax, face):
        j = pressure.next_cell(face, ax)
        dp = E.at(P, *face) - E.at(P, *j)
        drop = dp
        if ax == 2: drop = drop + E.num(sim.g) * E.num(dz) * (E.at(rho, *face) + E.at(rho, *j)) / 2
        if phase == 'g' and pcog is not None: drop = drop - (E.at(pcog, *j) - E.at(pcog, *face))
        return E.at(Ts[ax], *face) * E.ite(dp > 0, mob(*face), mob(*j)) * drop
    return flow


def inflow(E, g, i, flow):
    t = 0
    for ax in range(3):
        if E.fork(i[ax] < g[ax] - 1): t = t - flow(ax, list(i))
        if E.fork(i[ax] > 0): t = t + flow(ax, pressure.next_cell(i, ax, -1))
    return t


def window(E, sim, w, s):
    f = sim.fluid
    c = sim.fluid_cfg['relative_permeability']
    return [E.ge(w, c['sw_cr']), E.ge(s, c['sg_cr']), E.le(w + s, 1 - c['so_r']), E.le(s, 1 - c['so_r'] - c['sw_cr']), E.le(w, 1 - c['so_r'] - s)]


def darcy(E, pvt, og, names=('water saturation changes by the Darcy inflow', 'gas saturation changes by the Darcy inflow')):
    g = E.grid()
    sim = lib.simulator(E, g, pvt=pvt, fcfg=lib.fluid_cfg(E, cap_og=og), params={'max_substeps': 1})
    f = sim.fluid
    lib.abstract_curves(E, f)
    P = E.field('P1', g, pos=True, samp=(1e6, 1.02e6))
    dt = E.real('dt', pos=True, samp=(10, 3e5), log=True)
    w0, g0 = f.s_w.clone(), f.s_g.clone()
    mob = lib.mobilities(E, sim, P)
    pcog = f.get_capillary_pressure_og(f.s_g) if og else None
    fw, fg = flux(E, sim, P, mob['w'], 'w', None), flux(E, sim, P, mob['g'], 'g', pcog)
    pv = sim.porous_volume
    # read where they are needed, after the step: the step must not change them
    before = [(n, getattr(f, n)) for n in ('s_w', 's_g')]
    sim._impes_saturation_step(P, dt)
    E.cover('updated')

    def cell(*i):
        w = E.at(w0, *i) + dt / E.at(pv, *i) * inflow(E, g, i, fw)
        s = E.at(g0, *i) + dt / E.at(pv, *i) * inflow(E, g, i, fg)

        def inside():
            E.cover('cell within its limits')
            E.check(names[0], E.eq(E.at(f.s_w, *i), w, scale=1))
            E.check(names[1], E.eq(E.at(f.s_g, *i), s, scale=1))
        E.under(window(E, sim, w, s), inside)
    E.forall(g, cell)


FN = ['Simulator._impes_saturation_step']


@contract('C03', FN)
def face_flow(E): darcy(E, False, False)


@contract('C03', FN)
def face_flow_with_tables(E): darcy(E, True, False)


@contract('C03', FN)
def face_flow_with_gas_oil_capillarity(E): darcy(E, False, True)


@contract('C03', FN)
def face_flow_with_tables_and_gas_oil_capillarity(E): darcy(E, True, True)
