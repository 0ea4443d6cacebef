from engine.spec import contract
from . import lib, pressure
ASSUME = ['relative permeability and capillary curves enter as arbitrary point-wise functions (C08, C09)',
          'the linear solver is not part of this property: the uniform field is shown to solve the system handed to it']


def is_grid(v): return 'shape_' in getattr(v, '__dict__', ()) and len(v.shape_) == 3


def closed(E, pvt, params):
    one = E.flag('single_layer')
    g = E.grid()
    if one: E.assume(g[2] == 1)
    sim = lib.simulator(E, g, params=params, pvt=pvt)
    f = sim.fluid
    lib.abstract_curves(E, f)
    # several layers: no gravity head when gravity is switched off
    if not one: sim.g = 0
    f.pc_scale = 0
    p = E.real('p', pos=True, samp=(1e6, 4e7))
    f.pressure = f.pressure * 0 + p
    dt = E.real('dt', pos=True, samp=(10, 3e6), log=True)
    return g, sim, p, dt


@contract('C05', ['Simulator._impes_pressure_step', 'Simulator._build_pressure_matrix_vectorized', 'Simulator._build_pressure_rhs', 'Simulator._calculate_well_terms'])
def uniform_pressure_solves_the_system(E):
    g, sim, p, dt = closed(E, E.flag("pvt"), {"pressure_float64": E.flag("float64")})
    A, Q, diag = pressure.capture(E, sim, dt)

    def row(*i):
        r = E.idx(g, *i)
        q = E.at(Q.reshape(-1), r)
        E.cover('row')
        E.check('matrix times the uniform pressure is the right-hand side', E.eq(E.row_times(A, r, lambda c: p), q, scale=E.num(p) * E.entry(A, r, r)))
    E.forall(g, row)


@contract('C05', ['Simulator._impes_saturation_step'])
def saturations_stay(E):
    g, sim, p, dt = closed(E, E.flag("pvt"), {})
    f = sim.fluid
    f.pc_og_scale = 0
    E.exit_by_invariant()
    E.stated_invariants_only()
    E.hint(lambda L, p, entry, val, vals, k, n: [(val.shape_, lambda i: E.eq(val.at(*i), entry.at(*i)))] if is_grid(val) else [])
    before = [(n, getattr(f, n).clone()) for n in ('s_w', 's_g', 's_o')]
    sim._impes_saturation_step(f.pressure.clone(), dt)
    E.cover('updated')

    def cell(*i):
        for n, b in before: E.check('unchanged: ' + n, E.eq(E.at(getattr(f, n), *i), E.at(b, *i), scale=1))
    E.forall(g, cell)
