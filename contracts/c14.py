from engine.spec import contract
from . import lib

FN = ['Simulator._ijk_to_idx', 'Simulator._idx_to_ijk', 'Reservoir.get_cell_indices', 'Well.__init__']


@contract('C14', FN)
def cell_to_flat(E):
    g = E.grid()
    sim = lib.simulator(E, g, T=False, states=False)
    a, b = E.cell(g, 'a'), E.cell(g, 'b')
    n = g[0] * g[1] * g[2]
    f = E.field('f', g)
    flat = f.reshape(-1)
    W = E.cls('simulator.well', 'Well')
    mk = lambda c: W('W', 'producer', c[0], c[1], c[2], E.F('0.1'), 'rate', 1, g).cell_index_flat
    for nm, conv in (('simulator', lambda c: sim._ijk_to_idx(c[0], c[1], c[2], g[0], g[1])), ('reservoir', lambda c: sim.reservoir.get_cell_indices(*c)), ('well', mk)):
        x, y = conv(a), conv(b)
        E.cover('two cells')
        E.check('inside the grid: ' + nm, E.and_(E.ge(x, 0), x < n))
        E.check('one to one: ' + nm, E.implies(E.eq(x, y), E.and_(*[E.eq(p, q) for p, q in zip(a, b)])))
        E.check('position in the flattened field: ' + nm, E.eq(E.at(flat, x), E.at(f, *a)))
        back = sim._idx_to_ijk(x, g[0], g[1])
        for p, q, ax in zip(back, a, 'ijk'): E.check('conversion back gives the cell: %s %s' % (nm, ax), E.eq(p, q))


@contract('C14', FN)
def flat_to_cell(E):
    g = E.grid()
    sim = lib.simulator(E, g, T=False, states=False)
    n = g[0] * g[1] * g[2]
    x = E.int('flat', lo=0, samp=(0, 63))
    E.assume(x < n)
    c = sim._idx_to_ijk(x, g[0], g[1])
    E.cover('flat number')
    for p, m, ax in zip(c, g, 'ijk'): E.check('inside the grid ' + ax, E.and_(E.ge(p, 0), p < m))
    E.check('simulator round trip', E.eq(sim._ijk_to_idx(c[0], c[1], c[2], g[0], g[1]), x))
    E.check('reservoir round trip', E.eq(sim.reservoir.get_cell_indices(*c), x))
