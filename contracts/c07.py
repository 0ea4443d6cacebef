from engine.spec import contract
from . import lib


@contract('C07', ['Simulator.__init__', 'Reservoir.__init__', 'Reservoir.permeability_tensors'])
def transmissibility(E):
    g = E.grid()
    nx, ny, nz = g
    sim = lib.simulator(E, g, T=False, perm=True, states=False)
    res = sim.reservoir
    d = [E.num(x) for x in res.grid_size]
    tiny = E.F('1e-28')
    for ax, (nm, area) in enumerate((('x', (1, 2)), ('y', (0, 2)), ('z', (0, 1)))):
        t = getattr(sim, 'T_' + nm)
        k = getattr(res, 'permeability_' + nm)
        sh = tuple(n - 1 if a == ax else n for a, n in enumerate(g))
        ok = len(E.shape(t)) == 3
        E.check('one value per face ' + nm, E.and_(ok, *[E.eq(a, b) for a, b in zip(E.shape(t), sh)]))
        geo = d[area[0]] * d[area[1]] / d[ax]

        def face(*i):
            j = list(i); j[ax] = j[ax] + 1
            k1, k2 = E.at(k, *i), E.at(k, *j)
            v = E.at(t, *i)
            E.cover('face ' + nm)
            E.check('non-negative ' + nm, E.ge(v, 0))
            E.check('zero when either permeability is zero ' + nm, E.implies(E.or_(E.eq(k1, 0), E.eq(k2, 0)), E.eq(v, 0)))
            hi = E.max(k1, k2) * geo
            lo = E.min(k1, k2) * geo
            # the source regularises the harmonic mean by 1e-30 m2 against 0/0
            E.check('not above the larger permeability ' + nm, E.le(v, hi))
            E.check('harmonic mean times area over distance ' + nm,
                    E.implies(k1 + k2 > 0, E.and_(E.le(v * (k1 + k2), 2 * k1 * k2 * geo),
                                                  E.ge(v * (k1 + k2 + tiny), 2 * k1 * k2 * geo))))
            E.check('not below the smaller permeability ' + nm, E.implies(E.and_(k1 > 0, k2 > 0), E.ge(v * (k1 + k2 + tiny), lo * (k1 + k2))))
        E.forall(sh, face)
