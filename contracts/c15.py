from engine.spec import contract
from . import lib
ASSUME = ['coordinates of a well are non-negative (they index a cell or lie beyond the far side of the grid)']


def make(E, g, kind):
    W = E.cls('simulator.well', 'Well')
    spec = {}

    def gen(k):
        ty, ct, lim = kind(E)
        c = [E.int('w' + a, lo=0, samp=(0, 3)) for a in 'ijk']
        v = E.real('v', samp=(-50, 300)) if ct == 'rate' else E.real('b', samp=(1, 40))
        bm = E.real('bhp_min', samp=(0, 40)) if lim else None
        w = W('W', ty, c[0], c[1], c[2], E.F('0.1'), ct, v, g, bhp_min=bm)
        w.well_index = E.real('wi', lo=0, samp=(0.1, 1000))
        spec[id(w)] = (ty, ct, c, v, bm, w.well_index)
        return w
    return E.seq('wells', gen), spec


def run(E, kind):
    g = E.grid()
    ws, spec = make(E, g, kind)
    params = {}
    scale = 1
    if E.flag('scaled'): params['global_rate_scale'] = scale = E.real('scale', samp=(-1, 3))
    sim = lib.simulator(E, g, wells=ws, params=params, T=False, states=False)
    mob = E.field('mob', g, lo=0, samp=(0, 2000))
    P = E.field('P', g, samp=(0, 5e7))

    def limited(w):
        """the pressure a rate producer with a minimum would need lies below the minimum"""
        ty, ct, c, v, bm, wi = spec[id(w)]
        if ct != 'rate' or ty != 'producer' or bm is None: return False
        # the source regularises the division by 1e-12
        return E.at(P, *c) - E.div(v * scale / 86400, wi * E.at(mob, *c) + E.F('1e-12')) < bm * 1000000

    def term(w, i, j, k, diag):
        ty, ct, c, v, bm, wi = spec[id(w)]
        if not E.fork(E.and_(E.eq(c[0], i), E.eq(c[1], j), E.eq(c[2], k))): return 0
        if ct == 'bhp' or E.fork(limited(w)):
            t = wi * E.at(mob, i, j, k)
            return t if diag else t * (v if ct == 'bhp' else bm) * 1000000
        if ct != 'rate' or diag: return 0
        return v * scale / 86400 * (1 if ty == 'injector' else -1)
    nx, ny, nz = g
    q = E.fold('source', ws, lambda w, i, j, k: term(w, i, j, k, False))
    d = E.fold('diagonal', ws, lambda w, i, j, k: term(w, i, j, k, True))
    q.hint(g); d.hint(g)
    Q, D = sim._calculate_well_terms(mob, P)
    E.cover('called')

    def cell(i, j, k):
        f = E.idx(g, i, j, k)
        E.check('source of every cell is the sum of its wells', E.eq(E.at(Q.reshape(-1), f), q.total(i, j, k), scale=1e-6))
        E.check('diagonal of every cell is the sum of its pressure wells', E.eq(E.at(D.reshape(-1), f), d.total(i, j, k), scale=1e-6))
    E.forall(g, cell)


def mixed(E): return E.choice('ty', ['producer', 'injector']), E.choice('ct', ['rate', 'bhp']), False
def limited(E): return 'producer', E.choice('ct', ['rate', 'bhp']), True


@contract('C15', ['Simulator._calculate_well_terms', 'Simulator._ijk_to_idx'])
def rate_and_pressure_wells(E): run(E, mixed)


@contract('C15', ['Simulator._calculate_well_terms', 'Simulator._ijk_to_idx'])
def producers_with_a_minimum_pressure(E): run(E, limited)
