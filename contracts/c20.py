from engine.spec import contract
from . import amg
ASSUME = ['bounded: pressure-like matrices of at most 120 unknowns, up to six levels']


@contract('C20', ['ClassicalAMG._v_cycle', 'ClassicalAMG._smooth', 'ClassicalAMG._matvec', 'ClassicalAMG._spmv_csr'], mode='bounded', trials=200)
def cycle(E):
    torch = amg.torch_()
    A, csr, s, h = amg.build(E)
    n = A.shape[0]
    M = h.levels[0]['A'].to_dense()
    x, y = E.field('amg_x', (n,), samp=(-1, 1)), E.field('amg_y', (n,), samp=(-1, 1))
    pre, post = E.choice('pre', [3, 1, 0, 2]), E.choice('post', [2, 1, 0, 3])
    V = lambda x, b: h._v_cycle(0, x.clone(), b.clone(), pre_smooth=pre, post_smooth=post)
    E.cover('several levels') if len(h.levels) > 1 else None
    E.check('the exact solution stays', amg.close(E, V(x, M @ x), x, 1.0, 1e-7))
    b, c = M @ E.field('amg_u', (n,), samp=(-1, 1)), M @ E.field('amg_v', (n,), samp=(-1, 1))
    k = E.real('k', samp=(-3, 3))
    E.check('the cycle is linear', amg.close(E, V(x + k * y, b + k * c), V(x, b) + k * V(y, c), 1.0, 1e-7))
    b0 = b.clone()
    x0 = x.clone()
    h._v_cycle(0, x0, b0)
    E.check('the cycle changes neither argument', amg.close(E, x0, x) and amg.close(E, b0, b))


@contract('C20', ['ClassicalAMG.solve', 'ClassicalAMG.__init__', 'amg_solve', '_to_csr_double'], mode='bounded', trials=200)
def solve(E):
    torch = amg.torch_()
    PA = E.mod('solver.pressure_amg')
    PA._AMG_CACHE.clear()
    A, csr, s, h = amg.build(E)
    n = A.shape[0]
    x = E.field('amg_x', (n,), samp=(-1, 1))
    b = A @ x
    got = h.solve(b.clone(), tol=1e-8, max_iter=400)
    E.check('solves the original system', float((A @ got - b).norm()) <= 1e-5 * float(b.norm()))
    start = E.field('amg_start', (n,), samp=(-1, 1))
    got = h.solve(b.clone(), x0=start, tol=1e-8, max_iter=400)
    E.check('solves the original system from a start vector', float((A @ got - b).norm()) <= 1e-5 * float(b.norm()))
    S = A if E.flag('coo') else csr
    S = A.to_sparse() if S is A else S
    args = {'coarsest_size': 8, 'max_levels': 4}
    got = PA.amg_solve(S, b.clone(), tol=1e-8, max_cycles=400, **args)
    E.check('the pressure solve returns a solution', float((A @ got - b).norm()) <= 1e-5 * float(b.norm()))
    A2, csr2, _ = amg.pressure_matrix(E, '2', grid=h.grid)
    b2 = A2 @ x
    got = PA.amg_solve(csr2, b2.clone(), tol=1e-8, max_cycles=400, **args)
    E.check('the pressure solve of a second system of that size returns its own solution', float((A2 @ got - b2).norm()) <= 1e-5 * float(b2.norm()))
