from engine.spec import contract
from . import amg
ASSUME = ['bounded: pressure-like matrices of at most 120 unknowns, up to six levels; the kernels work on ragged sparse data whose shape depends on the values, outside the reach of the symbolic engine']
FN = ['ClassicalAMG.__init__', 'ClassicalAMG.update_matrix', 'rap_torch', '_csr_spmm', 'ClassicalAMG._update_level_metrics']


def galerkin(E, h, A0, when):
    for l in range(len(h.levels) - 1):
        A, P, C = (h.levels[l]['A'].to_dense(), h.levels[l]['P'].to_dense(), h.levels[l + 1]['A'].to_dense())
        E.check('coarse operators are Galerkin products ' + when, amg.close(E, P.T @ A @ P, C, float(A.abs().max())))
    for l, v in enumerate(h.levels):
        A = v['A'].to_dense()
        E.check('every level knows the diagonal of its operator ' + when, amg.close(E, v['diag'], A.diagonal().abs()))
        den = amg.torch_().maximum(A.diagonal().abs(), 0.3 * A.abs().sum(1)).clamp_min(1e-30)
        E.check('every level smooths with the weights of its own operator ' + when, amg.close(E, v['inv_relax'], (1 / den).clamp(max=1e2)))
    D = h.Dhalf_inv
    want = A0 if D is None else D[:, None] * A0 * D[None, :]
    E.check('the finest operator is the (scaled) matrix ' + when, amg.close(E, h.levels[0]['A'].to_dense(), want))


@contract('C21', FN, mode='bounded', trials=200)
def hierarchy(E):
    A, csr, s, h = amg.build(E)
    E.cover('several levels') if len(h.levels) > 1 else None
    galerkin(E, h, A, 'when built')
    A2 = A.clone()
    r = E.choice('amg_update', [1.0, 7.0, 1e-7])
    f = E.field('amg_f', (A.shape[0],), pos=True, samp=(0.5, 2))
    A2 = r * f[:, None] * A * f[None, :]
    h.update_matrix(A2.to_sparse_csr())
    galerkin(E, h, A2, 'after an update')
    b = E.field('amg_b', (A.shape[0],), samp=(-1, 1))
    x = h.solve(b.clone(), tol=1e-10, max_iter=300)
    res = float((A2 @ x - b).norm() / b.norm())
    E.check('after an update it solves the new system', res < 1e-4)
