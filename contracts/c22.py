from engine.spec import contract
from . import amg
ASSUME = ['bounded: matrices of at most 12 by 12 for the kernels, 130 rows for the blocked product, 120 unknowns for coarsening and prolongation']
MOD = 'solver.classical_amg'


def method(E, name):
    C = E.cls(MOD, 'ClassicalAMG')
    return lambda *a, **k: getattr(C, name)(C.__new__(C), *a, **k)


@contract('C22', ['ClassicalAMG._spmv_csr', 'ClassicalAMG._extract_diag', 'ClassicalAMG._row_abs_sum', '_extract_diag_cpu'], mode='bounded')
def helpers(E):
    n, m = E.int('n', lo=1, samp=(1, 12)), E.int('m', lo=1, samp=(1, 12))
    A, csr = amg.sparse_matrix(E, 'A', n, m)
    x, y = E.field('x', (m,), samp=(-2, 2)), E.field('y', (n,), samp=(-2, 2))
    spmv = method(E, '_spmv_csr')
    E.check('matrix times vector', amg.close(E, spmv(csr, x), A @ x))
    E.check('transposed matrix times vector', amg.close(E, spmv(csr, y, transpose=True), A.T @ y))
    S, scsr = amg.sparse_matrix(E, 'S', n, n)
    E.check('diagonal', amg.close(E, method(E, '_extract_diag')(scsr), S.diagonal()))
    E.check('diagonal (cpu)', amg.close(E, E.mod(MOD)._extract_diag_cpu(scsr), S.diagonal()))
    E.check('row sums of magnitudes', amg.close(E, method(E, '_row_abs_sum')(scsr), S.abs().sum(1)))


@contract('C22', ['_csr_spmm', 'rap_torch'], mode='bounded')
def product(E):
    n, m, k = (E.choice(a, [1, 2, 3, 5, 9, 64, 65, 130] if a == 'n' else [1, 2, 3, 5, 8]) for a in ('n', 'm', 'k'))
    A, a = amg.sparse_matrix(E, 'A', n, m)
    B, b = amg.sparse_matrix(E, 'B', m, k)
    M = E.mod(MOD)
    E.check('sparse product', amg.close(E, M._csr_spmm(a, b).to_dense(), A @ B))
    E.check('sparse product in small blocks', amg.close(E, M._csr_spmm(a, b, block_rows=E.choice('block', [1, 2, 3])).to_dense(), A @ B))
    if n <= 9:
        S, s = amg.sparse_matrix(E, 'S', n, n)
        E.check('triple product', amg.close(E, M.rap_torch(s, a, s.device).to_dense(), A.T @ S @ A))


@contract('C22', ['find_strong_connections', 'classical_coarsening', 'build_prolongation_rs_full'], mode='bounded', trials=100)
def setup(E):
    torch = amg.torch_()
    if E.flag('diffusion'): A, csr, _ = amg.pressure_matrix(E)
    else:
        n = E.int('n', lo=2, samp=(2, 12))
        A, csr = amg.sparse_matrix(E, 'A', n, n)
        A = A + torch.diag(E.field('d', (n,), pos=True, samp=(0.5, 4)) + 0 * A.diagonal())
        csr = A.to_sparse_csr()
    n = A.shape[0]
    M = E.mod(MOD)
    th = E.choice('theta', [0.25, 0.1, 0.5, 0.9])
    strong = M.find_strong_connections(csr, th)
    crow, col = csr.crow_indices(), csr.col_indices()
    ok = True
    for i in range(n):
        off = {int(col[e]): -float(A[i, int(col[e])]) for e in range(int(crow[i]), int(crow[i + 1])) if int(col[e]) != i}
        top = max([0.0] + list(off.values()))
        for e in range(int(crow[i]), int(crow[i + 1])):
            j = int(col[e])
            if j == i: want = False
            else:
                if off[j] > 0 and abs(off[j] - th * top) <= 1e-12 * top: continue
                want = off[j] > 0 and off[j] >= th * top
            ok = ok and bool(strong[e]) == want
    E.check('strong connections are exactly those beyond the threshold', ok)
    torch.manual_seed(E.int('seed', lo=0, samp=(0, 10 ** 6)))
    cf, nc = M.classical_coarsening(csr, th)
    E.check('every cell is marked coarse or fine', cf.shape == (n,) and bool(((cf == 0) | (cf == 1)).all()))
    E.check('there is a coarse cell and their number is returned', nc == int((cf == 0).sum()) and nc >= 1)
    basis = M.generate_nullspace(csr, 3) if E.flag('basis') else None
    P, cf, f2c, coarse, fine = M.build_prolongation_rs_full(csr, cf, strong, basis, blend=0.6 if basis is not None else 0.0)
    E.check('the numbering of coarse cells is the inverse of their list', f2c[coarse].tolist() == list(range(coarse.numel())) and bool((f2c[fine] == -1).all()))
    D = P.to_dense()
    E.check('prolongation has a row per cell', D.shape[0] == n and D.shape[1] == coarse.numel())
    one = torch.zeros_like(D[coarse])
    one[torch.arange(coarse.numel()), torch.arange(coarse.numel())] = 1
    E.check('prolongation keeps coarse cells as they are', amg.close(E, D[coarse], one))
    E.check('cells marked coarse are coarse', set(coarse.tolist()) >= set((cf == 0).nonzero().view(-1).tolist()))
