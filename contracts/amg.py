"""matrices for the multigrid contracts (bounded runs only)"""


def torch_():
    import torch
    return torch


GRIDS = [(5, 1, 1), (4, 3, 2), (6, 5, 1), (5, 4, 3), (9, 8, 1), (6, 5, 4)]


def pressure_matrix(E, name='', scale=None, grid=None, acc=1e-2):
    """an IMPES-like pressure matrix: face couplings over a grid plus accumulation, dense and as CSR"""
    torch = torch_()
    g = grid or E.choice('amg_grid' + name, GRIDS)
    n = g[0] * g[1] * g[2]
    s = scale if scale is not None else E.choice('amg_scale' + name, [1.0, 1e-3, 1e-9, 30.0, 3e-6, 1e-5])
    w = E.field('amg_T' + name, (3, n), pos=True, samp=(0.05, 1))
    a = E.field('amg_acc' + name, (n,), pos=True, samp=(acc, 10 * acc))
    A = torch.zeros(n, n, dtype=torch.float64)
    at = lambda i, j, k: (i * g[1] + j) * g[2] + k
    for i in range(g[0]):
        for j in range(g[1]):
            for k in range(g[2]):
                p = at(i, j, k)
                for ax, q in ((0, (i + 1, j, k)), (1, (i, j + 1, k)), (2, (i, j, k + 1))):
                    if q[ax] >= g[ax]: continue
                    q = at(*q)
                    t = w[ax, p]
                    A[p, q] -= t; A[q, p] -= t; A[p, p] += t; A[q, q] += t
    A += torch.diag(a)
    A *= s
    return A, A.to_sparse_csr(), s


def sparse_matrix(E, name, n, m, density=0.35):
    """an arbitrary sparse matrix with empty rows among others"""
    torch = torch_()
    v = E.field(name, (n, m), samp=(-2, 2))
    keep = E.field(name + '_keep', (n, m), lo=0, hi=1, samp=(0, 1))
    empty = E.field(name + '_empty', (n, 1), lo=0, hi=1, samp=(0, 1))
    v = torch.where((keep < density) & (empty < 0.8), v, torch.zeros_like(v))
    return v, v.to_sparse_csr()


def close(E, a, b, scale=1.0, tol=1e-9):
    torch = torch_()
    a, b = a.to(torch.float64), b.to(torch.float64)
    if a.shape != b.shape: return False
    return bool(((a - b).abs() <= tol * (float(b.abs().max()) if b.numel() else 0.0) + 1e-13 * scale).all())


def build(E, name='', **kw):
    """a hierarchy with several levels over a pressure matrix"""
    torch = torch_()
    grid = E.choice('amg_grid', GRIDS)
    A, csr, s = pressure_matrix(E, name, grid=grid, **kw)
    torch.manual_seed(E.int('amg_seed', lo=0, samp=(0, 10 ** 6)))
    C = E.cls('solver.classical_amg', 'ClassicalAMG')
    h = C(csr, theta=E.choice('theta', [0.25, 0.1, 0.5]), max_levels=E.choice('max_levels', [2, 3, 6]), coarsest_size=E.choice('coarsest', [3, 8]))
    h.grid = grid
    return A, csr, s, h
