from engine.spec import contract
from . import lib
ASSUME = ['vector operations obey the algebra of a real vector space (exact arithmetic); the matrix is any linear map',
          'a diagonal preconditioner divides component by component']


@contract('C19', ['Simulator._solve_pressure_cg_pytorch'])
def conjugate_gradients(E):
    A = E.spd('A')
    b = E.vector('b')
    x0 = E.vector('x0') if E.flag('start') else None
    M = E.diag(A, 'M') if E.flag('preconditioned') else None
    tol = E.real('tol', pos=True, samp=(1e-8, 1), log=True)
    cap = E.int('cap', lo=0, samp=(0, 30))
    S = E.cls('simulator.simulation', 'Simulator')
    A1, b1, M1 = E.vcopy(A), E.vcopy(b), E.vcopy(M)
    x1 = E.vcopy(x0)
    # what the loop keeps: one vector is the true residual of another
    E.vector_hint(lambda u, v: E.veq(u, E.vsub(b1, E.vmul(A1, v))))
    x, ok = S._solve_pressure_cg_pytorch(S.__new__(S), A, b, x0=x0, M_diag=M, tol=tol, max_iter=cap)
    res = E.vsub(b1, E.vmul(A1, x))
    z = E.vdiv(res, M1) if M is not None else res
    rr = E.vdot(res, z)
    start = x1 if x1 is not None else E.vsub(b1, b1)
    size = E.vsize(b1, x)
    if E.istrue(ok):
        small = E.le(E.sqrt(rr), tol, scale=size)
        E.check('success is reported only for a small residual (or a negligible first one)',
                E.or_(small, E.and_(E.le(rr, E.F('1e-10'), scale=size * size), E.veq(x, start))))
    E.check('the matrix is not changed', E.veq(E.vmul(A, b1), E.vmul(A1, b1)))
    E.check('the right-hand side is not changed', E.veq(b, b1))
    if x0 is not None: E.check('the initial guess is not changed', E.veq(x0, x1))
    if M is not None: E.check('the preconditioner is not changed', E.veq(M, M1))


@contract('C19', ['Simulator._solve_pressure_cg_pytorch'], mode='bounded', trials=150)
def converges(E):
    """bounded stand-in: enough iterations reach the answer"""
    A = E.spd('A')
    b = E.vector('b')
    M = E.diag(A, 'M') if E.flag('preconditioned') else None
    S = E.cls('simulator.simulation', 'Simulator')
    x, ok = S._solve_pressure_cg_pytorch(S.__new__(S), A, b, M_diag=M, tol=1e-7, max_iter=200)
    E.check('well-conditioned systems of a few unknowns are solved', bool(ok))
    E.check('to the requested accuracy', float((E.vsub(b, E.vmul(A, x))).norm()) <= 1e-4)
    x, ok = S._solve_pressure_cg_pytorch(S.__new__(S), A, b, M_diag=M, tol=1e-12, max_iter=0)
    res = b
    z = E.vdiv(res, M) if M is not None else res
    E.check('no iterations, no success', not bool(ok) or E.vdot(res, z) < 1e-10)
