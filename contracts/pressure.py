"""the pressure system of an IMPES step, captured where it is handed to the linear solver"""
from . import lib


def upwind(E, P, m, axis, i):
    """mobility of the cell with the higher pressure (either one at equal pressures: a list of choices)"""
    j = list(i); j[axis] = j[axis] + 1
    d = E.at(P, *i) - E.at(P, *j)
    if E.fork(d > 0): return [m(*i)]
    if E.fork(d < 0): return [m(*j)]
    return [m(*i), m(*j)]


class Captured(Exception): pass


def capture(E, sim, dt):
    """run the pressure step up to its linear solve and return (A, Q, diagonal) of the system"""
    box = []

    def solve(A, b, x0=None, M_diag=None, tol=None, max_iter=None):
        box.append((A, b, M_diag))
        return b.clone() * 0, True
    E.patch(sim, '_solve_pressure_cg_pytorch', solve)
    sim._impes_pressure_step(dt)
    return box[0]


def next_cell(i, axis, d=1):
    j = list(i); j[axis] = j[axis] + d
    return j


def accumulation(E, sim, i, dt):
    f = sim.fluid
    ct = f.calc_total_compressibility(f.pressure, f.s_w, f.s_g)
    return E.at(sim.porous_volume, *i) * E.at(ct, *i) / dt
