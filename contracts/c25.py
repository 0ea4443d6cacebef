from engine.spec import contract
from . import lib
ASSUME = ['bounded: grids of at most 4 by 3 by 3']


def assembled(E, sim, dt):
    """residuals of one Newton iteration at the current state: the assembled one and the one of the line search"""
    S = type(sim)
    got = {}
    real = S._assemble_residual_and_jacobian_batch

    class Seen(Exception): pass

    def spy(self, residual, jacobian, *a, **k):
        r = real(self, residual, jacobian, *a, **k)
        got['residual'] = residual.clone()
        got['jacobian'] = jacobian.clone()
        nx, ny, nz = self.reservoir.dimensions
        dx, dy, dz = self.reservoir.grid_size
        got['fast'] = self._compute_residual_fast(dt, nx, ny, nz, dx, dy, dz)
        raise Seen()
    E.patch(S, '_assemble_residual_and_jacobian_batch', spy)
    try: sim._fully_implicit_newton_step(dt, max_iter=1)
    except Seen: pass
    n = sim.reservoir.dimensions
    S._assemble_residual_and_jacobian_batch = real
    return tuple(got[k].view(*n, 2) for k in ('residual', 'fast'))


def setup(E, wells=False, capillary=None, nz=3, p='P'):
    import torch
    g = tuple(E.int('n' + a, lo=1, samp=(1, m)) for a, m in zip('xyz', (4, 3, nz)))
    cap = E.flag('capillary') if capillary is None else capillary
    sim = lib.simulator(E, g, params={'solver_type': 'fully_implicit'}, T=False, perm=True, fcfg=lib.fluid_cfg(E, capillary=cap))
    f = sim.fluid
    z = torch.zeros_like(f.pressure)
    f.s_g = z.clone()
    f.s_o = 1 - f.s_w
    f.prev_pressure = E.field('prev_P', g, pos=True, samp=(5e6, 4e7))
    f.prev_sw = f.s_w.clone() if E.flag('same_saturation') else (f.s_w + 1 - f.s_w.max()) * E.real('prev_share', lo=0, hi=1)
    return g, sim


def change(E, sim):
    """mass of water and oil in place now minus the mass at the previous step"""
    import torch
    f, r = sim.fluid, sim.reservoir
    dx, dy, dz = [float(x) for x in r.grid_size]
    v = dx * dy * dz
    now = r.porosity * v
    w = now * (f.s_w * f.calc_water_density(f.pressure) - f.prev_sw * f.calc_water_density(f.prev_pressure))
    o = now * ((1 - f.s_w) * f.calc_oil_density(f.pressure) - (1 - f.prev_sw) * f.calc_oil_density(f.prev_pressure))
    return torch.stack([w, o], dim=-1), v * 1100


def size(*ts): return max(float(t.abs().max()) for t in ts) + 1e-30


@contract('C25', ['Simulator._assemble_residual_and_jacobian_batch', 'Simulator._compute_residual_fast', 'Simulator._fully_implicit_newton_step'], mode='bounded', trials=80)
def conservation(E):
    g, sim = setup(E)
    dt = E.real('dt', pos=True, samp=(1e3, 1e6))
    M, scale = change(E, sim)
    for name, R in zip(('assembled residual', 'line-search residual'), assembled(E, sim, dt)):
        # the scale of what is added up: the exchanges may be far larger than the masses
        s = scale + float(R.abs().sum())
        for k, ph in enumerate(('water', 'oil')):
            E.check('%s: the exchanges of %s cancel' % (name, ph), E.eq(R[..., k].sum(), M[..., k].sum(), scale=s))


@contract('C25', ['Simulator._assemble_residual_and_jacobian_batch', 'Simulator._compute_residual_fast', 'Simulator._fully_implicit_newton_step'], mode='bounded', trials=80)
def neighbours_only(E):
    import torch
    g, sim = setup(E)
    dt = E.real('dt', pos=True, samp=(1e3, 1e6))
    f = sim.fluid
    c = tuple(E.int('c' + a, lo=0, samp=(0, 9)) % n for a, n in zip('ijk', g))
    A = assembled(E, sim, dt)
    f.pressure = f.pressure.clone(); f.s_w = f.s_w.clone()
    f.pressure[c] += E.real('bump', samp=(-2e6, 2e6))
    f.s_w[c] *= E.real('share', lo=0, hi=1)
    B = assembled(E, sim, dt)
    for name, a, b in zip(('assembled residual', 'line-search residual'), A, B):
        far = torch.ones(g, dtype=torch.bool)
        for ax in range(3):
            for s in (-1, 0, 1):
                q = list(c); q[ax] += s
                if 0 <= q[ax] < g[ax]: far[tuple(q)] = False
        d = (a - b).abs().max(dim=-1).values
        E.check('%s: a cell exchanges with its face neighbours only' % name, not bool((d[far] > 1e-9 * size(a, b)).any()))


@contract('C25', ['Simulator._assemble_residual_and_jacobian_batch', 'Simulator._compute_residual_fast', 'Simulator._fully_implicit_newton_step'], mode='bounded', trials=80)
def closed_cells_and_rest(E):
    g, sim = setup(E)
    f, r = sim.fluid, sim.reservoir
    dt = E.real('dt', pos=True, samp=(1e3, 1e6))
    M, scale = change(E, sim)
    keep = [getattr(r, 'permeability_' + a) for a in 'xyz']
    for a in 'xyz': setattr(r, 'permeability_' + a, 0 * keep[0])
    for name, R in zip(('assembled residual', 'line-search residual'), assembled(E, sim, dt)):
        E.check('%s: without exchange it is the mass change' % name, float((R - M).abs().max()) <= 1e-9 * scale)
    for a, t in zip('xyz', keep): setattr(r, 'permeability_' + a, t)
    # at rest: one layer, equal pressure and saturation, nothing changed
    f.s_w = 0 * f.s_w + float(f.s_w.view(-1)[0])
    f.pressure = 0 * f.pressure + E.real('rest_p', pos=True, samp=(5e6, 4e7))
    f.prev_pressure, f.prev_sw = f.pressure.clone(), f.s_w.clone()
    R, F = assembled(E, sim, dt)
    layer = g[2] == 1
    if layer:
        E.check('assembled residual: a layer at rest has none', float(R.abs().max()) <= 1e-9 * scale)
        E.check('line-search residual: a layer at rest has none', float(F.abs().max()) <= 1e-9 * scale)
    else:
        # the column is at rest when the pressure rises with the weight of the phase
        for k, ph, rho in ((0, 'water', f.calc_water_density), (1, 'oil', f.calc_oil_density)):
            p = f.pressure.clone()
            dz = float(r.grid_size[2])
            for q in range(1, g[2]):
                up = p[:, :, q - 1]
                x = up.clone()
                for _ in range(60): x = up + 9.81 * dz * 0.5 * (rho(up) + rho(x))
                p[:, :, q] = x
            was = f.pressure
            f.pressure = p; f.prev_pressure = p.clone()
            R, F = assembled(E, sim, dt)
            E.check('assembled residual: a hydrostatic column of %s has none' % ph, float(R[..., k].abs().max()) <= 1e-6 * scale)
            E.check('line-search residual: a hydrostatic column of %s has none' % ph, float(F[..., k].abs().max()) <= 1e-6 * scale)
            f.pressure = was; f.prev_pressure = was.clone()


@contract('C25', ['Simulator._assemble_residual_and_jacobian_batch', 'Simulator._compute_residual_fast', 'Simulator._fully_implicit_newton_step'], mode='bounded', trials=120)
def line_search(E):
    g, sim = setup(E, nz=1)
    dt = E.real('dt', pos=True, samp=(1e3, 1e6))
    R, F = assembled(E, sim, dt)
    E.check('the line search uses the assembled residual', float((R - F).abs().max()) <= 1e-9 * size(R, F))
