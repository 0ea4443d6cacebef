"""one well in an arbitrary cell of an arbitrary grid; concrete runs add other wells in other cells"""
from . import lib, pressure, c03


class One:
    def __init__(self, E, ty, ct, phase='water', rt='reservoir', sp=None, limits=None, pvt=False, flow=False, vmax=200, others=True, scale=True):
        self.E = E
        g = self.g = E.grid()
        if not flow: E.merge_writes()
        self.pvt = pvt
        self.c = c = E.cell(g)
        self.v = E.real('v', lo=0, samp=(0, vmax)) if ct == 'rate' else E.real('v', pos=True, samp=(0.5, 45))
        scaled = scale and E.sometimes('scaled')
        self.scale = E.real('rate_scale', pos=True, samp=(0.2, 2)) if scaled else 1
        W = E.cls('simulator.well', 'Well')
        self.well = W('W', ty, c[0], c[1], c[2], E.F('0.1'), ct, self.v, g, injected_phase=phase, rate_type=rt, surface_phase=sp, limits=limits)
        ws = [self.well]
        if not E.symbolic and others: ws = self.crowd(W, ws)
        fc = lib.fluid_cfg(E)
        p = {'max_substeps': 1}
        if scaled: p['global_rate_scale'] = self.scale
        self.sim = lib.simulator(E, g, wells=ws, pvt=pvt, fcfg=fc, params=p)
        sim, f = self.sim, self.sim.fluid
        if not flow: sim.T_x, sim.T_y, sim.T_z = sim.T_x * 0, sim.T_y * 0, sim.T_z * 0
        lib.abstract_curves(E, f)
        self.P = E.field('P1', g, pos=True, samp=(5e6, 4e7) if not flow else (1e7, 1.01e7))
        self.dt = E.real('dt', pos=True, samp=(10, 3e5), log=True)
        self.w0, self.g0 = f.s_w.clone(), f.s_g.clone()
        self.rp = fc['relative_permeability']
        m = lib.mobilities(E, sim, self.P)
        self.m = {n: m[n](*c) for n in 'wog'}
        self.mt = self.m['w'] + self.m['o'] + self.m['g']
        self.f = {n: self.m[n] / (self.mt + E.F('1e-10')) for n in 'wog'}
        self.pv = E.at(sim.porous_volume, *c)
        E.assume(E.ge(self.pv, E.F('1e-12')))    # the source guards it from below
        self.p = E.at(self.P, *c)
        if flow:
            self.fw, self.fg = (c03.flux(E, sim, self.P, m[n], n, None) for n in 'wg')
        self.flow = flow
        w, s, sor = E.at(self.w0, *c), E.at(self.g0, *c), self.rp['so_r']
        self.up = 1 - sor - w - s
        self.down = {'w': w - self.rp['sw_cr'], 'g': s - self.rp['sg_cr']}

    def crowd(self, W, ws):
        E, g, c = self.E, self.g, self.c
        cells = [(i, j, k) for i in range(g[0]) for j in range(g[1]) for k in range(g[2]) if (i, j, k) != tuple(c)]
        out = list(ws)
        for n in range(min(E.int('others', lo=0, samp=(0, 2)), len(cells))):
            q = cells.pop(E.int('other_cell%d' % n, lo=0, samp=(0, 60)) % len(cells))
            ty = E.choice('other_type%d' % n, ['injector', 'producer'])
            ct = E.choice('other_control%d' % n, ['rate', 'bhp'])
            o = W('O%d' % n, ty, q[0], q[1], q[2], 0.1, ct, E.real('other_v%d' % n, pos=True, samp=(1, 40)), g, injected_phase=E.choice('other_phase%d' % n, ['water', 'gas']),
                  rate_type=E.choice('other_rate%d' % n, ['reservoir', 'surface']), surface_phase=E.choice('other_sp%d' % n, ['oil', 'water', 'gas', 'liquid']))
            out.insert(0 if E.flag('other_first%d' % n) else len(out), o)
        return out

    def B(self, key): return self.E.pvtval(self.sim.fluid.pvt, key, self.p / 1000000)

    def yields(self):
        """surface volumes per reservoir volume produced"""
        f = self.f
        Bo, Bw, Bg, Rs, Rv = (self.B(k) for k in ('Bo', 'Bw', 'Bg', 'Rs', 'Rv'))
        y = {'oil': f['o'] / Bo + f['g'] * Rv / Bg, 'water': f['w'] / Bw, 'gas': f['g'] / Bg + f['o'] * Rs / Bo}
        y['liquid'] = y['oil'] + y['water']
        return y

    def sane(self):
        """volume factors are not vanishingly small (the source guards them from below by 1e-12)"""
        for k in ('Bo', 'Bw', 'Bg'): self.E.assume(self.E.ge(self.B(k), self.E.F('1e-12')))

    def step(self):
        self.sim._impes_saturation_step(self.P, self.dt)
        E, c, f = self.E, self.c, self.sim.fluid
        self.w1, self.g1 = E.at(f.s_w, *c), E.at(f.s_g, *c)
        self.u = {'w': (self.w1 - E.at(self.w0, *c)) * self.pv / self.dt, 'g': (self.g1 - E.at(self.g0, *c)) * self.pv / self.dt}
        if self.flow:
            self.u['w'] = self.u['w'] - c03.inflow(E, self.g, list(c), self.fw)
            self.u['g'] = self.u['g'] - c03.inflow(E, self.g, list(c), self.fg)

    def free(self, e='1e-9'):
        """no limit of the saturation window binds after the step: the change is what came in"""
        E = self.E
        e = 0 if E.symbolic else float(e)
        return [E.gt(self.w1, self.rp['sw_cr'] + e), E.gt(self.g1, self.rp['sg_cr'] + e), E.lt(self.w1 + self.g1, 1 - self.rp['so_r'] - e)]

    def fits(self, q):
        """the cell has room for the change that a producer's rate q would cause alone"""
        E = self.E
        k = self.dt / self.pv * q
        t = E.F('1e-12')
        return [E.le(k * self.f[n], self.down[n]) for n in 'wg'] + [E.ge(self.down[n], t) for n in 'wg']
