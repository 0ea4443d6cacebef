"""Conservation.  Symbolically: there is a flow for every face (a function of the face alone) such that every cell's
pore-volume change is what its own faces bring in minus what they take out; sums of that form cancel over the grid,
and faces on the outer boundary do not occur.  The flow used as witness is the one of C03, so the proved conditions
imply the property but not the reverse: they are marked sufficient, and only a run of the real code in which volume is
lost or created is reported.  Concretely the property is stated without any flow: the changes sum to zero, and with a
single open face they are opposite in its two cells and zero elsewhere."""
from engine.spec import contract
from . import lib, pressure, c03
ASSUME = c03.ASSUME + ['the sum over the grid of terms of exchange form is zero (telescoping; each face occurs once with either sign)']


class Setting:
    def __init__(self, E, pvt, og):
        self.E = E
        g = self.g = E.grid()
        self.sim = lib.simulator(E, g, pvt=pvt, fcfg=lib.fluid_cfg(E, cap_og=og), params={'max_substeps': 1})
        lib.abstract_curves(E, self.sim.fluid)
        self.P = E.field('P1', g, pos=True, samp=(1e6, 1.02e6))
        self.dt = E.real('dt', pos=True, samp=(10, 3e4), log=True)
        f = self.sim.fluid
        self.w0, self.g0 = f.s_w.clone(), f.s_g.clone()
        self.T = [self.sim.T_x, self.sim.T_y, self.sim.T_z]

    def face(self, ax):
        g = self.g
        f = [self.E.int('f' + 'xyz'[a], lo=0, samp=(0, 2)) for a in range(3)]
        for a in range(3): self.E.assume(f[a] < (g[a] - 1 if a == ax else g[a]))
        return f

    def step(self, T, dt=None):
        f = self.sim.fluid
        f.s_w, f.s_g, f.s_o = self.w0.clone(), self.g0.clone(), 1 - self.w0 - self.g0
        self.sim.T_x, self.sim.T_y, self.sim.T_z = T
        self.sim._impes_saturation_step(self.P, self.dt if dt is None else dt)
        return f.s_w.clone(), f.s_g.clone()

    def free(self, S, *q):
        """no limit binds in cell q"""
        E, c = self.E, self.sim.fluid_cfg['relative_permeability']
        w, s = E.at(S[0], *q), E.at(S[1], *q)
        e = 1e-9    # a limit that binds may be off by rounding
        return [E.gt(w, c['sw_cr'] + e), E.gt(s, c['sg_cr'] + e), E.lt(w + s, 1 - c['so_r'] - e)]

    def moved(self, S, *q):
        E = self.E
        return [E.at(S[n], *q) - E.at((self.w0, self.g0)[n], *q) for n in (0, 1)]



def run(E, pvt, og):
    names = [n + ' enters one cell as it leaves the other' for n in ('water', 'gas')]
    if E.symbolic:
        c03.darcy(E, pvt, og, names)
        return
    st = Setting(E, pvt, og)
    pv = st.sim.porous_volume
    cells = [(i, j, k) for i in range(st.g[0]) for j in range(st.g[1]) for k in range(st.g[2])]

    def total(S, what):
        if not all(bool(c) for q in cells for c in st.free(S, *q)): return
        E.cover(what)
        for n, name in enumerate(names):
            v = [st.moved(S, *q)[n] * E.at(pv, *q) for q in cells]
            E.check(name, E.eq(sum(v), 0, scale=sum(abs(x) for x in v) + 1e-3 * float(pv.sum())))
    total(st.step(st.T), 'all faces')
    ax = E.choice('axis', [0, 1, 2])
    if st.g[ax] < 2: return
    f = st.face(ax)
    S = st.step([E.masked(t, f, True) if a == ax else t * 0 for a, t in enumerate(st.T)])
    total(S, 'one open face')
    j = pressure.next_cell(f, ax)
    for q in cells:
        if list(q) in (list(f), list(j)): continue
        for n, name in enumerate(names): E.check(name, E.eq(st.moved(S, *q)[n], 0, scale=1))


FN = ['Simulator._impes_saturation_step']


@contract('C02', FN, sufficient=True)
def exchange(E): run(E, E.flag('pvt'), False)


@contract('C02', FN, sufficient=True)
def exchange_with_gas_oil_capillarity(E): run(E, False, True)
