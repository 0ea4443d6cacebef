import os, sys, re
from engine.spec import contract, Stub
from . import lib
ASSUME = ['bounded: runs of at most 12 steps on grids of at most 4 by 4 by 3 with the time step replaced by one that sets an arbitrary state and reports an arbitrary outcome']


def fresh_state(E, sim, g, k):
    f = sim.fluid
    f.pressure = E.field('P%d' % k, g, pos=True, samp=(5e6, 4e7))
    a, b = E.field('u%d' % k, g, lo=0, hi=1), E.field('v%d' % k, g, lo=0, hi=1)
    f.s_w, f.s_g = 0.2 + 0.5 * a, 0.3 * b
    f.s_o = 1 - f.s_w - f.s_g


def state(sim): return tuple(getattr(sim.fluid, n).detach().clone() for n in ('pressure', 's_w', 's_g', 's_o'))


def same(a, b):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool((a == b).all())


class Steps:
    """the time step: sets some state, reports some outcome, remembers what was asked of it"""
    def __init__(self, E, sim, g, never_fails):
        self.E, self.sim, self.g, self.never, self.calls = E, sim, g, never_fails, []

    def __call__(self, dt):
        k = len(self.calls)
        # a run that would never end is cut here
        if k > 60: raise RuntimeError('more steps than the run can need')
        ok = True if self.never else not self.E.choice('fails%d' % k, [False, False, False, True])
        fresh_state(self.E, self.sim, self.g, k)
        self.calls.append((float(dt), ok, state(self.sim)))
        return ok


class Pictures:
    def __init__(self, sim, steps): self.sim, self.steps, self.saved = sim, steps, []

    def __call__(self, plotter, pressure, saturation, filename, time_info=None, gas_saturation=None):
        import numpy as np, imageio
        s = state(self.sim)
        self.saved.append((filename, same(pressure, s[0]) and same(saturation, s[1]) and same(gas_saturation, s[2]), len(self.steps.calls)))
        imageio.imwrite(filename, np.full((4, 4), 3 * len(self.saved), dtype='uint8'))


def prepare(E, params, never=True):
    import matplotlib
    g = tuple(E.int('n' + a, lo=1, samp=(1, m)) for a, m in zip('xyz', (4, 4, 3)))
    sim = lib.simulator(E, g, params=params, T=False)
    fresh_state(E, sim, g, 999)
    steps = Steps(E, sim, g, never)
    E.patch(sim, 'run_step', steps)
    pics = Pictures(sim, steps)
    E.patch(E.cls('plotting.plotter', 'Plotter'), 'save_plots', lambda *a, **k: pics(*a, **k))
    return g, sim, steps, pics


def times(E):
    """total time and step length, with awkward binary quotients among them"""
    n = E.int('n', lo=1, samp=(1, 12))
    kind = E.choice('times', ['tenths', 'exact', 'with rest'])
    if kind == 'tenths': return n * E.choice('tenth', [0.1, 0.3, 0.7]) if E.flag('multiplied') else round(n * 0.1, 10), 0.1, None
    step = E.choice('step', [1, 2, 0.5, 0.25, 10.0])
    return (n * step, step, n) if kind == 'exact' else (n * step + step * E.real('rest', lo=0.05, hi=0.95), step, n)


def expected(total, step, n):
    from fractions import Fraction as F
    if n is not None: return n
    return int(round(total * 1000)) // int(round(step * 1000))


@contract('C28', ['Simulator.run'], mode='bounded', trials=60)
def steps_and_pictures(E):
    total, step, n = times(E)
    n = expected(total, step, n)
    interval = E.int('interval', lo=1, samp=(1, 6))
    p = {'solver_type': 'impes', 'total_time_days': total, 'time_step_days': step, 'save_interval': interval, 'animation_fps': E.choice('fps', [0, 5])}
    g, sim, steps, pics = prepare(E, p, never=E.flag('steps_succeed'))
    d = E.tmpdir()
    name = E.choice('name', ['run', 'case_step_7', 'two words', 'x[1]'])
    old = os.getcwd()
    os.chdir(d)
    try:
        sim.run(name)
        out = [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]
        check_files(E, sim, out, steps, name)
    finally: os.chdir(old)
    E.check('total time over step length many steps', len(steps.calls) == n)
    E.check('every step has the configured length', all(E.eq(c[0], step * 86400) for c in steps.calls))
    check_pictures(E, pics, name, [k for k in range(1, n + 1) if k % interval == 0] if interval < n else [], {k: k for k in range(1, n + 1)}, n)


def check_pictures(E, pics, name, due, calls_at, last):
    mid = [p for p in pics.saved if not p[0].endswith('_final.png')]
    E.check('a picture after every save interval and at no other time', [int(re.search(r'_step_(\d+)\.png$', p[0]).group(1)) for p in mid] == due)
    E.check('pictures are made right after their step', [p[2] for p in mid] == [calls_at[k] for k in due])
    E.check('pictures show the state at their time', all(p[1] for p in pics.saved))
    E.check('one final picture', len(pics.saved) == len(mid) + 1 and pics.saved[-1][0].endswith('_final.png'))


def check_files(E, sim, out, steps, name):
    import numpy as np
    f = [x for x in out if x.endswith('.npz')]
    E.check('one result file', len(f) == 1 and os.path.basename(f[0]) == name + '.npz')
    with np.load(f[0]) as z:
        fin = steps.calls[-1][2] if steps.calls else None
        E.check('the result file holds the final state', fin is None or all(same(z[k], v) for k, v in zip(('pressure', 'sw', 'sg', 'so'), fin)))
    E.check('a summary is written', any(os.path.basename(x) == name + '.txt' for x in out))


@contract('C28', ['Simulator.run'], mode='bounded', trials=60)
def failing_steps(E):
    n = E.int('n', lo=1, samp=(1, 8))
    step = E.choice('step', [1, 0.5, 30])
    interval = E.int('interval', lo=1, samp=(1, 4))
    p = {'solver_type': 'fully_implicit', 'total_time_days': n * step, 'time_step_days': step, 'save_interval': interval, 'animation_fps': 0, 'write_full_arrays_txt': E.flag('arrays')}
    g, sim, steps, pics = prepare(E, p, never=False)
    d = E.tmpdir()
    old = os.getcwd()
    os.chdir(d)
    try:
        sim.run('run')
        check_files(E, sim, [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs], steps, 'run')
    finally: os.chdir(old)
    # read the history: a failed step is tried once more, shorter, and the run ends when that fails too
    done, i, c = 0, 0, steps.calls
    at, ok, whole = {}, True, True
    while i < len(c):
        E.check('every step has the configured length', E.eq(c[i][0], step * 86400))
        if c[i][1]: i += 1
        else:
            E.check('a failed step is tried again', i + 1 < len(c))
            E.check('with a shorter one', 0 < c[i + 1][0] < step * 86400)
            if not c[i + 1][1]:
                E.check('a step that fails twice ends the run', i + 2 == len(c))
                ok = False
                break
            t, i = c[i + 1][0], i + 2
            while ok and i < len(c) and t < step * 86400 * (1 - 1e-9) and c[i][0] < step * 86400 * (1 - 1e-9):
                ok = c[i][1]
                t += c[i][0]; i += 1
            if not ok:
                E.check('a step that fails twice ends the run', i == len(c))
                break
            whole = whole and abs(t - step * 86400) < 1e-6 * t
        done += 1
        at[done] = i
    E.check('the run stops early only when a step fails twice', done == n if ok else done < n)
    E.check('a step repeated with a shorter length still covers its whole time', whole)
    check_pictures(E, pics, 'run', [k for k in range(1, done + 1) if k % interval == 0] if interval < n else [], at, n)


def vtr(path):
    """cell arrays of a rectilinear grid file written by pyevtk"""
    import numpy as np
    raw = open(path, 'rb').read()
    head, _, data = raw.partition(b'<AppendedData')
    data = data[data.index(b'_') + 1:]
    out = {}
    types = {b'Float64': 'f8', b'Float32': 'f4', b'Int64': 'i8', b'Int32': 'i4'}
    for m in re.finditer(rb'<DataArray([^>]*)>', head):
        a = dict(re.findall(rb'(\w+)\s*=\s*"([^"]*)"', m.group(1)))
        o = int(a[b'offset'])
        n = int(np.frombuffer(data[o:o + 8], 'u8')[0])
        out[a[b'Name'].decode()] = np.frombuffer(data[o + 8:o + 8 + n], types[a[b'type']])
    ext = re.search(rb'WholeExtent\s*=\s*"([^"]*)"', head).group(1).split()
    return out, [int(x) for x in ext]


@contract('C28', ['save_to_vtk'], mode='bounded', trials=40)
def vtk_file(E):
    import glob
    import numpy as np
    g = tuple(E.int('n' + a, lo=1, samp=(1, m)) for a, m in zip('xyz', (4, 4, 3)))
    sim = lib.simulator(E, g, T=False, perm=True)
    fresh_state(E, sim, g, 0)
    d = E.tmpdir()
    old = os.getcwd()
    M = E.mod('output.vtk_writer')
    os.chdir(d)
    try:
        M.save_to_vtk(sim.reservoir, sim.fluid, 'out')
        fs = [os.path.join(r, f) for r, _, x in os.walk(d) for f in x]
    finally: os.chdir(old)
    E.check('one file', len(fs) == 1)
    v, ext = vtr(fs[0])
    E.check('as many cells as the grid', ext == [0, g[0], 0, g[1], 0, g[2]])
    for n, t in (('Pressure_MPa', sim.fluid.pressure / 1e6), ('Water_Saturation', sim.fluid.s_w), ('Oil_Saturation', sim.fluid.s_o),
                 ('Permeability_H', sim.reservoir.permeability_x), ('Permeability_V', sim.reservoir.permeability_z)):
        want = t.numpy().flatten(order='F')
        E.check('%s cell by cell' % n, n in v and v[n].shape == want.shape and bool(np.allclose(v[n], want, rtol=1e-12)))
    size = [float(x) for x in sim.reservoir.grid_size]
    for n, a, s in zip('xyz', g, size):
        q = v.get(n + '_coordinates', v.get(n))
        E.check('cells have their size', q is not None and np.allclose(q, np.arange(a + 1) * s, rtol=1e-9))


class Recorder:
    """stands for the absent vtk package: keeps what it is given"""
    def __init__(self): self.log = {}

    def module(self):
        import types
        R = self.log
        v, nm, ns = types.ModuleType('vtk'), types.ModuleType('vtkmodules'), types.ModuleType('vtkmodules.util')
        sup = types.ModuleType('vtkmodules.util.numpy_support')

        class Arr:
            def __init__(s, a): s.a = a.copy()
            def SetName(s, n): s.n = n

        class Points(list):
            def InsertNextPoint(s, *p): s.append(tuple(p))

        class Data:
            def AddArray(s, a): R[a.n] = a.a

        class Grid:
            def SetDimensions(s, *d): R['dims'] = tuple(d)
            def SetPoints(s, p): R['points'] = p
            def GetPointData(s): return Data()
            GetCellData = GetPointData

        class Writer:
            def SetFileName(s, n): R['file'] = n
            def SetInputData(s, g): pass
            def Write(s): R['written'] = R.get('written', 0) + 1
        v.vtkStructuredGrid, v.vtkPoints, v.vtkXMLStructuredGridWriter = Grid, Points, Writer
        sup.numpy_to_vtk = lambda a, *x, **k: Arr(a)
        nm.util, ns.numpy_support = ns, sup
        return {'vtk': v, 'vtkmodules': nm, 'vtkmodules.util': ns, 'vtkmodules.util.numpy_support': sup}


@contract('C28', ['Simulator._save_to_vtk'], mode='bounded', trials=40)
def vtk_of_a_run(E):
    import numpy as np
    g = tuple(E.int('n' + a, lo=1, samp=(1, m)) for a, m in zip('xyz', (4, 4, 3)))
    sim = lib.simulator(E, g, T=False)
    fresh_state(E, sim, g, 0)
    r = Recorder()
    was = {k: sys.modules.get(k) for k in r.module()}
    sys.modules.update(r.module())
    try: sim._save_to_vtk('out', E.tmpdir())
    finally:
        for k, m in was.items():
            if m is None: sys.modules.pop(k, None)
            else: sys.modules[k] = m
    L = r.log
    E.check('written once', L.get('written') == 1 and L['file'].endswith('out.vts'))
    E.check('as many points as cells', L['dims'] == g and len(L['points']) == g[0] * g[1] * g[2])
    for n, t in (('Pressure', sim.fluid.pressure), ('Water_Saturation', sim.fluid.s_w)):
        t = t.numpy()
        E.check('%s cell by cell' % n, n in L and len(L[n]) == t.size and all(L[n][q] == t[p] for q, p in enumerate(L['points'])))


class Ledger(Stub):
    """ghost state of a run: what the steps were asked and answered"""
    def __init__(self, E, sim, g, full, n, interval, implicit):
        self.E, self.sim, self.g, self.full, self.n, self.interval, self.implicit = E, sim, g, full, n, interval, implicit
        self.done, self.part, self.tried, self.twice, self.pictured, self.final = 0, 0, False, False, 0, 0

    def step(self, dt):
        E, L = self.E, self
        E.check('the run ends when a step failed twice', E.not_(L.twice))
        L.picture_made('a picture is made after every save interval')
        if E.istrue(L.tried): E.check('a failed step is tried again with a shorter length', E.and_(E.gt(dt, 0), E.lt(dt, L.full)))
        else: E.check('every step has the configured length', E.eq(dt, L.full))
        for n in ('pressure', 's_w', 's_g', 's_o'): E.putf(L.sim.fluid, n, E.field('new_' + n, L.g))
        ok = E.istrue(E.bool('ok'))
        if ok or not L.implicit:
            part = L.part + dt
            E.check('a step does not cover more than its time', E.le(part, L.full))
            if E.istrue(E.eq(part, L.full)):
                E.put(L, 'done', L.done + 1); E.put(L, 'part', 0); E.put(L, 'tried', False)
            else: E.put(L, 'part', part)
        elif E.istrue(L.tried): E.put(L, 'twice', True)
        else: E.put(L, 'tried', True)
        return ok

    def due(self, k): return self.E.and_(self.E.gt(k, 0), self.E.lt(self.interval, self.n), self.E.eq(k % self.interval, 0))

    def picture_made(self, name):
        E = self.E
        # while a step is under way the last whole one counts
        E.check(name, E.implies(self.due(self.done), E.eq(self.pictured, self.done)))

    def picture(self, plotter, pressure, saturation, filename, time_info=None, gas_saturation=None):
        E, f = self.E, self.sim.fluid
        for a, b in ((pressure, f.pressure), (saturation, f.s_w), (gas_saturation, f.s_g)):
            E.forall(self.g, lambda *q: E.check('pictures show the state at their time', E.eq(E.at(a, *q), E.at(b, *q))))
        if loops_running():
            E.check('pictures are made at whole steps', E.eq(self.part, 0))
            E.check('pictures are made only after a save interval', self.due(self.done))
            E.put(self, 'pictured', self.done)
        else: E.put(self, 'final', self.final + 1)


def loops_running():
    from engine import loops
    return bool(loops.STACK)


@contract('C28', ['Simulator.run'])
def run_loop(E):
    if not E.symbolic: return
    step, total = E.real('step', pos=True), E.real('total', pos=True)
    interval, n = E.int('interval', lo=1), E.int('n', lo=0)
    # so many whole steps fit into the total time (up to the rounding of the quotient)
    E.assume(E.le(n, total / step + E.F('1e-9')))
    E.assume(E.lt(total / step + E.F('1e-9'), n + 1))
    implicit = E.flag('implicit')
    g = E.grid()
    sim = lib.simulator(E, g, params={'solver_type': 'fully_implicit' if implicit else 'impes', 'total_time_days': total, 'time_step_days': step, 'save_interval': interval, 'animation_fps': 0}, T=False)
    L = Ledger(E, sim, g, step * 86400, n, interval, implicit)
    sim.ledger = L
    sim.run_step = lambda dt: L.step(dt)
    E.patch(E.cls('plotting.plotter', 'Plotter'), 'save_plots', lambda *a, **k: L.picture(*a, **k))
    E.hint(lambda lp, p, entry, val, vals, k, m: [((), lambda i: E.implies(L.due(k), E.eq(val, k)))] if p[-1] == ('A', 'pictured') else None)
    sim.run('run')
    E.check('the run stops early only when a fully implicit step fails twice', E.or_(E.eq(L.done, n), L.twice))
    E.check('total time over step length many steps', E.le(L.done, n))
    if not E.istrue(L.twice): L.picture_made('a picture is made after every save interval')
    E.check('one final picture', E.eq(L.final, 1))
    E.check('one result file', len(E.saved) == 1)
    for key, n in (('pressure', 'pressure'), ('sw', 's_w'), ('sg', 's_g'), ('so', 's_o')):
        a, b = E.saved[0][key], getattr(sim.fluid, n)
        E.forall(g, lambda *q: E.check('the result file holds the final state', E.eq(E.at(a, *q), E.at(b, *q))))


@contract('C28', ['save_to_vtk'])
def vtk_arrays(E):
    g = E.grid()
    sim = lib.simulator(E, g, T=False, perm=True)
    M = E.mod('output.vtk_writer')
    got = []
    E.patch(M, 'gridToVTK', lambda path, x, y, z, cellData=None, **k: got.append((x, y, z, cellData)))
    E.patch(M.os, 'makedirs', lambda *a, **k: None)
    M.save_to_vtk(sim.reservoir, sim.fluid, 'out')
    E.check('one file', len(got) == 1)
    x, y, z, d = got[0]
    f, r = sim.fluid, sim.reservoir
    for n, t, u in (('Pressure_MPa', f.pressure, E.F('1e6')), ('Water_Saturation', f.s_w, 1), ('Oil_Saturation', f.s_o, 1), ('Permeability_H', r.permeability_x, 1), ('Permeability_V', r.permeability_z, 1)):
        E.forall(g, lambda *q: E.check('%s cell by cell' % n, E.eq(E.at(d[n], *q), E.at(t, *q) / u)))
    for a, (v, n) in enumerate(zip((x, y, z), g)):
        E.check('one more face than cells', E.eq(E.shape(v)[0], n + 1))
        E.forall((n,), lambda q: E.check('cells have their size', E.eq(E.at(v, q + 1) - E.at(v, q), E.at(r.grid_size, a), scale=1000)))
