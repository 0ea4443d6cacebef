from engine.spec import contract, Stub

DEFAULTS = {'injected_phase': 'water', 'rate_type': 'reservoir', 'surface_phase': None, 'limits': {}, 'bhp_min': None}


class Res(Stub):
    def __init__(self, g): self.dimensions = g


def entry(E, k, g):
    c = E.cell(g, 'w')
    v = E.real('value', samp=(-100, 100))
    d = {'name': 'well %s' % k, 'type': E.choice('type', ['producer', 'injector']), 'radius': E.real('radius', pos=True, samp=(0.05, 0.19))}
    exp = {'cell': c, 'value': v, 'ct': E.choice('ct', ['rate', 'bhp']), 'name': d['name'], 'type': d['type'], 'radius': d['radius']}
    if E.flag('old_c'): d['coordinates'] = list(c)
    else: d['i'], d['j'], d['k'] = c
    if E.flag('old_ctl'): d['control'] = {'type': exp['ct'], 'value': v}
    else: d['control_type'], d['control_value'] = exp['ct'], v
    exp.update(DEFAULTS)
    if E.flag('opt'):
        o = {'injected_phase': 'gas', 'rate_type': 'surface', 'surface_phase': 'liquid', 'limits': {'wopr': E.real('lim', pos=True, samp=(1, 100))},
             'bhp_min': E.real('bhp_min', pos=True, samp=(1, 20))}
        d.update(o); exp.update(o)
    return d, exp


def compare(E, w, exp, g):
    for n, a, b in zip('ijk', (w.i, w.j, w.k), exp['cell']): E.check('coordinate ' + n, E.eq(a, b))
    for n, b in zip(range(3), exp['cell']): E.check('cell triple', E.eq(w.cell_index[n], b))
    E.check('control value', E.eq(w.control_value, exp['value']))
    E.check('control type', w.control_type == exp['ct'])
    E.check('well type', w.type == exp['type'])
    E.check('name', w.name == exp['name'])
    E.check('radius', E.eq(w.radius, exp['radius']))
    for n in ('injected_phase', 'rate_type', 'surface_phase'): E.check('option or default: ' + n, getattr(w, n) == exp[n])
    E.check('option or default: bhp_min', (w.bhp_min is None) == (exp['bhp_min'] is None) and (exp['bhp_min'] is None or E.eq(w.bhp_min, exp['bhp_min'])))
    E.check('option or default: limits', set(w.limits) == set(exp['limits']) and E.and_(*[E.eq(w.limits[k], v) for k, v in exp['limits'].items()]))


FN = ['WellManager.__init__', 'WellManager.get_wells', 'Well.__init__']


@contract('C13', FN)
def formats(E):
    g = E.grid()
    exps = {}

    def gen(k):
        d, e = entry(E, 'A', g)
        e['key'] = k
        exps.setdefault('l', []).append(e)
        return d
    cfgs = E.seq('wells', gen, lo=0)
    M = E.cls('simulator.well', 'WellManager')(cfgs, Res(g))
    ws = M.get_wells()
    E.check('one well per entry', E.eq(E.len(ws), E.len(cfgs)))

    def one(i, v):
        E.cover('a well')
        for e in exps['l']:
            if e['key'] is i or (not E.symbolic and e['key'] == i): compare(E, v[0], e, g)
    E.each([ws], one)


@contract('C13', FN, trials=200)
def equivalent_formats(E):
    """both formats of the same well give the same well"""
    g = E.grid()
    d, e = entry(E, 'A', g)
    other = {k: v for k, v in d.items() if k not in ('coordinates', 'i', 'j', 'k', 'control', 'control_type', 'control_value')}
    if 'coordinates' in d: other['i'], other['j'], other['k'] = e['cell']
    else: other['coordinates'] = list(e['cell'])
    if 'control' in d: other['control_type'], other['control_value'] = e['ct'], e['value']
    else: other['control'] = {'type': e['ct'], 'value': e['value']}
    M = E.cls('simulator.well', 'WellManager')
    ws = M([d, other], Res(g)).get_wells()
    E.check('both entries become wells', len(ws) == 2)
    E.cover('both')
    for w in ws: compare(E, w, e, g)


@contract('C13', ['WellManager.__init__'], trials=200)
def refusals(E):
    g = E.grid()
    d, e = entry(E, 'A', g)
    good = dict(d)
    bad = E.choice('missing', ['coordinates', 'i', 'j', 'k', 'control'])
    if bad == 'control':
        for k in ('control', 'control_type', 'control_value') if E.flag('all') else (('control', 'control_value') if E.flag('half') else ('control', 'control_type')):
            d.pop(k, None)
    elif bad == 'coordinates':
        for k in ('coordinates', 'i', 'j', 'k'): d.pop(k, None)
    else:
        d.pop('coordinates', None); d.pop(bad, None)
    first = E.flag('first')
    M = E.cls('simulator.well', 'WellManager')
    E.cover('malformed')
    E.check('malformed entry is refused', E.raises(lambda: M([d, good] if first else [good, d], Res(g))) is not None)
    E.check('well-formed entries are accepted', E.raises(lambda: M([good, good], Res(g))) is None)


@contract('C13', ['WellManager.get_well_indices_flat', 'Well.__init__'], trials=200)
def flat_indices(E):
    g = E.grid()
    es = []

    def gen(k):
        d, e = entry(E, 'A', g)
        es.append(e)
        return d
    ws = [gen(0), gen(1)]
    M = E.cls('simulator.well', 'WellManager')(ws, Res(g))
    t = M.get_well_indices_flat()
    E.cover('two wells')
    for q in range(2): E.check('flat index of each well in order', E.eq(E.at(t, q), E.idx(g, *es[q]['cell'])))
