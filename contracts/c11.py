from engine.spec import contract

KEYS = (('Bo', 'Bo'), ('Bw', 'Bw'), ('Bg', 'Bg'), ('mu_o', 'mu_o_cP'), ('mu_w', 'mu_w_cP'), ('mu_g', 'mu_g_cP'), ('Rs', 'Rs_m3m3'), ('Rv', 'Rv_m3m3'))


def table(E, n, rv=True):
    d = {'pressure_MPa': E.column('P', n, increasing=True, samp=(0.1, 50))}
    for k, name in KEYS:
        if k != 'Rv' or rv: d[name] = E.column('col_' + k, n, samp=(0.01, 2))
    return d


FN = ['PVTTable.__init__', 'PVTTable.eval', 'PVTTable._interp']


@contract('C11', FN)
def lookup(E):
    n = E.int('rows', lo=1, hi=None, samp=(1, 5))
    d = table(E, n)
    t = E.cls('simulator.pvt', 'PVTTable')(E.json_file(d))
    x = E.field('x', (E.int('m', lo=1, samp=(1, 4)),), samp=(-5, 60))
    i = E.int('i', lo=0, samp=(0, 3))
    E.assume(i < E.shape(x)[0])
    j = E.int('j', lo=0, samp=(0, 4))
    E.assume(j < n)
    P, v = d['pressure_MPa'], E.at(x, i)
    where = E.choice('where', ['point', 'between', 'below', 'above'])
    if where == 'point':
        if not E.symbolic: x[i] = v = E.colat(P, j)
        E.assume(E.eq(v, E.colat(P, j), tol=1e-15))
    elif where == 'between':
        E.assume(j + 1 < n)
        if not E.symbolic: x[i] = v = P[j] + (P[j + 1] - P[j]) * E.real('frac', samp=(0, 1))
        E.assume(E.and_(v > E.colat(P, j), v < E.colat(P, j + 1)))
    elif where == 'below':
        E.assume(v < E.colat(P, 0))
    else:
        E.assume(v > E.colat(P, n - 1))
    out = t.eval(E.vec(x))
    E.cover(where)
    for k, name in KEYS:
        c = d[name]
        y = E.at(out[k], i)
        if where == 'point': E.check('row value at a table point: ' + k, E.eq(y, E.colat(c, j), scale=1e-3))
        elif where == 'between':
            a, b, pa, pb = E.colat(c, j), E.colat(c, j + 1), E.colat(P, j), E.colat(P, j + 1)
            E.check('on the straight line between two points: ' + k, E.eq((y - a) * (pb - pa), (b - a) * (v - pa), scale=pb - pa, tol=1e-6))
            E.check('between the two values: ' + k, E.and_(E.ge(y, E.min(a, b)), E.le(y, E.max(a, b))))
        elif where == 'below': E.check('first value below the table: ' + k, E.eq(y, E.colat(c, 0)))
        else: E.check('last value above the table: ' + k, E.eq(y, E.colat(c, n - 1)))


@contract('C11', FN)
def lookup_without_vaporised_oil(E):
    """the vaporised-oil column may be left out and is then zero"""
    n = E.int('rows', lo=1, samp=(1, 5))
    d = table(E, n, rv=False)
    t = E.cls('simulator.pvt', 'PVTTable')(E.json_file(d))
    x = E.field('x', (2,), samp=(-5, 60))
    out = t.eval(E.vec(x))
    E.cover('loaded')
    E.check('no vaporised oil without its column', E.eq(E.at(out['Rv'], 0), 0))


@contract('C11', ['PVTTable.__init__'])
def lengths_checked(E):
    n = E.int('rows', lo=1, samp=(1, 5))
    d = table(E, n)
    k = E.choice('bad', [name for _, name in KEYS])
    m = E.int('other', lo=0, samp=(0, 7))
    E.assume(E.ne(m, n))
    d[k] = E.column('wrong', m, samp=(0.01, 2))
    E.cover('different length')
    E.check('table with columns of different length is rejected', E.raises(lambda: E.cls('simulator.pvt', 'PVTTable')(E.json_file(d))) is not None)


@contract('C11', ['PVTTable.__init__'])
def well_formed_accepted(E):
    n = E.int('rows', lo=1, samp=(1, 5))
    d = table(E, n, rv=E.flag('rv'))
    E.cover('well-formed')
    E.check('well-formed table is accepted', E.raises(lambda: E.cls('simulator.pvt', 'PVTTable')(E.json_file(d))) is None)
