from engine.spec import contract


@contract('C12', ['pvt_generator.generate_black_oil_pvt', 'pvt_generator._linspace', 'pvt_generator._clip'])
def generated_table(E):
    G = E.mod('simulator.pvt_generator')
    n = E.int('points', lo=1, samp=(1, 8))
    lo = E.real('p_min', pos=True, samp=(0.1, 10))
    hi = E.real('p_max', samp=(10, 80))
    E.assume(hi > lo)
    pb = E.real('pb', pos=True, samp=(1, 90))
    api = E.real('api', lo=0, hi=100, samp=(10, 60))
    sg = E.real('gas_sg', pos=True, hi=3, samp=(0.5, 1.5))
    # an intercept of a decreasing exponential: the undersaturated branch stays below a third of a GPa
    E.assume(hi <= 1000)
    d = G.generate_black_oil_pvt(G.PVTParams(p_min_mpa=lo, p_max_mpa=hi, n_points=n, oil_api=api, gas_sg=sg, bubble_point_mpa=pb))
    names = ('Bo', 'Bw', 'Bg', 'mu_o_cP', 'mu_w_cP', 'mu_g_cP', 'Rs_m3m3', 'Rv_m3m3')
    E.cover('generated')
    for k in names + ('pressure_MPa',): E.check('requested number of rows: ' + k, E.eq(E.len(d[k]), n))
    ls = [d[k] for k in names] + [d['pressure_MPa']]

    def row(i, v):
        r = dict(zip(names, v))
        p = v[-1]
        E.check('evenly spaced pressures', E.eq((p - lo) * (n - 1), (hi - lo) * i, scale=hi * n))
        for k in names[:6]: E.check('positive: ' + k, r[k] > 0)
        for k in names[6:]: E.check('non-negative: ' + k, E.ge(r[k], 0))

    def rows(i, j, v, w):
        a, b = dict(zip(names, v)), dict(zip(names, w))
        p, q = v[-1], w[-1]
        E.cover('two rows')
        E.check('pressures increase', p < q)
        E.check('gas factor does not increase', E.ge(a['Bg'], b['Bg']))
        E.check('water factor does not increase', E.ge(a['Bw'], b['Bw']))
        E.check('oil factor does not increase', E.ge(a['Bo'], b['Bo']))
        E.check('solution gas rises below the bubble point', E.implies(q <= pb, b['Rs_m3m3'] > a['Rs_m3m3']))
        E.check('solution gas constant above the bubble point', E.implies(p >= pb, E.eq(a['Rs_m3m3'], b['Rs_m3m3'])))
        E.check('solution gas not above its plateau', E.implies(E.and_(p <= pb, q >= pb), E.le(a['Rs_m3m3'], b['Rs_m3m3'])))
    E.each(ls, row)
    E.pairs(ls, rows)


@contract('C12', ['pvt_generator.generate_black_oil_pvt'], mode='bounded')
def loads_as_table(E):
    G = E.mod('simulator.pvt_generator')
    lo = E.real('p_min', pos=True, samp=(0.1, 10))
    hi = lo + E.real('span', pos=True, samp=(1, 70))
    d = G.generate_black_oil_pvt(G.PVTParams(p_min_mpa=lo, p_max_mpa=hi, n_points=E.int('points', lo=1, samp=(1, 60)), oil_api=E.real('api', samp=(10, 60)),
                                             gas_sg=E.real('gas_sg', samp=(0.5, 1.5)), bubble_point_mpa=E.real('pb', samp=(1, 90))))
    t = E.cls('simulator.pvt', 'PVTTable')(E.json_file(d))
    for k, a in (('pressure_MPa', t.P), ('Bo', t.Bo), ('Bw', t.Bw), ('Bg', t.Bg), ('mu_o_cP', t.mu_o), ('mu_w_cP', t.mu_w), ('mu_g_cP', t.mu_g), ('Rs_m3m3', t.Rs), ('Rv_m3m3', t.Rv)):
        E.check('loads as a table: ' + k, len(a) == len(d[k]) and all(x == y for x, y in zip(a, d[k])))
