"""C21 settings: what is accepted reads back, what is not is rejected without effect."""
from engine.case import case, flat

ST, FD, TD = 'geoana.em.static', 'geoana.em.fdem', 'geoana.em.tdem'
TV = (TypeError, ValueError)


def vec(h, n, p, k=3):
    return [h.real(f'{p}{n}{i}') for i in range(k)]


# one entry per kind of setting: (valid values, [(bad value, exception)], how it reads back)
def notnum(h):
    return [('abc', TypeError), (None, TypeError), ([h.real('x'), h.real('x')], TypeError), (h.cplx('xc'), TypeError)]


def notloose(h):
    return [('abc', TV), (None, TV), ([h.real('x'), h.real('x')], TV)]


def num(h, n, p):
    return h.real(p + n), notnum(h)


def loose(h, n, p):
    return h.real(p + n), notloose(h)


def posn(h, n, p):
    return h.pos(p + n), notnum(h) + [(-h.pos('d'), ValueError), (0, ValueError)]


def posnz(h, n, p):
    return h.pos(p + n), notnum(h) + [(-h.pos('d'), ValueError)]


def nonneg(h, n, p):
    return h.nonneg(p + n), notnum(h) + [(-h.pos('d'), ValueError)]


def lpos(h, n, p):
    return h.pos(p + n), notloose(h) + [(-h.pos('d'), ValueError), (0, ValueError)]


def lnonneg(h, n, p):
    return h.nonneg(p + n), notloose(h) + [(-h.pos('d'), ValueError)]


def badvec(h):
    x = h.real('x')
    return [([x], TV), ([x, x], ValueError), ([x, x, x, x], ValueError), (x, TV), ([[x] * 3] * 3, ValueError), ([[x] * 3] * 2, ValueError),
            ('abc', TV), (['a', 'b', 'c'], TV)]


def v3(h, n, p):
    return vec(h, n, p), badvec(h)


def below(h, n, p):
    v = vec(h, n, p, 2) + [-h.nonneg(p + n + '2')]
    return v, badvec(h) + [([h.real('x'), h.real('x'), h.pos('d')], ValueError)]


def direction(h, n, p):
    v = vec(h, n, p)
    h.assume('gt', v[0] * v[0] + v[1] * v[1] + v[2] * v[2], h.const(1) / 1000)
    return ('dir', v), badvec(h) + [('W', ValueError), ('xy', ValueError), ('', ValueError)]


def horizontal(h, n, p):
    v = vec(h, n, p, 2)
    h.assume('gt', v[0] * v[0] + v[1] * v[1], h.const(1) / 1000)
    return ('dir', v + [0]), badvec(h) + [([h.real('x'), h.real('x'), h.pos('d')], ValueError), ([h.real('x'), h.real('x'), -h.pos('d')], ValueError),
                                          ('W', ValueError), ('Z', ValueError)]


def nodes(h, n, p):
    x = h.real('x')
    return [vec(h, f'{n}{i}_', p) for i in range(3)], [([[x, x]] * 2, TV), ([[x] * 4] * 3, TV), ([[[x] * 3] * 3] * 2, TV), ('abc', TV), ([[x, x], [x, x, x]], TV), (x, TV)]


def series(h, n, p):
    return [h.pos(f'{p}{n}{i}') for i in range(3)], [([h.pos('d'), -h.pos('d')], ValueError), (-h.pos('d'), ValueError), ([[h.pos('d')] * 2] * 2, TypeError), ('abc', TypeError),
                                                   (['a', 'b'], TypeError)]


def thick(h, n, p):
    return [h.nonneg(f'{p}{n}{i}') for i in range(2)], series(h, n, p)[1]


def layers(low):
    def f(h, n, p):
        from scipy.constants import mu_0, epsilon_0
        lo = {'0': 0, 'mu': mu_0, 'eps': epsilon_0}[low] * h.const(1)
        v = [lo + h.pos(f'{p}{n}{i}') + h.nonneg(f'{p}{n}i{i}') * h.I for i in range(3)]
        d, x = h.pos('d'), lo + h.pos('y')
        neg = x - h.pos('d') * h.I
        low_ = (lo - d)
        bad = [([x, x], TypeError), ([x] * 4, TypeError), ([[x] * 4] * 3, TypeError), ([[x] * 2] * 2, TypeError), ([[[x]]], TypeError), ('abc', TypeError), (None, TypeError),
               (['a'] * 3, TypeError), (low_, ValueError), ([x, x, low_], ValueError), (neg, ValueError), ([x, neg, x], ValueError)]
        if low == '0':
            bad += [(0, ValueError), ([x, 0, x], ValueError)]
        return v, bad
    return f


def _em(**kw):
    return dict(sigma=posn, mu=posn, epsilon=nonneg, **kw)


def _dip(**kw):
    return dict(location=v3, orientation=direction, **kw)


SPEC = {
    'static_magnetic_dipole': (ST, 'MagneticDipoleWholeSpace', (), _em(moment=num, **_dip())),
    'static_magnetic_pole': (ST, 'MagneticPoleWholeSpace', (), _em(moment=num, **_dip())),
    'static_loop': (ST, 'CircularLoopWholeSpace', (), _em(radius=posn, current=num, **_dip())),
    'static_wire': (ST, 'LineCurrentWholeSpace', ('nodes',), _em(nodes=nodes, current=num)),
    'static_point': (ST, 'PointCurrentWholeSpace', ('rho',), dict(rho=posnz, current=num, location=v3)),
    'static_point_half': (ST, 'PointCurrentHalfSpace', ('rho',), dict(rho=posn, current=num, location=below)),
    'static_dipole_half': (ST, 'DipoleHalfSpace', ('rho',), dict(rho=posn, current=num, location_a=below, location_b=below)),
    'static_conducting_sphere': (ST, 'ElectrostaticSphere', ('radius', 'sigma_sphere', 'sigma_background'),
                                 dict(radius=lnonneg, sigma_sphere=lpos, sigma_background=lpos, primary_field=v3, location=v3)),
    'static_magnetic_sphere': (ST, 'MagnetostaticSphere', ('radius', 'mu_sphere', 'mu_background'),
                               dict(radius=lnonneg, mu_sphere=lpos, mu_background=lpos, primary_field=v3, location=v3)),
    'fdem_electric_dipole': (FD, 'ElectricDipoleWholeSpace', ('frequency',), _em(frequency=series, length=posn, current=num, **_dip())),
    'fdem_magnetic_dipole': (FD, 'MagneticDipoleWholeSpace', ('frequency',), _em(frequency=series, moment=num, **_dip())),
    'fdem_plane_wave': (FD, 'HarmonicPlaneWave', ('frequency',), _em(frequency=series, amplitude=loose, orientation=horizontal)),
    'tdem_electric_dipole': (TD, 'ElectricDipoleWholeSpace', ('time',), _em(time=series, length=posn, current=num, **_dip())),
    'tdem_plane_wave': (TD, 'TransientPlaneWave', ('time',), _em(time=series, amplitude=loose, orientation=horizontal)),
    'tdem_vertical_dipole': (TD, 'VerticalMagneticDipoleHalfSpace', ('time',), _em(time=series, moment=num, **_dip())),
    'fdem_layered': (FD, 'MagneticDipoleLayeredHalfSpace', ('frequency', 'thickness'),
                     dict(frequency=series, thickness=thick, sigma=layers('0'), mu=layers('mu'), epsilon=layers('eps'), moment=num, orientation=direction)),
    'gravity_point': ('geoana.gravity', 'PointMass', (), dict(mass=num, location=v3)),
    'gravity_sphere': ('geoana.gravity', 'Sphere', ('radius', 'rho'), dict(radius=lnonneg, rho=loose, location=v3)),
}
DEFAULT = {
    'static_magnetic_dipole': dict(moment=1), 'static_magnetic_pole': dict(moment=1), 'static_loop': dict(current=1), 'static_wire': dict(current=1),
    'static_point': dict(current=1, location=[0] * 3), 'static_point_half': dict(current=1, location=[0] * 3), 'static_dipole_half': dict(current=1),
    'static_conducting_sphere': dict(primary_field=[1, 0, 0], location=[0] * 3), 'static_magnetic_sphere': dict(primary_field=[1, 0, 0], location=[0] * 3),
    'fdem_electric_dipole': dict(length=1, current=1), 'fdem_magnetic_dipole': dict(moment=1), 'fdem_plane_wave': dict(amplitude=1),
    'tdem_electric_dipole': dict(length=1, current=1), 'tdem_plane_wave': dict(amplitude=1), 'tdem_vertical_dipole': dict(moment=1),
}


def val(v):
    return v[1] if isinstance(v, tuple) else v


def shape_of(w):
    return (len(w),) + (shape_of(w[0]) if w else ()) if isinstance(w, list) else ()


def back(h, label, obj, want):
    for k, w in want.items():
        v = getattr(obj, k)
        isd = isinstance(w, tuple)
        w = val(w)
        shp = shape_of(w)
        h.true(f'{label}: {k} shape', tuple(getattr(v, 'shape', ())) == shp, str(getattr(v, 'shape', ())))
        if isd:
            n = h.norm(w)
            for i in range(3):
                h.eq(f'{label}: {k} is the unit vector', v[i] * n, w[i], scale=(n,))
        else:
            for a, b in zip(flat(v), flat(w)):
                h.eq(f'{label}: {k}', a, b)


def mk(h, name, vals):
    mod, cls, _, _ = SPEC[name]
    return getattr(h.mod(mod), cls)(**{k: val(v) for k, v in vals.items()})


def spec_case(name):
    keys = SPEC[name][3]

    def accept(h):
        a = {k: f(h, k, '')[0] for k, f in keys.items()}
        b = {k: f(h, k, 'n_')[0] for k, f in keys.items()}
        o = mk(h, name, a)
        back(h, 'constructor', o, a)
        cur = dict(a)
        for k in keys:
            cur[k] = b[k]
            setattr(o, k, val(b[k]))
            back(h, f'{k} changed', o, cur)
        if name in DEFAULT:
            o = mk(h, name, {k: a[k] for k in SPEC[name][2]})
            back(h, 'default', o, {k: v for k, v in DEFAULT[name].items()})
            if 'sigma' in keys and name != 'fdem_layered':
                from scipy.constants import mu_0, epsilon_0
                back(h, 'default', o, dict(sigma=1, mu=mu_0 * h.const(1), epsilon=epsilon_0 * h.const(1)))
            if 'location' in keys and name != 'fdem_layered':
                back(h, 'default', o, dict(location=[0] * 3))
            if 'orientation' in keys:
                back(h, 'default', o, dict(orientation=[1, 0, 0]))
    case('C21', f'accepts_{name}', bounds='every admissible value of every setting, then every setting changed once to every other admissible value (three frequencies, times or '
         'nodes; three layers)')(accept)

    def reject(h):
        a = {k: f(h, k, '')[0] for k, f in keys.items()}
        o = mk(h, name, a)
        for k, f in keys.items():
            for v, exc in f(h, k, '')[1]:
                h.raises(f'{k} = {v if isinstance(v, str) else "inadmissible value"}', exc, setattr, o, k, v)
                h.raises(f'{k} = {v if isinstance(v, str) else "inadmissible value"} in the constructor', TV + (ZeroDivisionError,), lambda: mk(h, name, dict(a, **{k: v}))) \
                    if not (k.startswith('location') and v is None) else None
            back(h, f'unchanged after a rejected {k}', o, {k: a[k]})
        back(h, 'unchanged after rejected values', o, a)
    case('C21', f'rejects_{name}', bounds='every value out of range; a fixed list of wrong types and shapes with every real entry')(reject)


for _n in SPEC:
    spec_case(_n)


@case('C21', 'orientation_strings', bounds='the documented letters in both cases, for every class that has an orientation')
def strings(h):
    for name, (mod, cls, need, keys) in SPEC.items():
        if 'orientation' not in keys:
            continue
        a = {k: keys[k](h, k, '')[0] for k in need}
        for i, s in enumerate('XYZ'):
            if s == 'Z' and keys['orientation'] is horizontal:
                continue
            for t in (s, s.lower()):
                o = mk(h, name, dict(a, orientation=t))
                back(h, f'{name}: orientation {t}', o, dict(orientation=[1 if j == i else 0 for j in range(3)]))
                o = mk(h, name, a)
                o.orientation = t
                back(h, f'{name}: orientation set to {t}', o, dict(orientation=[1 if j == i else 0 for j in range(3)]))


@case('C21', 'surface_sources', bounds='every source location')
def surface(h):
    f = h.mod(FD)
    x, y, d = h.real('x'), h.real('y'), h.pos('d')
    o = f.MagneticDipoleHalfSpace(h.pos('f'), location=[x, y, 0], sigma=h.pos('s'), moment=h.real('m'), orientation='Y')
    back(h, 'half-space dipole', o, dict(location=[x, y, 0], frequency=h.pos('f'), sigma=h.pos('s'), moment=h.real('m'), orientation=[0, 1, 0]))
    for z in (d, -d):
        h.raises('half-space dipole off the surface', ValueError, lambda: f.MagneticDipoleHalfSpace(h.pos('f'), location=[x, y, z]))
    back(h, 'layered dipole', f.MagneticDipoleLayeredHalfSpace(h.pos('f'), None, location=[x, y, d]), dict(location=[x, y, d], thickness=[]))
    back(h, 'layered dipole on the surface', f.MagneticDipoleLayeredHalfSpace(h.pos('f'), None, location=[x, y, 0]), dict(location=[x, y, 0]))
    h.raises('layered dipole under ground', ValueError, lambda: f.MagneticDipoleLayeredHalfSpace(h.pos('f'), None, location=[x, y, -d]))
    from scipy.constants import mu_0, epsilon_0
    o = f.MagneticDipoleLayeredHalfSpace([h.pos('f'), h.pos('g')], [h.pos('t'), h.pos('u')], sigma=h.pos('s'), mu=mu_0 * (1 + h.nonneg('k')), epsilon=epsilon_0 * (1 + h.nonneg('e')))
    back(h, 'one value for every layer', o, dict(sigma=[h.pos('s')] * 3, mu=[mu_0 * (1 + h.nonneg('k'))] * 3, epsilon=[epsilon_0 * (1 + h.nonneg('e'))] * 3))


@case('C21', 'prisms', bounds='every pair of corners')
def prisms(h):
    a, d, n = [h.real(f'a{i}') for i in range(3)], [h.pos(f'd{i}') for i in range(3)], h.nonneg('n')
    b = [a[i] + d[i] for i in range(3)]
    g, s = h.mod('geoana.gravity'), h.mod(ST)
    M = [h.real(f'm{i}') for i in range(3)]
    for label, mkp in (('mass', lambda p, q, **k: g.Prism(p, q, **k)), ('magnetic', lambda p, q, **k: s.MagneticPrism(p, q, **k))):
        kw = dict(rho=h.real('r')) if label == 'mass' else dict(magnetization=M)
        o = mkp(a, b, **kw)
        back(h, f'{label} prism', o, dict(min_location=a, max_location=b, location=[(a[i] + b[i]) / 2 for i in range(3)], volume=d[0] * d[1] * d[2], **kw))
        if label == 'mass':
            h.eq('mass of a prism', o.mass, d[0] * d[1] * d[2] * h.real('r'))
        else:
            back(h, 'moment of a prism', o, dict(moment=[d[0] * d[1] * d[2] * M[i] for i in range(3)]))
        for i in range(3):
            c = list(b)
            c[i] = a[i] - n
            h.raises(f'{label} prism without volume', ValueError, lambda: mkp(a, c, **kw))
        for k in list(kw) + ['min_location', 'max_location']:
            for v, e in (notnum(h)[:3] if k == 'rho' else badvec(h)):
                h.raises(f'{label} prism {k}', e, setattr, o, k, v)
        back(h, f'{label} prism, unchanged after rejected values', o, dict(min_location=a, max_location=b, **kw))
        sh = [h.real(f's{i}') for i in range(3)]
        o.min_location = [a[i] - d[i] for i in range(3)]
        o.max_location = [b[i] + 2 * d[i] for i in range(3)]
        back(h, f'{label} prism, corners moved', o, dict(min_location=[a[i] - d[i] for i in range(3)], max_location=[b[i] + 2 * d[i] for i in range(3)],
                                                         volume=64 * d[0] * d[1] * d[2], **kw))
        o.min_location = [b[i] + 3 * d[i] for i in range(3)]
        o.max_location = [b[i] + 4 * d[i] for i in range(3)]
        back(h, f'{label} prism moved beyond its old place', o, dict(min_location=[b[i] + 3 * d[i] for i in range(3)], max_location=[b[i] + 4 * d[i] for i in range(3)],
                                                                     volume=d[0] * d[1] * d[2], **kw))


@case('C21', 'derived', bounds='every value')
def derived(h):
    g, s = h.mod('geoana.gravity'), h.mod(ST)
    r, m, d = h.pos('r'), h.real('m'), h.real('d')
    o = g.Sphere(radius=r, rho=d)
    h.eq('mass of a sphere', o.mass, h.const(4) / 3 * h.pi * r * r * r * d)
    o.mass = m
    h.eq('mass set', o.mass, m)
    h.eq('density follows the mass', o.rho * h.const(4) / 3 * h.pi * r * r * r, m)
    h.eq('radius stays', o.radius, r)
    for v, e in notnum(h):
        h.raises('mass', e, setattr, o, 'mass', v)
    h.eq('mass unchanged', o.mass, m)
    w = s.LineCurrentWholeSpace([[0, 0, 0], [h.real('x'), 1, 0]], sigma=r)
    h.eq('resistivity', w.rho * r, 1)
    w.rho = h.pos('q')
    h.eq('conductivity follows the resistivity', w.sigma * h.pos('q'), 1)
    h.true('number of segments', int(w.n_segments) == 1)
    h.true('one node is a point', int(s.LineCurrentWholeSpace([0, 0, h.real('x')]).n_segments) == 0)
    for v, e in notnum(h):
        h.raises('resistivity', e, setattr, w, 'rho', v)
    h.raises('negative resistivity', ValueError, setattr, w, 'rho', -h.pos('p'))
    h.eq('resistivity unchanged', w.rho, h.pos('q'))


@case('C21', 'layered_per_frequency', bounds='three layers and two frequencies, every admissible value: one for all, one per layer, one per layer and frequency')
def per_frequency(h):
    from scipy.constants import mu_0, epsilon_0
    m = h.mod(FD)
    f, t = [h.pos('f0'), h.pos('f1')], [h.pos('t0'), h.pos('t1')]
    low = dict(sigma=0, mu=mu_0, epsilon=epsilon_0)
    forms = {}
    for k, lo in low.items():
        lo = lo * h.const(1)
        forms[k] = ([[lo + h.pos(f'{k}{i}{j}') + h.nonneg(f'{k}i{i}{j}') * h.I for j in range(2)] for i in range(3)],
                    [lo + h.pos(f'{k}{i}') + 0 * h.I for i in range(3)], lo + h.pos(f'{k}'))
    for n in range(3):
        o = m.MagneticDipoleLayeredHalfSpace(frequency=f, thickness=t, **{k: (h.np.array(v[n]) if n < 2 else v[n]) for k, v in forms.items()})
        back(h, 'constructor', o, {k: v[n] if n < 2 else [v[n]] * 3 for k, v in forms.items()})
        for k in low:
            for w in ((n + 1) % 3, (n + 2) % 3):
                v = forms[k][w]
                setattr(o, k, h.np.array(v) if w < 2 else v)
                back(h, f'{k} changed', o, {k: v if w < 2 else [v] * 3})
    v, s, e, mu = o._get_valid_properties_array()
    for a in (s, e, mu):
        h.true('one value per layer and frequency', tuple(a.shape) == (3, 2), str(a.shape))


@case('C21', 'function_defaults', bounds='every frequency, time and offset > 0')
def function_defaults(h):
    from scipy.constants import mu_0
    fd, td = h.mod('geoana.em.fdem.simple_functions'), h.mod('geoana.em.tdem.simple_functions')
    mu = mu_0 * h.const(1)
    t, f = h.arr([h.pos('t')]), h.arr([h.pos('f')])
    xy = h.arr([[h.pos('x'), h.pos('y')]])
    loop = dict(sigma=h.const(1), mu=mu, radius=h.const(1), current=h.const(1), turns=1)
    dip = dict(sigma=h.const(1), mu=mu, moment=h.const(1))
    for m, n, a, kw, skip in [(fd, 'vertical_magnetic_field_horizontal_loop', (f,), dict(loop, secondary=True), ()),
                              (fd, 'vertical_magnetic_flux_horizontal_loop', (f,), dict(loop, secondary=True), ('sigma',))] \
            + [(td, f'vertical_magnetic_{q}_horizontal_loop', (t,), loop, ()) for q in ('field', 'flux', 'field_time_deriv', 'flux_time_deriv')] \
            + [(td, f'magnetic_{q}_magnetic_dipole', (t, xy), dip, ()) for q in ('field_vertical', 'field_time_deriv', 'flux_vertical', 'flux_time_deriv')]:
        g = getattr(m, n)
        h.eq(f'{n}: defaults', g(*a, **{k: kw[k] for k in skip}), g(*a, **kw))


EVAL = {
    'static_magnetic_dipole': ['vector_potential', 'magnetic_flux_density', 'magnetic_field'], 'static_magnetic_pole': ['magnetic_flux_density', 'magnetic_field'],
    'static_loop': ['vector_potential', 'magnetic_flux_density', 'magnetic_field'],
    'static_wire': ['scalar_potential', 'vector_potential', 'magnetic_field', 'magnetic_flux_density', 'electric_field', 'current_density'],
    'static_point': ['potential', 'electric_field', 'current_density'], 'static_point_half': ['potential', 'electric_field', 'current_density'],
    'static_dipole_half': ['potential', 'electric_field', 'current_density'],
    'static_conducting_sphere': ['potential', 'electric_field', 'current_density', 'charge_density'], 'static_magnetic_sphere': ['potential', 'magnetic_field', 'magnetic_flux_density'],
    'fdem_electric_dipole': ['vector_potential', 'electric_field', 'current_density', 'magnetic_field', 'magnetic_flux_density'],
    'fdem_magnetic_dipole': ['vector_potential', 'electric_field', 'current_density', 'magnetic_field', 'magnetic_flux_density'],
    'fdem_plane_wave': ['electric_field', 'current_density', 'magnetic_field', 'magnetic_flux_density'],
    'tdem_electric_dipole': ['vector_potential', 'electric_field', 'current_density', 'magnetic_field', 'magnetic_field_time_deriv', 'magnetic_flux_density',
                             'magnetic_flux_density_time_deriv'],
    'tdem_plane_wave': ['electric_field', 'current_density', 'magnetic_field', 'magnetic_flux_density'],
    'gravity_point': ['gravitational_potential', 'gravitational_field', 'gravitational_gradient'],
    'gravity_sphere': ['gravitational_potential', 'gravitational_field', 'gravitational_gradient'],
}


@case('C21', 'points', bounds='one and two points with two or four coordinates, every value; points above a half-space')
def points(h):
    x, d = h.real('x'), h.pos('d')
    for name, meths in EVAL.items():
        o = mk(h, name, {k: SPEC[name][3][k](h, k, '')[0] for k in SPEC[name][2]})
        for m in meths:
            for P in (h.arr([x, x]), h.arr([[x] * 2] * 2), h.arr([[x] * 4] * 2)):
                h.raises(f'{name}.{m}: points must have three coordinates', ValueError, getattr(o, m), P)
            if name.endswith('_half'):
                for P in (h.arr([x, x, d]), h.arr([[x, x, -d], [x, x, d]])):
                    h.raises(f'{name}.{m}: points in the air', ValueError, getattr(o, m), P)
                if 'dipole' in name:
                    h.raises(f'{name}.{m}: second point in the air', ValueError, getattr(o, m), h.arr([x, x, -d]), h.arr([x, x, d]))
