"""C22 history independence and side effects, C23 shapes and vectorisation, C24 source scaling and translation, for every source class."""
from engine.case import case, flat
from harness.h_params import ST, FD, TD, EVAL

GR = 'geoana.gravity'


def sgl(lo=None):
    def f(h, n, p):
        return h.real(p + n) if lo is None else h.pos(p + n)
    return f


def vec3(h, n, p):
    return h.arr([h.real(f'{p}{n}{i}') for i in range(3)])


def under(h, n, p):
    return h.arr([h.real(f'{p}{n}0'), h.real(f'{p}{n}1'), -h.pos(f'{p}{n}2')])


def dirn(h, n, p):
    return h.arr([2, -1, 2]) if not p else h.arr([0, 3, -4])


def dirh(h, n, p):
    return h.arr([3, -4, 0]) if not p else h.arr([-5, 12, 0])


def two(h, n, p):
    return h.arr([h.pos(f'{p}{n}{i}') for i in range(2)])


def wire(h, n, p):
    c = [h.real(f'{p}{n}{j}', -1, '-1/2') for j in range(3)]
    u, v = h.real(f'{p}{n}u', '1/4', 1), h.real(f'{p}{n}v', '1/4', 1)
    return h.arr([c, [c[0] + u, c[1], c[2]], [c[0] + u, c[1] + v, c[2]]])


R, PS = sgl(), sgl(0)
EM = dict(sigma=PS, mu=PS, epsilon=PS)
DIP = dict(location=vec3, orientation=dirn)
# class -> (module, class, settings, names of settings the field is proportional to, evaluations)
OBJ = {
    'static_magnetic_dipole': (ST, 'MagneticDipoleWholeSpace', dict(mu=PS, moment=R, **DIP), ['moment']),
    'static_magnetic_pole': (ST, 'MagneticPoleWholeSpace', dict(mu=PS, moment=R, **DIP), ['moment']),
    'static_loop': (ST, 'CircularLoopWholeSpace', dict(mu=PS, radius=PS, current=R, **DIP), ['current']),
    'static_wire': (ST, 'LineCurrentWholeSpace', dict(nodes=wire, sigma=PS, mu=PS, current=R), ['current']),
    'static_point': (ST, 'PointCurrentWholeSpace', dict(rho=PS, current=R, location=vec3), ['current']),
    'static_point_half': (ST, 'PointCurrentHalfSpace', dict(rho=PS, current=R, location=under), ['current']),
    'static_dipole_half': (ST, 'DipoleHalfSpace', dict(rho=PS, current=R, location_a=under, location_b=under), ['current']),
    'static_conducting_sphere': (ST, 'ElectrostaticSphere', dict(radius=PS, sigma_sphere=PS, sigma_background=PS, primary_field=vec3, location=vec3), ['primary_field']),
    'static_magnetic_sphere': (ST, 'MagnetostaticSphere', dict(radius=PS, mu_sphere=PS, mu_background=PS, primary_field=vec3, location=vec3), ['primary_field']),
    'fdem_electric_dipole': (FD, 'ElectricDipoleWholeSpace', dict(frequency=two, length=PS, current=R, **EM, **DIP), ['current', 'length']),
    'fdem_magnetic_dipole': (FD, 'MagneticDipoleWholeSpace', dict(frequency=two, moment=R, **EM, **DIP), ['moment']),
    'fdem_plane_wave': (FD, 'HarmonicPlaneWave', dict(frequency=two, amplitude=R, orientation=dirh, **EM), ['amplitude']),
    'fdem_dipole_half': (FD, 'MagneticDipoleHalfSpace', dict(frequency=two, sigma=PS, moment=R, orientation=dirn), ['moment']),
    'tdem_electric_dipole': (TD, 'ElectricDipoleWholeSpace', dict(time=two, length=PS, current=R, **EM, **DIP), ['current', 'length']),
    'tdem_plane_wave': (TD, 'TransientPlaneWave', dict(time=two, amplitude=R, orientation=dirh, **EM), ['amplitude']),
    'tdem_vertical_dipole': (TD, 'VerticalMagneticDipoleHalfSpace', dict(time=two, sigma=PS, mu=PS, moment=R, location=vec3), ['moment']),
    'gravity_point': (GR, 'PointMass', dict(mass=R, location=vec3), ['mass']),
    'gravity_sphere': (GR, 'Sphere', dict(radius=PS, rho=R, location=vec3), ['rho']),
}
METH = dict(EVAL, fdem_dipole_half=['magnetic_field'],
            tdem_vertical_dipole=['magnetic_field', 'magnetic_flux_density', 'magnetic_field_time_derivative', 'magnetic_flux_time_derivative'])
# the point under ground for the half-spaces, off every singular set otherwise
HALF = ('static_point_half', 'static_dipole_half')
TAIL = {'potential': (), 'scalar_potential': (), 'gravitational_potential': (), 'charge_density': (), 'gravitational_gradient': (3, 3)}


def make(h, name, vals):
    return getattr(h.mod(OBJ[name][0]), OBJ[name][1])(**vals)


def settings(h, name, p, where=''):
    out = {k: f(h, k, p) for k, f in OBJ[name][2].items()}
    if where == 'surface':
        for k in ('location', 'location_a', 'location_b'):
            if k in out:
                out[k] = h.arr([h.real(f'{p}{k}0'), h.real(f'{p}{k}1'), 0])
    elif where:
        if 'radius' in out:
            out['radius'] = h.real(p + 'radius', *{'outside': ('1/10', 1), 'inside': (20, 30), 'mixed': (5, 6)}[where])
        out['location'] = h.arr([h.real(f'{p}location{i}', -1, 1) for i in range(3)])
    return out


def pts(h, name, n, where=''):
    out = []
    for i in range(n):
        d = [h.real(f'p{i}_{j}') for j in range(3)]
        if name == 'static_wire' or where and where != 'surface':
            d = [h.real(f'p{i}_{j}', *((2, 5) if where != 'mixed' else (0, 1) if i == 0 else (8, 9))) for j in range(3)]
        if where == 'mixed' and name == 'static_loop' and i == 0:
            s = h.real('axis', 1, 5)
            d = [h.real(f'location{j}', -1, 1) + s * (2, -1, 2)[j] for j in range(3)]
        if name in HALF:
            d[2] = -h.pos(f'p{i}_2')
        if name in ('fdem_dipole_half',):
            d[2] = 0
        out.append(d)
    return h.arr(out)


def res(h, r):
    return list(r) if isinstance(r, (tuple, list)) else [r]


def same(h, label, a, b, scale=()):
    a, b = res(h, a), res(h, b)
    h.true(f'{label}: as many parts', len(a) == len(b))
    for x, y in zip(a, b):
        h.true(f'{label}: shape', tuple(x.shape) == tuple(y.shape), f'{x.shape} {y.shape}')
        for u, v in zip(flat(x), flat(y)):
            h.eq(label, u, v, scale=scale)


def ev(h, name, o, m, P):
    if name == 'fdem_dipole_half':
        return getattr(o, m)(P, field='total')
    return getattr(o, m)(P)


def copy(h, v):
    return v + 0 if getattr(v, 'shape', ()) else v


def unchanged(h, label, a, b):
    for u, v in zip(flat(a), flat(b)):
        h.eq(label, u, v)


def keyval(o, k):
    v = getattr(o, k)
    return flat(v)


ZONES = {'static_loop': ['outside', 'mixed'], 'static_conducting_sphere': ['outside', 'inside', 'mixed'], 'static_magnetic_sphere': ['outside', 'inside', 'mixed'],
         'gravity_sphere': ['outside', 'inside', 'mixed'], 'static_point_half': ['surface'], 'static_dipole_half': ['surface']}
ZB = {'': '', 'surface': '; electrodes on the surface', 'outside': '; points in [2, 5]^3, source centre in [-1, 1]^3, radius in [0.1, 1]', 'mixed': '; one point in [0, 1]^3 (for the loop: on its axis), the other in [8, 9]^3, centre in [-1, 1]^3, radius in [5, 6]', 'inside': '; points in [2, 5]^3, source centre in [-1, 1]^3, radius in [20, 30]'}


def zones(f):
    def g(name):
        f(name, '', 'thorough' if name in ZONES and name not in HALF else 'quick')
        for w in ZONES.get(name, []):
            if w == 'mixed' and f.__name__ in ('history', 'scaling'):
                continue
            f(name, w, 'quick')
    return g


@zones
def effects(name, where, tier):
    """nothing the caller passes in is modified, evaluation has no memory, results are the caller's own."""
    def b(h):
        a = settings(h, name, '', where)
        a0 = {k: copy(h, v) for k, v in a.items()}
        P = pts(h, name, 2, where)
        P0 = copy(h, P)
        o = make(h, name, a)
        s0 = {k: list(keyval(o, k)) for k in a}
        for k in a:
            unchanged(h, f'constructor leaves the given {k} alone', a[k], a0[k])
        o2 = make(h, name, {k: copy(h, v) for k, v in a0.items()})
        for k in a:
            setattr(o2, k, a[k])
            unchanged(h, f'setting {k} leaves the given value alone', a[k], a0[k])
        first = {m: ev(h, name, o, m, P) for m in METH[name]}
        for m in METH[name]:
            unchanged(h, f'{m} leaves the points alone', P, P0)
        keep = {m: [copy(h, r.reshape(-1)) for r in res(h, first[m])] for m in first}
        for m in METH[name]:
            for r in res(h, ev(h, name, o, m, P)):
                r[...] = 0
        for k in a:
            unchanged(h, f'evaluation leaves {k} alone', keyval(o, k), s0[k])
            unchanged(h, f'evaluation leaves the given {k} alone', a[k], a0[k])
        for m in METH[name]:
            unchanged(h, f'overwriting the result of {m} leaves the points alone', P, P0)
            for r, k in zip(res(h, ev(h, name, o, m, P)), keep[m]):
                unchanged(h, f'{m} evaluated again', r.reshape(-1), k)
            for r, k in zip(res(h, first[m]), keep[m]):
                unchanged(h, f'earlier result of {m}', r.reshape(-1), k)
    case('C22', f'effects_{name}' + (where and '_' + where), tier=tier, bounds='two points, two frequencies or times; every value of the settings (two fixed directions)' + ZB[where], **OPT.get(name, {}))(b)


@zones
def history(name, where, tier):
    """an object whose settings were changed behaves like a new one."""
    def b(h):
        a, n = settings(h, name, '', where), settings(h, name, 'n_', where)
        P = pts(h, name, 1, where)
        o = make(h, name, a)
        for m in METH[name]:
            ev(h, name, o, m, P)
        cur = dict(a)
        for k in a:
            setattr(o, k, n[k])
            cur[k] = n[k]
            q = make(h, name, cur)
            for m in METH[name]:
                same(h, f'{m} after changing {k}', ev(h, name, o, m, P), ev(h, name, q, m, P))
    case('C22', f'history_{name}' + (where and '_' + where), tier=tier, bounds='every setting changed in turn, evaluated before and after each change; one point, two frequencies or times; every value of the settings '
         '(two fixed directions)' + ZB[where], **OPT.get(name, {}))(b)


@zones
def apart(name, where, tier):
    """objects, callers' arrays and points do not influence each other later on."""
    def b(h):
        a, n = settings(h, name, '', where), settings(h, name, 'n_', where)
        P = pts(h, name, 2, where)
        Q, Q2 = P[:1], P[1:]
        ref = {m: [ev(h, name, make(h, name, v), m, p) for v, p in ((a, Q), (n, Q), (a, Q2))] for m in METH[name]}
        ref = {m: [[copy(h, x.reshape(-1)) for x in res(h, r)] for r in ref[m]] for m in ref}

        def match(label, m, o, p, i):
            for u, v in zip(res(h, ev(h, name, o, m, p)), ref[m][i]):
                unchanged(h, f'{m} {label}', u.reshape(-1), v)
        # arrays the caller goes on using
        mine = {k: copy(h, v) for k, v in a.items()}
        o, o2 = make(h, name, mine), make(h, name, mine)
        grown = [k for k in a if tuple(getattr(a[k], 'shape', ())) and not (k == 'orientation')]
        for k in a:
            if getattr(mine[k], 'shape', ()):
                mine[k][...] = n[k]
        for m in METH[name]:
            match('after the caller changed its arrays', m, o, Q, 0)
        # updates in place of one object
        mine = {k: copy(h, v) for k, v in a.items()}
        o, o2 = make(h, name, mine), make(h, name, mine)
        for k in grown:
            setattr(o, k, getattr(o, k).__iadd__(n[k] - a[k]))
            unchanged(h, f'updating {k} of one object leaves the array it was built from', mine[k], a[k])
            unchanged(h, f'updating {k} of one object sets it', keyval(o, k), flat(n[k]))
            unchanged(h, f'updating {k} of one object leaves the other object', keyval(o2, k), flat(a[k]))
        for m in METH[name]:
            match('of the other object', m, o2, Q, 0)
        for k in a:
            setattr(o, k, n[k])
        for m in METH[name]:
            match('after updates in place', m, o, Q, 1)
            match('of the other object, taking turns', m, o2, Q, 0)
            match('taking turns', m, o, Q, 1)
        # other points, in an array of the same shape or in the very same array
        W = copy(h, Q)
        for m in METH[name]:
            match('here', m, o2, Q, 0)
            match('at another point', m, o2, Q2, 2)
            W[...] = Q
            match('in an array to be used again', m, o2, W, 0)
            W[...] = Q2
            match('in an array used again', m, o2, W, 2)
    case('C22', f'apart_{name}' + (where and '_' + where), tier=tier, bounds='two objects taking turns, two points one after the other, two frequencies or times; every value of the settings (two fixed directions)' + ZB[where], **OPT.get(name, {}))(b)


OPT = {'fdem_dipole_half': {}, 'static_loop': {}}
for _n in OBJ:
    effects(_n)
    history(_n)
    apart(_n)


# sources that can be built without any array argument
DEFAULTS = {'static_magnetic_dipole': {}, 'static_magnetic_pole': {}, 'static_loop': {}, 'static_point': dict(current=1.0, rho=1.0), 'static_point_half': dict(current=1.0, rho=1.0),
            'fdem_electric_dipole': dict(frequency=1.0), 'fdem_magnetic_dipole': dict(frequency=1.0), 'tdem_electric_dipole': dict(time=1.0),
            'tdem_vertical_dipole': dict(time=1.0), 'gravity_point': dict(mass=1.0), 'gravity_sphere': dict(radius=1.0, rho=1.0), 'static_conducting_sphere': dict(radius=1.0, sigma_sphere=1.0, sigma_background=2.0),
            'static_magnetic_sphere': dict(radius=1.0, mu_sphere=1.0, mu_background=2.0)}


@case('C22', 'defaults_stay', bounds='default location of every source class that has one, changed in place by any amount')
def dflt(h):
    d = h.arr([h.real(f'd{i}') for i in range(2)] + [-h.pos('d2')])
    for name, kw in DEFAULTS.items():
        try:
            o = make(h, name, kw)
        except TypeError:       # no default location
            continue
        before = [copy(h, getattr(o, 'location')), copy(h, getattr(o, 'orientation'))if 'orientation' in OBJ[name][2] else None]
        o.location = o.location.__iadd__(d)
        unchanged(h, f'{name}: moved', o.location, before[0] + d)
        q = make(h, name, kw)
        unchanged(h, f'{name}: default location', q.location, before[0])
        if before[1] is not None:
            w = o.orientation
            try:
                o.orientation = w.__imul__(-1)
            except TypeError:
                pass
            unchanged(h, f'{name}: default orientation', make(h, name, kw).orientation, before[1])


# ------------------------------------------------------------------ prisms and layered half-spaces
def prism_kit(h, cls):
    if cls == 'Prism':
        return h.mod(GR).Prism, ['gravitational_potential', 'gravitational_field', 'gravitational_gradient'], lambda p: dict(rho=h.real(p + 'rho'))
    return h.mod(ST).MagneticPrism, ['scalar_potential', 'magnetic_field', 'magnetic_flux_density', 'magnetic_field_gradient'], \
        lambda p: dict(magnetization=h.arr([h.real(f'{p}m{i}') for i in range(3)]))


def corners(h, p):
    return dict(min_location=h.arr([h.real(f'{p}a{i}', -2, -1) for i in range(3)]), max_location=h.arr([h.real(f'{p}b{i}', '-1/2', 0) for i in range(3)]))


for _c in ('Prism', 'MagneticPrism'):
    def _pe(h, cls=_c):
        C, meths, src = prism_kit(h, cls)
        a = dict(corners(h, ''), **src(''))
        a0 = {k: copy(h, v) for k, v in a.items()}
        P = h.arr([[h.real(f'p{i}{j}', 2, 5) for j in range(3)] for i in range(2)])
        P0 = copy(h, P)
        o = C(**a)
        keep = {m: copy(h, getattr(o, m)(P).reshape(-1)) for m in meths}
        for m in meths:
            getattr(o, m)(P)[...] = 0
        for k in a:
            unchanged(h, f'the given {k} is left alone', a[k], a0[k])
            unchanged(h, f'evaluation leaves {k} alone', keyval(o, k), flat(a0[k]))
        unchanged(h, 'points are left alone', P, P0)
        for m in meths:
            unchanged(h, f'{m} evaluated again', getattr(o, m)(P).reshape(-1), keep[m])
    case('C22', f'effects_{_c}', native='potential_field_prism', bounds='two points in [2, 5]^3, prism corners in [-2, 0]^3')(_pe)

    def _ph(h, cls=_c):
        C, meths, src = prism_kit(h, cls)
        a, n = dict(corners(h, ''), **src('')), dict(corners(h, 'n_'), **src('n_'))
        P = h.arr([h.real(f'p{j}', 2, 5) for j in range(3)])
        o = C(**a)
        cur = dict(a)
        for k in n:
            for m in meths:
                getattr(o, m)(P)
            setattr(o, k, n[k])
            cur[k] = n[k]
            q = C(**cur)
            for m in meths:
                same(h, f'{m} after changing {k}', getattr(o, m)(P), getattr(q, m)(P))
    case('C22', f'history_{_c}', native='potential_field_prism', bounds='one point in [2, 5]^3, prism corners in [-2, 0]^3, every setting changed in turn')(_ph)


def filt(h):
    h.use_filter([h.pos('fb0'), h.pos('fb1')], [h.real('w00'), h.real('w01')], [h.real('w10'), h.real('w11')])


def layered_settings(h, p):
    from scipy.constants import mu_0, epsilon_0
    return dict(frequency=h.arr([100000 * h.pos(p + 'f0'), 100000 * h.pos(p + 'f1')]), thickness=h.arr([h.pos(p + 't')]), sigma=h.arr([h.pos(p + 's0'), h.pos(p + 's1')]),
                mu=h.arr([mu_0 * (1 + h.pos(p + 'm0')), mu_0 * (1 + h.pos(p + 'm1'))]), epsilon=h.arr([epsilon_0 * (1 + h.pos(p + f'e{i}')) for i in range(2)]), moment=h.real(p + 'M'),
                location=h.arr([h.real(p + 'x'), h.real(p + 'y'), h.pos(p + 'z')]), orientation=dirn(h, '', p))


@case('C22', 'history_layered', native='rTE', lazy_sqrt='s', bounds='two layers, two frequencies, one point, a digital filter of two points with arbitrary abscissae and weights; every setting changed in turn')
def lay_hist(h):
    filt(h)
    f = h.mod(FD)
    a, n = layered_settings(h, ''), layered_settings(h, 'n_')
    a0, n0 = {k: copy(h, v) for k, v in a.items()}, {k: copy(h, v) for k, v in n.items()}
    P = h.arr([[h.real('p0'), h.real('p1'), h.pos('p2')]])
    P0 = copy(h, P)
    o = f.MagneticDipoleLayeredHalfSpace(**a)
    cur = dict(a)
    for k in a:
        keep = copy(h, o.magnetic_field(P).reshape(-1))
        o.magnetic_field(P)[...] = 0
        unchanged(h, 'evaluated again', o.magnetic_field(P).reshape(-1), keep)
        setattr(o, k, n[k])
        cur[k] = n[k]
        same(h, f'field after changing {k}', o.magnetic_field(P), f.MagneticDipoleLayeredHalfSpace(**cur).magnetic_field(P))
    unchanged(h, 'points are left alone', P, P0)
    for k in a:
        unchanged(h, f'the given {k} is left alone', a[k], a0[k])
        unchanged(h, f'the given {k} is left alone', n[k], n0[k])


@case('C22', 'history_layered_dispersive', native='rTE', lazy_sqrt='s', bounds='two layers with properties per frequency, two frequencies, one point, a digital filter of two points with arbitrary abscissae and weights; every property and the frequencies changed in turn')
def lay_disp(h):
    filt(h)
    f = h.mod(FD)
    a, n = layered_settings(h, ''), layered_settings(h, 'n_')
    for v, p in ((a, 'd_'), (n, 'nd_')):
        for k in ('sigma', 'mu', 'epsilon'):
            v[k] = h.arr([[v[k][i], v[k][i] * (1 + h.pos(f'{p}{k}{i}'))] for i in range(2)])
    P = h.arr([[h.real('p0'), h.real('p1'), h.pos('p2')]])
    o = f.MagneticDipoleLayeredHalfSpace(**a)
    cur = dict(a)
    for k in ('sigma', 'frequency', 'mu', 'thickness', 'epsilon'):
        o.magnetic_field(P)
        setattr(o, k, n[k])
        cur[k] = n[k]
        same(h, f'field after changing {k}', o.magnetic_field(P), f.MagneticDipoleLayeredHalfSpace(**cur).magnetic_field(P))


for _c in ('Prism', 'MagneticPrism'):
    def _pa(h, cls=_c):
        C, meths, src = prism_kit(h, cls)
        a, n = dict(corners(h, ''), **src('')), dict(corners(h, 'n_'), **src('n_'))
        P = h.arr([[h.real(f'p{i}{j}', 2, 5) for j in range(3)] for i in range(2)])
        ref = {m: [copy(h, getattr(C(**v), m)(p).reshape(-1)) for v, p in ((a, P[:1]), (n, P[:1]), (a, P[1:]))] for m in meths}
        mine = {k: copy(h, v) for k, v in a.items()}
        o, o2 = C(**mine), C(**mine)
        for k in a:
            if not getattr(a[k], 'shape', ()):
                continue
            setattr(o, k, getattr(o, k).__iadd__(n[k] - a[k]))
            unchanged(h, f'updating {k} of one prism leaves the array it was built from', mine[k], a[k])
            unchanged(h, f'updating {k} of one prism sets it', keyval(o, k), flat(n[k]))
            unchanged(h, f'updating {k} of one prism leaves the other', keyval(o2, k), flat(a[k]))
            mine[k][...] = n[k]
            unchanged(h, f'changing the array {k} was built from leaves the prism', keyval(o2, k), flat(a[k]))
        for k in a:
            setattr(o, k, n[k])
        W = P[:1] + 0
        for m in meths:
            for t, p, i, lab in ((o, P[:1], 1, 'of the updated prism'), (o2, P[:1], 0, 'of the other prism'), (o, P[:1], 1, 'taking turns'), (o2, P[1:], 2, 'at another point')):
                unchanged(h, f'{m} {lab}', getattr(t, m)(p).reshape(-1), ref[m][i])
            W[...] = P[:1]
            unchanged(h, f'{m} in an array to be used again', getattr(o2, m)(W).reshape(-1), ref[m][0])
            W[...] = P[1:]
            unchanged(h, f'{m} in an array used again', getattr(o2, m)(W).reshape(-1), ref[m][2])
    case('C22', f'apart_{_c}', native='potential_field_prism', bounds='two prisms with corners in [-2, 0]^3 taking turns, two points in [2, 5]^3 one after the other')(_pa)


@case('C22', 'apart_layered', native='rTE', lazy_sqrt='s', bounds='two layers, two frequencies, two objects taking turns, two points one after the other, a digital filter of two points with arbitrary abscissae and weights')
def lay_apart(h):
    filt(h)
    C = h.mod(FD).MagneticDipoleLayeredHalfSpace
    a, n = [{k: copy(h, copy(h, v)) for k, v in layered_settings(h, p).items()} for p in ('', 'n_')]
    P = h.arr([[h.real(f'p{i}0'), h.real(f'p{i}1'), h.pos(f'p{i}2')] for i in range(2)])
    ref = [copy(h, C(**v).magnetic_field(p).reshape(-1)) for v, p in ((a, P[:1]), (n, P[:1]), (a, P[1:]))]
    mine = {k: copy(h, v) for k, v in a.items()}
    o, o2 = C(**mine), C(**mine)
    for k in a:
        if not getattr(a[k], 'shape', ()) or k == 'orientation':
            continue
        setattr(o, k, getattr(o, k).__iadd__(n[k] - a[k]))
        unchanged(h, f'updating {k} of one dipole leaves the array it was built from', mine[k], a[k])
        unchanged(h, f'updating {k} of one dipole sets it', keyval(o, k), flat(n[k]))
        unchanged(h, f'updating {k} of one dipole leaves the other', keyval(o2, k), flat(a[k]))
        mine[k][...] = n[k]
        unchanged(h, f'changing the array {k} was built from leaves the dipole', keyval(o2, k), flat(a[k]))
    for k in a:
        setattr(o, k, n[k])
    W = P[:1] + 0
    for t, p, i, lab in ((o, P[:1], 1, 'of the updated dipole'), (o2, P[:1], 0, 'of the other dipole'), (o, P[:1], 1, 'taking turns'), (o2, P[1:], 2, 'at another point'), (o2, W, 0, 'in an array to be used again')):
        unchanged(h, f'field {lab}', t.magnetic_field(p).reshape(-1), ref[i])
    W[...] = P[1:]
    unchanged(h, 'field in an array used again', o2.magnetic_field(W).reshape(-1), ref[2])


# ------------------------------------------------------------------ functions
@case('C22', 'functions_spatial', bounds='two points or vectors, every value off the coordinate axes')
def fsp(h):
    sp = h.mod('geoana.spatial')
    X = h.arr([[h.pos(f'x{i}{j}') for j in range(3)] for i in range(2)])
    V = h.arr([[h.real(f'v{i}{j}') for j in range(3)] for i in range(2)])
    o = h.arr([h.real(f'o{j}') for j in range(3)])
    for name in ('cylindrical_to_cartesian', 'cartesian_to_cylindrical', 'spherical_to_cartesian', 'cartesian_to_spherical'):
        f = getattr(sp, name)
        for args in ((X,), (X, V), (X[0], V[0])):
            cp = [copy(h, a) for a in args]
            r = copy(h, f(*args).reshape(-1))
            f(*args)[...] = 0
            for a, c in zip(args, cp):
                unchanged(h, f'{name} leaves its arguments alone', a, c)
            unchanged(h, f'{name} evaluated again', f(*args).reshape(-1), r)
    for name, args in (('vector_distance', (X, o)), ('distance', (X, o)), ('vector_dot', (X, o)), ('vector_magnitude', (X,)), ('repeat_scalar', (X[:, 0],))):
        cp = [copy(h, a) for a in args]
        f = getattr(sp, name)
        r = copy(h, f(*args).reshape(-1))
        f(*args)[...] = 0
        for a, c in zip(args, cp):
            unchanged(h, f'{name} leaves its arguments alone', a, c)
        unchanged(h, f'{name} evaluated again', f(*args).reshape(-1), r)
    n0, n1 = h.arr([2, -1, 2]), h.arr([0, 3, 4])
    args = [X, n0, n1, o]
    cp = [copy(h, a) for a in args]
    r = copy(h, sp.rotate_points_from_normals(*args).reshape(-1))
    sp.rotate_points_from_normals(*args)[...] = 0
    sp.rotation_matrix_from_normals(n0, n1)[...] = 0
    for a, c in zip(args, cp):
        unchanged(h, 'rotation leaves its arguments alone', a, c)
    unchanged(h, 'rotation evaluated again', sp.rotate_points_from_normals(*args).reshape(-1), r)


@case('C22', 'functions_loops', bounds='two frequencies, times and offsets, every value')
def flp(h):
    from scipy.constants import mu_0
    t, s, r, I = h.arr([h.pos('t0'), h.pos('t1')]), h.pos('s'), h.pos('r'), h.real('I')
    mu = h.pos('mu')
    xy = h.arr([[h.pos(f'x{i}'), h.pos(f'y{i}')] for i in range(2)])
    F, T = h.mod('geoana.em.fdem.simple_functions'), h.mod('geoana.em.tdem.simple_functions')
    calls = []
    for m, n in ((F, 'vertical_magnetic_field_horizontal_loop'), (F, 'vertical_magnetic_flux_horizontal_loop'), (T, 'vertical_magnetic_field_horizontal_loop'),
                 (T, 'vertical_magnetic_flux_horizontal_loop'), (T, 'vertical_magnetic_field_time_deriv_horizontal_loop'), (T, 'vertical_magnetic_flux_time_deriv_horizontal_loop')):
        calls.append((m, n, (t,), dict(sigma=s, mu=mu, radius=r, current=I)))
    for n in ('magnetic_field_vertical_magnetic_dipole', 'magnetic_field_time_deriv_magnetic_dipole', 'magnetic_flux_vertical_magnetic_dipole', 'magnetic_flux_time_deriv_magnetic_dipole'):
        calls.append((T, n, (t, xy), dict(sigma=s, mu=mu, moment=I)))
    for m, n, args, kw in calls:
        f = getattr(m, n)
        cp = [copy(h, a) for a in args]
        k = copy(h, f(*args, **kw).reshape(-1))
        f(*args, **kw)[...] = 0
        for a, c in zip(args, cp):
            unchanged(h, f'{n} leaves its arguments alone', a, c)
        unchanged(h, f'{n} evaluated again', f(*args, **kw).reshape(-1), k)


@case('C22', 'functions_prism', native='potential_field_prism', bounds='two nodes in [1, 5]^3')
def fpr(h):
    X = [h.arr([h.real(f'x{i}{j}', 1, 5) for j in range(2)]) for i in range(3)]
    cp = [copy(h, a) for a in X]
    for mod, pre in (('geoana.kernels._extensions.potential_field_prism', ''), ('geoana.kernels.potential_field_prism', '_')):
        m = h.mod(mod)
        for k in ('f', 'fz', 'fzz', 'fzx', 'fzy', 'fzzz', 'fxxy', 'fxxz', 'fxyz'):
            f = getattr(m, f'{pre}prism_{k}')
            r = copy(h, f(*X).reshape(-1))
            f(*X)[...] = 0
            for a, c in zip(X, cp):
                unchanged(h, f'prism_{k} leaves its arguments alone', a, c)
            unchanged(h, f'prism_{k} evaluated again', f(*X).reshape(-1), r)


@case('C22', 'functions_layered', native='rTE', lazy_sqrt='s', bounds='two layers, two frequencies, two wavenumbers, every value')
def frt(h):
    from harness.h_layered import setup, arrs
    A = arrs(h, *setup(h, 2, 2, 2))
    cp = [copy(h, a) for a in A]
    for mod, pre in (('geoana.kernels._extensions.rTE', ''), ('geoana.kernels.tranverse_electric_reflections', '_')):
        m = h.mod(mod)
        for k in ('forward', 'gradient'):
            f = getattr(m, f'{pre}rTE_{k}')
            r = [copy(h, x.reshape(-1)) for x in res(h, f(*A))]
            for x in res(h, f(*A)):
                x[...] = 0
            for a, c in zip(A, cp):
                unchanged(h, f'rTE_{k} leaves its arguments alone', a, c)
            for x, y in zip(res(h, f(*A)), r):
                unchanged(h, f'rTE_{k} evaluated again', x.reshape(-1), y)


# ------------------------------------------------------------------ C23 shapes
def tail(m):
    return TAIL.get(m, (3,))


def axis_of(name):
    return 'frequency' if 'frequency' in OBJ[name][2] else 'time' if 'time' in OBJ[name][2] else None


@zones
def shapes(name, where, tier):
    def b(h):
        a = settings(h, name, '', where)
        P = pts(h, name, 2, where)
        ax = axis_of(name)
        lead = (2,) if ax else ()
        o = make(h, name, a)
        sq = name == 'fdem_dipole_half'     # documented to squeeze
        forms = {'a single point': P[0], 'a grid of points': P.reshape(1, 2, 3), 'a column of points': P.reshape(2, 1, 3)}
        if not sq:
            forms['a list of points'] = [[P[i, j] for j in range(3)] for i in range(2)]
            if name != 'tdem_vertical_dipole':
                forms['a tuple of coordinates'] = (P[:, 0], P[:, 1], P[:, 2])
                forms['a tuple of three coordinates each'] = (P[[0, 1, 0], 0], P[[0, 1, 0], 1], P[[0, 1, 0], 2])
                forms['a tuple of coordinate grids'] = tuple(P[:, j].reshape(1, 2) for j in range(3))
        if ax:
            one = [make(h, name, dict(a, **{ax: a[ax][i]})) for i in range(2)]
            arr1 = make(h, name, dict(a, **{ax: a[ax][:1]}))
        for m in METH[name]:
            R = res(h, ev(h, name, o, m, P))
            n = len(R)
            for r in R:
                h.true(f'{m}: shape', tuple(r.shape) == lead + (2,) + tail(m), str(r.shape))
            for lab, Q in forms.items():
                F = res(h, ev(h, name, o, m, Q))
                h.true(f'{m}: as many parts for {lab}', len(F) == n)
                ps = () if lab == 'a single point' else (3,) if 'three' in lab else (1, 2) if 'grids' in lab else (2,) if 'list' in lab or 'tuple' in lab else tuple(Q.shape)[:-1]
                for f, r in zip(F, R):
                    r = (r[:, 0] if ax else r[0]) if lab == 'a single point' else (r[:, [0, 1, 0]] if ax else r[[0, 1, 0]]) if 'three' in lab else r
                    w = lead + ps + tail(m)
                    if sq:
                        w = tuple(k for k in w if k != 1)
                    h.true(f'{m}: shape for {lab}', tuple(getattr(f, 'shape', ())) == w, str(getattr(f, 'shape', ())))
                    for u, v in zip(flat(f), flat(r)):
                        h.eq(f'{m}: values for {lab}', u, v)
            if ax:
                for i in range(2):
                    F = ev(h, name, one[i], m, P)
                    h.true(f'{m}: shape for one {ax}', tuple(F.shape) == (2,) + tail(m), str(F.shape))
                    for u, v in zip(flat(F), flat(R[0][i])):
                        h.eq(f'{m}: values for one {ax}', u, v)
                F = ev(h, name, arr1, m, P)
                if not sq:
                    h.true(f'{m}: shape for an array of one {ax}', tuple(F.shape) == (1, 2) + tail(m), str(F.shape))
                for u, v in zip(flat(F), flat(R[0][0])):
                    h.eq(f'{m}: values for an array of one {ax}', u, v)
    case('C23', f'shapes_{name}' + (where and '_' + where), tier=tier, bounds='two points as a list, tuple, row, column or one by one; two frequencies or times together or one by '
         'one; every value of the settings (fixed direction)' + ZB[where])(b)


for _n in OBJ:
    shapes(_n)

for _c in ('Prism', 'MagneticPrism'):
    def _ps(h, cls=_c):
        C, meths, src = prism_kit(h, cls)
        P = h.arr([[h.real(f'p{i}{j}', 2, 5) for j in range(3)] for i in range(2)])
        o = C(**dict(corners(h, ''), **src('')))
        for m in meths:
            t = (3, 3) if m.endswith('gradient') else tail(m)
            R = getattr(o, m)(P)
            h.true(f'{m}: shape', tuple(R.shape) == (2,) + t, str(R.shape))
            for lab, Q, ps in (('one point', P[0], ()), ('a grid', P.reshape(1, 2, 3), (1, 2)), ('a column', P.reshape(2, 1, 3), (2, 1)),
                               ('a list', [[P[i, j] for j in range(3)] for i in range(2)], (2,)), ('a tuple', (P[:, 0], P[:, 1], P[:, 2]), (2,)),
                               ('a tuple of grids', tuple(P[:, j].reshape(1, 2) for j in range(3)), (1, 2))):
                F = getattr(o, m)(Q)
                h.true(f'{m}: shape for {lab}', tuple(getattr(F, 'shape', ())) == ps + t, str(getattr(F, 'shape', ())))
                for u, v in zip(flat(F), flat(R[0] if lab == 'one point' else R)):
                    h.eq(f'{m}: values for {lab}', u, v)
    case('C23', f'shapes_{_c}', native='potential_field_prism', bounds='two points in [2, 5]^3 in five layouts, prism corners in [-2, 0]^3')(_ps)


# ------------------------------------------------------------------ C23 memory layouts, element types, many points
def views(P):
    """the points of P (two rows) in other memory layouts: (label, array, index of the two points in the result)"""
    big = P[[0, 0, 1, 1]]
    out = [('column-major memory', P.T.copy().T, (0, 1)), ('every other row of a larger array', big[::2], (0, 1)), ('rows in reverse', P[::-1], (1, 0)),
           ('columns of a reversed array', P[:, ::-1].copy()[:, ::-1], (0, 1)), ('a transposed grid', P.reshape(2, 1, 1, 3).transpose(1, 0, 2, 3), (0, 1))]
    ro = P.copy()
    ro.setflags(write=False)
    out.append(('a read-only array', ro, (0, 1)))
    return out


def by_point(h, r, ax, npt, t):
    """values of result r as [point][frequency][component] (r may have been squeezed)"""
    v = flat(r)
    nc = 1
    for q in t:
        nc *= q
    nf = len(v) // (npt * nc)
    return [[v[(f * npt + i) * nc + c] for f in range(nf) for c in range(nc)] for i in range(npt)]


@zones
def memory(name, where, tier):
    def b(h):
        a = settings(h, name, '', where)
        P = pts(h, name, 2, where)
        o = make(h, name, a)
        for m in METH[name]:
            R = [by_point(h, r, 0, 2, tail(m)) for r in res(h, ev(h, name, o, m, P))]
            for lab, Q, ix in views(P):
                F = [by_point(h, r, 0, 2, tail(m)) for r in res(h, ev(h, name, o, m, Q))]
                h.true(f'{m}: as many parts for {lab}', len(F) == len(R))
                for f, r in zip(F, R):
                    for i in range(2):
                        h.true(f'{m}: size for {lab}', len(f[i]) == len(r[ix[i]]))
                        for u, v in zip(f[i], r[ix[i]]):
                            h.eq(f'{m}: values for {lab}', u, v)
    case('C23', f'memory_{name}' + (where and '_' + where), tier=tier, bounds='two points in six memory layouts (column-major, strided, reversed, transposed, read-only); every value of the settings (fixed direction)' + ZB[where])(b)


NMANY, NFREQ, NCROWD = 37, 6, 1030


@zones
def many(name, where, tier):
    def b(h):
        a = settings(h, name, '', where)
        P = pts(h, name, 2, where)
        ax = axis_of(name)
        if ax:
            v = a[ax]
            a = dict(a, **{ax: v[[i % 2 for i in range(NFREQ)]]})
        o = make(h, name, a)
        if ax:
            o1 = [make(h, name, dict(a, **{ax: v[i]})) for i in range(2)]
        ix = [(i * i + i // 3) % 2 for i in range(NMANY)]
        Q = P[ix]
        for m in METH[name]:
            R = res(h, ev(h, name, o, m, Q))
            for r in R:
                h.true(f'{m}: shape for many points', tuple(r.shape) == ((NFREQ,) if ax else ()) + (NMANY,) + tail(m), str(r.shape))
            S = [res(h, ev(h, name, o1[f] if ax else o, m, P)) for f in range(2 if ax else 1)]
            for k, r in enumerate(R):
                for i in range(NMANY):
                    for f in range(NFREQ if ax else 1):
                        for u, v in zip(flat(r[f, i] if ax else r[i]), flat(S[f % 2][k][ix[i]])):
                            h.eq(f'{m}: many points and one by one', u, v)
    case('C23', f'many_{name}' + (where and '_' + where), tier=tier, bounds=f'{NMANY} points and {NFREQ} frequencies or times, taking two arbitrary values each; every value of the settings (fixed direction)' + ZB[where])(b)


@zones
def crowd(name, where, tier):
    def b(h):
        a = settings(h, name, '', where)
        P = pts(h, name, 2, where)
        ax = axis_of(name)
        if ax:
            a = dict(a, **{ax: a[ax][0]})
        o = make(h, name, a)
        ix = [(i * i + i // 3) % 2 for i in range(NCROWD)]
        for m in METH[name]:
            R, S = res(h, ev(h, name, o, m, P[ix])), res(h, ev(h, name, o, m, P))
            for r, s in zip(R, S):
                h.true(f'{m}: shape for many points', tuple(r.shape) == (NCROWD,) + tail(m), str(r.shape))
                for i in range(NCROWD):
                    for u, v in zip(flat(r[i]), flat(s[ix[i]])):
                        h.eq(f'{m}: many points and one by one', u, v)
    case('C23', f'crowd_{name}' + (where and '_' + where), tier=tier, cost=3, bounds=f'{NCROWD} points taking two arbitrary values; every value of the settings (fixed direction)' + ZB[where])(b)


INTS = {'location': [1, 0, -1], 'location_a': [-2, 1, -1], 'location_b': [3, 0, -2], 'orientation': [0, 3, -4], 'primary_field': [1, -2, 3], 'nodes': [[-1, -1, -1], [1, -1, -1], [1, 2, -1]],
        'frequency': [3, 10], 'time': [1, 2]}


def integers(name):
    def b(h):
        a = settings(h, name, '', 'outside' if name in ZONES and name not in HALF else '')
        P = h.intarr([[4, 3, -5], [7, -2, -3]]) if name != 'fdem_dipole_half' else h.intarr([[4, 3, 0], [7, -2, 0]])
        o = make(h, name, a)
        ints = {k: (h.intarr(INTS[k]) if k != 'orientation' or 'plane' not in name else h.intarr([3, -4, 0])) if k in INTS else i + 2 for i, k in enumerate(a)}
        flts = {k: v + h.arr([0])[0] if hasattr(v, 'shape') else h.const(v) for k, v in ints.items()}
        oi, of = make(h, name, ints), make(h, name, flts)
        lst = make(h, name, {k: (v if not hasattr(v, 'shape') else [int(x) for x in INTS[k]] if k != 'nodes' and not ('plane' in name and k == 'orientation') else [3, -4, 0] if k == 'orientation' else INTS[k]) for k, v in ints.items()})
        V = pts(h, name, 2, 'outside' if name in ZONES and name not in HALF else '')
        for k in a:
            for u, v in zip(keyval(oi, k), keyval(of, k)):
                h.eq(f'{k} given as an integer reads back', u, v)
        for m in METH[name]:
            same(h, f'{m}: integer points', ev(h, name, o, m, P), ev(h, name, o, m, P + h.arr([0])[0]))
            if name != 'static_wire':
                same(h, f'{m}: integer settings', ev(h, name, oi, m, V), ev(h, name, of, m, V))
                same(h, f'{m}: lists of integers as settings', ev(h, name, lst, m, V), ev(h, name, of, m, V))
                same(h, f'{m}: integer settings and points', ev(h, name, oi, m, P), ev(h, name, of, m, P + h.arr([0])[0]))
    case('C23', f'integers_{name}', bounds='two points with integer coordinates and every value of the settings, and integer settings and every point, compared with the same numbers as floats')(b)


for _n in OBJ:
    memory(_n)
    many(_n)
    crowd(_n)
    integers(_n)


for _c in ('Prism', 'MagneticPrism'):
    def _pm(h, cls=_c):
        C, meths, src = prism_kit(h, cls)
        P = h.arr([[h.real(f'p{i}{j}', 2, 5) for j in range(3)] for i in range(2)])
        o = C(**dict(corners(h, ''), **src('')))
        ix = [(i * i + i // 3) % 2 for i in range(17)]
        IP = h.intarr([[3, 4, 2], [2, 5, 3]])
        kw = dict(min_location=h.intarr([-3, -2, -1]), max_location=h.intarr([0, 1, 1]))
        kf = {k: v + h.arr([0])[0] for k, v in kw.items()}
        oi, of = C(**dict(kw, **src(''))), C(**dict(kf, **src('')))
        for m in meths:
            t = (3, 3) if m.endswith('gradient') else tail(m)
            R = getattr(o, m)(P)
            M = getattr(o, m)(P[ix])
            h.true(f'{m}: shape for many points', tuple(M.shape) == (17,) + t, str(M.shape))
            for i in range(17):
                for u, v in zip(flat(M[i]), flat(R[ix[i]])):
                    h.eq(f'{m}: many points and one by one', u, v)
            by = by_point(h, R, 0, 2, t)
            for lab, Q, jx in views(P):
                F = by_point(h, getattr(o, m)(Q), 0, 2, t)
                for i in range(2):
                    for u, v in zip(F[i], by[jx[i]]):
                        h.eq(f'{m}: values for {lab}', u, v)
            same(h, f'{m}: integer points', getattr(o, m)(IP), getattr(o, m)(IP + h.arr([0])[0]))
            same(h, f'{m}: integer corners', getattr(oi, m)(P), getattr(of, m)(P))
            same(h, f'{m}: lists of integers', getattr(oi, m)([[3, 4, 2], [2, 5, 3]]), getattr(of, m)(IP + h.arr([0])[0]))
    case('C23', f'many_{_c}', native='potential_field_prism', bounds='17 points taking two values in [2, 5]^3, six memory layouts, integer points and corners; prism corners in [-2, 0]^3')(_pm)


@case('C23', 'many_layered', native='rTE', lazy_sqrt='s', bounds='two layers, three frequencies and five points taking two values each, memory layouts, integers; a digital filter of two points with arbitrary abscissae and weights')
def lay_many(h):
    filt(h)
    f = h.mod(FD)
    a = layered_settings(h, '')
    P = h.arr([[h.real(f'p{i}0'), h.real(f'p{i}1'), h.pos(f'p{i}2')] for i in range(2)])
    R = f.MagneticDipoleLayeredHalfSpace(**a).magnetic_field(P)
    fx, ix = [0, 1, 0], [1, 0, 0, 1, 0]
    M = f.MagneticDipoleLayeredHalfSpace(**dict(a, frequency=a['frequency'][fx])).magnetic_field(P[ix])
    h.true('shape', tuple(M.shape) == (3, 5, 3), str(M.shape))
    for i in range(3):
        for j in range(5):
            for u, v in zip(flat(M[i, j]), flat(R[fx[i], ix[j]])):
                h.eq('many frequencies and points, and two of each', u, v)
    by = by_point(h, R, 0, 2, (3,))
    for lab, Q, jx in views(P):
        if len(Q.shape) == 2:
            F = by_point(h, f.MagneticDipoleLayeredHalfSpace(**a).magnetic_field(Q), 0, 2, (3,))
            for i in range(2):
                for u, v in zip(F[i], by[jx[i]]):
                    h.eq(f'values for {lab}', u, v)
    IP = h.intarr([[3, 4, 2], [2, 5, 3]])
    o = f.MagneticDipoleLayeredHalfSpace(**a)
    same(h, 'integer points', o.magnetic_field(IP), o.magnetic_field(IP + h.arr([0])[0]))
    b = dict(a, location=h.intarr([1, 0, 2]), thickness=h.intarr([3]), sigma=h.intarr([1, 2]), frequency=h.intarr([1000, 30]))
    c = {k: v + h.arr([0])[0] if k in ('location', 'thickness', 'sigma', 'frequency') else v for k, v in b.items()}
    same(h, 'integer settings', f.MagneticDipoleLayeredHalfSpace(**b).magnetic_field(P), f.MagneticDipoleLayeredHalfSpace(**c).magnetic_field(P))


@case('C23', 'functions_layouts', bounds='19 points or vectors taking two values off the coordinate axes, six memory layouts, integers; loop functions of seven times taking two values')
def flay(h):
    sp = h.mod('geoana.spatial')
    X = h.arr([[h.pos(f'x{i}{j}') for j in range(3)] for i in range(2)])
    V = h.arr([[h.real(f'v{i}{j}') for j in range(3)] for i in range(2)])
    IX, IV = h.intarr([[3, 4, 1], [1, 2, 2]]), h.intarr([[1, -2, 3], [0, 5, 1]])
    ix = [(i * i + i // 3) % 2 for i in range(19)]
    z = h.arr([0])[0]
    for n in ('cylindrical_to_cartesian', 'cartesian_to_cylindrical', 'spherical_to_cartesian', 'cartesian_to_spherical'):
        f = getattr(sp, n)
        for lab, g in (('points', lambda x, v: f(x)), ('vectors', lambda x, v: f(x, v))):
            R, M = g(X, V), g(X[ix], V[ix])
            h.true(f'{n} of many {lab}: shape', tuple(M.shape) == (19, 3), str(M.shape))
            for i in range(19):
                for u, v in zip(flat(M[i]), flat(R[ix[i]])):
                    h.eq(f'{n} of many {lab}', u, v)
            for (l, QX, jx), (_, QV, _) in zip(views(X), views(V)):
                F = by_point(h, g(QX, QV), 0, 2, (3,))
                for i in range(2):
                    for u, v in zip(F[i], flat(R[jx[i]])):
                        h.eq(f'{n} of {lab}: {l}', u, v)
            same(h, f'{n} of {lab}: integers', g(IX, IV), g(IX + z, IV + z))
            same(h, f'{n} of {lab}: lists', g([[3, 4, 1], [1, 2, 2]], [[1, -2, 3], [0, 5, 1]]), g(IX + z, IV + z))
    n0, n1, o = h.arr([2, -1, 2]), h.arr([0, 3, 4]), h.arr([h.real(f'o{j}') for j in range(3)])
    for n, g in (('distance', lambda x: sp.distance(x, o)), ('vector_distance', lambda x: sp.vector_distance(x, o)), ('vector_dot', lambda x: sp.vector_dot(x, o)),
                 ('rotate_points_from_normals', lambda x: sp.rotate_points_from_normals(x, n0, n1, o)), ('vector_magnitude', lambda x: sp.vector_magnitude(x))):
        R, M = g(X), g(X[ix])
        for i in range(19):
            for u, v in zip(flat(M[i]), flat(R[ix[i]])):
                h.eq(f'{n} of many points', u, v)
        same(h, f'{n} of integers', g(IX), g(IX + z))
    same(h, 'rotation between integer directions', sp.rotation_matrix_from_normals(h.intarr([2, -1, 2]), h.intarr([0, 3, 4])), sp.rotation_matrix_from_normals(n0, n1))
    same(h, 'rotation between listed directions', sp.rotation_matrix_from_normals([2, -1, 2], [0, 3, 4]), sp.rotation_matrix_from_normals(n0, n1))
    t, s, r, mu = h.arr([h.pos('t0'), h.pos('t1')]), h.pos('s'), h.pos('r'), h.pos('mu')
    xy = h.arr([[h.pos(f'px{i}'), h.pos(f'py{i}')] for i in range(2)])
    F, T = h.mod('geoana.em.fdem.simple_functions'), h.mod('geoana.em.tdem.simple_functions')
    tx = [0, 1, 1, 0, 1, 0, 0]
    for m, n in ((F, 'vertical_magnetic_field_horizontal_loop'), (F, 'vertical_magnetic_flux_horizontal_loop'), (T, 'vertical_magnetic_field_horizontal_loop'),
                 (T, 'vertical_magnetic_flux_horizontal_loop'), (T, 'vertical_magnetic_field_time_deriv_horizontal_loop'), (T, 'vertical_magnetic_flux_time_deriv_horizontal_loop')):
        g = lambda q: getattr(m, n)(q, sigma=s, mu=mu, radius=r)      # noqa: E731
        R, M = g(t), g(t[tx])
        h.true(f'{n}: shape', tuple(M.shape) == (7,), str(M.shape))
        for i in range(7):
            h.eq(f'{n} of many', M[i], R[tx[i]])
        same(h, f'{n} of integers', g(h.intarr([3, 5])), g(h.arr([3, 5])))
    for n in ('magnetic_field_vertical_magnetic_dipole', 'magnetic_field_time_deriv_magnetic_dipole', 'magnetic_flux_vertical_magnetic_dipole', 'magnetic_flux_time_deriv_magnetic_dipole'):
        g = lambda q, x: getattr(T, n)(q, x, sigma=s, mu=mu)      # noqa: E731
        R, M = g(t, xy), g(t[tx], xy[[1, 0, 0, 1, 1]])
        h.true(f'{n}: shape', tuple(M.shape) == (7, 5, 3), str(M.shape))
        for i in range(7):
            for j, jj in enumerate([1, 0, 0, 1, 1]):
                for u, v in zip(flat(M[i, j]), flat(R[tx[i], jj])):
                    h.eq(f'{n} of many', u, v)
        same(h, f'{n} of integers', g(h.intarr([3, 5]), h.intarr([[1, 2], [2, 3]])), g(h.arr([3, 5]), h.arr([[1, 2], [2, 3]])))


@case('C23', 'shapes_layered', native='rTE', lazy_sqrt='s', bounds='two layers, two frequencies, two points in three layouts, a digital filter of two points with arbitrary abscissae and weights')
def lay_sh(h):
    filt(h)
    f = h.mod(FD)
    a = layered_settings(h, '')
    P = h.arr([[h.real(f'p{i}0'), h.real(f'p{i}1'), h.pos(f'p{i}2')] for i in range(2)])
    o = f.MagneticDipoleLayeredHalfSpace(**a)
    R = o.magnetic_field(P)
    h.true('shape', tuple(R.shape) == (2, 2, 3), str(R.shape))
    for i in range(2):
        F = o.magnetic_field(P[i:i + 1])
        for u, v in zip(flat(F), flat(R[:, i])):
            h.eq('points one by one', u, v)
        q = f.MagneticDipoleLayeredHalfSpace(**dict(a, frequency=a['frequency'][i]))
        for u, v in zip(flat(q.magnetic_field(P)), flat(R[i])):
            h.eq('frequencies one by one', u, v)


@case('C23', 'functions_spatial', bounds='two points or vectors, in four layouts, every value off the coordinate axes')
def fsp23(h):
    sp = h.mod('geoana.spatial')
    X = h.arr([[h.pos(f'x{i}{j}') for j in range(3)] for i in range(2)])
    V = h.arr([[h.real(f'v{i}{j}') for j in range(3)] for i in range(2)])
    o = h.arr([h.real(f'o{j}') for j in range(3)])
    fs = [(n, lambda x, v, n=n: getattr(sp, n)(x)) for n in ('cylindrical_to_cartesian', 'cartesian_to_cylindrical', 'spherical_to_cartesian', 'cartesian_to_spherical')]
    fs += [(n + ' of vectors', lambda x, v, n=n: getattr(sp, n)(x, v)) for n in ('cylindrical_to_cartesian', 'cartesian_to_cylindrical', 'spherical_to_cartesian', 'cartesian_to_spherical')]
    for name, f in fs:
        R = f(X, V)
        h.true(f'{name}: shape', tuple(R.shape) == (2, 3), str(R.shape))
        for i in range(2):
            F = f(X[i], V[i])
            h.true(f'{name}: shape of one', tuple(F.shape) == (3,), str(F.shape))
            for u, v in zip(flat(F), flat(R[i])):
                h.eq(f'{name}: one by one', u, v)
        for shp in ((1, 2, 3), (2, 1, 3)):
            F = f(X.reshape(shp), V.reshape(shp))
            h.true(f'{name}: shape of a grid', tuple(F.shape) == shp, str(F.shape))
            for u, v in zip(flat(F), flat(R)):
                h.eq(f'{name}: grid', u, v)
    for name in ('vector_distance', 'distance', 'vector_dot'):
        f = getattr(sp, name)
        R = f(X, o)
        h.true(f'{name}: number of results', int(R.shape[0]) == 2, str(R.shape))
        for i in range(2):
            for u, v in zip(flat(f(X[i:i + 1], o)), flat(R[i])):
                h.eq(f'{name}: one by one', u, v)
    n0, n1 = h.arr([2, -1, 2]), h.arr([0, 3, 4])
    R = sp.rotate_points_from_normals(X, n0, n1, o)
    h.true('rotation: shape', tuple(R.shape) == (2, 3), str(R.shape))
    for i in range(2):
        for u, v in zip(flat(sp.rotate_points_from_normals(X[i:i + 1], n0, n1, o)), flat(R[i])):
            h.eq('rotation: one by one', u, v)


@case('C23', 'functions_utils', bounds='up to 2 x 3 x 2 entries, every value')
def fut(h):
    u = h.mod('geoana.utils')
    x, y, z = [h.arr([h.real(f'{n}{i}') for i in range(k)]) for n, k in (('x', 2), ('y', 3), ('z', 2))]
    G = u.ndgrid(x, y, z)
    h.true('grid shape', tuple(G.shape) == (12, 3), str(G.shape))
    for i in range(2):
        for j in range(3):
            for k in range(2):
                r = i + 2 * j + 6 * k
                for c, w in enumerate((x[i], y[j], z[k])):
                    h.eq('three-dimensional grid, first axis fastest', G[r, c], w)
    for u_, w in zip(flat(u.ndgrid([x, y, z])), flat(G)):
        h.eq('list of axes', u_, w)
    A = u.ndgrid(x, y, z, vector=False)
    for i in range(2):
        for j in range(3):
            for k in range(2):
                for c, w in enumerate((x[i], y[j], z[k])):
                    h.true('grid arrays', tuple(A[c].shape) == (2, 3, 2), str(A[c].shape))
                    h.eq('three-dimensional grid arrays', A[c][i, j, k], w)
    G = u.ndgrid(x, y)
    h.true('grid shape', tuple(G.shape) == (6, 2), str(G.shape))
    for i in range(2):
        for j in range(3):
            h.eq('two-dimensional grid', G[i + 2 * j, 0], x[i])
            h.eq('two-dimensional grid', G[i + 2 * j, 1], y[j])
    A = u.ndgrid(x, y, vector=False)
    for i in range(2):
        for j in range(3):
            h.eq('two-dimensional grid arrays', A[0][i, j], x[i])
            h.eq('two-dimensional grid arrays', A[1][i, j], y[j])
    for a, b in zip(flat(u.ndgrid(x)), flat(x)):
        h.eq('one axis', a, b)
    M = h.arr([[h.real(f'm{i}{j}') for j in range(3)] for i in range(2)])
    for nd in (1, 2, 3):
        v = u.mkvc(M, nd)
        h.true('vector shape', tuple(v.shape) == (6,) + (1,) * (nd - 1), str(v.shape))
        for i in range(2):
            for j in range(3):
                h.eq('vector, first axis fastest', v.reshape(-1)[i + 2 * j], M[i, j])
    for nd in (0, 1, 2):
        v = u.append_ndim(M, nd)
        h.true('appended shape', tuple(v.shape) == (2, 3) + (1,) * nd, str(v.shape))
        for a, b in zip(flat(v), flat(M)):
            h.eq('appended axes', a, b)
    t = u.check_xyz_dim((x, z), dim=2)
    h.true('tuple of coordinates', tuple(t.shape) == (2, 2))
    for i in range(2):
        h.eq('tuple of coordinates', t[i, 0], x[i])
        h.eq('tuple of coordinates', t[i, 1], z[i])
    h.raises('wrong dimension', ValueError, u.check_xyz_dim, M, 2)
    for a, b in zip(flat(u.check_xyz_dim([[M[i, j] for j in range(3)] for i in range(2)])), flat(M)):
        h.eq('list of points', a, b)


@case('C23', 'functions_loops', bounds='two frequencies or times, two offsets, one by one and together')
def flp23(h):
    t, s, r, I = h.arr([h.pos('t0'), h.pos('t1')]), h.pos('s'), h.pos('r'), h.real('I')
    mu = h.pos('mu')
    xy = h.arr([[h.pos(f'x{i}'), h.pos(f'y{i}')] for i in range(2)])
    F, T = h.mod('geoana.em.fdem.simple_functions'), h.mod('geoana.em.tdem.simple_functions')
    for m, n in ((F, 'vertical_magnetic_field_horizontal_loop'), (F, 'vertical_magnetic_flux_horizontal_loop'), (T, 'vertical_magnetic_field_horizontal_loop'),
                 (T, 'vertical_magnetic_flux_horizontal_loop'), (T, 'vertical_magnetic_field_time_deriv_horizontal_loop'), (T, 'vertical_magnetic_flux_time_deriv_horizontal_loop')):
        f = lambda x: getattr(m, n)(x, sigma=s, mu=mu, radius=r, current=I)
        R = f(t)
        h.true(f'{n}: shape', tuple(R.shape) == (2,), str(R.shape))
        for i in range(2):
            h.eq(f'{n}: one by one', f(t[i]), R[i])
    for n in ('magnetic_field_vertical_magnetic_dipole', 'magnetic_field_time_deriv_magnetic_dipole', 'magnetic_flux_vertical_magnetic_dipole', 'magnetic_flux_time_deriv_magnetic_dipole'):
        f = lambda x, p: getattr(T, n)(x, p, sigma=s, mu=mu, moment=I)
        R = f(t, xy)
        h.true(f'{n}: shape', tuple(R.shape) == (2, 2, 3), str(R.shape))
        for i in range(2):
            for k in range(2):
                for u, v in zip(flat(f(t[i], xy[k])), flat(R[i, k])):
                    h.eq(f'{n}: one by one', u, v)


@case('C23', 'functions_prism', native='potential_field_prism', bounds='nodes in [1, 5]^3: two by three of them (for the compiled version by broadcasting) against one by one')
def fpr23(h):
    X, Y, Z = h.arr([h.real(f'x{j}', 1, 5) for j in range(2)]), h.arr([h.real(f'y{j}', 1, 5) for j in range(3)]), h.real('z', 1, 5)
    for mod, pre in (('geoana.kernels._extensions.potential_field_prism', ''), ('geoana.kernels.potential_field_prism', '_')):
        m = h.mod(mod)
        for k in ('f', 'fz', 'fzz', 'fzx', 'fzy', 'fzzz', 'fxxy', 'fxxz', 'fxyz'):
            f = getattr(m, f'{pre}prism_{k}')
            g = [X[:, None], Y[None, :], Z]
            if pre:
                g = [v + 0 for v in h.np.broadcast_arrays(*g[:2])] + [Z + 0 * X[:, None] * Y[None, :]]
            R = f(*g)
            h.true(f'prism_{k}: shape', tuple(R.shape) == (2, 3), str(R.shape))
            for i in range(2):
                for j in range(3):
                    h.eq(f'prism_{k}: one by one', f(*[h.arr([v]) for v in (X[i], Y[j], Z)])[0], R[i, j])


# ------------------------------------------------------------------ C24 scaling and translation
def shifted(h, name, a, c):
    out = dict(a)
    for k in ('location', 'location_a', 'location_b', 'nodes'):
        if k in out:
            out[k] = out[k] + h.arr(c)
    return out


def shift_of(h, name):
    c = [h.real(f'c{i}', -10, 10) for i in range(3)]
    if name in HALF:
        c[2] = 0
    return c


@zones
def scaling(name, where, tier):
    def b(h):
        a = settings(h, name, '', where)
        P = pts(h, name, 1, where)
        o = make(h, name, a)
        k = h.real('k', '1/4', 4)
        for sgn in (1, -1):
            for key in OBJ[name][3]:
                if sgn < 0 and key == 'length':
                    continue
                q = make(h, name, dict(a, **{key: a[key] * k * sgn}))
                for m in METH[name]:
                    for u, v in zip(flat(res(h, ev(h, name, o, m, P))), flat(res(h, ev(h, name, q, m, P)))):
                        h.eq(f'{m} is proportional to {key}', v, k * u * sgn)
        if 'location' in a or 'nodes' in a or 'location_a' in a:
            c = shift_of(h, name)
            q = make(h, name, shifted(h, name, a, c))
            Q = P + h.arr(c)
            for m in METH[name]:
                for u, v in zip(flat(res(h, ev(h, name, o, m, P))), flat(res(h, ev(h, name, q, m, Q)))):
                    h.eq(f'{m} moves with the source', u, v, rtol=1e-4)
        if 'primary_field' in a:
            e = vec3(h, 'other', '')
            q, w = make(h, name, dict(a, primary_field=e)), make(h, name, dict(a, primary_field=a['primary_field'] + e))
            for m in METH[name]:
                for x, y, z in zip(*[flat(res(h, ev(h, name, t, m, P))) for t in (o, q, w)]):
                    h.eq(f'{m}: primary fields superpose', x + y, z, scale=(x, y))
        if 'orientation' in a and name != 'static_loop':
            # the field of an oblique source is the combination of the fields along the axes
            n = {'static_magnetic_dipole': 1}.get(name, 1)
            hor = OBJ[name][2]['orientation'] is dirh
            w = [h.const(3) / 5, -h.const(4) / 5] if hor else [h.const(2) / 3, -h.const(1) / 3, h.const(2) / 3]
            parts = [make(h, name, dict(a, orientation=x)) for x in ('X', 'Y', 'Z')[:len(w)]]
            if name == 'static_magnetic_pole':
                return
            for m in METH[name]:
                R = [flat(res(h, ev(h, name, q, m, P))) for q in parts]
                for i, u in enumerate(flat(res(h, ev(h, name, o, m, P)))):
                    h.eq(f'{m}: orientations superpose', u, sum(w[j] * R[j][i] for j in range(len(w))), scale=[R[j][i] for j in range(len(w))])
    case('C24', f'source_{name}' + (where and '_' + where), tier=tier, bounds='one point, two frequencies or times; every value of the settings (fixed direction); scale factor of either '
         'sign with magnitude in [1/4, 4], shift in [-10, 10]^3' + ZB[where])(b)


for _n in OBJ:
    scaling(_n)

for _c in ('Prism', 'MagneticPrism'):
    def _pc(h, cls=_c):
        C, meths, src = prism_kit(h, cls)
        P = h.arr([h.real(f'p{j}', 2, 5) for j in range(3)])
        a, s0, s1 = corners(h, ''), src(''), src('n_')
        key = list(s0)[0]
        k = h.real('k', -4, 4)
        c = h.arr([h.real(f'c{i}', -10, 10) for i in range(3)])
        o, q, w = C(**a, **s0), C(**a, **s1), C(**a, **{key: k * s0[key] + s1[key]})
        t = C(min_location=a['min_location'] + c, max_location=a['max_location'] + c, **s0)
        for m in meths:
            x, y, z, v = [flat(getattr(b, m)(Q)) for b, Q in ((o, P), (q, P), (w, P), (t, P + c))]
            for i in range(len(x)):
                h.eq(f'{m} is linear in {key}', k * x[i] + y[i], z[i], scale=(k * x[i], y[i]))
                h.eq(f'{m} moves with the prism', v[i], x[i], rtol=1e-4, scale=(1e-12,))
    case('C24', f'source_{_c}', native='potential_field_prism', by_parts=True, bounds='one point in [2, 5]^3, prism corners in [-2, 0]^3, factor in [-4, 4], shift in [-10, 10]^3')(_pc)


@case('C24', 'source_layered', native='rTE', lazy_sqrt='s', by_parts=True, bounds='two layers, two frequencies, one point, a digital filter of two points with arbitrary abscissae and weights; horizontal shift')
def lay_src(h):
    filt(h)
    f = h.mod(FD)
    a = layered_settings(h, '')
    P = h.arr([[h.real('p0'), h.real('p1'), h.pos('p2')]])
    c = h.arr([h.real('c0'), h.real('c1'), 0])
    k = h.real('k')
    o = f.MagneticDipoleLayeredHalfSpace
    x, y = flat(o(**a).magnetic_field(P)), flat(o(**dict(a, moment=k * a['moment'])).magnetic_field(P))
    z = flat(o(**dict(a, location=a['location'] + c)).magnetic_field(P + c))
    parts = [flat(o(**dict(a, orientation=w)).magnetic_field(P)) for w in 'XYZ']
    w = [h.const(2) / 3, -h.const(1) / 3, h.const(2) / 3]
    for i in range(len(x)):
        h.eq('proportional to the moment', y[i], k * x[i])
        h.eq('moves with the source', z[i], x[i], rtol=1e-4)
        h.eq('orientations superpose', x[i], sum(w[j] * parts[j][i] for j in range(3)), scale=[parts[j][i] for j in range(3)])


@case('C23', 'electrode_pairs', by_parts=True, bounds='electrode pairs A, B and M, N anywhere under ground: two pairs as arrays, lists, tuples of coordinates, a grid, one by one, and one N for two M')
def pairs(h):
    a = settings(h, 'static_dipole_half', '')
    o = make(h, 'static_dipole_half', a)
    M, N = [h.arr([[h.real(f'{n}{i}0'), h.real(f'{n}{i}1'), -h.pos(f'{n}{i}2')] for i in range(2)]) for n in 'mn']
    lst = lambda P: [[P[i, j] for j in range(3)] for i in range(2)]     # noqa: E731
    tup = lambda P: (P[:, 0], P[:, 1], P[:, 2])     # noqa: E731
    for m in METH['static_dipole_half']:
        f = getattr(o, m)
        R = f(M, N)
        x, y = f(M), f(N)
        h.true(f'{m}: shape', tuple(R.shape) == (2,) + tail(m), str(R.shape))
        for u, v, w in zip(flat(R), flat(x), flat(y)):
            h.eq(f'{m}: difference between the electrodes', u, v - w, scale=(v, w))
        for lab, F in (('lists', f(lst(M), lst(N))), ('tuples', f(tup(M), tup(N))), ('array and list', f(M, lst(N))), ('grid', f(M.reshape(1, 2, 3), N.reshape(1, 2, 3)))):
            h.true(f'{m}: shape for {lab}', tuple(F.shape) == ((1, 2) if lab == 'grid' else (2,)) + tail(m), str(F.shape))
            for u, v in zip(flat(F), flat(R)):
                h.eq(f'{m}: {lab}', u, v)
        for i in range(2):
            for u, v in zip(flat(f(M[i], N[i])), flat(R[i])):
                h.eq(f'{m}: one by one', u, v)
        F = f(M, N[0])
        for i in range(2):
            for u, v in zip(flat(F[i]), flat(f(M[i], N[0]))):
                h.eq(f'{m}: one electrode N for all', u, v)
