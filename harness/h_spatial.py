"""C01 coordinate transforms, C02 rotations, C03 grids and helpers."""
from engine.case import case

B1 = 'every real coordinate/vector component; point arrays of shape (3,), (2,3) and (1,2,3)'


# ---------------------------------------------------------------- C01
def geom_cyl(h, two=False):
    s = h.mod('geoana.spatial')
    n = 2 if two else 3
    g = h.arr([h.pos('r'), h.real('p'), h.real('z')][:n])
    h.assume('ne', h.fn('sin', h.real('p')), 0)
    v = h.vec('v', n)
    h.put('x', s.cylindrical_to_cartesian(g))
    h.put('w', s.cylindrical_to_cartesian(g, v))
    h.put('vb', s.cartesian_to_cylindrical(h.q('x'), h.q('w')))
    h.put('gb', s.cartesian_to_cylindrical(h.q('x')))
    h.put('xb', s.cylindrical_to_cartesian(h.q('gb')))


def cyl_laws(h, n=3):
    r, v = h.pos('r'), h.vec('v', n)
    w = h.q('w')
    h.true('shape', h.q('x').shape == (n,) and w.shape == (n,))
    for i in range(n):
        e = v[0] * h.d('x', 'r')[i] + v[1] * h.d('x', 'p')[i] / r
        if n == 3:
            e = e + v[2] * h.d('x', 'z')[i]
        h.eq('vector components are along the coordinate directions', w[i], e)
    h.eq('vector round trip', h.q('vb'), v)
    h.eq('point round trip', h.q('xb'), h.q('x'))
    h.eq('radius recovered', h.q('gb')[0], r)
    h.eq('angle recovered (cos)', h.fn('cos', h.q('gb')[1]), h.fn('cos', h.real('p')))
    h.eq('angle recovered (sin)', h.fn('sin', h.q('gb')[1]), h.fn('sin', h.real('p')))
    h.eq('length preserved', sum(w[i] * w[i] for i in range(n)), sum(v[i] * v[i] for i in range(n)))
    if n == 3:
        h.eq('height kept', h.q('gb')[2], h.real('z'))


@case('C01', 'cylindrical', laws=cyl_laws, bounds=B1 + '; radius > 0, any angle that is not a multiple of pi (those are covered by the cartesian round trips)')
def cyl(h):
    geom_cyl(h)


@case('C01', 'polar_2d', laws=lambda h: cyl_laws(h, 2), bounds=B1 + '; radius > 0, any angle; two-column grids')
def cyl2(h):
    geom_cyl(h, True)


@case('C01', 'spherical_directions', bounds=B1 + '; radius > 0, azimuth any, polar angle not a multiple of pi')
def sph(h):
    s = h.mod('geoana.spatial')
    t = h.real('t')
    h.assume('ne', h.fn('sin', t), 0)
    g = h.arr([h.pos('r'), h.real('p'), t])
    h.put('x', s.spherical_to_cartesian(g))
    h.put('w', s.spherical_to_cartesian(g, h.vec('v')))


def sph_laws(h):
    r, v, t = h.pos('r'), h.vec('v'), h.real('t')
    w = h.q('w')
    for i in range(3):
        h.eq('vector components are along the coordinate directions', w[i] * h.fn('sin', t),
             v[0] * h.d('x', 'r')[i] * h.fn('sin', t) + v[1] * h.d('x', 'p')[i] / r + v[2] * h.d('x', 't')[i] * h.fn('sin', t) / r)
    h.eq('length preserved', w[0] ** 2 + w[1] ** 2 + w[2] ** 2, v[0] ** 2 + v[1] ** 2 + v[2] ** 2)


from engine.case import CASES   # noqa: E402
CASES['C01/spherical_directions'].laws = sph_laws


@case('C01', 'spherical_back', bounds=B1 + '; radius > 0, azimuth not a multiple of pi, polar angle in (0, pi)')
def sph2(h):
    s = h.mod('geoana.spatial')
    t = h.fn('atan2', h.pos('a'), h.real('b'))
    h.store['t'] = t
    h.assume('ne', h.fn('sin', h.real('p')), 0)
    g = h.arr([h.pos('r'), h.real('p'), t])
    v = h.vec('v')
    h.put('x', s.spherical_to_cartesian(g))
    h.put('w', s.spherical_to_cartesian(g, v))
    h.put('vb', s.cartesian_to_spherical(h.q('x'), h.q('w')))
    h.put('gb', s.cartesian_to_spherical(h.q('x')))
    h.put('xb', s.spherical_to_cartesian(h.q('gb')))


def sph2_laws(h):
    r, v, t, p = h.pos('r'), h.vec('v'), h.q('t'), h.real('p')
    gb = h.q('gb')
    h.eq('vector round trip', h.q('vb'), v)
    h.eq('point round trip', h.q('xb'), h.q('x'))
    h.eq('radius recovered', gb[0], r)
    for nm in ('cos', 'sin'):
        h.eq(f'azimuth recovered ({nm})', h.fn(nm, gb[1]), h.fn(nm, p))
        h.eq(f'polar angle recovered ({nm})', h.fn(nm, gb[2]), h.fn(nm, t))


CASES['C01/spherical_back'].laws = sph2_laws


def rt_laws(h):
    X = h.q('X')
    h.eq('point round trip', h.q('back'), X)
    h.eq('vector round trip', h.q('vback'), h.q('V'))
    for k in range(h.q('n')):
        v, w = h.q('V').reshape(-1, X.shape[-1])[k], h.q('W').reshape(-1, X.shape[-1])[k]
        h.eq('length preserved', sum(a * a for a in v), sum(a * a for a in w))
    h.eq('aliases agree', h.q('al'), h.q('C'))
    h.eq('aliases agree (vector)', h.q('alv'), h.q('W'))
    h.eq('aliases agree (back)', h.q('alb'), h.q('back'))
    for k in range(h.q('n')):
        c, x = h.q('C').reshape(-1, X.shape[-1])[k], X.reshape(-1, X.shape[-1])[k]
        nn = h.q('nn')
        h.eq('radius is the length', c[0] * c[0], sum(x[i] * x[i] for i in range(nn)))
        h.le('radius is not negative', 0, c[0])
    h.true('shapes kept', h.q('C').shape == X.shape and h.q('W').shape == X.shape and h.q('back').shape == X.shape)
    h.finite('finite everywhere', [h.q('C'), h.q('W')])


def roundtrip(kind, shape, nn):
    def body(h):
        s = h.mod('geoana.spatial')
        m = 1
        for k in shape:
            m *= k
        X = h.arr(h.vec('x', m)).reshape(*shape)
        V = h.arr(h.vec('v', m)).reshape(*shape)
        to, fr = getattr(s, f'cartesian_to_{kind}'), getattr(s, f'{kind}_to_cartesian')
        to2, fr2 = getattr(s, f'cartesian_2_{kind}'), getattr(s, f'{kind}_2_cartesian')
        h.store['n'] = m // shape[-1]
        h.store['nn'] = nn
        h.put('X', X)
        h.put('V', V)
        h.put('C', to(X))
        h.put('back', fr(h.q('C')))
        h.put('W', to(X, V))
        h.put('vback', fr(h.q('C'), h.q('W')))
        h.put('al', to2(X))
        h.put('alv', to2(X, V))
        h.put('alb', fr2(h.q('C')))
    return body


for kind, shape, nn, tier in [('cylindrical', (3,), 2, 'quick'), ('cylindrical', (2,), 2, 'quick'), ('cylindrical', (2, 3), 2, 'quick'),
                              ('cylindrical', (2, 2, 3), 2, 'quick'), ('spherical', (3,), 3, 'quick'),
                              ('spherical', (2, 3), 3, 'quick'), ('spherical', (2, 1, 3), 3, 'quick')]:
    case('C01', f'roundtrip_{kind}_' + 'x'.join(map(str, shape)), laws=rt_laws, tier=tier,
         bounds=B1 + f'; point array shape {shape}, every cartesian point including the axis and the origin')(roundtrip(kind, shape, nn))


# ---------------------------------------------------------------- C02
def rot_laws(h):
    M, n0, n1 = h.q('M'), h.q('n0'), h.q('n1')
    a, b = h.norm(n0), h.norm(n1)
    for i in range(3):
        h.eq('first direction is mapped onto the second', (M[i, 0] * n0[0] + M[i, 1] * n0[1] + M[i, 2] * n0[2]) * b, n1[i] * a)
        for j in range(i + 1):
            h.eq('orthogonal', M[i, 0] * M[j, 0] + M[i, 1] * M[j, 1] + M[i, 2] * M[j, 2], 1 if i == j else 0, scale=(1.0,))
    det = (M[0, 0] * (M[1, 1] * M[2, 2] - M[1, 2] * M[2, 1]) - M[0, 1] * (M[1, 0] * M[2, 2] - M[1, 2] * M[2, 0])
           + M[0, 2] * (M[1, 0] * M[2, 1] - M[1, 1] * M[2, 0]))
    h.eq('proper (determinant 1)', det, 1)
    h.eq('rotation object agrees with the matrix', h.q('O'), M)


def rot_body(h, n0, n1):
    s = h.mod('geoana.spatial')
    h.put('n0', n0)
    h.put('n1', n1)
    h.put('M', s.rotation_matrix_from_normals(n0, n1))
    h.put('O', s.rotation_matrix_from_normals(n0, n1, as_matrix=False).as_matrix())


UNITS = {'z': (0, 0, 1), 'x': (1, 0, 0), 'y': (0, 1, 0), 'mz': (0, 0, -1), 'q': (2, -1, 2), 'w': (3, 0, -4)}
for nm in UNITS:
    def body(h, nm=nm):
        v = h.vec('v')
        u = h.arr(list(UNITS[nm]))
        c = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        vv, uu = v[0] * v[0] + v[1] * v[1] + v[2] * v[2], sum(k * k for k in UNITS[nm])
        h.assume('gt', vv, 0)
        h.assume('gt', (c[0] * c[0] + c[1] * c[1] + c[2] * c[2]) * 10 ** 12, vv * uu)
        rot_body(h, u, v)
    case('C02', f'from_{nm}', laws=rot_laws, tier='quick' if nm in ('z', 'x', 'q', 'mz') else 'thorough',
         bounds=f'from direction {UNITS[nm]} to every other direction of any length; '
                'angle to (anti)parallel more than 1e-6 (the (anti)parallel directions have their own cases)')(body)


@case('C02', 'parallel', laws=rot_laws, bounds='every direction, any positive multiple of it')
def rot_par(h):
    v, k = h.vec('v'), h.pos('k')
    h.assume('gt', v[0] * v[0] + v[1] * v[1] + v[2] * v[2], 0)
    rot_body(h, v, v * k)


@case('C02', 'antiparallel', laws=rot_laws, bounds='every direction, any negative multiple of it')
def rot_anti(h):
    v, k = h.vec('v'), h.pos('k')
    h.assume('gt', v[0] * v[0] + v[1] * v[1] + v[2] * v[2], 0)
    rot_body(h, v, -v * k)


def small_turn_laws(h):
    M, n1, a, b, s = h.q('M'), h.q('n1'), h.q('a'), h.q('b'), h.q('s')
    n = h.norm(n1)
    big = 10 ** h.q('k')
    t = h.norm(h.arr([a, b]))
    h.eq('small turn is carried out', M[1, 0] * n * big, a, scale=(t,))
    h.eq('small turn is carried out', M[2, 0] * n * big, b, scale=(t,))
    h.eq('small turn keeps the sense', M[0, 0] * n, s)


for nm, sgn, k in (('parallel', 1, 8), ('antiparallel', -1, 4)):
    def body(h, sgn=sgn, k=k):
        a, b = h.real('a', -3, 3), h.real('b', -3, 3)
        h.assume('gt', (a * a + b * b) * 100, 1)
        u, v = h.arr([1, 0, 0]), h.arr([sgn, a / 10 ** k, b / 10 ** k])
        h.put('a', a)
        h.put('b', b)
        h.put('s', sgn)
        h.put('k', k)
        rot_body(h, u, v)
    case('C02', f'nearly_{nm}', laws=small_turn_laws,
         bounds=f'from the x direction to every direction between 1e-{k + 1} and 4e-{k} away from {nm}')(body)


def points_laws(h):
    P, Q, R, c, n0 = h.q('P'), h.q('Q'), h.q('R'), h.q('c'), h.q('n0')
    d2 = lambda a, b: sum((a[i] - b[i]) ** 2 for i in range(3))
    h.eq('distances are kept', d2(Q[0], Q[1]), d2(P[0], P[1]))
    h.eq('distance to the centre is kept', d2(Q[0], c), d2(P[0], c))
    h.eq('centre is fixed', h.q('C'), c)
    n1 = h.q('n1')
    a, b = h.norm(n0), h.norm(n1)
    for i in range(3):
        h.eq('first normal carried to the second', (h.q('N')[i] - c[i]) * b, n1[i] * a)
    h.eq('default centre is the origin', h.q('D'), h.q('R0'))


@case('C02', 'rotate_points', laws=points_laws, bounds='two points, any centre; from direction (2,-1,2) to every other direction not within 1e-6 of (anti)parallel',
      cost=3)
def rot_pts(h):
    s = h.mod('geoana.spatial')
    v, c = h.vec('v'), h.vec('c')
    u = h.arr([2, -1, 2])
    cr = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    vv = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
    h.assume('gt', vv, 0)
    h.assume('gt', (cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2]) * 10 ** 12, vv * 9)
    P = h.arr(h.vec('p', 6)).reshape(2, 3)
    h.put('P', P)
    h.put('c', c)
    h.put('n0', u)
    h.put('n1', v)
    h.put('Q', s.rotate_points_from_normals(P, u, v, c))
    h.put('C', s.rotate_points_from_normals(c.reshape(1, 3), u, v, c)[0])
    h.put('N', s.rotate_points_from_normals((c + u).reshape(1, 3), u, v, c)[0])
    h.put('D', s.rotate_points_from_normals(P, u, v))
    h.put('R', s.rotation_matrix_from_normals(u, v))
    M = h.q('R')
    h.put('R0', h.arr([[sum(M[i, j] * P[k, j] for j in range(3)) for i in range(3)] for k in range(2)]))


# ---------------------------------------------------------------- C03
def grid_laws(h):
    a, b, c = h.vec('a', 3), h.vec('b', 2), h.vec('c', 2)
    G3, G2 = h.q('G3'), h.q('G2')
    h.true('shape', G3.shape == (12, 3) and G2.shape == (6, 2))
    for i in range(3):
        for j in range(2):
            h.eq('two axes: first varies fastest', G2[i + 3 * j], h.arr([a[i], b[j]]))
            h.eq('two axes, array form', h.q('M2a')[i, j], a[i])
            h.eq('two axes, array form', h.q('M2b')[i, j], b[j])
            for k in range(2):
                n = i + 3 * j + 6 * k
                h.eq('three axes: first varies fastest', G3[n], h.arr([a[i], b[j], c[k]]))
                for q, t in (('M3a', a[i]), ('M3b', b[j]), ('M3c', c[k])):
                    h.eq('three axes, array form', h.q(q)[i, j, k], t)
                h.eq('column-major flattening', h.q('F')[n], h.q('M3a')[i, j, k] + h.q('M3c')[i, j, k])
    h.eq('one axis', h.q('G1'), a)
    h.eq('list form', h.q('L3'), G3)
    h.true('vector shapes', h.q('F').shape == (12,) and h.q('F2').shape == (12, 1) and h.q('F3').shape == (12, 1, 1))
    h.eq('vector forms agree', h.q('F2')[:, 0], h.q('F'))
    h.eq('vector forms agree', h.q('F3')[:, 0, 0], h.q('F'))


@case('C03', 'ndgrid_mkvc', laws=grid_laws, bounds='axis lengths 3, 2, 2; every real coordinate')
def grids(h):
    u = h.mod('geoana.utils')
    a, b, c = h.vec('a', 3), h.vec('b', 2), h.vec('c', 2)
    h.put('G3', u.ndgrid(a, b, c))
    h.put('L3', u.ndgrid([a, b, c]))
    h.put('G2', u.ndgrid(a, b))
    h.put('G1', u.ndgrid(a))
    m = u.ndgrid(a, b, c, vector=False)
    for n, x in zip('abc', m):
        h.put('M3' + n, x)
    m = u.ndgrid(a, b, vector=False)
    for n, x in zip('ab', m):
        h.put('M2' + n, x)
    x = h.q('M3a') + h.q('M3c')
    h.put('F', u.mkvc(x))
    h.put('F2', u.mkvc(x, 2))
    h.put('F3', u.mkvc(x, 3))


def helper_laws(h):
    P, o, v, s = h.arr(h.vec('p', 6)).reshape(2, 3), h.vec('o'), h.vec('v'), h.vec('s', 2)
    for k in range(2):
        for i in range(3):
            h.eq('displacement', h.q('vd')[k, i], P[k, i] - o[i])
            h.eq('displacement from the default origin', h.q('vd0')[k, i], P[k, i])
            h.eq('repeated scalar', h.q('rep')[k, i], s[k])
        h.eq('distance squared', h.q('dist')[k] ** 2, sum((P[k, i] - o[i]) ** 2 for i in range(3)))
        h.le('distance not negative', 0, h.q('dist')[k])
        h.eq('magnitude squared', h.q('mag')[k] ** 2, sum(P[k, i] ** 2 for i in range(3)))
        h.eq('dot product', h.q('dot')[k], sum(P[k, i] * v[i] for i in range(3)))
        for i in range(2):
            h.eq('repeated scalar', h.q('rep2')[k, i], s[k])
    h.true('shapes', h.q('rep').shape == (2, 3) and h.q('rep2').shape == (2, 2) and h.q('ap').shape == (2, 3, 1, 1)
           and h.q('ap0').shape == (1, 1))
    h.eq('appended axes keep values', h.q('ap')[:, :, 0, 0], P)
    h.eq('tuple of columns equals the array', h.q('tup'), P)
    h.eq('array passes through', h.q('chk'), P)
    h.eq('list passes through', h.q('lst'), P)
    h.true('shape kept', h.q('chk').shape == (2, 3) and h.q('tup').shape == (2, 3))
    h.true('wrong width raises', h.q('bad') and h.q('bad2'))
    h.true('wrong length raises', h.q('bad3') and h.q('bad4'))


def did_raise(f, *exc):
    try:
        f()
    except exc:
        return True
    return False


@case('C03', 'helpers', laws=helper_laws, bounds='two points, every real coordinate')
def helpers(h):
    u, s = h.mod('geoana.utils'), h.mod('geoana.spatial')
    P, o, v = h.arr(h.vec('p', 6)).reshape(2, 3), h.vec('o'), h.vec('v')
    h.put('vd', s.vector_distance(P, o))
    h.put('vd0', s.vector_distance(P))
    h.put('dist', s.distance(P, o))
    h.put('mag', s.vector_magnitude(P))
    h.put('dot', s.vector_dot(P, v))
    h.put('rep', s.repeat_scalar(h.vec('s', 2)))
    h.put('rep2', s.repeat_scalar(h.vec('s', 2), dim=2))
    h.put('ap', u.append_ndim(P, 2))
    h.put('ap0', u.append_ndim(h.real('k'), 2))
    h.put('tup', u.check_xyz_dim((P[:, 0], P[:, 1], P[:, 2])))
    h.put('chk', u.check_xyz_dim(P))
    h.put('lst', u.check_xyz_dim([[P[0, 0], P[0, 1], P[0, 2]], [P[1, 0], P[1, 1], P[1, 2]]]))
    h.put('bad', did_raise(lambda: u.check_xyz_dim(P[:, :2]), ValueError))
    h.put('bad2', did_raise(lambda: u.check_xyz_dim(P, dim=2), ValueError))
    h.put('bad3', did_raise(lambda: s.vector_distance(P, o[:2]), Exception))
    h.put('bad4', did_raise(lambda: s.vector_dot(P, o[:2]), Exception))


def src_laws(h):
    P, l, u = h.q('P'), h.vec('l'), h.arr([2, -1, 2])
    for n in ('dip', 'loop', 'edip', 'tdip'):
        for k in range(2):
            d = [P[k, i] - l[i] for i in range(3)]
            h.eq(f'{n}: distance', h.q(n + 'd')[k], h.norm(d))
            h.eq(f'{n}: dot product with the orientation', 3 * h.q(n + 'o')[k], 2 * P[k, 0] - P[k, 1] + 2 * P[k, 2])
            c = [P[k, 1] * 2 + P[k, 2], P[k, 2] * 2 - P[k, 0] * 2, -P[k, 0] - P[k, 1] * 2]
            for i in range(3):
                h.eq(f'{n}: vector distance', h.q(n + 'v')[k, i], d[i])
                h.eq(f'{n}: cross product with the orientation', 3 * h.q(n + 'c')[k, i], c[i], scale=(P[k, 0], P[k, 1], P[k, 2]))


@case('C03', 'source_helpers', laws=src_laws, bounds='two points, every real coordinate and source location, orientation (2,-1,2), four source classes')
def src_helpers(h):
    st, fd, td = h.mod('geoana.em.static'), h.mod('geoana.em.fdem'), h.mod('geoana.em.tdem')
    P, l, u = h.arr(h.vec('p', 6)).reshape(2, 3), h.vec('l'), h.arr([2, -1, 2])
    h.put('P', P)
    kw = dict(location=l, orientation=u)
    for n, o in (('dip', st.MagneticDipoleWholeSpace(**kw)), ('loop', st.CircularLoopWholeSpace(**kw)), ('edip', fd.ElectricDipoleWholeSpace(h.pos('f'), **kw)),
                 ('tdip', td.ElectricDipoleWholeSpace(h.pos('f'), **kw))):
        h.put(n + 'd', o.distance(P))
        h.put(n + 'v', o.vector_distance(P))
        h.put(n + 'o', o.dot_orientation(P))
        h.put(n + 'c', o.cross_orientation(P))
        for m in ('distance', 'vector_distance', 'dot_orientation', 'cross_orientation'):
            g = getattr(o, m)
            one, grid = g(P[0]), g(P.reshape(2, 1, 3))
            h.eq(f'{n}: {m} of one point', one, g(P)[0])
            h.true(f'{n}: {m} of a grid', tuple(grid.shape) == (2, 1) + tuple(g(P).shape[1:]), str(grid.shape))
            h.eq(f'{n}: {m} of a grid', grid[:, 0], g(P))
