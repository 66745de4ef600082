"""C09 static magnetic sources, C10 cylindrical output, C11 line and point currents."""
from engine.case import case, curl_terms, div_terms, CASES

XS = ['d0', 'd1', 'd2']
PT = 'one source, one observation point; every real source location, offset, strength and every permeability > 0'


def nz(h, d):
    h.assume('gt', d[0] * d[0] + d[1] * d[1] + d[2] * d[2], 0)


def unit(h, name):
    """orientations: symbolic (any length) or fixed rational directions."""
    if name == 'any':
        o = h.vec('o')
        nz(h, o)
        return o
    return {'X': 'X', 'Y': 'y', 'Z': 'Z', 'q': h.arr([2, -1, 2]), 'mz': h.arr([0, 0, -2]), 'w': h.arr([-3, 0, 4]),
            'n': h.arr([-2, -2, -1])}[name]


def magnetostatic_laws(h, potential=True, curlfree=True):
    B = h.q('B')
    if potential:
        for i, t in enumerate(curl_terms(h, 'A', XS)):
            h.zero('flux density is the curl of the vector potential', [t[0], -t[1], -B[i]])
    h.zero('flux density is solenoidal', div_terms(h, 'B', XS))
    if curlfree:
        for i, t in enumerate(curl_terms(h, 'H', XS)):
            h.zero('field is curl free away from the source', [t[0], -t[1]])
    for i in range(3):
        h.eq('flux density is mu times field', B[i], h.q('mu') * h.q('H')[i])
    h.finite('finite away from the source', [B, h.q('H')])


def put_mag(h, o, x, potential=True):
    if potential:
        h.put('A', o.vector_potential(x))
    h.put('B', o.magnetic_flux_density(x))
    h.put('H', o.magnetic_field(x))
    h.store['mu'] = h.pos('mu')


for orient, tier in (('any', 'quick'), ('X', 'quick'), ('Y', 'thorough'), ('Z', 'quick')):
    def body(h, orient=orient):
        st = h.mod('geoana.em.static')
        l, d = h.vec('l'), h.vec('d')
        nz(h, d)
        o = st.MagneticDipoleWholeSpace(location=l, orientation=unit(h, orient), moment=h.real('m'), mu=h.pos('mu'))
        put_mag(h, o, l + d)
    case('C09', f'dipole_{orient}', laws=magnetostatic_laws, tier=tier, bounds=PT + f'; orientation {orient}')(body)

for orient, tier in (('any', 'quick'), ('Z', 'thorough')):
    def body(h, orient=orient):
        st = h.mod('geoana.em.static')
        l, d = h.vec('l'), h.vec('d')
        nz(h, d)
        o = st.MagneticPoleWholeSpace(location=l, orientation=unit(h, orient), moment=h.real('m'), mu=h.pos('mu'))
        put_mag(h, o, l + d, False)

    def laws(h):
        magnetostatic_laws(h, potential=False)
        d = [h.real(x) for x in XS]
        r = h.norm(d)
        for i in range(3):
            h.eq('pole field', h.q('H')[i] * 4 * h.pi * r * r * r, h.real('m') * d[i])
    case('C09', f'pole_{orient}', laws=laws, tier=tier, bounds=PT + f'; orientation {orient}')(body)


@case('C09', 'dipole_is_pole_pair', bounds=PT + '; any orientation')
def pole_pair(h):
    """the dipole is minus the directional derivative of the pole along the orientation."""
    st = h.mod('geoana.em.static')
    l, d, q = h.vec('l'), h.vec('d'), unit(h, 'any')
    nz(h, d)
    kw = dict(location=l, orientation=q, moment=h.real('m'), mu=h.pos('mu'))
    o = st.MagneticDipoleWholeSpace(**kw)
    p = st.MagneticPoleWholeSpace(**kw)
    h.put('o', q)
    h.put('B', o.magnetic_flux_density(l + d))
    h.put('P', p.magnetic_flux_density(l + d))


def pole_pair_laws(h):
    q = h.q('o')
    n = h.norm(q)
    for i in range(3):
        h.zero('dipole is the derivative of the pole', [h.q('B')[i] * n] + [q[j] * h.d('P', XS[j])[i] for j in range(3)])


CASES['C09/dipole_is_pole_pair'].laws = pole_pair_laws


def loop_far(orient):
    def body(h):
        st = h.mod('geoana.em.static')
        l, d, a = h.vec('l'), h.vec('d'), h.pos('a')
        if orient in ('Z', 'mz'):
            rho2, zz = d[0] * d[0] + d[1] * d[1], d[2] * d[2]
            h.assume('gt', 10 ** 6 * rho2, a * a + zz)
            h.assume('gt', (rho2 + zz - a * a) ** 2 + zz, 0)
        elif orient == 'X':
            rho2, zz = d[1] * d[1] + d[2] * d[2], d[0] * d[0]
            h.assume('gt', 10 ** 6 * rho2, a * a + zz)
            h.assume('gt', (rho2 + zz - a * a) ** 2 + zz, 0)
        else:
            raise AssertionError
        o = st.CircularLoopWholeSpace(location=l, orientation=unit(h, orient), radius=a, current=h.real('cur'), mu=h.pos('mu'))
        put_mag(h, o, l + d)
    return body


for orient, tier in (('Z', 'quick'), ('X', 'quick'), ('mz', 'thorough')):
    case('C09', f'loop_{orient}', laws=magnetostatic_laws, tier=tier, cost=5,
         bounds=PT + f'; orientation {orient}; off the wire and outside the near-axis zone rho^2 < 1e-6 (a^2+z^2)')(loop_far(orient))


@case('C09', 'loop_near_axis', bounds=PT + '; orientation Z; near-axis zone rho^2 < 1e-6 (a^2+z^2), axis included', rtol=1e-4)
def loop_near(h):
    st = h.mod('geoana.em.static')
    l, d, a = h.vec('l'), h.vec('d'), h.pos('a')
    rho2, zz = d[0] * d[0] + d[1] * d[1], d[2] * d[2]
    h.assume('lt', 2 * 10 ** 6 * rho2, a * a + zz)
    o = st.CircularLoopWholeSpace(location=l, orientation='Z', radius=a, current=h.pos('cur'), mu=h.pos('mu'))
    h.put('A', o.vector_potential(l + d))
    h.put('B', o.magnetic_flux_density(l + d))


def loop_near_laws(h):
    d, a, cur, mu = [h.real(x) for x in XS], h.pos('a'), h.pos('cur'), h.pos('mu')
    rho2, zz = d[0] * d[0] + d[1] * d[1], d[2] * d[2]
    T2 = a * a + zz
    T = h.sqrt(T2)
    c = mu * cur * a * a
    A, B = h.q('A'), h.q('B')
    # Taylor series of the exact field about the axis, up to rho^3
    f0, f2 = c / (2 * T2 * T), -3 * c * (a * a - 4 * zz) / (2 * T2 * T2 * T2 * T)
    f1 = -3 * c * d[2] / (2 * T2 * T2 * T)
    f3 = c * d[2] * (45 * a * a - 60 * zz) / (2 * T2 ** 4 * T)
    s = f0 / 2 - rho2 * f2 / 16
    b = -f1 / 2 + rho2 * f3 / 16
    tol = c / (T2 * T) / 10 ** 8
    h.near('azimuthal potential series', A[0], -d[1] * s, tol * T)
    h.near('azimuthal potential series', A[1], d[0] * s, tol * T)
    h.near('potential is azimuthal', A[2], 0, tol * T)
    h.near('radial flux density series', B[0], d[0] * b, tol)
    h.near('radial flux density series', B[1], d[1] * b, tol)


CASES['C09/loop_near_axis'].laws = loop_near_laws


@case('C09', 'loop_on_axis', bounds=PT + '; any orientation, point on the loop axis')
def loop_axis(h):
    st = h.mod('geoana.em.static')
    l, a, z = h.vec('l'), h.pos('a'), h.real('z')
    q = h.arr([2, -1, 2])
    o = st.CircularLoopWholeSpace(location=l, orientation=q, radius=a, current=h.real('cur'), mu=h.pos('mu'))
    p = l + q * z
    h.put('A', o.vector_potential(p))
    h.put('B', o.magnetic_flux_density(p))
    h.put('H', o.magnetic_field(p))


def loop_axis_laws(h):
    a, z, cur, mu = h.pos('a'), h.real('z'), h.real('cur'), h.pos('mu')
    t2 = a * a + 9 * z * z
    for i, u in enumerate((2, -1, 2)):
        h.eq('on-axis flux density', h.q('B')[i] * 6 * t2 * h.sqrt(t2), mu * cur * a * a * u)
        h.eq('on-axis field', h.q('H')[i] * 6 * t2 * h.sqrt(t2), cur * a * a * u)
        h.eq('no potential on the axis', h.q('A')[i], 0, scale=(mu * cur,))
    h.finite('finite on the axis', [h.q('A'), h.q('B')])


CASES['C09/loop_on_axis'].laws = loop_axis_laws

# ---------------------------------------------------------------- C10: cylindrical output
METH = {'MagneticDipoleWholeSpace': ('vector_potential', 'magnetic_flux_density', 'magnetic_field'),
        'MagneticPoleWholeSpace': ('magnetic_flux_density', 'magnetic_field'),
        'CircularLoopWholeSpace': ('vector_potential', 'magnetic_flux_density', 'magnetic_field')}


def cyl_laws(h):
    p = h.q('p')
    cs, sn = h.fn('cos', p), h.fn('sin', p)
    for m in h.q('methods'):
        C, X = h.q('C' + m), h.q('X' + m)
        h.true('shape', C.shape == X.shape)
        h.eq(f'{m}: radial', C[0], cs * X[0] + sn * X[1])
        h.eq(f'{m}: azimuthal', C[1], cs * X[1] - sn * X[0])
        h.eq(f'{m}: vertical', C[2], X[2])
        h.eq(f'{m}: case-insensitive', h.q('U' + m), C)
    h.true('unknown system is refused', all(h.q('refused')))


for cls in METH:
    def body(h, cls=cls):
        st = h.mod('geoana.em.static')
        ro, z, a, b = h.pos('ro'), h.real('z'), h.real('ca'), h.real('sa')
        h.assume('ne', b, 0)
        p = h.fn('atan2', b, a)
        kw = dict(moment=h.real('m')) if cls != 'CircularLoopWholeSpace' else dict(radius=h.pos('R'), current=h.real('m'))
        if cls == 'CircularLoopWholeSpace':
            # the loop is on the axis of the coordinate system
            l = [0, 0, 0]
            h.assume('gt', 10 ** 6 * ro * ro, h.pos('R') ** 2 + z * z)
            h.assume('gt', (ro * ro + z * z - h.pos('R') ** 2) ** 2 + z * z, 0)
            kw['orientation'] = 'Z'
        else:
            l = h.vec('l')
            kw['orientation'] = h.arr([2, -1, 2])
        o = getattr(st, cls)(location=l, mu=h.pos('mu'), **kw)
        cp, sp = h.fn('cos', p), h.fn('sin', p)
        cyl = h.arr([ro, p, z])
        car = h.arr([ro * cp, ro * sp, z])
        if cls != 'CircularLoopWholeSpace':
            h.assume('ne', car[2], l[2])
        h.store['p'] = p
        h.store['methods'] = METH[cls]
        ref = []
        for m in METH[cls]:
            h.put('C' + m, getattr(o, m)(cyl, coordinates='cylindrical'))
            h.put('U' + m, getattr(o, m)(cyl, coordinates='Cylindrical'))
            h.put('X' + m, getattr(o, m)(car))
            try:
                getattr(o, m)(cyl, coordinates='spherical')
                ref.append(False)
            except (AssertionError, TypeError, ValueError):
                ref.append(True)
        h.store['refused'] = ref
    case('C10', cls, laws=cyl_laws, bounds=PT + '; cylindrical point with radius > 0 and azimuth not 0 or pi; orientation (2,-1,2) '
         '(loop: vertical axis, off the near-axis zone)')(body)
