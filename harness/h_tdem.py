"""C16 transient dipole and plane wave in a whole space, C17 transient loops and dipoles on a half-space."""
from engine.case import case, curl_terms, div_terms

XS = ['d0', 'd1', 'd2']
TB = 'one source, one observation point, one time > 0; every location, offset, strength, conductivity and permeability > 0; '


def nz(h, d):
    h.assume('gt', sum(v * v for v in d), 0)


def orient(h, name):
    if name == 'any':
        o = h.vec('o')
        nz(h, o)
        return o
    return name


def dip_laws(h):
    E, H, s, mu = h.q('E'), h.q('H'), h.pos('s'), h.pos('mu')
    for i, t in enumerate(curl_terms(h, 'A', XS)):
        h.zero('magnetic field is the curl of the vector potential', [t[0], -t[1], -H[i]])
    for i, t in enumerate(curl_terms(h, 'H', XS)):
        h.zero('Ampere', [t[0], -t[1], -h.q('J')[i]])
    for i, t in enumerate(curl_terms(h, 'E', XS)):
        h.zero('Faraday', [t[0], -t[1], h.d('B', 't')[i]])
    for i in range(3):
        h.eq('current density is conductivity times field', h.q('J')[i], s * E[i])
        h.eq('flux density is mu times field', h.q('B')[i], mu * H[i])
        h.eq('rate of change of the magnetic field', h.q('Ht')[i], h.d('H', 't')[i])
        h.eq('rate of change of the flux density', h.q('Bt')[i], h.d('B', 't')[i])
    h.zero('flux density is solenoidal', div_terms(h, 'B', XS))
    h.zero('electric field is solenoidal', div_terms(h, 'E', XS))
    h.finite('finite away from the source', [E, H, h.q('Ht')])


NAMES = (('A', 'vector_potential'), ('E', 'electric_field'), ('J', 'current_density'), ('H', 'magnetic_field'),
         ('B', 'magnetic_flux_density'), ('Ht', 'magnetic_field_time_deriv'), ('Bt', 'magnetic_flux_density_time_deriv'))

for o, tier in (('any', 'quick'), ('X', 'quick'), ('Y', 'thorough'), ('z', 'quick')):
    def body(h, o=o):
        td = h.mod('geoana.em.tdem')
        l, d = h.vec('l'), h.vec('d')
        nz(h, d)
        src = td.ElectricDipoleWholeSpace(time=h.pos('t'), sigma=h.pos('s'), mu=h.pos('mu'), location=l, orientation=orient(h, o),
                                          current=h.real('c'), length=h.pos('L'))
        for k, n in NAMES:
            h.put(k, getattr(src, n)(l + d))
    case('C16', f'dipole_{o}', laws=dip_laws, tier=tier, bounds=TB + f'orientation {o}')(body)


def many_laws(names):
    def laws(h):
        for k in names:
            M = h.q(k)
            h.true(f'shape of {k}', tuple(M.shape) == (2, 2, 3), str(M.shape))
            for i in range(2):
                for j in range(2):
                    for c in range(3):
                        h.eq(f'times and points at once ({k})', M[i, j, c], h.q(f'{k}{i}{j}')[c])
    return laws


@case('C16', 'dipole_many', laws=many_laws([k for k, _ in NAMES]), bounds='two times, two points, any orientation')
def many(h):
    td = h.mod('geoana.em.tdem')
    l, d, e = h.vec('l'), h.vec('d'), h.vec('e')
    nz(h, d)
    nz(h, e)
    t = [h.pos('t'), h.pos('t1')]
    P = [l + d, l + e]
    kw = dict(sigma=h.pos('s'), mu=h.pos('mu'), location=l, orientation=orient(h, 'any'), current=h.real('c'), length=h.pos('L'))
    both = td.ElectricDipoleWholeSpace(time=h.arr(t), **kw)
    for k, n in NAMES:
        h.put(k, getattr(both, n)(h.arr(P)))
    for i in range(2):
        one = td.ElectricDipoleWholeSpace(time=t[i], **kw)
        for j in range(2):
            for k, n in NAMES:
                h.put(f'{k}{i}{j}', getattr(one, n)(P[j]))


PW = NAMES[1:5]


def pw_laws(h):
    E, H, s, mu, o = h.q('E'), h.q('H'), h.pos('s'), h.pos('mu'), h.q('o')
    for i, t in enumerate(curl_terms(h, 'H', XS)):
        h.zero('Ampere', [t[0], -t[1], -h.q('J')[i]])
    for i, t in enumerate(curl_terms(h, 'E', XS)):
        h.zero('Faraday', [t[0], -t[1], h.d('B', 't')[i]])
    for i in range(3):
        h.eq('current density is conductivity times field', h.q('J')[i], s * E[i])
        h.eq('flux density is mu times field', h.q('B')[i], mu * H[i])
    h.eq('field along the polarisation', E[0] * o[1], E[1] * o[0])
    h.eq('fields are horizontal', E[2], 0, scale=(1.0,))
    h.eq('fields are horizontal', H[2], 0, scale=(1.0,))
    # unit pulse of the given amplitude: the flux density at z = 0 is -amplitude sqrt(mu sigma / pi t) across the polarisation
    B0, c = h.q('B0'), h.real('amp') * h.sqrt(mu * s / (h.pi * h.pos('t')))
    h.eq('amplitude', B0[0], c * o[1])
    h.eq('amplitude', B0[1], -c * o[0])


for o in ('any', 'X', 'y'):
    def body(h, o=o):
        td = h.mod('geoana.em.tdem')
        d = h.vec('d')
        if o == 'any':
            ov = h.arr([h.real('o0'), h.real('o1'), 0])
            h.assume('gt', ov[0] * ov[0] + ov[1] * ov[1], 0)
            n = h.norm(ov)
            h.put('o', [ov[0] / n, ov[1] / n, 0])
        else:
            ov = o
            h.put('o', [1, 0, 0] if o in 'xX' else [0, 1, 0])
        p = td.TransientPlaneWave(amplitude=h.real('amp'), orientation=ov, time=h.pos('t'), sigma=h.pos('s'), mu=h.pos('mu'))
        for k, n in PW:
            h.put(k, getattr(p, n)(d))
        h.put('B0', p.magnetic_flux_density(h.arr([d[0], d[1], 0])))
    case('C16', f'plane_wave_{o}', laws=pw_laws, bounds='one time > 0, one point, every amplitude and medium; polarisation ' + o)(body)


@case('C16', 'plane_wave_many', laws=many_laws([k for k, _ in PW]), bounds='two times, two points, polarisation (3,-4,0)')
def pwm(h):
    td = h.mod('geoana.em.tdem')
    P = [h.vec('d'), h.vec('e')]
    t = [h.pos('t'), h.pos('t1')]
    kw = dict(amplitude=h.real('amp'), orientation=h.arr([3, -4, 0]), sigma=h.pos('s'), mu=h.pos('mu'))
    both = td.TransientPlaneWave(time=h.arr(t), **kw)
    for k, n in PW:
        h.put(k, getattr(both, n)(h.arr(P)))
    for i in range(2):
        one = td.TransientPlaneWave(time=t[i], **kw)
        for j in range(2):
            for k, n in PW:
                h.put(f'{k}{i}{j}', getattr(one, n)(P[j]))


def base_laws(h):
    t, s, mu, z = h.pos('t'), h.pos('s'), h.pos('mu'), h.real('z')
    h.eq('diffusion distance', h.q('dd') * h.q('dd') * mu * s, 2 * t)
    h.eq('theta', h.q('th') * h.q('th') * 4 * t, mu * s)
    # the plane-wave field at depth z peaks at the peak time: the derivative of the field in time vanishes there
    h.eq('field at depth peaks at the peak time', h.d('Epk', 'u')[0] * t, 0, scale=(h.q('Epk')[0],))
    for k in ('dd', 'th', 'pk'):
        h.eq(f'attribute and function agree ({k})', h.q(k + 'a'), h.q(k))
    h.lt('positive', 0, h.q('dd'))
    h.lt('positive', 0, h.q('th'))


@case('C16', 'diffusion_parameters', laws=base_laws, bounds='every time, conductivity and permeability > 0, depth z > 0')
def base(h):
    td = h.mod('geoana.em.tdem')
    t, s, mu, z, u = h.pos('t'), h.pos('s'), h.pos('mu'), h.pos('z'), h.pos('u')
    b = td.BaseTDEM(time=t, sigma=s, mu=mu)
    h.put('dda', b.diffusion_distance)
    h.put('tha', b.theta)
    h.put('pka', b.peak_time(z))
    h.put('dd', td.diffusion_distance(t, s, mu))
    h.put('th', td.theta(t, s, mu))
    h.put('pk', td.peak_time(z, s, mu))
    h.assume('eq', u, mu * s * z * z / 6)
    h.put('Epk', td.TransientPlaneWave(amplitude=h.pos('amp'), time=u, sigma=s, mu=mu).electric_field(h.arr([0, 0, -z])))


# ---------------------------------------------------------------------------- C17
def loop_laws(h):
    n, cur = h.pos('n'), h.real('c')
    mu = h.pos('mu')
    h.eq('rate of change of the field', h.q('Ht'), h.d('H', 't'))
    h.eq('rate of change of the flux density', h.q('Bt'), h.d('B', 't'))
    h.eq('flux density is mu times field', h.q('B'), mu * h.q('H'))
    h.eq('rate of flux density is mu times rate of field', h.q('Bt'), mu * h.q('Ht'))
    for k in ('H', 'B', 'Ht', 'Bt'):
        h.eq(f'proportional to turns and current ({k})', h.q(k), n * cur * h.q(k + '1'))
        for i in range(2):
            h.eq(f'several times at once ({k})', h.q(k + 'm')[i], h.q(k if i == 0 else k + 'o'))
    # a small dipole is the limit of loops: its vertical field is the radial rate of change of the loop field
    a = h.pos('a')
    h.eq('dipole and loop agree', h.q('dz') * 2 * h.pi * cur * n * a, h.real('m') * h.d('H', 'a'))
    h.eq('dipole and loop agree (rate)', h.q('dzt') * 2 * h.pi * cur * n * a, h.real('m') * h.d('Ht', 'a'))


@case('C17', 'loop', laws=loop_laws, bounds='two times > 0; every radius, number of turns, conductivity and permeability > 0 and every current')
def loop(h):
    td = h.mod('geoana.em.tdem')
    t, t1, s, mu, a, n, c = h.pos('t'), h.pos('t1'), h.pos('s'), h.pos('mu'), h.pos('a'), h.pos('n'), h.real('c')
    for k, f in (('H', 'vertical_magnetic_field_horizontal_loop'), ('B', 'vertical_magnetic_flux_horizontal_loop'),
                 ('Ht', 'vertical_magnetic_field_time_deriv_horizontal_loop'), ('Bt', 'vertical_magnetic_flux_time_deriv_horizontal_loop')):
        g = getattr(td, f)
        kw = dict(sigma=s, mu=mu, radius=a, current=c, turns=n)
        h.put(k, g(t, **kw))
        h.put(k + 'o', g(t1, **kw))
        h.put(k + 'm', g(h.arr([t, t1]), **kw))
        h.put(k + '1', g(t, sigma=s, mu=mu, radius=a))
    h.put('dz', td.magnetic_field_vertical_magnetic_dipole(t, h.arr([a, 0]), sigma=s, mu=mu, moment=h.real('m'))[2])
    h.put('dzt', td.magnetic_field_time_deriv_magnetic_dipole(t, h.arr([a, 0]), sigma=s, mu=mu, moment=h.real('m'))[2])


DN = (('H', 'magnetic_field_vertical_magnetic_dipole', 'magnetic_field'),
      ('Ht', 'magnetic_field_time_deriv_magnetic_dipole', 'magnetic_field_time_derivative'),
      ('B', 'magnetic_flux_vertical_magnetic_dipole', 'magnetic_flux_density'),
      ('Bt', 'magnetic_flux_time_deriv_magnetic_dipole', 'magnetic_flux_time_derivative'))


def vmd_laws(h):
    x, y = h.real('x'), h.real('y')
    r2 = x * x + y * y
    for i in range(3):
        h.eq('rate of change of the field', h.q('Ht')[i], h.d('H', 't')[i])
        h.eq('flux density is mu times field', h.q('B')[i], h.pos('mu') * h.q('H')[i])
        h.eq('rate of flux density is mu times rate of field', h.q('Bt')[i], h.pos('mu') * h.q('Ht')[i])
    for k, _, _ in DN:
        F, G = h.q(k), h.q(k + 'r')
        h.eq(f'radial and vertical only ({k})', F[0] * y, F[1] * x)
        # same distance along x: vertical and radial components agree
        r = h.sqrt(r2)
        h.eq(f'same at every azimuth ({k})', F[2], G[2])
        h.eq(f'same at every azimuth ({k})', F[0] * r, G[0] * x)
        h.eq(f'same at every azimuth ({k})', F[1] * r, G[0] * y)
        h.eq(f'same at every azimuth ({k})', G[1], 0, scale=(G[0],))
        for i in range(3):
            h.eq(f'attribute-based and functional form agree ({k})', h.q(k + 'c')[i], F[i])
            h.eq(f'attribute-based and functional form agree ({k})', h.q(k + 'd')[i], F[i])
            h.eq(f'three-column points ({k})', h.q(k + '3')[i], F[i])
            h.eq(f'proportional to the moment ({k})', F[i], h.real('m') * h.q(k + '1')[i])


def lift3(h, x, y, z):
    return h.arr([x, y, z])


@case('C17', 'dipole', laws=vmd_laws, bounds='one time, one surface point in the open half plane x > 0 or off the x axis; every medium, moment, location')
def vmd(h):
    td = h.mod('geoana.em.tdem')
    t, s, mu, m = h.pos('t'), h.pos('s'), h.pos('mu'), h.real('m')
    x, y = h.real('x'), h.real('y')
    h.assume('gt', x * x + y * y, 0)
    l = h.vec('l')
    o = td.VerticalMagneticDipoleHalfSpace(time=t, sigma=s, mu=mu, moment=m, location=l)
    for k, f, g in DN:
        fn = getattr(td, f)
        h.put(k, fn(t, h.arr([x, y]), sigma=s, mu=mu, moment=m))
        h.put(k + '3', fn(t, h.arr([x, y, h.real('z')]), sigma=s, mu=mu, moment=m))
        h.put(k + '1', fn(t, h.arr([x, y]), sigma=s, mu=mu))
        h.put(k + 'r', fn(t, h.arr([h.sqrt(x * x + y * y), 0]), sigma=s, mu=mu, moment=m))
        h.put(k + 'c', getattr(o, g)(h.arr([l[0] + x, l[1] + y])))
        h.put(k + 'd', getattr(o, g)(h.arr([l[0] + x, l[1] + y, h.real('z')])))


def vmd_many_laws(h):
    for k, _, _ in DN:
        M = h.q(k)
        h.true(f'shape of {k}', tuple(M.shape) == (2, 2, 3), str(M.shape))
        for i in range(2):
            for j in range(2):
                for c in range(3):
                    h.eq(f'times and points at once ({k})', M[i, j, c], h.q(f'{k}{i}{j}')[c])


@case('C17', 'dipole_many', laws=vmd_many_laws, bounds='two times, two points')
def vmdm(h):
    td = h.mod('geoana.em.tdem')
    t = [h.pos('t'), h.pos('t1')]
    P = [h.vec('p', 2), h.vec('q', 2)]
    for p in P:
        nz(h, p)
    kw = dict(sigma=h.pos('s'), mu=h.pos('mu'), moment=h.real('m'))
    both = td.VerticalMagneticDipoleHalfSpace(time=h.arr(t), **kw)
    for k, f, g in DN:
        h.put(k, getattr(both, g)(h.arr(P)))
        for i in range(2):
            for j in range(2):
                h.put(f'{k}{i}{j}', getattr(td, f)(t[i], P[j], **kw))


def ref_laws(h):
    x, y, s = h.real('x'), h.real('y'), 1
    r = h.sqrt(x * x + y * y)
    h.eq('reference vertical field', h.q('r1'), h.q('H')[2])
    # the published rates are those of the impulse response: the opposite sign (and z down for the radial part)
    h.eq('reference vertical field rate', -h.q('r2'), h.q('Ht')[2])
    h.eq('reference radial field', -h.q('r3') * x, h.q('H')[0] * r)
    h.eq('reference radial field rate', -h.q('r4') * x, h.q('Ht')[0] * r)


@case('C17', 'reference_formulas', laws=ref_laws, bounds='one time, one surface point; every medium and moment')
def ref(h):
    td, rf = h.mod('geoana.em.tdem'), h.mod('geoana.em.tdem.reference')
    t, s, mu, m = h.pos('t'), h.pos('s'), h.pos('mu'), h.real('m')
    x, y = h.real('x'), h.real('y')
    h.assume('gt', x * x + y * y, 0)
    r = h.sqrt(x * x + y * y)
    th = td.theta(t, s, mu)
    for k, f, g in DN[:2]:
        h.put(k, getattr(td, f)(t, h.arr([x, y]), sigma=s, mu=mu, moment=m))
    h.put('r1', rf.hz_from_vert_4_69a(m, th, r))
    h.put('r2', rf.dhz_from_vert_4_70(m, th, r, s, mu))
    h.put('r3', rf.hp_from_vert_4_72(m, th, r))
    h.put('r4', rf.dhp_from_vert_4_74(m, th, r, t))
