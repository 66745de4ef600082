"""C12 direct currents in a half-space, C13 spheres in a uniform field."""
from engine.case import case, curl_terms, div_terms

XS = ['x0', 'x1', 'x2']


def below(h, name):
    """a point with z < 0."""
    return h.arr([h.real(name + '0'), h.real(name + '1'), -h.pos(name + '2')])


def apart(h, a, b):
    h.assume('gt', sum((a[i] - b[i]) ** 2 for i in range(3)), 0)


def dsign(h, name, i):
    """derivative with respect to x_i of the observation point (z = -x2)."""
    return h.d(name, XS[i]) if i < 2 else -h.d(name, XS[2])


HS = 'half-space z <= 0, every source position, current and resistivity > 0; two observation points '


def point_laws(h):
    V, E, J, rho = h.q('V'), h.q('E'), h.q('J'), h.pos('rho')
    for i in range(3):
        h.zero('electric field is minus the gradient of the potential', [E[i], dsign(h, 'V', i)])
        h.eq('current density is field over resistivity', J[i] * rho, E[i])
    h.zero('current density is solenoidal', [dsign(h, 'J', i)[i] for i in range(3)])
    h.eq('no current through the surface', h.q('J0')[2], 0, scale=(h.q('J0')[0], h.q('cur') / h.q('R2')))
    s, c = h.q('src'), h.q('cur')
    x = h.q('x')
    r1 = h.norm([x[i] - s[i] for i in range(3)])
    r2 = h.norm([x[0] - s[0], x[1] - s[1], x[2] + s[2]])
    h.eq('image solution', V * 4 * h.pi * r1 * r2, rho * c * (r1 + r2))
    h.eq('reciprocity', h.q('Vr'), V)
    for i in range(2):
        h.eq('several points at once', h.q('VV')[i], h.q('Vi')[i])
        for j in range(3):
            h.eq('several points at once', h.q('EE')[i, j], h.q('Ei')[i][j])
    h.finite('finite', [V, E, J])


@case('C12', 'point_current', laws=point_laws, bounds=HS + '(one inside, one on the surface)')
def point(h):
    st = h.mod('geoana.em.static')
    s, x, rho, cur = below(h, 's'), below(h, 'x'), h.pos('rho'), h.real('cur')
    y = h.arr([h.real('y0'), h.real('y1'), 0])
    apart(h, s, x)
    o = st.PointCurrentHalfSpace(rho, current=cur, location=s)
    h.put('V', o.potential(x))
    h.put('E', o.electric_field(x))
    h.put('J', o.current_density(x))
    h.put('J0', o.current_density(y))
    h.store['R2'] = sum((y[i] - s[i]) ** 2 for i in range(3))
    P = h.arr([x, y])
    h.put('VV', o.potential(P))
    h.put('EE', o.electric_field(P))
    h.put('Vi', [o.potential(x), o.potential(y)])
    h.put('Ei', [o.electric_field(x), o.electric_field(y)])
    h.put('Vr', st.PointCurrentHalfSpace(rho, current=cur, location=x).potential(s))
    h.store['src'], h.store['cur'], h.store['x'] = s, cur, x


def surf_laws(h):
    V, rho, c = h.q('V'), h.pos('rho'), h.real('cur')
    s, x = h.q('s'), h.q('x')
    r = h.norm([x[i] - s[i] for i in range(3)])
    h.eq('surface source: twice the whole-space potential', V * 2 * h.pi * r, rho * c)
    for i in range(3):
        h.eq('surface source: field', h.q('E')[i] * 2 * h.pi * r * r * r, rho * c * (x[i] - s[i]))


@case('C12', 'surface_current', laws=surf_laws, bounds=HS + '; source on the surface')
def surf(h):
    st = h.mod('geoana.em.static')
    s, x = h.arr([h.real('s0'), h.real('s1'), 0]), below(h, 'x')
    o = st.PointCurrentHalfSpace(h.pos('rho'), current=h.real('cur'), location=s)
    h.put('V', o.potential(x))
    h.put('E', o.electric_field(x))
    h.put('s', s)
    h.put('x', x)


def dip_laws(h):
    for k in ('V', 'E', 'J'):
        h.eq(f'A minus B ({k})', h.q('d' + k), h.q('a' + k) - h.q('b' + k))
        h.eq(f'M minus N ({k})', h.q('n' + k), h.q('d' + k) - h.q('e' + k))
        h.eq(f'many M and one N ({k})', h.q('r' + k), h.q('n' + k))
        h.eq(f'one M and many N ({k})', h.q('s' + k), h.q('n' + k))
    for i in range(3):
        h.zero('electric field is minus the gradient of the potential', [h.q('dE')[i], dsign(h, 'dV', i)])
        h.eq('current density is field over resistivity', h.q('dJ')[i] * h.pos('rho'), h.q('dE')[i])
    h.eq('reciprocity of electrode pairs', h.q('rec'), h.q('nV'))
    h.eq('electrodes read back', h.q('la'), h.q('A'))
    h.eq('electrodes read back', h.q('lb'), h.q('B'))


@case('C12', 'dipole', laws=dip_laws, bounds=HS + 'as electrode pair M, N; electrode pair A, B', cost=3, by_parts=True)
def dip(h):
    st = h.mod('geoana.em.static')
    A, B, M, N = below(h, 'a'), below(h, 'b'), below(h, 'x'), below(h, 'n')
    for s in (A, B):
        for p in (M, N):
            apart(h, s, p)
    rho, cur = h.pos('rho'), h.real('cur')
    o = st.DipoleHalfSpace(rho, location_a=A, location_b=B, current=cur)
    a, b = st.PointCurrentHalfSpace(rho, current=cur, location=A), st.PointCurrentHalfSpace(rho, current=cur, location=B)
    for k, f in (('V', 'potential'), ('E', 'electric_field'), ('J', 'current_density')):
        h.put('d' + k, getattr(o, f)(M))
        h.put('e' + k, getattr(o, f)(N))
        h.put('n' + k, getattr(o, f)(M, N))
        h.put('r' + k, getattr(o, f)(h.arr([M, M]), N)[1])
        h.put('s' + k, getattr(o, f)(M, h.arr([N, N]))[1])
        h.put('a' + k, getattr(a, f)(M))
        h.put('b' + k, getattr(b, f)(M))
    h.put('rec', st.DipoleHalfSpace(rho, location_a=M, location_b=N, current=cur).potential(A, B))
    h.put('la', o.location_a)
    h.put('lb', o.location_b)
    h.put('A', A)
    h.put('B', B)


def set_laws(h):
    for k in ('V', 'E', 'J'):
        h.eq(f'changed point source equals a new one ({k})', h.q('p' + k), h.q('q' + k))
        h.eq(f'changed dipole equals a new one ({k})', h.q('d' + k), h.q('e' + k))
    h.true('above the surface is refused', all(h.q('ref')))


def top(h, name):
    """a point with z = 0."""
    return h.arr([h.real(name + '0'), h.real(name + '1'), 0])


@case('C12', 'changed_parameters', laws=set_laws, bounds=HS + '; every parameter replaced after construction')
def chg(h, place=below):
    st = h.mod('geoana.em.static')
    A, B, C, D, M = place(h, 'a'), place(h, 'b'), place(h, 'c'), place(h, 'e'), below(h, 'x')
    for s in (A, B, C, D):
        apart(h, s, M)
    r1, r2, c1, c2 = h.pos('rho'), h.pos('rho2'), h.real('cur'), h.real('cur2')
    p = st.PointCurrentHalfSpace(r1, current=c1, location=A)
    p.potential(M)
    p.location, p.rho, p.current = C, r2, c2
    q = st.PointCurrentHalfSpace(r2, current=c2, location=C)
    d = st.DipoleHalfSpace(r1, location_a=A, location_b=B, current=c1)
    d.potential(M)
    d.current, d.location_b, d.rho, d.location_a = c2, D, r2, C
    e = st.DipoleHalfSpace(r2, location_a=C, location_b=D, current=c2)
    for k, f in (('V', 'potential'), ('E', 'electric_field'), ('J', 'current_density')):
        for nm, o in (('p', p), ('q', q), ('d', d), ('e', e)):
            h.put(nm + k, getattr(o, f)(M))
    up = h.arr([h.real('u0'), h.real('u1'), h.pos('u2')])
    ref = []

    def refuse(f, *a):
        try:
            f(*a)
            ref.append(False)
        except ValueError:
            ref.append(True)
    for o in (p, d):
        for f in ('potential', 'electric_field', 'current_density'):
            refuse(getattr(o, f), up)
            refuse(getattr(o, f), h.arr([M, up]))
    for f in ('potential', 'electric_field', 'current_density'):
        refuse(getattr(d, f), M, up)
    refuse(lambda: setattr(p, 'location', up))
    refuse(lambda: setattr(d, 'location_a', up))
    refuse(lambda: setattr(d, 'location_b', up))
    h.store['ref'] = ref


for prop in ('C12', 'C22'):
    case(prop, 'changed_surface_electrodes', laws=set_laws,
         bounds=HS + '; electrodes on the surface before and after; every parameter replaced after construction')(lambda h: chg(h, top))


# ---------------------------------------------------------------------------- C13
DS = ['d0', 'd1', 'd2']
SP = {'e': ('ElectrostaticSphere', 'sigma_sphere', 'sigma_background', 'electric_field', 'current_density'),
      'm': ('MagnetostaticSphere', 'mu_sphere', 'mu_background', 'magnetic_field', 'magnetic_flux_density')}


def sphere_body(kind, where):
    cls, ks, kb, fE, fJ = SP[kind]

    def body(h):
        st = h.mod('geoana.em.static')
        l, d, F = h.vec('l'), h.vec('d'), h.vec('F')
        R, s1, s0 = h.pos('R'), h.pos('s1'), h.pos('s0')
        r2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
        h.assume({'out': 'gt', 'in': 'lt', 'on': 'eq'}[where], r2, R * R)
        o = getattr(st, cls)(R, s1, s0, primary_field=F, location=l)
        x = l + d
        for nm, f in (('V', 'potential'), ('E', fE), ('J', fJ)):
            allf = getattr(o, f)(x)
            for i, k in enumerate(('t', 'p', 's')):
                h.put(nm + k, allf[i])
            for k, w in (('t', 'total'), ('p', 'primary'), ('s', 'secondary')):
                h.put(nm + k + '1', getattr(o, f)(x, field=w))
        h.put('F', F)
        h.put('d', d)
        if kind == 'e':
            h.put('q', o.charge_density(x))
            h.put('q2', o.charge_density(x, dr=h.pos('dr')))
    return body


def sphere_laws(kind, where):
    def laws(h):
        F, d, R, s1, s0 = h.q('F'), h.q('d'), h.pos('R'), h.pos('s1'), h.pos('s0')
        s = s0 if where == 'out' else s1
        for k in ('t', 'p', 's'):
            for nm in 'VEJ':
                h.eq(f'named selection ({nm}{k})', h.q(nm + k + '1'), h.q(nm + k))
        h.eq('total is primary plus secondary', h.q('Vt'), h.q('Vp') + h.q('Vs'))
        h.eq('primary potential', h.q('Vp'), -(F[0] * d[0] + F[1] * d[1] + F[2] * d[2]))
        for i in range(3):
            h.eq('total is primary plus secondary', h.q('Et')[i], h.q('Ep')[i] + h.q('Es')[i])
            h.eq('total is primary plus secondary', h.q('Jt')[i], h.q('Jp')[i] + h.q('Js')[i])
            h.eq('primary field is uniform', h.q('Ep')[i], F[i])
            h.eq('primary current', h.q('Jp')[i], s0 * F[i])
            h.eq('constitutive law', h.q('Jt')[i], s * h.q('Et')[i])
            if where != 'on':
                for k in ('t', 'p', 's'):
                    h.zero(f'field is minus the gradient of the potential ({k})', [h.q('E' + k)[i], h.d('V' + k, DS[i])])
        if where != 'on':
            h.zero('total current is solenoidal', div_terms(h, 'Jt', DS))
            h.zero('field is solenoidal', div_terms(h, 'Et', DS))
    return laws


SB = 'one point; every location, radius > 0, contrast, uniform primary field; point '
for kind in 'em':
    for where in ('out', 'in', 'on'):
        case('C13', f'{kind}_{where}', laws=sphere_laws(kind, where), bounds=SB + {'out': 'strictly outside', 'in': 'strictly inside, centre included',
                                                                                      'on': 'exactly on the surface'}[where])(sphere_body(kind, where))


def edge_body(kind):
    """boundary conditions: both solutions are homogeneous in the distance (interior potential ~ r, secondary
    exterior potential ~ r^-2), so a point t d inside and a point k d outside determine the two limits at d."""
    cls, ks, kb, fE, fJ = SP[kind]

    def body(h):
        st = h.mod('geoana.em.static')
        l, d, F = h.vec('l'), h.vec('d'), h.vec('F')
        s1, s0, k = h.pos('s1'), h.pos('s0'), h.pos('k')
        h.assume('gt', k, 1)
        t = h.pos('t')
        h.assume('lt', t, 1)
        R2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
        h.assume('gt', R2, 0)
        R = h.norm(d)
        o = getattr(st, cls)(R, s1, s0, primary_field=F, location=l)
        h.put('Vi', o.potential(l + t * d, field='total'))
        h.put('Ei', getattr(o, fE)(l + t * d, field='total'))
        h.put('Vk', o.potential(l + k * d, field='secondary'))
        h.put('Ek', getattr(o, fE)(l + k * d, field='secondary'))
        h.put('Vp', o.potential(l + d, field='primary'))
        h.put('F', F)
        h.put('d', d)
    return body


def edge_laws2(h):
    k, n, s1, s0 = h.pos('k'), h.q('d'), h.pos('s1'), h.pos('s0')
    # the secondary field of a dipole decays as k^-3 (potential k^-2)
    Vo = h.q('Vp') + h.q('Vk') * k * k
    h.eq('potential continuous', h.q('Vi'), Vo * h.pos('t'))
    Eo = [h.q('F')[i] + h.q('Ek')[i] * k * k * k for i in range(3)]
    Ei = h.q('Ei')
    h.eq('normal flux continuous', s1 * sum(Ei[i] * n[i] for i in range(3)), s0 * sum(Eo[i] * n[i] for i in range(3)))
    for i, j, m in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        h.eq('tangential field continuous', Ei[j] * n[m] - Ei[m] * n[j], Eo[j] * n[m] - Eo[m] * n[j])


for kind in 'em':
    case('C13', f'{kind}_interface', laws=edge_laws2, bounds=SB + 'any interior and any exterior point on the same ray')(edge_body(kind))


def charge_laws(h):
    R, s1, s0, F, n = h.pos('R'), h.pos('s1'), h.pos('s0'), h.vec('F'), h.q('n')
    eps = __import__('scipy.constants').constants.epsilon_0
    Fn = sum(F[i] * n[i] for i in range(3))
    h.eq('surface charge is the jump of the normal field', h.q('q') * (s1 + 2 * s0), 3 * eps * (s1 - s0) * Fn)
    h.eq('surface charge is the jump of the normal field (thickness given)', h.q('q2'), h.q('q'))
    h.eq('no charge away from the surface', h.q('far'), 0)
    h.eq('no charge away from the surface', h.q('near'), 0)
    for k in ('above', 'below', 'default above', 'default below'):
        h.eq(f'charge within the buffer ({k})', h.q('charged ' + k), h.q('q'))
        h.eq(f'no charge beyond the buffer ({k})', h.q('bare ' + k), 0)


@case('C13', 'surface_charge', laws=charge_laws, bounds='surface points in direction (2,-1,2)/3; points more than the thickness away')
def charge(h):
    st = h.mod('geoana.em.static')
    l, F = h.vec('l'), h.vec('F')
    R, s1, s0 = h.pos('R'), h.pos('s1'), h.pos('s0')
    n = h.arr([h.const(2) / 3, -h.const(1) / 3, h.const(2) / 3])
    o = st.ElectrostaticSphere(R, s1, s0, primary_field=F, location=l)
    dr, t = h.pos('dr'), h.pos('t')
    h.assume('lt', dr, R)
    h.put('n', n)
    h.put('q', o.charge_density(l + R * n))
    h.put('q2', o.charge_density(l + R * n, dr=dr))
    h.put('far', o.charge_density(l + (R + dr + t) * n, dr=dr))
    h.put('near', o.charge_density(l + (R - dr) * t / (1 + t) * n, dr=dr))
    s, b = h.real('s', 0, '99/100'), h.real('b', '101/100', '3/2')
    for k, w in (('above', 1), ('below', -1)):
        h.put('charged ' + k, o.charge_density(l + (R + w * s * dr / 2) * n, dr=dr))
        h.put('bare ' + k, o.charge_density(l + (R + w * b * dr / 2) * n, dr=dr))
        h.put('charged default ' + k, o.charge_density(l + (R + w * s * R / 40) * n))
        h.put('bare default ' + k, o.charge_density(l + (R + w * b * R / 40) * n))
