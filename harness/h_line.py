"""C11 line and point currents in a whole space."""
from engine.case import case, curl_terms, div_terms, CASES

XS = ['d0', 'd1', 'd2']
DIRS = {'x': (1, 0, 0), 'mx': (-1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1), 'mz': (0, 0, -1), 'q': (2, -1, 2), 'w': (-3, 0, 4), 'n': (-2, -2, -1)}
SEG = 'one observation point off the wire line; every start point, offset, segment length, current, conductivity > 0 and permeability > 0'


def offline(h, d, u):
    c = [u[1] * d[2] - u[2] * d[1], u[2] * d[0] - u[0] * d[2], u[0] * d[1] - u[1] * d[0]]
    h.assume('gt', c[0] * c[0] + c[1] * c[1] + c[2] * c[2], 0)


def seg_laws(h):
    B, H, E, J, mu, sg = h.q('B'), h.q('H'), h.q('E'), h.q('J'), h.pos('mu'), h.pos('sigma')
    for i, t in enumerate(curl_terms(h, 'A', XS)):
        h.zero('flux density is the curl of the vector potential', [t[0], -t[1], -B[i]])
    h.zero('flux density is solenoidal', div_terms(h, 'B', XS))
    for i, t in enumerate(curl_terms(h, 'H', XS)):
        h.zero('curl of the field is the current density', [t[0], -t[1], -J[i]])
    h.zero('current density is solenoidal', div_terms(h, 'J', XS))
    for i in range(3):
        h.zero('electric field is minus the gradient of the potential', [E[i], h.d('V', XS[i])])
        h.eq('current density is sigma times electric field', J[i], sg * E[i])
        h.eq('flux density is mu times field', B[i], mu * H[i])
    h.finite('finite off the wire', [h.q('A'), B, E, h.q('V')])


def put_all(h, o, x):
    h.put('A', o.vector_potential(x))
    h.put('B', o.magnetic_flux_density(x))
    h.put('H', o.magnetic_field(x))
    h.put('V', o.scalar_potential(x))
    h.put('E', o.electric_field(x))
    h.put('J', o.current_density(x))


for nm, tier in (('x', 'quick'), ('mx', 'quick'), ('y', 'quick'), ('z', 'quick'), ('mz', 'thorough'), ('q', 'quick'), ('w', 'thorough'), ('n', 'thorough')):
    def body(h, nm=nm):
        st = h.mod('geoana.em.static')
        p, d, s = h.vec('p'), h.vec('d'), h.pos('s')
        u = h.arr(list(DIRS[nm]))
        offline(h, d, DIRS[nm])
        o = st.LineCurrentWholeSpace(nodes=h.arr([p, p + s * u]), current=h.real('cur'), sigma=h.pos('sigma'), mu=h.pos('mu'))
        put_all(h, o, p + d)
    case('C11', f'segment_{nm}', laws=seg_laws, tier=tier, cost=3, bounds=SEG + f'; segment direction {DIRS[nm]}')(body)


def point_laws(h):
    E, J, sg = h.q('E'), h.q('J'), h.pos('rho')
    h.zero('current density is solenoidal', div_terms(h, 'J', XS))
    d = [h.real(x) for x in XS]
    r = h.norm(d)
    for i in range(3):
        h.zero('electric field is minus the gradient of the potential', [E[i], h.d('V', XS[i])])
        h.eq('electric field is rho times current density', E[i], h.pos('rho') * J[i])
        h.eq('current leaves the source isotropically', J[i] * 4 * h.pi * r * r * r, h.real('cur') * d[i])
        h.eq('moved source', h.q('E2')[i], E[i])
    h.eq('moved source', h.q('V2'), h.q('V'))
    h.eq('scalar potential alias', h.q('V3'), h.q('V'))
    h.finite('finite away from the source', [h.q('V'), E])


@case('C11', 'point_current', laws=point_laws, bounds='one point; every source location, current, resistivity > 0')
def point(h):
    st = h.mod('geoana.em.static')
    l, d, k = h.vec('l'), h.vec('d'), h.vec('k')
    h.assume('gt', d[0] * d[0] + d[1] * d[1] + d[2] * d[2], 0)
    o = st.PointCurrentWholeSpace(h.pos('rho'), current=h.real('cur'), location=l)
    h.put('V', o.potential(l + d))
    h.put('V3', o.scalar_potential(l + d))
    h.put('E', o.electric_field(l + d))
    h.put('J', o.current_density(l + d))
    o.location = k
    h.put('V2', o.potential(k + d))
    h.put('E2', o.electric_field(k + d))


QS = ('vector_potential', 'magnetic_flux_density', 'magnetic_field', 'scalar_potential', 'electric_field', 'current_density')


def mk(h, nodes):
    st = h.mod('geoana.em.static')
    return st.LineCurrentWholeSpace(nodes=h.arr(nodes), current=h.real('cur'), sigma=h.pos('sigma'), mu=h.pos('mu'))


def add_laws(h):
    for q in QS:
        h.eq(f'{q}: segments add up', h.q(q + '_all'), h.q(q + '_1') + h.q(q + '_2'))
        h.eq(f'{q}: reversal changes the sign', h.q(q + '_rev'), -h.q(q + '_all'))


@case('C11', 'polyline', laws=add_laws, bounds='three nodes along x then y; every start point, lengths, point off the wire lines')
def poly(h):
    p, d, s, t = h.vec('p'), h.vec('d'), h.pos('s'), h.pos('t')
    offline(h, d, (1, 0, 0))
    offline(h, [d[0] - s, d[1], d[2]], (0, 1, 0))
    n = [p, p + h.arr([s, 0, 0]), p + h.arr([s, t, 0])]
    o, a, b, r = mk(h, n), mk(h, n[:2]), mk(h, n[1:]), mk(h, n[::-1])
    for q in QS:
        h.put(q + '_all', getattr(o, q)(p + d))
        h.put(q + '_1', getattr(a, q)(p + d))
        h.put(q + '_2', getattr(b, q)(p + d))
        h.put(q + '_rev', getattr(r, q)(p + d))


def split_laws(h):
    for q in QS:
        h.eq(f'{q}: splitting a segment changes nothing', h.q(q + '_s'), h.q(q + '_w'))


@case('C11', 'split_segment', laws=split_laws, bounds='segment along (2,-1,2) split at any interior point; point off the wire line', cost=3)
def split(h):
    p, d, s, t = h.vec('p'), h.vec('d'), h.pos('s'), h.pos('t')
    u = h.arr([2, -1, 2])
    offline(h, d, (2, -1, 2))
    w, v = mk(h, [p, p + (s + t) * u]), mk(h, [p, p + s * u, p + (s + t) * u])
    for q in QS:
        h.put(q + '_w', getattr(w, q)(p + d))
        h.put(q + '_s', getattr(v, q)(p + d))


def closed_laws(h):
    for i in range(3):
        h.eq('no electric field', h.q('E')[i], 0)
        h.eq('no current', h.q('J')[i], 0)
    h.eq('no potential', h.q('V'), 0)
    B = h.q('B')
    for i, t in enumerate(curl_terms(h, 'A', XS)):
        h.zero('flux density is the curl of the vector potential', [t[0], -t[1], -B[i]])
    for i, t in enumerate(curl_terms(h, 'B', XS)):
        h.zero('closed loop field is curl free off the wire', [t[0], -t[1]])
    h.zero('flux density is solenoidal', div_terms(h, 'B', XS))


@case('C11', 'closed_square_quadrant', laws=closed_laws, cost=8,
      bounds='closed rectangle in the xy plane, any position and side lengths; point beyond one corner in x and y, any height')
def closed_q(h):
    p, d, s, t = h.vec('p'), h.vec('d'), h.pos('s'), h.pos('t')
    h.assume('gt', d[0], s)
    h.assume('gt', d[1], t)
    o = mk(h, [p, p + h.arr([s, 0, 0]), p + h.arr([s, t, 0]), p + h.arr([0, t, 0]), p])
    put_all(h, o, p + d)


@case('C11', 'closed_square', laws=closed_laws, tier='thorough', cost=8,
      bounds='closed rectangle in the xy plane, any position and side lengths; point off the four wire lines')
def closed(h):
    p, d, s, t = h.vec('p'), h.vec('d'), h.pos('s'), h.pos('t')
    z2 = d[2] * d[2]
    for e in (d[1], d[0] - s, d[1] - t, d[0]):
        h.assume('gt', e * e + z2, 0)
    o = mk(h, [p, p + h.arr([s, 0, 0]), p + h.arr([s, t, 0]), p + h.arr([0, t, 0]), p])
    put_all(h, o, p + d)


def inline_laws(h):
    for i in range(3):
        h.eq('a segment has no flux density in line with itself', h.q('B0')[i], 0, scale=(1.0,))
        h.eq('flux density: segments add up', h.q('B2')[i], h.q('B1')[i])
        h.eq('vector potential: segments add up', h.q('A2')[i], h.q('A0')[i] + h.q('A1')[i])
        h.eq('flux density is mu times field', h.q('B2')[i], h.pos('mu') * h.q('H2')[i])
    h.finite('finite off the wire', [h.q('A2'), h.q('B2'), h.q('E2'), h.q('V2')])


SIDE = {'x': (0, 1, 0), 'mx': (0, 0, 1), 'y': (0, 0, -1), 'z': (1, 0, 0), 'mz': (0, 1, 0), 'q': (1, 2, 0)}
for nm in SIDE:
    for end in ('before', 'beyond'):
        def body(h, nm=nm, end=end):
            p, s, t, w = h.vec('p'), h.pos('s'), h.pos('t'), h.pos('w')
            u, v = h.arr(list(DIRS[nm])), h.arr(list(SIDE[nm]))
            n = [p, p + s * u, p + s * u + w * v]
            x = p - t * u if end == 'before' else p + (s + t) * u
            a, b, o = mk(h, n[:2]), mk(h, n[1:]), mk(h, n)
            h.put('B0', a.magnetic_flux_density(x))
            h.put('A0', a.vector_potential(x))
            h.put('B1', b.magnetic_flux_density(x))
            h.put('A1', b.vector_potential(x))
            h.put('B2', o.magnetic_flux_density(x))
            h.put('H2', o.magnetic_field(x))
            h.put('A2', o.vector_potential(x))
            h.put('V2', o.scalar_potential(x))
            h.put('E2', o.electric_field(x))
        case('C11', f'in_line_{nm}_{end}', laws=inline_laws, tier='quick' if nm in ('x', 'z', 'q') else 'thorough',
             bounds=f'wire of two segments along {DIRS[nm]} and {SIDE[nm]}; a point in line with the first, {end} it; every start point, lengths and distance')(body)


PLANES = {'xy': lambda c, s: (c, s, 0), 'yz': lambda c, s: (0, c, s), 'xz': lambda c, s: (-c, 0, s)}
for pl in ('xy', 'yz', 'xz'):
    for sg in (1, -1):
        def body(h, pl=pl, sg=sg):
            st = h.mod('geoana.em.static')
            p, d, s, a = h.vec('p'), h.vec('d'), h.pos('s'), h.real('a', '1/10', 5)
            # every direction (1 - a^2, 2 a) in the plane, away from the reference direction by more than the tolerance of the rotation
            u = PLANES[pl](1 - a * a, sg * 2 * a)
            offline(h, d, u)
            o = st.LineCurrentWholeSpace(nodes=h.arr([p, p + s * h.arr(list(u))]), current=h.real('cur'), sigma=h.pos('sigma'), mu=h.pos('mu'))
            put_all(h, o, p + d)
        case('C11', f'direction_{pl}_{"up" if sg > 0 else "down"}', laws=seg_laws, cost=9, tier='quick' if (pl, sg) in (('xy', 1), ('yz', -1)) else 'thorough',
             bounds=SEG + f'; every segment direction in the {pl} half plane between 11 and 157 degrees from its axis')(body)
