"""C05 prism kernels (antiderivative relations), C06 compiled = numpy kernels,
C07 gravity prism, C08 magnetic prism."""
from engine.case import case, div_terms, curl_terms, CASES

KN = ('prism_f', 'prism_fz', 'prism_fzz', 'prism_fzx', 'prism_fzy', 'prism_fzzz', 'prism_fxxy', 'prism_fxxz', 'prism_fxyz')
XS = ['x', 'y', 'z']


def equal_laws(h):
    for k in KN:
        h.eq(f'{k}: compiled equals the numpy version', h.q('c_' + k), h.q('p_' + k))


def equal_body(h, x, y, z):
    c = h.mod('geoana.kernels._extensions.potential_field_prism')
    p = h.mod('geoana.kernels.potential_field_prism')
    a = [h.arr([v]) for v in (x, y, z)]
    for k in KN:
        h.put('c_' + k, getattr(c, k)(*a))
        h.put('p_' + k, getattr(p, '_' + k)(*a))


@case('C06', 'prism_kernels', laws=equal_laws, native='potential_field_prism', max_paths=4000,
      bounds='one node; every real x, y, z, including zeros, axes and coordinate planes')
def eqk(h):
    equal_body(h, h.real('x'), h.real('y'), h.real('z'))


# ------------------------------------------------------------------ C05 kernel relations
NAT = dict(native='potential_field_prism', by_parts=True)
BOX = 'one box, given by its lower and upper corner relative to the observation point, none of the six offsets zero'


def box(h, f, a, b, cyc=0):
    tot = 0
    for i in (0, 1):
        for j in (0, 1):
            for k in (0, 1):
                c = [(a, b)[i][0], (a, b)[j][1], (a, b)[k][2]]
                c = c[cyc:] + c[:cyc]
                v = f(*c)
                tot = tot + v if (i + j + k) % 2 else tot - v
    return tot


def corners(h, nonzero=True):
    a, b = h.vec('a'), h.vec('b')
    for i in range(3):
        h.assume('lt', a[i], b[i])
        if nonzero:
            h.assume('ne', a[i], 0)
            h.assume('ne', b[i], 0)
    return a, b


def dd(h, name, i):
    """derivative with respect to the observation point, the box being fixed."""
    return -(h.d(name, f'a{i}') + h.d(name, f'b{i}'))


def kern_laws(h):
    for i, k in enumerate(('fz1', 'fz2', 'fz')):
        h.eq('first derivatives of the potential kernel', dd(h, 'f', i), h.q(k))


@case('C05', 'first', laws=kern_laws, bounds=BOX, **NAT)
def kern1(h):
    a, b = corners(h)
    m = h.mod('geoana.kernels')
    h.put('f', box(h, m.prism_f, a, b))
    for c in (0, 1, 2):
        h.put('fz' + (str(c) if c else ''), box(h, m.prism_fz, a, b, c))


def kern2_laws(h):
    h.eq('zz', dd(h, 'fz', 2), h.q('fzz'))
    h.eq('zx', dd(h, 'fz', 0), h.q('fzx'))
    h.eq('zy', dd(h, 'fz', 1), h.q('fzy'))


@case('C05', 'second', laws=kern2_laws, bounds=BOX, **NAT)
def kern2(h):
    a, b = corners(h)
    m = h.mod('geoana.kernels')
    for k in ('fz', 'fzz', 'fzx', 'fzy'):
        h.put(k, box(h, getattr(m, 'prism_' + k), a, b))


def kern3_laws(h):
    h.eq('zzz', dd(h, 'fzz', 2), h.q('fzzz'))
    h.eq('xxy', dd(h, 'fxx', 1), h.q('fxxy'))
    h.eq('xxz', dd(h, 'fxx', 2), h.q('fxxz'))
    h.eq('xyz', dd(h, 'fzx', 1), h.q('fxyz'))


@case('C05', 'third', laws=kern3_laws, bounds=BOX, **NAT)
def kern3(h):
    a, b = corners(h)
    m = h.mod('geoana.kernels')
    for k in ('fzz', 'fzx', 'fzzz', 'fxxy', 'fxxz', 'fxyz'):
        h.put(k, box(h, getattr(m, 'prism_' + k), a, b))
    h.put('fxx', box(h, m.prism_fzz, a, b, 1))


# ------------------------------------------------------------------ C07 gravity prism
AX = 'xyz'
# zone: per axis, 'i' box spans the point, 'p' box at larger coordinates, 'm' box at smaller coordinates,
#       '0' lower face plane through the point, '1' upper face plane through the point


def zone_box(h, zone):
    """box corners relative to the observation point; returns (a, b, free axes)."""
    a, b = [], []
    for i, z in enumerate(zone):
        if z == 'i':
            u, v = -h.pos(f'a{i}'), h.pos(f'b{i}')
        elif z == 'p':
            u = h.pos(f'a{i}')
            v = h.pos(f'b{i}')
            h.assume('lt', u, v)
        elif z == 'm':
            u, v = -h.pos(f'a{i}'), -h.pos(f'b{i}')
            h.assume('lt', h.pos(f'b{i}'), h.pos(f'a{i}'))
        elif z == '0':
            u, v = 0, h.pos(f'b{i}')
        elif z == '1':
            u, v = -h.pos(f'a{i}'), 0
        else:
            u, v = h.real(f'a{i}'), h.real(f'b{i}')
            h.assume('lt', u, v)
            h.assume('ne', u, 0)
            h.assume('ne', v, 0)
        a.append(u)
        b.append(v)
    return h.arr(a), h.arr(b)


SGN = {'i': (-1, 1), 'p': (1, 1), 'm': (-1, -1), 'g': (1, 1)}


def dobs(h, name, zone, i):
    """derivative along axis i with respect to the observation point (box fixed)."""
    sa, sb = SGN[zone[i]]
    return -(sa * h.d(name, f'a{i}') + sb * h.d(name, f'b{i}'))


def free_axes(zone):
    return [i for i in range(3) if zone[i] in SGN]


def grav_body(zone, parts):
    def body(h):
        gr = h.mod('geoana.gravity')
        p = h.vec('p')
        a, b = zone_box(h, zone)
        o = gr.Prism(p + a, p + b, rho=h.real('rho'))
        x = h.arr([p, p + h.arr([0, 0, 0])])
        if 'u' in parts:
            h.put('u', o.gravitational_potential(x)[1])
        if 'g' in parts:
            h.put('g', o.gravitational_field(x)[1])
        if 't' in parts:
            h.put('t', o.gravitational_gradient(x)[1])
        h.put('m', o.mass)
        h.put('vol', o.volume)
        h.put('c', o.location)
        h.put('ab', h.arr([a, b]))
        h.put('p', p)
    return body


def grav_ug(zone):
    def laws(h):
        for i in free_axes(zone):
            h.eq('field is the gradient of the potential', dobs(h, 'u', zone, i), h.q('g')[i])
    return laws


def grav_gt(zone):
    def laws(h):
        t = h.q('t')
        for i in free_axes(zone):
            for j in range(3):
                h.eq('gradient tensor is the Jacobian of the field', dobs(h, 'g', zone, i)[j], t[i, j])
        for i in range(3):
            for j in range(i):
                h.eq('gradient tensor is symmetric', t[i, j], t[j, i])
        a, b = h.q('ab')[0], h.q('ab')[1]
        v = (b[0] - a[0]) * (b[1] - a[1]) * (b[2] - a[2])
        h.eq('volume', h.q('vol'), v)
        h.eq('mass is volume times density', h.q('m'), v * h.real('rho'))
        for i in range(3):
            h.eq('centre', 2 * h.q('c')[i], 2 * h.q('p')[i] + a[i] + b[i])
    return laws


def grav_trace(zone):
    def laws(h):
        t = h.q('t')
        G = __import__('scipy.constants').constants.G
        if zone == 'iii':
            h.eq('Poisson equation inside', t[0, 0] + t[1, 1] + t[2, 2], -4 * h.pi * G * h.real('rho'))
        else:
            h.eq('Laplace equation outside', t[0, 0] + t[1, 1] + t[2, 2], 0, scale=(t[0, 0],))
    return laws


ZB = 'one box, two observation points, any position and density; zone per axis (x,y,z): i inside the span, p/m box above/below the ' \
     'point, 0/1 lower/upper face plane exactly through the point, g any non-zero offsets: '
for z in ('ggg', '0gg', 'g1g', 'gg0', '1pg', 'm0g', '00m', '0m1', 'p11', 'm00', '01p', '1p0'):
    case('C07', f'field_{z}', laws=grav_ug(z), bounds=ZB + z, tier='quick' if z != 'x' else 'thorough', **NAT)(grav_body(z, 'ug'))
for z in ('ggg', '0gg', 'g1g', 'gg0', '1pg', 'm0g', '00m', '0m1', 'p11', 'm00', '01p', '1p0'):
    case('C07', f'gradient_{z}', laws=grav_gt(z), bounds=ZB + z, tier='quick', **NAT)(grav_body(z, 'gt'))
_z = [x + y + w for x in 'ipm' for y in 'ipm' for w in 'ipm']
for z in _z:
    case('C07', f'trace_{z}', laws=grav_trace(z), bounds=ZB + z, tier='quick' if z in ('iii', 'pii', 'imi', 'iip', 'pmi', 'mip', 'ppp', 'mpm')
         else 'thorough', **NAT)(grav_body(z, 't'))


def add_laws(h):
    for k in 'ugt':
        h.eq(f'masses add ({k})', h.q('w' + k), h.q('s' + k))
        h.eq(f'proportional to the density ({k})', h.q('w' + k) * 3, h.q('r' + k))
    h.eq('mass adds', h.q('wm'), h.q('sm'))


@case('C07', 'splitting', laws=add_laws, bounds='one box split at any interior plane of each axis in turn; any observation point off the planes', **NAT)
def split(h):
    gr = h.mod('geoana.gravity')
    p = h.vec('p')
    a, b = zone_box(h, 'ggg')
    rho = h.real('rho')
    t = h.pos('t')
    h.assume('lt', t, 1)
    F = ('gravitational_potential', 'gravitational_field', 'gravitational_gradient')
    o = gr.Prism(p + a, p + b, rho=rho)
    o3 = gr.Prism(p + a, p + b, rho=3 * rho)
    for k, f in zip('ugt', F):
        h.put('w' + k, getattr(o, f)(p))
        h.put('r' + k, getattr(o3, f)(p))
    h.put('wm', o.mass)
    ax = 1
    c = a[ax] + t * (b[ax] - a[ax])
    h.assume('ne', c, 0)
    b1 = h.arr([b[0], c, b[2]])
    a2 = h.arr([a[0], c, a[2]])
    o1, o2 = gr.Prism(p + a, p + b1, rho=rho), gr.Prism(p + a2, p + b, rho=rho)
    for k, f in zip('ugt', F):
        h.put('s' + k, getattr(o1, f)(p) + getattr(o2, f)(p))
    h.put('sm', o1.mass + o2.mass)


# ------------------------------------------------------------------ C08 magnetic prism
def mag_body(zone, parts):
    def body(h):
        fs = h.mod('geoana.em.static')
        p, M = h.vec('p'), h.vec('M')
        a, b = zone_box(h, zone)
        o = fs.MagneticPrism(p + a, p + b, magnetization=M)
        x = h.arr([p, p + h.arr([0, 0, 0])])
        if 'v' in parts:
            h.put('v', o.scalar_potential(x)[1])
        if 'h' in parts:
            h.put('H', o.magnetic_field(x)[1])
        if 'b' in parts:
            h.put('B', o.magnetic_flux_density(x)[1])
        if 't' in parts:
            h.put('t', o.magnetic_field_gradient(x)[1])
        if 'p' in parts:
            q = h.mod('geoana.gravity').Prism(p + a, p + b, rho=h.pos('rho'))
            h.put('g', q.gravitational_field(x)[1])
            h.put('gg', q.gravitational_gradient(x)[1])
        h.put('mom', o.moment)
        h.put('vol', o.volume)
        h.put('Mv', M)
    return body


def mag_vh(zone):
    def laws(h):
        for i in free_axes(zone):
            h.eq('field is minus the gradient of the potential', -dobs(h, 'v', zone, i), h.q('H')[i])
        for i in range(3):
            h.eq('moment is volume times magnetization', h.q('mom')[i], h.q('vol') * h.q('Mv')[i])
    return laws


def mag_ht(zone):
    def laws(h):
        t = h.q('t')
        for i in free_axes(zone):
            for j in range(3):
                h.eq('gradient tensor is the Jacobian of the field', dobs(h, 'H', zone, i)[j], t[i, j])
        for i in range(3):
            for j in range(i):
                h.eq('gradient tensor is symmetric', t[i, j], t[j, i])
        h.eq('gradient tensor is trace free', t[0, 0] + t[1, 1] + t[2, 2], 0, scale=(t[0, 0],))
    return laws


def mag_b(zone):
    def laws(h):
        mu0 = __import__('scipy.constants').constants.mu_0
        ins = all(z in 'i01' for z in zone)
        for i in range(3):
            h.eq('flux density is mu0 (H + M) inside, mu0 H outside', h.q('B')[i], mu0 * (h.q('H')[i] + (h.q('Mv')[i] if ins else 0)))
    return laws


def mag_poisson(zone):
    def laws(h):
        G = __import__('scipy.constants').constants.G
        k = 4 * h.pi * G * h.pos('rho')
        g, T, M = h.q('g'), h.q('gg'), h.q('Mv')
        h.eq('Poisson relation with gravity: potential', h.q('v') * k, -(M[0] * g[0] + M[1] * g[1] + M[2] * g[2]))
        for i in range(3):
            h.eq('Poisson relation with gravity: field', h.q('H')[i] * k, M[0] * T[i, 0] + M[1] * T[i, 1] + M[2] * T[i, 2])
    return laws


for z in ('ggg', '0gg', 'g1g', 'gg0', '1pg', 'm0g', '00m', '0m1', 'p11', 'm00', '01p', '1p0'):
    case('C08', f'field_{z}', laws=mag_vh(z), bounds=ZB + z + '; any magnetization', **NAT)(mag_body(z, 'vh'))
    case('C08', f'gradient_{z}', laws=mag_ht(z), bounds=ZB + z + '; any magnetization', **NAT)(mag_body(z, 'ht'))
for z in ('iii', 'pii', 'imi', 'iip', 'ppp', 'mpm', 'ii0', '1ii', 'p0i', '0ip', '010', 'i0m', 'mii', 'ipi', 'iim'):
    case('C08', f'flux_{z}', laws=mag_b(z), bounds=ZB + z + '; any magnetization', **NAT)(mag_body(z, 'bh'))
for z in ('iii', 'mpi', '0gg', '1m0'):
    case('C08', f'poisson_{z}', laws=mag_poisson(z), bounds=ZB + z + '; any magnetization', **NAT)(mag_body(z, 'vhp'))
