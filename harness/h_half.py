"""C18 harmonic dipoles and loops on a half-space."""
from engine.case import case

HB = 'source and receiver on the surface, one frequency > 0, every location, offset, moment and conductivity > 0; '


def off(h, *n):
    x, y = h.real(n[0]), h.real(n[1])
    h.assume('gt', x * x + y * y, 0)
    return x, y


def make(h, o, f=None, l=None, qs=True, **kw):
    fd = h.mod('geoana.em.fdem')
    return fd.MagneticDipoleHalfSpace((h.pos('f') * 100000) if f is None else f, sigma=h.pos('s'), location=h.arr([h.real('l0'), h.real('l1'), 0]) if l is None else l,
                                      orientation=o, moment=h.real('m'), quasistatic=qs, **kw)


def orient(h, o):
    if o == 'any':
        v = h.vec('o')
        for i in range(3):
            h.assume('ne', v[i], 0)
        n = h.norm(v)
        return v, [v[i] / n for i in range(3)]
    return o, {'X': [1, 0, 0], 'y': [0, 1, 0], 'Z': [0, 0, 1]}[o]


def laws(h):
    x, y = h.real('x'), h.real('y')
    r2 = x * x + y * y
    r = h.sqrt(r2)
    u, m = h.q('u'), h.real('m')
    md = u[0] * x + u[1] * y
    T, S = h.q('T'), h.q('S')
    for i in range(3):
        prim = m / (4 * h.pi) * (3 * md * [x, y, 0][i] / (r2 * r2 * r) - u[i] / (r2 * r))
        h.eq('total minus secondary is the free-space dipole', T[i] - S[i], prim, scale=(T[i],))
        h.eq('secondary is the default', h.q('D')[i], S[i])
        # reversing the source reverses the field
        h.eq('odd in the source direction', h.q('N')[i], -T[i], scale=(T[i],))
        # superposition over the axes
        h.eq('superposition of axis-aligned sources', T[i], sum(u[j] * h.q(f'a{j}')[i] for j in range(3)), scale=(h.q('a2')[i], h.q('a0')[i]))
    # no vertical current in the air: the horizontal field on the surface is curl free
    h.zero('no current enters the air', [h.d('T', 'x')[1], -h.d('T', 'y')[0]])
    h.zero('no current enters the air (secondary)', [h.d('S', 'x')[1], -h.d('S', 'y')[0]])
    # mirror image about the vertical plane through x, and quarter turn
    h.eq('reciprocity', h.q('rec'), h.q('dir'))
    h.eq('reciprocity (secondary)', h.q('recS'), h.q('dirS'))


def body(o, qs):
    def b(h):
        x, y = off(h, 'x', 'y')
        ov, u = orient(h, o)
        h.store['u'] = u
        l = h.arr([h.real('l0'), h.real('l1'), 0])
        P = h.arr([l[0] + x, l[1] + y])
        s = make(h, ov, qs=qs)
        h.put('T', s.magnetic_field(P, field='total'))
        h.put('S', s.magnetic_field(P, field='secondary'))
        h.put('D', s.magnetic_field(P))
        h.put('N', make(h, h.arr([-u[i] for i in range(3)]), qs=qs).magnetic_field(P, field='total'))
        for j in range(3):
            h.put(f'a{j}', make(h, 'XyZ'[j], qs=qs).magnetic_field(P, field='total'))
        q = h.arr([2, -1, 2])
        r = make(h, q, l=h.arr([P[0], P[1], 0]), qs=qs)
        Q = h.arr([l[0], l[1]])
        for n, f in (('', 'total'), ('S', 'secondary')):
            R = r.magnetic_field(Q, field=f)
            h.put('rec' + n, sum(R[i] * u[i] for i in range(3)))
            F = h.q('T' if n == '' else 'S')
            h.put('dir' + n, (F[0] * 2 - F[1] + F[2] * 2) / 3)
    return b


for o in ('any', 'X', 'y', 'Z'):
    for qs in (True, False):
        case('C18', f'dipole_{o}_{"quasistatic" if qs else "full"}', laws=laws, tier='quick' if qs or o == 'Z' else 'thorough',
             bounds=HB + f'orientation {o} (components not zero for "any"), quasistatic={qs}')(body(o, qs))


def sym_laws(h):
    c, s = h.q('c'), h.q('s')
    for n in ('T', 'S'):
        F, G = h.q(n), h.q(n + 'r')
        h.eq('rotation about the vertical axis', G[0], c * F[0] - s * F[1], scale=(F[0], F[1]))
        h.eq('rotation about the vertical axis', G[1], s * F[0] + c * F[1], scale=(F[0], F[1]))
        h.eq('rotation about the vertical axis', G[2], F[2])
        M = h.q(n + 'm')
        h.eq('mirror symmetry', M[0], F[0], scale=(F[0], F[1]))
        h.eq('mirror symmetry', M[1], -F[1], scale=(F[0], F[1]))
        h.eq('mirror symmetry', M[2], F[2])


@case('C18', 'symmetry', laws=sym_laws, bounds=HB + 'dipole along (2,-1,2); rotations with tangent half angle 1/2; mirror y -> -y')
def sym(h):
    x, y = off(h, 'x', 'y')
    c, s = h.const(3) / 5, h.const(4) / 5
    l = h.arr([h.real('l0'), h.real('l1'), 0])
    o = [2, -1, 2]
    orr = h.arr([c * 2 + s, s * 2 - c, 2])
    for n, f in (('T', 'total'), ('S', 'secondary')):
        h.put(n, make(h, h.arr(o)).magnetic_field(h.arr([l[0] + x, l[1] + y]), field=f))
        h.put(n + 'r', make(h, orr).magnetic_field(h.arr([l[0] + c * x - s * y, l[1] + s * x + c * y]), field=f))
        h.put(n + 'm', make(h, h.arr([2, 1, 2])).magnetic_field(h.arr([l[0] + x, l[1] - y]), field=f))
    h.store['c'], h.store['s'] = c, s


def tr_laws(h):
    """the secondary field in the air is a potential field of images, so the trace of the secondary tensor vanishes:
    a vertical source's vertical field is the sum of the two horizontal couplings."""
    from scipy.constants import mu_0
    S = [h.q(f'S{j}') for j in range(3)]
    h.eq('vertical coupling is the sum of the horizontal ones', S[2][2], S[0][0] + S[1][1], scale=(S[0][0], S[1][1]))
    for i in range(3):
        for j in range(i):
            h.eq('reciprocal coupling', abs_sign(i, j) * S[i][j], S[j][i], scale=(S[i][j],))
    x, y, m, w = h.real('x'), h.real('y'), h.real('m'), 2 * h.pi * h.pos('f') * 100000
    r = h.sqrt(x * x + y * y)
    k2 = -h.I * w * mu_0 * (h.pos('s') + h.q('ie') * h.I * w)
    a = h.fn('sqrt', k2) * h.I * r / 2
    IK = h.fn('iv', 1, a) * h.fn('kv', 1, a) - h.fn('iv', 2, a) * h.fn('kv', 2, a)
    h.eq('published radial field of a vertical dipole', S[2][0], m * k2 * x / (4 * h.pi * r * r) * IK)


def abs_sign(i, j):
    return -1 if 2 in (i, j) else 1


for qs in (True, False):
    def trb(h, qs=qs):
        x, y = off(h, 'x', 'y')
        kw = {} if qs else dict(epsilon=h.pos('e') / 100000000)
        h.store['ie'] = 0 if qs else h.pos('e') / 100000000
        P = h.arr([h.real('l0') + x, h.real('l1') + y])
        for j in range(3):
            h.put(f'S{j}', make(h, 'XyZ'[j], qs=qs, **kw).magnetic_field(P))
    case('C18', f'coupling_{"quasistatic" if qs else "full"}', laws=tr_laws, rtol=1e-4, bounds=HB + f'axis-aligned sources, quasistatic={qs}')(trb)


def many_laws(h):
    M = h.q('M')
    h.true('shape', tuple(M.shape) == (2, 2, 3), str(M.shape))
    h.true('shape, one frequency', tuple(h.q('f0').shape) == (2, 3), str(h.q('f0').shape))
    h.true('shape, one frequency in an array', tuple(h.q('g0').shape) == (2, 3), str(h.q('g0').shape))
    h.true('shape, one point', tuple(h.q('p0').shape) == (2, 3), str(h.q('p0').shape))
    for i in range(2):
        for j in range(2):
            for c in range(3):
                h.eq('frequencies and points at once', M[i, j, c], h.q(f'M{i}{j}')[c])
                h.eq('three-column points', h.q('M3')[i, j, c], M[i, j, c])
    for j in range(2):
        for c in range(3):
            h.eq('one frequency, several points', h.q('f0')[j, c], h.q(f'M0{j}')[c])
            h.eq('one frequency in an array', h.q('g0')[j, c], h.q(f'M0{j}')[c])
            h.eq('several frequencies, one point', h.q('p0')[j, c], h.q(f'M{j}0')[c])


@case('C18', 'many', laws=many_laws, bounds='two frequencies, two points, dipole along (2,-1,2)')
def many(h):
    x, y = off(h, 'x', 'y')
    u, v = off(h, 'u', 'v')
    l = h.arr([h.real('l0'), h.real('l1'), 0])
    f = [(h.pos('f') * 100000), (h.pos('f1') * 100000)]
    P = [h.arr([l[0] + x, l[1] + y]), h.arr([l[0] + u, l[1] + v])]
    o = h.arr([2, -1, 2])
    both = make(h, o, f=h.arr(f), qs=False)
    h.put('M', both.magnetic_field(h.arr(P)))
    h.put('M3', both.magnetic_field(h.arr([[p[0], p[1], h.real('z')] for p in P])))
    for i in range(2):
        for j in range(2):
            h.put(f'M{i}{j}', make(h, o, f=h.arr([f[i]]), qs=False).magnetic_field(P[j]))
    h.put('f0', make(h, o, f=f[0], qs=False).magnetic_field(h.arr(P)))
    h.put('g0', make(h, o, f=h.arr([f[0]]), qs=False).magnetic_field(h.arr(P)))
    h.put('p0', both.magnetic_field(P[0]))


def loop_laws(h):
    n, c, a, mu = h.pos('n'), h.real('c'), h.pos('a'), h.pos('mu')
    h.eq('total minus secondary is the free-space loop', h.q('T') - h.q('S'), n * c / (2 * a), scale=(h.q('T'),))
    h.eq('secondary is the default', h.q('D'), h.q('S'))
    h.eq('flux density is mu times field', h.q('BT'), mu * h.q('T'))
    h.eq('flux density is mu times field', h.q('BS'), mu * h.q('S'))
    h.eq('flux: secondary is the default', h.q('BD'), h.q('BS'))
    h.eq('proportional to turns and current', h.q('T'), n * c * h.q('T1'))
    for i in range(2):
        h.eq('several frequencies at once', h.q('M')[i], h.q('S' if i == 0 else 'S2'))
    # the dipole is the limit of loops
    from scipy.constants import mu_0
    h.eq('dipole and loop agree', h.q('dz') * 2 * h.pi * n * c * a, h.real('m') * h.d('T0', 'a'))


@case('C18', 'loop', laws=loop_laws, bounds='every frequency, radius, number of turns, conductivity and permeability > 0 and every current')
def loop(h):
    fd = h.mod('geoana.em.fdem')
    f, s, mu, a, n, c = (h.pos('f') * 100000), h.pos('s'), h.pos('mu'), h.pos('a'), h.pos('n'), h.real('c')
    kw = dict(mu=mu, radius=a, current=c, turns=n)
    H, B = fd.vertical_magnetic_field_horizontal_loop, fd.vertical_magnetic_flux_horizontal_loop
    h.put('T', H(f, sigma=s, secondary=False, **kw))
    h.put('S', H(f, sigma=s, secondary=True, **kw))
    h.put('S2', H((h.pos('f1') * 100000), sigma=s, **kw))
    h.put('D', H(f, sigma=s, **kw))
    h.put('BT', B(f, s, secondary=False, **kw))
    h.put('BS', B(f, s, secondary=True, **kw))
    h.put('BD', B(f, s, **kw))
    h.put('T1', H(f, sigma=s, mu=mu, radius=a, secondary=False))
    h.put('M', H(h.arr([f, (h.pos('f1') * 100000)]), sigma=s, **kw))
    h.put('T0', H(f, sigma=s, radius=a, current=c, turns=n, secondary=False))
    d = fd.MagneticDipoleHalfSpace(h.arr([f]), sigma=s, orientation='Z', moment=h.real('m'), quasistatic=True)
    h.put('dz', d.magnetic_field(h.arr([a, 0]), field='total')[2])
