"""C19 reflection coefficients of layered half-spaces, C20 dipoles over layered half-spaces."""
from engine.case import case

KM = 'geoana.kernels.tranverse_electric_reflections'


def setup(h, nl, nf, nk, cplx=True):
    """symbolic layered model: sigma, mu complex (n_layer, n_freq), thicknesses, frequencies, wavenumbers."""
    I = h.I

    def c(n, i, j):
        return h.cplx(f'{n}{i}{j}') if cplx else h.pos(f'{n}{i}{j}')
    s = [[c('s', i, j) for j in range(nf)] for i in range(nl)]
    # units in which the layers matter: the permeability is near that of free space, frequencies are in 100 kHz
    m = [[c('m', i, j) / 1000000 for j in range(nf)] for i in range(nl)]
    t = [h.pos(f't{i}') for i in range(nl - 1)]
    f = [h.pos(f'f{j}') * 100000 for j in range(nf)]
    k = [h.pos(f'k{j}') for j in range(nk)]
    return f, k, s, m, t


def arrs(h, f, k, s, m, t):
    np = h.np
    return (h.arr(f), h.arr(k), np.array(s, dtype=complex), np.array(m, dtype=complex), h.arr(t))


def names(nl, nf):
    return [(i, j) for i in range(nl) for j in range(nf)]


def grad_laws(nl, nf, nk):
    def laws(h):
        for pre in h.q('which'):
            G = [h.q(pre + g) for g in ('ds', 'dh', 'dm')]
            h.true('shapes', tuple(G[0].shape) == (nl, nf, nk) and tuple(G[1].shape) == (nl - 1, nf, nk)
                   and tuple(G[2].shape) == (nl, nf, nk), str([g.shape for g in G]))
            for b in range(nf):
                for c in range(nk):
                    for i in range(nl):
                        h.eq('derivative in conductivity', G[0][i, b, c], h.d('R', f's{i}{b}')[b, c])
                        h.eq('derivative in permeability', G[2][i, b, c] / 1000000, h.d('R', f'm{i}{b}')[b, c])
                    for i in range(nl - 1):
                        h.eq('derivative in thickness', G[1][i, b, c], h.d('R', f't{i}')[b, c])
    return laws


def grad_body(nl, nf, nk, cplx=True):
    def b(h):
        K = h.mod(KM)
        A = arrs(h, *setup(h, nl, nf, nk, cplx))
        h.put('R', K._rTE_forward(*A))
        for n, v in zip(('ds', 'dh', 'dm'), K._rTE_gradient(*A)):
            h.put('n' + n, v)
        h.store['which'] = ['n']
    return b


MB = 'every frequency, wavenumber, thickness > 0, every complex conductivity and permeability with positive real part; '
for nl, nf, nk, tier in ((1, 1, 1, 'quick'), (2, 1, 1, 'quick'), (3, 1, 1, 'quick'), (2, 2, 2, 'quick'), (3, 2, 2, 'quick'), (2, 3, 4, 'quick')):
    case('C19', f'gradient_{nl}_{nf}_{nk}', laws=grad_laws(nl, nf, nk), tier=tier, lazy_sqrt='s',
         bounds=MB + f'{nl} layers, {nf} frequencies, {nk} wavenumbers')(grad_body(nl, nf, nk))


def same_laws(h):
    for k in ('R', 'ds', 'dh', 'dm'):
        h.true(f'same shape ({k})', tuple(h.q('c' + k).shape) == tuple(h.q('n' + k).shape), str(h.q('c' + k).shape))
        h.eq(f'compiled and numpy implementation agree ({k})', h.q('c' + k), h.q('n' + k))


def same_body(nl, nf, nk):
    def b(h):
        K = h.mod(KM)
        A = arrs(h, *setup(h, nl, nf, nk))
        for p, F, G in (('n', K._rTE_forward, K._rTE_gradient), ('c', K.rTE_forward, K.rTE_gradient)):
            h.put(p + 'R', F(*A))
            for n, v in zip(('ds', 'dh', 'dm'), G(*A)):
                h.put(p + n, v)
    return b


for nl, nf, nk, tier in ((1, 1, 1, 'quick'), (1, 2, 1, 'quick'), (2, 1, 2, 'quick'), (2, 2, 1, 'quick'), (3, 1, 1, 'quick'), (2, 3, 4, 'quick'), (4, 1, 1, 'quick'), (5, 1, 1, 'quick'), (3, 2, 2, 'thorough'), (6, 1, 2, 'thorough')):
    case('C19', f'compiled_{nl}_{nf}_{nk}', laws=same_laws, tier=tier, lazy_sqrt='s', native='rTE',
         bounds=MB + f'{nl} layers, {nf} frequencies, {nk} wavenumbers')(same_body(nl, nf, nk))


# -- physics of the stack ---------------------------------------------------------------
def both(h, *A):
    """the numpy and the compiled implementation of the forward coefficients."""
    K = h.mod(KM)
    return K._rTE_forward(*A), K.rTE_forward(*A)


def closed_laws(h):
    for p in ('n', 'c'):
        h.eq(f'Fresnel coefficient / two-layer recursion ({p})', h.q(p + 'R'), h.q('want'))


def fresnel(h, nl, f, k, s, m, t):
    from scipy.constants import mu_0
    w = 2 * h.pi * f[0]
    u = [h.fn('sqrt', k[0] ** 2 + h.I * w * m[i][0] * s[i][0]) for i in range(nl)]
    # admittances relative to i omega; reflection at each interface and the phase across each layer
    y = [k[0] / mu_0] + [u[i] / m[i][0] for i in range(nl)]
    r = [(y[i] - y[i + 1]) / (y[i] + y[i + 1]) for i in range(nl)]
    R = r[-1]
    for i in range(nl - 2, -1, -1):
        e = h.exp(-2 * u[i] * t[i])
        R = (r[i] + R * e) / (1 + r[i] * R * e)
    return R


def closed_body(nl):
    def b(h):
        f, k, s, m, t = setup(h, nl, 1, 1)
        A = arrs(h, f, k, s, m, t)
        n, c = both(h, *A)
        h.put('nR', n[0, 0])
        h.put('cR', c[0, 0])
        R = fresnel(h, nl, f, k, s, m, t)
        h.put('want', R)
    return b


for nl in (1, 2, 3):
    case('C19', f'closed_form_{nl}', laws=closed_laws, lazy_sqrt='s', opaque_tanh=False, native='rTE', rtol=1e-6,
         bounds=MB + f'{nl} layers, one frequency and wavenumber')(closed_body(nl))


# -- deep stacks of two alternating media -------------------------------------------------
def deep(h, nl):
    """nl layers of two alternating media and two alternating thicknesses."""
    s, m, t = [h.cplx(f's{i}') for i in range(2)], [h.cplx(f'm{i}') / 1000000 for i in range(2)], [h.pos(f't{i}') for i in range(2)]
    f, k = h.pos('f') * 100000, h.pos('k')
    return [f], [k], [[s[i % 2]] for i in range(nl)], [[m[i % 2]] for i in range(nl)], [t[i % 2] for i in range(nl - 1)]


def deep_body(nl):
    def b(h):
        A = arrs(h, *deep(h, nl))
        K = h.mod(KM)
        h.put('R', K._rTE_forward(*A)[0, 0])
        for n, v in zip(('ds', 'dh', 'dm'), K._rTE_gradient(*A)):
            h.put(n, v)
    return b


def deep_laws(nl):
    def laws(h):
        for n, v, k in (('conductivity', 's', 'ds'), ('permeability', 'm', 'dm'), ('thickness', 't', 'dh')):
            for q in range(2):
                G = h.q(k)
                ix = range(q, nl - (k == 'dh'), 2)
                tot = G[ix[0], 0, 0]
                for i in ix[1:]:
                    tot = tot + G[i, 0, 0]
                h.eq(f'derivative in {n} common to every other layer', tot / (1000000 if v == 'm' else 1), h.d('R', f'{v}{q}'))
    return laws


case('C19', 'deep_4', laws=deep_laws(4), tier='thorough', lazy_sqrt='s', rtol=1e-6, bounds=MB + '4 layers of two alternating media and thicknesses')(deep_body(4))


def deep_closed(nl):
    def b(h):
        f, k, s, m, t = deep(h, nl)
        n, c = both(h, *arrs(h, f, k, s, m, t))
        h.put('nR', n[0, 0])
        h.put('cR', c[0, 0])
        h.put('want', fresnel(h, nl, f, k, s, m, t))
    return b


for nl, tier in ((4, 'quick'),):
    case('C19', f'deep_closed_form_{nl}', laws=closed_laws, tier=tier, lazy_sqrt='s', opaque_tanh=False, native='rTE', rtol=1e-6,
         bounds=MB + f'{nl} layers of two alternating media and thicknesses')(deep_closed(nl))


def split_laws(h):
    for i, (a, b) in enumerate(h.q('pairs')):
        h.eq(f'an interface between identical media changes nothing ({i})', a, b)


def split_body(which):
    def b(h):
        f, k, s, m, t = setup(h, 2, 1, 1)
        a = h.pos('a')
        if which == 'top':        # t0 -> t0 | a with the same medium
            s3, m3, t3, t2 = [s[0], s[0], s[1]], [m[0], m[0], m[1]], [t[0], a], [t[0] + a]
        elif which == 'bottom':   # a fictitious interface inside the basement
            s3, m3, t3, t2 = [s[0], s[1], s[1]], [m[0], m[1], m[1]], [t[0], a], [t[0]]
        else:                     # layers identical to the basement: a half-space
            s3, m3, t3, t2 = [s[0]] * 3, [m[0]] * 3, [t[0], a], None
        A3 = arrs(h, f, k, s3, m3, t3)
        A2 = arrs(h, f, k, s, m, t2) if t2 else arrs(h, f, k, s[:1], m[:1], [])
        x, y = both(h, *A3), both(h, *A2)
        h.store['pairs'] = [(x[0], y[0]), (x[1], y[1])]
        h.put('R3', x[0])
        h.put('R2', y[0])
    return b


for w in ('top', 'bottom', 'all'):
    case('C19', f'split_{w}', laws=split_laws, native='rTE', rtol=1e-6, bounds=MB + '3 against 2 or 1 layers')(split_body(w))


def air_laws(h):
    h.eq('free space reflects nothing', h.q('nR'), 1)
    h.eq('free space reflects nothing (compiled)', h.q('cR'), 1)
    h.eq('each frequency and wavenumber is computed on its own', h.q('full'), h.q('single'))


@case('C19', 'air_and_independence', laws=air_laws, native='rTE', rtol=1e-6,
      bounds=MB + 'free space in 1-3 layers; 2 layers with 2 frequencies and 2 wavenumbers against single evaluations')
def air_body(h):
    from scipy.constants import mu_0
    f, k, s, m, t = setup(h, 2, 2, 2)
    a = h.pos('a')
    n, c = [], []
    for nl in (1, 2, 3):
        z = [[0.0 * h.I]] * nl
        mm = [[mu_0 + 0 * h.I]] * nl
        x = both(h, *arrs(h, f[:1], k, z, mm, ([t[0], a])[:nl - 1]))
        n.append(x[0][0])
        c.append(x[1][0])
    h.put('nR', 1 + h.np.array(n))
    h.put('cR', 1 + h.np.array(c))
    full = both(h, *arrs(h, f, k, s, m, t))
    one = [[[both(h, *arrs(h, [f[i]], [k[j]], [[q[i]] for q in s], [[q[i]] for q in m], t))[p][0, 0] for j in range(2)]
            for i in range(2)] for p in range(2)]
    h.put('full', h.np.array([full[0], full[1]]))
    h.put('single', h.np.array(one))


def bad_laws(h):
    K = h.mod(KM)
    A = arrs(h, *setup(h, 2, 2, 1))
    B = arrs(h, *setup(h, 3, 2, 1))
    C = arrs(h, *setup(h, 2, 1, 1))
    for F in (K.rTE_forward, K.rTE_gradient):
        h.raises('frequencies and conductivities of different length are rejected', ValueError, F, C[0], A[1], A[2], A[3], A[4])
        h.raises('conductivities and thicknesses of different length are rejected', ValueError, F, A[0], A[1], B[2], B[3], A[4])
        h.raises('conductivity and permeability of different shape are rejected', ValueError, F, A[0], A[1], A[2], B[3], A[4])


@case('C19', 'shape_errors', laws=bad_laws, native='rTE', bounds=MB + 'mismatched shapes of 1-3 layers and 1-2 frequencies')
def bad_body(h):
    pass


# -- C20: dipoles over a layered half-space -------------------------------------------------
LB = ('a digital filter of two symbolic abscissae and weights in place of the tabulated one; every source height >= 0, horizontal offset '
      '!= 0, receiver height >= 0, moment, frequency, conductivity, permeability >= mu_0, thickness > 0; ')


def medium(h, nl, nf=1, tag=''):
    from scipy.constants import mu_0
    s = [h.pos(f's{i}') for i in range(nl)]
    m = [mu_0 * (1 + h.nonneg(f'm{i}')) for i in range(nl)]
    e = [h.pos(f'e{i}') for i in range(nl)]
    t = [h.pos(f't{i}') for i in range(nl - 1)]
    f = [h.pos(f'f{j}') * 100000 for j in range(nf)]
    return s, m, e, t, f


def eps(h, e):
    from scipy.constants import epsilon_0
    return [epsilon_0 * (1 + x) for x in e]


def filt(h, n=2):
    b = [h.pos(f'b{i}') for i in range(n)]
    w0, w1 = [h.real(f'u{i}') for i in range(n)], [h.real(f'v{i}') for i in range(n)]
    h.use_filter(b, w0, w1)
    return b, w0, w1


def lay(h, f, t, s, m, e, o, l, mom, qs=False):
    fd = h.mod('geoana.em.fdem')
    return fd.MagneticDipoleLayeredHalfSpace(f, thickness=t, sigma=s, mu=m, epsilon=e, orientation=o, location=l, moment=mom, quasistatic=qs)


def lay_orient(h, o):
    if o == 'q':
        return h.arr([2, -1, 2]), [h.const(2) / 3, -h.const(1) / 3, h.const(2) / 3]
    return o, {'X': [1, 0, 0], 'y': [0, 1, 0], 'Z': [0, 0, 1]}[o]


def ref_field(h, w, R, lam, w0, w1, u, x, y, rho, zz):
    """grad (m_z d/dz - m_x d/dx - m_y d/dy) psi, psi = int R exp(-k zz) J0(k rho) dk / 4 pi."""
    out = [0, 0, 0]
    for k, a, b, r in zip(lam, w0, w1, R):
        e = r * h.exp(-k * zz) / rho
        d = [[-(k * k * x * x / rho ** 2 * a + k * (1 / rho - 2 * x * x / rho ** 3) * b),
              -(k * k * x * y / rho ** 2 * a - 2 * k * x * y / rho ** 3 * b), k * k * x / rho * b],
             [0, -(k * k * y * y / rho ** 2 * a + k * (1 / rho - 2 * y * y / rho ** 3) * b), k * k * y / rho * b],
             [0, 0, k * k * a]]
        for i in range(3):
            for j in range(3):
                g = d[min(i, j)][max(i, j)]
                out[i] = out[i] + e * g * u[j] * (1 if j == 2 else -1)
    return [v / (4 * h.pi) for v in out]


def lay_laws(h):
    x, y, m = h.real('x'), h.real('y'), h.real('m')
    dz = h.q('dz')
    d = [x, y, dz]
    r2 = x * x + y * y + dz * dz
    r = h.sqrt(r2)
    u, T, S = h.q('u'), h.q('T'), h.q('S')
    md = sum(u[i] * d[i] for i in range(3))
    h.true('shape', tuple(T.shape) == (3,) and tuple(S.shape) == (3,), str(T.shape))
    for i in range(3):
        prim = m / (4 * h.pi) * (3 * md * d[i] / (r2 * r2 * r) - u[i] / (r2 * r))
        h.eq('total minus secondary is the free-space dipole', T[i], S[i] + prim)
        h.eq('secondary is the default', h.q('D')[i], S[i])
        h.eq('superposition of axis-aligned sources', S[i], sum(u[j] * h.q(f'a{j}')[i] for j in range(3)), scale=(h.q('a2')[i], h.q('a0')[i]))
        h.eq('secondary field from the reflection coefficients', S[i], m * h.q('ref')[i], scale=tuple(S))
    h.eq('reciprocity', h.q('rec'), h.q('dir'), scale=tuple(S))
    h.raises('points below ground are refused', ValueError, h.q('src').magnetic_field, h.q('below'))
    h.raises('sources below ground are refused', ValueError, lay, h, *h.q('args'), 'Z', h.arr([0, 0, -h.pos('z') - 1]), m)


def lay_body(o, nl, qs):
    def b(h):
        s, m, e, t, f = medium(h, nl)
        e = eps(h, e)
        b, w0, w1 = filt(h)
        x, y, z, zs = h.real('x'), h.real('y'), h.nonneg('z'), h.nonneg('hs')
        h.assume('gt', x * x + y * y, 0)
        l = h.arr([h.real('l0'), h.real('l1'), zs])
        P = h.arr([[l[0] + x, l[1] + y, z]])
        ov, u = lay_orient(h, o)
        h.store['u'] = u
        h.put('dz', z - zs)
        mom = h.real('m')
        A = (h.arr(f), h.arr(t) if nl > 1 else None, h.arr(s), h.arr(m), h.arr(e))
        h.store['args'] = A
        src = lay(h, *A, ov, l, mom, qs)
        h.store['src'] = src
        h.put('T', src.magnetic_field(P, field='total'))
        h.put('S', src.magnetic_field(P, field='secondary'))
        h.put('D', src.magnetic_field(P))
        h.store['below'] = h.arr([[l[0] + x, l[1] + y, z], [l[0] + x, l[1] + y, -z - 1]])
        for j in range(3):
            h.put(f'a{j}', lay(h, *A, 'XyZ'[j], l, mom, qs).magnetic_field(P))
        back = lay(h, *A, h.arr([3, 0, -4]), P[0], mom, qs).magnetic_field(h.arr([[l[0], l[1], zs]]))
        h.put('rec', sum(back[i] * u[i] for i in range(3)))
        S = h.q('S')
        h.put('dir', (S[0] * 3 - S[2] * 4) / 5)
        rho = h.sqrt(x * x + y * y)
        lam = [q / rho for q in b]
        w = 2 * h.pi * f[0]
        sh = [[s[i] + (0 if qs else h.I * w * e[i]) + 0 * h.I] for i in range(nl)]
        R = h.mod(KM)._rTE_forward(*arrs(h, f, lam, sh, [[q + 0 * h.I] for q in m], t))[0]
        h.put('ref', ref_field(h, w, R, lam, w0, w1, u, x, y, rho, z + zs))
    return b


for o, nl, qs, tier in (('q', 1, False, 'quick'), ('X', 2, False, 'quick'), ('y', 1, True, 'quick'), ('Z', 2, True, 'quick'), ('q', 2, False, 'quick'),
                        ('q', 3, True, 'thorough'), ('Z', 5, False, 'quick'), ('q', 9, True, 'quick')):
    case('C20', f'dipole_{o}_{nl}_{"quasistatic" if qs else "full"}', laws=lay_laws, tier=tier, cut=True,
         bounds=LB + f'orientation {o}, {nl} layers, one frequency and point')(lay_body(o, nl, qs))


def zero_laws(h):
    h.finite('finite at zero horizontal offset', [h.q('S')])


def zero_body(h):
    s, m, e, t, f = medium(h, 2)
    l = h.arr([0, 0, h.pos('hs')])
    h.put('S', lay(h, h.arr(f), h.arr(t), h.arr(s), h.arr(m), h.arr(eps(h, e)), 'Z', l, h.real('m')).magnetic_field(h.arr([[0, 0, h.pos('z')]])))


case('C20', 'finding_zero_offset', laws=zero_laws, tier='finding', bounds='')(zero_body)


def lmany_laws(h):
    M, N = h.q('M'), h.q('N')
    h.true('shape', tuple(M.shape) == (2, 2, 3), str(M.shape))
    for i in range(2):
        for j in range(2):
            for c in range(3):
                h.eq('frequencies and points at once', M[i, j, c], h.q(f'M{i}{j}')[c])
                h.eq('properties per frequency', N[i, j, c], h.q(f'N{i}{j}')[c])
    h.true('shape, one frequency', tuple(h.q('one').shape) == (2, 3), str(h.q('one').shape))
    for j in range(2):
        for c in range(3):
            h.eq('one frequency as a number', h.q('one')[j, c], h.q(f'M0{j}')[c])


@case('C20', 'many', laws=lmany_laws, cut=True, bounds=LB + 'two layers, two frequencies, two points, orientation (2,-1,2)')
def lmany(h):
    s, m, e, t, f = medium(h, 2, 2)
    s2 = [[h.pos(f'c{i}{j}') for j in range(2)] for i in range(2)]
    e = eps(h, e)
    filt(h)
    l = h.arr([h.real('l0'), h.real('l1'), h.nonneg('hs')])
    P = []
    for n in 'pq':
        x, y = h.real(n + 'x'), h.real(n + 'y')
        h.assume('gt', x * x + y * y, 0)
        P.append([l[0] + x, l[1] + y, h.nonneg(n + 'z')])
    o = h.arr([2, -1, 2])
    A = (h.arr(t), h.arr(s), h.arr(m), h.arr(e), o, l, h.real('m'))
    from scipy.constants import mu_0, epsilon_0
    m2 = [[mu_0 * (1 + h.nonneg(f'g{i}{j}')) for j in range(2)] for i in range(2)]
    e2 = [[epsilon_0 * (1 + h.nonneg(f'w{i}{j}')) for j in range(2)] for i in range(2)]
    B = (h.arr(t), h.np.array(s2), h.np.array(m2), h.np.array(e2), o, l, h.real('m'))
    h.put('M', lay(h, h.arr(f), *A).magnetic_field(h.arr(P), field='total'))
    h.put('N', lay(h, h.arr(f), *B).magnetic_field(h.arr(P)))
    h.put('one', lay(h, f[0], *A).magnetic_field(h.arr(P), field='total'))
    for i in range(2):
        for j in range(2):
            h.put(f'M{i}{j}', lay(h, h.arr([f[i]]), *A).magnetic_field(h.arr([P[j]]), field='total'))
            C = (h.arr(t), h.arr([q[i] for q in s2]), h.arr([q[i] for q in m2]), h.arr([q[i] for q in e2]), o, l, h.real('m'))
            h.put(f'N{i}{j}', lay(h, h.arr([f[i]]), *C).magnetic_field(h.arr([P[j]])))


def same_med_laws(h):
    for c in range(3):
        h.eq('identical layers are a half-space', h.q('three')[c], h.q('half')[c])
        h.eq('one number for all layers', h.q('num')[c], h.q('three')[c])


@case('C20', 'identical_layers', laws=same_med_laws, lazy_sqrt='s', opaque_tanh=False,
      bounds='as above with a filter of one abscissa; three identical layers against no layers and against numbers in place of arrays')
def same_med(h):
    s, m, e, t, f = medium(h, 3, 1)
    e = eps(h, e)
    filt(h, 1)
    l = h.arr([h.real('l0'), h.real('l1'), h.nonneg('hs')])
    x, y = h.real('x'), h.real('y')
    h.assume('gt', x * x + y * y, 0)
    P = h.arr([[l[0] + x, l[1] + y, h.nonneg('z')]])
    z = ('Z', l, h.real('m'))
    h.put('three', lay(h, h.arr(f), h.arr(t), h.arr([s[0]] * 3), h.arr([m[0]] * 3), h.arr([e[0]] * 3), *z).magnetic_field(P))
    h.put('num', lay(h, h.arr(f), h.arr(t), s[0], m[0], e[0], *z).magnetic_field(P))
    h.put('half', lay(h, h.arr(f), None, h.arr([s[0]]), h.arr([m[0]]), h.arr([e[0]]), *z).magnetic_field(P))
