"""C14 harmonic dipoles in a whole space, C15 harmonic plane waves and wave parameters."""
from engine.case import case, curl_terms, div_terms

XS = ['d0', 'd1', 'd2']
FB = 'one source, one observation point, one frequency > 0; every location, offset, strength, conductivity, permeability, permittivity > 0; '


def nz(h, d):
    h.assume('gt', d[0] * d[0] + d[1] * d[1] + d[2] * d[2], 0)


def orient(h, name):
    if name == 'any':
        o = h.vec('o')
        nz(h, o)
        return o
    return {'X': 'X', 'y': 'y', 'Z': 'Z', 'q': h.arr([2, -1, 2])}[name]


def medium(h, qs):
    return dict(frequency=h.pos('f'), sigma=h.pos('s'), mu=h.pos('mu'), epsilon=h.pos('ep'), quasistatic=qs)


def shat(h, qs):
    w = 2 * h.pi * h.pos('f')
    return w, h.pos('s') + (0 if qs else h.I * w * h.pos('ep'))


def put(h, o, x):
    h.put('A', o.vector_potential(x))
    h.put('E', o.electric_field(x))
    h.put('J', o.current_density(x))
    h.put('H', o.magnetic_field(x))
    h.put('B', o.magnetic_flux_density(x))


def common(h):
    for i in range(3):
        h.eq('current density is conductivity times field', h.q('J')[i], h.pos('s') * h.q('E')[i])
        h.eq('flux density is mu times field', h.q('B')[i], h.pos('mu') * h.q('H')[i])
    h.zero('flux density is solenoidal', div_terms(h, 'B', XS))
    h.zero('electric field is solenoidal', div_terms(h, 'E', XS))
    h.finite('finite away from the source', [h.q('E'), h.q('H')])


def e_laws(qs):
    def laws(h):
        w, sh = shat(h, qs)
        common(h)
        H, E = h.q('H'), h.q('E')
        for i, t in enumerate(curl_terms(h, 'A', XS)):
            h.zero('magnetic field is the curl of the vector potential', [t[0], -t[1], -H[i]])
        cH = curl_terms(h, 'H', XS)
        if qs:
            for i, t in enumerate(cH):
                h.zero('Ampere', [t[0], -t[1], -sh * E[i]])
            for i, t in enumerate(curl_terms(h, 'E', XS)):
                h.zero('Faraday', [t[0], -t[1], h.I * w * h.pos('mu') * H[i]])
        else:
            c = [t[0] - t[1] for t in cH]
            for i, j in ((0, 1), (1, 2), (2, 0)):
                h.eq('electric field along the curl of the magnetic field', c[i] * E[j], c[j] * E[i])
                # with displacement currents the tree has a known defect (finding_displacement): conduction current only, or all of it
                h.eq('electric field from the curl of the magnetic field', (c[i] - h.pos('s') * E[i]) * (c[i] - sh * E[i]), 0,
                     scale=(c[i] * c[i],))
    return laws


def m_laws(qs):
    def laws(h):
        w, sh = shat(h, qs)
        common(h)
        H, E = h.q('H'), h.q('E')
        for i, t in enumerate(curl_terms(h, 'A', XS)):
            h.zero('electric field is minus the curl of the vector potential', [t[0], -t[1], E[i]])
        for i, t in enumerate(curl_terms(h, 'H', XS)):
            h.zero('Ampere', [t[0], -t[1], -sh * E[i]])
        for i, t in enumerate(curl_terms(h, 'E', XS)):
            h.zero('Faraday', [t[0], -t[1], h.I * w * h.pos('mu') * H[i]])
    return laws


def body(kind, qs, o):
    def b(h):
        fd = h.mod('geoana.em.fdem')
        l, d = h.vec('l'), h.vec('d')
        nz(h, d)
        kw = dict(location=l, orientation=orient(h, o), **medium(h, qs))
        src = fd.ElectricDipoleWholeSpace(current=h.real('c'), length=h.pos('L'), **kw) if kind == 'e' else \
            fd.MagneticDipoleWholeSpace(moment=h.real('m'), **kw)
        put(h, src, l + d)
    return b


for o, tier in (('any', 'quick'), ('X', 'quick'), ('y', 'thorough'), ('Z', 'quick')):
    for qs in (True, False):
        n = f'{o}_{"quasistatic" if qs else "full"}'
        case('C14', f'electric_{n}', laws=e_laws(qs), tier=tier, bounds=FB + f'orientation {o}, quasistatic={qs}')(body('e', qs, o))
        case('C14', f'magnetic_{n}', laws=m_laws(qs), tier=tier, bounds=FB + f'orientation {o}, quasistatic={qs}')(body('m', qs, o))


def find_laws(h):
    w, sh = shat(h, False)
    for i, t in enumerate(curl_terms(h, 'H', XS)):
        h.zero('Ampere with displacement currents', [t[0], -t[1], -sh * h.q('E')[i]])


case('C14', 'finding_displacement', laws=find_laws, tier='finding', bounds=FB)(body('e', False, 'X'))


# the static limit: at vanishing frequency the fields are those of the static dipoles
def static_laws(h):
    for k in 'EHJB':
        for i in range(3):
            h.eq(f'zero frequency is the static solution ({k})', h.q(k)[i], h.q('s' + k)[i])


def static_m(h):
    for k in 'HB':
        for i in range(3):
            h.eq(f'zero frequency is the static solution ({k})', h.q(k)[i], h.q('s' + k)[i])
    for i in range(3):
        h.eq('no electric field at zero frequency', h.q('E')[i], 0, scale=(1.0,))


@case('C14', 'zero_frequency_magnetic', laws=static_m, bounds='frequency exactly zero, quasistatic or not, any orientation')
def zm(h):
    fd, st = h.mod('geoana.em.fdem'), h.mod('geoana.em.static')
    l, d = h.vec('l'), h.vec('d')
    nz(h, d)
    kw = dict(location=l, orientation=orient(h, 'any'), mu=h.pos('mu'), moment=h.real('m'))
    o = fd.MagneticDipoleWholeSpace(frequency=0, sigma=h.pos('s'), quasistatic=True, **kw)
    s = st.MagneticDipoleWholeSpace(**kw)
    put(h, o, l + d)
    h.put('sH', s.magnetic_field(l + d))
    h.put('sB', s.magnetic_flux_density(l + d))


# ------------------------------------------------------------------ several frequencies and points, reciprocity
def many_laws(h):
    for k in ('A', 'E', 'J', 'H', 'B'):
        M = h.q(k)
        h.true(f'shape of {k}', tuple(M.shape) == (2, 2, 3), str(M.shape))
        for i in range(2):
            for j in range(2):
                for c in range(3):
                    h.eq(f'frequencies and points at once ({k})', M[i, j, c], h.q(f'{k}{i}{j}')[c])
    h.eq('reciprocity', h.q('rec'), h.q('dir'))


def many(kind, qs):
    def b(h):
        fd = h.mod('geoana.em.fdem')
        cls = fd.ElectricDipoleWholeSpace if kind == 'e' else fd.MagneticDipoleWholeSpace
        l, d, e = h.vec('l'), h.vec('d'), h.vec('e')
        nz(h, d)
        nz(h, e)
        f = [h.pos('f'), h.pos('f1')]
        o = h.vec('o')
        nz(h, o)
        src = dict(current=h.real('c'), length=h.pos('L')) if kind == 'e' else dict(moment=h.real('m'))
        kw = dict(sigma=h.pos('s'), mu=h.pos('mu'), epsilon=h.pos('ep'), quasistatic=qs, **src)
        P = [l + d, l + e]
        names = (('A', 'vector_potential'), ('E', 'electric_field'), ('J', 'current_density'), ('H', 'magnetic_field'),
                 ('B', 'magnetic_flux_density'))
        both = cls(frequency=h.arr(f), location=l, orientation=o, **kw)
        for k, nm in names:
            h.put(k, getattr(both, nm)(h.arr(P)))
        for i in range(2):
            one = cls(frequency=f[i], location=l, orientation=o, **kw)
            for j in range(2):
                for k, nm in names:
                    h.put(f'{k}{i}{j}', getattr(one, nm)(P[j]))
        # source and receiver swapped: field component along the old source direction
        nm = 'electric_field' if kind == 'e' else 'magnetic_field'
        r = getattr(cls(frequency=f[0], location=P[1], orientation=h.arr([2, -1, 2]), **kw), nm)(l)
        on = h.norm(o)
        rec = sum(r[i] * o[i] for i in range(3)) / on
        F = h.q('E01' if kind == 'e' else 'H01')
        h.put('rec', rec)
        h.put('dir', F[0] * 2 / 3 - F[1] / 3 + F[2] * 2 / 3)
    return b


for kind in 'em':
    for qs in (True, False):
        case('C14', f'{kind}_many_{"quasistatic" if qs else "full"}', laws=many_laws, tier='quick' if qs is False else 'thorough',
             bounds='two frequencies, two points, any orientation; reciprocity with a second dipole along (2,-1,2)')(many(kind, qs))


# ------------------------------------------------------------------ C15
def pw_laws(qs):
    def laws(h):
        w, sh = shat(h, qs)
        E, H, o = h.q('E'), h.q('H'), h.q('o')
        for i in range(3):
            h.eq('current density is conductivity times field', h.q('J')[i], h.pos('s') * E[i])
            h.eq('flux density is mu times field', h.q('B')[i], h.pos('mu') * H[i])
            h.eq('amplitude at the origin along the polarisation', h.q('E0')[i], h.real('amp') * o[i])
            for x in XS[:2]:
                h.zero('independent of x and y', [h.d('E', x)[i]])
                h.zero('independent of x and y', [h.d('B', x)[i]])
        h.eq('fields are horizontal', E[2], 0, scale=(1.0,))
        h.eq('fields are horizontal', H[2], 0, scale=(1.0,))
        for i, t in enumerate(curl_terms(h, 'E', XS)):
            h.zero('Faraday', [t[0], -t[1], h.I * w * h.pos('mu') * H[i]])
        for i, t in enumerate(curl_terms(h, 'H', XS)):
            h.zero('Ampere', [t[0], -t[1], -sh * E[i]])
        # travels and decays downwards: amplitude ratio over a descent t is exp(-i k t) with the decaying root
        k = h.q('k')
        h.eq('decays downwards', h.q('Ed')[h.q('ax')], E[h.q('ax')] * h.exp(-h.I * k * h.pos('t')))
        h.eq('squared wavenumber', k * k, -h.I * w * h.pos('mu') * sh)
        # numpy's principal root of a number in the lower half plane: real part > 0, imaginary part < 0
        h.eq('wavenumber: outgoing decaying root', k, h.fn('sqrt', -h.I * w * h.pos('mu') * sh))
        if qs:
            h.lt('wavenumber: decaying root', h.fn('imag', k), 0)
            h.lt('wavenumber: outgoing root', 0, h.fn('real', k))
    return laws


def pw_body(qs, o):
    def b(h):
        fd = h.mod('geoana.em.fdem')
        d = h.vec('d')
        if o == 'any':
            ov = h.arr([h.real('o0'), h.real('o1'), 0])
            h.assume('gt', ov[0] * ov[0] + ov[1] * ov[1], 0)
            h.assume('ne', ov[0], 0)
            n = h.norm(ov)
            h.put('o', [ov[0] / n, ov[1] / n, 0])
            h.store['ax'] = 0
        else:
            ov = o
            h.put('o', [1, 0, 0] if o in 'xX' else [0, 1, 0])
            h.store['ax'] = 0 if o in 'xX' else 1
        p = fd.HarmonicPlaneWave(amplitude=h.real('amp'), orientation=ov, **medium(h, qs))
        h.put('E', p.electric_field(d))
        h.put('E0', p.electric_field(h.arr([d[0], d[1], 0])))
        h.put('Ed', p.electric_field(h.arr([d[0], d[1], d[2] - h.pos('t')])))
        h.put('J', p.current_density(d))
        h.put('H', p.magnetic_field(d))
        h.put('B', p.magnetic_flux_density(d))
        h.put('k', p.wavenumber)
    return b


for o in ('any', 'X', 'y'):
    for qs in (True, False):
        case('C15', f'plane_wave_{o}_{"quasistatic" if qs else "full"}', laws=pw_laws(qs),
             bounds=f'one frequency > 0, one point, every amplitude and medium; polarisation {o}, quasistatic={qs}')(pw_body(qs, o))


def base_laws(h):
    w = 2 * h.pi * h.pos('f')
    h.eq('angular frequency', h.q('w'), w)
    h.eq('angular frequency', h.q('wf'), w)
    for qs in (True, False):
        _, sh = shat(h, qs)
        k = h.q(f'k{qs}')
        h.eq(f'squared wavenumber, quasistatic={qs}', k * k, -h.I * w * h.pos('mu') * sh)
        h.eq(f'wavenumber property, quasistatic={qs}', h.q(f'kp{qs}'), k)
        h.eq(f'complex conductivity, quasistatic={qs}', h.q(f's{qs}'), sh)
        h.eq(f'complex conductivity property, quasistatic={qs}', h.q(f'sp{qs}'), sh)
        h.eq(f'skin depth property, quasistatic={qs}', h.q(f'dp{qs}'), h.q(f'd{qs}'))
    h.eq('quasistatic skin depth is the decay length', h.q('dTrue') * h.fn('imag', h.q('kTrue')), -1)
    h.eq('default wavenumber', h.q('kdef'), h.q('kFalse'))
    h.eq('default complex conductivity', h.q('sdef'), h.q('sFalse'))
    h.eq('default skin depth', h.q('ddef'), h.q('dTrue'))


@case('C15', 'wave_parameters', laws=base_laws, bounds='every frequency, conductivity, permeability and permittivity > 0')
def base(h):
    fd = h.mod('geoana.em.fdem')
    f, s, mu, ep = h.pos('f'), h.pos('s'), h.pos('mu'), h.pos('ep')
    h.put('wf', fd.omega(f))
    for qs in (True, False):
        o = fd.BaseFDEM(frequency=f, sigma=s, mu=mu, epsilon=ep, quasistatic=qs)
        h.put('w', o.omega)
        h.put(f'k{qs}', fd.wavenumber(f, s, mu=mu, epsilon=ep, quasistatic=qs))
        h.put(f's{qs}', fd.sigma_hat(f, s, epsilon=ep, quasistatic=qs))
        h.put(f'd{qs}', fd.skin_depth(f, s, mu=mu, epsilon=ep, quasistatic=qs))
        h.put(f'kp{qs}', o.wavenumber)
        h.put(f'sp{qs}', o.sigma_hat)
        h.put(f'dp{qs}', o.skin_depth)
    h.put('kdef', fd.wavenumber(f, s, mu=mu, epsilon=ep))
    h.put('sdef', fd.sigma_hat(f, s, epsilon=ep))
    h.put('ddef', fd.skin_depth(f, s, mu=mu, epsilon=ep))


def skin_laws(h):
    h.eq('skin depth is the decay length', h.q('dFalse') * h.fn('imag', h.q('kFalse')), -1)


case('C15', 'finding_skin_depth', laws=skin_laws, tier='finding', bounds='')(base)


def pw_many_laws(h):
    for k in 'EJHB':
        M = h.q(k)
        h.true(f'shape of {k}', tuple(M.shape) == (2, 2, 3), str(M.shape))
        for i in range(2):
            for j in range(2):
                for c in range(3):
                    h.eq(f'frequencies and points at once ({k})', M[i, j, c], h.q(f'{k}{i}{j}')[c])


@case('C15', 'plane_wave_many', laws=pw_many_laws, bounds='two frequencies, two points, polarisation (3,-4,0)')
def pwm(h):
    fd = h.mod('geoana.em.fdem')
    P = [h.vec('d'), h.vec('e')]
    f = [h.pos('f'), h.pos('f1')]
    kw = dict(amplitude=h.real('amp'), orientation=h.arr([3, -4, 0]), sigma=h.pos('s'), mu=h.pos('mu'), epsilon=h.pos('ep'))
    names = (('E', 'electric_field'), ('J', 'current_density'), ('H', 'magnetic_field'), ('B', 'magnetic_flux_density'))
    both = fd.HarmonicPlaneWave(frequency=h.arr(f), **kw)
    for k, nm in names:
        h.put(k, getattr(both, nm)(h.arr(P)))
    for i in range(2):
        one = fd.HarmonicPlaneWave(frequency=f[i], **kw)
        for j in range(2):
            for k, nm in names:
                h.put(f'{k}{i}{j}', getattr(one, nm)(P[j]))


def zero_laws(h):
    w = 2 * h.pi * h.pos('f')
    for qs in (True, False):
        s, k = h.q(f's{qs}'), h.q(f'k{qs}')
        for n, i in enumerate((1, 3)):
            f = (1, 2)[n]
            z = h.pos('s') if qs else h.pos('s') + h.I * w * f * h.pos('ep')
            h.eq(f'complex conductivity beside zero frequencies, quasistatic={qs}', s[i] if getattr(s, 'shape', ()) else s, z)
            h.eq(f'squared wavenumber beside zero frequencies, quasistatic={qs}', k[i] * k[i], -h.I * w * f * h.pos('mu') * z)
            h.eq(f'angular frequency beside zero frequencies, quasistatic={qs}', h.q('w')[i], w * f)
        for i in (0, 2):
            h.eq(f'complex conductivity at zero frequency, quasistatic={qs}', s[i] if getattr(s, 'shape', ()) else s, h.pos('s'))
            h.eq(f'wavenumber at zero frequency, quasistatic={qs}', k[i], 0, scale=(1.0,))
        for m in 'EHJB':
            for i in range(4):
                for c in range(3):
                    h.eq(f'fields at zero and other frequencies at once ({m}, quasistatic={qs})', h.q(f'{m}{qs}')[i][c], h.q(f'{m}{qs}{i}')[c])


def zero_body(h):
    fd = h.mod('geoana.em.fdem')
    f, s, mu, ep = h.pos('f'), h.pos('s'), h.pos('mu'), h.pos('ep')
    d = h.vec('d')
    h.assume('gt', d[0] * d[0] + d[1] * d[1] + d[2] * d[2], 0)
    fs = [0, f, 0, 2 * f]
    for qs in (True, False):
        kw = dict(sigma=s, mu=mu, epsilon=ep, quasistatic=qs, orientation=h.arr([2, -1, 2]), current=h.real('cur'))
        o = fd.ElectricDipoleWholeSpace(frequency=h.arr(fs), **kw)
        h.put(f's{qs}', o.sigma_hat)
        h.put(f'k{qs}', o.wavenumber)
        h.put('w', o.omega)
        for m, nm in (('E', 'electric_field'), ('J', 'current_density'), ('H', 'magnetic_field'), ('B', 'magnetic_flux_density')):
            h.put(f'{m}{qs}', getattr(o, nm)(d))
            for i in range(4):
                h.put(f'{m}{qs}{i}', getattr(fd.ElectricDipoleWholeSpace(frequency=fs[i], **kw), nm)(d))


for prop in ('C14', 'C15', 'C23'):
    case(prop, 'zero_frequency', laws=zero_laws, bounds='four frequencies, two of them zero; one point, every medium; electric dipole of direction (2,-1,2)')(zero_body)
