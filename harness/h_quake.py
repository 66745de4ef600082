"""C25 surface displacement of a rectangular fault, C26 earthquake records."""
from engine.case import case

KM = 1000


def fault(h, P, **kw):
    """displacement at the single point P."""
    m = h.mod('geoana.earthquake.oksar')
    kw.setdefault('shape', (1, 1))
    return m.Oksar(P, [1, 0], [0, 1], **kw)


def frame(h, strike):
    """(strike direction, direction to its right, strike angle in degrees)"""
    if strike == 'any' or isinstance(strike, tuple):
        t = h.real('ts', '1/20', 20) if strike == 'any' else h.const(strike[0]) / strike[1]
        s, c = 2 * t / (1 + t * t), (1 - t * t) / (1 + t * t)
        return (s, c), (c, -s), 2 * h.fn('atan', t) * 180 / h.pi
    s = {0: (0, 1), 90: (1, 0), 180: (0, -1), 270: (-1, 0)}[strike]
    return s, (s[1], -s[0]), strike


def dipangle(h, dip):
    if dip == 'any' or isinstance(dip, tuple):
        t = h.real('t', '1/20', '19/20') if dip == 'any' else h.const(dip[0]) / dip[1]
        return 2 * t / (1 + t * t), (1 - t * t) / (1 + t * t), 2 * h.fn('atan', t) * 180 / h.pi
    return 1, 0, 90


def okada(h, xs, yr, sd, cd, vertical, L, h1, h2, al, rk, on_trace=False):
    """Okada (1985), equations 25-30, in the frame of that paper: x along strike from the lower corner, y up dip, to the left."""
    W = (h2 - h1) / sd
    x, y, d = xs + L / 2, -yr + h2 * cd / sd, h2
    p, q = y * cd + d * sd, y * sd - d * cd

    def f(xi, et):
        R = h.sqrt(xi * xi + et * et + q * q)
        X = h.sqrt(xi * xi + q * q)
        yt, dt = et * cd + q * sd, et * sd - q * cd
        T = 0 if on_trace else h.fn('atan', xi * et / (q * R))
        if vertical:
            I1 = -al / 2 * xi * q / (R + dt) ** 2
            I3 = al / 2 * (et / (R + dt) + yt * q / (R + dt) ** 2 - h.log(R + et))
            I4 = -al * q / (R + dt)
            I5 = -al * xi * sd / (R + dt)
        else:
            I5 = al * 2 / cd * h.fn('atan', (et * (X + q * cd) + X * (R + X) * sd) / (xi * (R + X) * cd))
            I4 = al / cd * (h.log(R + dt) - sd * h.log(R + et))
            I3 = al * (yt / (cd * (R + dt)) - h.log(R + et)) + sd / cd * I4
            I1 = al * (-xi / (cd * (R + dt))) - sd / cd * I5
        I2 = al * (-h.log(R + et)) - I3
        ss = [xi * q / (R * (R + et)) + T + I1 * sd, yt * q / (R * (R + et)) + q * cd / (R + et) + I2 * sd,
              dt * q / (R * (R + et)) + q * sd / (R + et) + I4 * sd]
        ds = [q / R - I3 * sd * cd, yt * q / (R * (R + xi)) + cd * T - I1 * sd * cd, dt * q / (R * (R + xi)) + sd * T - I5 * sd * cd]
        c, s = rk
        return [-(c * a + s * b) / (2 * h.pi) for a, b in zip(ss, ds)]
    A, B, C, D = f(x, p), f(x, p - W), f(x - L, p), f(x - L, p - W)
    return [A[i] - B[i] - C[i] + D[i] for i in range(3)]


def far1(h, t):
    h.assume('gt', h.fn('abs', t), h.const(1) / 100)
    h.assume('lt', h.fn('abs', t), 1000)


def setup(h, strike, dip, on_trace=False):
    """point (xs along strike, yr to the right of it) off the four corners' planes, outside the zones the code treats as on them."""
    e, n, sdeg = frame(h, strike)
    sd, cd, ddeg = dipangle(h, dip)
    xs, yr = h.real('xs', -50, 50), h.real('yr', -50, 50)
    L, h1, h2 = h.real('L', '1/10', 50), h.real('h1', '1/100', 20), h.real('h2', '1/10', 30)
    h.assume('gt', h2, h1 + h.const(1) / 100)
    if on_trace:
        yr = 0
    far(h, xs, yr, sd, cd, L, h1, h2, on_trace)
    c = [h.real('c0'), h.real('c1')]
    P = [c[0] + xs * e[0] + yr * n[0], c[1] + xs * e[1] + yr * n[1]]
    return e, n, sdeg, sd, cd, ddeg, xs, yr, L, h1, h2, c, P


def far(h, xs, yr, sd, cd, L, h1, h2, on_trace=False):
    for t in (xs - L / 2, xs + L / 2, xs) + (() if on_trace else (yr * cd - h1 / sd, yr * cd - h2 / sd, yr * sd)):
        far1(h, t)


B = 'one grid point within 50 length units of the fault and more than 0.01 unit off the planes through its edges; '


def okada_laws(h):
    e, n = h.q('e'), h.q('n')
    u = h.d('u', 'L')
    w = [h.d(f'w{i}', 'L') for i in range(3)]
    h.eq('published solution, along strike', u[0] * e[0] + u[1] * e[1], w[0], scale=(u[0], u[1]))
    h.eq('published solution, across strike', u[0] * n[0] + u[1] * n[1], -w[1], scale=(u[0], u[1]))
    h.eq('published solution, up', u[2], w[2], scale=(u[0], u[1]))
    for i in range(3):
        h.eq('a fault of no length does nothing', 1 + h.q('u0')[i], 1)


def okada_case(name, dip, rake, tier='quick', on_trace=False):
    def b(h):
        e, n, sdeg, sd, cd, ddeg, xs, yr, L, h1, h2, c, P = setup(h, 0, dip, on_trace)
        mu, be, sl = h.pos('mu'), h.pos('be'), h.pos('sl')
        kw = dict(center=c, depth_top=h1, depth_bottom=h2, strike=sdeg, dip=ddeg, rake=0 if rake == 'ss' else 90, slip=sl, beta=be, mu=mu)
        h.put('u', fault(h, P, length=L, **kw).displacement_vector[0])
        h.put('u0', fault(h, P, length=0, **kw).displacement_vector[0])
        w = okada(h, xs, yr, sd, cd, dip == 90, L, h1, h2, mu / (be + mu), (sl, 0) if rake == 'ss' else (0, sl), on_trace)
        for i in range(3):
            h.put(f'w{i}', w[i])
        h.store['e'], h.store['n'] = e, n
    d = '2*atan(t) for every t in [1/20, 19/20]' if dip == 'any' else f'2*atan({dip[0]}/{dip[1]})' if dip != 90 else '90'
    case('C25', f'okada_{name}', laws=okada_laws, tier=tier, bounds=B + f'strike 0, dip {d}' + (', point above the trace' if on_trace else ''), **OPT)(b)


OPT = dict(lazy_max=True, shortcut=True, by_parts=True)
for nm, dip in (('3_4_5', (1, 3)), ('4_3_5', (1, 2)), ('shallow', (1, 10)), ('steep', (499, 500)), ('flat', (1, 500)), ('vertical', 90), ('any', 'any')):
    for rk in ('ss', 'ds'):
        okada_case(f'{nm}_{rk}', dip, rk, tier='quick' if nm in ('3_4_5', 'steep', 'flat', 'vertical') else 'thorough')
for rk in ('ss', 'ds'):
    okada_case(f'trace_{rk}', (1, 2), rk, on_trace=True)


def lin_laws(h):
    c, s = h.q('cs')
    for i in range(3):
        a, b = h.q('a')[i], h.q('b')[i]
        h.eq('linear in slip, and slip resolved along the rake', h.q('u')[i], h.pos('sl') * (c * a + s * b), scale=(a, b))


@case('C25', 'slip_and_rake', laws=lin_laws, bounds=B + 'every slip > 0 and rake in [-3, 3] rad, dip 2*atan(1/2), strike 0', **OPT)
def lin(h):
    e, n, sdeg, sd, cd, ddeg, xs, yr, L, h1, h2, c, P = setup(h, 0, (1, 2))
    kw = dict(center=c, depth_top=h1, depth_bottom=h2, strike=sdeg, dip=ddeg, length=L, beta=h.pos('be'), mu=h.pos('mu'))
    r = h.real('rk', -3, 3)
    h.assume('ne', h.fn('cos', r), 0)
    h.assume('ne', h.fn('sin', r), 0)
    h.put('u', fault(h, P, rake=r * 180 / h.pi, slip=h.pos('sl'), **kw).displacement_vector[0])
    h.put('a', fault(h, P, rake=0, slip=1, **kw).displacement_vector[0])
    h.put('b', fault(h, P, rake=90, slip=1, **kw).displacement_vector[0])
    h.store['cs'] = (h.fn('cos', r), h.fn('sin', r))


def rot_laws(h):
    e, n = h.q('e'), h.q('n')
    u, v = h.q('u'), h.q('v')
    h.eq('turns with the strike', u[0], v[0] * n[0] + v[1] * e[0], scale=(v[0], v[1]))
    h.eq('turns with the strike', u[1], v[0] * n[1] + v[1] * e[1], scale=(v[0], v[1]))
    h.eq('turns with the strike', u[2], v[2])
    for i in range(3):
        h.eq('does not depend on the unit of length', h.q('s')[i], v[i])
        h.eq('depends on the ratio of the moduli', h.q('m')[i], v[i])


for nm, strike in (('any', 'any'), ('4_3', (1, 2)), ('3_m4', (3, 1)), ('90', 90), ('270', 270)):
    def rot(h, strike=strike):
        e, n, sdeg, sd, cd, ddeg, xs, yr, L, h1, h2, c, P = setup(h, strike, (1, 2))
        kw = dict(dip=ddeg, rake=30, slip=h.pos('sl'))
        geo = dict(center=c, depth_top=h1, depth_bottom=h2, length=L)
        el = dict(beta=h.pos('be'), mu=h.pos('mu'))
        h.put('u', fault(h, P, strike=sdeg, **kw, **geo, **el).displacement_vector[0])
        h.put('v', fault(h, [yr, xs], strike=0, **kw, **dict(geo, center=[0, 0]), **el).displacement_vector[0])
        h.put('s', fault(h, [yr * 3, xs * 3], strike=0, **kw, center=[0, 0], depth_top=3 * h1, depth_bottom=3 * h2, length=3 * L, **el).displacement_vector[0])
        h.put('m', fault(h, [yr, xs], strike=0, **kw, **dict(geo, center=[0, 0]), beta=h.pos('k') * el['beta'], mu=h.pos('k') * el['mu']).displacement_vector[0])
        h.store['e'], h.store['n'] = e, n
    case('C25', f'strike_{nm}', laws=rot_laws, bounds=B + f'strike {strike if isinstance(strike, int) else "2*atan(t), t " + ("in [1/20, 20]" if strike == "any" else f"= {strike[0]}/{strike[1]}")}, dip 2*atan(1/2), rake 30', **OPT)(rot)


def sup_laws(h):
    for i in range(3):
        u = h.q('u')[i]
        for k in ('len', 'dep'):
            if k + '1' in h.store:
                a, b = h.q(k + '1')[i], h.q(k + '2')[i]
                h.eq({'len': 'patches add up along strike', 'dep': 'patches add up down dip'}[k], u, a + b, scale=(a, b))


def sup_case(name, dip, where, tier='quick'):
    def b(h):
        on = where
        e, n, sdeg, sd, cd, ddeg, xs, yr, L, h1, h2, c, P = setup(h, 0, dip)
        kw = dict(strike=sdeg, dip=ddeg, rake=30, slip=h.pos('sl'), beta=h.pos('be'), mu=h.pos('mu'))
        h.put('u', fault(h, P, center=c, depth_top=h1, depth_bottom=h2, length=L, **kw).displacement_vector[0])
        # two patches meeting at distance m along strike from the middle
        if on != 'edge_depth':
            m = xs if on == 'edge' else h.real('m', -20, 20)
            if on != 'edge':
                far1(h, xs - m)
            h.assume('gt', m + L / 2, h.const(1) / 100)
            h.assume('lt', m - L / 2, -h.const(1) / 100)
            for k, (p0, p1) in ((1, (-L / 2, m)), (2, (m, L / 2))):
                h.put(f'len{k}', fault(h, P, center=[c[0] + (p0 + p1) / 2 * e[0], c[1] + (p0 + p1) / 2 * e[1]], depth_top=h1, depth_bottom=h2,
                                       length=p1 - p0, **kw).displacement_vector[0])
        hm = yr * cd * sd if on == 'edge_depth' else h.real('hm', '1/100', 30)
        if on != 'edge_depth':
            far1(h, yr * cd - hm / sd)
        h.assume('gt', hm, h1 + h.const(1) / 100)
        h.assume('lt', hm, h2 - h.const(1) / 100)
        if on != 'edge':
            h.put('dep1', fault(h, P, center=c, depth_top=h1, depth_bottom=hm, length=L, **kw).displacement_vector[0])
            h.put('dep2', fault(h, P, center=c, depth_top=hm, depth_bottom=h2, length=L, **kw).displacement_vector[0])
    d = '90' if dip == 90 else f'2*atan({dip[0]}/{dip[1]})'
    case('C25', f'superposition_{name}', laws=sup_laws, tier=tier, bounds=B + f'strike 0, rake 30, dip {d}' +
         {'': '', 'edge': '; the point lies exactly in the plane across strike where the two patches meet',
          'edge_depth': '; the point lies exactly on the normal through the line where the two patches meet'}[where], **OPT)(b)


sup_case('dipping', (1, 2), '')
sup_case('vertical', 90, '')
sup_case('edge', (1, 2), 'edge')
sup_case('edge_depth', (1, 2), 'edge_depth')


def grid_laws(h):
    n0, n1 = h.q('shape')
    O, U, V = h.q('O'), h.q('U'), h.q('V')
    g = h.q('g')
    h.true('one row per grid point', tuple(g.shape) == (n0 * n1, 2), str(g.shape))
    for j in range(n1):
        for i in range(n0):
            for k in range(2):
                a, b = h.const(i) / max(n0 - 1, 1), h.const(j) / max(n1 - 1, 1)
                h.eq('grid spans the parallelogram, U fastest', g[i + n0 * j, k], O[k] + a * U[k] + b * V[k], scale=(O[k], U[k], V[k]))
    if 'd' in h.store:
        d = h.q('d')
        h.true('one displacement per grid point', tuple(d.shape) == (n0 * n1, 3), str(d.shape))
        for p in range(n0 * n1):
            for k in range(3):
                h.eq('points do not influence one another', d[p, k], h.q(f'd{p}')[k])


for shp in ((2, 3), (3, 2), (1, 4)):
    def grid(h, shp=shp):
        m = h.mod('geoana.earthquake.oksar')
        O, U, V = [[h.real(f'{k}{i}') for i in range(2)] for k in 'ouv']
        h.store.update(shape=shp, O=O, U=U, V=V)
        h.put('g', m.Oksar(O, U, V, [0, 0], 1, shape=shp).simulation_grid)
    case('C25', f'grid_{shp[0]}x{shp[1]}', laws=grid_laws, bounds='every origin and pair of directions, ' + f'{shp[0]} by {shp[1]} points')(grid)


@case('C25', 'two_points', laws=grid_laws, bounds=B + 'two grid points, dip 2*atan(1/2)', **OPT)
def two(h):
    m = h.mod('geoana.earthquake.oksar')
    e, n, sdeg, sd, cd, ddeg, xs, yr, L, h1, h2, c, P = setup(h, 0, (1, 2))
    x2, y2 = h.real('x2', -50, 50), h.real('y2', -50, 50)
    far(h, x2, y2, sd, cd, L, h1, h2)
    kw = dict(center=[0, 0], depth_top=h1, depth_bottom=h2, length=L, dip=ddeg, rake=30, slip=h.pos('sl'), beta=h.pos('be'), mu=h.pos('mu'))
    O, U, V = [yr, xs], [y2 - yr, x2 - xs], [0, 1]
    o = m.Oksar(O, U, V, shape=(2, 1), **kw)
    h.store.update(shape=(2, 1), O=O, U=U, V=V)
    h.put('g', o.simulation_grid)
    h.put('d', o.displacement_vector)
    h.put('d0', fault(h, [yr, xs], **kw).displacement_vector[0])
    h.put('d1', fault(h, [y2, x2], **kw).displacement_vector[0])


# ---------------------------------------------------------------------------------- C26
FL = ['ref_incidence', 'satellite_azimuth', 'satellite_altitude', 'scaling', 'satellite_fringe_interval', 'local_earth_radius', 'local_rigidity']
PAIR = ['location', 'pixel_size', 'ref']
TXT = ['title', 'processed_by', 'description', 'event_country', 'event_name', 'copyright', 'data_source', 'satellite_name', 'event_gcmt_id']
DAT = ['date1', 'date2', 'processed_date', 'event_date']


def record(h, p=''):
    """keyword arguments for a record with all-different symbolic contents."""
    kw = {k: h.real(p + k) for k in FL}
    kw.update({k: [h.real(p + k + '0'), h.real(p + k + '1')] for k in PAIR})
    kw.update({k: p + k for k in TXT})
    kw.update({k: f'20{10 + i}-0{i + 1}-1{i}' + ('' if i % 2 else 'T1%d:00:0%dZ' % (i, i)) for i, k in enumerate(DAT)})
    kw.update(data=[h.real(f'{p}data{i}') for i in range(6)], shape=(3, 2), location_UTM_zone=35)
    return kw


def expect(kw):
    from datetime import datetime
    e = dict(kw)
    for i, k in enumerate(DAT):
        v = kw[k]
        e[k] = datetime(int(v[:4]), int(v[5:7]), int(v[8:10]), *((int(v[11:13]), int(v[14:16]), int(v[17:19])) if len(v) > 10 else ()))
    return e


def back(h, label, obj, want):
    for k, w in want.items():
        v = getattr(obj, k)
        if isinstance(w, (str, tuple)) or k in DAT or k == 'location_UTM_zone':
            h.true(f'{label}: {k}', v == w, f'{v!r} for {w!r}')
        elif isinstance(w, list):
            h.true(f'{label}: {k} shape', tuple(v.shape) == (len(w),), str(v.shape))
            for i in range(len(w)):
                h.eq(f'{label}: {k}', v[i], w[i])
        else:
            h.eq(f'{label}: {k}', v, w)


@case('C26', 'record_constructor', bounds='every real value of the numeric entries, six data values; four dates in both formats')
def rec(h):
    m = h.mod('geoana.earthquake.oksar')
    kw = record(h)
    back(h, 'constructor', m.EarthquakeInterferogram(**kw), expect(kw))
    opt = dict(scaling=h.const(1), satellite_fringe_interval=h.const(28333) / 10**6, local_earth_radius=h.const(6371000), local_rigidity=h.const(30000000000))
    o = m.EarthquakeInterferogram(**{k: v for k, v in kw.items() if k not in opt})
    back(h, 'default', o, opt)


@case('C26', 'record_setters', bounds='every real value of the numeric entries before and after; one entry changed at a time')
def rec2(h):
    m = h.mod('geoana.earthquake.oksar')
    a, b = record(h), record(h, 'n_')
    for i, k in enumerate(DAT):
        b[k] = f'199{i}-1{i % 3}-2{i}'
    b['shape'], b['location_UTM_zone'] = (2, 3), -12
    for k in b:
        o = m.EarthquakeInterferogram(**a)
        setattr(o, k, b[k])
        back(h, f'{k} changed', o, expect(dict(a, **{k: b[k]})))


def rej_rec(h):
    pass


@case('C26', 'record_rejects', bounds='wrong shapes and types, for every real value of the entries')
def rec3(h):
    m = h.mod('geoana.earthquake.oksar')
    kw = record(h)
    o = m.EarthquakeInterferogram(**kw)
    x = h.real('x')
    for k in PAIR:
        for bad in ([x], [x, x, x], x, [[x, x], [x, x]], ['a', 'b']):
            h.raises(f'{k} of the wrong shape', (ValueError, TypeError), setattr, o, k, bad)
    for k in FL:
        for bad in ('abc', None, [x, x]):
            h.raises(f'{k} must be a number', TypeError, setattr, o, k, bad)
    for k in DAT:
        for bad in ('2010', 12, None, '2010-13-01'):
            h.raises(f'{k} must be a date', TypeError, setattr, o, k, bad)
    for bad in ((1,), (1, 2, 3), 4, ('a', 'b')):
        h.raises('shape must be two integers', (ValueError, TypeError), setattr, o, 'shape', bad)
    h.raises('zone must be an integer', TypeError, setattr, o, 'location_UTM_zone', 'x')
    back(h, 'unchanged after a rejected value', o, expect(kw))


def layout_laws(h):
    n0, n1 = h.q('shape')
    X, Y, D = h.q('plot')
    loc, px, sc = h.q('loc'), h.q('px'), h.real('sc')
    h.true('edges along the first axis', tuple(X.shape) == (n0 + 1,), str(X.shape))
    h.true('edges along the second axis', tuple(Y.shape) == (n1 + 1,), str(Y.shape))
    h.true('image shape', tuple(D.shape) == (n1, n0), str(D.shape))
    for i in range(n0 + 1):
        h.eq('eastings of the pixel edges', X[i], loc[0] + i * px[0], scale=(loc[0], px[0]))
    for j in range(n1 + 1):
        h.eq('northings of the pixel edges, down from the corner', Y[j], loc[1] + (j - n1) * px[1], scale=(loc[1], px[1]))
    for i in range(n0):
        for j in range(n1):
            d = h.real(f'd{i + n0 * j}')
            h.eq('pixels run east along a row and rows run south', D[n1 - 1 - j, i], sc * d)
    for i in range(n0 * n1):
        h.eq('stored data untouched', h.q('data')[i], h.real(f'd{i}'))


for shp in ((3, 2), (2, 3), (1, 4)):
    def lay(h, shp=shp):
        m = h.mod('geoana.earthquake.oksar')
        kw = record(h)
        d = []
        for i in range(shp[0] * shp[1]):
            d.append(h.real(f'd{i}'))
            h.assume('ne', d[-1], 0)
        px, loc = [h.pos('px0'), h.pos('px1')], [h.real('l0'), h.real('l1')]
        o = m.EarthquakeInterferogram(**dict(kw, data=d, shape=shp, pixel_size=px, location=loc, scaling=h.real('sc')))
        h.store.update(shape=shp, px=px, loc=loc)
        h.put('plot', o._get_plot_data())
        h.put('data', o.data)
    case('C26', f'layout_{shp[0]}x{shp[1]}', laws=layout_laws, bounds=f'{shp[0]} by {shp[1]} pixels, every non-zero pixel value, scaling, corner and pixel size > 0')(lay)


def eq_obj(h, az, inc, zone=35):
    m = h.mod('geoana.earthquake.oksar')
    kw = record(h)
    k = [h.real(f'k{i}', -1, 1) for i in range(5)]

    def to_latlon(e, n, zone, letter=None, northern=None, strict=True):
        # stand-in map projection: an arbitrary affine map for each hemisphere
        if not 1 <= zone <= 60:
            raise ValueError('zone number out of range (must be between 1 and 60)')
        if northern is None:
            northern = letter is None or letter.upper() >= 'N'
        return (k[0] if northern else k[4]) + e * h.const(1) / 100 + n / 50 * k[1], k[2] + n / 100 - e / 50 * k[3]
    h.use_utm(to_latlon)
    return m.EarthquakeInterferogram(**dict(kw, satellite_azimuth=az, ref_incidence=inc, satellite_altitude=h.pos('alt'), local_earth_radius=h.pos('rad'), location_UTM_zone=zone,
                                            ref=[h.real('r0'), h.real('r1')]))


def los_laws(h):
    L = h.q('los')
    s, c = h.q('az')
    h.true('three components', tuple(L.shape) == (3,), str(L.shape))
    h.eq('unit length', L[0] * L[0] + L[1] * L[1] + L[2] * L[2], 1)
    h.eq('perpendicular to the track', 1 + L[0] * s + L[1] * c, 1)
    h.le('looks up', 0, L[2])
    M = h.q('two')
    h.true('one column per location', tuple(M.shape) == (3, 2), str(M.shape))
    for i in range(3):
        h.eq('several locations at once', M[i, 0], L[i])
        h.eq('several locations at once', M[i, 1], h.q('los2')[i])


def los_ref_laws(h):
    s, c = h.q('az')
    si, ci = h.q('inc')
    R = h.q('ref')
    h.eq('incidence at the reference point', R[2] * si, ci * (c * -R[0] + s * R[1]), scale=(R[2],))


@case('C26', 'line_of_sight', laws=los_laws, bounds='every location, azimuth, altitude and Earth radius > 0, incidence in (0, 1.2) rad; map projection replaced '
      'by an arbitrary affine map; azimuth in (0.1, 6) rad', keep_angles=True)
def los(h):
    a, i = h.real('az', '1/10', 6), h.real('inc', '1/10', '6/5')
    o = eq_obj(h, a * 180 / h.pi, i * 180 / h.pi)
    p, q = [h.real('p0'), h.real('p1')], [h.real('q0'), h.real('q1')]
    h.put('los', o.get_LOS_vector(h.arr(p)))
    h.put('los2', o.get_LOS_vector([h.arr(q)]))
    h.put('two', o.get_LOS_vector([p, q]))
    h.store.update(az=(h.fn('sin', a), h.fn('cos', a)), inc=(h.fn('sin', i), h.fn('cos', i)))


for zone in (35, -35, 1, -60):
    def losr(h, zone=zone):
        a, i = h.real('az', '1/10', 6), h.real('inc', '1/10', '6/5')
        o = eq_obj(h, a * 180 / h.pi, i * 180 / h.pi, zone)
        h.put('ref', o.get_LOS_vector(h.arr([h.real('r0'), h.real('r1')])))
        h.store.update(az=(h.fn('sin', a), h.fn('cos', a)), inc=(h.fn('sin', i), h.fn('cos', i)))
    case('C26', f'line_of_sight_reference_{zone}', laws=los_ref_laws, bounds=f'as line_of_sight, at the reference point, UTM zone {zone}')(losr)


def geo_laws(h):
    """A point of the ground at the angle g from the plane of the track sees the satellite along the right
    line: spherical Earth, satellite at height alt above the great circle through the reference point."""
    s, c = h.q('az')
    si, ci = h.q('inc')
    L, P, O = h.q('los'), h.q('P'), h.q('O')
    (sx, cx), (sy, cy), (ox, oxc), (oy, oyc) = P[0], P[1], O[0], O[1]
    N = [-oy * oxc, -oy * ox, oyc]
    E_ = [-ox, oxc, 0]
    U = [oxc * oyc, ox * oyc, oy]
    T = [c * N[k] + s * E_[k] for k in range(3)]
    # right-hand side of the track
    R = [T[1] * U[2] - T[2] * U[1], T[2] * U[0] - T[0] * U[2], T[0] * U[1] - T[1] * U[0]]
    X = [cx * cy, sx * cy, sy]
    sg = sum(R[k] * X[k] for k in range(3))         # sine of the angle from the track, to the right
    q = h.pos('rad') / (h.pos('alt') + h.pos('rad'))
    cg, cd = h.sqrt(1 - sg * sg), h.sqrt(1 - q * q * si * si)
    # beta = incidence - arcsin(q sin(incidence)): angle from the satellite to the reference point
    sb, cb = si * cd - ci * q * si, ci * cd + si * q * si
    s2, c2 = sb * cg + cb * sg, cb * cg - sb * sg
    Lh = c * -L[0] + s * L[1]
    h.eq('incidence away from the reference point', 1 + Lh * (c2 - q), 1 + L[2] * s2, scale=(1.0,))


for _nm, _pt in (('near', (1, 1)), ('north', (0, 1)), ('east', (1, 0))):
    def losg(h, pt=_pt):
        a, i = h.real('az', '1/10', 6), h.real('inc', '1/10', '6/5')
        m = h.mod('geoana.earthquake.oksar')
        x, y, ox, oy = h.real('x', -1, 1), h.real('y', -1, 1), h.real('ox', -1, 1), h.real('oy', -1, 1)
        x, y = (x if pt[0] else ox), (y if pt[1] else oy)
        D = 180 / h.pi

        def to_latlon(e, n, zone, letter=None, northern=None, strict=True):
            # stand-in map projection: the coordinates are the longitude and latitude
            return n, e
        h.use_utm(to_latlon)
        o = m.EarthquakeInterferogram(**dict(record(h), satellite_azimuth=a * D, ref_incidence=i * D, satellite_altitude=h.pos('alt'), local_earth_radius=h.pos('rad'), location_UTM_zone=35,
                                             ref=[ox * D, oy * D]))
        h.put('los', o.get_LOS_vector(h.arr([x * D, y * D])))
        sc = lambda t: (h.fn('sin', t), h.fn('cos', t))     # noqa: E731
        h.store.update(az=sc(a), inc=sc(i), P=(sc(x), sc(y)), O=(sc(ox), sc(oy)))
    case('C26', f'line_of_sight_{_nm}', laws=geo_laws, bounds='every point, reference point (longitudes and latitudes up to 1 rad), azimuth in (0.1, 6) rad, altitude and Earth radius > 0, incidence in (0.1, 1.2) rad')(losg)


OK = ['depth_top', 'depth_bottom', 'strike', 'dip', 'rake', 'slip', 'length', 'beta', 'mu']


def oks(h, p=''):
    kw = {k: [h.real(f'{p}{k}{i}') for i in range(2)] for k in ('O', 'U', 'V', 'center')}
    t = h.nonneg(p + 'top')
    kw.update(depth_top=t, depth_bottom=t + h.nonneg(p + 'dz'), strike=h.real(p + 'strike', 0, 360), dip=h.real(p + 'dip', 0, 90),
              rake=h.real(p + 'rake', -180, 180), slip=h.nonneg(p + 'slip'), length=h.nonneg(p + 'length'), beta=h.real(p + 'beta'), mu=h.real(p + 'mu'))
    return kw


@case('C26', 'fault_settings', bounds='every admissible value of the fault parameters before and after; one parameter changed at a time')
def okset(h):
    m = h.mod('geoana.earthquake.oksar')
    a, b = oks(h), oks(h, 'n_')
    o = m.Oksar(shape=(4, 5), **a)
    back(h, 'constructor', o, a)
    h.true('shape', [int(v) for v in o.shape] == [4, 5], str(o.shape))
    for k in b:
        if k == 'depth_top':
            continue
        o = m.Oksar(shape=(4, 5), **a)
        v = b[k]
        if k == 'depth_bottom':
            v = a['depth_top'] + h.nonneg('n_dz')
        setattr(o, k, v)
        back(h, f'{k} changed', o, dict(a, **{k: v}))
    o = m.Oksar(shape=(4, 5), **a)
    back(h, 'defaults', m.Oksar(a['O'], a['U'], a['V'], a['center'], 0), dict(depth_bottom=10000, strike=0, dip=45, rake=90, length=10000, beta=30000000000, mu=30000000000))


@case('C26', 'fault_rejects', bounds='every value outside the documented range of each fault parameter')
def okrej(h):
    m = h.mod('geoana.earthquake.oksar')
    a = oks(h)
    o = m.Oksar(**a)
    d, x = h.pos('d'), h.real('x')
    for k, bads in dict(depth_top=[-d], depth_bottom=[a['depth_top'] - d], strike=[-d, 360 + d], dip=[-d, 90 + d], rake=[-180 - d, 180 + d], slip=[-d],
                        length=[-d]).items():
        for v in bads:
            h.raises(f'{k} out of range', ValueError, setattr, o, k, v)
    for k in OK:
        for v in ('abc', None, [x, x]):
            h.raises(f'{k} must be a number', TypeError, setattr, o, k, v)
    for k in ('O', 'U', 'V', 'center'):
        for v in ([x], [x, x, x], x, [[x, x], [x, x]]):
            h.raises(f'{k} of the wrong shape', ValueError, setattr, o, k, v)
    for v in ((1,), (1, 2, 3), 'ab'):
        h.raises('shape must be two integers', (TypeError, ValueError), setattr, o, 'shape', v)
    back(h, 'unchanged after a rejected value', o, a)
