"""C04: gravity of a point mass and a uniform sphere."""
from engine.case import case

XS = ['d0', 'd1', 'd2']
LOC = 'one observation point, one source; every real source position, offset, mass/density, radius'


def field_laws(h):
    g, t = h.q('g'), h.q('t')
    for i, x in enumerate(XS):
        h.eq('field is the gradient of the potential', g[i], h.d('u', x))
        for j in range(3):
            h.eq('gradient tensor is the Jacobian of the field', t[i, j], h.d('g', x)[j])
    for i in range(3):
        for j in range(i):
            h.eq('gradient tensor is symmetric', t[i, j], t[j, i])
    h.finite('values are finite', [h.q('u'), g, t])


def offset(h, nonzero=True):
    d = h.vec('d')
    if nonzero:
        h.assume('gt', d[0] * d[0] + d[1] * d[1] + d[2] * d[2], 0)
    return d


@case('C04', 'point_mass', bounds=LOC + '; offset not zero')
def pm(h):
    g = h.mod('geoana.gravity')
    l, d = h.vec('l'), offset(h)
    o = g.PointMass(h.real('m'), l)
    h.put('u', o.gravitational_potential(l + d))
    h.put('g', o.gravitational_field(l + d))
    h.put('t', o.gravitational_gradient(l + d))
    h.put('m', o.mass)


def pm_laws(h):
    field_laws(h)
    t = h.q('t')
    h.zero('Laplace equation', [t[0, 0], t[1, 1], t[2, 2]])
    from scipy.constants import G
    d = [h.real(x) for x in XS]
    r = h.norm(d)
    h.eq('potential is G m / r', h.q('u') * r, G * h.real('m'))


from engine.case import CASES   # noqa: E402
CASES['C04/point_mass'].laws = pm_laws


def sphere(h, l, d, R):
    g = h.mod('geoana.gravity')
    o = g.Sphere(R, h.real('rho'), l)
    h.put('u', o.gravitational_potential(l + d))
    h.put('g', o.gravitational_field(l + d))
    h.put('m', o.mass)
    p = g.PointMass(o.mass, l)
    h.put('pu', p.gravitational_potential(l + d))
    h.put('pg', p.gravitational_field(l + d))
    return o, p


def sphere_out_laws(h):
    field_laws(h)
    t = h.q('t')
    h.zero('Laplace equation outside', [t[0, 0], t[1, 1], t[2, 2]])
    h.eq('outside equals the point mass: potential', h.q('u'), h.q('pu'))
    h.eq('outside equals the point mass: field', h.q('g'), h.q('pg'))
    h.eq('outside equals the point mass: gradient', h.q('t'), h.q('pt'))
    R, rho = h.pos('R'), h.real('rho')
    h.eq('mass is volume times density', 3 * h.q('m'), 4 * h.pi * R * R * R * rho)


@case('C04', 'sphere_outside', laws=sphere_out_laws, bounds=LOC + '; point strictly outside')
def sp_out(h):
    l, d, R = h.vec('l'), h.vec('d'), h.pos('R')
    h.assume('gt', d[0] * d[0] + d[1] * d[1] + d[2] * d[2], R * R)
    o, p = sphere(h, l, d, R)
    h.put('t', o.gravitational_gradient(l + d))
    h.put('pt', p.gravitational_gradient(l + d))


def sphere_in_laws(h):
    field_laws(h)
    from scipy.constants import G
    t = h.q('t')
    h.eq('Poisson equation inside', t[0, 0] + t[1, 1] + t[2, 2], -4 * h.pi * G * h.real('rho'))


@case('C04', 'sphere_inside', laws=sphere_in_laws, bounds=LOC + '; point strictly inside, centre included')
def sp_in(h):
    g = h.mod('geoana.gravity')
    l, d, R = h.vec('l'), h.vec('d'), h.pos('R')
    h.assume('lt', d[0] * d[0] + d[1] * d[1] + d[2] * d[2], R * R)
    o = g.Sphere(R, h.real('rho'), l)
    h.put('u', o.gravitational_potential(l + d))
    h.put('g', o.gravitational_field(l + d))
    h.put('t', o.gravitational_gradient(l + d))


def sphere_on_laws(h):
    h.eq('potential continuous across the surface', h.q('u'), h.q('pu'))
    h.eq('field continuous across the surface', h.q('g'), h.q('pg'))
    h.finite('values are finite', [h.q('u'), h.q('g')])


@case('C04', 'sphere_surface', laws=sphere_on_laws, bounds=LOC + '; point exactly on the surface')
def sp_on(h):
    l, d = h.vec('l'), offset(h)
    sphere(h, l, d, h.norm(d))


def mass_laws(h):
    h.eq('mass reads back', h.q('m2'), h.real('m'))
    h.eq('mass sets the density', h.q('rho2') * 4 * h.pi * h.q('R3'), 3 * h.real('m'))
    h.eq('mass follows the density', 3 * h.q('m1'), 4 * h.pi * h.q('R3') * h.real('rho'))
    h.eq('mass follows the radius', 3 * h.q('m3'), 4 * h.pi * h.pos('S') * h.pos('S') * h.pos('S') * h.q('rho2'))


@case('C04', 'sphere_mass', laws=mass_laws, bounds='any radius > 0, density and mass; set in any order')
def sp_mass(h):
    g = h.mod('geoana.gravity')
    R = h.pos('R')
    o = g.Sphere(R, h.real('rho'))
    h.put('m1', o.mass)
    o.mass = h.real('m')
    h.put('m2', o.mass)
    h.put('rho2', o.rho)
    h.put('R3', R * R * R)
    o.radius = h.pos('S')
    h.put('m3', o.mass)
