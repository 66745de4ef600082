"""Planted bugs (source of /verif/seeded; never read by the checks)."""
SEEDS = {}


def seed(sid, prop, edits, demo, needs, what, **kw):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, what=what, **kw)


WS = 'geoana/em/static/wholespace.py'

seed('S03_closed_tolerance', 'C11', [(WS, """        if np.all(self.nodes[-1] == self.nodes[0]):
            return np.zeros_like(xyz)""", """        if np.allclose(self.nodes[-1], self.nodes[0]):
            return np.zeros_like(xyz)""")], """
import numpy as np
from geoana.em.static import LineCurrentWholeSpace
w = LineCurrentWholeSpace(np.array([[500000., 5400000., 0.], [500003., 5400010., 0.]]), sigma=2.0)
assert np.any(w.electric_field(np.array([500050., 5400000., -10.])) != 0)
""", 'an open wire given in projected map coordinates, its ends closer than 1e-5 of the coordinate values',
     'an open wire far from the origin is taken for a closed loop: no electric field although it has a potential')

seed('S04_sphere_centre', 'C04', [('geoana/gravity.py', """        u_g[~ind0] = G * 2 / 3 * np.pi * self.rho * (3 * self.radius ** 2 - r[~ind0] ** 2)""",
     """        u_g[~ind0] = G * 2 / 3 * np.pi * self.rho * (3 * self.radius ** 2 - np.minimum(r[~ind0], self.radius - r[~ind0] / 64) ** 2)""")], """
import numpy as np
from geoana.gravity import Sphere
s = Sphere(radius=2.0, rho=3.0, location=np.array([1., 0., 0.]))
p = np.array([[1., 0., 1.999], [1., 0., 2.001]])
u = s.gravitational_potential(p)
assert abs(u[0] - u[1]) < 2e-3 * abs(u[0])
d = 1e-4
q = np.array([1., 0., 1.98])
fd = (s.gravitational_potential(q + [0, 0, d]) - s.gravitational_potential(q - [0, 0, d])) / (2 * d)
assert np.isclose(fd, s.gravitational_field(q)[2], rtol=1e-5)
""", 'an observation point inside the sphere within 2% of its surface', 'the potential just under the surface is no longer the potential of the field')

seed('S10_cyl_pole', 'C10', [(WS, """            b = spatial.cartesian_to_cylindrical(xyz, b)""", """            b = spatial.cartesian_to_cylindrical(r_vec, b)""")], """
import numpy as np
from geoana.em.static import MagneticPoleWholeSpace
from geoana.spatial import cylindrical_to_cartesian, cartesian_to_cylindrical
o = MagneticPoleWholeSpace(location=np.array([1., 2., 0.]))
c = np.array([[3., 0.7, 1.]])
x = cylindrical_to_cartesian(c)
assert np.allclose(o.magnetic_flux_density(c, coordinates='cylindrical'), cartesian_to_cylindrical(x, o.magnetic_flux_density(x)))
""", 'a source that is not on the z axis', 'cylindrical components are taken about the source instead of the coordinate axis', count=2)

HS = 'geoana/em/static/halfspace.py'
SPH = 'geoana/em/static/sphere.py'
OK = 'geoana/earthquake/oksar.py'

seed('S22_stale_theta', 'C22', [('geoana/em/tdem/base.py', """            raise TypeError(f"times must have at most 1 dimension.")

        self._time = value
""", """            raise TypeError(f"times must have at most 1 dimension.")

        self._time = value
        self._theta = None
"""), ('geoana/em/tdem/base.py', """        return theta(self.time, self.sigma, self.mu)""", """        if self._theta is None:
            self._theta = theta(self.time, self.sigma, self.mu)
        return self._theta""")], """
import numpy as np
from geoana.em.tdem import ElectricDipoleWholeSpace
xyz = np.array([[40., 10., -30.]])
p = ElectricDipoleWholeSpace(time=[1e-5, 1e-3], sigma=0.1, orientation='Z')
p.electric_field(xyz)
p.sigma = 2.0
q = ElectricDipoleWholeSpace(time=[1e-5, 1e-3], sigma=2.0, orientation='Z')
assert np.allclose(p.electric_field(xyz), q.electric_field(xyz), rtol=1e-9, atol=0)
assert np.allclose(p.magnetic_field(xyz), q.magnetic_field(xyz), rtol=1e-9, atol=0)
""", 'fields are evaluated, then the conductivity or permeability is changed without changing the times', 'a cached diffusion parameter goes stale: the object no longer behaves as one built with its settings')

seed('S19_thick_layer_shortcut', 'C19', [('geoana/kernels/_extensions/_rTE.cpp', """                tanhuh = std::tanh(u * h[k]);
                Yh = Y * (Yh + Y*tanhuh)/(Y + Yh*tanhuh);""", """                if (std::imag(u * h[k]) > 4.0){
                    Yh = Y;  // nothing returns through a thick layer
                    continue;
                }
                tanhuh = std::tanh(u * h[k]);
                Yh = Y * (Yh + Y*tanhuh)/(Y + Yh*tanhuh);""")], """
import numpy as np
from geoana.kernels import rTE_forward
from geoana.kernels.tranverse_electric_reflections import _rTE_forward
f, lam, h = np.array([2e6]), np.array([0.001]), np.array([30.0])
# a polarisable medium: displacement currents exceed conduction
sig, mu = np.array([[1e-4 + 4e-3j], [0.3 + 0j]]), np.full((2, 1), 4e-6 + 0j)
a, b = rTE_forward(f, lam, sig, mu, h), _rTE_forward(f, lam, sig, mu, h)
assert np.allclose(a, b, rtol=1e-6), (a, b)
""", 'a propagating (not decaying) wave in a layer several radians thick', 'the compiled kernel ignores the reflection from below such a layer and disagrees with the Python kernel and the layer composition')

seed('S13_surface_conductivity', 'C13', [(SPH, """        sigma[r <= self.radius] = self.sigma_sphere""", """        sigma[r < self.radius] = self.sigma_sphere""")], """
import numpy as np
from geoana.em.static import ElectrostaticSphere
s = ElectrostaticSphere(radius=5.0, sigma_sphere=10.0, sigma_background=1.0)
on = np.array([3.0, 0.0, 4.0])
J = s.current_density(on, field='total')
# the normal current is continuous: limit from inside and from outside
n = on / 5
a = s.current_density(on * (1 - 1e-9), field='total') @ n
b = s.current_density(on * (1 + 1e-9), field='total') @ n
assert np.isclose(a, b) and np.isclose(J @ n, a), (J @ n, a, b)
""", 'a point exactly on the surface of the sphere', 'on the surface the inside field is multiplied by the outside conductivity: the normal current jumps')

seed('S21_permeability_any', 'C21', [('geoana/em/fdem/layered.py', """        if (value.real < mu_0).any():""", """        if (value.real < mu_0).all():""")], """
import numpy as np
from scipy.constants import mu_0
from geoana.em.fdem import MagneticDipoleLayeredHalfSpace
try:
    MagneticDipoleLayeredHalfSpace(frequency=[1., 10.], thickness=[5.], sigma=[1., 2.], mu=[2 * mu_0, 0.5 * mu_0])
except ValueError:
    pass
else:
    raise AssertionError('inadmissible permeability accepted')
""", 'several layers, only some of which have an inadmissible permeability', 'permeabilities below that of free space are accepted')

seed('S25_units', 'C25', [(OK, """                xi[(np.abs(xi/dc_max) < EPS) | (np.abs(xi) < EPS)] = F0""", """                xi[(np.abs(xi/dc_max) < EPS) | (np.abs(xi) < 50.0)] = F0""")], """
import numpy as np
from geoana.earthquake.oksar import Oksar
def u(x, y, **kw):
    return Oksar([x, y], [1., 0.], [0., 1.], [0., 0.], 1000., depth_bottom=3000., strike=90., dip=30., rake=90., slip=1., length=4000., shape=(1, 1), **kw).displacement_vector[0]
# the displacement varies smoothly past the end of the fault
g = np.array([u(2000. + t, 700.) for t in np.linspace(-200, 200, 81)])
d = np.linalg.norm(np.diff(g, axis=0), axis=1)
assert d.max() < 3 * np.median(d), (d.max(), np.median(d))
""", 'a point within 50 m of the plane through the end of the fault', 'the displacement jumps there')

seed('S26_southern_hemisphere', 'C26', [(OK, """            utm.to_latlon(u[0], u[1], np.abs(utmZone), northern=utmZone > 0)
            for u in locations""", """            utm.to_latlon(u[0], u[1], np.abs(utmZone), northern=True)
            for u in locations""")], """
import numpy as np
from geoana.earthquake.oksar import EarthquakeInterferogram
ref = [741140., 4230327.]
e = EarthquakeInterferogram(np.zeros(4), 't', [706216., 4269238.], -35, (2, 2), [80., 80.], ref, 23., 192., 788792., 'x')
los = e.get_LOS_vector([ref])
assert np.isclose(los[2], np.cos(np.deg2rad(23.)), atol=1e-6), los
""", 'an interferogram in the southern hemisphere (negative UTM zone)', 'the line of sight at the reference point does not have the given incidence')

seed('S17_flux_rate_permeability', 'C17', [('geoana/em/tdem/simple_functions.py', """    return mu * magnetic_field_time_deriv_magnetic_dipole(
        t, xy, sigma=sigma, mu=mu, moment=moment
    )""", """    return mu * magnetic_field_time_deriv_magnetic_dipole(
        t, xy, sigma=sigma, moment=moment
    )""")], """
import numpy as np
from geoana.em.tdem.simple_functions import magnetic_flux_time_deriv_magnetic_dipole as rate, magnetic_flux_vertical_magnetic_dipole as flux
mu, t, xy = 8e-6, 1e-3, np.array([[20., 10.]])
d = 1e-7
fd = (flux(np.array([t + d]), xy, 0.3, mu) - flux(np.array([t - d]), xy, 0.3, mu)) / (2 * d)
assert np.allclose(fd, rate(np.array([t]), xy, 0.3, mu), rtol=1e-4, atol=0)
""", 'a permeability other than that of free space', 'the reported rate is not the time derivative of the reported flux')

seed('S18_oblique', 'C18', [('geoana/em/fdem/halfspace.py', """            if src_y != 0.0:
                em_x +=""", """            elif src_y != 0.0:
                em_x +=""")], """
import numpy as np
from geoana.em.fdem import MagneticDipoleHalfSpace
xy = np.array([[30., 40.]])
def H(o):
    return MagneticDipoleHalfSpace(frequency=1e4, sigma=0.1, orientation=o).magnetic_field(xy)
s = np.array([0.6, 0.8, 0.])
assert np.allclose(H(s), 0.6 * H('X') + 0.8 * H('Y'))
""", 'an oblique horizontal dipole with both horizontal components', 'the second component of the source is dropped: sources no longer superpose')

seed('S20_oblique', 'C20', [('geoana/em/fdem/layered.py', """        if src_z != 0.0:
            # C0x += 0.0
            C1x +=""", """        elif src_z != 0.0:
            # C0x += 0.0
            C1x +=""")], """
import numpy as np
from geoana.em.fdem import MagneticDipoleLayeredHalfSpace
xyz = np.array([[30., 40., 1.]])
def H(o):
    return MagneticDipoleLayeredHalfSpace(frequency=[1e3, 1e4], thickness=[5.], sigma=[0.1, 0.01], location=np.r_[0, 0, 2.], orientation=o).magnetic_field(xyz)
s = np.array([0., 0.6, 0.8])
assert np.allclose(H(s), 0.6 * H('Y') + 0.8 * H('Z'))
""", 'a dipole with both a y and a z component', 'the vertical component of the source is dropped')

seed('S15_small_displacement', 'C15', [('geoana/em/fdem/base.py', """        if np.all(np.imag(sigma) == 0):""", """        if np.allclose(np.imag(sigma), 0):""")], """
import numpy as np
from scipy.constants import epsilon_0
from geoana.em.fdem import BaseFDEM
b = BaseFDEM(frequency=50.0, sigma=1e-9)
assert np.isclose(b.sigma_hat, 1e-9 + 1j * 2 * np.pi * 50 * epsilon_0, rtol=1e-6, atol=0)
""", 'a frequency below 180 Hz in a very resistive medium', 'the complex conductivity loses its imaginary part')

seed('S08_above_below', 'C08', [('geoana/em/static/freespace.py', """np.all(xyz <= self.max_location, axis=-1)""", """np.all(xyz[..., :2] <= self.max_location[:2], axis=-1)""")], """
import numpy as np
from geoana.em.static import MagneticPrism
from scipy.constants import mu_0
p = MagneticPrism([-1, -1, -1], [1, 1, 1], magnetization=[0, 0, 2.])
x = np.array([0.2, 0.1, 3.0])
assert np.allclose(p.magnetic_flux_density(x), mu_0 * p.magnetic_field(x))
""", 'a point above the prism, within its footprint', 'the magnetization is added outside the box')

seed('S24_negative_current', 'C24', [('geoana/em/tdem/wholespace.py', """        term1 = (self.current * self.length) / (4 * np.pi * r**2)
        term2_dt""", """        term1 = (np.abs(self.current) * self.length) / (4 * np.pi * r**2)
        term2_dt""")], """
import numpy as np
from geoana.em.tdem import ElectricDipoleWholeSpace
x = np.array([[3., 1., 2.]])
a = ElectricDipoleWholeSpace(time=1e-4, current=2.0, orientation='Z').magnetic_field_time_deriv(x)
b = ElectricDipoleWholeSpace(time=1e-4, current=-2.0, orientation='Z').magnetic_field_time_deriv(x)
assert np.allclose(a, -b)
""", 'a negative current', 'the rate of the magnetic field does not change sign with the current')

seed('S16_peak', 'C16', [('geoana/em/tdem/base.py', """        return peak_time(z, self.sigma, self.mu)""", """        return peak_time(z, self.sigma)""")], """
from geoana.em.tdem import TransientPlaneWave
w = TransientPlaneWave(time=1e-3, sigma=2.0, mu=5e-6)
assert abs(w.peak_time(10.) - 5e-6 * 2.0 * 100 / 6) < 1e-12
""", 'a permeability other than that of free space', 'the peak time ignores the permeability of the medium')

seed('S01_polar_axis', 'C01', [('geoana/spatial.py', """    v_phi = - vec[..., 0] * np.sin(phi) + vec[..., 1] * np.cos(phi)
""", """    phi = np.where(rho > 1E-6 * np.abs(grid[..., 2]), phi, 0.0)
    v_phi = - vec[..., 0] * np.sin(phi) + vec[..., 1] * np.cos(phi)
""")], """
import numpy as np
from geoana.spatial import cartesian_to_spherical, spherical_to_cartesian
p = np.array([[0.0, 5e-7, 2.0]])
v = np.array([[1.0, -2.0, 0.5]])
s = cartesian_to_spherical(p)
assert np.allclose(spherical_to_cartesian(s, cartesian_to_spherical(p, v)), v)
""", 'a point within 1e-6 rad of the polar axis, off the x-z plane', 'vectors next to the polar axis get azimuthal components along another direction than their points')

seed('S02_nearly_parallel', 'C02', [('geoana/spatial.py', "def rotation_matrix_from_normals(v0, v1, tol=1e-20, as_matrix=True):",
     "def rotation_matrix_from_normals(v0, v1, tol=1e-6, as_matrix=True):")], """
import numpy as np
from geoana.spatial import rotation_matrix_from_normals as R
u, v = np.array([1.0, 0.0, 0.0]), np.array([1.0, 5e-7, -3e-7])
assert np.allclose(R(u, v) @ u, v / np.linalg.norm(v), atol=1e-12)
""", 'two directions closer than 1e-6 rad to each other', 'nearly parallel directions are not rotated onto each other')

seed('S09_plane_of_the_loop', 'C09', [(WS, """        A_cyl = np.zeros_like(r_vec)
""", """        A_cyl = np.zeros_like(r_vec)
        z = np.where(np.abs(z) < 1E-3 * a, 0.0, z)
""")], """
import numpy as np
from geoana.em.static import CircularLoopWholeSpace
o = CircularLoopWholeSpace(radius=2.0, orientation='Z')
d = 1e-5
p = np.array([1.0, 0.5, 0.0015])
A = lambda q: o.vector_potential(q[None])[0]
J = np.array([(A(p + d * e) - A(p - d * e)) / (2 * d) for e in np.eye(3)])
curl = np.array([J[1, 2] - J[2, 1], J[2, 0] - J[0, 2], J[0, 1] - J[1, 0]])
b = o.magnetic_flux_density(p[None])[0]
assert np.allclose(curl, b, rtol=1e-4, atol=1e-6 * np.abs(b).max()), (curl, b)
""", 'a point nearer to the plane of the loop than a thousandth of its radius', 'the horizontal flux density there is no longer the curl of the vector potential')

seed('S12_reference_electrode', 'C12', [(HS, """            v = vm - vn
""", """            v = vm - vn if np.ndim(vm) == np.ndim(vn) else vm
""")], """
import numpy as np
from geoana.em.static import DipoleHalfSpace
o = DipoleHalfSpace(100.0, location_a=np.r_[-10., 0, 0], location_b=np.r_[10., 0, 0])
m, n = np.array([[1., 2., 0.], [3., 2., -1.]]), np.array([50., 3., -2.])
assert np.allclose(o.potential(m, n), [o.potential(q, n) for q in m])
""", 'several electrodes M with one common electrode N', 'the potential of the common electrode is not subtracted')

seed('S14_quasistatic', 'C14', [('geoana/em/fdem/base.py', """        self.quasistatic = quasistatic
""", """        self.quasistatic = quasistatic and not np.any(np.asarray(frequency) > 1E6)
""")], """
import numpy as np
from geoana.em.fdem import MagneticDipoleWholeSpace
kw = dict(sigma=1e-4, epsilon=8e-11, quasistatic=True)
o = MagneticDipoleWholeSpace(frequency=2e6, **kw)
w = 2 * np.pi * 2e6
assert np.isclose(o.wavenumber, np.sqrt(-1j * w * o.mu * 1e-4))
d, p = 1e-3, np.array([3., 2., 1.])
J = np.array([(o.electric_field(p + d * e) - o.electric_field(p - d * e)) / (2 * d) for e in np.eye(3)])
curl = np.array([J[1, 2] - J[2, 1], J[2, 0] - J[0, 2], J[0, 1] - J[1, 0]])
assert np.allclose(curl, -1j * w * o.mu * o.magnetic_field(p), rtol=1e-3)
""", 'a quasistatic source at more than 1 MHz', 'the displacement current is not left out although it was asked for')

seed('S23_descending_times', 'C23', [('geoana/em/tdem/base.py', """        if value.ndim > 1:
            raise TypeError(f"times must have at most 1 dimension.")
""", """        if value.ndim > 1:
            raise TypeError(f"times must have at most 1 dimension.")
        if value.ndim == 1 and np.all(np.diff(value) < 0):
            value = value[::-1]
""")], """
import numpy as np
from geoana.em.tdem import ElectricDipoleWholeSpace
t = np.array([1e-3, 1e-4, 1e-5])
p = np.array([[10., 5., 1.]])
many = ElectricDipoleWholeSpace(time=t, sigma=0.1).electric_field(p)
for i in range(3):
    assert np.allclose(many[i], ElectricDipoleWholeSpace(time=t[i], sigma=0.1).electric_field(p))
""", 'times given in descending order', 'the results come in another order than the times')

seed('S06_kernel_next_to_axis', 'C06', [('geoana/kernels/potential_field_prism.py', """    nz = nz_x & nz_y & (temp > 0.0)
""", """    nz = nz_x & nz_y & (temp > 1E-8)
""")], """
import numpy as np
from geoana.kernels import potential_field_prism as k
x, y, z = np.array([1e-3]), np.array([2e-3]), np.array([-1e3])
assert np.allclose(k._prism_f(x, y, z), k.prism_f(x, y, z), rtol=1e-6, atol=0)
""", 'a point just beside the negative z axis, far from the corner', 'compiled and Python kernels differ there')
