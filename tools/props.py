"""Property definitions (single source for properties.jsonl and MANIFEST.json)."""
P = {}


def prop(pid, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state]))


I = ['inputs']
IC = ['inputs', 'configurations']

prop('C01', 'Coordinate transforms are exact inverses and orthonormal',
     'Converting points between cartesian and cylindrical or spherical coordinates and back returns the same points. Converting vectors '
     'expresses them along the local coordinate directions, preserves their length and also converts back exactly. Every input array '
     'shape, and every spelling of the conversion functions, gives the same result.',
     I, 'every point (axis and origin included), every attached vector, point arrays of one to three dimensions, two-column polar grids',
     'Tests compare a few fixed points; the law is over all real coordinates and its failures sit in single octants, axes or components.',
     ['geoana/spatial.py'], [('conversion formulas', 'geoana/spatial.py: *_to_cartesian, cartesian_to_*')],
     ['geoana.spatial conversion functions'])
prop('C02', 'Rotations map directions as promised and are proper rotations',
     'The rotation built from two directions maps the first direction onto the second, for every pair of non-zero vectors of any length, '
     'parallel and anti-parallel pairs included. Every returned matrix is orthogonal with determinant one and leaves the common normal '
     'fixed. Rotating a cloud of points keeps distances, fixes the given centre and is undone by the reverse rotation.',
     I, 'pairs of directions incl. parallel and anti-parallel ones; every point set and centre',
     'Tests use random pairs; parallel and anti-parallel pairs and degenerate axes have probability zero there.',
     ['geoana/spatial.py'], [('Rodrigues formula and special cases', 'geoana/spatial.py: rotation_matrix_from_normals, rotate_points_from_normals')],
     ['geoana.spatial.rotation_matrix_from_normals', 'geoana.spatial.rotate_points_from_normals'])
prop('C03', 'Grid and vector helpers return what they describe',
     'Grid construction returns exactly the tensor product of the axes, in the documented ordering, for any number of axes and any sizes. '
     'The vector helpers return true magnitudes, dot products, distances and unit repetitions, for every input.',
     IC, 'every axis content and length (bounded), 1-3 axes, both output forms; every vector',
     'Tests use one or two grids with equal spacings, where transposed orderings can agree.',
     ['geoana/utils.py', 'geoana/spatial.py'], [('mkvc / ndgrid ordering', 'geoana/utils.py'), ('vector helpers', 'geoana/spatial.py')],
     ['geoana.utils', 'geoana.spatial'])
prop('C04', 'Gravity of point masses and spheres obeys Newtonian potential theory',
     'The gravitational field is the gradient of the potential and the gradient tensor is the symmetric Jacobian of the field, with trace '
     'zero outside the mass and minus 4 pi G rho inside it. Outside, a sphere attracts exactly like a point of its total mass, and its '
     'potential and field are continuous across the surface. Mass, density and radius stay consistent in whatever order they are set.',
     ['inputs', 'histories'], 'every location, point, mass, density and radius > 0; points outside, inside, at the centre and on the surface',
     'Tests check point values at random points; they compare against a copy of the same formula and never relate the three outputs.',
     ['geoana/gravity.py'], [('closed forms', 'geoana/gravity.py: PointMass, Sphere')], ['geoana.gravity.PointMass', 'geoana.gravity.Sphere'])
prop('C05', 'Prism kernels differentiate into one another',
     'Summed over the corners of any box, the prism potential kernel differentiates, with respect to the observation point, into the '
     'first-derivative kernel, that one into the second-derivative kernels, and those into the third-derivative kernels.',
     I, 'every box and every observation point whose offsets from the six face planes are not zero',
     'Tests compare with symbolic integrals at isolated points; the relation must hold in every octant and for every box.',
     ['geoana/kernels/potential_field_prism.py', 'geoana/kernels/_extensions/potential_field_prism.pyx'],
     [('closed form kernels', 'geoana/kernels/potential_field_prism.py')], ['geoana.kernels.prism_f and relatives'])
prop('C06', 'Compiled and pure-Python kernels are interchangeable',
     'The compiled prism kernels return the same values as the pure-Python implementations used when no extension is available, '
     'everywhere, including on axes, on coordinate planes and at the corner.',
     IC, 'every real x, y, z; every branch of both implementations',
     'Only one of the two implementations is reached by most tests in a given environment, and the special branches need exact zeros.',
     ['geoana/kernels/_extensions/potential_field_prism.pyx', 'geoana/kernels/potential_field_prism.py'],
     [('node evaluations', 'geoana/kernels/_extensions/potential_field_prism.pyx'), ('fallback', 'geoana/kernels/potential_field_prism.py')],
     ['geoana.kernels'])
prop('C07', 'Gravity of a rectangular prism obeys Newtonian potential theory',
     'For every box and density, the gravitational field is the gradient of the potential, the gradient tensor is the symmetric Jacobian '
     'of the field, and its trace is zero outside the box and minus 4 pi G rho inside. Cutting a box in two leaves the sum of the parts '
     'equal to the whole.',
     I, 'every box, density and observation point, in each of the 27 zones inside, above, below and beside the box, off the face planes',
     'Tests sample random points and compare with stored or re-derived numbers; sign errors confined to a zone, a face or one tensor '
     'component, and non-additivity, are invisible to them.',
     ['geoana/gravity.py', 'geoana/shapes.py', 'geoana/kernels/_extensions/potential_field_prism.pyx'],
     [('box evaluation', 'geoana/shapes.py: BasePrism._eval_def_int'), ('prism formulas', 'geoana/gravity.py: Prism'),
      ('kernels', 'geoana/kernels/_extensions/potential_field_prism.pyx')], ['geoana.gravity.Prism'])
prop('C08', 'Magnetics of a rectangular prism obeys magnetostatics',
     'For every box and magnetization, the magnetic field is minus the gradient of the scalar potential and the field gradient is the '
     'symmetric Jacobian of the field. The flux density is mu0 times field plus magnetization, with the magnetization added inside the '
     'box only, and is free of divergence on both sides. Field and gravity tensor of the same box satisfy the Poisson relation.',
     I, 'every box, magnetization and observation point, in each of the 27 zones inside, above, below and beside the box, off the face planes',
     'Tests sample a handful of points per quantity; they never relate potential, field, gradient and flux density over all zones.',
     ['geoana/em/static/freespace.py', 'geoana/shapes.py', 'geoana/kernels/_extensions/potential_field_prism.pyx'],
     [('box evaluation', 'geoana/shapes.py: BasePrism._eval_def_int'), ('prism formulas', 'geoana/em/static/freespace.py: MagneticPrism')],
     ['geoana.em.static.MagneticPrism'])
prop('C09', 'Static magnetic sources obey magnetostatics',
     'For magnetic dipoles, poles and circular loops of any location and orientation, the flux density is the curl of the vector '
     'potential, is divergence free, equals the permeability times the field, and the field is curl free away from the source. The dipole '
     'is the directional derivative of the pole, and the loop agrees with its known values on and near its axis.',
     IC, 'every location, orientation, strength, radius, permeability > 0 and every observation point off the source',
     'Tests compare with re-typed formulas for a few orientations; relations between the outputs and degenerate points are never tested.',
     ['geoana/em/static/wholespace.py', 'geoana/em/base.py'],
     [('closed forms, elliptic integrals, near-axis series', 'geoana/em/static')],
     ['vector_potential, magnetic_flux_density, magnetic_field of the static sources'])
prop('C10', 'Cylindrical output is the rotated cartesian output',
     'Asking a static magnetic source for results in cylindrical coordinates gives, at the same physical point, exactly the radial, '
     'azimuthal and vertical components of the cartesian result. The name of the coordinate system is case-insensitive, and unknown '
     'systems are refused.',
     IC, 'every location, orientation, strength and every point given in cylindrical coordinates with positive radius',
     'Tests check two sources at one azimuth convention.',
     ['geoana/em/static/wholespace.py'], [('conversion of points and vectors', 'geoana/em/static')],
     ['coordinates= option'])
prop('C11', 'Line and point currents obey the static Maxwell equations',
     'For any current path, the flux density is the curl of the vector potential and is divergence free, the curl of the field is the '
     'current density fed by the path ends, and the electric field is minus the gradient of the potential and resistivity times current '
     'density. Paths add: splitting a segment or joining segments changes nothing, and a closed loop leaves no electric field. Point '
     'currents spread isotropically and can be moved.',
     IC, 'every start point, segment length, current, material and observation point off the wire lines; segment directions from a list',
     'Tests use single straight wires and re-typed formulas; Ampere\'s law, additivity and closure are not tested.',
     ['geoana/em/static/wholespace.py', 'geoana/em/base.py'],
     [('segment sum', 'geoana/em/static: LineCurrentWholeSpace, LineCurrentFreeSpace'), ('point source', 'PointCurrentWholeSpace')],
     ['geoana.em.static'])

prop('C12', 'Direct currents in a half-space respect the surface and reciprocity',
     'For point currents and electrode pairs in a half-space, the electric field is minus the gradient of the potential, Ohm\'s law holds, '
     'current is conserved, and none crosses the surface. Swapping source and receiver, or current and potential electrode pairs, leaves the '
     'reading unchanged. Electrode pairs superpose, changed parameters take full effect, and points above ground are refused.',
     ['inputs', 'histories'], 'every electrode and observation position at or below the surface, every current and positive resistivity',
     'Tests compare with a copy of the same formula at fixed points; no test relates two configurations or changes a live object.',
     ['geoana/em/static/halfspace.py', 'geoana/em/static/wholespace.py'],
     [('image source', 'geoana/em/static/halfspace.py: PointCurrentHalfSpace'), ('electrode pairs', 'geoana/em/static/halfspace.py: DipoleHalfSpace')],
     ['geoana.em.static.PointCurrentHalfSpace', 'geoana.em.static.DipoleHalfSpace'])
prop('C13', 'A sphere in a uniform field satisfies the static field equations',
     'For conductive and permeable spheres, the field is minus the gradient of the potential inside and outside, and the flux is free of '
     'divergence. Potential, tangential field and normal flux are continuous across the surface, the response vanishes far away and '
     'without contrast, and primary plus secondary equals total. The surface charge is the jump of the normal field.',
     I, 'every location, radius, contrast, primary field vector and observation point inside and outside',
     'Tests evaluate the same closed form on one grid with one field direction and unit-like radii, where wrong powers of the radius agree.',
     ['geoana/em/static/sphere.py'], [('interior and exterior solutions', 'geoana/em/static/sphere.py')],
     ['geoana.em.static.ElectrostaticSphere', 'geoana.em.static.MagnetostaticSphere'])
prop('C14', 'Harmonic dipole fields satisfy Maxwell\'s equations',
     'For electric and magnetic dipoles in a conductive whole space, the fields at every frequency obey Faraday\'s and Ampere\'s laws, '
     'are free of divergence, and derive from the vector potential as documented. Current density and flux density are the fields times '
     'conductivity and permeability, and at vanishing frequency the static dipole fields appear. Arrays of frequencies and points give '
     'what single evaluations give.',
     IC, 'every location, orientation, strength, frequency, medium and observation point; quasistatic or with displacement currents',
     'Tests compare with a copy of the same expressions on one grid; the differential laws couple all components and parameters.',
     ['geoana/em/fdem/wholespace.py', 'geoana/em/fdem/base.py'],
     [('dipole expressions', 'geoana/em/fdem/wholespace.py: ElectricDipoleWholeSpace, MagneticDipoleWholeSpace')], ['geoana.em.fdem'])
prop('C15', 'Harmonic plane waves and wave parameters are consistent',
     'A harmonic plane wave obeys Faraday\'s and Ampere\'s laws, is horizontal along its polarisation, has the given amplitude at zero depth '
     'and decays downwards. Wavenumber, complex conductivity, angular frequency and skin depth follow their definitions, with the outgoing '
     'decaying root, whether taken from functions or object attributes. Arrays of frequencies and points give what single evaluations give.',
     IC, 'every amplitude, polarisation, frequency, medium and depth; quasistatic or not',
     'Tests use fixed media and X or Y polarisation with the formula re-typed.',
     ['geoana/em/fdem/wholespace.py', 'geoana/em/fdem/base.py'],
     [('plane wave', 'geoana/em/fdem/wholespace.py: HarmonicPlaneWave'), ('wave parameters', 'geoana/em/fdem/base.py')], ['geoana.em.fdem'])
prop('C16', 'Transient whole-space sources satisfy the diffusive Maxwell equations',
     'For a transient electric dipole and a transient plane wave, at every time after switch-off the fields obey Faraday\'s and Ampere\'s '
     'laws with the time derivative of the flux, and reported rates are the time derivatives of the reported fields. Current density and '
     'flux density are the fields times conductivity and permeability. Diffusion distance, peak time and related parameters mark what they claim.',
     IC, 'every location, orientation, strength, time > 0, medium and observation point',
     'Tests compare with a copy of the same expressions; time derivatives and curls are never taken.',
     ['geoana/em/tdem/wholespace.py', 'geoana/em/tdem/base.py'],
     [('transient dipole', 'geoana/em/tdem/wholespace.py: TransientElectricDipoleWholeSpace'), ('plane wave', 'TransientPlaneWave'),
      ('diffusion parameters', 'geoana/em/tdem/base.py')], ['geoana.em.tdem'])
prop('C17', 'Transient loops and dipoles on a half-space are consistent',
     'For a vertical magnetic dipole and a horizontal loop on a conductive half-space, reported rates are the time derivatives of the '
     'reported fields, flux is permeability times field, and responses scale with moment, current and turns. The dipole field is radially '
     'symmetric, agrees with the published reference formulas, and equals the limit implied by the loop through reciprocity. Object methods '
     'and functions agree, also for arrays of times and points.',
     IC, 'every time > 0, medium, radius, current, turns, moment and surface point',
     'Tests compare one radius and one medium with the published formulas.',
     ['geoana/em/tdem/simple_functions.py', 'geoana/em/tdem/halfspace.py', 'geoana/em/tdem/reference.py'],
     [('loop and dipole functions', 'geoana/em/tdem/simple_functions.py'), ('class interface', 'geoana/em/tdem/halfspace.py')], ['geoana.em.tdem'])
prop('C18', 'Harmonic loops and dipoles on a half-space obey reciprocity and symmetry',
     'For magnetic dipoles of any orientation on a half-space, total minus secondary field is the free-space dipole, source and receiver can be '
     'exchanged, sources superpose, and the field turns with the source. No current enters the air, the vertical coupling equals the sum of '
     'the horizontal ones, and the loop response follows from the dipole. Arrays and scalars of frequencies and points agree.',
     IC, 'every frequency, conductivity, location, orientation, moment, loop radius and surface offset',
     'Tests re-type the formulas for axis-aligned sources at a handful of offsets.',
     ['geoana/em/fdem/halfspace.py', 'geoana/em/fdem/simple_functions.py'],
     [('dipole expressions', 'geoana/em/fdem/halfspace.py: MagneticDipoleHalfSpace'), ('loop', 'geoana/em/fdem/simple_functions.py')], ['geoana.em.fdem'])
prop('C19', 'Layered reflection coefficients and their sensitivities are exact',
     'The reflection coefficients of a layered earth equal the interface-by-interface composition of Fresnel coefficients; an interface between '
     'identical media changes nothing and free space reflects nothing. The reported sensitivities are the derivatives in every layer\'s '
     'conductivity, permeability and thickness. The compiled and the Python implementation agree, and mismatched shapes are rejected.',
     IC, 'every frequency, wavenumber, thickness and complex conductivity and permeability; one to three layers',
     'Tests check derivatives along one direction and compare the implementations at one random model.',
     ['geoana/kernels/tranverse_electric_reflections.py', 'geoana/kernels/_extensions/_rTE.cpp', 'geoana/kernels/_extensions/rTE.pyx'],
     [('numpy recursion', 'geoana/kernels/tranverse_electric_reflections.py'), ('compiled recursion', 'geoana/kernels/_extensions/_rTE.cpp')],
     ['geoana.kernels.rTE_forward', 'geoana.kernels.rTE_gradient'])
prop('C20', 'Dipoles over a layered earth follow from its reflection coefficients',
     'For a magnetic dipole above a layered earth, the secondary field is the Hankel transform, by the digital filter in use, of the reflection '
     'coefficient with the right kernel for every orientation, and total minus secondary is the free-space dipole. Splitting a layer into '
     'identical layers changes nothing, sources superpose and scale with the moment. Arrays of frequencies and points give what single '
     'evaluations give.',
     IC, 'every moment, orientation, source and receiver height, offset, frequency and layer property; up to three layers',
     'Tests compare with one external solution at a few offsets, or with a re-typed sum.',
     ['geoana/em/fdem/layered.py'], [('field assembly', 'geoana/em/fdem/layered.py: MagneticDipoleLayeredHalfSpace')],
     ['geoana.em.fdem.MagneticDipoleLayeredHalfSpace'])
prop('C21', 'Settings read back as given and inadmissible values are rejected',
     'Every setting of every source class reads back as it was given, in the constructor and when assigned later, and changing one leaves the others '
     'alone; what is left out takes the documented default; orientations read back as unit vectors and letters name the axes. Values out of the documented range, shape or type are rejected with an error and '
     'leave the object as it was. Points without three coordinates, and points or sources on the wrong side of a half-space, are rejected.',
     I, 'every admissible value of every setting before and after; every value out of range; wrong types and shapes',
     'Tests try one bad value per setter and never whether the object survives it.',
     ['geoana/em/base.py', 'geoana/em/fdem/base.py', 'geoana/em/fdem/layered.py', 'geoana/em/tdem/base.py', 'geoana/em/static', 'geoana/gravity.py', 'geoana/shapes.py', 'geoana/utils.py'],
     [('property setters', 'geoana/em/base.py'), ('layer properties', 'geoana/em/fdem/layered.py'), ('point validation', 'geoana/utils.py: check_xyz_dim')],
     ['geoana.em', 'geoana.gravity', 'geoana.utils.check_xyz_dim'])
prop('C22', 'Results depend only on the current settings and nothing given is modified',
     'An object whose settings were changed one after another, with fields evaluated in between, gives the same fields as one built with those settings at once. '
     'No constructor, setter, field method or function of the source classes, coordinate functions, loop functions and kernels modifies an array it was given or a setting, and repeated '
     'evaluation gives the same values even if earlier results were overwritten. A source keeps its own copy of what it was given: changing a given array afterwards, updating another object in place '
     '(o.location += d) or evaluating another object or other points in between changes nothing.',
     ['inputs', 'histories'], 'every value of every setting before and after each change, every point',
     'Tests build fresh objects and never look at their inputs again.',
     ['geoana/em', 'geoana/gravity.py', 'geoana/spatial.py', 'geoana/shapes.py', 'geoana/kernels'],
     [('electrode pairs', 'geoana/em/static/halfspace.py'), ('sources', 'geoana/em/base.py'), ('coordinate functions', 'geoana/spatial.py')], ['geoana'])
prop('C23', 'Points, frequencies and times evaluated together or apart give the same',
     'The field at several points, frequencies or times is the field at each of them, whatever the layout: one point, rows, columns, grids, nested lists or a tuple of '
     'coordinate arrays, in any memory order, as integers or floats, with points inside and outside a body mixed. The result has one leading axis for an array of frequencies or times, then the layout of the '
     'points, then the components. Grids, vectors and appended axes of the utilities keep their order, first axis fastest.',
     I, 'every value of the points, frequencies, times and settings; two points and two frequencies or times in twelve layouts; 37 points and 6 frequencies or times taking two values each; integer points and settings',
     'Tests evaluate one layout per method and mostly check the shape.',
     ['geoana/em', 'geoana/gravity.py', 'geoana/spatial.py', 'geoana/utils.py', 'geoana/kernels'],
     [('point validation', 'geoana/utils.py: check_xyz_dim, append_ndim, ndgrid, mkvc'), ('broadcasting', 'geoana/em/fdem/wholespace.py')], ['geoana'])
prop('C24', 'Fields scale with the source, superpose and move with it',
     'Every field is proportional to its source strength (moment, current, length, amplitude, mass, density, primary field, magnetisation), for either sign. '
     'The field of an oblique dipole or plane wave is the combination of those along the axes, and vector sources superpose. Moving the source and the point together leaves '
     'the field unchanged (horizontally, for half-spaces).',
     I, 'every point, setting, factor and shift',
     'Tests compare single orientations and unit strengths at the origin.',
     ['geoana/em', 'geoana/gravity.py', 'geoana/shapes.py'],
     [('sources', 'geoana/em/base.py'), ('fields', 'geoana/em/static/wholespace.py, geoana/em/fdem/wholespace.py, geoana/em/tdem/wholespace.py')], ['geoana.em', 'geoana.gravity'])
prop('C25', 'Fault displacements follow the published elastic dislocation solution',
     'The surface displacement of a rectangular fault is Okada\'s solution for every geometry and pair of elastic moduli. It is linear in slip, '
     'slip resolves along the rake, patches add up along strike and down dip (also when the point lies on their common edge plane), and the '
     'field turns with the strike and does not depend on units. The simulation grid spans its two directions and points do not influence one another.',
     IC, 'every fault position, depth range, length, slip, rake, moduli and observation point',
     'The only test of this module needs the network; no displacement is ever compared.',
     ['geoana/earthquake/oksar.py'], [('dislocation kernel', 'geoana/earthquake/oksar.py: Oksar._dc3d3, Oksar.displacement_vector'),
                                      ('grid', 'Oksar.simulation_grid')], ['geoana.earthquake.oksar.Oksar'])
prop('C26', 'Earthquake records keep what they are given and see along the right line',
     'Every setting of an interferogram record and of a fault model reads back as it was set, changing one leaves the others alone, and values '
     'outside the documented range or shape are rejected without effect. Pixels are laid out east along rows and south by rows from the '
     'corner. Line-of-sight vectors have unit length, are perpendicular to the track, and meet the ground at the given incidence at the reference point.',
     I, 'every value of every setting, every pixel value, azimuth, incidence, altitude, Earth radius and location',
     'The only test of this module needs the network.',
     ['geoana/earthquake/oksar.py'], [('settings', 'geoana/earthquake/oksar.py: property setters'), ('layout', 'EarthquakeInterferogram._get_plot_data'),
                                      ('line of sight', 'EarthquakeInterferogram.get_LOS_vector, _ang_to_gc')],
     ['geoana.earthquake.oksar.EarthquakeInterferogram', 'geoana.earthquake.oksar.Oksar'])
prop('C30', 'Figures show the data they are given',
     'Every plotting helper draws the data it is given at the coordinates it is given, for every grid and field.',
     I, 'every data array and grid', 'Tests only check that the helpers run.',
     ['geoana/plotting_utils.py'], [('matplotlib calls', 'geoana/plotting_utils.py')], ['geoana.plotting_utils'])
NA = {'C30': 'The result is a matplotlib figure: the behaviour lies in matplotlib\'s renderer (interpolation, quiver/streamplot, tick '
             'and colour mapping), which cannot be encoded for an SMT solver within reach; the helpers themselves hold no arithmetic '
             'worth a solver.'}
