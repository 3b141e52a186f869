prop('C01', 'A clone is a faithful copy of the whole state',
 'Cloning (or copy-constructing) any metric, astronomical object, spectrum, spectrometer, screen, scenery, photon or star yields an object in which every piece of state that influences behaviour comes from the original: parameters, flags, kind name, loaded data tables, integrator settings and sub-objects. No parameter silently returns to a default, stays uninitialised, or takes the value of another parameter.',
 ['inputs', 'configurations'], 'for every clonable class, every member of it and its bases, every state of the original',
 'Tests clone a few objects and compare a handful of parameters; worker threads ray-trace with clones, so one lost member makes images depend on the thread count, only for the class and setting concerned.',
 ['lib/*.C', 'include/Gyoto*.h', 'plugins/python/lib/*.C'],
 [('copy constructors reached by every clone()', 'lib/*.C'), ('per-thread cloning', 'lib/Scenery.C')],
 'abstract interpretation of copy constructors: per-member data dependence on the source object (custom libTooling facts)',
 'Sound for loss, defaulting and cross-wiring of members on every path of every copy constructor, callees inlined; a transformed value that still depends on the right member is not excluded. Trusts clang, the extractor and that external callees only depend on their arguments.')
prop('C02', 'A clone shares no mutable sub-object or buffer with its original',
 'After cloning, neither object holds a pointer to a sub-object, table or buffer of the other, so modifying, using or destroying one never changes the other. This is what lets every worker thread compute on its own clone without locking.',
 ['inputs', 'histories', 'schedules'], 'for every clonable class, every pointer or smart-pointer member, every later history of either object and every interleaving of workers',
 'Sharing is invisible until the other object is modified, freed or used concurrently; tests use clones one at a time.',
 ['lib/*.C', 'include/Gyoto*.h', 'plugins/python/lib/*.C'],
 [('copy constructors deep-copy pointer members', 'lib/*.C')],
 'abstract interpretation of copy constructors: may-alias of pointer members with the source object',
 'Every pointer and SmartPointer member of every clonable class is shown not to alias the source on any path. Units converters (immutable) and Python objects (reference counted) are excluded.')
prop('C03', 'A clone has exactly the type of its original',
 'Cloning through any base-class pointer returns a new object of the original\'s own most-derived class, built by copying the original and not modified afterwards. No class that can be instantiated inherits another class\'s clone, slices, or returns the original itself.',
 ['inputs', 'configurations'], 'for every class of which objects are created and that can be cloned, whatever static type the caller uses',
 'Only the classes a test happens to clone are exercised; a class missing its clone still compiles and works until a worker thread silently ray-traces a base-class object instead.',
 ['lib/*.C', 'include/Gyoto*.h', 'plugins/python/lib/*.C'],
 [('clone() overriders', 'lib/*.C'), ('SmartPointer copy and Scenery per-thread clones', 'lib/Scenery.C')],
 'virtual-dispatch resolution and return-value flow of clone() over the class hierarchy',
 'For each instantiated class, the final overrider of clone() is its own and every returned value is new Class(*this). Classes created only outside the repository are out of scope.')
prop('C04', 'Every parameter reads back as it was set',
 'For every parameter an object advertises, in every class that has it, with or without a unit: when setting a value succeeds, reading the parameter back (in the same unit) succeeds and yields that value, expressed in that unit; every option a parameter reports by name is one it accepts. Every parameter is reachable by its one name from the class and all its descendants; two parameters never share storage accessors. The same holds for the other public scalar accessor pairs of the classes.',
 ['inputs', 'configurations'], 'for every concrete class, every entry of its property table inherited or own, every unit branch and enumerated option, every prior state and every value',
 'Hundreds of class/parameter/unit combinations, each needing its own scenario; the suites sample default units of some; XML write-out, the Python and Yorick bindings and clones-through-XML all rely on it.',
 ['lib/*.C', 'include/GyotoProperty.h', 'include/Gyoto*.h'],
 [('GYOTO_PROPERTY_* tables', 'lib/*.C'), ('Object::set/get', 'lib/Object.C'), ('setters and getters with units', 'lib/*.C')],
 'relational abstract interpretation: setter then getter composed symbolically on an arbitrary state (monomial/identity domain), per class, property and unit',
 'Identity is proved for values stored directly or through conversions; where the value passes through an uninterpreted computation only dependence is shown. Entries exempted (with reasons) are listed in engine/rules/c04.py.')
prop('C05', 'Unit conversions are physically correct and mutually inverse',
 'ToX(value, unit) equals the physical conversion of the value to X for every kind of unit accepted (lengths, times, frequencies, energies, masses, geometrical units scaled by the metric\'s unit length GM/c^2) and FromX is its exact inverse; a unit accepted in one direction is accepted in the other, the empty unit means no conversion, and an unknown unit raises an error rather than passing the number through. The physical constants used are consistent with one another.',
 ['inputs'], 'for every conversion function, every branch on the kind of unit, every value and every metric mass',
 'Tests convert a handful of units, mostly in one direction; a wrong factor in one branch only scales results for users of that unit.',
 ['lib/Units.C', 'lib/Converters.C', 'include/GyotoConverters.h', 'include/GyotoDefs.h', 'lib/Metric.C'],
 [('To*/From* families', 'lib/Converters.C'), ('unitLength', 'lib/Metric.C'), ('constants', 'include/GyotoDefs.h')],
 'abstract interpretation in a monomial domain against a physical table; compile-time witness (static_assert) for the constants',
 'Real arithmetic; udunits itself trusted. The physical table is in engine/rules/c05.py.')
prop('C06', 'Setting a parameter changes that parameter only, and all that derives from it',
 'Setting one parameter of an object does not alter the value any other parameter reads back, except for documented couplings; and every cached quantity an object derives from a parameter is recomputed, from the new value, whenever that parameter is set, whatever the order in which parameters are set.',
 ['inputs', 'histories'], 'for every concrete class, every ordered pair of its properties, every derived member and every setter of what it derives from, from any state',
 'Quadratically many pairs and orders; tests set parameters once, in one order, right after construction.',
 ['lib/*.C', 'include/Gyoto*.h'],
 [('setters of the property tables', 'lib/*.C'), ('cached derived members (e.g. spin powers, frequencies squared)', 'lib/*.C')],
 'abstract interpretation of each setter: effect on every other getter; inferred derivation relation between members, freshness of derived members',
 'Couplings and late derivations accepted by design are whitelisted by name in engine/rules/c06.py; changes hidden behind uninterpreted computations are not reported.')
prop('C07', 'Every kind can be created by its name and is saved under that name',
 'Every concrete metric, astrobj, spectrum and spectrometer class is registered under exactly one name; asking for that name (optionally in a given plug-in) creates an object of that class, configured with the parameters of the XML description; the object reports and saves that same name; an unknown name raises an error (or returns nothing when the caller asked for that) and never yields another kind.',
 ['inputs', 'configurations'], 'for every class of the four families, every name and plug-in asked for, every history of plug-in loading',
 'Tests create a sample of kinds; a name that differs between registration and constructor shows only when such an object is written and read back.',
 ['lib/StdPlug.C', 'lib/Register.C', 'lib/*.C', 'plugins/python/lib/*.C', 'include/GyotoRegister.h'],
 [('Register calls of the plug-ins', 'lib/StdPlug.C, lib/LorenePlug.C, plugins/python/lib/PythonPlug.C'), ('Entry::getSubcontractor', 'lib/Register.C'), ('Subcontractor template', 'include/GyotoObject.h and siblings'), ('kind in constructors', 'lib/*.C')],
 'abstract interpretation of default constructors against the registration calls; case-specialised reachability of the lookup functions',
 'All registration calls, constructors and lookup functions of the repository; dynamic loading itself (dlopen, file names) is not modelled. One known finding (Kerr2PN is never registered).')
prop('C08', 'Parameter values are dispatched by their declared type, never silently lost',
 'For every type a parameter can be declared with (number, integer, boolean, string, file name, vectors, sub-objects), with or without unit: setting it, reading it, writing it to XML and reading it from XML use the accessor of that very type and the parameter\'s own name; a negative boolean name negates; a value of another type, a unit that cannot be honoured or an unknown name raises an error or is reported to the caller, and is never silently dropped or passed through another type.',
 ['inputs', 'configurations'], 'for every property type, with and without unit, every accessor combination and every value',
 'Types times units times directions: the suites exercise few combinations, mostly doubles; a wrong case in a switch affects only the parameters declared with that type.',
 ['lib/Object.C', 'lib/Property.C', 'lib/Value.C', 'include/GyotoProperty.h', 'include/GyotoValue.h'],
 [('Object::set/get/fillProperty/setParameter(s)', 'lib/Object.C'), ('Property constructors', 'lib/Property.C'), ('Value conversions', 'lib/Value.C')],
 'path reachability specialised to each property type, unit and accessor case over the type-checked syntax tree',
 'Every dispatch function and every Value conversion for every declared type; text-to-number functions and FactoryMessenger are trusted.')
prop('C09', 'Every object is fully initialised by its constructors',
 'Whatever constructor is used to create an object, every number, flag, pointer and fixed array it holds that any function reads has a definite value before the constructor returns (or is set at the start of the computation it belongs to), so results never depend on stale memory.',
 ['inputs', 'configurations', 'histories'], 'for every non-copy constructor of every class, every member own or inherited, on every path',
 'Uninitialised memory often happens to be zero, so tests pass; the result then depends on allocation history.',
 ['lib/*.C', 'include/Gyoto*.h', 'plugins/python/lib/*.C'],
 [('constructors of all classes', 'lib/*.C, plugins/python/lib/*.C'), ('computation state set by Photon::hit, IntegState::init', 'lib/Photon.C, lib/WorldlineIntegState.C')],
 'definite-assignment dataflow over constructors (bases, initialisers and callees inlined)',
 'All constructors on all paths; members of class type rely on their own constructors; array members count as initialised when written by a loop or call. Members of a running computation are listed with the function that must set them.')
RI = 'Equalities hold as identities between rational functions (with sines, cosines, roots and dual numbers for derivatives); identities are decided by fingerprints in a 61-bit field, one-sided error below 1e-12. Rounding is out of scope. Functions whose code leaves the interpreted fragment are counted as undecided in the evidence, not as held.'
prop('C10', 'Metric coefficients are symmetric, complete and consistent in every form',
 'For every analytic metric, in each coordinate system it offers and for all parameters: gmunu sets all sixteen coefficients, symmetric; the component form and the matrix form agree; the contravariant coefficients are the inverse matrix of the covariant ones, in both forms, including where a coordinate (the radius, say) is negative; ScalarProd is the double contraction of the two vectors with gmunu. The helpers that invert a 4x4 matrix give the inverse for every invertible matrix of their domain; wrappers around other metrics (Shift, Complex) keep these relations for any sub-metric.',
 ['inputs', 'configurations'], 'for every analytic metric class, every coordinate kind, every position outside singularities and every parameter value, every pair of indices',
 'Tests compare a few coefficients at one or two points of some metrics; an error in one coefficient, sign or branch (negative radius, second coordinate kind) passes them and silently bends every ray.',
 ['lib/Metric.C', 'lib/KerrBL.C', 'lib/KerrKS.C', 'lib/Minkowski.C', 'lib/Hayward.C', 'lib/RezzollaZhidenko.C', 'lib/Shift.C', 'lib/ComplexMetric.C', 'lib/Utils.C'],
 [('gmunu and gmunu_up in both forms', 'lib/*.C'), ('ScalarProd', 'lib/Metric.C, lib/KerrBL.C, lib/Hayward.C'), ('matrix4Invert, matrix4CircularInvert', 'lib/Utils.C')],
 'abstract interpretation in a fingerprint domain (random interpretation: value numbering modulo algebra) of the metric functions of every class, against matrix identities', RI)
prop('C11', 'Metric derivatives and Christoffel symbols belong to the metric',
 'For every analytic metric: the Jacobian a metric supplies is the gradient of its own coefficients; the Christoffel symbols it supplies, in matrix and component form, own or inherited, are the Levi-Civita connection of its own coefficients, complete, symmetric in the lower indices and reported as successful. The inherited generic computations give the connection of whatever metric inherits them, and the generic numerical derivative is exact for coefficients affine in the coordinates.',
 ['inputs', 'configurations'], 'for every analytic metric class, coordinate kind, position outside singularities, parameter value and index triple',
 'Christoffel symbols are long hand-expanded formulas, only some of which any given trajectory uses (equatorial rays never see half of them); tests integrate a few rays and compare to themselves.',
 ['lib/*.C', 'include/GyotoMetric.h'],
 [('christoffel in both forms', 'lib/*.C'), ('jacobian, gmunu_up_and_jacobian', 'lib/Metric.C and overriders')],
 'fingerprint abstract interpretation over dual numbers: the connection is recomputed from the interpreted gmunu and compared with each hand-written formula', RI)
prop('C12', 'Four-velocities, tetrads and vector algebra respect the metric',
 'On every metric and for all non-degenerate vectors: norm, dual, projection, sums and products mean what they say; normalised four-velocities have norm -1 and keep their spatial direction; light rays are made null without changing their spatial part; tetrads come out orthonormal; zero-angular-momentum observers are unit and orthogonal to the azimuthal direction; circular velocities are unit, without radial or polar part, follow the sense of rotation asked for and, unless the Keplerian approximation is requested, are geodesics in the equatorial plane - and are the Keplerian approximation when it is requested; lapse and shift are those of the metric.',
 ['inputs', 'configurations'], 'for an arbitrary metric (generic code) and every overriding class, every position, parameter, vector and option',
 'Overridden helpers are only reached for one metric and one option (e.g. Keplerian flag, sense of rotation), and a non-unit velocity shows as a slightly wrong redshift that no test compares to an independent value.',
 ['lib/Metric.C', 'lib/KerrBL.C', 'lib/KerrKS.C', 'lib/*.C', 'include/GyotoMetric.h'],
 [('circularVelocity, zamoVelocity', 'lib/*.C'), ('normalizeFourVel, nullifyCoord, SysPrimeToTdot', 'lib/Metric.C, lib/KerrBL.C'), ('GramSchmidt, observerTetrad', 'lib/Metric.C'), ('computeNBeta', 'lib/*.C')],
 'fingerprint abstract interpretation of the generic helpers on an arbitrary metric and of every override on its own metric, against the defining identities', RI + ' Three known findings (ChernSimons lapse and shift, KonoplyaRezzollaZhidenko sense of rotation).')
prop('C13', 'Integrators advance the geodesic equation of the metric',
 'The right-hand side used by every integrator is the geodesic equation of the metric in use, with parallel transport of the polarisation vectors: the generic four-dimensional form, the 3+1 form, the Hamiltonian form of Kerr in Boyer-Lindquist coordinates; Keplerian Minkowski motion obeys Newton\'s law; conversions to conserved momenta and back are mutually inverse and the constants computed are conserved along geodesics; the built-in Runge-Kutta steps agree with the true solution of any differential system to their stated order.',
 ['inputs', 'configurations'], 'for an arbitrary metric and connection (generic code), every overriding class, every state vector, every system of equations (stepper order conditions)',
 'One missing term of the right-hand side vanishes for the symmetric trajectories tests use (equatorial, radial); order of accuracy cannot be seen from one trajectory.',
 ['lib/Metric.C', 'lib/KerrBL.C', 'lib/Minkowski.C', 'lib/WorldlineIntegState.C'],
 [('diff, diff31, myrk4', 'lib/Metric.C, lib/KerrBL.C, lib/Minkowski.C'), ('MakeMomentum, MakeCoord, computeCst', 'lib/KerrBL.C')],
 'fingerprint abstract interpretation of right-hand sides on an arbitrary metric; steppers interpreted over truncated power series in the step', RI + ' Step-size control, stop conditions and accumulated error are out of scope.')
prop('C14', 'A requested quantity, and only it, is computed, stored and labelled',
 'Asking for any set of quantities (by name, with or without unit): exactly those are requested, listed and counted; each quantity is written only in the storage provided for it, and storage that was not provided is never dereferenced, whatever other quantities are requested with it; initialisation resets every provided quantity, and only those; moving to the next pixel moves every provided quantity by one pixel.',
 ['inputs', 'configurations'], 'for every quantity name, every combination of requested quantities, every class computing them and every path',
 'There are 2^17 combinations of quantities; tests ask for a few usual ones, and a null dereference or a stale plane needs an unusual one.',
 ['lib/Astrobj.C', 'lib/Scenery.C', 'lib/Photon.C', 'include/GyotoAstrobj.h', 'lib/*.C'],
 [('Astrobj::Properties::init, operator+=, Quantity_t', 'lib/Astrobj.C'), ('requestedQuantitiesString and counts', 'lib/Scenery.C'), ('processHitQuantities, Photon::hit', 'lib/*.C')],
 'case-complete interpretation of the Properties functions per field; guarded-dereference reachability of every use of a quantity\'s storage',
 'Every field, name and dereference site in the compiled sources, each decided on all paths; callers outside the repository must provide large enough storage. The MPI variant of the ray-tracing loop is not compiled here and not covered.')
prop('C15', 'Radiation obeys the transfer equation and the Lorentz invariants',
 'Where a ray crosses emitting matter, the photon accumulates exactly: specific intensity increased by the emission of the element attenuated by what lies in front of it and scaled by the redshift to the power of the relativistic invariant (3 for I_nu, 4 for the frequency-integrated intensity), transmission multiplied by that of the element, redshift nu_obs/nu_em, emission time and position - each the same whether requested alone or with others, polarised or not, in bins or at points, in any unit. Mueller matrices and their exponential solve the polarised transfer equation, and reduce to the scalar one without polarisation. Default emission, transmission and combined functions are mutually consistent for any subset a class overrides, and homogeneous media obey I = S (1 - exp(-tau)).',
 ['inputs', 'configurations'], 'for any metric, emission and absorption coefficient, spectrometer, set of requested quantities, history of earlier crossings, and subset of overridden functions',
 'Tests render few images with the default quantities; inconsistency between quantities (e.g. attenuated in one, not in another) needs optically thin absorbing matter and an unusual request.',
 ['lib/Astrobj.C', 'lib/Photon.C', 'lib/*.C'],
 [('processHitQuantities', 'lib/Astrobj.C'), ('emission, transmission, radiativeQ, Omatrix, Pmatrix', 'lib/Astrobj.C and overriders'), ('transmit, transfer', 'lib/Photon.C')],
 'fingerprint abstract interpretation of the accumulation step with arbitrary uninterpreted emission and absorption, against the transfer equation', RI + ' Overriders of processHitQuantities in particular disks and five astrobj classes whose radiativeQ leaves the fragment are not decided.')

prop('C16', 'Every pixel of the screen sees its own direction of the sky',
 'The sky frame is a right-handed rotation of the Cartesian frame set by PALN, inclination and argument, with the observer on its axis at the given distance and date; coordinate-to-sky and sky-to-coordinate conversions are isometries and inverse of each other, in both kinds of coordinates and in geometrical units or metres; setting the position of the observer and reading it back agree. Pixel (i,j) is centred at its place in the field of view (equatorial, rectilinear or spherical angles), and the ray of a direction starts at the observer (or at dMax on the line of sight, earlier by the light travel time), comes from exactly that direction, is null and future-directed, and is the same in Cartesian and spherical coordinates and for a static local observer and one at infinity. Pointing offsets move the field of view as a rigid whole. The polarisation vectors of the ray are orthonormal and transverse to it.',
 ['inputs', 'configurations'], 'for every orientation, distance, date, field of view, resolution, pixel, kind of angles, kind of coordinates and pointing offset',
 'Tests compare a few rays of one orientation; a wrong sign in one term shows only for a tilted screen off axis, in one of the coordinate kinds, or for polarised rays.',
 ['lib/Screen.C', 'include/GyotoScreen.h'],
 [('computeBaseVectors, coordToSky, skyToCoord, coordToXYZ, getObserverPos, setObserverPos', 'lib/Screen.C'), ('getRayTriad', 'lib/Screen.C')],
 'fingerprint abstract interpretation of the screen geometry with arbitrary orientation and angles, against spherical trigonometry', RI + ' Undecided here: masks, the iteration over sets of pixels, velocities of moving observers (C12 decides their tetrads).')

prop('C17', 'Matter is where it says it is and moves as it says it moves',
 'The position, azimuth, radius and distance functions of every object, the Cartesian position and velocity of world lines and the conversion of velocities give the same answer for the same physical point whether the coordinates are Cartesian or spherical; bringing angles back to their range moves nothing; a spherical source is a sphere about its centre. The derivatives a moving source reports are those of its own trajectory, and the velocity of its matter is the one it moves with. The four-velocity of every analytic flow (jet, thick disk, torus, doughnut, deformed or oscillating torus, thin disk profile, blob, plasmoid, spherical accretion, fixed star) is a unit future-directed vector in any metric of the Kerr form, with the Lorentz factor, direction, azimuthal ratio, specific angular momentum or free fall asked for.',
 ['inputs', 'configurations'], 'for every position, date, parameter of the flow, kind of motion, metric of the Kerr form and kind of coordinates',
 'Redshift and beaming of every image depend on these vectors; the tests render a few objects with default parameters in one coordinate system, and the run-time norm checks have loose tolerances or are absent.',
 ['lib/UniformSphere.C', 'lib/Jet.C', 'lib/Blob.C', 'lib/Plasmoid.C', 'lib/Worldline.C', 'lib/ThickDisk.C', 'lib/DeformedTorus.C', 'lib/ThinDiskProfile.C'],
 [('getVelocity of every astrobj', 'lib/*.C'), ('operator(), deltaMax, projectedRadius, sphericalPhi', 'lib/Torus.C, lib/ThinDisk.C, lib/UniformSphere.C'), ('getCartesian, get_xyz, checkPhiTheta', 'lib/Worldline.C'), ('cartesianVelocity', 'lib/Metric.C')],
 'fingerprint abstract interpretation of the location and velocity functions with an arbitrary point and an arbitrary stationary axisymmetric metric, against coordinate geometry and the unit norm', RI + ' Undecided here: velocities tabulated in files (pattern, dynamical and 3-D disks, SimBridge), stars following an integrated orbit (C13), the Kerr-, RZ- and KRZ-specific branches of ThinDiskProfile.')

prop('C18', 'Emission coefficients and spectral channels mean what their names say',
 'The tables of coefficients a spectrum fills (emission, absorption, Faraday rotation and conversion, plain or for each Stokes parameter) hold at each frequency, in SI units, the coefficient of that name at that frequency, or its average over pitch angle, done alike for all; thermal absorption is emission over the black body for every Stokes parameter; a slab emits j ds exp(-alpha ds) or S(1-exp(-tau)); a black body of colour correction f is B(fT)/f^4 whatever the order of settings and scales as nu^3 f(nu/T); a power law is c nu^e within its cutoffs. The channels of a uniform spectrometer tile its band uniformly in frequency, log frequency, wavelength or log wavelength, with their own centres, widths and indices, and a composite spectrometer is the concatenation of its elements, each channel keeping its own boundaries.',
 ['inputs', 'configurations'], 'for every spectrum class, frequency, pitch angle, averaging mode, temperature, band, kind of axis and list of sub-spectrometers',
 'Eleven coefficients times three electron distributions times two modes, most of them never read by the tests; a swapped pair or a factor in one of them changes polarised images only.',
 ['lib/Spectrum.C', 'lib/ThermalSynchrotronSpectrum.C', 'lib/KappaDistributionSynchrotronSpectrum.C', 'lib/PowerLawSynchrotronSpectrum.C', 'lib/ThermalBremsstrahlungSpectrum.C', 'lib/BlackBodySpectrum.C', 'lib/PowerLawSpectrum.C', 'lib/UniformSpectrometer.C', 'lib/ComplexSpectrometer.C'],
 [('radiativeQ of every spectrum', 'lib/*Spectrum.C'), ('Uniform::reset_', 'lib/UniformSpectrometer.C'), ('Complex::tell', 'lib/ComplexSpectrometer.C')],
 'fingerprint abstract interpretation of the coefficient tables with arbitrary coefficient functions, and of the channel computation with an arbitrary band', RI + ' Undecided here: the fitting formulae of the coefficients themselves, adaptive integration over a channel.')

# ------------------------------------------------------------- not applicable
prop('N01', 'Trajectories converge to the requested tolerance',
 'For every initial condition and integrator, the computed world line stays within the requested absolute and relative tolerance of the true geodesic, and conserved quantities drift no more than that.',
 ['inputs'], 'for every initial condition, metric and tolerance', 'Tests sample a few trajectories.', ['lib/WorldlineIntegState.C', 'lib/Metric.C'],
 [('adaptive steps', 'lib/WorldlineIntegState.C')],
 na='Accumulated truncation and rounding error over a data-dependent number of adaptive steps is a runtime quantity no static argument in reach bounds; the decidable part (right-hand sides, stepper order) is C13.')
prop('N02', 'A ray-traced image does not depend on how the work is split',
 'The image computed with any number of threads or MPI processes, in any schedule, is bit-identical to the sequential one.',
 ['schedules', 'configurations'], 'for every scenery, thread count and schedule', 'Tests sample one or two thread counts and no adversarial schedule.', ['lib/Scenery.C'],
 [('worker threads', 'lib/Scenery.C')],
 na='Taken whole it is an equality of computed images; MPI code is not compiled here. Its structural necessary conditions are claimed separately: clones carry the whole state (C01), share nothing (C02), have the right type (C03), and objects are fully initialised (C09).')
prop('N03', 'Saving to XML and reading back reproduces every number exactly',
 'Any object written to XML and read back has bit-identical parameters.',
 ['inputs'], 'for every value of every parameter', 'Tests sample a few values.', ['lib/Factory.C', 'lib/FactoryMessenger.C'],
 [('number formatting', 'lib/FactoryMessenger.C')],
 na='Exact decimal round-trip depends on the formatting precision and the C library at run time; the structural clauses (every parameter is written and read through its own typed accessor and name) are C04, C07 and C08.')
