#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.
   python3 lib/props.py   rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, qtext, why, files, mech, observe, technique, note, claimed=True, hook=None):
    assert len(title) <= 80, (id, len(title))
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=observe, hook_needed=hook)), technique, note, claimed

PROPS = [
P('C01', 'Threaded ray-tracing is race-free and independent of threads and schedule',
  'Ray-tracing a scenery with any number of threads, under any interleaving of the workers, is free of data races and '
  'yields for every requested pixel and every requested quantity exactly the numbers that the single-threaded run yields (bit for bit; to integration accuracy for objects that follow an integrated orbit); '
  'each requested pixel is computed exactly once and no other cell of the output is written.',
  ['schedules', 'configurations'], 'every scenery, thread count, pixel set and worker interleaving',
  'The examples only check that gyoto exits with a non-empty FITS file; no test compares images across thread counts, and a test run samples one schedule.',
  ['lib/Scenery.C', 'lib/Photon.C', 'lib/Worldline.C', 'lib/WorldlineIntegState.C', 'lib/SmartPointer.C', 'lib/Astrobj.C', 'lib/Metric.C', 'lib/Screen.C', 'lib/Converters.C'],
  [('per-thread clone of the photon, metric and object; mutex around the pixel iterator', 'lib/Scenery.C SceneryThreadWorker'),
   ('locked reference counts', 'lib/SmartPointer.C')],
  ['output arrays of Scenery::rayTrace', 'ThreadSanitizer reports', 'pixel iterator calls'],
  'ThreadSanitizer + bit-exact differential monitor over perturbed schedules',
  'Sampled sceneries (one family per metric/object/quantity mix) and schedules perturbed by injected delays in the pixel iterator; TSan sees only executed paths.'),
P('C02', 'A pixel depends only on the scene and its own sky direction',
  'The value computed for a pixel is the same whether it is traced alone, in a full image, in any sub-rectangle with any step, in an arbitrary list of pixels, '
  'by its sky angles, or after any other pixels or sceneries were traced with the same objects; results land in the cell of that pixel, '
  'masked pixels get the default value of each quantity without being traced, and requesting further scalar quantities (other than Intensity, which decides how far an opaque ray is followed) does not change the others.',
  ['histories', 'inputs', 'configurations'], 'every order and subset of pixels, every earlier use of the same objects',
  'No test compares a pixel of two different requests.',
  ['lib/Scenery.C', 'lib/Photon.C', 'lib/Worldline.C', 'lib/WorldlineIntegState.C', 'lib/Screen.C', 'lib/Astrobj.C'],
  [('full reset of the cached photon before each ray', 'lib/Scenery.C operator()'), ('Properties::init', 'lib/Astrobj.C'), ('Screen::Grid/Bucket/Range', 'lib/Screen.C')],
  ['output arrays of Scenery::rayTrace and Scenery::operator()'],
  'differential trace monitor over request histories',
  'Sampled sceneries and request histories; bit-exact within one build.'),
P('C03', 'XML save and reload reproduces the object',
  'Writing any Scenery, Metric, Astrobj, Screen, Spectrometer, Spectrum or Photon to XML and reading it back gives an object of the same kind whose every property has the same value '
  '(to the 15 significant digits of the format), whose second write is textually identical, and which ray-traces the same image.',
  ['inputs', 'configurations'], 'every registered kind and every value of its properties',
  'Tests round-trip a handful of default objects and never compare all properties.',
  ['lib/Factory.C', 'lib/Object.C', 'lib/Property.C', 'lib/Value.C', 'lib/Scenery.C', 'lib/Screen.C', 'lib/UniformSpectrometer.C', 'lib/ComplexSpectrometer.C', 'lib/ComplexAstrobj.C', 'lib/ComplexMetric.C', 'lib/Worldline.C', 'lib/Star.C'],
  [('property list driven fillElement/setParameters', 'lib/Object.C')],
  ['XML text', 'Object::get of every property', 'images'],
  'round-trip monitor driven by property reflection', 'Random property values within each property\'s accepted range; documents of all stdplug kinds.'),
P('C04', 'Clones are faithful and isolated',
  'A clone of any object (scenery, photon, worldline, screen, metric, astronomical object, spectrum, spectrometer) has the same kind and property values and computes the same results as its original at the time of cloning, '
  'and afterwards changing or destroying either one never changes the other.',
  ['histories', 'inputs'], 'every kind, every state of the original, every later change of either copy',
  'Cloning is only exercised implicitly by threaded examples whose images nobody compares.',
  ['lib/Photon.C', 'lib/Worldline.C', 'lib/WorldlineIntegState.C', 'lib/Scenery.C', 'lib/Screen.C', 'lib/ComplexAstrobj.C', 'lib/ComplexMetric.C', 'lib/PatternDisk.C', 'lib/Disk3D.C', 'lib/Star.C'],
  [('copy constructors / clone()', 'every class')],
  ['Object::get of every property', 'trajectories', 'images', 'tensor values'],
  'differential monitor original vs clone under AddressSanitizer', 'All kinds registered by stdplug; sampled states.'),
P('C05', 'Object lifetimes are memory-safe and leak-free for every history',
  'Whatever the order in which objects are created, shared, attached to one another, cloned, notified, detached and dropped, no freed or out-of-bounds memory is ever accessed, no undefined behaviour occurs, '
  'an object lives exactly as long as something references it, and everything is released when the last reference goes.',
  ['histories'], 'every sequence of operations on the public object interfaces',
  'Tests run few fixed sequences without any memory instrumentation.',
  ['lib/SmartPointer.C', 'include/GyotoSmartPointer.h', 'lib/Hooks.C', 'lib/Worldline.C', 'lib/Photon.C', 'lib/ComplexSpectrometer.C', 'lib/ComplexAstrobj.C', 'lib/ComplexMetric.C', 'lib/Shift.C', 'lib/Star.C', 'lib/PolishDoughnut.C'],
  [('intrusive reference counting', 'lib/SmartPointer.C'), ('Hook::Teller/Listener', 'lib/Hooks.C')],
  ['AddressSanitizer/UBSan/LeakSanitizer reports', 'reference counts', 'destruction events'],
  'ASan+UBSan+LSan over random operation histories with a reference-count model', 'Sampled histories; sanitizers see executed paths only.'),
P('C06', 'Property access by name is consistent and refuses what it cannot hold',
  'For every kind of object and every property it advertises, a value accepted through the by-name interface (typed, textual or with a compatible unit) is the value read back by name, the two spellings of a boolean are opposites, '
  'the subobject path syntax reaches the same property, and unknown names, values of the wrong type, strings that are not numbers given to numeric properties, and units that are incompatible or not supported raise a Gyoto error and leave the object unchanged.',
  ['inputs', 'configurations'], 'every kind, property, value, unit and spelling',
  'Tests touch a few properties of a few kinds.',
  ['lib/Object.C', 'lib/Property.C', 'lib/Value.C', 'include/GyotoProperty.h', 'lib/Converters.C', 'lib/Screen.C', 'lib/Star.C'],
  [('Property tables and Object::set/get/setParameter', 'lib/Object.C')],
  ['Object::get', 'Gyoto::Error'],
  'reflection-driven set/get monitor against a value model', 'Sampled values; properties with documented side effects are listed in DESIGN.md.'),
P('C07', 'Unit conversions agree with their physical definition and with each other',
  'Lengths, times, masses, frequencies and angles given in any supported unit convert to the internal unit with the correct physical factor and back to the same number, geometrical units scale with the mass of the metric, '
  'spectral units convert consistently between frequency, wavelength and energy, and inconvertible or unknown units raise an error.',
  ['inputs'], 'every value, unit pair and metric mass', 'Tests check a couple of literals.',
  ['lib/Converters.C', 'lib/Metric.C', 'lib/Screen.C', 'lib/Spectrometer.C', 'lib/UniformSpectrometer.C'],
  [('Units::To*/From*, Units::Converter', 'lib/Converters.C')],
  ['return values of Units:: functions and of unit-taking accessors'],
  'oracle monitor against independent unit factors', 'Reference factors are CODATA/IAU values to the precision Gyoto documents.'),
P('C08', 'Every metric is a consistent Lorentzian geometry',
  'At every regular point, for every metric kind and parameter set, the covariant tensor is symmetric with signature (-+++), coefficient-wise and matrix accessors agree, the contravariant tensor is its inverse, '
  'the Christoffel symbols are those of the tensor, scalar products and norms are the contractions of the tensor, and the tensor equals the published one for the named space-time.',
  ['inputs', 'configurations'], 'every point, metric kind and parameter value',
  'Tests evaluate a few metrics at a few points.',
  ['lib/Metric.C', 'lib/KerrBL.C', 'lib/KerrKS.C', 'lib/Minkowski.C', 'lib/ChernSimons.C', 'lib/Hayward.C', 'lib/RezzollaZhidenko.C', 'lib/KonoplyaRezzollaZhidenko.C', 'lib/ReissnerNordstrom.C', 'lib/SchwarzschildHarmonic.C', 'lib/BalasinGrumiller.C', 'lib/ComplexMetric.C', 'lib/Shift.C'],
  [('gmunu, gmunu_up, christoffel, jacobian', 'each metric')],
  ['return values of the tensor accessors'],
  'invariant monitor with finite-difference and closed-form oracles', 'Sampled points and parameters; tolerances set from conditioning.'),
P('C09', 'Geodesics conserve what the space-time conserves',
  'Along every integrated trajectory, for photons and massive particles, forward and backward, with every integrator, the norm of the 4-velocity and the constants of motion allowed by the symmetries of the metric (energy, axial angular momentum, Carter constant in Kerr) '
  'stay constant to the integrator tolerance, and the recorded states satisfy the geodesic equation.',
  ['inputs', 'configurations'], 'every initial condition, metric and integrator setting',
  'Tests integrate two or three orbits without checking invariants.',
  ['lib/Worldline.C', 'lib/WorldlineIntegState.C', 'lib/Photon.C', 'lib/KerrBL.C', 'lib/KerrKS.C', 'lib/Metric.C', 'lib/Minkowski.C'],
  [('adaptive steppers with error control; MakeCst/Normalize4v', 'lib/WorldlineIntegState.C, lib/KerrBL.C')],
  ['stored worldline states'],
  'online conservation monitor on recorded worldlines', 'Sampled initial conditions; drift bounds scale with requested tolerances.'),
P('C10', 'A worldline answers the same whatever was asked before',
  'The position and velocity reported for a date do not depend (to integration accuracy; exactly once the dates are covered by what is recorded) on which dates were queried before, in which order, singly or as an array, nor on how far the trajectory had already been integrated; '
  'recorded dates are strictly monotonic, queries at recorded dates return the recorded state, and all accessors (spherical, Cartesian, sky, components, derivatives, saved text) describe that same state.',
  ['histories', 'inputs'], 'every sequence of queries on every trajectory',
  'Tests query one monotonic set of dates.',
  ['lib/Worldline.C', 'lib/Star.C', 'include/GyotoWorldline.h'],
  [('xStore/xFill/getCoord interpolation by re-integration', 'lib/Worldline.C')],
  ['getCoord, getCartesian, getSkyPos, getCartesianPos, save_*'],
  'query-history differential monitor under ASan', 'Tolerance set by integrator precision.'),
P('C11', 'Equivalent descriptions of the same scene give the same physics',
  'Space-times that are the same geometry (Kerr in Boyer-Lindquist and Kerr-Schild form, flat space in Cartesian and spherical coordinates, every parametrised metric with vanishing deviation, shifted and superposed metrics that reduce to one body) '
  'give the same observable results: redshifts, emission times, intensities, impact positions, images related by the symmetries of the scene, to integration accuracy for rays that do not graze an edge or the photon orbit.',
  ['configurations', 'inputs'], 'every pair of equivalent descriptions and every ray',
  'No test compares images across descriptions.',
  ['lib/KerrBL.C', 'lib/KerrKS.C', 'lib/Minkowski.C', 'lib/RezzollaZhidenko.C', 'lib/KonoplyaRezzollaZhidenko.C', 'lib/ChernSimons.C', 'lib/Hayward.C', 'lib/ReissnerNordstrom.C', 'lib/ComplexMetric.C', 'lib/Shift.C', 'lib/Screen.C', 'lib/ThinDisk.C', 'lib/UniformSphere.C'],
  [('coordinate handling of every object', 'ThinDisk, UniformSphere, Screen')],
  ['ray-traced quantities'],
  'metamorphic differential monitor', 'Physical agreement to integration accuracy; rays within a grazing margin are counted as no-verdict.'),
P('C12', 'Polarised transport preserves the polarisation frame and Stokes consistency',
  'Along every polarised ray the two screen vectors stay unit, mutually orthogonal and orthogonal to the wave vector, Stokes parameters are finite with Q2+U2+V2 <= I2 (in the domain of validity of the synchrotron fits), an unpolarised emitter yields Q=U=V=0 and the same I as the unpolarised calculation, '
  'and the transfer matrix of a step is the exponential of the absorption/Faraday matrix.',
  ['inputs', 'configurations'], 'every ray, object and spectral setting', 'The polar example only checks that the program ends.',
  ['lib/Photon.C', 'lib/Astrobj.C', 'lib/WorldlineIntegState.C', 'lib/Screen.C', 'lib/ThermalSynchrotronSpectrum.C', 'lib/PowerLawSynchrotronSpectrum.C', 'lib/KappaDistributionSynchrotronSpectrum.C', 'lib/Blob.C', 'lib/ThickDisk.C'],
  [('parallel transport in the geodesic equation; Omatrix', 'lib/Metric.C, lib/Astrobj.C')],
  ['worldline states', 'Stokes outputs', 'Omatrix'],
  'invariant monitor and matrix-exponential oracle', 'Sampled rays and coefficients.'),
P('C13', 'The screen maps pixels, angles and positions consistently',
  'For every camera setting the ray of a pixel starts at the observer, is null and past-going into the scene in the direction of that pixel, neighbouring pixels are spaced by the field of view over the resolution in each projection, '
  'observer tetrads are orthonormal, sky and space coordinates are inverse of each other, and pixel sets enumerate exactly the requested pixels once, in order.',
  ['configurations', 'inputs'], 'every camera setting, projection, observer kind and pixel', 'No test checks directions.',
  ['lib/Screen.C', 'lib/Metric.C', 'lib/KerrBL.C', 'lib/Minkowski.C'],
  [('getRayTriad, computeBaseVectors, coordToSky/skyToCoord', 'lib/Screen.C')],
  ['getRayCoord/getRayTriad', 'Coord2dSet iteration'],
  'geometric invariant monitor with independent projection oracle', 'Sampled settings.'),
P('C14', 'Spectral channels partition the requested band',
  'For every spectrometer the channel boundaries tile the requested band in the requested spacing, midpoints and widths match the boundaries in every unit, channel indices stay in range, '
  'composite spectrometers are the concatenation of their elements at all times, and changing any element or parameter is reflected everywhere it is used.',
  ['inputs', 'histories'], 'every kind, band, unit, sample count and sequence of edits', 'Tests look at one spectrometer.',
  ['lib/Spectrometer.C', 'lib/UniformSpectrometer.C', 'lib/ComplexSpectrometer.C', 'lib/Hooks.C', 'lib/Photon.C'],
  [('Uniform::reset_, Complex::tell', 'lib')], ['channel arrays'],
  'model-based monitor under ASan', 'Sampled edit histories.'),
P('C15', 'Spectra follow their laws',
  'Every spectrum kind returns finite, non-negative values that follow its physical law (Planck, power law with cut-offs, bremsstrahlung, synchrotron emission/absorption satisfying Kirchhoff where thermal), integrals over a band agree with quadrature and are additive over sub-bands, '
  'and the value for a finite optical depth tends to the thin and thick limits.',
  ['inputs', 'configurations'], 'every frequency, band, parameter set', 'Tests evaluate two spectra at a few frequencies.',
  ['lib/Spectrum.C', 'lib/BlackBodySpectrum.C', 'lib/PowerLawSpectrum.C', 'lib/ThermalBremsstrahlungSpectrum.C', 'lib/ThermalSynchrotronSpectrum.C', 'lib/PowerLawSynchrotronSpectrum.C', 'lib/KappaDistributionSynchrotronSpectrum.C'],
  [('operator(), integrate, jnuCGS/alphanuCGS, radiativeQ', 'lib/*Spectrum.C')], ['spectrum values'],
  'closed-form and quadrature oracle monitor', 'Sampled parameters and frequencies.'),
P('C16', 'Radiative transfer along a ray is physical and order-consistent',
  'Transmissions stay within [0,1] and never increase along a ray, intensities and spectra are finite and non-negative and scale linearly with the emissivity, opaque objects hide everything behind them, adding a transparent dark object changes nothing, '
  'a composite object without overlaps equals the ordered transfer through its parts, and frequency-integrated, spectral and single-frequency outputs agree, the energy in a narrow channel being its width times the spectrum whatever the redshift.',
  ['inputs', 'configurations'], 'every scene and ray', 'No test checks intensities.',
  ['lib/Astrobj.C', 'lib/Photon.C', 'lib/StandardAstrobj.C', 'lib/ComplexAstrobj.C', 'lib/ThinDisk.C', 'lib/UniformSphere.C', 'lib/Torus.C', 'lib/Scenery.C'],
  [('processHitQuantities, transmit, radiativeQ', 'lib/Astrobj.C, lib/Photon.C')], ['ray-traced quantities', 'transmission after each hit'],
  'metamorphic and online transfer monitor', 'Sampled scenes.'),
P('C17', 'Reported hits lie on the object and carry the emitter it has there',
  'Whenever a ray is reported to hit an object, the reported impact point lies on or inside the object on the photon trajectory, the emitter 4-velocity is a unit time-like vector (for extended rigid bodies, the velocity of their reference point), the redshift is the ratio of the photon energies at emitter and observer, the emission time is the date of the impact, '
  'and a ray whose trajectory provably crosses the object is reported as a hit.',
  ['inputs', 'configurations'], 'every object kind, metric and ray', 'Nothing checks impact coordinates.',
  ['lib/Astrobj.C', 'lib/StandardAstrobj.C', 'lib/ThinDisk.C', 'lib/UniformSphere.C', 'lib/Torus.C', 'lib/Star.C', 'lib/FixedStar.C', 'lib/PolishDoughnut.C', 'lib/Worldline.C', 'lib/Functors.C'],
  [('Impact(), findMin/findValue', 'lib')], ['ImpactCoords, Redshift, EmissionTime'],
  'impact replay oracle monitor', 'Sampled scenes; grazing rays are no-verdict.'),
P('C18', 'Malformed input is refused with an error, never a crash or a hang',
  'Any XML document, parameter text, parameter value, FITS file or command line, however malformed, either is accepted with a meaningful object or is refused with a Gyoto error (non-zero exit status of the tool); '
  'it never causes a crash, undefined behaviour, unbounded work or a silently corrupted object.',
  ['inputs'], 'every byte string offered as input', 'Tests only use well-formed input.',
  ['lib/Factory.C', 'lib/Object.C', 'lib/Value.C', 'lib/Register.C', 'lib/Scenery.C', 'lib/Screen.C', 'lib/UniformSpectrometer.C', 'lib/PatternDisk.C', 'lib/Disk3D.C', 'lib/DirectionalDisk.C', 'lib/GridData2D.C', 'bin/gyoto.C'],
  [('GYOTO_ERROR / Gyoto::Error', 'include/GyotoError.h')], ['process outcome', 'sanitizer reports'],
  'mutation fuzzing of documents under ASan+UBSan', 'Grammar-aware and byte-level mutations of a corpus covering every kind.'),
P('C19', 'Gridded data survive storage and are sampled inside their grid',
  'For every object defined on a data grid, what is written to FITS and read back is the same data and the same grid, by-array setters and getters agree, lookups inside the grid use the cells enclosing the point and interpolate between their values, a pattern that repeats or rotates is found where it has repeated or rotated to, lookups outside give nothing, and no access leaves the arrays. (Sequences of FITS files in time are not covered.)',
  ['inputs', 'histories'], 'every grid size, content, repetition, point', 'Tests load one pattern.',
  ['lib/PatternDisk.C', 'lib/PatternDiskBB.C', 'lib/Disk3D.C', 'lib/DirectionalDisk.C', 'lib/DynamicalDisk.C', 'lib/DynamicalDisk3D.C', 'lib/GridData2D.C', 'lib/FitsRW.C', 'lib/ThinDiskGridIntensity.C', 'lib/Screen.C'],
  [('fitsRead/fitsWrite, getIndices, interpolate', 'lib')], ['arrays, FITS files, emission values'],
  'round-trip and bounds monitor under ASan', 'Sampled grids.'),
P('C20', 'Results depend on the final configuration, not on how it was reached',
  'Two sceneries with the same parameters give the same results, whatever the order in which parameters were set, however often they were changed or used for ray-tracing in between, and whichever object a shared parameter (metric, mass, spectrometer) was changed through; trajectories follow every change of the metric they are computed in.',
  ['histories'], 'every sequence of parameter changes and uses leading to the same configuration', 'Tests build each scene once.',
  ['lib/Hooks.C', 'lib/Metric.C', 'lib/Worldline.C', 'lib/Photon.C', 'lib/Scenery.C', 'lib/Screen.C', 'lib/PolishDoughnut.C', 'lib/Torus.C', 'lib/ComplexAstrobj.C', 'lib/ComplexMetric.C', 'lib/Shift.C', 'lib/PageThorneDisk.C', 'lib/Star.C'],
  [('Teller/Listener invalidation of cached data', 'lib/Hooks.C')], ['ray-traced quantities'],
  'configuration-history differential monitor', 'Sampled histories.'),
P('C21', 'The gyoto tool produces what the library computes',
  'For every scenery file and option set, the FITS file written by the command-line tool holds, plane by plane as labelled, exactly what the library computes for that scenery with those options applied; pixels outside the requested region are well defined, '
  'stored impact coordinates can be reused to reproduce the image, an interrupted run saves what it had computed, and any failure gives a non-zero exit status.',
  ['inputs', 'configurations'], 'every option combination', 'Tests check the file is non-empty.',
  ['bin/gyoto.C', 'lib/Scenery.C', 'lib/Screen.C'], [('option loop and plane layout', 'bin/gyoto.C')], ['FITS planes', 'exit status'],
  'end-to-end differential monitor', 'Sampled option sets.'),
P('C22', 'Distributed ray-tracing equals local ray-tracing',
  'Ray-tracing with MPI worker processes gives, for every quantity and pixel set, exactly the result of the single-process run of the same XML document, whatever the number of workers and the order in which they answer.',
  ['schedules', 'configurations'], 'every worker count, completion order, quantity mix', 'The MPI tests are not run here.',
  ['lib/Scenery.C', 'bin/gyoto-mpi-worker.C'], [('manager/worker loop', 'lib/Scenery.C rayTrace')], ['output arrays'],
  'differential monitor over MPI runs', 'Sampled sceneries and team sizes on one host.'),
P('C23', 'Orbits and characteristic radii agree with the geometry',
  'For every metric that provides them, circular velocities are unit time-like vectors tangent to circular geodesics in the requested sense, ZAMO velocities have no angular momentum, the marginally stable and bound radii, the angular momentum and the potential are those the tensor implies, and normalising a velocity yields a unit time-like vector with the same 3-velocity.',
  ['inputs', 'configurations'], 'every radius, spin/parameter, direction', 'Tests check a few radii.',
  ['lib/Metric.C', 'lib/KerrBL.C', 'lib/KerrKS.C', 'lib/Minkowski.C', 'lib/ChernSimons.C', 'lib/Hayward.C', 'lib/RezzollaZhidenko.C', 'lib/KonoplyaRezzollaZhidenko.C', 'lib/ReissnerNordstrom.C', 'lib/Shift.C'],
  [('circularVelocity, zamoVelocity, getRms, getRmb', 'each metric')], ['returned velocities and radii'],
  'closed-form and derivative oracle monitor', 'Sampled radii/parameters.'),
]

def main():
    from claims import CLAIMS, NOT_APPLICABLE, HOOKS
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, *_ in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks = []; na = []
    for p, tech, note, _ in PROPS:
        i = p['id']
        if i in CLAIMS:
            checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py ' + i + ' thorough',
                               technique=tech, level='exploration', level_note=note))
        else:
            na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'check not built yet')))
    m = dict(version=1, setup_cmd='python3 lib/setup.py', hooks=HOOKS, checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
if __name__ == '__main__':
    main()
