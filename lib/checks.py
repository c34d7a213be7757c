"""What each property's check runs.  See DESIGN.md."""
from runner import Job
A_COMMON = ['executions sampled by seed; the verdict covers the explored inputs and schedules only',
            'library built from /repo sources with g++ -O1 (not the -O2/-O3 of a release) and the options of /opt/vp/build.sh']
CHECKS = {}
def C(pid, jobs, rule, need, assumptions=(), extra=None):
    CHECKS[pid] = dict(jobs=jobs, rule=rule, need=need, assumptions=A_COMMON + list(assumptions), extra=extra)

C('C01', lambda tier: [Job('plain', 'm_threads', 16, group='diff'), Job('tsan', 'm_threads', 16, group='tsan')],
  'distinct = sceneries (XML text) and distinct pixel-to-thread hand-out orders seen by the iterator probe',
  ['threaded runs', 'hit pixels', 'cells', 'impact re-use runs'],
  ['TSan reports races only on executed paths; g++ libtsan, pthread mutexes intercepted'])
C('C02', lambda tier: [Job('plain', 'm_pixels', 16, group='diff'), Job('asan', 'm_pixels', 16, group='asan')],
  'distinct = sceneries (XML text) and (scenery family, quantity subset) pairs',
  ['hit pixels', 'cells compared', 'rectangles', 'lists', 'angle lists', 'masked cells', 'quantity subsets', 'foreign images'])
C('C08', lambda tier: [Job('plain', 'm_metric', 16)],
  'distinct = metrics (kind and parameter values)', ['points', 'rhs'],
  ['closed forms written from the literature; finite differences of the library tensor as second oracle'])
C('C23', lambda tier: [Job('plain', 'm_orbits', 16)],
  'distinct = metrics (kind and parameter values)',
  ['circular orbits', 'angular momenta', 'zamos', 'velocity helpers', 'tetrads', 'potentials', 'characteristic radii', 'keplerian'])
C('C07', lambda tier: [Job('asan', 'm_units', 16)],
  'distinct = (value, metric mass) pairs and (object kind, property) pairs',
  ['conversions', 'screens', 'unit properties', 'geometrical', 'refusals', 'refused resets'],
  ['SI factors of the units written from their definitions; udunits2 itself is not under test'])
C('C14', lambda tier: [Job('asan', 'm_spectro', 16, leaks=1)],
  'distinct = (kind, band, samples) settings and operation histories of composite spectrometers',
  ['uniform checks', 'complex checks', 'appends', 'removes', 'element changes', 'complex clones', 'bands with unit', 'element outlives complex', 'changes of removed elements', 'xml', 'textual', 'refusals'])
C('C06', lambda tier: [Job('asan', 'm_props', 16), Job('asan', 'm_units', 16)],
  'distinct = (object kind, property) pairs and subobject paths',
  ['values set', 'texts set', 'booleans', 'refusals', 'paths', 'objects set', 'unit properties'],
  ['setters with a documented normal form are compared in that form: StarTrace TMin/TMax (kept ordered), Torus SmallRadius (absolute value), PowerLaw CutOff (sorted), Scenery Quantities (set of words), vectors shorter than the parameter array (completed)'])
C('C15', lambda tier: [Job('asan', 'm_spectra', 16)],
  'distinct = spectra (kind and parameter values)',
  ['values', 'optical depths', 'integrals', 'cut-offs', 'bremsstrahlung', 'synchrotron', 'angle averages', 'special functions'],
  ['synchrotron coefficients compared with the fits of Marszewski et al. 2021 / Pandya et al. 2016 that the code cites, bremsstrahlung with Stepney & Guilbert 1983 and the Rybicki & Lightman Gaunt factor',
   'integrate() stops on a 1 % change: bands wider than a factor 1.5 are held to 15 % only'])
C('C13', lambda tier: [Job('asan', 'm_screen', 16)],
  'distinct = cameras (metric and settings), local observers, pixel ranges',
  ['rays', 'polar bases', 'scaled cameras', 'tetrad rays', 'far observers', 'sky conversions', 'positions', 'sets', 'grids', 'buckets', 'masks', 'refusals', 'SphericalAngles', 'Rectilinear', 'EquatorialAngles'],
  ['in curved metrics the direction seen by the observer at infinity is compared with flat geometry to 6/r'])
C('C04', lambda tier: [Job('asan', 'm_clone', 16)],
  'distinct = (object kind, randomised property state)',
  ['clones', 'randomised properties', 'grids filled', 'changes', 'survivals', 'scenery clones', 'photon clones', 'clone metric changes', 'hit pixels'],
  ['images of objects following an integrated orbit compared to integration accuracy (the orbit store is filled on demand)'])
C('C03', lambda tier: [Job('asan', 'm_xml', 16)],
  'distinct = XML documents and object kinds',
  ['documents read', 'properties compared', 'randomised properties', 'files', 'images compared', 'hit pixels'],
  ['kinds that only exist with data files (Dynamical*, FlaredDiskSynchrotron, ThinDiskGridIntensity...) are round-tripped without data here and with data under C19',
   'Scenery InitCoord (the last ray) and InflateStar SafetyValue are not part of the saved description; PolishDoughnut Lambda is derived when AngMomRinner is used'])

C('C05', lambda tier: [Job('asan', 'm_life', 16, leaks=1)],
  'distinct = pairs of consecutive operations on the object pool, object kinds, hook (listener) histories, sceneries',
  ['histories', 'operations', 'reachability checks', 'leak checks', 'lives', 'rereads', 'scenes', 'hit pixels', 'worldlines', 'photon hits', 'walks down', 'clones', 'drops', 'attachments', 'notifications', 'notifications checked'],
  ['leaks on refused input are not counted', 'reference cycles built by the user through setters are not promised to be collected', 'DynamicalDisk3D::copyEmissquant after file() is not exercised'])
C('C09', lambda tier: [Job('plain', 'm_geo', 16)],
  'distinct = trajectories (metric, start, integrator, direction) and metrics',
  ['massive', 'photons', 'forward', 'backward', 'Legacy', 'runge_kutta_fehlberg78', 'runge_kutta_cash_karp54', 'runge_kutta_dopri5', 'runge_kutta_cash_karp54_classic', 'states', 'carter', 'steps followed', 'straight lines'],
  ['states away from the horizon and the polar axis (other than rays without angular momentum, which are followed through it)', 'the Legacy integrator gives no proper time; proper time in the 3+1 formalism is first order (20 % asserted)'])
C('C10', lambda tier: [Job('asan', 'm_line', 16)],
  'distinct = trajectories and query histories',
  ['array vs single', 'prefilled vs fresh', 'vs reference geodesic', 'exact array vs single', 'positions only', 'velocities only', 'by proper time', 'records', 'query at a record', 'saved', 'position vector', 'after reset', 'massive', 'photons'],
  ['queries answered before and after further integration agree to integration accuracy, once recorded exactly'])
C('C16', lambda tier: [Job('plain', 'm_transfer', 16), Job('plain', 'm_hits', 16)],
  'distinct = sceneries',
  ['chords', 'channels', 'composite channels', 'rays through several bodies', 'hidden bodies', 'scaled emissivity', 'scaled sub-step', 'scaled tolerance', 'scaled accretion rate', 'transfer steps', 'opaque hits'],
  ['rays grazing the edge of a body within the integration sub-step are not compared', 'rays through the origin of flat space are not followed past it by the library (step limited to a fraction of r)'])
C('C17', lambda tier: [Job('plain', 'm_hits', 16)],
  'distinct = sceneries',
  ['rays', 'events', 'on trajectory', 'in volume', 'on disk', 'keplerian emitters', 'redshifts', 'times', 'impacts', 'crossings confirmed', 'misses confirmed', 'paths measured', 'opaque hits', 'hit pixels'],
  ['extended rigid bodies carry the velocity of a reference point: unit norm is asserted there only', 'ThinDiskProfile keeps its last impact'])
C('C12', lambda tier: [Job('plain', 'm_polar', 16)],
  'distinct = rays (metric, start, integrator), metrics, sceneries',
  ['rays', 'frames', 'frames compared', 'interpolated frames', 'rays corrected often', 'vectors followed across the axis', 'transfer matrices', 'slabs in order', 'polarisation angles', 'magnetic fields', 'scenes', 'unpolarised steps', 'polarised steps', 'polarised pixels', 'images compared with the unpolarised calculation'],
  ['emission steps where the published synchrotron fits give |V| > 5 % of I are outside the domain of the fits: their polarised fraction is not bounded', 'images of unpolarised emitters compared pixel by pixel except a few edge pixels'])

C('C20', lambda tier: [Job('plain', 'm_history', 16)],
  'distinct = sceneries, setting histories and object kinds',
  ["shuffled documents", "histories", "rewritten configurations", "metric changes", "replacements", "trajectories after a metric setting", "detour settings"],
  ['orders of settings which the library refuses with an error give no verdict', 'through XML documents numbers have 15 digits: compared to 1e-3 along chaotic rays'])
C('C21', lambda tier: [Job('plain', 'm_tool', 16, deps=['gyoto'])],
  'distinct = command lines (options and sceneries)',
  ['tool runs', 'images', 'hit pixels', 'cells compared', 'cells outside', 'regions', 'impact cells', 'impacts re-used', 'impacts shifted in time', 'impacts passed on', 'written back', 'failures', 'successes', 'interruptions', 'interrupted pixels saved'],
  ['FITS read back with cfitsio, which is not under test', 'an interrupted run may leave one unfinished pixel per thread'])
C('C22', lambda tier: [Job('plain', 'm_mpi', 16), Job('asan', 'm_mpi', 8, group='asan')],
  'distinct = sceneries, orders in which the workers delivered, quantity mixes, team sizes',
  ['images', 'pixels shared out', 'hit pixels', 'directions', 'region', 'region in place', 'stored impacts', 'whole image', 'scenery changed', 'worker pauses injected'],
  ['Open MPI on one host, 1 manager and 2 to 5 workers; the transport itself is not under test', 'the workers receive the scenery as XML (15 digits): the reference is the single-process image of the re-read document'])
C('C11', lambda tier: [Job('plain', 'm_equiv', 16)],
  'distinct = pairs of equivalent descriptions of one scenery',
  ['rays', 'impacts compared', 'redshifts compared', 'intensities compared', 'missed by both', 'FixedStar', 'Star', 'ThinDisk', 'Torus', 'PageThorneDisk', 'thin', 'thick'],
  ['rays whose impact moves by more than 3e-3 when their start moves by 1e-6, and rays meeting the edge of an object, give no verdict',
   'a moving ball is defined on slices of coordinate time, so Star is not compared between Boyer-Lindquist and Kerr-Schild coordinates; its redshift is that of its centre'])
C('C19', lambda tier: [Job('asan', 'm_grid', 16)],
  'distinct = grids (object, dimensions, repetition, optional arrays, way of storage)',
  ['PatternDisk', 'PatternDiskBB', 'Disk3D', 'DirectionalDisk', 'GridData2D', 'ThinDiskGridIntensity', 'FlaredDiskSynchrotron', 'FITS round trips', 'lookups', 'lookups at nodes and edges', 'lookups inside', 'lookups outside', 'velocities looked up', 'as set', 'cloned', 'read from FITS', 'pixels ray-traced', 'pixels with emission'],
  ['keywords of FITS files carry 15 digits', 'opacity is a property of a cell: any corner of the enclosing cell is accepted', 'points within 1e-6 of a cell boundary may go to either cell', 'time sequences of FITS files (DynamicalDisk, DynamicalDisk3D) are not part of the property'])
