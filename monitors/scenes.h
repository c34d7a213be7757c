// Catalogue of valid sceneries (metric x object x screen x spectrometer x
// quantities) with parameters drawn at random inside their documented ranges.
#ifndef VERIF_SCENES_H
#define VERIF_SCENES_H
#include "common.h"
namespace V {
struct SceneOpt {
  int res = 6; std::string quantities; int nchan = 3; double fov = -1; bool shadow = false;
  std::string extra;           // inside <Scenery>
  std::string screenExtra;     // inside <Screen>
};
struct Scene { std::string xml, name, metricKind, objKind; bool polar = false, spectral = true; bool slow = false, orbit = false; int res; };

inline std::string metricXML(const std::string &k, Rng &r) {
  std::string x = "<Metric kind=\"" + k + "\"><Mass unit=\"sunmass\">" + num(r.lu(1e6, 1e9)) + "</Mass>";
  if (k == "KerrBL" || k == "KerrKS") x += tag("Spin", r.p(.15) ? 0. : r.u(-.95, .95));
  if (k == "KerrBL9") x = "<Metric kind=\"KerrBL\"><Mass unit=\"sunmass\">4e6</Mass>" + tag("Spin", r.u(.89, .91));
  if (k == "KerrBL" && r.p(.3)) x += "<GenericIntegrator/>";
  if (k == "Minkowski") x += std::string("<Keplerian/>") + (r.p(.5) ? "<Spherical/>" : "");
  if (k == "MinkowskiSph") { x = "<Metric kind=\"Minkowski\"><Mass unit=\"sunmass\">4e6</Mass><Spherical/>"; }
  if (k == "ChernSimons") x += tag("Spin", r.u(-.4, .4)) + tag("DzetaCS", r.u(0, .3)) + tag("HorizonSecurity", .3);
  if (k == "RezzollaZhidenko") x += tag("Epsilon", r.u(0., .2)) + tag("AParam", fmt("%.6g %.6g 0 0", r.u(0, .05), r.u(0, .05))) + tag("BParam", fmt("%.6g %.6g 0 0", r.u(0, .05), r.u(0, .05))) + tag("Rms", 6.) + tag("Rmb", 4.);
  if (k == "KonoplyaRezzollaZhidenko") x += tag("Spin", r.u(0, .6)) + tag("DeltasHorizon", fmt("%.5g 0 0 0 0 0", r.u(0, .05))) + tag("Rms", 5.);
  if (k == "Hayward") x += tag("Spin", r.u(-.8, .8)) + tag("Charge", r.u(0., .3));
  if (k == "ReissnerNordstrom") x += tag("Charge", r.u(0., .9));
  return x + "</Metric>"; }

inline std::string circ(double r, double a) { return num(1. / (pow(r, 1.5) + a)); }

/// XML of an object of kind k, parameters adapted to a central mass seen from 100 M
inline std::string objXML(const std::string &k, Rng &r, bool sph, const std::string &tagname = "Astrobj", bool atorigin = false) {
  std::string x = "<" + tagname + " kind=\"" + (k == "HotSpotPolar" ? "EquatorialHotSpot" : k == "StarThick" ? "Star" : k == "BlobPolar" ? "Blob" : k) + "\">";
  auto spec = [&]() { std::string s;
    if (r.p(.5)) s += "<Spectrum kind=\"BlackBody\">" + tag("Temperature", r.lu(3000, 1e5)) + "</Spectrum>";
    else s += "<Spectrum kind=\"PowerLaw\">" + tag("Exponent", r.u(-1, 1)) + tag("Constant", r.lu(1e-3, 1e3)) + "</Spectrum>";
    s += "<Opacity kind=\"PowerLaw\">" + tag("Exponent", 0.) + tag("Constant", r.lu(1e-13, 1e-9)) + "</Opacity>";
    return s; };
  auto thin = [&]() { return std::string(r.p(.5) ? "<OpticallyThin/>" : "<OpticallyThick/>"); };
  auto poscart = [&](double rr, double ph) { // equatorial position in the metric coordinates
    return sph ? fmt("%.15g %.15g %.15g", rr, M_PI / 2, ph) : fmt("%.15g %.15g 0", rr * cos(ph), rr * sin(ph)); };
  auto velcirc = [&](double rr, double ph) { double om = 1 / pow(rr, 1.5);
    return sph ? fmt("0 0 %.15g", om) : fmt("%.15g %.15g 0", -rr * sin(ph) * om, rr * cos(ph) * om); };
  if (k == "Star" || k == "StarThick" || k == "InflateStar" || k == "StarTrace") {
    double rr = r.u(10.5, 12.5), ph = r.u(0, 6.28);
    x += tag("Radius", r.u(2., 4)) + tag("Position", num(r.u(850, 950)) + " " + poscart(rr, ph)) + tag("Velocity", velcirc(rr, ph)) + spec();
    x += k == "StarThick" ? "<OpticallyThick/>" : thin();
    if (k == "InflateStar") x += "<TimeInflateInit unit=\"geometrical_time\">" + num(r.u(800, 880)) + "</TimeInflateInit><TimeInflateStop unit=\"geometrical_time\">" + num(r.u(900, 1000)) + "</TimeInflateStop>" + tag("RadiusStop", r.u(2.6, 4));
    if (k == "StarTrace") x += tag("TMin", 850.) + tag("TMax", 950.) + tag("DeltaMax", .7);
    x += tag("RMax", 40.);
  } else if (k == "FixedStar") {
    double rr = r.u(8, 12), ph = r.u(0, 6.28);
    x += tag("Radius", r.u(3, 6)) + tag("Position", poscart(rr, ph)) + spec() + thin() + tag("RMax", 40.);
    if (r.p(.3)) x += "<Rotating/>";
  } else if (k == "FreeStar") {
    double rr = r.u(8, 12);
    x += tag("Radius", r.u(3, 5)) + tag("InitPosition", fmt("%g %g %.15g %g", r.u(850, 950), rr, M_PI / 2, r.u(0, 6))) + tag("InitVelocity", "0 0 " + num(.8 / pow(rr, 1.5))) + spec() + thin() + tag("RMax", 40.);
  } else if (k == "Torus") {
    double R = r.u(6, 12);
    x += tag("LargeRadius", R) + tag("SmallRadius", R * r.u(.1, .3)) + spec() + thin() + tag("RMax", 30.);
  } else if (k == "OscilTorus") {
    x += tag("LargeRadius", r.u(10., 18.)) + tag("PolyCst", 0.0001 * r.lu(.8, 1.5)) + tag("PolyIndex", 1.5) + tag("CentralDensity", 1.) + tag("Mode", fmt("%d", int(r.i(0, 2)))) + tag("PerturbKind", r.pick(strs{"Radial", "Vertical", "X", "Plus", "Breathing"})) + tag("PerturbIntens", r.u(.05, .2)) + "<OpticallyThick/>" + tag("RMax", 40.) + tag("SafetyValue", 50.);
  } else if (k == "DeformedTorus") {
    x += tag("LargeRadius", r.u(9., 14.)) + tag("Beta", r.u(.05, .12)) + tag("BetaSt", r.u(.05, .2)) + tag("Eta", r.u(.1, .6)) + tag("Mode", "0") + tag("PerturbKind", r.pick(strs{"RadialTranslation", "VerticalTranslation", "Rotation", "Expansion", "RadialShear", "VerticalShear", "PureShear"})) + "<Spectrum kind=\"BlackBody\">" + tag("Temperature", 1e5) + "</Spectrum><OpticallyThick/>" + tag("RMax", 22.);
  } else if (k == "ThinDisk") {
    x += tag("InnerRadius", r.u(3, 7)) + tag("OuterRadius", r.u(12, 30)) + thin() + tag("RMax", 50.) + (r.p(.3) ? "<CounterRotating/>" : "") ;
  } else if (k == "PageThorneDisk") {
    x += (r.p(.5) ? tag("Mdot", r.lu(.1, 10)) : std::string()) + tag("OuterRadius", r.u(12, 30)) + tag("RMax", 50.) + (r.p(.2) ? "<UniFlux/>" : "");
  } else if (k == "ThinDiskPL") {
    x += tag("Slope", r.u(-2, 0)) + tag("Tinner", r.lu(1e5, 1e7)) + tag("InnerRadius", r.u(6, 8)) + tag("OuterRadius", r.u(14, 30)) + tag("RMax", 50.) + "<OpticallyThick/>";
  } else if (k == "ThinDiskIronLine") {
    x += tag("PowerLawIndex", r.u(-4, -2)) + tag("LineFreq", 1.5e18) + tag("CutRadius", 5.) + tag("InnerRadius", 6.) + tag("OuterRadius", 25.) + tag("RMax", 50.);
  } else if (k == "ThinDiskProfile") {
    x += tag("InnerRadius", r.u(3., 5)) + tag("OuterRadius", 30.) + tag("MotionKind", r.p(.5) ? "Circular" : "Radial") + tag("Model_param", fmt("%g %g %g", r.u(-2, 0), r.u(3, 6), r.u(.5, 1.5))) + thin() + tag("RMax", 50.);
  } else if (k == "EquatorialHotSpot" || k == "HotSpotPolar") {
    double rr = r.u(8, 12);
    x += "<OpticallyThin/>" + tag("Velocity", "0 0 " + circ(rr, 0)) + tag("Position", fmt("%g %g %.17g %g", r.u(880, 920), rr, M_PI / 2, r.u(0, 6.28))) + tag("SpotRadSize", k == "HotSpotPolar" ? r.u(2, 3.5) : r.u(1., 1.5)) + tag("BeamingKind", k == "HotSpotPolar" ? "IsotropicBeaming" : r.pick(strs{"IsotropicBeaming", "NormalBeaming", "RadialBeaming", "IsotropicConstant"})) + tag("BeamAngle", r.u(.3, 1.)) + tag("InnerRadius", 4.) + tag("OuterRadius", 15.) + tag("MagneticConfiguration", r.pick(strs{"Vertical", "Radial", "Toroidal"})) + tag("RMax", 30.);
  } else if (k == "PolishDoughnut") {
    x += (r.p(.5) ? "<AngleAveraged/>" : "") + tag("AngMomRinner", "3.2 4.2") + std::string("<CentralEnthalpyPerUnitVolume unit=\"erg/cm3\">") + num(r.lu(1e3, 1e4)) + "</CentralEnthalpyPerUnitVolume>" + tag("CentralTemperature", r.lu(2e10, 9e10)) + tag("Beta", r.lu(1, 30)) + "<OpticallyThin/>" + tag("RMax", 40.) + tag("DeltaInObj", .3);
  } else if (k == "Jet") {
    x += "<NonParabolic/>" + tag("JetOuterOpeningAngle", r.u(.4, .6)) + tag("JetInnerOpeningAngle", r.u(.2, .35)) + tag("JetInnerRadius", 2.) + tag("GammaJet", r.u(1.1, 1.5)) + "<BaseNumberDensity unit=\"cm-3\">" + num(r.lu(1e6, 1e8)) + "</BaseNumberDensity>" + tag("BaseTemperature", r.lu(1e10, 6e10)) + tag("TemperatureSlope", r.u(.1, .4)) + tag("MagnetizationParameter", r.lu(1e-3, .1)) + tag("KappaIndex", r.p(.5) ? r.u(4, 7) : -1.) + tag("RMax", 40.) + tag("DeltaInObj", 1.);
  } else if (k == "ThickDisk") {
    x += (r.p(.7) ? "<UseSelfAbsorption/>" : "") + tag("ThickDiskInnerRadius", r.u(2.2, 4)) + tag("VeloParam", fmt("%g 1.", r.u(.4, .9))) + "<NumberDensityAtInnerRadius unit=\"cm-3\">" + num(r.lu(1e5, 1e6)) + "</NumberDensityAtInnerRadius>" + tag("TemperatureAtInnerRadius", r.lu(3e10, 1e11)) + tag("TemperatureSlope", r.u(.6, 1)) + tag("DensitySlope", r.u(1., 2.)) + tag("ThickDiskZGaussianSigma", r.u(.1, .4)) + tag("MagnetizationParameter", r.lu(.01, .1)) + tag("RMax", 20.) + tag("DeltaInObj", .5);
  } else if (k == "SphericalAccretion") {
    x += (r.p(.7) ? "<UseSelfAbsorption/>" : "") + tag("SphericalAccretionInnerRadius", r.u(2.2, 4)) + "<NumberDensityAtInnerRadius unit=\"cm-3\">" + num(r.lu(1e5, 1e6)) + "</NumberDensityAtInnerRadius>" + tag("DensitySlope", r.u(1., 2.)) + tag("TemperatureAtInnerRadius", r.lu(3e10, 1e11)) + tag("TemperatureSlope", r.u(.6, 1)) + tag("MagnetizationParameter", r.lu(.01, .1)) + tag("RMax", 20.) + tag("DeltaInObj", .5);
  } else if (k == "Blob" || k == "BlobPolar") {
    double rr = r.u(8, 12);
    x += tag("Radius", r.u(3, 4.5)) + tag("Init4Coord", fmt("%g %g %.17g %g", r.u(880, 920), rr, M_PI / 2, r.u(0, 6.28))) + tag("Init3Velo", "0 0 " + circ(rr, 0)) + tag("BlobMotionType", "Equatorial") + "<NumberDensity unit=\"cm-3\">" + num(r.lu(1e5, 1e7)) + "</NumberDensity>" + tag("Temperature", r.lu(1e10, 1e11)) + tag("TimeRef", 0.) + tag("TimeSigma", 1e30) + tag("MagnetizationParameter", r.lu(.01, .1)) + tag("KappaIndex", r.u(4, 6)) + tag("ElectronDistribution", r.p(.5) ? "Thermal" : "Kappa") + (k == "BlobPolar" ? tag("MagneticConfiguration", r.pick(strs{"Vertical", "Radial", "Toroidal"})) : tag("MagneticConfiguration", "None")) + "<OpticallyThin/>" + tag("RMax", 30.);
  } else if (k == "Complex") {
    x += objXML("Torus", r, sph, "SubAstrobj") + objXML(r.p(.5) ? "Star" : "FixedStar", r, sph, "SubAstrobj") + (r.p(.5) ? objXML("ThinDisk", r, sph, "SubAstrobj") : std::string()) + "<RMax>60</RMax>";
  }
  return x + "</" + tagname + ">"; }

inline bool isSpherical(const std::string &mk, const std::string &mxml) {
  if (mk == "KerrKS") return false;
  if (mk == "Minkowski") return mxml.find("<Spherical/>") != std::string::npos;
  return true; }

struct Entry { const char *metric, *obj; const char *q; bool slow; };
// q: default quantities; S = needs spectrometer
inline const std::vector<Entry> &catalogue() {
  static const std::vector<Entry> c = {
    {"KerrBL", "Star", "Intensity EmissionTime Redshift Spectrum BinSpectrum", false},
    {"KerrBL", "Torus", "Intensity EmissionTime MinDistance FirstDistMin Redshift Spectrum BinSpectrum", false},
    {"KerrBL", "ThinDisk", "Intensity EmissionTime MinDistance Redshift ImpactCoords NbCrossEqPlane", false},
    {"KerrBL", "PageThorneDisk", "User4 Redshift ImpactCoords", false},
    {"KerrKS", "Torus", "Intensity EmissionTime Redshift Spectrum", false},
    {"KerrKS", "FixedStar", "Intensity EmissionTime MinDistance Redshift Spectrum BinSpectrum ImpactCoords", false},
    {"Minkowski", "FixedStar", "Intensity EmissionTime Redshift Spectrum", false},
    {"Minkowski", "ThinDisk", "Intensity EmissionTime Redshift", false},
    {"KerrBL", "StarThick", "Intensity EmissionTime Redshift Spectrum ImpactCoords", false},
    {"KerrBL", "FixedStar", "Intensity Redshift Spectrum", false},
    {"KerrBL", "HotSpotPolar", "Spectrum SpectrumStokesQ SpectrumStokesU SpectrumStokesV", false},
    {"KerrBL", "ThinDiskPL", "Redshift Spectrum", false},
    {"KerrBL", "Complex", "Intensity EmissionTime Redshift Spectrum", false},
    {"KerrBL", "InflateStar", "Intensity Redshift Spectrum", false},
    {"KerrBL", "FreeStar", "Intensity Redshift Spectrum", false},
    {"KerrBL", "StarTrace", "Intensity MinDistance", false},
    {"KerrBL", "EquatorialHotSpot", "Spectrum Redshift", false},
    {"KerrBL", "ThinDiskIronLine", "Spectrum Redshift", false},
    {"KerrBL", "ThinDiskProfile", "Redshift", false},
    {"KerrBL", "Blob", "Spectrum Redshift", false},
    {"KerrBL", "SphericalAccretion", "Spectrum", false},
    {"KerrBL", "ThickDisk", "Spectrum", false},
    {"KerrBL", "Jet", "Spectrum", false},
    {"KerrBL", "DeformedTorus", "Intensity EmissionTime Redshift Spectrum", false},
    {"KerrBL", "OscilTorus", "Intensity EmissionTime Redshift", true},
    {"KerrBL9", "PolishDoughnut", "Spectrum", true},
    {"ReissnerNordstrom", "FixedStar", "Intensity Redshift Spectrum", false},
    {"ChernSimons", "Star", "Intensity Redshift Spectrum", false},
    {"RezzollaZhidenko", "FixedStar", "Intensity Redshift Spectrum", false},
    {"KonoplyaRezzollaZhidenko", "FixedStar", "Intensity Redshift Spectrum", false},
    {"Hayward", "FixedStar", "Intensity Redshift Spectrum", true},
    {"SchwarzschildHarmonic", "FixedStar", "Intensity Redshift Spectrum", false},
  };
  return c; }

inline Scene makeScene(const Entry &e, Rng &r, const SceneOpt &o) {
  Scene s; s.metricKind = e.metric; s.objKind = e.obj; s.name = std::string(e.metric) + "/" + e.obj; s.res = o.res; s.slow = e.slow;
  // objects on an integrated orbit: their trajectory is extended and interpolated on demand, results agree to integration accuracy only
  { std::string k = e.obj; s.orbit = k == "Star" || k == "StarThick" || k == "InflateStar" || k == "StarTrace" || k == "Complex" || k == "EquatorialHotSpot" || k == "HotSpotPolar"; }
  std::string q = o.quantities.size() ? o.quantities : e.q;
  s.polar = q.find("Stokes") != std::string::npos;
  std::string m = metricXML(e.metric, r);
  bool sph = isSpherical(e.metric, m);
  std::string spectro;
  if (std::string(e.obj) == "ThinDiskIronLine") spectro = fmt("<Spectrometer kind=\"freq\" nsamples=\"%d\">1e18 2e18</Spectrometer>", o.nchan);
  else if (std::string(e.obj) == "Jet" || std::string(e.obj) == "Blob" || std::string(e.obj) == "ThickDisk" || std::string(e.obj) == "SphericalAccretion" || std::string(e.obj) == "PolishDoughnut")
    spectro = fmt("<Spectrometer kind=\"freqlog\" nsamples=\"%d\">10 13</Spectrometer>", o.nchan);
  else switch (r.i(0, 3)) {
    case 0: spectro = fmt("<Spectrometer kind=\"freqlog\" nsamples=\"%d\">11 15</Spectrometer>", o.nchan); break;
    case 1: spectro = fmt("<Spectrometer kind=\"freq\" nsamples=\"%d\">1e14 2e14</Spectrometer>", o.nchan); break;
    case 2: spectro = fmt("<Spectrometer kind=\"wave\" nsamples=\"%d\">2e-6 2.4e-6</Spectrometer>", o.nchan); break;
    default: spectro = fmt("<Spectrometer kind=\"wavelog\" nsamples=\"%d\">-6 -3</Spectrometer>", o.nchan); }
  if (std::string(e.obj) == "ThinDiskProfile") spectro = "<Spectrometer kind=\"freq\" nsamples=\"1\">1e11 1.1e11</Spectrometer>";
  double inc = r.p(.3) ? r.u(1.3, 1.5) : r.u(.4, 1.3); if (r.p(.3)) inc = M_PI - inc;
  double fov = o.fov > 0 ? o.fov : r.u(.2, .28);
  std::string scr = "<Screen><Distance unit=\"geometrical\">100</Distance><Time unit=\"geometrical_time\">1000</Time><FieldOfView>" + num(fov) + "</FieldOfView><Inclination>" + num(inc) + "</Inclination><PALN>" + num(r.u(0, 6.28)) + "</PALN><Argument>" + num(r.u(0, 6.28)) + "</Argument><Resolution>" + fmt("%d", o.res) + "</Resolution>" + spectro + o.screenExtra + "</Screen>";
  s.xml = hdr() + "<Scenery>\n" + m + "\n" + scr + "\n" + objXML(e.obj, r, sph) + "\n<Quantities>" + q + "</Quantities>\n<MinimumTime>0</MinimumTime>" + tag("NThreads", "1") + o.extra + "\n</Scenery>\n";
  return s; }

// ---- image buffers ----
struct Image {
  std::map<std::string, std::vector<double> > q;   // plane name -> cells
  static const double POISON() { return -7.77e77; } };
struct ImgReq { size_t npix; size_t nnu; };
/// allocate planes for the quantities the scenery requests; returns Properties pointing to them
struct Buffers {
  std::vector<double> I, T, D, F, Z, C, S, Q, U, Vv, B, N, u1, u2, u3, u4, u5; size_t npix, nnu; Gyoto::Quantity_t quant; bool imp;
  Gyoto::Astrobj::Properties props;
  Buffers(Gyoto::Quantity_t q, size_t np, size_t nn) : npix(np), nnu(nn), quant(q) {
    const double P = Image::POISON();
    auto al = [&](std::vector<double> &v, Gyoto::Quantity_t m, double *&p, size_t k) { if (q & m) { v.assign(np * k, P); p = v.data(); } };
    al(I, GYOTO_QUANTITY_INTENSITY, props.intensity, 1); al(T, GYOTO_QUANTITY_EMISSIONTIME, props.time, 1);
    al(D, GYOTO_QUANTITY_MIN_DISTANCE, props.distance, 1); al(F, GYOTO_QUANTITY_FIRST_DMIN, props.first_dmin, 1);
    al(Z, GYOTO_QUANTITY_REDSHIFT, props.redshift, 1); al(C, GYOTO_QUANTITY_IMPACTCOORDS, props.impactcoords, 16);
    al(S, GYOTO_QUANTITY_SPECTRUM, props.spectrum, nn); al(Q, GYOTO_QUANTITY_SPECTRUM_STOKES_Q, props.stokesQ, nn);
    al(U, GYOTO_QUANTITY_SPECTRUM_STOKES_U, props.stokesU, nn); al(Vv, GYOTO_QUANTITY_SPECTRUM_STOKES_V, props.stokesV, nn);
    al(B, GYOTO_QUANTITY_BINSPECTRUM, props.binspectrum, nn); al(N, GYOTO_QUANTITY_NBCROSSEQPLANE, props.nbcrosseqplane, 1);
    al(u1, GYOTO_QUANTITY_USER1, props.user1, 1); al(u2, GYOTO_QUANTITY_USER2, props.user2, 1); al(u3, GYOTO_QUANTITY_USER3, props.user3, 1);
    al(u4, GYOTO_QUANTITY_USER4, props.user4, 1); al(u5, GYOTO_QUANTITY_USER5, props.user5, 1);
    props.offset = np; }
  Buffers(const Buffers &) = delete;
  typedef std::pair<const char *, std::vector<double> *> PV;
  std::vector<PV> planes() { std::vector<PV> r; 
    PV a[] = {{"Intensity", &I}, {"EmissionTime", &T}, {"MinDistance", &D}, {"FirstDmin", &F}, {"Redshift", &Z}, {"ImpactCoords", &C}, {"Spectrum", &S}, {"StokesQ", &Q}, {"StokesU", &U}, {"StokesV", &Vv}, {"BinSpectrum", &B}, {"NbCrossEqPlane", &N}, {"User1", &u1}, {"User2", &u2}, {"User3", &u3}, {"User4", &u4}, {"User5", &u5}};
    for (auto &p : a) if (p.second->size()) r.push_back(p); return r; }
};
/// indices in vector `v` of the cells of pixel `p` (spectral planes are [nnu][npix], ImpactCoords [npix][16])
inline void cells(Buffers &b, const char *name, std::vector<double> &v, size_t p, std::vector<size_t> &out) {
  out.clear();
  if (!strcmp(name, "ImpactCoords")) for (size_t k = 0; k < 16; ++k) out.push_back(p * 16 + k);
  else for (size_t k = 0; k < v.size() / b.npix; ++k) out.push_back(k * b.npix + p); }

inline size_t nnu(SceneryP sc) { SpectroP sp = sc->screen()->spectrometer(); return sp ? sp->nSamples() : 0; }
/// full image
inline void traceFull(SceneryP sc, Buffers &b) {
  size_t n = sc->screen()->resolution();
  Gyoto::Screen::Range ir(1, n, 1), jr(1, n, 1); Gyoto::Screen::Grid g(ir, jr, "");
  sc->rayTrace(g, &b.props); }
/// |a-b| within tol (0: bit for bit) of each other or of the scale of the plane
inline bool agree(double a, double b, double tol, double scale) {
  if (same(a, b)) return true; if (tol == 0 || std::isnan(a) || std::isnan(b)) return false;
  return fabs(a - b) <= tol * (std::max(fabs(a), fabs(b)) + 1e-3 * scale); }
inline double scaleOf(const std::vector<double> &v) { double m = 0; for (double x : v) if (fabs(x) < 1e60 && fabs(x) > m) m = fabs(x); return m; }
inline bool sameBuffers(Buffers &a, Buffers &b, std::string &why, double tol = 0) {
  auto pa = a.planes(), pb = b.planes();
  if (pa.size() != pb.size()) { why = "different planes"; return false; }
  for (size_t i = 0; i < pa.size(); ++i) { double sc = tol ? scaleOf(*pa[i].second) : 0;
    for (size_t k = 0; k < pa[i].second->size(); ++k)
    if (!agree((*pa[i].second)[k], (*pb[i].second)[k], tol, sc)) { why = fmt("%s cell %zu: %.17g vs %.17g", pa[i].first, k, (*pa[i].second)[k], (*pb[i].second)[k]); return false; } }
  return true; }
inline long hits(Buffers &b) { // number of pixels with something else than the default
  long h = 0; for (size_t p = 0; p < b.npix; ++p) { bool hit = false;
    if (b.I.size() && b.I[p] > 0) hit = true; if (b.Z.size() && b.Z[p] != 0 && b.Z[p] < DBL_MAX) hit = true; if (b.u4.size() && b.u4[p] != 0) hit = true;
    if (b.S.size()) for (size_t k = 0; k < b.nnu; ++k) if (b.S[k * b.npix + p] != 0) hit = true; h += hit; } return h; }
} // namespace V
#endif
