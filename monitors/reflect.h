// All registered kinds of objects behind one interface, and their properties.
#ifndef VERIF_REFLECT_H
#define VERIF_REFLECT_H
#include "common.h"
#include "GyotoStar.h"
namespace V {
using Gyoto::Object; using Gyoto::Property; using Gyoto::Value;
typedef Gyoto::SmartPointer<Gyoto::SmartPointee> AnyP;
struct Held {
  std::string cat, kind; AnyP keep; Object *o = NULL;
  MetricP m; AstrobjP a; SpectrumP s; SpectroP sr; ScreenP sc; SceneryP scn; PhotonP ph;
  void drop() { m = NULL; a = NULL; s = NULL; sr = NULL; sc = NULL; scn = NULL; ph = NULL; o = NULL; }
  std::string id() const { return cat + ":" + kind; }
  static Held of(MetricP x) { Held h; h.cat = "Metric"; h.m = x; h.o = &*x; h.kind = x->kind(); return h; }
  static Held of(AstrobjP x) { Held h; h.cat = "Astrobj"; h.a = x; h.o = &*x; h.kind = x->kind(); return h; }
  static Held of(SpectrumP x) { Held h; h.cat = "Spectrum"; h.s = x; h.o = &*x; h.kind = x->kind(); return h; }
  static Held of(SpectroP x) { Held h; h.cat = "Spectrometer"; h.sr = x; h.o = &*x; h.kind = x->kind(); return h; }
  static Held of(ScreenP x) { Held h; h.cat = "Screen"; h.sc = x; h.o = &*x; h.kind = "Screen"; return h; }
  static Held of(SceneryP x) { Held h; h.cat = "Scenery"; h.scn = x; h.o = &*x; h.kind = "Scenery"; return h; }
  static Held of(PhotonP x) { Held h; h.cat = "Photon"; h.ph = x; h.o = &*x; h.kind = "Photon"; return h; }
  Held clone() const {
    if (m) return of(MetricP(m->clone())); if (a) return of(AstrobjP(a->clone())); if (s) return of(SpectrumP(s->clone()));
    if (sr) return of(SpectroP(sr->clone())); if (sc) return of(ScreenP(sc->clone())); if (scn) return of(SceneryP(scn->clone()));
    return of(PhotonP(ph->clone())); }
  std::string xml() const {
    Gyoto::Factory *f = NULL;
    if (m) f = new Gyoto::Factory(m); else if (a) f = new Gyoto::Factory(a); else if (s) f = new Gyoto::Factory(s);
    else if (sr) f = new Gyoto::Factory(sr); else if (sc) f = new Gyoto::Factory(sc); else if (scn) f = new Gyoto::Factory(scn);
    else f = new Gyoto::Factory(ph);
    std::string t; try { t = f->format(); } catch (...) { delete f; throw; }
    delete f; return t; }
  Held reread(const std::string &t) const {
    std::vector<char> b(t.begin(), t.end()); b.push_back(0); Gyoto::Factory f(b.data());
    if (m) return of(f.metric()); if (a) return of(f.astrobj()); if (s) return of(f.spectrum());
    if (sr) return of(f.spectrometer()); if (sc) return of(f.screen()); if (scn) return of(f.scenery());
    return of(f.photon()); }
};
inline std::vector<const Property *> props(const Object *o) {
  std::vector<const Property *> r; const Property *p = o->getProperties();
  std::set<std::string> seen;
  while (p) { if (*p) { if (p->type != Property::empty_t && seen.insert(p->name).second) r.push_back(p); ++p; } else p = p->parent; }
  return r; }
inline const char *typeName(int t) {
  switch (t) { case Property::double_t: return "double"; case Property::long_t: return "long"; case Property::unsigned_long_t: return "ulong";
    case Property::size_t_t: return "size_t"; case Property::bool_t: return "bool"; case Property::string_t: return "string"; case Property::filename_t: return "filename";
    case Property::vector_double_t: return "vdouble"; case Property::vector_unsigned_long_t: return "vulong"; case Property::metric_t: return "metric";
    case Property::astrobj_t: return "astrobj"; case Property::spectrum_t: return "spectrum"; case Property::spectrometer_t: return "spectrometer"; case Property::screen_t: return "screen"; default: return "?"; } }
inline bool isObjectType(int t) { return t == Property::metric_t || t == Property::astrobj_t || t == Property::spectrum_t || t == Property::spectrometer_t || t == Property::screen_t; }
/// values of an object's (and its children's) properties as text; unreadable ones recorded as such
typedef std::map<std::string, std::string> Snap;
inline void snapInto(Snap &S, const Object *o, const std::string &pre, int prec, int depth, bool withMetric) {
  for (const Property *p : props(o)) {
    std::string n = pre + p->name, v;
    try {
      Value x = o->get(*p);
      switch (p->type) {
      case Property::double_t: v = fmt("%.*g", prec, double(x)); break;
      case Property::long_t: v = fmt("%ld", long(x)); break;
      case Property::unsigned_long_t: v = fmt("%lu", (unsigned long)(x)); break;
      case Property::size_t_t: v = fmt("%zu", size_t(x)); break;
      case Property::bool_t: v = bool(x) ? "T" : "F"; break;
      case Property::string_t: case Property::filename_t: v = std::string(x); break;
      case Property::vector_double_t: for (double d : std::vector<double>(x)) v += fmt("%.*g ", prec, d); break;
      case Property::vector_unsigned_long_t: for (unsigned long d : std::vector<unsigned long>(x)) v += fmt("%lu ", d); break;
      default: {
        const Object *c = NULL; MetricP m; AstrobjP a; SpectrumP s; SpectroP sr; ScreenP sc;
        if (p->type == Property::metric_t) { m = MetricP(x); if (m) c = &*m; }
        else if (p->type == Property::astrobj_t) { a = AstrobjP(x); if (a) c = &*a; }
        else if (p->type == Property::spectrum_t) { s = SpectrumP(x); if (s) c = &*s; }
        else if (p->type == Property::spectrometer_t) { sr = SpectroP(x); if (sr) c = &*sr; }
        else if (p->type == Property::screen_t) { sc = ScreenP(x); if (sc) c = &*sc; }
        v = c ? "object " + c->kind() : "none";
        if (c && depth < 6 && (withMetric || p->type != Property::metric_t)) snapInto(S, c, n + "::", prec, depth + 1, false);
      } }
    } catch (Gyoto::Error &e) { v = "(error)"; }
    S[n] = v; } }
inline Snap snap(const Object *o, int prec = 17) { Snap s; snapInto(s, o, "", prec, 0, true); return s; }
inline std::string snapDiff(const Snap &a, const Snap &b, std::string *first = NULL) {
  for (auto &p : a) { auto q = b.find(p.first);
    if (q == b.end() || q->second != p.second) { if (first) *first = p.first; return p.first + ": \"" + p.second + "\" vs \"" + (q == b.end() ? "(absent)" : q->second) + "\""; } }
  for (auto &p : b) if (!a.count(p.first)) { if (first) *first = p.first; return p.first + " only in second"; }
  return ""; }

static const char *METRICS[] = {"KerrBL", "KerrKS", "Minkowski", "ChernSimons", "RezzollaZhidenko", "KonoplyaRezzollaZhidenko", "Hayward", "SchwarzschildHarmonic", "BalasinGrumiller", "ReissnerNordstrom", "Shift", "Complex"};
static const char *ASTROBJS[] = {"Complex", "Star", "StarTrace", "FixedStar", "FreeStar", "InflateStar", "Torus", "OscilTorus", "DeformedTorus", "ThinDisk", "PageThorneDisk", "ThinDiskPL", "PolishDoughnut", "ThinDiskIronLine", "EquatorialHotSpot", "PatternDisk", "PatternDiskBB", "DynamicalDisk", "DynamicalDiskBolometric", "Disk3D", "DynamicalDisk3D", "DirectionalDisk", "Jet", "ThickDisk", "SphericalAccretion", "ThinDiskProfile", "StochasticThinDisk", "Blob", "Plasmoid", "XillverReflection", "FlaredDiskSynchrotron", "ThinDiskGridIntensity", "SimBridge", "SimThickDisk", "SimThinDisk"};
static const char *SPECTRA[] = {"PowerLaw", "BlackBody", "ThermalBremsstrahlung", "ThermalSynchrotron", "PowerLawSynchrotron", "KappaDistributionSynchrotron"};
static const char *SPECTROS[] = {"wave", "wavelog", "freq", "freqlog", "Complex"};

inline MetricP stdMetric() { MetricP m = mkMetric("KerrBL"); m->set("Spin", Value(0.5)); m->mass(4e6, "sunmass"); return m; }
inline SpectroP stdSpectro() { SpectroP s = mkSpectro("freqlog"); s->set("Kind", Value(std::string("freqlog"))); s->set("Band", Value(std::vector<double>{9., 18.})); s->set("NSamples", Value((unsigned long) 4)); return s; }
inline ScreenP stdScreen(MetricP m) { ScreenP s = new Gyoto::Screen(); s->metric(m); s->distance(100., "geometrical"); s->time(1000., "geometrical_time"); s->inclination(1.1); s->fieldOfView(.3); s->resolution(9); s->spectrometer(stdSpectro()); return s; }
/// one object of each registered kind, number i; attached to a metric when it needs one
inline int nHeld() { return 12 + 35 + 6 + 5 + 3; }
inline Held mkHeld(int i) {
  const int nm = 12, na = 35, ns = 6, nr = 5;
  if (i < nm) { MetricP m = mkMetric(METRICS[i]);
    if (std::string(METRICS[i]) == "Shift") { m->set("SubMetric", Value(mkMetric("KerrKS"))); m->set("Offset", Value(std::vector<double>{0., 1., 2., 3.})); }
    return Held::of(m); }
  i -= nm;
  if (i < na) { AstrobjP a = mkAstrobj(ASTROBJS[i]); a->metric(stdMetric()); return Held::of(a); }
  i -= na;
  if (i < ns) return Held::of(mkSpectrum(SPECTRA[i]));
  i -= ns;
  if (i < nr) { SpectroP s = mkSpectro(SPECTROS[i]);
    if (i < 4) { s->set("Kind", Value(std::string(SPECTROS[i]))); s->set("Band", Value(std::vector<double>{1., 2.})); s->set("NSamples", Value((unsigned long) 5)); }
    return Held::of(s); }
  i -= nr;
  if (i == 0) return Held::of(stdScreen(stdMetric()));
  MetricP m = stdMetric();
  if (i == 1) { AstrobjP a = mkAstrobj("FixedStar"); a->metric(m); a->set("Radius", Value(2.)); a->set("Position", Value(std::vector<double>{8., M_PI / 2, 0.}));
    return Held::of(SceneryP(new Gyoto::Scenery(m, stdScreen(m), a))); }
  PhotonP ph = new Gyoto::Photon(); ph->metric(m); { AstrobjP a = mkAstrobj("FixedStar"); a->set("Radius", Value(2.)); a->metric(m); ph->astrobj(a); }
  return Held::of(ph); }
inline std::map<std::string, strs> &ENUMS() { static std::map<std::string, strs> e = {
  {"VelocityKind", {"Keplerian", "ZAMO"}}, {"MagneticConfiguration", {"None", "Toroidal", "Radial", "Vertical"}}, {"Integrator", {"runge_kutta_fehlberg78", "runge_kutta_cash_karp54", "runge_kutta_dopri5", "runge_kutta_cash_karp54_classic", "Legacy"}},
  {"PerturbKind", {"Radial", "Vertical", "X", "Plus", "Breathing", "RadialTranslation", "VerticalTranslation", "Rotation", "Expansion", "RadialShear", "VerticalShear", "PureShear"}}, {"BeamingKind", {"IsotropicBeaming", "NormalBeaming", "RadialBeaming", "IsotropicConstant"}},
  {"Kind", {"wave", "wavelog", "freq", "freqlog"}}, {"ElectronDistribution", {"Thermal", "PL", "Kappa"}}, {"Projection", {}}, {"AngleKind", {"EquatorialAngles", "SphericalAngles", "Rectilinear"}}, {"ObserverKind", {"ObserverAtInfinity", "KeplerianObserver", "ZAMO", "VelocitySpecified", "FullySpecified"}},
  {"DistributionKind", {}}, {"Quantities", {"Intensity", "Redshift EmissionTime", "FirstDistMin MinDistance"}}}; return e; }
inline std::vector<Value> candidates(const Object *o, const Property *p, Rng &r, bool big = true) {
  std::vector<Value> c; Value cur; bool has = true; try { cur = o->get(*p); } catch (Gyoto::Error &) { has = false; }
  switch (p->type) {
  case Property::double_t: if (has && fabs(double(cur)) < 1e100) c.push_back(Value(double(cur) * 1.07 + .01)); c.push_back(Value(r.u(.01, .9))); c.push_back(Value(r.u(1., 3.))); c.push_back(Value(r.lu(5., 500.))); c.push_back(Value(-r.u(.1, 2.))); if (big) c.push_back(Value(DBL_MAX)); break;
  case Property::long_t: c.push_back(Value(long(r.i(-5, 9)))); break;
  case Property::unsigned_long_t: if (p->name == "MaxIter" || p->name == "Maxiter") c.push_back(Value((unsigned long) (r.next() >> 8))); c.push_back(Value((unsigned long) r.i(1, 4))); c.push_back(Value((unsigned long) r.i(0, 30))); break;
  case Property::size_t_t: if (p->name == "MaxIter" || p->name == "Maxiter") c.push_back(Value(size_t(r.next() >> 8))); c.push_back(Value(size_t(r.i(1, 4)))); c.push_back(Value(size_t(r.i(0, 30)))); break;
  case Property::bool_t: c.push_back(Value(r.p(.5))); break;
  case Property::string_t: if (has) c.push_back(cur); for (auto &s : ENUMS()[p->name]) c.push_back(Value(s)); break;
  case Property::vector_double_t: { size_t n = has ? std::vector<double>(cur).size() : 3; if (!n) n = r.i(1, 5);
      for (int q = 0; q < 2; ++q) { std::vector<double> v(n); for (auto &x : v) x = q ? r.u(.1, .9) : r.u(1., 6.); c.push_back(Value(v)); }
      { std::vector<double> v(n + 1); for (auto &x : v) x = r.u(.1, 5.); c.push_back(Value(v)); } if (n > 1) { std::vector<double> v(n - 1); for (auto &x : v) x = r.u(.1, 5.); c.push_back(Value(v)); } break; }
  case Property::vector_unsigned_long_t: { size_t n = has ? std::vector<unsigned long>(cur).size() : 2; if (!n) n = 2; std::vector<unsigned long> v(n); for (auto &x : v) x = r.i(1, 5); c.push_back(Value(v)); } }
  return c; }
/// the object behind a value of object type (NULL if none); AnyP-like keepers returned through k
struct Kept { MetricP m; AstrobjP a; SpectrumP s; SpectroP sr; ScreenP sc;
  Object *get(const Value &x, int t) {
    if (t == Property::metric_t) { m = MetricP(x); return m ? &*m : NULL; } if (t == Property::astrobj_t) { a = AstrobjP(x); return a ? &*a : NULL; }
    if (t == Property::spectrum_t) { s = SpectrumP(x); return s ? &*s : NULL; } if (t == Property::spectrometer_t) { sr = SpectroP(x); return sr ? &*sr : NULL; }
    sc = ScreenP(x); return sc ? &*sc : NULL; } };
/// set accepted random values on random properties of o and its children; returns how many
inline int randomise(Object *o, Rng &r, double pr, int depth = 0, bool big = false) {
  int n = 0;
  for (const Property *p : props(o)) {
    if (p->type == Property::filename_t || p->name == "NThreads" || p->name == "NProcesses" || p->name == "Quantities") continue;
    if (isObjectType(p->type)) {
      if (r.p(pr)) try { // another object
        if (p->type == Property::spectrum_t) { o->set(*p, Value(mkSpectrum(r.p(.5) ? "BlackBody" : "PowerLaw"))); ++n; }
        else if (p->type == Property::spectrometer_t) { o->set(*p, Value(stdSpectro())); ++n; } } catch (Gyoto::Error &) {}
      if (depth < 4) try { Kept k; Object *c = k.get(o->get(*p), p->type); if (c && !(depth && p->type == Property::metric_t)) n += randomise(c, r, pr, depth + 1, big); } catch (Gyoto::Error &) {}
      continue; }
    if (!r.p(pr)) continue;
    std::vector<Value> c = candidates(o, p, r, big); if (c.empty()) continue;
    Value old; bool had = true; try { old = o->get(*p); } catch (Gyoto::Error &) { had = false; }
    try { o->set(*p, c[r.next() % c.size()]); ++n; } catch (Gyoto::Error &) { if (had && p->name != "InitCoord") try { o->set(*p, old); } catch (Gyoto::Error &) {} } }   // refused: put back what was there
  return n; }
} // namespace V
#endif
