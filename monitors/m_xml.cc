// LINK: stdplug
// C03: what is written to XML comes back.
#include "grids.h"
#include "scenes.h"
#include "GyotoComplexAstrobj.h"
#include "GyotoComplexMetric.h"
#include <unistd.h>
#include <memory>
using namespace V; using namespace Gyoto;
/// numbers to 15 significant digits, anything else literally
static bool sameText(const std::string &a, const std::string &b, double tol) { if (a == b) return true; std::istringstream x(a), y(b); std::string s, t;
  for (;;) { bool p = bool(x >> s), q = bool(y >> t); if (p != q) return false; if (!p) return true; if (s == t) continue; char *e, *f; double u = strtod(s.c_str(), &e), v = strtod(t.c_str(), &f); if (*e || *f || !close(u, v, tol)) return false; } }
static std::string diffTol(const Snap &a, const Snap &b, std::string *first, double tol = 2e-14) {
  for (auto &p : a) { auto q = b.find(p.first); if (q == b.end() || !sameText(p.second, q->second, tol)) { *first = p.first; return p.first + ": \"" + p.second + "\" vs \"" + (q == b.end() ? "(absent)" : q->second) + "\""; } }
  for (auto &p : b) if (!a.count(p.first)) { *first = p.first; return p.first + " only after reading"; } *first = ""; return ""; }
static Snap cut(const Snap &ref, Snap s) { if (!ref.count("Lambda")) s.erase("Lambda"); return s; }
static std::string firstLineDiff(const std::string &a, const std::string &b) { std::istringstream x(a), y(b); std::string s, t; for (;;) { bool p = bool(std::getline(x, s)), q = bool(std::getline(y, t)); if (!p && !q) return ""; if (!p) s = "(end)"; if (!q) t = "(end)"; if (s != t) return "\"" + s + "\" vs \"" + t + "\""; } }
/// can the values be set one after the other on a fresh object?  (otherwise the combination is refused by its setters, not by the XML)
static bool settable(const Held &h) { for (int i = 0; i < nHeld(); ++i) { Held f = mkHeld(i); if (f.id() != h.id()) continue; 
    std::function<void(const Object *, Object *)> copy = [&](const Object *a, Object *b) { for (const Property *p : props(a)) { if (isObjectType(p->type)) { if (p->type == Property::metric_t) { Kept k, l; Object *x = k.get(a->get(*p), p->type), *y = l.get(b->get(*p), p->type); if (x && y) copy(x, y); } continue; } if (p->type == Property::filename_t) continue; b->set(*p, a->get(*p)); } };
    try { copy(h.o, f.o); return true; } catch (Gyoto::Error &) { return false; } } return true; }
static std::string tmpdir() { static std::string d; if (d == "") { char b[] = "/tmp/vxmlXXXXXX"; d = mkdtemp(b); } return d; }
int main(int argc, char **argv) {
  init(argc, argv);
  for (int rep = 0; rep < (S().thorough ? 300 : 15); ++rep) for (int i = 0; i < nHeld(); ++i) { if (!mine()) continue; Rng r = caseRng();
    Held h = mkHeld(i); std::string K = h.id();    // exist only with their data directory
    guard("xml " + K, [&] { { std::string reg = i < 12 ? METRICS[i] : i < 47 ? ASTROBJS[i - 12] : i < 53 ? SPECTRA[i - 47] : i < 58 ? SPECTROS[i - 53] : h.kind; CHECK("kind is not the registered name: " + reg, h.kind == reg, "%s", h.kind.c_str()); }
      if (h.kind.substr(0, 3) == "Sim" || h.kind.substr(0, 9) == "Dynamical" || h.kind == "FlaredDiskSynchrotron" || h.kind == "ThinDiskGridIntensity") return;
      if (h.kind == "Complex") { if (h.sr) { auto *c = dynamic_cast<Spectrometer::Complex *>(&*h.sr); for (int q = r.i(1, 3); q; --q) { SpectroP s = mkSpectro("freqlog"); randomise(&*s, r, .9); c->append(s); } }
        if (h.a) { auto *c = dynamic_cast<Astrobj::Complex *>(&*h.a); for (int q = r.i(0, 3); q; --q) { AstrobjP u = mkAstrobj(r.p(.5) ? "FixedStar" : "Torus"); c->append(u); } c->metric(stdMetric()); for (size_t q = 0; q < c->getCardinal(); ++q) randomise(&*(*c)[q], r, .5); }
        if (h.m) { auto *c = dynamic_cast<Metric::Complex *>(&*h.m); for (int q = r.i(1, 3); q; --q) c->append(mkMetric("KerrKS")); } }
      int n = rep % 3 ? randomise(h.o, r, rep % 3 == 1 ? .25 : .9, 0, rep % 2) : 0; ev("randomised properties", n);
      if (h.a && (dynamic_cast<Worldline *>(h.o) || h.kind == "FreeStar" || h.kind == "Plasmoid")) h.a->metric(stdMetric());   // orbits are given in a metric they exist in
      if (h.kind == "XillverReflection" && double(h.o->get("LampRadius")) < 0) h.o->set("LampRadius", Value(r.u(2, 9)));
      if (h.kind == "Plasmoid" && n) h.o->set("InitPosition", Value(std::vector<double>{r.u(0, 100), r.u(8, 20), r.u(1, 2), r.u(0, 6)})), h.o->set("InitVelocity", Value(std::vector<double>{r.u(-.02, .02), 0., r.u(0, .01)}));
      if (auto *st = dynamic_cast<Worldline *>(h.o)) if (h.a) { double rr = r.u(8, 20), c[8] = {r.u(0, 100), rr, M_PI / 2 + r.u(-.3, .3), r.u(0, 6), 1, r.u(-.02, .02), 0, r.u(.5, 1) / pow(rr, 1.5)}; st->setInitCoord(c, c + 5, r.p(.5) ? 1 : -1); }
      if (h.kind == "FreeStar" && n) { h.o->set("InitPosition", Value(std::vector<double>{r.u(0, 100), r.u(8, 20), r.u(1, 2), r.u(0, 6)})); h.o->set("InitVelocity", Value(std::vector<double>{r.u(-.02, .02), r.u(-.002, .002), r.u(0, .01)})); }
      Snap s0 = snap(h.o); std::string x1 = h.xml(), f; if (h.kind == "PolishDoughnut" && x1.find("<AngMomRinner>") != std::string::npos) s0.erase("Lambda");   // one of two ways to give the same thing ev("documents written"); if (rep == 1) sample(K + " " + x1.substr(0, 400));
      std::unique_ptr<Held> cp; try { cp.reset(new Held(h.reread(x1))); } catch (Gyoto::Error &e) { if (n && !settable(h)) { ev("combinations refused by the setters too"); return; } viol("cannot read its own XML: " + K, e.get_message() + " in " + x1); return; }
      Held &c = *cp; ev("documents read"); distinct("document", x1); distinct("kind", K); CHECK("kind after reading: " + K, typeid(*c.o) == typeid(*h.o), "%s", typeid(*c.o).name());
      if (h.sr && h.kind == "Complex") { auto *a = dynamic_cast<Spectrometer::Complex *>(&*h.sr), *b = dynamic_cast<Spectrometer::Complex *>(&*c.sr); CHECK("elements of " + K, a->getCardinal() == b->getCardinal() && a->nSamples() == b->nSamples(), "%zu %zu", a->getCardinal(), b->getCardinal()); for (size_t q = 0; q < std::min(a->getCardinal(), b->getCardinal()); ++q) { std::string d = diffTol(snap(&*(*a)[q]), snap(&*(*b)[q]), &f); CHECK("element of " + K + ": " + f, d == "", "%s", d.c_str()); } }
      if (h.a && h.kind == "Complex") { auto *a = dynamic_cast<Astrobj::Complex *>(&*h.a), *b = dynamic_cast<Astrobj::Complex *>(&*c.a); CHECK("elements of " + K, a->getCardinal() == b->getCardinal(), "%zu %zu", a->getCardinal(), b->getCardinal()); for (size_t q = 0; q < std::min(a->getCardinal(), b->getCardinal()); ++q) { std::string d = diffTol(snap(&*(*a)[q]), snap(&*(*b)[q]), &f); CHECK("element of " + K + ": " + f, d == "", "%s", d.c_str()); } }
      if (h.m && h.kind == "Complex") { auto *a = dynamic_cast<Metric::Complex *>(&*h.m), *b = dynamic_cast<Metric::Complex *>(&*c.m); CHECK("elements of " + K, a->getCardinal() == b->getCardinal(), "%zu %zu", a->getCardinal(), b->getCardinal()); }
      ev("properties compared", s0.size()); std::string d = diffTol(s0, cut(s0, snap(c.o)), &f); CHECK("read back differently: " + K + " " + f, d == "", "%s   %s", d.c_str(), x1.c_str());
      std::string x2 = c.xml(); CHECK("second write differs: " + K, x1 == x2, "%s", firstLineDiff(x1, x2).c_str());
      d = diffTol(s0, cut(s0, snap(h.o)), &f, 0); CHECK("writing changed the object: " + K + " " + f, d == "", "%s", d.c_str());
      if (r.p(.2)) { std::string fn = tmpdir() + fmt("/o%d.xml", S().shard); Factory *fa = h.m ? new Factory(h.m) : h.a ? new Factory(h.a) : h.s ? new Factory(h.s) : h.sr ? new Factory(h.sr) : h.sc ? new Factory(h.sc) : h.scn ? new Factory(h.scn) : new Factory(h.ph); fa->write(fn.c_str()); delete fa;
        std::vector<char> b(fn.begin(), fn.end()); b.push_back(0); Factory g(b.data()); Held e = h.m ? Held::of(g.metric()) : h.a ? Held::of(g.astrobj()) : h.s ? Held::of(g.spectrum()) : h.sr ? Held::of(g.spectrometer()) : h.sc ? Held::of(g.screen()) : h.scn ? Held::of(g.scenery()) : Held::of(g.photon());
        d = diffTol(s0, cut(s0, snap(e.o)), &f); CHECK("read back differently from a file: " + K + " " + f, d == "", "%s", d.c_str()); ev("files"); unlink(fn.c_str()); } }, "xml " + K); }
  // sceneries: the image
  int reps = S().thorough ? 10 : 1;
  for (int rep = 0; rep < reps; ++rep) for (auto &e : catalogue()) { if (e.slow && !S().thorough) continue; if (!mine()) continue; Rng r = caseRng();
    guard(std::string("scenery ") + e.metric + "/" + e.obj, [&] { SceneOpt o; o.res = 4; if (r.p(.5)) o.screenExtra = fmt("<PALN unit=\"degree\">%g</PALN><Argument unit=\"degree\">%g</Argument>", r.u(0, 180), r.u(0, 180)); Scene s = makeScene(e, r, o); SceneryP a = scenery(s.xml); Quantity_t q = a->getRequestedQuantities(); size_t n = s.res * s.res; Buffers A(q, n, nnu(a)); 
      if (r.p(.5)) { Buffers x(q, n, nnu(a)); traceFull(a, x); }   // writing a scenery already used
      std::string x1 = Held::of(a).xml(), f, why; traceFull(a, A); SceneryP b = scenery(x1); Snap sa = snap(&*a), sb = snap(&*b); sa.erase("InitCoord"); sb.erase("InitCoord"); if (s.objKind == "InflateStar") { sa.erase("Astrobj::SafetyValue"); sb.erase("Astrobj::SafetyValue"); }   // follows the radius at the last date computed
        // the last ray traced, not part of the description
      std::string d = diffTol(sa, sb, &f); CHECK("scenery read back differently: " + s.name + " " + f, d == "", "%s", d.c_str());
      CHECK("quantities " + s.name, b->getRequestedQuantities() == q && nnu(b) == nnu(a), "%llu %llu", (unsigned long long) q, (unsigned long long) b->getRequestedQuantities());
      std::string x2 = Held::of(b).xml(); CHECK("second write of scenery differs: " + s.name, x1 == x2, "%s", firstLineDiff(x1, x2).c_str());
      Buffers B(q, n, nnu(b)); traceFull(b, B); ev("images compared"); ev("hit pixels", hits(A)); distinct("document", x1); CHECK("image of the reread scenery " + s.name, sameBuffers(A, B, why, 1e-5), "%s", why.c_str()); }); }
  rmdir(tmpdir().c_str());
  return done(); }
