// LINK: stdplug
// C05: object lifetimes: memory safety, reference counts, notifications, releases, over random histories.
#include "grids.h"
#include "scenes.h"
#include "metrics.h"
#include "GyotoComplexAstrobj.h"
#include "GyotoComplexMetric.h"
#include "GyotoKerrBL.h"
#include "GyotoKerrKS.h"
#include "GyotoFixedStar.h"
#include "GyotoTorus.h"
#include "GyotoPageThorneDisk.h"
#include "GyotoPowerLawSpectrum.h"
#include "GyotoHooks.h"
#include <sanitizer/lsan_interface.h>
#include <algorithm>
#include <mutex>
using namespace V; using namespace Gyoto;

static void leakCheck(const std::string &what) { ev("leak checks"); fflush(stdout); if (__lsan_do_recoverable_leak_check()) ev("leaks"); (void) what; }

// ---------- probes: objects that record their birth and death ----------
static std::set<const void *> LIVE; static long BORN = 0; static std::mutex LIVEM; // clones are made by the worker threads too
struct Tag { const void *me; explicit Tag(const void *p) : me(p) { std::lock_guard<std::mutex> l(LIVEM); LIVE.insert(p); ++BORN; } ~Tag() { std::lock_guard<std::mutex> l(LIVEM); LIVE.erase(me); } };
template <class B> struct Probe : public B { Tag tag_; Probe() : B(), tag_(static_cast<SmartPointee *>(this)) {} Probe(const Probe &o) : B(o), tag_(static_cast<SmartPointee *>(this)) {} virtual Probe *clone() const { return new Probe(*this); } };
// some bases are reached through virtual inheritance or need their own clone signature
typedef Probe<Metric::KerrBL> PKerr; typedef Probe<Metric::KerrKS> PKS; typedef Probe<Spectrum::PowerLaw> PPow;
struct PFixed : public Astrobj::FixedStar { Tag tag_; PFixed() : tag_(static_cast<SmartPointee *>(this)) {} PFixed(const PFixed &o) : Astrobj::FixedStar(o), tag_(static_cast<SmartPointee *>(this)) {} PFixed *clone() const { return new PFixed(*this); } };
struct PTorus : public Astrobj::Torus { Tag tag_; PTorus() : tag_(static_cast<SmartPointee *>(this)) {} PTorus(const PTorus &o) : Astrobj::Torus(o), tag_(static_cast<SmartPointee *>(this)) {} PTorus *clone() const { return new PTorus(*this); } };
struct PPage : public Astrobj::PageThorneDisk { Tag tag_; PPage() : tag_(static_cast<SmartPointee *>(this)) {} PPage(const PPage &o) : Astrobj::PageThorneDisk(o), tag_(static_cast<SmartPointee *>(this)) {} PPage *clone() const { return new PPage(*this); } };
struct PUni : public Spectrometer::Uniform { Tag tag_; PUni() : tag_(static_cast<SmartPointee *>(this)) {} PUni(const PUni &o) : Spectrometer::Uniform(o), tag_(static_cast<SmartPointee *>(this)) {} PUni *clone() const { return new PUni(*this); } };
struct PScreen : public Screen { Tag tag_; PScreen() : tag_(static_cast<SmartPointee *>(this)) {} PScreen(const PScreen &o) : Screen(o), tag_(static_cast<SmartPointee *>(this)) {} };

static MetricP newMetric(Rng &r) { MetricP m; if (r.p(.7)) { PKerr *k = new PKerr(); m = k; k->spin(r.u(-.9, .9)); } else { PKS *k = new PKS(); m = k; k->spin(r.u(-.9, .9)); } m->mass(r.lu(1, 1e7), "sunmass"); return m; }
static SpectrumP newSpectrum(Rng &r) { PPow *p = new PPow(); SpectrumP s = p; p->constant(r.u(.1, 2)); p->exponent(r.u(-1, 1)); return s; }
static SpectroP newSpectro(Rng &r) { if (r.p(.25)) return mkSpectro("Complex"); PUni *u = new PUni(); SpectroP s = u; u->kind(std::string(r.p(.5) ? "freqlog" : "freq")); if (u->kind() == std::string("freqlog")) u->band(std::vector<double>{9., 18.}); else u->band(std::vector<double>{1e10, 1e15}); u->nSamples(r.i(1, 6)); return s; }
static AstrobjP newAstrobj(Rng &r) { switch (r.i(0, 4)) { case 0: { PFixed *f = new PFixed(); AstrobjP a = f; f->radius(r.u(.5, 2)); return a; } case 1: { PTorus *t = new PTorus(); AstrobjP a = t; return a; } case 2: { PPage *p = new PPage(); AstrobjP a = p; return a; }
  case 3: return mkAstrobj("Complex"); default: { PFixed *f = new PFixed(); AstrobjP a = f; f->radius(1.); return a; } } }

struct Pool { std::vector<MetricP> m; std::vector<AstrobjP> a; std::vector<SpectrumP> s; std::vector<SpectroP> sr; std::vector<ScreenP> sc; std::vector<SceneryP> scn; std::vector<PhotonP> ph;
  void clear(Rng &r) { int o[7] = {0, 1, 2, 3, 4, 5, 6}; for (int i = 6; i > 0; --i) std::swap(o[i], o[r.i(0, i)]); for (int k : o) switch (k) { case 0: m.clear(); break; case 1: a.clear(); break; case 2: s.clear(); break; case 3: sr.clear(); break; case 4: sc.clear(); break; case 5: scn.clear(); break; case 6: ph.clear(); } } };
template <class T> static void drop(std::vector<T> &v, Rng &r) { if (v.size()) { size_t i = r.i(0, v.size() - 1); T last = v.back(); v[i] = last; v.pop_back(); ev("drops"); } }
template <class T> static T any(std::vector<T> &v, Rng &r) { return v.size() ? v[r.i(0, v.size() - 1)] : T(NULL); }
// would adding x to complex c make a cycle?  (a cycle of references is never released: not something the library promises)
static bool reaches(Astrobj::Generic *x, Astrobj::Generic *c) { if (x == c) return true; if (auto *k = dynamic_cast<Astrobj::Complex *>(x)) for (size_t i = 0; i < k->getCardinal(); ++i) if (reaches(&*(*k)[i], c)) return true; return false; }
static bool reaches(Spectrometer::Generic *x, Spectrometer::Generic *c) { if (x == c) return true; if (auto *k = dynamic_cast<Spectrometer::Complex *>(x)) for (size_t i = 0; i < k->getCardinal(); ++i) if (reaches(&*(*k)[i], c)) return true; return false; }
static size_t nsamp(SpectroP s) { return s ? s->nSamples() : 0; }
static void visit(std::set<const void *> &seen, const Object *o, const SmartPointee *p) { if (!o || !seen.insert(p).second) return;
  for (const Property *q : props(o)) if (isObjectType(q->type)) try { Value x = o->get(*q); MetricP m; AstrobjP a; SpectrumP s; SpectroP sr; ScreenP sc;
    switch (q->type) { case Property::metric_t: m = MetricP(x); if (m) visit(seen, &*m, &*m); break; case Property::astrobj_t: a = AstrobjP(x); if (a) visit(seen, &*a, &*a); break; case Property::spectrum_t: s = SpectrumP(x); if (s) visit(seen, &*s, &*s); break; case Property::spectrometer_t: sr = SpectroP(x); if (sr) visit(seen, &*sr, &*sr); break; case Property::screen_t: sc = ScreenP(x); if (sc) visit(seen, &*sc, &*sc); break; } } catch (Gyoto::Error &) {}
  if (auto *c = dynamic_cast<const Astrobj::Complex *>(o)) for (size_t i = 0; i < c->getCardinal(); ++i) { AstrobjP e = (*const_cast<Astrobj::Complex *>(c))[i]; visit(seen, &*e, &*e); }
  if (auto *c = dynamic_cast<const Spectrometer::Complex *>(o)) for (size_t i = 0; i < c->getCardinal(); ++i) { SpectroP e = (*const_cast<Spectrometer::Complex *>(c))[i]; visit(seen, &*e, &*e); } }

static std::string TRACE;
static void op(Pool &P, Rng &r) {
  int k = r.i(0, 25); TRACE += fmt("%d ", k); ev("operations"); distinct("operation pairs", TRACE.substr(TRACE.size() > 6 ? TRACE.size() - 6 : 0));
  switch (k) {
  case 0: P.m.push_back(newMetric(r)); break;
  case 1: P.a.push_back(newAstrobj(r)); break;
  case 2: P.s.push_back(newSpectrum(r)); break;
  case 3: P.sr.push_back(newSpectro(r)); break;
  case 4: { ScreenP s = new PScreen(); s->distance(100.); s->resolution(r.i(2, 6)); s->fieldOfView(.2); P.sc.push_back(s); break; }
  case 5: { SceneryP s = new Scenery(); P.scn.push_back(s); break; }
  case 6: { PhotonP p = new Photon(); P.ph.push_back(p); break; }
  case 7: if (auto x = any(P.sc, r)) { MetricP m = any(P.m, r); if (m) x->metric(m); } break;
  case 8: if (auto x = any(P.scn, r)) { MetricP m = any(P.m, r); if (m) x->metric(m); } break;
  case 9: if (auto x = any(P.scn, r)) { ScreenP m = any(P.sc, r); if (m) x->screen(m); } break;
  case 10: if (auto x = any(P.scn, r)) { AstrobjP m = any(P.a, r); if (m) x->astrobj(m); } break;
  case 11: if (auto x = any(P.a, r)) { MetricP m = any(P.m, r); if (m) x->metric(m); } break;
  case 12: if (auto x = any(P.a, r)) { SpectrumP s = any(P.s, r); if (s) try { x->set(r.p(.5) ? "Spectrum" : "Opacity", Value(s)); } catch (Gyoto::Error &) { ev("refusals"); } } break;
  case 13: if (auto x = any(P.sc, r)) { SpectroP s = any(P.sr, r); x->spectrometer(s); ev("attachments"); } break;
  case 14: if (auto x = any(P.a, r)) if (auto *c = dynamic_cast<Astrobj::Complex *>(&*x)) { AstrobjP e = any(P.a, r); if (e && !reaches(&*e, c)) { c->append(e); ev("attachments"); } } break;
  case 15: if (auto x = any(P.sr, r)) if (auto *c = dynamic_cast<Spectrometer::Complex *>(&*x)) { SpectroP e = any(P.sr, r); if (e && !reaches(&*e, c)) { c->append(e); ev("attachments"); } } break;
  case 16: if (auto x = any(P.a, r)) if (auto *c = dynamic_cast<Astrobj::Complex *>(&*x)) if (c->getCardinal()) { c->remove(r.i(0, c->getCardinal() - 1)); ev("detachments"); } break;
  case 17: if (auto x = any(P.sr, r)) if (auto *c = dynamic_cast<Spectrometer::Complex *>(&*x)) if (c->getCardinal()) { c->remove(r.i(0, c->getCardinal() - 1)); ev("detachments"); } break;
  case 18: if (auto x = any(P.m, r)) { x->set("Spin", Value(r.u(-.9, .9))); if (r.p(.3)) x->mass(r.lu(1, 1e7), "sunmass"); ev("notifications"); } break;
  case 19: if (auto x = any(P.sr, r)) if (auto *u = dynamic_cast<Spectrometer::Uniform *>(&*x)) { u->nSamples(r.i(1, 6)); ev("notifications"); } break;
  case 20: switch (r.i(0, 6)) { case 0: if (auto x = any(P.m, r)) P.m.push_back(x->clone()); break; case 1: if (auto x = any(P.a, r)) P.a.push_back(x->clone()); break; case 2: if (auto x = any(P.s, r)) P.s.push_back(x->clone()); break; case 3: if (auto x = any(P.sr, r)) P.sr.push_back(x->clone()); break; case 4: if (auto x = any(P.sc, r)) P.sc.push_back(x->clone()); break; case 5: if (auto x = any(P.scn, r)) P.scn.push_back(x->clone()); break; case 6: if (auto x = any(P.ph, r)) P.ph.push_back(x->clone()); } ev("clones"); break;
  case 21: switch (r.i(0, 6)) { case 0: drop(P.m, r); break; case 1: drop(P.a, r); break; case 2: drop(P.s, r); break; case 3: drop(P.sr, r); break; case 4: drop(P.sc, r); break; case 5: drop(P.scn, r); break; case 6: drop(P.ph, r); } break;
  case 22: if (auto x = any(P.scn, r)) { if (r.p(.5)) { MetricP m = x->metric(); if (m) P.m.push_back(m); } AstrobjP a = x->astrobj(); if (a) P.a.push_back(a); ScreenP s = x->screen(); if (s && r.p(.4)) P.sc.push_back(s); } else if (auto y = any(P.sc, r)) { MetricP m = y->metric(); if (m) P.m.push_back(m); } break;
  case 23: if (auto x = any(P.scn, r)) { if (x->metric() && x->screen() && x->astrobj()) { try { AstrobjP a = x->astrobj(); if (auto *c = dynamic_cast<Astrobj::Complex *>(&*a)) if (!c->getCardinal()) break; x->delta(1.); x->maxiter(200); x->nThreads(r.i(1, 3)); size_t n = x->screen()->resolution(), nn = nsamp(x->screen()->spectrometer()); std::vector<double> im(n * n), sp(n * n * (nn ? nn : 1)); Astrobj::Properties d; d.alloc = true; d.intensity = im.data(); d.offset = n * n; if (nn && r.p(.7)) d.spectrum = sp.data(); Screen::Range ir(1, n, 1), jr(1, n, 1); Screen::Grid g(ir, jr, ""); x->rayTrace(g, &d, NULL); ev("images"); } catch (Gyoto::Error &e) { ev("refused images"); } } } break;
  case 24: if (auto p = any(P.ph, r)) { MetricP m = any(P.m, r); AstrobjP a = any(P.a, r); if (m) try { double c[8] = {0, 30, 1.2, .3, 0, -1, 0, .001}; if (m->coordKind() == GYOTO_COORDKIND_CARTESIAN) { double d[8] = {0, 20, 20, 5, 0, -.7, -.7, 0}; memcpy(c, d, sizeof c); } m->nullifyCoord(c); AstrobjP use = r.p(.5) ? a : AstrobjP(NULL); if (use) use->metric(m); p->setInitialCondition(m, use, c); SpectroP sp = any(P.sr, r); if (r.p(.5)) p->spectrometer(sp); p->xFill(r.u(-60, 60)); ev("worldlines"); if (use && r.p(.4)) { SpectroP q = p->spectrometer(); if (!q || q->nSamples()) { p->hit(NULL); ev("photon hits"); } } } catch (Gyoto::Error &) { ev("refused photons"); } } break;
  case 25: { // handles assigned to one another, to themselves, to parts of what they own
    if (P.sr.size() > 1) { P.sr[0] = P.sr[r.i(0, P.sr.size() - 1)]; SpectroP &z = P.sr[r.i(0, P.sr.size() - 1)]; z = z; Spectrometer::Generic *raw = z; z = raw; }
    { SpectroP h = mkSpectro("Complex"); Spectrometer::Complex *c = static_cast<Spectrometer::Complex *>((Spectrometer::Generic *) h); SpectroP e = newSpectro(r); c->append(e); e = NULL; h = (*c)[0]; (void) h->nSamples(); ev("walks down"); }
    if (P.a.size()) { AstrobjP &z = P.a[r.i(0, P.a.size() - 1)]; if (auto *c = dynamic_cast<Astrobj::Complex *>(&*z)) if (c->getCardinal()) { z = (*c)[0]; ev("walks down"); } }
    break; }
  } }

// ---------- Hook::Teller / Listener against a model ----------
struct MyTeller : public Hook::Teller { void go() { tellListeners(); } };
struct MyListener : public Hook::Listener { std::map<const void *, int> heard; void tell(Hook::Teller *t) { heard[t]++; } };

int main(int argc, char **argv) {
  init(argc, argv); bool T = S().thorough; S().cpu_limit = 300;
  // 1. random histories over a pool of objects, with leak check
  for (int rep = 0; rep < (T ? 3000 : 160); ++rep) { if (!mine()) continue; Rng r = caseRng(1);
    guard("history", [&] { TRACE = ""; size_t live0 = LIVE.size(); bool images = rep % 2; { Pool P; int n = r.i(20, T ? 160 : 90);
      for (int i = 0; i < n; ++i) { try { op(P, r); } catch (Gyoto::Error &e) { viol("operation refused " + TRACE.substr(TRACE.rfind(' ', TRACE.size() - 2) + 1), e.get_message()); }
        if (i % 12 == 11 && !P.scn.size() && !P.ph.size()) { // no internal caches: exactly what handles reach is alive
          std::set<const void *> seen; for (auto &x : P.m) visit(seen, &*x, &*x); for (auto &x : P.a) visit(seen, &*x, &*x); for (auto &x : P.s) visit(seen, &*x, &*x); for (auto &x : P.sr) visit(seen, &*x, &*x); for (auto &x : P.sc) visit(seen, &*x, &*x);
          std::vector<const void *> lost; for (auto p : LIVE) if (!seen.count(p)) lost.push_back(p); CHECK("an object nothing references is still alive", lost.empty(), "%zu objects; history %s", lost.size(), TRACE.c_str()); ev("reachability checks"); } }
      for (auto &x : P.m) CHECK("an object with a handle is gone", LIVE.count((SmartPointee *) &*x), "history %s", TRACE.c_str()); P.clear(r); }
      (void) images; CHECK("objects survive the last handle", LIVE.size() == live0, "%zu left; history %s", LIVE.size() - live0, TRACE.c_str()); LIVE.clear(); ev("histories"); if (rep < 2) sample(TRACE); leakCheck("history"); }); }
  // 2. every kind: fill, randomise, clone, save, reload, drop in any order
  for (int rep = 0; rep < (T ? 60 : 3); ++rep) for (int i = 0; i < nHeld(); ++i) { if (!mine()) continue; Rng r = caseRng(2);
    guard("kind", [&] { { Held h = mkHeld(i); S().at = "life of " + h.id(); distinct("kinds", h.id()); if (rep) randomise(h.o, r, rep % 3 ? .5 : .9); if (h.a) giveGrids(&*h.a, r);
      if (h.a && h.kind == "Complex") { auto *c = dynamic_cast<Astrobj::Complex *>(&*h.a); AstrobjP u = mkAstrobj("FixedStar"), v = mkAstrobj("Torus"); u->set("Radius", Value(1.5)); c->append(u); c->append(v); if (r.p(.5)) c->remove(0); }
      std::unique_ptr<Held> c(new Held(h.clone())), d; if (rep % 2) randomise(c->o, r, .6); if (c->a) giveGrids(&*c->a, r); std::string t; try { t = h.xml(); d.reset(new Held(h.reread(t))); ev("rereads"); } catch (Gyoto::Error &) {}
      if (r.p(.5)) h.drop(); c.reset(); d.reset(); } ev("lives"); leakCheck("kind"); }); }
  // 3. whole sceneries: trace, threads, change, drop
  for (int rep = 0; rep < (T ? 8 : 1); ++rep) for (auto &e : catalogue()) { if (e.slow && !T) continue; if (!mine()) continue; Rng r = caseRng(3);
    guard(std::string("scenery ") + e.metric + "/" + e.obj, [&] { SceneOpt o; o.res = 3; Scene s = makeScene(e, r, o); { SceneryP a = scenery(s.xml); a->nThreads(r.i(1, 3)); Buffers b(a->getRequestedQuantities(), s.res * s.res, nnu(a)); traceFull(a, b); ev("hit pixels", hits(b)); SceneryP c(a->clone()); a = NULL; PhotonP p = c->clonePhoton(); c = NULL; MetricP m = p->metric(); p = NULL; m->mass(m->mass() * 2); } ev("scenes"); distinct("scenes", s.name); leakCheck("scene"); }); }
  // 4. notifications
  for (int rep = 0; rep < (T ? 4000 : 400); ++rep) { if (!mine()) continue; Rng r = caseRng(4);
    guard("hooks", [&] { { std::vector<MyTeller *> t(3); std::vector<MyListener *> l(4); for (auto &x : t) x = new MyTeller; for (auto &x : l) x = new MyListener; std::map<std::pair<int, int>, int> model; std::string tr;
      for (int i = 0; i < 40; ++i) { int a = r.i(0, 2), b = r.i(0, 3); switch (r.i(0, 3)) { case 0: case 1: t[a]->hook(l[b]); model[{a, b}]++; tr += fmt("+%d%d ", a, b); break; case 2: t[a]->unhook(l[b]); model[{a, b}] = 0; tr += fmt("-%d%d ", a, b); break;
        case 3: { for (auto x : l) x->heard.clear(); t[a]->go(); tr += fmt("!%d ", a); for (int q = 0; q < 4; ++q) { bool want = model[{a, q}] > 0; int got = l[q]->heard[t[a]]; CHECK("listener told", want == (got > 0), "teller %d listener %d hooked %d told %d: %s", a, q, model[{a, q}], got, tr.c_str()); CHECK("listener told by another", l[q]->heard.size() == 1, "%s", tr.c_str()); } ev("notifications checked"); } }
        if (r.p(.04)) { MyTeller *c = new MyTeller(*t[a]); for (auto x : l) x->heard.clear(); c->go(); for (auto x : l) CHECK("copy of a teller tells the listeners of the original", x->heard.empty(), "%s", tr.c_str()); delete c; }
        if (r.p(.05)) { delete t[a]; t[a] = new MyTeller; for (int q = 0; q < 4; ++q) model[{a, q}] = 0; tr += fmt("x%d ", a); } }
      distinct("hook histories", tr); for (auto x : t) delete x; for (auto x : l) delete x; } }); }
  // 5. reference counting under threads
  leakCheck("end");
  return done(); }
