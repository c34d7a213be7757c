// LINK: stdplug
// C04: clones are faithful and isolated.
#include "grids.h"
#include "scenes.h"
#include "metrics.h"
#include "GyotoComplexAstrobj.h"
using namespace V; using namespace Gyoto;
/// what the object computes, as numbers
static std::vector<double> behave(const Held &h, uint64_t salt) {
  Rng r(salt); std::vector<double> out; auto tryit = [&](std::function<void()> f) { try { f(); } catch (Gyoto::Error &) { out.push_back(-99.25); } };
  if (h.m) for (int k = 0; k < 3; ++k) tryit([&] { double x[4] = {r.u(-5, 5), r.u(6, 20), r.u(.3, 2.8), r.u(0, 6)}; if (h.m->coordKind() == GYOTO_COORDKIND_CARTESIAN) { x[2] = r.u(-9, 9); x[3] = r.u(-9, 9); } double g[4][4], G[4][4][4]; h.m->gmunu(g, x); out.insert(out.end(), &g[0][0], &g[0][0] + 16); h.m->christoffel(G, x); out.insert(out.end(), &G[0][0][0], &G[0][0][0] + 64); out.push_back(h.m->unitLength()); out.push_back(h.m->getRms()); });
  if (h.s) for (int k = 0; k < 3; ++k) tryit([&] { double nu = r.lu(1e10, 1e18); out.push_back((*h.s)(nu)); out.push_back((*h.s)(nu, 1., 10.)); });
  if (h.sr) for (size_t i = 0; i < h.sr->nSamples(); ++i) { out.push_back(h.sr->getMidpoints()[i]); out.push_back(h.sr->getWidths()[i]); }
  if (h.sc) for (int k = 0; k < 3; ++k) tryit([&] { double u[8]; h.sc->getRayTriad(size_t(r.i(1, h.sc->resolution() ? h.sc->resolution() : 1)), size_t(1), u); out.insert(out.end(), u, u + 8); out.push_back(h.sc->freqObs()); });
  if (h.a) for (int k = 0; k < 3; ++k) { double x[4] = {r.u(100, 200), r.u(6, 20), r.u(1.3, 1.8), r.u(0, 6)}; Astrobj::Generic *a = const_cast<Astrobj::Generic *>(&*h.a); tryit([&] { out.push_back(a->rMax()); out.push_back(a->deltaMax(x)); });
    if (h.kind == "StarTrace" || h.kind == "Star" || h.kind == "InflateStar" || h.kind.substr(0, 3) == "Sim" || h.kind.substr(0, 9) == "Dynamical" || h.kind == "Plasmoid") continue;   // arbitrary settings: no orbit to compute
    if (auto *st = dynamic_cast<Astrobj::Standard *>(a)) tryit([&] { out.push_back((*st)(x)); }); if (auto *td = dynamic_cast<Astrobj::ThinDisk *>(a)) tryit([&] { out.push_back((*td)(x)); double v[4]; td->getVelocity(x, v); out.insert(out.end(), v, v + 4); });
    if (auto *pd = dynamic_cast<Astrobj::PatternDisk *>(a)) if (pd->getIntensity()) tryit([&] { double y[8] = {x[0], x[1], M_PI / 2, x[3], 1, 0, 0, .02}; state_t S0(8); out.push_back(pd->emission(2e13, 1., S0, y)); }); }
  return out; }
static bool eqv(const std::vector<double> &a, const std::vector<double> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
static Dump dmp(const Held &h) { return h.a ? dump(&*h.a) : Dump(); }
static void children(const Object *o, std::vector<const void *> &out, int depth = 0) { for (const Property *p : props(o)) if (isObjectType(p->type)) try { Kept k; Object *c = k.get(o->get(*p), p->type); if (c) { out.push_back(c); if (depth < 4) children(c, out, depth + 1); } } catch (Gyoto::Error &) {} }
int main(int argc, char **argv) {
  init(argc, argv);
  for (int rep = 0; rep < (S().thorough ? 150 : 8); ++rep) for (int i = 0; i < nHeld(); ++i) { if (!mine()) continue; Rng r = caseRng();
    guard("clone", [&] { Held h = mkHeld(i); S().at = "clone " + h.id(); std::string K = h.id();
      if (rep % 3) { int n = randomise(h.o, r, rep % 3 == 1 ? .3 : .9); ev("randomised properties", n); }
      if (h.a && r.p(.7) && giveGrids(&*h.a, r)) ev("grids filled");
      if (h.sr && h.kind == "Complex") { auto *c = dynamic_cast<Spectrometer::Complex *>(&*h.sr); for (int q = 0; q < 2; ++q) c->append(stdSpectro()); }
      if (h.a && h.kind == "Complex") { auto *c = dynamic_cast<Astrobj::Complex *>(&*h.a); AstrobjP u = mkAstrobj("FixedStar"), v = mkAstrobj("Torus"); u->set("Radius", Value(1.5)); c->append(u); c->append(v); }
      uint64_t salt = r.next(); std::vector<double> b0 = behave(h, salt); Snap s0 = snap(h.o); Dump d0 = dmp(h); distinct("state", K + num(double(hash(snapDiff(Snap(), s0)))) + fmt("%d", rep));
      Held c = h.clone(); ev("clones"); if (rep == 0 && i < 3) sample(K);
      CHECK("kind of clone " + K, typeid(*c.o) == typeid(*h.o), "%s", typeid(*c.o).name());
      std::string f, d = snapDiff(s0, snap(c.o), &f); CHECK("clone differs: " + K + " " + f, d == "", "%s", d.c_str());
      d = snapDiff(s0, snap(h.o), &f); CHECK("cloning changed the original: " + K + " " + f, d == "", "%s", d.c_str());
      CHECK("clone computes differently: " + K, eqv(behave(c, salt), b0), ""); d = dumpDiff(d0, dmp(c)); CHECK("clone has other data: " + K, d == "", "%s", d.c_str());
      { Dump e = dmp(c); for (auto &p : d0) if (e.count(p.first)) CHECK("clone shares data: " + K, e[p.first].first != p.second.first, "%s", p.first.c_str()); }
      // isolation
      bool reverse = r.p(.5); Held &chg = reverse ? h : c; Held &kept = reverse ? c : h; Snap sk = snap(kept.o); ev("changes", randomise(chg.o, r, .8)); if (chg.a && d0.size()) giveGrids(&*chg.a, r);
      if (chg.sr && chg.kind == "Complex") dynamic_cast<Spectrometer::Complex *>(&*chg.sr)->remove(0);
      d = snapDiff(sk, snap(kept.o), &f); CHECK("changed through the other copy: " + K + " " + f, d == "", "%s", d.c_str());
      CHECK("computes differently after a change of the other copy: " + K, eqv(behave(kept, salt), b0), ""); d = dumpDiff(d0, dmp(kept)); CHECK("data changed through the other copy: " + K, d == "", "%s", d.c_str());
      // survive the other
      chg.drop(); d = snapDiff(sk, snap(kept.o), &f); CHECK("changed by the end of the other copy: " + K + " " + f, d == "", "%s", d.c_str()); CHECK("computes differently after the end of the other copy: " + K, eqv(behave(kept, salt), b0), ""); d = dumpDiff(d0, dmp(kept)); CHECK("data lost with the other copy: " + K, d == "", "%s", d.c_str()); ev("survivals"); }); }
  // sceneries: images of original and clone, before and after
  int reps = S().thorough ? 12 : 1;
  for (int rep = 0; rep < reps; ++rep) for (auto &e : catalogue()) { if (e.slow && !S().thorough) continue; if (!mine()) continue; Rng r = caseRng();
    guard(std::string("scenery ") + e.metric + "/" + e.obj, [&] { SceneOpt o; o.res = 4; Scene s = makeScene(e, r, o); double tol = s.orbit ? 1e-5 : 0; SceneryP a = scenery(s.xml); Quantity_t q = a->getRequestedQuantities(); size_t n = s.res * s.res; Buffers ref(q, n, nnu(a)); traceFull(a, ref);
      SceneryP used = scenery(s.xml); std::string why; bool warm = r.p(.5); if (warm) { Buffers x(q, n, nnu(used)); traceFull(used, x); }
      SceneryP c(used->clone()); ev("scenery clones"); ev("hit pixels", hits(ref)); { Buffers x(q, n, nnu(c)); traceFull(c, x); CHECK("image of the clone " + s.name, sameBuffers(ref, x, why, tol), "%s", why.c_str()); }
      // change the original's parts, then its clone must not care
      randomise(&*used, r, .7); { Buffers x(q, n, nnu(c)); traceFull(c, x); CHECK("image of the clone after a change of the original " + s.name, sameBuffers(ref, x, why, tol), "%s", why.c_str()); }
      used = NULL; { Buffers x(q, n, nnu(c)); traceFull(c, x); CHECK("image of the clone after the end of the original " + s.name, sameBuffers(ref, x, why, tol), "%s", why.c_str()); }
      // the clone changes: the original does not care
      SceneryP b = scenery(s.xml), bc(b->clone()); randomise(&*bc, r, .7); try { Buffers x(bc->getRequestedQuantities(), n, nnu(bc)); (void) x; } catch (Gyoto::Error &) {} bc = NULL; { Buffers x(q, n, nnu(b)); traceFull(b, x); CHECK("image of the original after changes and end of its clone " + s.name, sameBuffers(ref, x, why, tol), "%s", why.c_str()); }
      // Photon clone: same trajectory, extended separately
      PhotonP ph = c->clonePhoton(); Photon::Refined *nul = NULL; (void) nul; double u[8]; c->screen()->getRayTriad(size_t(2), size_t(2), u); ph->setInitialCondition(c->metric(), c->astrobj(), u); double t1 = u[0] - 60, t2 = u[0] - 140;
      try { ph->xFill(t1); } catch (Gyoto::Error &) { return; }
      PhotonP pc(ph->clone()); ev("photon clones"); size_t np = ph->get_nelements(); CHECK("photon clone length " + s.name, pc->get_nelements() == np, "%zu %zu", pc->get_nelements(), np); if (pc->get_nelements() != np) return;
      std::vector<double> t(np), x(np), y(np), z(np), T(np), X(np), Y(np), Z(np); ph->get_t(t.data()); ph->getCoord(t.data(), np, x.data(), y.data(), z.data()); pc->get_t(T.data()); pc->getCoord(T.data(), np, X.data(), Y.data(), Z.data());
      bool ok = true; for (size_t k = 0; k < np; ++k) ok = ok && same(t[k], T[k]) && same(x[k], X[k]) && same(y[k], Y[k]) && same(z[k], Z[k]); CHECK("photon clone trajectory " + s.name, ok, "");
      // a clone follows changes of its own metric, as the original would
      { PhotonP p1(ph->clone()), p2(ph->clone()); double M = p1->metric()->mass() * 2; p1->metric()->mass(M); double s0 = 0; try { s0 = p1->metric()->get("Spin"); p1->metric()->set("Spin", Value(s0 * .5 + .01)); } catch (Gyoto::Error &) {} CHECK("photon clone and the change of its metric " + s.name, p1->get_nelements() <= 1, "%zu", p1->get_nelements()); CHECK("photon clone and the change of a sibling's metric " + s.name, p2->get_nelements() == np && ph->get_nelements() == np, ""); ev("clone metric changes"); }
      try { pc->xFill(t2); } catch (Gyoto::Error &) { return; } CHECK("original photon extended by its clone " + s.name, ph->get_nelements() == np, "%zu %zu", ph->get_nelements(), np);
      try { ph->xFill(t2); } catch (Gyoto::Error &) { return; } size_t n1 = ph->get_nelements(), n2 = pc->get_nelements(); CHECK("photon and clone extended alike " + s.name, n1 == n2, "%zu %zu", n1, n2);
      if (n1 == n2) { std::vector<double> ta(n1), tb(n1); ph->get_t(ta.data()); pc->get_t(tb.data()); for (size_t k = 0; k < n1; ++k) CHECK("photon and clone extended alike " + s.name, close(ta[k], tb[k], 1e-12, 1e-9), "%zu: %.17g %.17g", k, ta[k], tb[k]); } }); }
  return done(); }
