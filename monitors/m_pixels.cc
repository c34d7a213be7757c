// C02: the value of a pixel depends on the scene and its direction only.
#include "scenes.h"
using namespace V;
using namespace Gyoto;
static double tolOf(const Scene &s) { return s.orbit ? (s.metricKind == "ChernSimons" ? 1e-3 : 1e-6) : 0; }
/// compare pixel p of `a` (reference image) with item x of `b`
static void cmp(Buffers &a, size_t p, Buffers &b, size_t x, const char *what, double tol) {
  std::vector<size_t> ca, cb; auto pb = b.planes();
  for (auto &q : pb) for (auto &r : a.planes()) if (!strcmp(q.first, r.first)) {
    cells(a, r.first, *r.second, p, ca); cells(b, q.first, *q.second, x, cb); double sl = tol ? scaleOf(*r.second) : 0;
    for (size_t k = 0; k < ca.size(); ++k) { ev("cells compared"); double u = (*r.second)[ca[k]], w = (*q.second)[cb[k]];
      if (!agree(u, w, tol, sl)) { viol(fmt("%s:%s", what, q.first), fmt("pixel %zu [%zu]: %.17g in the full image, %.17g here", p, k, u, w)); break; } } } }

static double dflt(const char *n) { std::string s = n; return s == "EmissionTime" || s == "MinDistance" || s == "FirstDmin" || s == "ImpactCoords" ? DBL_MAX : 0.; }

static void one(const Entry &e) {
  Rng r = caseRng(); SceneOpt o; o.res = S().thorough ? 7 : (r.p(.5) ? 5 : 6);
  Scene s = makeScene(e, r, o); bool asan = S().group == "asan";
  guard(s.name, [&]() {
    double tol = tolOf(s); size_t n = o.res, np = n * n;
    SceneryP sc = scenery(s.xml); size_t nn = nnu(sc); Quantity_t q = sc->getRequestedQuantities();
    if (r.p(.3)) sc->screen()->anglekind("Rectilinear");
    std::string ak = sc->screen()->anglekind();
    Buffers ref(q, np, nn); traceFull(sc, ref); ev("hit pixels", hits(ref)); distinct("scenes", s.xml);
    std::string why;
    SceneryP fresh = scenery(s.xml); fresh->screen()->anglekind(ak);
    sample(s.name + ": alone, rectangles, lists, angles, mask, subsets, shared objects");
    int K = asan ? 4 : 10;
    // (a) alone, on the used scenery and on a fresh one, via operator() and via a one-pixel request
    for (int k = 0; k < K; ++k) { size_t i = r.i(1, n), j = r.i(1, n), p = (j - 1) * n + i - 1;
      { Buffers b(q, 1, nn); (*sc)(i, j, &b.props); cmp(ref, p, b, 0, "alone", tol); }
      if (k < 3) { Buffers b(q, 1, nn); (*fresh)(i, j, &b.props); cmp(ref, p, b, 0, "alone-first", tol); }
      { Buffers b(q, 1, nn); Screen::Range ir(i, i, 1), jr(j, j, 1); Screen::Grid g(ir, jr, ""); fresh->rayTrace(g, &b.props); cmp(ref, p, b, 0, "alone-grid", tol); } ev("single-pixel requests", 2); }
    // (b) rectangles with steps, absolute and packed placement
    for (int k = 0; k < 4; ++k) { size_t i0 = r.i(1, n), i1 = r.i(i0, n), j0 = r.i(1, n), j1 = r.i(j0, n), di = r.i(1, 3), dj = r.i(1, 3);
      Screen::Range ir(i0, i1, di), jr(j0, j1, dj); Screen::Grid g(ir, jr, ""); bool abs = r.p(.5);
      size_t ni = (i1 - i0) / di + 1, nj = (j1 - j0) / dj + 1;
      CHECK("grid-size", g.size() == ni * nj, "grid %zu..%zu/%zu x %zu..%zu/%zu says %zu", i0, i1, di, j0, j1, dj, g.size());
      Buffers b(q, abs ? np : ni * nj, nn); b.props.alloc = abs; sc->rayTrace(g, &b.props); b.props.alloc = false; size_t x = 0; std::set<size_t> want;
      for (size_t j = j0; j <= j1; j += dj) for (size_t i = i0; i <= i1; i += di) { size_t p = (j - 1) * n + i - 1; want.insert(p); cmp(ref, p, b, abs ? p : x, "rectangle", tol); ++x; }
      if (abs) { std::vector<size_t> cc; for (auto &pl : b.planes()) for (size_t p = 0; p < np; ++p) if (!want.count(p)) { cells(b, pl.first, *pl.second, p, cc); for (size_t c : cc) if ((*pl.second)[c] != Image::POISON()) { viol(std::string("stray-write:") + pl.first, fmt("pixel %zu not requested", p)); break; } } }
      ev("rectangles"); }
    // (c) arbitrary list in arbitrary order with repeats
    { int m = r.i(1, 12); std::vector<size_t> ii(m), jj(m); for (int k = 0; k < m; ++k) { ii[k] = r.i(1, n); jj[k] = r.i(1, n); }
      Screen::Indices is(ii.data(), m), js(jj.data(), m); Screen::Bucket bk(is, js); Buffers b(q, m, nn); sc->rayTrace(bk, &b.props);
      for (int k = 0; k < m; ++k) cmp(ref, (jj[k] - 1) * n + ii[k] - 1, b, k, "list", tol); ev("lists"); }
    // (d) by sky angles
    { double fov = sc->screen()->fieldOfView(); double w = ak == "Rectilinear" ? 2. * tan(fov * .5) : fov;
      int m = r.i(2, 8); std::vector<double> a(m), d(m); std::vector<size_t> pp(m);
      for (int k = 0; k < m; ++k) { size_t i = r.i(1, n), j = r.i(1, n); pp[k] = (j - 1) * n + i - 1; const double dl = w / double(n); a[k] = -dl * (double(i) - double(n + 1) / 2.); d[k] = dl * (double(j) - double(n + 1) / 2.); }
      Screen::Angles as(a.data(), m), ds(d.data(), m); Screen::Bucket bk(as, ds); Buffers b(q, m, nn); sc->rayTrace(bk, &b.props);
      for (int k = 0; k < m; ++k) cmp(ref, pp[k], b, k, "angles", 1e-6);
      { Buffers b1(q, 1, nn); (*fresh)(a[0], d[0], &b1.props); cmp(ref, pp[0], b1, 0, "angle-alone", 1e-6); }
      Screen::RepeatAngle ra(a[0], m); Screen::Angles d2(d.data(), m); Screen::Bucket b2(ra, d2); Buffers bb(q, m, nn); sc->rayTrace(b2, &bb.props); cmp(ref, pp[0], bb, 0, "repeat-angle", 1e-6); ev("angle lists"); }
    // (e) mask
    { std::vector<double> mk(np); for (auto &x : mk) x = r.p(.5) ? (r.p(.5) ? 1. : -3.5) : 0.; sc->screen()->mask(mk.data(), n); CHECK("mask-resolution", sc->screen()->resolution() == n, "mask changed the resolution");
      Buffers b(q, np, nn); traceFull(sc, b);
      std::vector<size_t> cc; for (size_t p = 0; p < np; ++p) if (mk[p] != 0) cmp(ref, p, b, p, "mask-on", tol);
        else for (auto &pl : b.planes()) { cells(b, pl.first, *pl.second, p, cc); for (size_t c : cc) { ev("masked cells"); if ((*pl.second)[c] != dflt(pl.first)) { viol(std::string("mask-off:") + pl.first, fmt("masked pixel %zu has %.17g", p, (*pl.second)[c])); break; } } }
      sc->screen()->mask(NULL); }
    // (f) fewer scalar quantities (intensity and the spectral ones decide how far an opaque ray is followed)
    if (!s.polar) for (int k = 0; k < 2; ++k) { Quantity_t sub = 0; for (int bit = 0; bit < 32; ++bit) if ((q >> bit & 1) && (r.p(.5) || (q & (Quantity_t(1) << bit) & (GYOTO_QUANTITY_SPECTRAL | GYOTO_QUANTITY_INTENSITY)))) sub |= Quantity_t(1) << bit; if (!sub) continue;
      SceneryP s3 = scenery(s.xml); s3->screen()->anglekind(ak); s3->setRequestedQuantities(sub); Buffers b(sub, np, nn); traceFull(s3, b); for (size_t p = 0; p < np; ++p) cmp(ref, p, b, p, "fewer-quantities", tol); ev("quantity subsets"); distinct("subsets", fmt("%s %lx", s.name.c_str(), (unsigned long) sub)); }
    // (g) the objects serve another scenery and another camera in between
    { ScreenP scr2 = sc->screen()->clone(); scr2->inclination(sc->screen()->inclination() * .7 + .1); scr2->PALN(1.); 
      ScreenP keep = sc->screen();
      { SceneryP other = new Scenery(sc->metric(), scr2, sc->astrobj()); other->requestedQuantitiesString(e.q); if (s.polar) other->parallelTransport(true); other->tMin(sc->tMin()); Buffers b(q, np, nn); traceFull(other, b); ev("foreign images"); }
      Buffers b(q, np, nn); traceFull(sc, b); CHECK("after-other-scenery", sameBuffers(ref, b, why, tol), "%s", why.c_str()); }
    { Buffers b(q, np, nn); traceFull(sc, b); CHECK("repeat", sameBuffers(ref, b, why, tol), "%s", why.c_str()); }
    // (h) a NULL or partial Properties in between must not matter either
    { Astrobj::Properties *nul = NULL; (*sc)(size_t(1), size_t(1), nul); (*sc)(n, size_t(1), nul); Buffers b(q, np, nn); traceFull(sc, b); CHECK("after-null-request", sameBuffers(ref, b, why, tol), "%s", why.c_str()); }
  }, s.name); }
int main(int c, char **v) { init(c, v);
  int reps = S().thorough ? 12 : (S().group == "asan" ? 1 : 2);
  for (int k = 0; k < reps; ++k) for (auto &e : catalogue()) { if (!mine()) continue; one(e); }
  return done(); }
