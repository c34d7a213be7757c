// C01: threaded ray-tracing: same numbers as single-threaded, each pixel once, nothing else written.
// Run bit-exact (plain build) and under ThreadSanitizer.
#include "scenes.h"
#include <pthread.h>
#include <sched.h>
#include <atomic>
using namespace V;
using namespace Gyoto;

/// Iterator handed to rayTrace: records who takes which pixel and disturbs the schedule.
struct Probe : public Screen::Coord2dSet {
  Screen::Coord2dSet &in; Rng r; int mode; long taken = 0, late = 0; std::string order; std::map<pthread_t, int> who;
  std::vector<std::pair<long, long> > seq;
  Probe(Screen::Coord2dSet &s, uint64_t seed, int m) : Coord2dSet(s.kind), in(s), r(seed), mode(m) {}
  void disturb() { if (mode == 0) return;
    if (mode == 1) { if (r.p(.5)) sched_yield(); }
    else if (mode == 2) { if (r.p(.3)) usleep(r.i(50, 800)); }
    else { int me = id(); if (me == 0 && r.p(.7)) usleep(r.i(200, 2000)); if (me == 1 && r.p(.3)) usleep(300); } }
  int id() { auto it = who.find(pthread_self()); if (it != who.end()) return it->second; int n = who.size(); who[pthread_self()] = n; return n; }
  Coord2dSet &operator++() { if (in.valid()) ++taken; else ++late; order += char('a' + id() % 26); 
    if (kind == Screen::pixel) { auto p = *in; seq.push_back(std::make_pair(long(p[0]), long(p[1]))); }
    ++in; disturb(); return *this; }
  GYOTO_ARRAY<size_t, 2> operator*() const { if (!const_cast<Probe*>(this)->in.valid()) return {0, 0}; return *in; }
  GYOTO_ARRAY<double, 2> angles() const { if (!const_cast<Probe*>(this)->in.valid()) return {0., 0.}; return in.angles(); }
  void begin() { in.begin(); } bool valid() { return in.valid(); } size_t size() { return in.size(); } };

static void one(const Entry &e, int rep) {
  Rng r = caseRng(); SceneOpt o; o.res = S().group == "tsan" ? 4 : (S().thorough ? 9 : 6);
  Scene s = makeScene(e, r, o);
  guard(s.name, [&]() {
    SceneryP sc = scenery(s.xml); double tol = s.orbit ? (s.metricKind == "ChernSimons" ? 1e-3 : 1e-6) : 0; size_t n = o.res, np = n * n, nn = nnu(sc); Quantity_t q = sc->getRequestedQuantities();
    Buffers ref(q, np, nn); sc->nThreads(1); traceFull(sc, ref); ev("hit pixels", hits(ref)); distinct("scenes", s.xml);
    if (rep == 0) sample(s.name + " quantities " + sc->requestedQuantitiesString());
    for (auto &pl : ref.planes()) for (double x : *pl.second) if (x == Image::POISON()) { viol(std::string("unwritten-cell:") + pl.first, "single-threaded run left a requested cell unwritten"); break; }
    std::vector<int> nts = S().group == "tsan" ? std::vector<int>{3, 8} : std::vector<int>{2, 3, 5, 8, 17};
    for (int nt : nts) for (int mode = 0; mode < 4; ++mode) {
      if (S().group == "tsan" && mode != (nt == 3 ? 2 : 0) ) continue;
      if (S().group != "tsan" && !S().thorough && r.p(.5)) continue;
      sc->nThreads(nt); std::string why;
      int form = r.i(0, 3);
      if (form <= 1) { // rectangle, with or without absolute addressing
        size_t i0 = 1, i1 = n, j0 = 1, j1 = n, di = 1, dj = 1;
        if (form == 1) { i0 = r.i(1, n); i1 = r.i(i0, n); j0 = r.i(1, n); j1 = r.i(j0, n); di = r.i(1, 2); dj = r.i(1, 3); }
        Screen::Range ir(i0, i1, di), jr(j0, j1, dj); Screen::Grid g(ir, jr, ""); Probe p(g, r.next(), mode);
        Buffers b(q, np, nn); b.props.alloc = true;
        sc->rayTrace(p, &b.props); b.props.alloc = false;
        CHECK("pixel-count", p.taken == long(g.size()), "%d threads: iterator advanced %ld times (%ld past the end) for %zu pixels", nt, p.taken, p.late, g.size());
        distinct("schedules", p.order); ev("threads that worked", p.who.size());
        std::set<size_t> want; for (size_t j = j0; j <= j1; j += dj) for (size_t i = i0; i <= i1; i += di) want.insert((j - 1) * n + i - 1);
        std::vector<size_t> cc;
        auto pa = ref.planes(), pb = b.planes();
        for (size_t k = 0; k < pb.size(); ++k) { double sl = scaleOf(*pa[k].second); for (size_t px = 0; px < np; ++px) { cells(b, pb[k].first, *pb[k].second, px, cc);
          for (size_t c : cc) { ev("cells");
            if (want.count(px)) { if (!agree((*pb[k].second)[c], (*pa[k].second)[c], tol, sl)) { viol(std::string("differs:") + pb[k].first, fmt("%d threads mode %d pixel %zu: %.17g, single thread %.17g", nt, mode, px, (*pb[k].second)[c], (*pa[k].second)[c])); } }
            else if ((*pb[k].second)[c] != Image::POISON()) viol(std::string("stray-write:") + pb[k].first, fmt("%d threads: cell of pixel %zu, not requested, was written", nt, px)); } } }
      } else if (form == 2) { // arbitrary list, packed
        std::vector<size_t> ii, jj; int m = r.i(1, np + 4); for (int k = 0; k < m; ++k) { ii.push_back(r.i(1, n)); jj.push_back(r.i(1, n)); }
        ii.reserve(ii.size() + 1); Screen::Indices is(ii.data(), m), js(jj.data(), m); Screen::Bucket bk(is, js); Probe p(bk, r.next(), mode);
        Buffers b(q, m, nn); sc->rayTrace(p, &b.props);
        CHECK("pixel-count", p.taken == m, "%ld of %d", p.taken, m); distinct("schedules", p.order);
        auto pa = ref.planes(), pb = b.planes(); std::vector<size_t> ca, cb;
        for (size_t k = 0; k < pb.size(); ++k) { double sl = scaleOf(*pa[k].second); for (int x = 0; x < m; ++x) { cells(ref, pa[k].first, *pa[k].second, (jj[x] - 1) * n + ii[x] - 1, ca); cells(b, pb[k].first, *pb[k].second, x, cb);
          for (size_t c = 0; c < ca.size(); ++c) { ev("cells"); if (!agree((*pb[k].second)[cb[c]], (*pa[k].second)[ca[c]], tol, sl)) viol(std::string("differs:") + pb[k].first, fmt("%d threads, list item %d", nt, x)); } } }
      } else { // sky angles
        int m = r.i(2, 8); std::vector<double> a(m), d(m); for (int k = 0; k < m; ++k) { a[k] = r.u(-.1, .1); d[k] = r.u(-.1, .1); }
        Screen::Angles as(a.data(), m), ds(d.data(), m); Screen::Bucket bk(as, ds);
        Buffers b1(q, m, nn), b2(q, m, nn); sc->nThreads(1); { Probe p(bk, 1, 0); sc->rayTrace(p, &b1.props); } bk.begin();
        sc->nThreads(nt); Probe p(bk, r.next(), mode); sc->rayTrace(p, &b2.props);
        CHECK("pixel-count", p.taken == m, "%ld of %d", p.taken, m); distinct("schedules", p.order);
        CHECK("differs:angles", sameBuffers(b1, b2, why, tol), "%d threads: %s", nt, why.c_str()); }
      ev("threaded runs"); }
    // re-use of stored impact coordinates, threaded
    if (ref.C.size()) { Quantity_t q2 = q & ~Quantity_t(GYOTO_QUANTITY_IMPACTCOORDS) & ~Quantity_t(GYOTO_QUANTITY_MIN_DISTANCE) & ~Quantity_t(GYOTO_QUANTITY_FIRST_DMIN);
      std::vector<double> ipct(ref.C); std::string why; Buffers a(q2, np, nn), b(q2, np, nn);
      for (int nt : {1, 6}) { sc->nThreads(nt); Screen::Range ir(1, n, 1), jr(1, n, 1); Screen::Grid g(ir, jr, ""); Probe p(g, r.next(), 1); sc->rayTrace(p, nt == 1 ? &a.props : &b.props, ipct.data()); }
      CHECK("differs:impactcoords", sameBuffers(a, b, why, tol), "%s", why.c_str()); ev("impact re-use runs"); }
    // and the scenery still gives the same single-threaded result
    { std::string why; sc->nThreads(1); Buffers b(q, np, nn); traceFull(sc, b); CHECK("differs:after", sameBuffers(ref, b, why, tol), "single-threaded run after the threaded ones: %s", why.c_str()); }
  }, s.name); }

int main(int c, char **v) { init(c, v);
  int reps = S().thorough ? 12 : (S().group == "tsan" ? 1 : 2);
  for (int k = 0; k < reps; ++k) for (auto &e : catalogue()) { if (!mine()) continue; one(e, k); }
  return done(); }
