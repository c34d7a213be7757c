// LINK: stdplug
// C19: objects defined on data grids.  An independent interpolator decides what a lookup must give;
// FITS round trips must restore the data and the grid; everything runs under ASan/UBSan.
#include "grids.h"
#include "GyotoKerrBL.h"
#include "GyotoGridData2D.h"
#include <sys/stat.h>
using namespace V;
static const double tpi = 2 * M_PI;
static std::string dir;
template <class T> static T *raw(Gyoto::SmartPointer<T> &p) { return p.operator->(); }
static double modp(double x, double p) { x = fmod(x, p); return x < 0 ? x + p : x; }
/// one axis: the two enclosing nodes and the weight of the second
struct Ax { size_t a, b; double w; };
static Ax ax(const std::vector<double> &n, double x) { size_t k = 0; while (k + 2 < n.size() && x > n[k + 1]) ++k; return {k, k + 1, (x - n[k]) / (n[k + 1] - n[k])}; }
static std::vector<double> lin(double a, double b, size_t n) { std::vector<double> v(n); for (size_t i = 0; i < n; ++i) v[i] = a + (b - a) * i / (n - 1.); return v; }
static double phiOf(Rng &r, double p0, double p1, size_t n, int &where) {   // azimuths worth looking at
  switch (where = r.i(0, 7)) { case 0: return p0; case 1: return p1; case 2: return 0; case 3: return tpi; case 4: return n > 1 ? p0 + (p1 - p0) * r.i(0, n - 1) / (n - 1.) : 1.; case 5: return r.u(-20, 20); default: return r.u(0, tpi); } }
static double radOf(Rng &r, const std::vector<double> &n) {
  switch (r.i(0, 6)) { case 0: return n.front(); case 1: return n.back(); case 2: return r.pick(n); case 3: return n.front() * r.u(.6, 1); case 4: return n.back() * r.u(1, 1.4); default: return r.u(n.front(), n.back()); } }

static void pattern(Rng &r, const std::string &kind) {
  using Gyoto::Astrobj::PatternDisk;
  AstrobjP a = mkAstrobj(kind); auto *o = dynamic_cast<PatternDisk *>(raw(a)); bool cart = r.p(.3);
  MetricP g = mkMetric(cart ? "KerrKS" : "KerrBL"); a->metric(g);
  size_t n[3] = {1, size_t(r.p(.25) ? 1 : r.i(2, 7)), size_t(r.i(2, 8))}, N = n[1] * n[2]; size_t rep = r.p(.5) ? 1 : r.i(1, 3);
  double p0 = 0, p1 = tpi; if (rep == 1 && r.p(.6)) { p0 = r.u(0, 2); p1 = r.p(.3) ? p0 + tpi * (n[1] - 1.) / n[1] : r.u(p0 + .5, std::min(tpi, p0 + 5)); }
  double rin = r.u(3, 8), rout = rin + r.u(1, 20); double Om = r.p(.5) ? 0 : r.u(-.3, .3);
  std::vector<double> e = rnd(r, N, 0, 9), op = rnd(r, N, 0, .4), v = rnd(r, 2 * N, -.01, .02), ra = lin(rin, rout, n[2]); if (r.p(.2)) for (auto &x : op) if (r.p(.4)) x = 0;
  bool hasOp = r.p(.5), hasV = !cart && r.p(.6), hasR = r.p(.5); if (hasR) { ra = asc(r, n[2], rin, 2); rin = ra.front(); rout = ra.back(); }
  // the grid description may come before or after the data
  int order = r.i(0, 1); auto desc = [&] { o->innerRadius(rin); o->outerRadius(rout); o->phimin(p0); o->phimax(p1); o->repeatPhi(rep); o->patternVelocity(Om); };
  if (order) desc(); o->copyIntensity(e.data(), n); if (hasOp) o->copyOpacity(op.data(), n); if (hasV) o->copyVelocity(v.data(), n + 1); if (hasR) o->copyGridRadius(ra.data(), n[2]); if (!order) desc();
  AstrobjP keep; int via = r.i(0, 2); if (via == 1) { keep = a->clone(); o = dynamic_cast<PatternDisk *>(raw(keep)); }
  if (via == 2) { std::string f = dir + fmt("/p%ld.fits", S().ncase); o->fitsWrite("!" + f); keep = mkAstrobj(kind); keep->metric(g); o = dynamic_cast<PatternDisk *>(raw(keep)); o->fitsRead(f); o->opticallyThin(hasOp);
    std::string d = dumpDiff(dump(raw(a)), dump(o)); CHECK("FITS round trip: " + kind, d.empty(), "%s", d.c_str()); ev("FITS round trips");
    CHECK("FITS round trip of the grid: " + kind, close(o->innerRadius(), rin, 1e-12) && close(o->outerRadius(), rout, 1e-12) && close(o->phimin(), p0, 1e-12, 1e-12) && close(o->phimax(), p1, 1e-12) && o->repeatPhi() == rep && close(o->patternVelocity(), Om, 1e-12), "%g %g %g %g %zu %g for %g %g %g %g %zu %g", o->innerRadius(), o->outerRadius(), o->phimin(), o->phimax(), o->repeatPhi(), o->patternVelocity(), rin, rout, p0, p1, rep, Om); unlink(f.c_str()); }
  ev(via == 0 ? "as set" : via == 1 ? "cloned" : "read from FITS"); ev(kind);
  if (kind == "PatternDiskBB") return;   // its emission is a black body of the looked-up temperature
  std::vector<double> pn = n[1] > 1 ? lin(p0, p0 + (p1 - p0) / rep, n[1]) : std::vector<double>();
  for (int q = 0; q < 60; ++q) { double R = radOf(r, ra), t = r.p(.3) ? 0 : r.u(-100, 100); int wh; double phi = phiOf(r, p0, p1, n[1] * rep - (rep - 1), wh);
    double co[8] = {t, R, M_PI / 2, phi, 1, 0, 0, 0}; if (cart) { co[1] = R * cos(phi); co[2] = R * sin(phi); co[3] = 0; }
    Gyoto::state_t cp(co, co + 8); double Rp = cart ? sqrt(co[1] * co[1] + co[2] * co[2]) : R; bool edge = fabs(Rp - rin) < 1e-9 * rin || fabs(Rp - rout) < 1e-9 * rout, out = Rp < rin || Rp > rout; 
    double I = o->emission(1e14, .7, cp, co), T = o->transmission(1e14, .7, cp, co); std::string w = fmt("r=%.17g in [%g,%g] phi=%.17g in [%g,%g]/%zu t=%g Omega=%g n=%zux%zu", R, rin, rout, phi, p0, p1, rep, t, Om, n[1], n[2]);
    ev("lookups"); if (edge || wh < 5) ev("lookups at nodes and edges"); if (edge && (cart || via == 2)) continue;   // keywords of a FITS file have 15 digits
    if (out) { ev("lookups outside"); CHECK("emission outside the grid", I == 0, "%g %s", I, w.c_str()); continue; }
    Ax ar = ax(ra, Rp); std::vector<Ax> ap; double x = modp(phi - Om * t - p0, tpi), span = p1 - p0;
    if (n[1] == 1) ap.push_back({0, 0, 0}); else { if (rep > 1) x = modp(x, span / rep);
      double at = x + p0; if (at <= pn.back() + 1e-12) ap.push_back(ax(pn, at)); if (at >= pn.back() - 1e-12 && rep == 1 && span < tpi) ap.push_back({n[1] - 1, 0, (at - pn.back()) / (p0 + tpi - pn.back())});
      if (x < 1e-9) { if (rep > 1 || span >= tpi - 1e-9) ap.push_back({n[1] - 1, n[1] - 1, 0}); else ap.push_back({0, 0, 0}); }
      if (x > (rep > 1 ? span / rep : tpi) - 1e-9) ap.push_back({0, 0, 0}); }
    if (ap.empty()) continue;
    auto bil = [&](const double *d, const Ax &A) { double lo = d[A.a * n[2] + ar.a] * (1 - A.w) + d[A.b * n[2] + ar.a] * A.w, hi = d[A.a * n[2] + ar.b] * (1 - A.w) + d[A.b * n[2] + ar.b] * A.w; return lo * (1 - ar.w) + hi * ar.w; };
    // opacity belongs to the cell: one of its corners (neighbouring cells at the nodes)
    std::set<double> ops; if (hasOp) for (auto &A : ap) for (size_t p : {A.a, A.b}) { for (long k = -1; k <= 1; ++k) for (long m = -1; m <= 1; ++m) { bool nodeR = ar.w < 1e-9 || ar.w > 1 - 1e-9, nodeP = A.w < 1e-9 || A.w > 1 - 1e-9; if ((m && !nodeR) || (k && !nodeP)) continue; for (size_t q : {ar.a, ar.b}) { long Q = long(q) + m, P = (long(p) + k + long(n[1])) % long(n[1]); if (Q >= 0 && Q < long(n[2])) ops.insert(op[P * n[2] + Q]); } } }
    bool okI = false, okT = !hasOp; std::string got; for (auto &A : ap) { double b = bil(e.data(), A); if (!hasOp) okI |= close(I, b, 1e-9, 1e-9); else for (double k : ops) okI |= close(I, b * (1 - exp(-k * .7)), 1e-9, 1e-9); got += fmt(" %.12g", b); } for (double k : ops) okT |= close(T, exp(-k * .7), 1e-9);
    CHECK("emission inside the grid", okI, "%.12g instead of%s%s %s", I, got.c_str(), hasOp ? " times an opacity" : "", w.c_str());
    CHECK("opacity inside the grid", okT, "%.12g %s", T, w.c_str()); if (!hasOp) CHECK("opaque disk", T == 0, "%g", T);
    if (hasV) { double u[4]; o->getVelocity(co, u); bool ok = false; for (auto &A : ap) { double rp = bil(v.data(), A), pp = bil(v.data() + N, A); ok |= close(u[1], rp * u[0], 1e-8, 1e-10) && close(u[3], pp * u[0], 1e-8, 1e-10) && u[2] == 0; } CHECK("velocity inside the grid", ok, "%g %g %g %g %s", u[0], u[1], u[2], u[3], w.c_str()); CHECK_CLOSE("velocity is unit timelike", g->ScalarProd(co, u, u), -1, 1e-6, 0, w); ev("velocities looked up"); } }
  distinct("grids", fmt("P%zu %zu %zu %d%d%d%d %d", n[1], n[2], rep, hasOp, hasV, hasR, via, Om != 0)); }

struct D3 : Gyoto::Astrobj::Disk3D { using Disk3D::getIndices; };
static void disk3d(Rng &r) { using Gyoto::Astrobj::Disk3D;
  Gyoto::SmartPointer<D3> o = new D3(); MetricP g = mkMetric("KerrBL"); o->metric(g); size_t n[4] = {size_t(r.i(1, 3)), size_t(r.i(2, 6)), size_t(r.i(2, 5)), size_t(r.i(2, 6))}, N = n[1] * n[2] * n[3]; size_t rep = r.p(.5) ? 1 : r.i(2, 3);
  double rin = r.u(6, 9), rout = rin + r.u(2, 20), z1 = r.u(1, 4), z0 = r.p(.5) ? 0. : -z1, p0 = 0, p1 = tpi; if (rep == 1 && r.p(.5)) { p0 = r.u(0, 1.5); p1 = r.u(p0 + 1, tpi); } double Om = r.p(.5) ? 0 : r.u(-.2, .2), t0 = r.u(-50, 50), nu0 = 1e13, dnu = 2e12;
  std::vector<double> e = rnd(r, n[0] * N, 0, 9), op = rnd(r, n[0] * N, 0, 1), v = rnd(r, 3 * N, -.01, .02); int order = r.i(0, 1);
  auto desc = [&](Disk3D *d) { if (order) { d->rin(rin); d->rout(rout); d->zmin(z0); d->zmax(z1); d->phimin(p0); d->phimax(p1); d->repeatPhi(rep); } else { d->repeatPhi(rep); d->phimax(p1); d->phimin(p0); d->zmax(z1); d->zmin(z0); d->rout(rout); d->rin(rin); } d->nu0(nu0); d->dnu(dnu); };
  bool after = r.p(.4); if (!after) desc(raw(o)); o->copyEmissquant(e.data(), n); if (r.p(.5)) o->copyOpacity(op.data(), n); o->copyVelocity(v.data(), n + 1); if (after) desc(raw(o));
  D3 *q = raw(o); Gyoto::SmartPointer<D3> o2; if (r.p(.5)) { std::string f = dir + fmt("/d%ld.fits", S().ncase); o->fitsWrite("!" + f); o2 = new D3(); o2->metric(g); o2->fitsRead(f); unlink(f.c_str()); std::string d = dumpDiff(dump(raw(o)), dump(raw(o2))); q = raw(o2); ev("FITS round trips");
    CHECK("FITS round trip: Disk3D", d.empty(), "%s", d.c_str()); CHECK("FITS round trip of the grid: Disk3D", close(q->rin(), rin, 1e-12) && close(q->rout(), rout, 1e-12) && close(q->zmin(), z0, 1e-12) && close(q->zmax(), z1, 1e-12) && close(q->phimin(), p0, 1e-12, 1e-12) && close(q->phimax(), p1, 1e-12) && q->repeatPhi() == rep && close(q->nu0(), nu0, 1e-12) && close(q->dnu(), dnu, 1e-12), "%g %g %g %g %g %g %zu", q->rin(), q->rout(), q->zmin(), q->zmax(), q->phimin(), q->phimax(), q->repeatPhi()); }
  q->omegaPattern(Om); q->tPattern(t0); ev("Disk3D");
  for (int k = 0; k < 60; ++k) { double R = r.p(.15) ? rin : r.p(.15) ? rout : r.u(rin, rout), Z = r.p(.15) ? z1 : r.u(z0 == 0. ? -z1 : z0, z1), t = r.u(-100, 100); int wh; double phi = phiOf(r, p0, p1, n[1], wh), nu = r.u(.5 * nu0, nu0 + dnu * n[0] * 1.5);
    // a point of the disk, kept from leaving it by the rounding of its own coordinates
    R = std::min(std::max(R, rin * (1 + 1e-12)), rout * (1 - 1e-12)); Z = std::min(std::max(Z, (z0 == 0. ? -z1 : z0) * (1 - 1e-12)), z1 * (1 - 1e-12));
    double co[4] = {t, hypot(R, Z), acos(Z / hypot(R, Z)), phi}; size_t i[4]; q->getIndices(i, co, nu); double u[4]; q->getVelocity(co, u); ev("lookups"); if (wh < 5) ev("lookups at nodes and edges");
    double xr = (R - rin) / (rout - rin) * (n[3] - 1), Za = z0 == 0. ? fabs(Z) : Z, xz = (Za - z0) / (z1 - z0) * (n[2] - 1), xn = (nu - nu0) / dnu; double x = modp(phi - Om * (t - t0), tpi), span = (p1 - p0) / rep, xp;
    std::set<size_t> P; bool in = x >= p0 - 1e-9 && x <= p1 + 1e-9; if (in) { xp = modp(x - p0, span) / span * (n[1] - 1); for (double d : {-1e-6, 1e-6}) { long m = floor(xp + .5 + d); P.insert(std::min(std::max(m, 0l), long(n[1]) - 1)); } if (xp < 1e-6 || xp > n[1] - 1 - 1e-6) { P.insert(0); P.insert(n[1] - 1); } } if (!in || x < 1e-9 || x > tpi - 1e-9) { P.insert(0); P.insert(n[1] - 1); }
    auto nearest = [](double y, size_t m, size_t j) { return j < m && (fabs(y - double(j)) <= .5 + 1e-6 || (j == 0 && y < 0) || (j == m - 1 && y > j)); };
    CHECK("nearest cell of Disk3D", P.count(i[1]) && nearest(xz, n[2], i[2]) && nearest(xr, n[3], i[3]) && nearest(xn, n[0], i[0]), "cell %zu %zu %zu %zu for nu %.9g phi %.9g z %.9g r %.9g (phi=%.12g in [%g,%g]/%zu)", i[0], i[1], i[2], i[3], xn, x, xz, xr, phi, p0, p1, rep);
    bool ok = false; double rs = co[1]; for (size_t p : P) for (size_t z = 0; z < n[2]; ++z) for (size_t m = 0; m < n[3]; ++m) if (nearest(xz, n[2], z) && nearest(xr, n[3], m)) { const double *w = &v[((m * n[2] + z) * n[1] + p) * 3]; double vr = (R * w[2] + Z * w[1]) / rs, vt = (vr * cos(co[2]) - w[1]) / (rs * sin(co[2])); ok |= close(u[3] / u[0], w[0], 1e-8, 1e-10) && close(u[1] / u[0], vr, 1e-8, 1e-10) && close(u[2] / u[0], vt, 1e-8, 1e-10); }
    CHECK("velocity of Disk3D", ok, "%g %g %g %g", u[0], u[1], u[2], u[3]); ev("velocities looked up"); }
  distinct("grids", fmt("D%zu %zu %zu %zu %zu", n[0], n[1], n[2], n[3], rep)); }

struct DD : Gyoto::Astrobj::DirectionalDisk { using DirectionalDisk::emission; };
static void directional(Rng &r) {
  AstrobjP a = mkAstrobj("DirectionalDisk"), b = mkAstrobj("DirectionalDisk"); auto *w = dynamic_cast<Gyoto::Astrobj::DirectionalDisk *>(raw(a)), *o = dynamic_cast<Gyoto::Astrobj::DirectionalDisk *>(raw(b));
  Gyoto::SmartPointer<Gyoto::Metric::KerrBL> g = new Gyoto::Metric::KerrBL(); double spin = r.u(0, .9); g->spin(spin); MetricP gm(g); a->metric(gm); b->metric(gm);
  size_t n[3] = {size_t(r.i(2, 6)), size_t(r.i(2, 6)), size_t(r.i(2, 7))}; std::vector<double> e = rnd(r, n[0] * n[1] * n[2], 0, 9), f = asc(r, n[0], 1e17, 1e17), c = asc(r, n[1], .05, .9 / n[1]), ra = asc(r, n[2], 7, 2), fd(f.rbegin(), f.rend()); if (c.back() > .98) for (auto &x : c) x *= .95 / c.back();
  w->copyIntensity(e.data(), n); w->copyGridFreq(fd.data(), n[0]); w->copyGridCosi(c.data(), n[1]); w->copyGridRadius(ra.data(), n[2]);
  std::string fn = dir + fmt("/a%ld.fits", S().ncase); w->fitsWrite("!" + fn); o->fitsRead(fn); unlink(fn.c_str()); std::string d = dumpDiff(dump(raw(a)), dump(raw(b))); CHECK("FITS round trip: DirectionalDisk", d.empty(), "%s", d.c_str()); ev("FITS round trips"); ev("DirectionalDisk");
  bool avg = r.p(.4); o->averageOverAngle(avg); double h = r.u(3, 20); o->lampaltitude(h); double lo = f.front() * 1.4, hi = f.back() / 1.4; if (lo > .5 * hi) { lo = f.front() * 1.2; hi = std::max(lo * 1.01, f.back() / 1.2); } std::vector<double> cut = {lo / GYOTO_eV2Hz, hi / GYOTO_eV2Hz}; o->lampcutoffsinev(cut);
  for (int k = 0; k < 50; ++k) { double R = radOf(r, ra), nu = r.p(.2) ? r.pick(f) : r.u(f.front() * .9, f.back() * 1.1); double co[8] = {0, R, M_PI / 2, r.u(0, tpi)}; if (R < 6.5) continue; g->circularVelocity(co, co + 4); Gyoto::state_t cp(co, co + 8);
    // a photon leaving at a chosen angle in the frame of the emitter
    double ci = r.p(.2) ? r.pick(c) : r.u(0, 1), si = sqrt(1 - ci * ci), psi = r.u(0, tpi); double gth = g->gmunu(co, 2, 2), er[4] = {0, 1 / sqrt(g->gmunu(co, 1, 1)), 0, 0}; double ep[4] = {0, 0, 0, 1}, up = g->ScalarProd(co, ep, co + 4); for (int m = 0; m < 4; ++m) ep[m] += up * co[4 + m]; double nn = sqrt(g->ScalarProd(co, ep, ep)); for (auto &x : ep) x /= nn;
    for (int m = 0; m < 4; ++m) cp[4 + m] = co[4 + m] + si * cos(psi) * er[m] + si * sin(psi) * ep[m]; cp[6] += -ci / sqrt(gth) * r.sgn();
    double zz = h, gl = (pow(R, 1.5) + spin) / sqrt(R * R * R + 2 * spin * pow(R, 1.5) - 3 * R * R) * sqrt((zz * zz + spin * spin - 2 * zz) / (zz * zz + spin * spin)), mn = lo * gl, mx = hi * gl; double I;
    if (mn < f.front() || mx > f.back()) { try { o->emission(nu, 1, cp, co); } catch (Gyoto::Error &) { ev("refused bands"); } continue; }
    I = o->emission(nu, 1, cp, co); ev("lookups"); std::string at = fmt("nu=%.9g r=%.9g cosi=%.9g n=%zux%zux%zu avg=%d", nu, R, ci, n[0], n[1], n[2], int(avg));
    if (fabs(nu - mn) < 1e-6 * mn || fabs(nu - mx) < 1e-6 * mx) continue; if (nu < mn || nu > mx || R <= ra.front() || R >= ra.back() || nu <= f.front() || nu >= f.back()) { CHECK("emission of DirectionalDisk outside its data", I == 0, "%g %s", I, at.c_str()); ev("lookups outside"); continue; }
    Ax A = ax(ra, R), F = ax(f, nu), C = ci <= c.front() ? Ax{0, 0, 0} : ci >= c.back() ? Ax{n[1] - 1, n[1] - 1, 0} : ax(c, ci);
    auto E = [&](size_t m, size_t j, size_t q) { return e[q * n[1] * n[0] + j * n[0] + (n[0] - 1 - m)]; }; auto rf = [&](size_t j) { return (E(F.a, j, A.a) * (1 - F.w) + E(F.b, j, A.a) * F.w) * (1 - A.w) + (E(F.a, j, A.b) * (1 - F.w) + E(F.b, j, A.b) * F.w) * A.w; };
    double X; if (!avg) X = rf(C.a) * (1 - C.w) + rf(C.b) * C.w; else { double s = 0; for (size_t j = 0; j + 1 < n[1]; ++j) s += .5 * (c[j + 1] - c[j]) * (rf(j) + rf(j + 1)); X = s / (c.back() - c.front()); }
    ev("lookups inside"); CHECK_CLOSE("emission of DirectionalDisk", I, X, 1e-7, 1e-7, at); }
  distinct("grids", fmt("A%zu %zu %zu %d", n[0], n[1], n[2], avg)); }

struct G2 : Gyoto::GridData2D { };
static void grid2d(Rng &r) { G2 g; size_t nr = r.i(2, 6), np = r.i(2, 7), nt = r.p(.2) ? 1 : r.i(2, 6); double r0 = r.u(2, 6), r1 = r0 + r.u(1, 20), p0 = r.p(.5) ? 0 : r.u(0, .5), p1 = r.p(.2) ? tpi : r.p(.5) ? p0 + tpi * (np - 1.) / np : r.u(p0 + 1, tpi); if (p1 > tpi) p1 = tpi; double t0 = r.u(-200, 100), t1 = t0 + r.u(10, 200);
  std::vector<double> ts = nt > 1 ? lin(t0, t1, nt) : std::vector<double>(1, t0); bool arr = nt > 1 && r.p(.5); if (arr) { ts = asc(r, nt, t0, 30); t1 = ts.back(); } if (nt == 1) t1 = t0;
  bool first = r.p(.5); auto sz = [&] { g.nr(nr); g.nphi(np); g.nt(nt); }; if (first) sz(); g.rmin(r0); g.rmax(r1); g.phimin(p0); g.phimax(p1); g.tmin(t0); g.tmax(t1); if (!first) { sz(); g.rmin(r0); g.phimin(p0); g.tmin(t0); g.rmax(r1); g.phimax(p1); g.tmax(t1); }
  std::vector<double> d = rnd(r, nr * np * nt, 0, 9), rn = lin(r0, r1, nr), pn = lin(p0, p1, np); ev("GridData2D");
  for (int k = 0; k < 80; ++k) { double R = r.p(.2) ? r.pick(rn) : r.p(.1) ? r1 : r.u(r0, r1), t = r.p(.2) ? r.pick(ts) : r.p(.1) ? t1 : r.u(t0 - 50, t1 + 50); R = std::min(R, r1); int wh; double phi = phiOf(r, p0, p1, np, wh); if (phi < 0 || phi > tpi) phi = modp(phi, tpi);
    double X = g.interpolate(t, phi, R, d.data(), arr ? ts.data() : NULL); ev("lookups"); if (wh < 5) ev("lookups at nodes and edges");
    Ax A = ax(rn, R), P, T; if (phi >= p0 && phi <= p1) P = ax(pn, phi); else { double x = phi < p0 ? phi + tpi : phi; P = {np - 1, 0, (x - p1) / (p0 + tpi - p1)}; } T = nt == 1 || t <= t0 ? Ax{0, 0, 0} : t >= t1 ? Ax{nt - 1, nt - 1, 0} : ax(ts, t);
    auto D = [&](size_t q, size_t j, size_t m) { return d[(q * np + j) * nr + m]; }; auto bi = [&](size_t q) { return (D(q, P.a, A.a) * (1 - P.w) + D(q, P.b, A.a) * P.w) * (1 - A.w) + (D(q, P.a, A.b) * (1 - P.w) + D(q, P.b, A.b) * P.w) * A.w; };
    CHECK_CLOSE("interpolation in GridData2D", X, bi(T.a) * (1 - T.w) + bi(T.b) * T.w, 1e-9, 1e-9, fmt("t=%.9g in [%g,%g] phi=%.12g in [%g,%g] r=%.12g in [%g,%g] n=%zux%zux%zu %s", t, t0, t1, phi, p0, p1, R, r0, r1, nt, np, nr, arr ? "array of dates" : "regular dates")); }
  distinct("grids", fmt("G%zu %zu %zu %d", nr, np, nt, arr)); }

/// the objects built on GridData2D: file written by the library itself, read back, time shift, ray tracing
static void gridobj(Rng &r, const std::string &kind) { using namespace Gyoto::Astrobj;
  AstrobjP a = mkAstrobj(kind), b = mkAstrobj(kind); giveGrids(raw(a), r); std::string f = dir + fmt("/g%ld.fits", S().ncase); Gyoto::GridData2D *ga = dynamic_cast<Gyoto::GridData2D *>(raw(a)), *gb = dynamic_cast<Gyoto::GridData2D *>(raw(b)); Dump A = dump(raw(a));
  fitsfile *fp = ga->fitsCreate("!" + f); size_t N = ga->nr() * ga->nphi() * ga->nt(); std::vector<double> zero(2 * N, .01); if (!A.count("velocity")) A["velocity"] = std::make_pair((const double *) zero.data(), zero);
  ga->fitsWriteHDU(fp, "VELOCITY", A["velocity"].second.data(), 2); if (A.count("intensity")) ga->fitsWriteHDU(fp, "INTENSITY", A["intensity"].second.data()); if (A.count("density")) ga->fitsWriteHDU(fp, "DENSITY", A["density"].second.data()); if (A.count("Bvector")) ga->fitsWriteHDU(fp, "BVECTOR", A["Bvector"].second.data(), 4); ga->fitsWriteHDU(fp, "TIMEARRAY", A["times"].second.data()); ga->fitsClose(fp);
  double shift = 0; auto tr = [&](double s) { if (auto *o = dynamic_cast<ThinDiskGridIntensity *>(raw(b))) o->timeTranslation_inMunit(s); else dynamic_cast<FlaredDiskSynchrotron *>(raw(b))->timeTranslation_inMunit(s); };
  b->set("File", Gyoto::Value(f)); for (int k = r.i(0, 2); k; --k) tr(shift = r.u(-50, 50)); unlink(f.c_str()); Dump B = dump(raw(b)); ev("FITS round trips"); ev(kind);
  for (auto &p : B) { auto &x = p.second.second; auto &y = A[p.first].second; bool ok = x.size() == y.size(); double s = p.first == "times" ? shift : 0; for (size_t i = 0; ok && i < x.size(); ++i) ok = close(x[i], y[i] + s, 1e-9, 1e-9); CHECK("FITS round trip: " + kind, ok, "%s (shift %g)", p.first.c_str(), shift); }
  CHECK("FITS round trip of the grid: " + kind, gb->nr() == ga->nr() && gb->nphi() == ga->nphi() && gb->nt() == ga->nt() && close(gb->rmin(), ga->rmin(), 1e-12) && close(gb->rmax(), ga->rmax(), 1e-12) && close(gb->phimin(), ga->phimin(), 1e-12) && close(gb->phimax(), ga->phimax(), 1e-12) && close(gb->tmin(), ga->tmin() + shift, 1e-9, 1e-9) && close(gb->tmax(), ga->tmax() + shift, 1e-9, 1e-9), "r %g..%g phi %g..%g t %g..%g, t expected %g..%g", gb->rmin(), gb->rmax(), gb->phimin(), gb->phimax(), gb->tmin(), gb->tmax(), ga->tmin() + shift, ga->tmax() + shift);
  if (auto *o = dynamic_cast<ThinDiskGridIntensity *>(raw(b))) { MetricP g = mkMetric("KerrBL"); b->metric(g); auto &d = B["intensity"].second; auto &ts = B["times"].second; size_t nr = gb->nr(), np = gb->nphi(), nt = gb->nt(); std::vector<double> rn = lin(gb->rmin(), gb->rmax(), nr), pn = lin(gb->phimin(), gb->phimax(), np);
    for (int k = 0; k < 30; ++k) { double R = r.u(gb->rmin() * .8, gb->rmax() * 1.2), phi = r.u(0, tpi), t = r.u(ts.front() - 50, ts.back() + 50); double co[8] = {t, R, M_PI / 2, phi, 1, 0, 0, 0}; Gyoto::state_t cp(co, co + 8); double I = o->emission(1e14, 1, cp, co); ev("lookups");
      if (R < gb->rmin() || R > gb->rmax()) { CHECK("emission outside the grid: " + kind, I == 0, "%g", I); ev("lookups outside"); continue; }
      Ax X = ax(rn, R), P = phi <= pn.back() ? ax(pn, phi) : Ax{np - 1, 0, (phi - pn.back()) / (pn[0] + tpi - pn.back())}, T = t <= ts.front() ? Ax{0, 0, 0} : t >= ts.back() ? Ax{nt - 1, nt - 1, 0} : ax(ts, t);
      auto D = [&](size_t q, size_t j, size_t m) { return d[(q * np + j) * nr + m]; }; auto bi = [&](size_t q) { return (D(q, P.a, X.a) * (1 - P.w) + D(q, P.b, X.a) * P.w) * (1 - X.w) + (D(q, P.a, X.b) * (1 - P.w) + D(q, P.b, X.b) * P.w) * X.w; };
      CHECK_CLOSE("emission inside the grid: " + kind, I, bi(T.a) * (1 - T.w) + bi(T.b) * T.w, 1e-9, 1e-9, fmt("t=%g phi=%g r=%g", t, phi, R)); } }
  distinct("grids", fmt("%s%zu %zu %zu", kind.c_str(), ga->nr(), ga->nphi(), ga->nt())); }

/// ray tracing through grids: no access may leave the arrays, every pixel must be computed
static void rays(Rng &r, const std::string &kind) {
  SceneryP sc = scenery(hdr() + "<Scenery><Metric kind=\"KerrBL\"><Spin>0.5</Spin></Metric><Screen><Time unit=\"geometrical_time\">1000</Time><Distance unit=\"geometrical\">300</Distance><FieldOfView>0.15</FieldOfView><Inclination>" + num(r.u(.2, 1.4)) + "</Inclination><PALN>" + num(r.u(0, 6)) + "</PALN><Argument>" + num(r.u(0, 6)) + "</Argument><Resolution>8</Resolution><Spectrometer kind=\"freqlog\" nsamples=\"2\">13 14</Spectrometer></Screen><Astrobj kind=\"PageThorneDisk\"/><NThreads>0</NThreads></Scenery>");
  AstrobjP a = mkAstrobj(kind); if (!giveGrids(raw(a), r)) return; if (auto *o = dynamic_cast<Gyoto::Astrobj::PatternDisk *>(raw(a))) { size_t n[3] = {1, size_t(r.i(1, 6)), size_t(r.i(2, 7))}; std::vector<double> e = rnd(r, n[0] * n[1] * n[2], 0, 9), v = rnd(r, 2 * n[1] * n[2], .01, .03); o->copyVelocity(NULL, NULL); o->copyOpacity(NULL, NULL); o->copyIntensity(e.data(), n); if (r.p(.5)) o->copyVelocity(v.data(), n + 1); o->repeatPhi(r.i(1, 3)); o->patternVelocity(r.u(-.1, .1)); }
  if (dynamic_cast<Gyoto::Astrobj::Disk3D *>(raw(a))) return; MetricP g = sc->metric(); a->metric(g); sc->astrobj(a); a->rMax(50.); sc->delta(1.); std::string q = kind == "PatternDisk" || kind == "ThinDiskGridIntensity" ? "Intensity" : "Spectrum"; sc->requestedQuantitiesString(kind == "ThinDiskGridIntensity" ? "Intensity Redshift" : "Spectrum");
  long np = sc->screen()->resolution(); std::vector<double> I(np * np, -1), Sp(np * np * 2, -1); Gyoto::Astrobj::Properties data; if (kind == "ThinDiskGridIntensity") data.intensity = I.data(); else { data.spectrum = Sp.data(); data.offset = np * np; } data.alloc = true; Gyoto::Screen::Range X(1, np, 1), Y(1, np, 1); Gyoto::Screen::Grid grid(X, Y, "\rj = ");
  sc->rayTrace(grid, &data); auto &v = kind == "ThinDiskGridIntensity" ? I : Sp; long hit = 0; for (double x : v) { CHECK("pixel of a gridded disk", std::isfinite(x) && x >= 0, "%g", x); hit += x > 0; } ev("pixels ray-traced", np * np); ev("pixels with emission", hit); }

int main(int argc, char **argv) { init(argc, argv); dir = fmt("/tmp/vgrid.%d", int(getpid())); mkdir(dir.c_str(), 0700); int K = S().thorough ? 40 : 6;
  struct Case { std::string n; std::function<void(Rng &)> f; int w; };
  std::vector<Case> cs = {{"PatternDisk", [](Rng &r) { pattern(r, "PatternDisk"); }, 30}, {"PatternDiskBB", [](Rng &r) { pattern(r, "PatternDiskBB"); }, 3}, {"Disk3D", disk3d, 15}, {"DirectionalDisk", directional, 12}, {"GridData2D", grid2d, 20}, {"ThinDiskGridIntensity", [](Rng &r) { gridobj(r, "ThinDiskGridIntensity"); }, 6}, {"FlaredDiskSynchrotron", [](Rng &r) { gridobj(r, "FlaredDiskSynchrotron"); }, 4},
    {"rays PatternDisk", [](Rng &r) { rays(r, "PatternDisk"); }, 2}, {"rays ThinDiskGridIntensity", [](Rng &r) { rays(r, "ThinDiskGridIntensity"); }, 2}, {"rays FlaredDiskSynchrotron", [](Rng &r) { rays(r, "FlaredDiskSynchrotron"); }, 1}};
  for (auto &c : cs) for (int k = 0; k < c.w * K; ++k) { if (!mine()) continue; Rng r = caseRng(19); guard(c.n, [&] { c.f(r); }); }
  rmdir(dir.c_str()); return done(); }
