// C13: the screen. Oracle: rotations composed from their definition, flat
// geometry, orthonormality in the metric's own tensor, models of pixel sets.
#include "reflect.h"
#include "metrics.h"
#include <GyotoScreen.h>
using namespace V; using namespace Gyoto;
typedef double V3[3]; typedef double M33[3][3];
static void rotz(double a, M33 m) { double c = cos(a), s = sin(a); double t[3][3] = {{c, -s, 0}, {s, c, 0}, {0, 0, 1}}; memcpy(m, t, sizeof t); }
static void rotx(double a, M33 m) { double c = cos(a), s = sin(a); double t[3][3] = {{1, 0, 0}, {0, c, -s}, {0, s, c}}; memcpy(m, t, sizeof t); }
static void roty(double a, M33 m) { double c = cos(a), s = sin(a); double t[3][3] = {{c, 0, s}, {0, 1, 0}, {-s, 0, c}}; memcpy(m, t, sizeof t); }
static void mm(const M33 a, const M33 b, M33 o) { M33 t; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { t[i][j] = 0; for (int k = 0; k < 3; ++k) t[i][j] += a[i][k] * b[k][j]; } memcpy(o, t, sizeof(M33)); }
static void mv(const M33 a, const V3 v, V3 o) { V3 t; for (int i = 0; i < 3; ++i) t[i] = a[i][0] * v[0] + a[i][1] * v[1] + a[i][2] * v[2]; memcpy(o, t, sizeof t); }
static void tv(const M33 a, const V3 v, V3 o) { V3 t; for (int i = 0; i < 3; ++i) t[i] = a[0][i] * v[0] + a[1][i] * v[1] + a[2][i] * v[2]; memcpy(o, t, sizeof t); }
/// object -> sky (East, North, away): z-x-z rotations by argument, inclination, position angle
static void skyMatrix(double paln, double incl, double arg, M33 R) { M33 a, b; rotz(arg, a); rotx(incl, b); mm(b, a, R); rotz(paln, a); mm(a, R, R); }
static void sphToXyz(const double *p, V3 x) { x[0] = p[0] * sin(p[1]) * cos(p[2]); x[1] = p[0] * sin(p[1]) * sin(p[2]); x[2] = p[0] * cos(p[1]); }
static void sphVel(const double *p, const double *v, V3 o) { double r = p[0], st = sin(p[1]), ct = cos(p[1]), sp = sin(p[2]), cp = cos(p[2]);
  double er[3] = {st * cp, st * sp, ct}, et[3] = {ct * cp, ct * sp, -st}, ep[3] = {-sp, cp, 0}; for (int i = 0; i < 3; ++i) o[i] = v[0] * er[i] + r * v[1] * et[i] + r * st * v[2] * ep[i]; }
struct Cam { double paln, incl, arg, dist, fov, azfov, d1, d2, t, dmax; size_t n; std::string ak; };
static Cam randCam(Rng &r, bool far) { Cam c; c.paln = r.u(-4, 4); c.incl = r.p(.1) ? M_PI / 2 : r.u(.05, M_PI - .05); c.arg = r.u(-4, 4); c.n = r.i(2, 65); c.t = r.u(-1e3, 1e3);
  c.ak = r.pick(strs{"EquatorialAngles", "EquatorialAngles", "Rectilinear", "SphericalAngles"}); c.dmax = 1e7;
  if (far) { c.dmax = r.p(.5) ? 1e7 : r.lu(1e3, 1e6); c.dist = c.dmax * r.lu(1.1, 1e9); } else c.dist = r.lu(100, 5e6);
  c.fov = (far || r.p(.5)) ? r.u(.1, 30) / c.dist : r.lu(1e-4, 1.5); c.azfov = r.u(.1, 2 * M_PI); c.d1 = c.d2 = 0;
  if (r.p(.4)) { double k = far ? 5 / c.dist : r.p(.5) ? .5 : 5 / c.dist; c.d1 = r.u(-k, k); c.d2 = c.ak == "SphericalAngles" ? r.u(-1, 1) : r.u(-k, k); }
  return c; }
static ScreenP mkScreen(const Cam &c, MetricP gg) { ScreenP s(new Screen()); s->metric(gg); s->distance(c.dist, "geometrical"); s->dMax(c.dmax); s->inclination(c.incl); s->PALN(c.paln); s->argument(c.arg);
  s->fieldOfView(c.fov); s->azimuthalFieldOfView(c.azfov); s->resolution(c.n); s->anglekind(c.ak); s->dangle1(c.d1); s->dangle2(c.d2); s->time(c.t, "geometrical_time"); return s; }
/// angles of pixel (i, j)
static void pixAngles(const Cam &c, double i, double j, double &x, double &y) {
  if (c.ak == "SphericalAngles") { x = .5 * c.fov * (i - 1) / (c.n - 1); y = M_PI - c.azfov * (j - 1) / (c.n - 1); return; }
  double st = c.ak == "Rectilinear" ? 2 * tan(.5 * c.fov) / c.n : c.fov / c.n; x = -st * (i - .5 * (c.n + 1)); y = st * (j - .5 * (c.n + 1)); }
/// unit vector looked at, in the frame (East, North, forward) of the camera
static void lookAt(const Cam &c, double x, double y, V3 d) {
  double k = c.dist > c.dmax ? c.dist / c.dmax : 1, d1 = c.d1 * k, d2 = c.d2; x *= k;
  if (c.ak == "SphericalAngles") { double a = x + d1, b = y + d2; d[0] = sin(a) * cos(b); d[1] = sin(a) * sin(b); d[2] = cos(a); return; }
  y *= k; d2 *= k;
  if (c.ak == "Rectilinear") { double q = 1 / sqrt(1 + x * x + y * y); d[0] = x * q; d[1] = y * q; d[2] = q; }
  else { d[0] = cos(y) * sin(x); d[1] = sin(y); d[2] = cos(y) * cos(x); }
  M33 m; roty(d1, m); mv(m, d, d); rotx(d2, m); mv(m, d, d); }
static obskind_t kindOf(const std::string &o) { return o == "KeplerianObserver" ? GYOTO_OBSKIND_KEPLERIAN : o == "ZAMO" ? GYOTO_OBSKIND_ZAMO : o == "VelocitySpecified" ? GYOTO_OBSKIND_VELOCITYSPECIFIED : GYOTO_OBSKIND_FULLYSPECIFIED; }
static double gdot(MetricP gg, const double *x, const double *u, const double *v) { double s = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) s += gg->gmunu(x, i, j) * u[i] * v[j]; return s; }
static std::string desc(const Cam &c) { return fmt("%s n=%zu fov=%g d=%g dmax=%g paln=%g incl=%g arg=%g d1=%g d2=%g", c.ak.c_str(), c.n, c.fov, c.dist, c.dmax, c.paln, c.incl, c.arg, c.d1, c.d2); }
/// direction and position of a ray in flat-like Cartesian space
static void flat(MetricP gg, const double *q, V3 x, V3 v) { if (gg->coordKind() == GYOTO_COORDKIND_SPHERICAL) { sphToXyz(q + 1, x); sphVel(q + 1, q + 5, v); } else { memcpy(x, q + 1, 24); memcpy(v, q + 5, 24); } }
static void checkRays(const std::string &K, ScreenP s, const Cam &c, MetricP gg, const std::string &obs, bool exact, Rng &r, bool polar) {
  M33 R; skyMatrix(c.paln, c.incl, c.arg, R); double dd = std::min(c.dist, c.dmax);
  V3 zs = {0, 0, -dd}, pos; tv(R, zs, pos);
  for (int q = 0; q < 12; ++q) { bool pix = q < 8; double x, y; double u[8], Ep[4], Et[4]; size_t i = r.i(1, c.n), j = r.i(1, c.n);
    if (q == 0) i = j = 1; if (q == 1) { i = c.n; j = 1; } bool sphe = c.ak == "SphericalAngles";
    if (pix) { pixAngles(c, i, j, x, y); s->getRayTriad(i, j, u, polar, Ep, Et); } else { x = sphe ? r.u(0, .5) * c.fov : r.u(-.5, .5) * c.fov; y = sphe ? r.u(0, 6) : r.u(-.5, .5) * c.fov; if (q == 8 && !sphe) x = y = 0; s->getRayTriad(x, y, u, polar, Ep, Et); }
    ev("rays"); V3 d; lookAt(c, x, y, d); std::string W = desc(c) + fmt(pix ? " pixel %zu %zu" : " angles", i, j);
    // observer's event
    CHECK_CLOSE(K + " date", u[0], c.t - (c.dist - dd), 1e-9, 1e-9 * c.dist, W);
    V3 X, vv; flat(gg, u, X, vv); for (int k = 0; k < 3; ++k) CHECK_CLOSE(K + " position", X[k], pos[k], 1e-9, 1e-9 * dd, W);
    double nn = gdot(gg, u, u + 4, u + 4), sc = 0; for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) sc += fabs(gg->gmunu(u, a, b) * u[4 + a] * u[4 + b]);
    CHECK(K + " null", fabs(nn) <= 1e-9 * sc, "%g of %g %s", nn, sc, W.c_str()); CHECK(K + " future-directed", u[4] > 0, "%g", u[4]);
    if (obs == "ObserverAtInfinity") {
      V3 w; tv(R, d, w); double nv = sqrt(vv[0] * vv[0] + vv[1] * vv[1] + vv[2] * vv[2]); double tol = exact ? 1e-9 : 6. / dd + 1e-9;
      // impact parameter matters for tiny angles: compare the direction relative to the line of sight, too
      double off = sqrt(d[0] * d[0] + d[1] * d[1]); V3 los; for (int k = 0; k < 3; ++k) los[k] = -pos[k] / dd; double cl = 0; for (int k = 0; k < 3; ++k) cl += los[k] * -vv[k] / nv;
      for (int k = 0; k < 3; ++k) CHECK(K + " direction", fabs(-vv[k] / nv - w[k]) <= tol * (exact ? 1 : off) + 1e-13 * 10 + (exact ? 0 : 1e-12), "%s component %d: %.12g vs %.12g", W.c_str(), k, -vv[k] / nv, w[k]);
      if (off < .1 && off > 1e-9) for (int k = 0; k < 3; ++k) { double a = -vv[k] / nv - cl * los[k], b = w[k] - d[2] * los[k]; CHECK(K + " offset", fabs(a - b) <= (tol + 1e-6) * off, "%s component %d: %.12g vs %.12g of %g", W.c_str(), k, a, b, off); }
      if (polar) { ev("polar bases"); // orthonormal, transverse, and North/West oriented
        CHECK_CLOSE(K + " polar Ephi norm", gdot(gg, u, Ep, Ep), 1, exact ? 1e-9 : 20 / dd, 0, W); CHECK_CLOSE(K + " polar Etheta norm", gdot(gg, u, Et, Et), 1, exact ? 1e-9 : 20 / dd, 0, W);
        double k0 = fabs(u[4]); double pt = exact ? 1e-8 : 20 / dd; CHECK_CLOSE(K + " polar orthogonal", gdot(gg, u, Ep, Et), 0, 0, pt, W);
        CHECK_CLOSE(K + " polar transverse Ephi", gdot(gg, u, Ep, u + 4) / k0, 0, 0, pt + 1e-9, W); CHECK_CLOSE(K + " polar transverse Etheta", gdot(gg, u, Et, u + 4) / k0, 0, 0, pt + 1e-9, W);
        // on axis: Etheta is the sky's North, Ephi the sky's West
        if (exact && off < 1e-3 && fabs(c.d1) + fabs(c.d2) < 1e-3) { double q8[8]; V3 a, xx; V3 N = {0, 1, 0}, We = {-1, 0, 0}, n3, w3; tv(R, N, n3); tv(R, We, w3); memcpy(q8, u, 32); memcpy(q8 + 4, Et, 32); flat(gg, q8, xx, a);
          for (int k = 0; k < 3; ++k) CHECK_CLOSE(K + " polar North", a[k], n3[k], 0, 3 * off + 1e-8, W); memcpy(q8 + 4, Ep, 32); flat(gg, q8, xx, a); for (int k = 0; k < 3; ++k) CHECK_CLOSE(K + " polar West", a[k], w3[k], 0, 3 * off + 1e-8, W); } }
    } else { double fv[4], e1[4], e2[4], e3[4]; s->getFourVel(fv); s->getScreen1(e1); s->getScreen2(e2); s->getScreen3(e3); gg->observerTetrad(kindOf(obs), u, fv, e1, e2, e3);
      double *e[3] = {e1, e2, e3}; CHECK_CLOSE(K + " energy " + obs, gdot(gg, u, fv, u + 4), -1, 1e-9, 0, W);
      V3 w; memcpy(w, d, sizeof w); if (!sphe) { M33 m; rotz(M_PI - c.paln, m); mv(m, w, w); }
      for (int k = 0; k < 3; ++k) CHECK_CLOSE(K + " direction in tetrad " + obs, -gdot(gg, u, e[k], u + 4), w[k], 1e-9, 1e-9, W); ev("tetrad rays"); } } }
int main(int argc, char **argv) {
  init(argc, argv); int n = S().thorough ? 1600 : 200;
  const strs mets = {"Minkowski", "MinkowskiSph", "KerrBL", "KerrKS", "ReissnerNordstrom", "RezzollaZhidenko", "Hayward", "ChernSimons", "SchwarzschildHarmonic", "KonoplyaRezzollaZhidenko0"};
  for (int k = 0; k < n; ++k) { if (!mine()) continue; Rng r = caseRng();
    guard("camera at infinity", [&] { Met M = makeMet(r.p(.4) ? mets[r.i(0, 1)] : r.pick(mets), r); MetricP gg = M.make(); Cam c = randCam(r, r.p(.35)); bool exact = M.kind == "Minkowski";
      ScreenP s = mkScreen(c, gg); distinct("camera", M.xml + desc(c)); if (k < 3) sample(M.name + " " + desc(c)); if (c.dist > c.dmax) ev("scaled cameras"); ev(c.ak);
      std::string K = exact ? "flat" : "curved"; checkRays(K + " " + c.ak + (M.sph ? " sph" : " cart"), s, c, gg, "ObserverAtInfinity", exact, r, r.p(.5));
      // sky <-> space
      M33 R; skyMatrix(c.paln, c.incl, c.arg, R); double ul = gg->unitLength(); double P[4] = {0, 0, 0, 0}; V3 x; double rr = r.lu(1e-2, 1e4), th = r.u(.01, M_PI - .01), ph = r.u(-3, 3); double p3[3] = {rr, th, ph}; sphToXyz(p3, x);
      if (M.sph) memcpy(P + 1, p3, 24); else memcpy(P + 1, x, 24);
      bool geo = r.p(.5); double sk[3]; s->coordToSky(P, sk, geo); V3 e; mv(R, x, e); for (int q = 0; q < 3; ++q) CHECK_CLOSE("coordToSky", sk[q], e[q] * (geo ? 1 : ul), 1e-10, 1e-10 * rr * (geo ? 1 : ul), desc(c));
      double B[4] = {0, 0, 0, 0}; s->skyToCoord(sk, B, geo); V3 y; if (M.sph) sphToXyz(B + 1, y); else memcpy(y, B + 1, 24); for (int q = 0; q < 3; ++q) CHECK_CLOSE("skyToCoord inverse", y[q], x[q], 1e-9, 1e-9 * rr, desc(c)); ev("sky conversions");
      // the clone and a camera placed by position look the same way
      ScreenP cl(s->clone()); double a8[8], b8[8]; double ax = r.u(-.3, .3) * c.fov, ay = r.u(-.3, .3) * c.fov; s->getRayTriad(ax, ay, a8); cl->getRayTriad(ax, ay, b8); for (int q = 0; q < 8; ++q) CHECK("clone looks elsewhere", a8[q] == b8[q], "%d: %.17g %.17g", q, a8[q], b8[q]);
      double op[4], op2[4]; s->getObserverPos(op); ScreenP pl(new Screen()); pl->metric(gg); pl->setObserverPos(op); pl->getObserverPos(op2); V3 pa, pb; CHECK_CLOSE("position date", op2[0], op[0], 1e-9, 1e-9, "");
      if (M.sph) { sphToXyz(op + 1, pa); sphToXyz(op2 + 1, pb); } else { memcpy(pa, op + 1, 24); memcpy(pb, op2 + 1, 24); } for (int q = 0; q < 3; ++q) CHECK_CLOSE("camera placed by position", pb[q], pa[q], 1e-9, 1e-9 * c.dist, desc(c)); ev("positions"); }); }
  for (int k = 0; k < n; ++k) { if (!mine()) continue; Rng r = caseRng();
    guard("local observer", [&] { Met M = makeMet(r.pick(strs{"KerrBL", "MinkowskiSph", "KerrKS", "KerrBL"}), r); Cam c = randCam(r, false); bool eq = false;
      std::string obs = M.kind == "KerrBL" ? r.pick(strs{"ZAMO", "KeplerianObserver", "VelocitySpecified", "FullySpecified"}) : M.kind == "KerrKS" ? r.pick(strs{"ZAMO", "FullySpecified"}) : r.pick(strs{"ZAMO", "KeplerianObserver", "FullySpecified"});
      if (M.kind != "KerrBL") obs = r.pick(strs{"FullySpecified", "ZAMO"}); if (M.kind == "KerrKS") obs = "FullySpecified";
      c.dist = M.rmin * r.lu(1.6, 100) + 1; if (obs == "KeplerianObserver") { c.incl = M_PI / 2; c.dist = std::max(c.dist, 12.); eq = true; } c.fov = r.u(.1, 1.4); MetricP gg = M.make(); ScreenP s = mkScreen(c, gg); (void) eq;
      s->observerKind(obs); CHECK("observer kind", s->observerKind() == obs, "%s", s->observerKind().c_str());
      double P[4]; s->getObserverPos(P);
      if (obs == "VelocitySpecified") { double v[4] = {1, r.u(-.02, .02), r.u(-.02, .02) / c.dist, r.u(-.02, .02) / c.dist}; double tt = gg->SysPrimeToTdot(P, v + 1); if (!(tt > 0)) return; for (int q = 1; q < 4; ++q) v[q] *= tt; v[0] = tt; s->setFourVel(v); }
      if (obs == "FullySpecified") { // Gram-Schmidt in the metric's tensor
        double e[4][4] = {{1, 0, 0, 0}, {0, r.u(-.3, .3), r.u(-.3, .3), 1}, {0, r.u(-.3, .3), 1, 0}, {0, -1, 0, 0}}; if (M.sph) for (int q = 1; q < 4; ++q) { e[q][2] /= c.dist; e[q][3] /= c.dist; }
        if (gg->gmunu(P, 0, 0) >= -.01) return; bool ok = true;
        for (int a = 0; a < 4; ++a) { for (int b = 0; b < a; ++b) { double s2 = gdot(gg, P, e[a], e[b]) * (b ? 1 : -1); for (int q = 0; q < 4; ++q) e[a][q] -= s2 * e[b][q]; } double n2 = gdot(gg, P, e[a], e[a]) * (a ? 1 : -1); if (!(n2 > 0)) { ok = false; break; } for (int q = 0; q < 4; ++q) e[a][q] /= sqrt(n2); }
        if (!ok) return; s->setFourVel(e[0]); s->setScreen1(e[1]); s->setScreen2(e[2]); s->setScreen3(e[3]); }
      ev("observer " + obs); distinct("local camera", M.xml + obs + desc(c)); checkRays("local", s, c, gg, obs, false, r, false);
      // tetrad used is orthonormal
      double fv[4], e1[4], e2[4], e3[4]; s->getFourVel(fv); s->getScreen1(e1); s->getScreen2(e2); s->getScreen3(e3); gg->observerTetrad(kindOf(obs), P, fv, e1, e2, e3); double *E[4] = {fv, e1, e2, e3};
      if (obs != "FullySpecified") CHECK("tetrad orientation " + obs, e3[1] < 0 && e2[2] < 0 && e1[3] < 0, "%g %g %g", e3[1], e2[2], e1[3]);
      for (int a = 0; a < 4; ++a) for (int b = 0; b <= a; ++b) CHECK_CLOSE("tetrad " + obs + " " + M.kind, gdot(gg, P, E[a], E[b]), a == b ? (a ? 1. : -1.) : 0., 1e-7, 1e-7, fmt("%d%d r=%g", a, b, c.dist)); }); }
  for (int k = 0; k < n / 4; ++k) { if (!mine()) continue; Rng r = caseRng();
    guard("far static observer equals observer at infinity", [&] { Met M = makeMet("KerrBL", r); MetricP gg = M.make(); Cam c = randCam(r, false); c.dist = r.lu(1e5, 5e6); c.fov = r.u(.01, 1); c.d1 = c.d2 = 0; if (c.ak == "SphericalAngles") c.ak = "Rectilinear"; ScreenP s = mkScreen(c, gg), z = mkScreen(c, gg); z->observerKind("ZAMO");
      for (int q = 0; q < 6; ++q) { size_t i = r.i(1, c.n), j = r.i(1, c.n); double a[8], b[8]; s->getRayTriad(i, j, a); z->getRayTriad(i, j, b); V3 x, u, v; flat(gg, a, x, u); flat(gg, b, x, v); for (int t = 0; t < 3; ++t) CHECK_CLOSE("zamo far away", v[t], u[t], 0, 1e-3, desc(c)); ev("far observers"); } }); }
  for (int k = 0; k < n; ++k) { if (!mine()) continue; Rng r = caseRng();
    guard("pixel sets", [&] { ev("pixel sets"); auto walk1 = [&](Screen::Coord1dSet &s, const std::vector<size_t> &px, const std::vector<double> &an, const std::string &K) { size_t N = px.size() + an.size(); for (int rep = 0; rep < 2; ++rep) { size_t q = 0;
          CHECK(K + " size", s.size() == N, "%zu vs %zu", s.size(), N); for (s.begin(); s.valid() && q < N + 5; ++s, ++q) { if (q >= N) break; CHECK(K + " index", s.index() == q, "%zu vs %zu", s.index(), q); if (px.size()) CHECK(K + " value", *s == px[q], "%zu vs %zu at %zu", *s, px[q], q); else CHECK(K + " value", s.angle() == an[q], "at %zu", q); }
          CHECK(K + " count", q == N && !s.valid(), "%zu vs %zu", q, N); ev("sets"); } };
      size_t mi = r.i(1, 30), ma = mi + r.i(0, 40), d = r.i(1, 7); std::vector<size_t> pa, pb; for (size_t x = mi; x <= ma; x += d) pa.push_back(x); Screen::Range ra(mi, ma, d); walk1(ra, pa, {}, "range"); distinct("range", fmt("%zu %zu %zu", mi, ma, d));
      size_t nb = r.i(1, 12); for (size_t q = 0; q < nb; ++q) pb.push_back(r.i(1, 50)); Screen::Indices ib(pb.data(), nb); walk1(ib, pb, {}, "indices");
      std::vector<double> av; for (size_t q = 0; q < nb; ++q) av.push_back(r.u(-1, 1)); Screen::Angles as(av.data(), nb); walk1(as, {}, av, "angles"); std::vector<double> rv(nb, av[0]); Screen::RepeatAngle rp(av[0], nb); walk1(rp, {}, rv, "repeat");
      { Screen::Grid g(ra, ib); size_t q = 0; CHECK("grid size", g.size() == pa.size() * nb, "%zu", g.size()); for (int rep = 0; rep < 2; ++rep) { q = 0; for (g.begin(); g.valid(); ++g, ++q) { auto ij = *g; if (q >= pa.size() * nb) break; CHECK("grid order", ij[0] == pa[q % pa.size()] && ij[1] == pb[q / pa.size()], "%zu: %zu %zu", q, ij[0], ij[1]); } CHECK("grid count", q == pa.size() * nb, "%zu", q); } ev("grids"); }
      { Screen::Bucket b(as, rp); size_t q = 0; CHECK("bucket size", b.size() == nb, "%zu", b.size()); for (b.begin(); b.valid(); ++b, ++q) { auto a = b.angles(); if (q >= nb) break; CHECK("bucket order", a[0] == av[q] && a[1] == rv[q], "%zu", q); } CHECK("bucket count", q == nb, "%zu", q); ev("buckets"); }
      { std::vector<size_t> p2(pb.rbegin(), pb.rend()); Screen::Indices ic(p2.data(), nb); Screen::Bucket b(ib, ic); size_t q = 0; for (b.begin(); b.valid() && q < nb; ++b, ++q) { auto a = *b; CHECK("pixel bucket order", a[0] == pb[q] && a[1] == p2[q], "%zu", q); } }
      ev("checks", 2); try { Screen::Bucket b(ib, as); viol("bucket of mixed kinds accepted", ""); } catch (Gyoto::Error &) {} ev("refusals");
      { std::vector<size_t> p3(nb + 1, 1); Screen::Indices ic(p3.data(), nb + 1); try { Screen::Bucket b(ib, ic); viol("bucket of unequal sizes accepted", ""); } catch (Gyoto::Error &) {} }
      Screen::Empty em; em.begin(); CHECK("empty set", !em.valid() && em.size() == 0, "");
      // mask
      size_t N = r.i(1, 20); std::vector<double> mk(N * N); for (auto &x : mk) x = r.p(.5) ? 0 : r.u(-1, 2); ScreenP s(new Screen()); s->mask(mk.data(), N); CHECK("mask resolution", s->resolution() == N, "%zu", s->resolution());
      std::string dir = fmt("/tmp/verif_mask_%d", int(getpid())); std::string f = dir + ".fits"; unlink(f.c_str()); s->fitsWriteMask(f); ScreenP t(new Screen()); t->fitsReadMask(f); unlink(f.c_str()); CHECK("mask file resolution", t->resolution() == N, "%zu", t->resolution());
      ScreenP u(s->clone()); for (size_t j = 1; j <= N; ++j) for (size_t i = 1; i <= N; ++i) { bool w = mk[i - 1 + N * (j - 1)] != 0; CHECK("mask", (*s)(i, j) == w, "%zu %zu", i, j); CHECK("mask from file", (*t)(i, j) == w, "%zu %zu", i, j); CHECK("mask of clone", (*u)(i, j) == w, "%zu %zu", i, j); } ev("masks");
      for (int q = 0; q < 4; ++q) { size_t i = q == 0 ? 0 : q == 1 ? N + 1 : 1, j = q == 2 ? 0 : q == 3 ? N + 1 : 1; ev("checks"); try { (*s)(i, j); viol("pixel outside the screen accepted", fmt("%zu %zu of %zu", i, j, N)); } catch (Gyoto::Error &) {} }
      s->resolution(N + 3); CHECK("mask dropped with the resolution", s->mask() == NULL && (*s)(N + 3, 1), ""); CHECK("mask of clone kept", u->mask() != NULL && u->resolution() == N, ""); }); }
  return done();
}
