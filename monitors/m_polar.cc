// C12: polarised transport.
// LINK: stdplug
#include "scenes.h"
#include "geo.h"
#include "GyotoPhoton.h"
#include "GyotoFixedStar.h"
#include "GyotoStar.h"
#include "GyotoInflateStar.h"
#include "GyotoFreeStar.h"
#include "GyotoThinDisk.h"
#include "GyotoPageThorneDisk.h"
#include "GyotoTorus.h"
#include "GyotoDeformedTorus.h"
#include "GyotoEquatorialHotSpot.h"
#include "GyotoBlob.h"
#include "GyotoThickDisk.h"
#include "GyotoJet.h"
#include "GyotoPolishDoughnut.h"
#include "GyotoSphericalAccretion.h"
#include "GyotoThinDiskIronLine.h"
#include "GyotoThinDiskPL.h"
using namespace V; using namespace Gyoto; using Eigen::Matrix4d; using Eigen::Vector4d;
namespace {
typedef std::array<double, 16> P16;
typedef std::function<void(const double *, T44)> Tens;
double gdot(T44 g, const double *a, const double *b) { double s = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) s += g[i][j] * a[i] * b[j]; return s; }
void prhs(const Tens &f, const Met &m, const P16 &y, P16 &d) { T44 g; f(&y[0], g); T444 J, G; fdJac(f, m, &y[0], J); for (int p = 0; p < 4; ++p) for (int q = 0; q < 4; ++q) J[0][p][q] = 0; gammaFrom(g, J, G); double k = 1 / y[4];
  for (int i = 0; i < 4; ++i) { d[i] = y[4 + i] * k; for (int w = 1; w < 4; ++w) { double s = 0; for (int p = 0; p < 4; ++p) for (int q = 0; q < 4; ++q) s -= G[i][p][q] * y[4 + p] * y[4 * w + q]; d[4 * w + i] = s * k; } } }
P16 refTransport(const Tens &f, const Met &m, P16 y, double t1, double &err) {
  auto run = [&](int n) { P16 z = y; double h = (t1 - y[0]) / n; for (int i = 0; i < n; ++i) { P16 k1, k2, k3, k4, w; prhs(f, m, z, k1); for (int j = 0; j < 16; ++j) w[j] = z[j] + .5 * h * k1[j]; prhs(f, m, w, k2); for (int j = 0; j < 16; ++j) w[j] = z[j] + .5 * h * k2[j]; prhs(f, m, w, k3); for (int j = 0; j < 16; ++j) w[j] = z[j] + h * k3[j]; prhs(f, m, w, k4);
      for (int j = 0; j < 16; ++j) z[j] += h / 6 * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]); } z[0] = t1; return z; };
  int n = 2; P16 a = run(n), b; for (;;) { n *= 2; b = run(n); err = 0; for (int j = 1; j < 16; ++j) err = std::max(err, fabs(a[j] - b[j]) / (fabs(b[j]) + 1)); if (!(err > 3e-9) || n > 512) break; a = b; } return b; }
/// an orthonormal pair orthogonal to k; gauge: orthogonal to the static observer too, plus an optional multiple of k
bool basis(T44 g, const double *k, Rng &r, double *E1, double *E2) { double n[4] = {1, 0, 0, 0}; double nk = gdot(g, n, k), nn = gdot(g, n, n); if (nn >= -1e-3) return false; double *E[2] = {E1, E2};
  for (int w = 0; w < 2; ++w) { for (int t = 0;; ++t) { if (t > 50) return false; double *e = E[w]; double sc[4]; for (int i = 1; i < 4; ++i) sc[i] = sqrt(fabs(g[i][i])); e[0] = 0; for (int i = 1; i < 4; ++i) e[i] = r.u(-1, 1) / sc[i];
      // remove the n part, then the k part (with k orthogonal to n: kp = k - (n.k)/(n.n) n)
      double a = gdot(g, n, e) / nn; for (int i = 0; i < 4; ++i) e[i] -= a * n[i]; double kp[4]; for (int i = 0; i < 4; ++i) kp[i] = k[i] - nk / nn * n[i]; double kk = gdot(g, kp, kp); a = gdot(g, kp, e) / kk; for (int i = 0; i < 4; ++i) e[i] -= a * kp[i]; if (w) { a = gdot(g, E1, e); for (int i = 0; i < 4; ++i) e[i] -= a * E1[i]; }
      double q = gdot(g, e, e); if (q < .02) continue; q = 1 / sqrt(q); for (int i = 0; i < 4; ++i) e[i] *= q; break; } } return true; }
static double frame(T44 g, const double *s) { double k0 = fabs(s[4]), w = 0; w = std::max(w, fabs(gdot(g, s + 8, s + 8) - 1)); w = std::max(w, fabs(gdot(g, s + 12, s + 12) - 1)); w = std::max(w, fabs(gdot(g, s + 8, s + 12))); w = std::max(w, fabs(gdot(g, s + 8, s + 4)) / k0); w = std::max(w, fabs(gdot(g, s + 12, s + 4)) / k0); return w; }
void transport(const std::string &fam) { Rng r = caseRng(); Met m = makeMet(fam, r); std::string integ = INTEG[r.i(0, 3)]; bool back = r.p(.7);
  guard(fam + " " + integ, [&]() { MetricP a = m.make(); Tens f = tensorOf(m, a); std::string K = fam + ":"; distinct("metrics", m.xml); bool axial = (fam == "MinkowskiSph" || fam == "ReissnerNordstrom" || fam == "RezzollaZhidenko") && r.p(.5);
    for (int k = 0; k < (S().thorough ? 6 : 3); ++k) { double x[4], u[4]; int tries = 0; do { point(m, r, x, 2.6, 50, .3); } while ((radius(m, x) < 2 || !launch(f, m, r, x, false, u, axial)) && ++tries < 400); if (tries >= 400) { ev("no launch"); return; }
      T44 g; f(x, g); double c[16]; for (int i = 0; i < 4; ++i) { c[i] = x[i]; c[4 + i] = u[i]; } if (!basis(g, u, r, c + 8, c + 12)) { ev("no basis"); continue; }
      SmartPointer<Photon> ph = new Photon(); Worldline *w = &*ph; w->integrator(integ); w->parallelTransport(true); bool cb = !r.p(.25), tight = r.p(.5), strict = cb && r.p(.5); if (fam == "ChernSimons") tight = false; w->maxiter(20000); w->checkBasis(cb); if (tight) { w->absTol(1e-9); w->relTol(1e-9); } else { w->absTol(1e-7); w->relTol(1e-7); } if (strict) w->normTol(tight ? 1e-12 : 1e-10);
      ph->metric(a); w->setInitCoord(c, back ? -1 : 1, c + 8, c + 12); double R = radius(m, x), span = r.u(.5, 5) * R; w->xFill(x[0] + (back ? -span : span)); size_t i0 = w->getImin(), i1 = w->getImax();
      std::string at = m.xml + fmt(" %s from (%.9g %.9g %.9g %.9g | %.9g %.9g %.9g %.9g) %s%s%s%s", integ.c_str(), c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], back ? "backward" : "forward", tight ? " tight" : "", cb ? "" : " unchecked", strict ? " strict" : ""); if (i1 <= i0) { ev("short"); continue; }
      distinct("rays", at); ev("rays"); ev(integ); if (strict) ev("rays corrected often"); if (axial) ev("rays through the axis"); long dirn = back ? -1 : 1; double tol = tight ? 1e-4 : 1e-3; if (fam == "ChernSimons") tol *= 5; if (axial) tol *= 10;
      P16 y; for (int j = 0; j < 16; ++j) y[j] = c[j]; size_t n = 0; long st = std::max<long>(1, (i1 - i0) / 8); state_t s(16);
      bool stop = false; auto good = [&](const double *s) { double rr = radius(m, s); return rr > std::max(1., 1.5 * m.rmin + (m.sph ? 0 : .3)) && !(m.sph && sin(s[2]) < .05); };
      for (long i = (long) w->getI0() + dirn; !stop && i >= (long) i0 && i <= (long) i1; i += dirn) { state_t s(16); w->getCoord(size_t(i), s); if (!good(&s[0])) { if (axial && radius(m, &s[0]) > 1.5 * m.rmin + 1) { ev("records near the axis"); continue; } stop = true; break; } f(&s[0], g); double e = frame(g, &s[0]); cal("frame " + fam, e / tol); ev("frames"); CHECK(K + "orthonormal frame", e < tol, "off by %g at record %ld of %zu-%zu %s", e, i, i0, i1, at.c_str()); ++n;
        if (axial || n % st) continue;
        // parallel transport from the start, by the reference integrator
        double err; P16 q = refTransport(f, m, y, s[0], err); y = q; if (err > 1e-6 || !good(&q[0])) { ev("reference not converged"); stop = true; break; } double c1 = gdot(g, &q[8], &s[8]), c2 = gdot(g, &q[8], &s[12]), c3 = gdot(g, &q[12], &s[8]), c4 = gdot(g, &q[12], &s[12]); double o = std::max(std::max(fabs(c1 - 1), fabs(c4 - 1)), std::max(fabs(c2), fabs(c3))); cal("transport " + fam, o / tol / 5); ev("frames compared"); CHECK(K + "parallel transport", o < 5 * tol, "E.E' = %.8g %.8g %.8g %.8g at record %ld of %zu-%zu %s", c1, c2, c3, c4, i, i0, i1, at.c_str()); }
      if (axial) { // flat space or spherical hole: the two vectors at the last good record
        state_t s(16); long last = back ? i0 : i1; w->getCoord(size_t(last), s); if (good(&s[0])) { f(&s[0], g); CHECK(K + "orthonormal frame after the axis", frame(g, &s[0]) < tol, "off by %g %s", frame(g, &s[0]), at.c_str());
          if (fam == "MinkowskiSph") { auto car = [&](const double *s, const double *e, double o[3]) { double X[3]; cart(m, s, e, X, o); }; for (int w2 = 2; w2 < 4; ++w2) { double A[3], B[3], kA[3]; double e0 = c[4 * w2], e1 = s[4 * w2]; car(c, c + 4 * w2, A); car(&s[0], &s[4 * w2], B); car(c, c + 4, kA); // gauge: same time part
              double z = (e0 - e1) / c[4], d = 0; for (int j = 0; j < 3; ++j) d = std::max(d, fabs(B[j] + z * kA[j] - A[j])); cal("flat", d / tol); CHECK(K + "constant vectors", d < tol * 3, "vector %d off by %g %s", w2, d, at.c_str()); ev("vectors followed across the axis"); } } } }
      // interpolated states
      for (int z = 0; z < 4; ++z) { state_t q(16); double ta = 0, tb = 0; { state_t A(16), B(16); w->getCoord(i0, A); w->getCoord(i1, B); ta = A[0]; tb = B[0]; } double d = r.u(ta, tb); w->getCoord(d, q); if (!good(&q[0]) || axial) continue; bool near = false; for (size_t i = w->getImin(); i <= w->getImax(); ++i) { state_t A(16); w->getCoord(i, A); if (fabs(A[0] - d) < 2 * span / (i1 - i0) && !good(&A[0])) near = true; } if (near) continue; f(&q[0], g); double e = frame(g, &q[0]); cal("interp " + fam, e / tol); ev("interpolated frames"); CHECK(K + "interpolated frame", e < 3 * tol, "off by %g at date %.9g %s", e, d, at.c_str()); } } }, fam + ":polar"); }
// ---- transfer matrices
struct Probe : public Astrobj::FixedStar { using Astrobj::Generic::Omatrix; using Astrobj::Generic::Pmatrix; using Astrobj::Generic::rotateJs; using Astrobj::Generic::getChi; };
Matrix4d kmat(const double *a, const double *f, double chi) { double c = cos(2 * chi), s = sin(2 * chi), Q = a[1] * c - a[2] * s, U = a[2] * c + a[1] * s, rQ = f[0] * c - f[1] * s, rU = f[1] * c + f[0] * s; Matrix4d K; K << a[0], Q, U, a[3], Q, a[0], f[2], -rU, U, -f[2], a[0], rQ, a[3], rU, -rQ, a[0]; return K; }
void expo(const Matrix4d &K, double L, Matrix4d &O, Matrix4d &P) { // exp(-KL) and its integral, by doubling
  int n = 0; double h = L; while (K.norm() * h > .05) { h /= 2; ++n; } Matrix4d A = -K * h, t = Matrix4d::Identity(); O = t; P = t * h; Matrix4d q = t * h; for (int i = 1; i < 14; ++i) { t = t * A / i; O += t; q = q * A / (i + 1); P += q; } for (int i = 0; i < n; ++i) { P = P + O * P; O = O * O; } }
void matrices() { Rng r = caseRng(); guard("matrices", [&]() { SmartPointer<Metric::Generic> a = mkMetric("Minkowski"); a->mass(r.lu(1e20, 1e35)); Probe p; p.metric(a); double len = a->unitLength();
    for (int z = 0; z < 40; ++z) { double dsem = r.lu(1e-3, 10), L = dsem * len, tau = r.p(.5) ? r.lu(1e-17, 1e-5) : r.lu(1e-5, 30), al[4], f[3], chi = r.u(-3, 3); al[0] = tau / L; double pf = r.u(0, .95), v[3], q = 0; for (auto &t : v) { t = r.u(-1, 1); q += t * t; } for (int i = 0; i < 3; ++i) al[1 + i] = al[0] * pf * v[i] / sqrt(q); double fr = r.p(.2) ? 0 : r.lu(1e-4, 100); for (auto &t : f) t = fr * r.u(-1, 1) / L; if (r.p(.2)) al[1] = al[2] = al[3] = 0; if (r.p(.1)) f[0] = f[1] = 0; if (r.p(.1)) al[2] = f[1] = 0;
      Matrix4d O, P; expo(kmat(al, f, chi), L, O, P); Matrix4d o = p.Omatrix(al, f, chi, dsem), q4 = p.Pmatrix(al[0], al[1], al[2], al[3], f[0], f[1], f[2], sin(2 * chi), cos(2 * chi), dsem); std::string at = fmt("alpha L %g %g %g %g rho L %g %g %g chi %g", al[0] * L, al[1] * L, al[2] * L, al[3] * L, f[0] * L, f[1] * L, f[2] * L, chi);
      double eO = (o - O).norm(), eP = (q4 - P).norm() / P.norm(); if (fabs(P(0, 0)) > 0) CHECK("matrix:emitted intensity", fabs(q4(0, 0) / P(0, 0) - 1) < 1e-5, "%g: %s", q4(0, 0) / P(0, 0) - 1, at.c_str()); cal("O", eO); cal("P", eP); ev("transfer matrices"); CHECK("matrix:exponential", eO < 1e-6 * (1 + O.norm()), "off by %g: %s", eO, at.c_str()); CHECK("matrix:integral", eP < 1e-5, "off by %g: %s", eP, at.c_str());
      Matrix4d o2 = p.Omatrix(al[0], al[1], al[2], al[3], f[0], f[1], f[2], chi, dsem), o3 = p.Omatrix(al, f, sin(2 * chi), cos(2 * chi), dsem); CHECK("matrix:forms", (o - o2).norm() < 1e-12 && (o - o3).norm() < 1e-12, "%s", at.c_str());
      Vector4d J = p.rotateJs(1, al[1], al[2], al[3], chi); double c = cos(2 * chi), s = sin(2 * chi); CHECK("matrix:rotation", fabs(J(1) - (al[1] * c - al[2] * s)) <= 1e-12 * al[0] && fabs(J(2) - (al[2] * c + al[1] * s)) <= 1e-12 * al[0] && J(0) == 1 && J(3) == al[3], "%s", at.c_str()); } }, "matrices"); }
void ordered() { Rng r = caseRng(); guard("ordered", [&]() { SceneOpt o; o.res = 2; o.nchan = 3; Scene sn = makeScene({"Minkowski", "FixedStar", "Spectrum SpectrumStokesQ SpectrumStokesU SpectrumStokesV", false}, r, o); SceneryP sc = V::scenery(sn.xml); SmartPointer<Photon> ph = sc->clonePhoton(); ph->spectrometer(sc->screen()->spectrometer()); size_t nn = nnu(sc); ph->resetTransmissionMatrix(); int ns = r.i(2, 5); std::vector<Matrix4d> T(nn, Matrix4d::Identity());
    for (int s = 0; s < ns; ++s) { std::vector<double> I(nn), Q(nn), U(nn), W(nn); std::vector<Matrix4d> O(nn), Z; std::vector<Vector4d> in; for (size_t k = 0; k < nn; ++k) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) O[k](i, j) = r.u(-1, 1); Vector4d v(1, r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)); in.push_back(v); I[k] = v(0); Q[k] = v(1); U[k] = v(2); W[k] = v(3); }
      ph->transfer(&I[0], &Q[0], &U[0], &W[0], &O[0]); for (size_t k = 0; k < nn; ++k) { Vector4d e = T[k] * in[k], g(I[k], Q[k], U[k], W[k]); CHECK("matrix:ordered transfer", (e - g).norm() < 1e-12, "slab %d channel %zu", s, k); T[k] = T[k] * O[k]; ev("slabs in order"); } } }, "ordered"); }
// ---- polarisation angle
void angles() { Rng r = caseRng(); auto fams = metricFamilies(); std::string fam = fams[r.i(0, fams.size() - 1)]; Met m = makeMet(fam, r); guard("chi " + fam, [&]() { MetricP a = m.make(); Tens f = tensorOf(m, a); Probe p; p.metric(a);
    for (int z = 0; z < 20; ++z) { double x[4], k[4], u[4]; int tries = 0; do { point(m, r, x, 3, 50, .3); } while ((radius(m, x) < 2.5 || !launch(f, m, r, x, false, k) || !launch(f, m, r, x, true, u)) && ++tries < 400); if (tries >= 400) { ev("no launch"); return; } T44 g; a->gmunu(g, x); state_t s(16); for (int i = 0; i < 4; ++i) { s[i] = x[i]; s[4 + i] = k[i]; } if (!basis(g, k, r, &s[8], &s[12])) continue; double uk = gdot(g, u, k);
      double W[4], N[4]; for (int i = 0; i < 4; ++i) { W[i] = s[8 + i] - gdot(g, &s[8], u) / uk * k[i]; N[i] = s[12 + i] - gdot(g, &s[12], u) / uk * k[i]; } // screen directions seen by the emitter
      if (r.p(.5)) for (int i = 0; i < 4; ++i) { s[8 + i] += .3 * k[i] / k[0]; s[12 + i] -= .2 * k[i] / k[0]; }
      double chi = r.u(-M_PI / 2, M_PI / 2), e[4], b[4]; double kl[4]; for (int i = 0; i < 4; ++i) kl[i] = (k[i] + uk * u[i]) / -uk; double along = r.u(-2, 2), amp = r.lu(.1, 10); for (int i = 0; i < 4; ++i) { e[i] = amp * (cos(chi) * N[i] - sin(chi) * W[i] + along * kl[i]); b[i] = amp * (sin(chi) * N[i] + cos(chi) * W[i] + along * kl[i]); }
      double ce = p.getChi(e, s, u, true), cb = p.getChi(b, s, u, false); auto d = [](double a, double b) { return fabs(sin(a - b)); }; std::string at = fmt("%s at %.6g %.6g %.6g", m.xml.c_str(), x[1], x[2], x[3]); cal("chi", std::max(d(ce, chi), d(cb, chi))); ev("polarisation angles"); CHECK("angle:electric", d(ce, chi) < 1e-6 && fabs(ce) < M_PI / 2 + 1e-9, "%.9g for %.9g %s", ce, chi, at.c_str()); CHECK("angle:magnetic", d(cb, chi) < 1e-6 && fabs(cb) < M_PI / 2 + 1e-9, "%.9g for %.9g %s", cb, chi, at.c_str()); } }, "chi"); }
// ---- magnetic field of the emitters: unit, orthogonal to their velocity
void field() { Rng r = caseRng(); auto fams = metricFamilies(); std::string fam = fams[r.i(0, fams.size() - 1)]; Met m = makeMet(fam, r); guard("field " + fam, [&]() { MetricP a = m.make(); Tens f = tensorOf(m, a); Probe p; p.metric(a); const char *B[] = {"Vertical", "Radial", "Toroidal", "Poloidal", "Parabolic", "Vertical-n", "Radial-n", "Toroidal-n", "Poloidal-n", "Parabolic-n"};
    for (int z = 0; z < 30; ++z) { double x[4], u[4], k[4]; int tries = 0; do { point(m, r, x, 3, 50, .3); } while ((radius(m, x) < 2.5 || !launch(f, m, r, x, true, u) || !launch(f, m, r, x, false, k)) && ++tries < 400); if (tries >= 400) { ev("no launch"); return; } T44 g; a->gmunu(g, x); double co[8], b[4], b2[4]; state_t c(8); for (int i = 0; i < 4; ++i) { co[i] = c[i] = x[i]; co[4 + i] = u[i]; c[4 + i] = k[i]; } int w = r.i(0, 4); std::string cfg = B[w];
      try { p.computeB4vect(b, cfg, co, c); p.computeB4vect(b2, B[w + 5], co, c); } catch (Gyoto::Error &e) { std::string q = e.get_message(); if (q.find("mplemented") != std::string::npos || q.find("nown") != std::string::npos || q.find("not defined") != std::string::npos) { ev("field not implemented"); continue; } throw; }
      double nn = gdot(g, b, b), nu = gdot(g, b, u), op = 0; for (int i = 0; i < 4; ++i) op = std::max(op, fabs(b[i] + b2[i])); std::string at = fmt("%s at %.6g %.6g %.6g moving %.6g %.6g %.6g %.6g", m.xml.c_str(), x[1], x[2], x[3], u[0], u[1], u[2], u[3]); ev("magnetic fields"); std::string K = "field:" + cfg + (m.sph ? ":spherical" : ":cartesian"); CHECK(K + ":unit", fabs(nn - 1) < 1e-6, "B.B = %.9g %s", nn, at.c_str()); CHECK(K + ":rest frame", fabs(nu) < 1e-6 * u[0], "B.u = %.9g %s", nu, at.c_str()); CHECK(K + ":reversed", op < 1e-9, "%g %s", op, at.c_str()); } }, "field"); }
// ---- sceneries
struct Ctx { size_t nnu; bool unpol; MetricP m; std::string at; const double *nu; };
template <class T> struct Spy : public T { Ctx *x; Spy(const T &t, Ctx *c) : T(t), x(c) {} Spy(const Spy &o) : T(o), x(o.x) {} virtual Spy *clone() const { return new Spy(*this); }
  virtual void processHitQuantities(Photon *ph, state_t const &c, double const *o, double dt, Astrobj::Properties *d) const { size_t n = x->nnu; std::string at = T::kind(); if (c.size() != 16 || !d || !d->spectrum) { CHECK("scene:transported frame", c.size() == 16, "%zu-element state %s", c.size(), x->at.c_str()); T::processHitQuantities(ph, c, o, dt, d); return; }
    T44 g; x->m->gmunu(g, &c[0]); double fr = frame(g, &c[0]); cal("scene frame " + at, fr); CHECK("scene:frame", fr < 2e-2, "off by %g %s", fr, x->at.c_str());
    std::vector<Matrix4d> T0, T1; std::vector<double> S0, Q0, U0, V0; for (size_t i = 0; i < n; ++i) { T0.push_back(ph->getTransmissionMatrix(i)); S0.push_back(d->spectrum[i * d->offset]); Q0.push_back(d->stokesQ ? d->stokesQ[i * d->offset] : 0); U0.push_back(d->stokesU ? d->stokesU[i * d->offset] : 0); V0.push_back(d->stokesV ? d->stokesV[i * d->offset] : 0); }
    T::processHitQuantities(ph, c, o, dt, d); double uk = gdot(g, &c[4], o + 4), gr = -1 / uk, g3 = gr * gr * gr, dsem = dt; (void) dsem; ev("emission steps");
    for (size_t i = 0; i < n; ++i) { Matrix4d t1 = ph->getTransmissionMatrix(i); double s = d->spectrum[i * d->offset], q = d->stokesQ ? d->stokesQ[i * d->offset] : 0, u = d->stokesU ? d->stokesU[i * d->offset] : 0, v = d->stokesV ? d->stokesV[i * d->offset] : 0; bool fin = std::isfinite(s) && std::isfinite(q) && std::isfinite(u) && std::isfinite(v) && std::isfinite(t1.norm()); CHECK("scene:finite", fin, "I %g Q %g U %g V %g transmission %g %s", s, q, u, v, t1.norm(), x->at.c_str()); if (!fin) continue;
      CHECK("scene:transmission at most one", t1.norm() <= T0[i].norm() * (1 + 1e-6) && t1(0, 0) >= -1e-12, "%g after %g %s", t1(0, 0), T0[i](0, 0), x->at.c_str()); CHECK("scene:intensity grows", s - S0[i] >= -1e-9 * s, "%g after %g %s", s, S0[i], x->at.c_str());
      double dq = q - Q0[i], du = u - U0[i], dv = v - V0[i], di = s - S0[i]; if (fabs(dv) > .05 * di || di < 1e-250) ev("steps outside the domain of the synchrotron fits"); else CHECK("scene:polarised fraction of a step", hypot(hypot(dq, du), dv) <= di * 1.02 + 1e-12 * s, "I %g Q %g U %g V %g %s", di, dq, du, dv, x->at.c_str());
      if (x->unpol) { CHECK("scene:unpolarised emitter", q == 0 && u == 0 && v == 0, "Q %g U %g V %g %s", q, u, v, x->at.c_str()); double off = (t1 - t1(0, 0) * Matrix4d::Identity()).norm(); CHECK("scene:unpolarised transmission", off < 1e-12, "%g %s", off, x->at.c_str()); ev("unpolarised steps"); } else ev("polarised steps"); (void) g3; } } };
template <class T> bool plant(SceneryP sc, Ctx *c) { AstrobjP a = sc->astrobj(); T *t = dynamic_cast<T *>(&*a); if (!t || typeid(*t) != typeid(T)) return false; AstrobjP p = new Spy<T>(*t, c); sc->astrobj(p); return true; }
void scene(const Entry &e) { Rng r = caseRng(); SceneOpt o; o.res = 6; o.nchan = r.i(1, 3); std::string ob = e.obj; bool line = ob == "ThinDiskProfile"; if (line || ob == "Complex" || ob == "OscilTorus" || ob == "StarTrace") return; o.quantities = "Spectrum SpectrumStokesQ SpectrumStokesU SpectrumStokesV"; 
  Scene sn = makeScene(e, r, o); if (ob == "Blob" || ob == "Jet" || ob == "ThickDisk") { const char *B[] = {"Vertical", "Radial", "Toroidal", "Poloidal", "Vertical-n", "Radial-n", "Toroidal-n", "Poloidal-n"}; size_t p = sn.xml.find("</Astrobj>"); sn.xml.insert(p, tag("MagneticConfiguration", std::string(B[r.i(0, 7)]))); }
  guard(sn.name, [&]() { Rng rc = r; SceneryP sc; Ctx c; try { sc = V::scenery(sn.xml); } catch (Gyoto::Error &er) { note(sn.name + " " + er.get_message()); return; } 
    { std::string pos = sn.xml; size_t p = pos.find("<Screen>"); (void) p; } c.nnu = nnu(sc); c.m = sc->metric(); c.at = sn.xml; c.nu = NULL; std::string k = sc->astrobj()->kind(); c.unpol = !(ob == "HotSpotPolar" || k == "Blob" || k == "ThickDisk" || k == "Jet" || k == "PageThorneDisk" || k == "EquatorialHotSpot");
    bool ok = plant<Astrobj::FixedStar>(sc, &c) || plant<Astrobj::Star>(sc, &c) || plant<Astrobj::InflateStar>(sc, &c) || plant<Astrobj::FreeStar>(sc, &c) || plant<Astrobj::Torus>(sc, &c) || plant<Astrobj::DeformedTorus>(sc, &c) || plant<Astrobj::PageThorneDisk>(sc, &c) || plant<Astrobj::ThinDiskIronLine>(sc, &c) || plant<Astrobj::ThinDiskPL>(sc, &c) || plant<Astrobj::ThinDisk>(sc, &c) || plant<Astrobj::EquatorialHotSpot>(sc, &c) || plant<Astrobj::Blob>(sc, &c) || plant<Astrobj::ThickDisk>(sc, &c) || plant<Astrobj::Jet>(sc, &c) || plant<Astrobj::PolishDoughnut>(sc, &c) || plant<Astrobj::SphericalAccretion>(sc, &c); if (!ok) { note("no spy for " + sn.name); return; }
    std::string plain = sn.xml; { size_t p = plain.find("<Quantities>"), q = plain.find("</Quantities>"); plain = plain.substr(0, p + 12) + "Spectrum" + plain.substr(q); } SceneryP su = V::scenery(plain);
    distinct("sceneries", sn.xml); ev("scenes"); size_t n = sc->screen()->resolution(); double tp = 0, tu = 0; std::vector<double> A, B;
    for (size_t j = 1; j <= n; ++j) for (size_t i = 1; i <= n; ++i) { Buffers b(sc->getRequestedQuantities(), 1, c.nnu), q(su->getRequestedQuantities(), 1, c.nnu); try { (*sc)(i, j, &b.props); } catch (Gyoto::Error &er) { std::string m = er.get_message(); if (m.find("properly parallel transported") != std::string::npos || m.find("Bad transformation") != std::string::npos || m.find("Gram-Schmidt failed") != std::string::npos) { ev("frame refused"); continue; } if (m.find("Faraday coefficients not defined") != std::string::npos) { ev("spectrum refused"); return; } throw; } (*su)(i, j, &q.props);
      for (size_t z = 0; z < c.nnu; ++z) { double I = b.S[z], Q = b.Q[z], U = b.U[z], W = b.Vv[z]; std::string at = fmt("pixel (%zu,%zu) channel %zu ", i, j, z) + sn.xml; CHECK("scene:pixel finite", std::isfinite(I) && std::isfinite(Q) && std::isfinite(U) && std::isfinite(W) && I >= 0, "I %g Q %g U %g V %g %s", I, Q, U, W, at.c_str()); CHECK("scene:polarised fraction", hypot(hypot(Q, U), W) <= I * 1.1 || I < 1e-250 || fabs(W) > .05 * I, "I %g Q %g U %g V %g %s", I, Q, U, W, at.c_str()); ev("pixels"); if (I > 0) ev("lit pixels"); if (Q != 0) ev("polarised pixels"); tp += z ? 0 : I; tu += z ? 0 : q.S[z]; A.push_back(I); B.push_back(q.S[z]); } }
    if (c.unpol) { int bad = 0, lit = 0; double worst = 0; for (size_t z = 0; z < A.size(); ++z) { if (A[z] > 0 || B[z] > 0) { ++lit; double e = fabs(A[z] - B[z]) / std::max(A[z], B[z]); if (e > .05) { ++bad; worst = std::max(worst, e); } } } if (lit) ev("images compared with the unpolarised calculation"); cal("bad fraction " + ob, lit ? double(bad) / lit : 0); CHECK("scene:same intensity as unpolarised", bad <= std::max(2 * (int) c.nnu, lit / 5), "%d of %d values differ, worst %g, total %g instead of %g %s", bad, lit, worst, tp, tu, sn.xml.c_str()); } }, sn.name); }
} // namespace
int main(int c, char **v) { init(c, v); bool th = S().thorough; for (int rep = 0; rep < (th ? 30 : 6); ++rep) { for (auto &f : metricFamilies()) if (mine()) transport(f); if (mine()) matrices(); if (mine()) ordered(); if (mine()) angles(); for (int q = 0; q < 3; ++q) if (mine()) field(); for (auto &e : catalogue()) if (std::string(e.q).find("Spectrum") != std::string::npos && (!e.slow || rep == 0)) if (mine()) scene(e); } return done(); }
