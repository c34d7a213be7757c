// Reference geodesics: own equations of motion (Christoffel symbols of the
// published tensor by finite differences), own integrator; random trajectories.
#ifndef VERIF_GEO_H
#define VERIF_GEO_H
#include "metrics.h"
#include "GyotoPhoton.h"
#include "GyotoWorldline.h"
#include <array>
namespace V {
typedef std::array<double, 9> St; // t, x1..x3, dot0..dot3, tau
inline void cal(const std::string &k, double v) { if (!getenv("VCAL")) return; static std::map<std::string, double> &m = *new std::map<std::string, double>; static bool once = false; if (!once) { once = true; atexit([] { FILE *F = fopen(getenv("VCAL"), "a"); for (auto &p : m) fprintf(F, "%s %.3g\n", p.first.c_str(), p.second); fclose(F); }); } if (!(v <= m[k])) m[k] = v; }
inline std::function<void(const double *, T44)> tensorOf(const Met &m, MetricP a) { if (m.g) return m.g; return [a](const double *x, T44 g) { a->gmunu(g, x); }; }
/// d/dt of the state (coordinate time as parameter)
inline void rhs(const std::function<void(const double *, T44)> &f, const Met &m, const St &y, St &d) {
  T44 g; f(&y[0], g); T444 J, G; fdJac(f, m, &y[0], J); for (int p = 0; p < 4; ++p) for (int q = 0; q < 4; ++q) J[0][p][q] = 0; // all stationary
  gammaFrom(g, J, G); double k = 1 / y[4];
  for (int i = 0; i < 4; ++i) { d[i] = y[4 + i] * k; double s = 0; for (int p = 0; p < 4; ++p) for (int q = 0; q < 4; ++q) s -= G[i][p][q] * y[4 + p] * y[4 + q]; d[4 + i] = s * k; } d[8] = k; }
/// integrate to date t1 (classic RK4 with n steps chosen so that each step turns little)
inline St refGeodesic(const std::function<void(const double *, T44)> &f, const Met &m, St y, double t1, double &err) {
  auto run = [&](int n) { St z = y; double h = (t1 - y[0]) / n; for (int i = 0; i < n; ++i) { St k1, k2, k3, k4, w; rhs(f, m, z, k1); for (int j = 0; j < 9; ++j) w[j] = z[j] + .5 * h * k1[j]; rhs(f, m, w, k2); for (int j = 0; j < 9; ++j) w[j] = z[j] + .5 * h * k2[j]; rhs(f, m, w, k3); for (int j = 0; j < 9; ++j) w[j] = z[j] + h * k3[j]; rhs(f, m, w, k4);
      for (int j = 0; j < 9; ++j) z[j] += h / 6 * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]); } z[0] = t1; return z; };
  int n = 2; St a = run(n), b; for (;;) { n *= 2; b = run(n); err = 0; for (int j = 1; j < 9; ++j) err = std::max(err, fabs(a[j] - b[j]) / (fabs(b[j]) + 1)); if (!(err > 3e-9) || n > 512) break; a = b; } return b; }
/// Cartesian-like position and (unnormalised) velocity
inline void cart(const Met &m, const double *x, const double *v, double X[3], double W[3]) {
  if (!m.sph) { for (int i = 0; i < 3; ++i) { X[i] = x[1 + i]; if (v) W[i] = v[1 + i]; } return; }
  double r = x[1], s = sin(x[2]), c = cos(x[2]), cp = cos(x[3]), sp = sin(x[3]); X[0] = r * s * cp; X[1] = r * s * sp; X[2] = r * c;
  if (v) { W[0] = v[1] * s * cp + r * v[2] * c * cp - r * s * v[3] * sp; W[1] = v[1] * s * sp + r * v[2] * c * sp + r * s * v[3] * cp; W[2] = v[1] * c - r * v[2] * s; } }
/// velocity of the wanted kind (mass 1 or 0), random local direction; false when the point does not admit it
inline bool launch(const std::function<void(const double *, T44)> &f, const Met &m, Rng &r, double x[4], bool massive, double u[4], bool axial = false) {
  T44 g; f(x, g); double e[4]; scales(m, x, e); double n[3], q = 0; for (auto &z : n) { z = r.u(-1, 1); q += z * z; } q = sqrt(q); if (q < .1) return false; if (axial) { // no angular momentum, towards the axis
    double s = x[2] < M_PI / 2 ? -1 : 1, c = r.u(.1, .9); n[1] = s * c; n[0] = r.sgn() * sqrt(1 - c * c); q = 1; for (int i = 0; i < 2; ++i) n[i] /= e[1 + i]; n[2] = 0; } else for (int i = 0; i < 3; ++i) n[i] /= q * e[1 + i];
  double A = g[0][0], B = 0, C = 0; for (int i = 1; i < 4; ++i) { B += g[0][i] * n[i - 1]; for (int j = 1; j < 4; ++j) C += g[i][j] * n[i - 1] * n[j - 1]; }
  if (A >= -1e-3) return false; double T = (-B - sqrt(B * B - A * C)) / A; if (!(T > 0)) return false; // null: A T^2 + 2 B T + C = 0
  if (!massive) { double k = r.p(.5) ? 1. : r.lu(.1, 10); u[0] = T * k; for (int i = 0; i < 3; ++i) u[1 + i] = n[i] * k; return true; }
  double b = r.u(0, .6) / T; double N = A + 2 * B * b + C * b * b; if (N >= 0) return false; double k = 1 / sqrt(-N); u[0] = k; for (int i = 0; i < 3; ++i) u[1 + i] = n[i] * b * k; return true; }
inline std::string xmlNum(const std::string &x, const std::string &t) { size_t p = x.find("<" + t + ">"); if (p == std::string::npos) return ""; p += t.size() + 2; return x.substr(p, x.find('<', p) - p); }
struct Consts { double norm, E, L, Q; };
inline Consts constants(const std::function<void(const double *, T44)> &f, const Met &m, double a, const double *s) {
  T44 g; f(s, g); double p[4]; for (int i = 0; i < 4; ++i) { p[i] = 0; for (int j = 0; j < 4; ++j) p[i] += g[i][j] * s[4 + j]; }
  double ox = 0, oy = 0; std::string off = xmlNum(m.inner, "Offset"); if (off.size()) { double o[4]; sscanf(off.c_str(), "%lf %lf %lf %lf", o, o + 1, o + 2, o + 3); ox = o[1]; oy = o[2]; }
  Consts c; c.norm = dot(g, s + 4, s + 4); c.E = -p[0]; c.L = m.sph ? p[3] : (s[1] - ox) * p[2] - (s[2] - oy) * p[1]; c.Q = 0;
  if (m.sph && a == a) { double ct = cos(s[2]), st = sin(s[2]); c.Q = p[2] * p[2] + ct * ct * (-a * a * (c.E * c.E + c.norm) + c.L * c.L / (st * st)); }
  return c; }
inline double kerrSpin(const std::string &fam, const Met &m) { if (fam == "KerrBL" || fam == "KonoplyaRezzollaZhidenko0") return atof(xmlNum(m.inner, "Spin").c_str()); if (fam == "MinkowskiSph" || fam == "ReissnerNordstrom" || fam == "SchwarzschildHarmonic" || fam == "RezzollaZhidenko") return 0.; return nan(""); }
const char *const INTEG[] = {"runge_kutta_fehlberg78", "runge_kutta_cash_karp54", "runge_kutta_dopri5", "runge_kutta_cash_karp54_classic", "Legacy"};
struct Line { Gyoto::SmartPointer<Gyoto::Photon> ph; AstrobjP st; Gyoto::Worldline *w = NULL;
  void photon() { ph = new Gyoto::Photon(); w = &*ph; } void star() { st = mkAstrobj("Star"); w = dynamic_cast<Gyoto::Worldline *>(&*st); } };
} // namespace V
#endif
