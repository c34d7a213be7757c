// Random metrics with the published form of their tensor (written from the
// literature, not from the sources) and a generator of regular points.
#ifndef VERIF_METRICS_H
#define VERIF_METRICS_H
#include "common.h"
namespace V {
typedef double T44[4][4]; typedef double T444[4][4][4];
struct Met {
  std::string kind, inner, xml; bool sph = true; double rmin = 2.2; double scale = 1;
  bool exactJac = true;           // analytic derivatives (otherwise 1e-7 forward differences)
  std::function<void(const double *, T44)> g;   // published tensor, may be empty
  std::string name, dupTag;
  MetricP make() const { return metric(hdr() + xml); } };
inline void zero(T44 g) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) g[i][j] = 0; }
inline void kerrm(double r, double th, double a, double m, T44 g) {
  zero(g); double s = sin(th), c = cos(th), S = r * r + a * a * c * c, D = r * r - 2 * m * r + a * a;
  g[0][0] = -(1 - 2 * m * r / S); g[0][3] = g[3][0] = -2 * a * m * r * s * s / S; g[1][1] = S / D; g[2][2] = S;
  g[3][3] = (r * r + a * a + 2 * m * r * a * a * s * s / S) * s * s; }
inline void ksT(const double *x, double a, T44 g) {
  double R2 = x[1] * x[1] + x[2] * x[2] + x[3] * x[3] - a * a;
  double r2 = .5 * (R2 + sqrt(R2 * R2 + 4 * a * a * x[3] * x[3])), r = sqrt(r2);
  double f = 2 * r2 * r / (r2 * r2 + a * a * x[3] * x[3]);
  double k[4] = {1, (r * x[1] + a * x[2]) / (r2 + a * a), (r * x[2] - a * x[1]) / (r2 + a * a), x[3] / r};
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) g[i][j] = (i == j ? (i ? 1. : -1.) : 0.) + f * k[i] * k[j]; }
inline void diagSph(double gtt, double grr, double r2, double th, T44 g) { zero(g); g[0][0] = gtt; g[1][1] = grr; g[2][2] = r2; g[3][3] = r2 * sin(th) * sin(th); }
inline void flatC(T44 g) { zero(g); g[0][0] = -1; g[1][1] = g[2][2] = g[3][3] = 1; }
inline void wrap(Met &m) { m.xml = "<Metric kind=\"" + m.kind + "\">" + m.inner + "</Metric>\n"; if (m.name.empty()) m.name = m.kind; }

inline const strs &metricFamilies() {
  static const strs f = {"KerrBL", "KerrKS", "Minkowski", "MinkowskiSph", "ReissnerNordstrom", "SchwarzschildHarmonic", "Hayward", "RezzollaZhidenko",
    "ChernSimons", "KonoplyaRezzollaZhidenko0", "KonoplyaRezzollaZhidenko", "KonoplyaRezzollaZhidenkoInf", "BalasinGrumiller", "ShiftKS", "ComplexKS"};
  return f; }
inline Met makeMet(const std::string &f, Rng &r) {
  Met m; m.kind = f; m.name = f;
  std::string mass = r.p(.5) ? "" : "<Mass unit=\"sunmass\">" + num(r.lu(1, 1e9)) + "</Mass>";
  auto spin = [&](double mx) { double a = r.p(.15) ? 0. : r.u(-mx, mx); return a; };
  if (f == "KerrBL") { double a = r.p(.2) ? r.sgn() * r.u(.95, .999) : spin(.95); m.inner = mass + tag("Spin", a) + (r.p(.5) ? "<GenericIntegrator/>" : ""); m.rmin = 1 + sqrt(1 - a * a); m.g = [a](const double *x, T44 g) { kerrm(x[1], x[2], a, 1, g); }; }
  else if (f == "KerrKS") { double a = spin(.98); m.inner = mass + tag("Spin", a); m.sph = false; m.rmin = 1 + sqrt(1 - a * a); m.g = [a](const double *x, T44 g) { ksT(x, a, g); }; }
  else if (f == "Minkowski") { m.inner = mass; m.sph = false; m.rmin = .1; m.g = [](const double *, T44 g) { flatC(g); }; }
  else if (f == "MinkowskiSph") { m.kind = "Minkowski"; m.inner = mass + "<Spherical/>"; m.rmin = .1; m.g = [](const double *x, T44 g) { diagSph(-1, 1, x[1] * x[1], x[2], g); }; }
  else if (f == "ReissnerNordstrom") { double q = r.u(-.98, .98); m.inner = mass + tag("Charge", q); m.rmin = 1 + sqrt(1 - q * q);
    m.g = [q](const double *x, T44 g) { double F = 1 - 2 / x[1] + q * q / (x[1] * x[1]); diagSph(-F, 1 / F, x[1] * x[1], x[2], g); }; }
  else if (f == "SchwarzschildHarmonic") { m.inner = mass; m.rmin = 1; m.g = [](const double *x, T44 g) { double F = (x[1] - 1) / (x[1] + 1); diagSph(-F, 1 / F, (x[1] + 1) * (x[1] + 1), x[2], g); }; }
  else if (f == "Hayward") { double a = spin(.7), b = r.u(0, 1.5); bool bh = r.p(.5); if (bh) b = r.u(0, .3); m.inner = mass + tag("Spin", a) + tag("Charge", b);
    // outermost root of Delta = r^2 - 2 m(r) r + a^2, if any
    m.rmin = .02; for (double x = 3; x > .02; x -= 1e-3) { double M = x * x * x / (x * x * x + 2 * b * b); if (x * x - 2 * M * x + a * a < 0) { m.rmin = x + 2e-3; break; } }
    if (m.rmin < .3) m.rmin = .3;
    m.g = [a, b](const double *x, T44 g) { double r3 = x[1] * x[1] * x[1]; kerrm(x[1], x[2], a, r3 / (r3 + 2 * b * b), g); }; }
  else if (f == "RezzollaZhidenko") { double e = r.u(-.2, .3), a[4], b[4]; for (int i = 0; i < 4; ++i) { a[i] = r.p(.3) ? 0 : r.u(0, .2); b[i] = r.p(.3) ? 0 : r.u(0, .2); }
    m.inner = mass + tag("Epsilon", e) + tag("AParam", fmt("%.17g %.17g %.17g %.17g", a[0], a[1], a[2], a[3])) + tag("BParam", fmt("%.17g %.17g %.17g %.17g", b[0], b[1], b[2], b[3])); m.rmin = 2 / (1 + e);
    double r0 = m.rmin; std::vector<double> A(a, a + 4), B(b, b + 4);
    m.g = [e, r0, A, B](const double *p, T44 g) { double x = 1 - r0 / p[1], y = r0 / p[1];
      double At = A[1] / (1 + A[2] * x / (1 + A[3] * x)), Bt = B[1] / (1 + B[2] * x / (1 + B[3] * x));
      double N2 = x * (1 - e * y + (A[0] - e) * y * y + At * y * y * y), Bf = 1 + B[0] * y + Bt * y * y;
      diagSph(-N2, Bf * Bf / N2, p[1] * p[1], p[2], g); }; }
  else if (f == "ChernSimons") { double a = r.u(-.5, .5), z = r.u(0, .4); m.inner = mass + tag("Spin", a) + tag("DzetaCS", z); m.rmin = 2.4; m.exactJac = false;
    m.g = [a, z](const double *x, T44 g) { double R = x[1], c = cos(x[2]), s = sin(x[2]), F = 1 - 2 / R; zero(g);
      g[0][0] = -F - 2 * a * a / (R * R * R) * c * c; g[1][1] = 1 / F + a * a / (F * R * R) * (c * c - 1 / F); g[2][2] = R * R + a * a * c * c; g[3][3] = R * R * s * s + a * a * s * s * (1 + 2 / R * s * s);
      g[0][3] = g[3][0] = -2 * a / R * s * s + 5. / 8. * z * a / pow(R, 4) * (1 + 12. / 7. / R + 27. / 10. / (R * R)) * s * s; }; }
  else if (f == "KonoplyaRezzollaZhidenko0") { m.kind = "KonoplyaRezzollaZhidenko"; double a = r.sgn() * r.u(.05, .95); m.inner = mass + tag("Spin", a); m.rmin = 1 + sqrt(1 - a * a); m.g = [a](const double *x, T44 g) { kerrm(x[1], x[2], a, 1, g); }; }
  else if (f == "KonoplyaRezzollaZhidenko" || f == "KonoplyaRezzollaZhidenkoInf") { m.kind = "KonoplyaRezzollaZhidenko"; double a = r.sgn() * r.u(.05, .9); m.inner = mass + tag("Spin", a);
    bool inf = f != "KonoplyaRezzollaZhidenko"; int n = inf ? 4 : 6; std::string v; int k = r.i(0, n - 1); double d = r.u(.01, .2) * (inf ? .1 : 1); if (!inf && (k == 1 || k == 2)) d *= a > 0 ? 1 : -1; for (int i = 0; i < n; ++i) v += (i ? " " : "") + (i == k ? num(d) : std::string("0"));
    m.dupTag = tag(inf ? "DeltasAsymptotics" : "DeltasHorizon", v); m.inner += m.dupTag; m.rmin = (1 + sqrt(1 - a * a)) * 1.1; }
  else if (f == "BalasinGrumiller") { double V0 = r.u(1e-4, 5e-3), R = r.u(20, 100), r0 = r.u(.5, 3); m.inner = mass + tag("V0", V0) + tag("R", R) + tag("r0", r0); m.rmin = .5; // radius unit: kpc
    m.g = [V0, R, r0](const double *p, T44 g) { double x = p[1], c = cos(p[2]), s = sin(p[2]);
      auto q = [&](double h, double sg) { double z = x * c, w = x * s; return sqrt((z + sg * h) * (z + sg * h) + w * w); };
      double W = V0 * (R - r0) + .5 * V0 * (q(r0, -1) + q(r0, 1) - q(R, -1) - q(R, 1)); zero(g); g[0][0] = -1; g[0][3] = g[3][0] = W; g[1][1] = 1; g[2][2] = x * x; g[3][3] = x * x * s * s - W * W; }; }
  else if (f == "ShiftKS") { m.kind = "Shift"; double a = spin(.9), o[4] = {r.u(-5, 5), r.u(-3, 3), r.u(-3, 3), r.u(-3, 3)}; m.sph = false; m.rmin = 1 + sqrt(1 - a * a) + 6;
    m.inner = "<SubMetric kind=\"KerrKS\">" + tag("Spin", a) + "</SubMetric>" + tag("Offset", fmt("%.17g %.17g %.17g %.17g", o[0], o[1], o[2], o[3])); std::vector<double> O(o, o + 4);
    m.g = [a, O](const double *x, T44 g) { double y[4] = {x[0] - O[0], x[1] - O[1], x[2] - O[2], x[3] - O[3]}; ksT(y, a, g); }; }
  else if (f == "ComplexKS") { // superposition as gyoto builds it: the sum of the tensors of the elements (only meaningful with one flat-space excess removed by the user)
    m.kind = "Complex"; double a = spin(.9); m.sph = false; m.rmin = 1 + sqrt(1 - a * a); int dup = r.i(1, 2);
    m.inner = ""; for (int i = 0; i < dup; ++i) m.inner += "<SubMetric kind=\"KerrKS\">" + tag("Spin", a) + "</SubMetric>";
    m.g = [a, dup](const double *x, T44 g) { ksT(x, a, g); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) g[i][j] *= dup; }; }
  wrap(m); m.scale = 1; return m; }

/// a regular point; far: any radius up to 1e3 scale units
inline void point(const Met &m, Rng &r, double x[4], double lo = 1.08, double hi = 1e3, double thm = .06) {
  double rr = r.p(.6) ? m.rmin * r.u(lo, 6) : m.rmin * r.lu(lo, std::max(hi / m.rmin, 7.)), th = r.p(.2) ? M_PI / 2 : r.u(thm, M_PI - thm), ph = r.u(-10, 10);
  x[0] = r.u(-1000, 1000);
  if (m.sph) { x[1] = rr * m.scale; x[2] = th; x[3] = ph; }
  else { rr *= 1.1; x[1] = rr * sin(th) * cos(ph); x[2] = rr * sin(th) * sin(ph); x[3] = rr * cos(th); } }
inline double radius(const Met &m, const double *x) { return m.sph ? x[1] : sqrt(x[1] * x[1] + x[2] * x[2] + x[3] * x[3]); }
/// orthonormal-like scale of the coordinate basis vectors
inline void scales(const Met &m, const double *x, double e[4]) { e[0] = e[1] = e[2] = e[3] = 1; if (m.sph) { e[2] = x[1]; e[3] = x[1] * sin(x[2]); } }
inline bool invert4(const T44 a, T44 b) { double w[4][8]; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { w[i][j] = a[i][j]; w[i][4 + j] = i == j; }
  for (int c = 0; c < 4; ++c) { int p = c; for (int i = c + 1; i < 4; ++i) if (fabs(w[i][c]) > fabs(w[p][c])) p = i; if (w[p][c] == 0) return false; for (int j = 0; j < 8; ++j) std::swap(w[p][j], w[c][j]);
    double d = w[c][c]; for (int j = 0; j < 8; ++j) w[c][j] /= d; for (int i = 0; i < 4; ++i) if (i != c) { double f = w[i][c]; for (int j = 0; j < 8; ++j) w[i][j] -= f * w[c][j]; } }
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) b[i][j] = w[i][4 + j]; return true; }
inline int negatives(const T44 a) { // Jacobi eigenvalues
  T44 m; memcpy(m, a, sizeof(T44)); for (int sweep = 0; sweep < 60; ++sweep) for (int p = 0; p < 4; ++p) for (int q = p + 1; q < 4; ++q) { if (fabs(m[p][q]) < 1e-300) continue;
    double th = (m[q][q] - m[p][p]) / (2 * m[p][q]), t = (th >= 0 ? 1. : -1.) / (fabs(th) + sqrt(th * th + 1)), c = 1 / sqrt(t * t + 1), s = t * c;
    for (int k = 0; k < 4; ++k) { double u = m[k][p], v = m[k][q]; m[k][p] = c * u - s * v; m[k][q] = s * u + c * v; }
    for (int k = 0; k < 4; ++k) { double u = m[p][k], v = m[q][k]; m[p][k] = c * u - s * v; m[q][k] = s * u + c * v; } }
  int n = 0; for (int i = 0; i < 4; ++i) n += m[i][i] < 0; return n; }
/// d_a g_mn by 4th-order central differences of the library's own tensor (or of f)
inline void fdJac(std::function<void(const double *, T44)> f, const Met &m, const double *x, T444 J) {
  double R = radius(m, x), d = R - m.rmin * (m.sph ? m.scale : 1); if (d < .05 * R) d = .05 * R; d = std::min(d, R);
  for (int a = 0; a < 4; ++a) { double h = 2e-3 * (a == 0 ? 1 : m.sph ? (a == 1 ? d : a == 2 ? std::min(x[2], M_PI - x[2]) : .5) : d * .5);
    T44 g[4]; double y[4]; const double k[4] = {-2, -1, 1, 2}; double hh[4];
    for (int i = 0; i < 4; ++i) { memcpy(y, x, sizeof y); y[a] = x[a] + k[i] * h; hh[i] = y[a] - x[a]; f(y, g[i]); }
    for (int p = 0; p < 4; ++p) for (int q = 0; q < 4; ++q) J[a][p][q] = (8 * (g[2][p][q] - g[1][p][q]) - (g[3][p][q] - g[0][p][q])) / (6 * (hh[2] - hh[1])); } }
inline void gammaFrom(const T44 g, const T444 J, T444 G) { T44 u; invert4(g, u);
  for (int a = 0; a < 4; ++a) for (int m = 0; m < 4; ++m) for (int n = 0; n < 4; ++n) { double s = 0; for (int i = 0; i < 4; ++i) s += .5 * u[a][i] * (J[m][i][n] + J[n][m][i] - J[i][m][n]); G[a][m][n] = s; } }
inline double dot(const T44 g, const double *u, const double *v) { double s = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) s += g[i][j] * u[i] * v[j]; return s; }
} // namespace V
#endif
