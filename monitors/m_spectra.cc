// C15: spectra follow their laws.
// LINK: stdplug
#include "common.h"
#include "GyotoBlackBodySpectrum.h"
#include "GyotoPowerLawSpectrum.h"
#include "GyotoThermalBremsstrahlungSpectrum.h"
#include "GyotoThermalSynchrotronSpectrum.h"
#include "GyotoPowerLawSynchrotronSpectrum.h"
#include "GyotoKappaDistributionSynchrotronSpectrum.h"
#include <cmath>
using namespace V; using namespace Gyoto;
// constants (CODATA 2006 to the digits Gyoto documents)
static const double h = 6.62606896e-34, kB = 1.3806504e-23, c = 2.99792458e8;
static const double e = 4.80320427e-10, me = 9.10938188e-28, cc = 2.99792458e10, kc = 1.3806504e-16, hc = 6.62606896e-27;
static double planck(double nu, double T) { return 2 * h * nu * nu * nu / (c * c) / expm1(h * nu / (kB * T)); }
typedef std::function<double(double)> F;
static double quad(F f, double a, double b) { // composite Gauss-Legendre 4 points in log or linear pieces
  static const double x[4] = {-.8611363115940526, -.3399810435848563, .3399810435848563, .8611363115940526}, w[4] = {.3478548451374538, .6521451548625461, .6521451548625461, .3478548451374538};
  double s = 0; int n = 400; for (int i = 0; i < n; ++i) { double l = a + (b - a) * i / n, u = a + (b - a) * (i + 1) / n; for (int k = 0; k < 4; ++k) s += w[k] * f(.5 * (l + u) + .5 * (u - l) * x[k]) * .5 * (u - l); } return s; }
static void eqv(const std::string &k, double got, double want, double rt = 1e-6, double at = 0) { CHECK_CLOSE(k, got, want, rt, at, k); CHECK("finite " + k, std::isfinite(got), "%g", got); }
/// everything that holds for a spectrum with a plain law f
static void generic(const std::string &n, Spectrum::Generic &s, F f, Rng &r, double nu0) {
  for (int i = 0; i < 6; ++i) { double nu = nu0 * r.lu(.05, 12); ev("values"); eqv(n + "(nu)", s(nu), f(nu)); CHECK("non-negative " + n, s(nu) >= 0, "%g", s(nu));
    // finite optical depth
    double op = r.lu(1e-12, 1e-2), ds = r.lu(1e3, 1e9), tau = op * ds; eqv(n + "(nu,opacity,ds)", s(nu, op, ds), f(nu) * -expm1(-tau), 1e-5, 1e-9 * f(nu)); ev("optical depths");
    eqv(n + " thick limit", s(nu, 1., 1e6), f(nu)); double ot = 1e-14; eqv(n + " thin limit", s(nu, ot, 1e6), f(nu) * ot * 1e6, 1e-4, 0); CHECK(n + " no opacity", s(nu, 0., ds) == 0, "%g", s(nu, 0., ds)); CHECK(n + " no thickness", s(nu, op, 0.) == 0, ""); }
  for (int i = 0; i < 3; ++i) { double a = nu0 * r.lu(.1, 3), b = a * (i ? r.u(1.05, 1.5) : r.u(1.5, 4)), tol = i ? 1.5e-2 : .15; /* the adaptive rule stops on a 1 % change: reliable on narrow bands only */ double q = quad(f, a, b), I = s.integrate(a, b); ev("integrals");
    CHECK_CLOSE(n + " integral", I, q, tol, 0, n); CHECK(n + " integral, band reversed", close(s.integrate(b, a), I, 1e-12), "%g %g", s.integrate(b, a), I);
    double m = a + (b - a) * r.u(.2, .8); CHECK_CLOSE(n + " integral additive", s.integrate(a, m) + s.integrate(m, b), I, 2 * tol, 0, n); CHECK(n + " empty band", s.integrate(a, a) == 0, "%g", s.integrate(a, a));
    // with an opacity law
    Spectrum::PowerLaw op(r.u(-.5, .5), r.lu(1e-10, 1e-7)); double ex = op.exponent(), k = op.constant(), ds = r.lu(1e5, 1e8); k = op.constant() / pow(nu0, ex); op.constant(k);
    double qo = quad([&](double nu) { return f(nu) * -expm1(-k * pow(nu, ex) * ds); }, a, b); CHECK_CLOSE(n + " integral with opacity", s.integrate(a, b, &op, ds), qo, tol, 0, n); } }
static void blackbody(Rng &r) {
  double T = r.lu(10, 1e9); SmartPointer<Spectrum::BlackBody> s = new Spectrum::BlackBody(); double nu0 = kB * T / h; distinct("law", fmt("BB%.6g", T));
  s->temperature(T); generic("BlackBody", *s, [=](double nu) { return planck(nu, T); }, r, nu0);
  double k = r.lu(.1, 10), f = r.u(1.1, 2.5), sc = s->scaling(); if (r.p(.5)) { s->scaling(sc * k); s->colorCorrection(f); } else { s->colorCorrection(3.); s->temperature(T); s->colorCorrection(f); s->scaling(sc * k); }
  generic("BlackBody corrected", *s, [=](double nu) { return k * planck(nu, T * f) / (f * f * f * f); }, r, nu0);
  SmartPointer<Spectrum::Generic> cl = s->clone(); double nu = nu0 * r.lu(.1, 10); CHECK("BlackBody clone", (*cl)(nu) == (*s)(nu), ""); s->temperature(2 * T); CHECK("BlackBody clone isolated", (*cl)(nu) != (*s)(nu), "");
  // temperature as the integral sees it: sigma T^4/pi
  Spectrum::BlackBody b; b.temperature(T); double tot = b.integrate(nu0 * 1e-3, nu0 * 30); CHECK_CLOSE("Stefan-Boltzmann", tot, 5.6704e-8 * pow(T, 4) / M_PI, .15, 0, "total"); }
static void powerlaw(Rng &r) {
  double ex = r.u(-3, 2), k = r.lu(1e-5, 1e5); Spectrum::PowerLaw s(ex, k); double nu0 = r.lu(1e8, 1e18); distinct("law", fmt("PL%.6g %.6g", ex, k));
  generic("PowerLaw", s, [=](double nu) { return k * pow(nu, ex); }, r, nu0);
  double lo = r.lu(1e9, 1e12), hi = lo * r.u(2, 100); int u = r.i(0, 4);
  switch (u) { case 0: s.cutoff({lo, hi}); break; case 1: s.cutoff({hi, lo}); break; case 2: s.cutoff({lo / 1e9, hi / 1e9}, "GHz"); break; case 3: s.cutoff({c / lo, c / hi}, "m"); break; case 4: { double eV = 1.60217653e-19; s.cutoff({lo * h / eV, hi * h / eV}, "eV"); } }
  ev("cut-offs"); for (double nu : {lo * .9, lo * .99, lo * 1.01, sqrt(lo * hi), hi * .99, hi * 1.01, hi * 2}) { double want = nu < lo || nu > hi ? 0 : k * pow(nu, ex); eqv("PowerLaw cut-off", s(nu), want, 1e-6); }
  std::vector<double> v = s.cutoff(); eqv("cutoff()", v[0], lo, 1e-5); eqv("cutoff()", v[1], hi, 1e-5); v = s.cutoff("GHz"); eqv("cutoff(GHz)", v[0], lo / 1e9, 1e-5); eqv("cutoff(GHz)", v[1], hi / 1e9, 1e-5);
  // the band inside which the law holds contributes alone
  double a = lo / r.u(1.2, 2), b = lo * r.u(1.5, 2); if (b > hi) b = hi; double q = quad([=](double nu) { return k * pow(nu, ex); }, lo, b), I = s.integrate(lo * 1.0001, b * .9999); CHECK_CLOSE("PowerLaw integral inside cut-offs", I, q, 2e-2, 0, ""); CHECK("PowerLaw integral outside cut-offs", s.integrate(lo * .3, lo * .9) == 0, ""); (void) a; }
static void brems(Rng &r) {
  SmartPointer<Spectrum::ThermalBremsstrahlung> s = new Spectrum::ThermalBremsstrahlung(); double T = r.lu(1e5, 1e12), n = r.lu(1e2, 1e12); s->temperature(r.lu(1e5, 1e9)); s->numberdensityCGS(n); s->temperature(T); distinct("law", fmt("TB%.6g %.6g", T, n));
  CHECK("bremsstrahlung getters", s->temperature() == T && s->numberdensityCGS() == n, "");
  auto j = [=](double nu) { double th = kc * T / (me * cc * cc), sT = 6.6524e-25, af = 0.00729927, Fei = n * n * sT * cc * af * me * cc * cc;
    Fei *= th < 1 ? 4 * sqrt(2 * th / pow(M_PI, 3)) * (1 + 1.781 * pow(th, 1.34)) : 9 * th / (2 * M_PI) * (log(1.123 * th + .42) + 1.5);
    double x = hc * nu / (kc * T), g = x >= 1 ? sqrt(3 / (M_PI * x)) : sqrt(3.) / M_PI * log(4 / (1.7810724179901979 * x)); return hc / (kc * T) * exp(-x) * Fei * g / (4 * M_PI); };
  double nu0 = kc * T / hc; std::vector<double> nus; for (int i = 0; i < 5; ++i) nus.push_back(nu0 * r.lu(1e-4, 20));
  std::vector<double> J(5), A(5); s->radiativeQ(&J[0], &A[0], &nus[0], 5);
  for (int i = 0; i < 5; ++i) { double nu = nus[i]; ev("bremsstrahlung"); eqv("bremsstrahlung jnu", s->jnuCGS(nu), j(nu), 1e-4); CHECK("bremsstrahlung jnu non-negative", s->jnuCGS(nu) >= 0, ""); double B = planck(nu, T) * 1e3; eqv("bremsstrahlung Kirchhoff", s->alphanuCGS(nu) * B, s->jnuCGS(nu));
    eqv("bremsstrahlung radiativeQ j", J[i], s->jnuCGS(nu) * .1); eqv("bremsstrahlung radiativeQ alpha", A[i], s->alphanuCGS(nu) * 100); double ds = r.lu(1e5, 1e9) ; eqv("bremsstrahlung slab", (*s)(nu, 0., ds), s->jnuCGS(nu) * ds * 100 * exp(-s->alphanuCGS(nu) * ds * 100) * 1e-3); }
  SmartPointer<Spectrum::ThermalBremsstrahlung> cl = s->clone(); s->temperature(2 * T); eqv("bremsstrahlung clone", cl->jnuCGS(nus[0]), j(nus[0]), 1e-4); eqv("bremsstrahlung clone Kirchhoff", cl->alphanuCGS(nus[0]) * planck(nus[0], T) * 1e3, cl->jnuCGS(nus[0]));
  bool threw = false; try { (*s)(1e10); } catch (Gyoto::Error &) { threw = true; } CHECK("bremsstrahlung has no thick law", threw, ""); }
struct Co { double jI, jQ, jV, aI, aQ, aV, rQ, rV; };
static double K(int n, double x) { return std::cyl_bessel_k(double(n), x); }
// Marszewski et al. 2021
static Co thermal(double nu, double T, double n, double nuc, double th) { Co o; double Th = kc * T / (me * cc * cc), st = sin(th), X = nu / (2. / 9. * nuc * Th * Th * st), pre = n * e * e * nuc / cc, ex = exp(-cbrt(X)), S = sqrt(2.) * M_PI / 27 * st;
  double b = pow(2., 11. / 12.) * pow(X, 1. / 6.), q = (7 * pow(Th, .96) + 35) / (10 * pow(Th, .96) + 75); o.jI = pre * ex * S * pow(sqrt(X) + b, 2); o.jQ = pre * ex * S * pow(sqrt(X) + q * b, 2); o.jV = pre * ex * cos(th) / Th * (M_PI / 3 + M_PI / 3 * cbrt(X) + .02 / 3 * sqrt(X) + 2 * M_PI / 19 * pow(X, 2. / 3.));
  double B = planck(nu, T) * 1e3; o.aI = o.jI / B; o.aQ = o.jQ / B; o.aV = o.jV / B;
  double x5 = pow(X, -.5), f0 = 2.011 * exp(-19.78 * pow(X, -.5175)) - cos(39.89 * x5) * exp(-70.16 * pow(X, -.6)) - .011 * exp(-1.69 * x5), fm = f0 + (.011 * exp(-1.69 * x5) - .003135 * pow(X, 4. / 3.)) * .5 * (1 + tanh(10 * log(.6648 * x5)));
  o.rQ = n * e * e * nuc * nuc * st * st / (me * cc * nu * nu * nu) * fm * (K(1, 1 / Th) / K(2, 1 / Th) + 6 * Th); o.rV = 2 * n * e * e * nuc / (me * cc * nu * nu) * (K(0, 1 / Th) - .4379 * log(1 + 1.3414 * pow(X, -.7515))) / K(2, 1 / Th) * cos(th); return o; }
static Co power(double nu, double p, double n, double nuc, double th, double g1, double g2) { Co o; double st = sin(th), x = nu / (nuc * st), nrm = pow(g1, 1 - p) - pow(g2, 1 - p);
  o.jI = n * e * e * nuc / cc * pow(3., p / 2) * (p - 1) * st / (2 * (p + 1) * nrm) * tgamma((3 * p - 1) / 12) * tgamma((3 * p + 19) / 12) * pow(x, -(p - 1) / 2); o.jQ = o.jI * (p + 1) / (p + 7. / 3.); o.jV = o.jI * .684 * pow(p, .49) / tan(th) * pow(x / 3, -.5);
  o.aI = n * e * e / (nu * me * cc) * pow(3., (p + 1) / 2) * (p - 1) / (4 * nrm) * tgamma((3 * p + 2) / 12) * tgamma((3 * p + 22) / 12) * pow(x, -(p + 2) / 2); o.aQ = o.aI * pow(.034 * p - .0344, .086); o.aV = o.aI * pow(.71 * p + .0352, .394) * pow(3.1 * pow(st, -1.92) - 3.1, .512) * pow(x, -.5) * (cos(th) < 0 ? -1 : 1);
  double rp = n * e * e / (me * cc * nuc * st) * (p - 1) / nrm; o.rQ = rp * pow(x, -3) * pow(g1, 2 - p) * (1 - pow(2 * g1 * g1 / (3 * x), p / 2 - 1)); o.rV = 2 * rp * (p + 2) / (p + 1) * pow(x, -2) * pow(g1, -(p + 1)) * log(g1) / tan(th); return o; }
static double rho35(double t, double X, bool v, int k) { static const double A[4] = {17, 46. / 3, 14, 12.5}, B[4] = {-3, -5. / 3, -13. / 8, -1}, C[4] = {7, 17. / 3, 4.5, 5}, D[4] = {30, 18, 12, 8}, E[4] = {.1, 1. / 6, .25, .375}, G[4] = {1.5, 1.75, 2, 2.25}, H[4] = {.471, .5, .525, .541}, L[4] = {.447, .391, .348, .313};
  if (!v) return A[k] * t + B[k] * sqrt(t) + C[k] * sqrt(t) * exp(-5 * t) * (1 - exp(-pow(X, .84) / D[k]) - sin(X * E[k]) * exp(-G[k] * pow(X, H[k])));
  double q = k == 0 ? (t * t + 2 * t + 1) / (25. / 8 * t * t + 4 * t + 1) : k == 1 ? (t * t + 54 * t + 50) / (30. / 11 * t * t + 134 * t + 50) : k == 2 ? (t * t + 43 * t + 38) / (7. / 3 * t * t + 92.5 * t + 38) : (t + 13. / 14) / (2 * t + 13. / 14); return q * (1 - .17 * log(1 + L[k] / sqrt(X))); }
static Co kappa(double nu, double t, double k, double n, double nuc, double th, double hyp, int ki) { Co o; double st = sin(th), w = t * k, X = nu / (nuc * w * w * st), pre = n * e * e * nuc / cc, sg = cos(th) < 0 ? -1 : 1;
  auto br = [](double lo, double hi, double x) { return pow(pow(lo, -x) + pow(hi, -x), -1 / x); };
  double jl = cbrt(X) * st * 4 * M_PI * tgamma(k - 4. / 3.) / (pow(3., 7. / 3.) * tgamma(k - 2)), jh = pow(X, -(k - 2) / 2) * st * pow(3., (k - 1) / 2) * (k - 1) * (k - 2) / 4 * tgamma(k / 4 - 1. / 3.) * tgamma(k / 4 + 4. / 3.);
  o.jI = pre * br(jl, jh, 3 * pow(k, -1.5)); o.jQ = pre * br(.5 * jl, (.64 + k / 50) * jh, 3.7 * pow(k, -1.6)); o.jV = pre * sg * br(.5625 * pow(pow(st, -2.4) - 1, .48) * pow(k, -.528) / t * pow(X, -.35) * jl, .765625 * pow(pow(st, -2.5) - 1, .44) * pow(k, -.44) / t * pow(X, -.5) * jh, 3 * pow(k, -1.5));
  double pa = n * e * e / (nu * me * cc), al = pow(X, -2. / 3.) * pow(3., 1. / 6.) * 10. / 41. * 2 * M_PI * pow(w, k - 10. / 3.) * (k - 1) * (k - 2) * k / (3 * k - 1) * tgamma(5. / 3.) * hyp, ah = pow(X, -(1 + k) / 2) * pow(M_PI, 1.5) / 3 * (k - 1) * (k - 2) * k / (w * w * w) * (2 * tgamma(2 + k / 2) / (2 + k) - 1);
  o.aI = pa * br(al, ah * (pow(3 / k, 4.75) + .6), pow(-1.75 + 1.6 * k, -.86)); o.aQ = pa * br(al * 25. / 48., ah * (441 * pow(k, -5.76) + .55), 1.4 * pow(k, -1.15)); o.aV = pa * sg * br(.77 / t * pow(pow(st, -2.28) - 1, .446) * pow(k, -.7) * pow(X, -.35) * al, ah * 14.3 * pow(t, -.928) * sqrt(pow(st, -2.05) - 1) * (169 * pow(k, -8.) + .0052 * k - .0526 + .235 / k) * pow(X, -.5), 1.22 * pow(k, -1.136) + .007);
  o.rQ = n * e * e * nuc * nuc * st * st / (me * cc * nu * nu * nu) * rho35(t, X, false, ki); o.rV = 2 * n * e * e * nuc * cos(th) * K(0, 1 / t) / (me * cc * nu * nu * K(2, 1 / t)) * rho35(t, X, true, ki); return o; }
/// accessors, arrays, averages of one synchrotron spectrum against its law
template <class SP> static void synch(const std::string &n, SP s, std::function<Co(double, double)> law, const std::vector<double> &nus, double th, Rng &r, bool thermalLaw, double T) {
  size_t N = nus.size(); const double rt = 2e-5; std::vector<std::vector<double> > o(13, std::vector<double>(N));
  auto chk = [&](SP q, const std::string &t) { q->angle_averaged(false); q->angle_B_pem(th);
    q->radiativeQ(&o[0][0], &o[1][0], &nus[0], N); q->radiativeQ(&o[2][0], &o[3][0], &o[4][0], &o[5][0], &o[6][0], &o[7][0], &o[8][0], &o[9][0], &o[10][0], &o[11][0], &o[12][0], &nus[0], N);
    for (size_t i = 0; i < N; ++i) { double nu = nus[i]; Co w = law(nu, th); ev("synchrotron"); std::string k = t;
      eqv(k + " jI", q->jnuCGS(nu), w.jI, rt); eqv(k + " jQ", q->jQnuCGS(nu), w.jQ, rt); eqv(k + " jV", q->jVnuCGS(nu), w.jV, rt); eqv(k + " jU", q->jUnuCGS(nu), 0.); eqv(k + " aI", q->alphanuCGS(nu), w.aI, rt); eqv(k + " aQ", q->alphaQnuCGS(nu), w.aQ, rt); eqv(k + " aV", q->alphaVnuCGS(nu), w.aV, rt); eqv(k + " aU", q->alphaUnuCGS(nu), 0.);
      eqv(k + " rQ", q->rQnuCGS(nu), w.rQ, 1e-3, 1e-5 * fabs(w.rQ)); eqv(k + " rV", q->rVnuCGS(nu), w.rV, 1e-3); eqv(k + " rU", q->rUnuCGS(nu), 0.); CHECK(k + " non-negative", w.jI >= 0 && q->jnuCGS(nu) >= 0 && q->alphanuCGS(nu) >= 0, "");
      double *a = &o[0][0]; (void) a; const double J = .1, A = 100; eqv(k + " radiativeQ j", o[0][i], w.jI * J, rt); eqv(k + " radiativeQ a", o[1][i], w.aI * A, rt);
      double wj[4] = {w.jI * J, w.jQ * J, 0, w.jV * J}, wa[4] = {w.aI * A, w.aQ * A, 0, w.aV * A}, wr[3] = {w.rQ * A, 0, w.rV * A}; for (int m = 0; m < 4; ++m) { eqv(k + fmt(" polarised j%d", m), o[2 + m][i], wj[m], rt); eqv(k + fmt(" polarised a%d", m), o[6 + m][i], wa[m], rt); if (m < 3) eqv(k + fmt(" polarised r%d", m), o[10 + m][i], wr[m], 1e-3); }
      if (thermalLaw) eqv(k + " Kirchhoff", o[0][i], o[1][i] * planck(nu, T), 1e-5); double ds = r.lu(1., 1e9); eqv(k + " slab", (*q)(nu, 0., ds), w.jI * ds * 100 * exp(-w.aI * ds * 100) * 1e-3, 1e-3, 1e-290); } };
  chk(s, n); SP cl = s->clone(); chk(cl, n + " clone"); SmartPointer<Spectrum::Generic> keep(cl);
  bool threw = false; try { (*s)(nus[0]); } catch (Gyoto::Error &) { threw = true; } CHECK(n + " has no thick law", threw, ""); }
template <class SP> static void averaged(const std::string &n, SP s, std::function<Co(double, double)> law, const std::vector<double> &nus, double rt) {
  size_t N = nus.size(); std::vector<double> j(N), a(N); s->angle_averaged(true); s->radiativeQ(&j[0], &a[0], &nus[0], N);
  for (size_t i = 0; i < N; ++i) { ev("angle averages"); double q = .5 * quad([&](double t) { return law(nus[i], t).jI * sin(t); }, .01, M_PI - .01) * .1, qa = .5 * quad([&](double t) { return law(nus[i], t).aI * sin(t); }, .01, M_PI - .01) * 100; CHECK_CLOSE(n + " averaged j", j[i], q, rt, 0, n); CHECK_CLOSE(n + " averaged alpha", a[i], qa, rt, 0, n); }
  s->angle_averaged(false); }
static void synchro(Rng &r) {
  double th = r.p(.5) ? r.u(.2, 1.4) : r.u(1.7, 2.9), n = r.lu(1e2, 1e10), nuc = r.lu(1e5, 1e9);
  { SmartPointer<Spectrum::ThermalSynchrotron> s = new Spectrum::ThermalSynchrotron(); double Th = r.lu(.3, 200), T = Th * me * cc * cc / kc; s->temperature(3e9); s->temperature(T); s->numberdensityCGS(n); s->cyclotron_freq(nuc); s->besselK2(K(2, 1 / Th)); distinct("law", fmt("TS%.6g", T));
    std::vector<double> nus; for (int i = 0; i < 4; ++i) nus.push_back(nuc * Th * Th * r.lu(1e-3, 1e3)); auto law = [=](double nu, double t) { return thermal(nu, T, n, nuc, t); };
    synch("thermal synchrotron", s, law, nus, th, r, true, T); averaged("thermal synchrotron", s, law, nus, 1e-2);
    s->temperature(1e6); std::vector<double> j(4, -1), a(4, -1); s->radiativeQ(&j[0], &a[0], &nus[0], 4); for (int i = 0; i < 4; ++i) CHECK("cold thermal synchrotron", j[i] == 0 && a[i] == 0, "%g %g", j[i], a[i]); }
  { SmartPointer<Spectrum::PowerLawSynchrotron> s = new Spectrum::PowerLawSynchrotron(); double p = r.u(1.6, 6), g1 = r.u(1.05, 30), g2 = r.lu(1e4, 1e7); s->PLindex(p); s->gamma_min(g1); s->gamma_max(g2); s->numberdensityCGS(n); s->cyclotron_freq(nuc); distinct("law", fmt("PS%.6g", p));
    std::vector<double> nus; for (int i = 0; i < 4; ++i) nus.push_back(nuc * r.lu(g1 * g1 * 3, g2 * g2 * .9)); auto law = [=](double nu, double t) { return power(nu, p, n, nuc, t, g1, g2); };
    synch("power-law synchrotron", s, law, nus, th, r, false, 0); averaged("power-law synchrotron", s, law, nus, 6e-2);
    bool threw = false; try { s->angle_B_pem(th); s->jnuCGS(nuc * g2 * g2 * 2); } catch (Gyoto::Error &) { threw = true; } CHECK("frequency above gamma_max refused", threw, ""); }
  { SmartPointer<Spectrum::KappaDistributionSynchrotron> s = new Spectrum::KappaDistributionSynchrotron(); int ki = r.i(0, 3); double k = 3.5 + .5 * ki, t = r.lu(.5, 50), hyp = r.lu(1e-3, 1); s->kappaindex(k); s->thetae(t); s->hypergeometric(hyp); s->numberdensityCGS(n); s->cyclotron_freq(nuc); distinct("law", fmt("KS%.6g %.6g", k, t));
    std::vector<double> nus; for (int i = 0; i < 4; ++i) nus.push_back(nuc * t * t * k * k * sin(th) * r.lu(.2, 1e4)); auto law = [=](double nu, double x) { return kappa(nu, t, k, n, nuc, x, hyp, ki); };
    synch("kappa synchrotron", s, law, nus, th, r, false, 0); averaged("kappa synchrotron", s, law, nus, 6e-2);
    bool threw = false; s->kappaindex(3.7); try { s->rQnuCGS(nus[0]); } catch (Gyoto::Error &) { threw = true; } CHECK("Faraday coefficient of an untabulated kappa refused", threw, ""); } }
static void special(Rng &r) { // special functions the laws rest on
  for (int i = 0; i < 20; ++i) { double x = r.lu(1e-3, 100); ev("special functions"); eqv("bessk0", bessk0(x), K(0, x), 1e-6); eqv("bessk1", bessk1(x), K(1, x), 1e-6); int n = r.i(2, 5); eqv("bessk", bessk(n, x), K(n, x), 1e-6); eqv("bessi0", bessi0(x), std::cyl_bessel_i(0., x), 1e-6); eqv("bessi1", bessi1(x), std::cyl_bessel_i(1., x), 1e-6); } }
int main(int argc, char **argv) {
  init(argc, argv);
  for (int rep = 0; rep < (S().thorough ? 20000 : 400); ++rep) { if (!mine()) continue; Rng r = caseRng(); guard("spectra", [&] { blackbody(r); powerlaw(r); brems(r); synchro(r); special(r); }); }
  return done(); }
