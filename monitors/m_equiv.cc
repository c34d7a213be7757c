// C11: the same scene described in two equivalent ways gives the same observables, ray by ray.
// Photons are launched with initial conditions mapped exactly from one description to the other.
#include "geo.h"
#include "GyotoAstrobj.h"
using namespace V;
namespace {
typedef std::function<void(const double *, const double *, double *, double *)> Map;  // (x, v) -> (x', v')
struct Pair { std::string name, ma, mb; bool sa, sb; Map f; double a = 0; bool euclid = true, kep = true, zamo = false, flat = false, pt = false, exact = false; double dr = 0; double rh = 2; double off[4] = {0, 0, 0, 0}; int mirror = 0; double off_t = 0; };
void ident(const double *x, const double *v, double *y, double *w) { for (int i = 0; i < 4; ++i) { y[i] = x[i]; w[i] = v[i]; } }
/// Boyer-Lindquist -> Kerr-Schild
Map ksMap(double a) { return [a](const double *x, const double *v, double *y, double *w) { double r = x[1], D = r * r - 2 * r + a * a, q = sqrt(1 - a * a), rp = 1 + q, rm = 1 - q, L = log((r - rp) / 1.), M = log(r - rm);
  double T = x[0] + (rp * L - rm * M) / q, p = x[3] + a / (2 * q) * (L - M), s = sin(x[2]), c = cos(x[2]), cp = cos(p), sp = sin(p);
  y[0] = T; y[1] = (r * cp - a * sp) * s; y[2] = (r * sp + a * cp) * s; y[3] = r * c; double pd = v[3] + a / D * v[1];
  w[0] = v[0] + 2 * r / D * v[1]; w[1] = v[1] * cp * s + (r * cp - a * sp) * c * v[2] - y[2] * pd; w[2] = v[1] * sp * s + (r * sp + a * cp) * c * v[2] + y[1] * pd; w[3] = v[1] * c - r * s * v[2]; }; }
void cartMap(const double *x, const double *v, double *y, double *w) { Met m; m.sph = true; double X[3], W[3]; cart(m, x, v, X, W); y[0] = x[0]; w[0] = v[0]; for (int i = 0; i < 3; ++i) { y[1 + i] = X[i]; w[1 + i] = W[i]; } }
std::string M(const std::string &k, const std::string &in) { return "<Metric kind=\"" + k + "\">" + in + "</Metric>\n"; }
Pair makePair(int k, Rng &r) { Pair p; double a = r.p(.2) ? 0. : r.u(-.95, .95); auto kerr = [&](double s) { return M("KerrBL", tag("Spin", s)); }; p.sa = p.sb = true; p.f = ident;
  switch (k) {
  case 0: p.name = "KerrBL-KerrKS"; if (r.p(.4)) a = 0; p.ma = kerr(a); p.mb = M("KerrKS", tag("Spin", a)); p.sb = false; p.f = ksMap(a); p.a = a; p.euclid = a == 0; p.pt = true; break;
  case 1: p.name = "Minkowski"; p.ma = M("Minkowski", "<Spherical/><Keplerian/>"); p.mb = M("Minkowski", "<Keplerian/>"); p.sb = false; p.f = cartMap; p.flat = true; p.rh = .3; break;
  case 2: p.name = "KerrBL-KonoplyaRezzollaZhidenko"; if (fabs(a) < .05) a = .5; p.ma = kerr(a); p.mb = M("KonoplyaRezzollaZhidenko", tag("Spin", a)); p.a = a; p.kep = true; break;
  case 3: p.name = "KerrBL-Hayward"; p.ma = kerr(a); p.mb = M("Hayward", tag("Spin", a) + tag("Charge", 0.)); p.a = a; break;
  case 4: p.name = "KerrBL-RezzollaZhidenko"; p.ma = kerr(0); p.mb = M("RezzollaZhidenko", tag("Epsilon", 0.)); break;
  case 5: p.name = "KerrBL-ReissnerNordstrom"; p.ma = kerr(0); p.mb = M("ReissnerNordstrom", tag("Charge", 0.)); break;
  case 6: p.name = "KerrBL-ChernSimons"; p.ma = kerr(0); p.mb = M("ChernSimons", tag("Spin", 0.) + tag("DzetaCS", 0.)); break;
  case 7: p.name = "KerrBL-SchwarzschildHarmonic"; p.ma = kerr(0); p.mb = M("SchwarzschildHarmonic", ""); p.dr = -1; p.euclid = false; p.f = [](const double *x, const double *v, double *y, double *w) { ident(x, v, y, w); y[1] -= 1; }; break;
  case 8: { p.name = "KerrKS-Shift"; p.sa = p.sb = false; for (int i = 0; i < 4; ++i) p.off[i] = r.u(-4, 4); std::string ks = tag("Spin", a); p.ma = M("KerrKS", ks); p.mb = M("Shift", "<SubMetric kind=\"KerrKS\">" + ks + "</SubMetric>" + tag("Offset", fmt("%.17g %.17g %.17g %.17g", p.off[0], p.off[1], p.off[2], p.off[3]))); p.a = a; p.kep = false; Pair *q = &p; std::vector<double> o(q->off, q->off + 4); p.f = [o](const double *x, const double *v, double *y, double *w) { ident(x, v, y, w); for (int i = 0; i < 4; ++i) y[i] += o[i]; }; break; }
  case 9: { p.name = "KerrKS-Complex"; p.sa = p.sb = false; std::string ks = tag("Spin", a); p.ma = M("KerrKS", ks); p.mb = M("Complex", "<SubMetric kind=\"KerrKS\">" + ks + "</SubMetric>"); p.a = a; p.kep = false; break; }
  case 10: { p.name = "rotation"; bool ks = r.p(.4); p.pt = true; double d = r.u(-M_PI, M_PI); p.a = a; p.euclid = false; if (!ks) { p.ma = p.mb = kerr(a); p.f = [d](const double *x, const double *v, double *y, double *w) { ident(x, v, y, w); y[3] += d; }; } else { p.sa = p.sb = false; p.ma = p.mb = M("KerrKS", tag("Spin", a)); double c = cos(d), s = sin(d); p.f = [c, s](const double *x, const double *v, double *y, double *w) { ident(x, v, y, w); y[1] = c * x[1] - s * x[2]; y[2] = s * x[1] + c * x[2]; w[1] = c * v[1] - s * v[2]; w[2] = s * v[1] + c * v[2]; }; } p.euclid = true; break; }
  case 11: { p.name = "reflection"; bool ks = r.p(.4); p.pt = true; p.a = a; if (!ks) { p.ma = p.mb = kerr(a); p.f = [](const double *x, const double *v, double *y, double *w) { ident(x, v, y, w); y[2] = M_PI - y[2]; w[2] = -w[2]; }; } else { p.sa = p.sb = false; p.ma = p.mb = M("KerrKS", tag("Spin", a)); p.f = [](const double *x, const double *v, double *y, double *w) { ident(x, v, y, w); y[3] = -y[3]; w[3] = -w[3]; }; } break; }
  case 12: { p.name = "date"; p.a = a; p.pt = true; bool ks = r.p(.4); p.sa = p.sb = !ks; p.ma = p.mb = M(ks ? "KerrKS" : "KerrBL", tag("Spin", a)); double d = r.sgn() * r.lu(1, 1e4); p.off_t = d; p.f = [d](const double *x, const double *v, double *y, double *w) { ident(x, v, y, w); y[0] += d; }; break; }
  default: { p.name = "mirror"; bool ks = r.p(.4); p.a = a; p.mirror = 1; if (!ks) { p.ma = kerr(a); p.mb = kerr(-a); p.f = [](const double *x, const double *v, double *y, double *w) { ident(x, v, y, w); y[3] = -y[3]; w[3] = -w[3]; }; } else { p.sa = p.sb = false; p.ma = M("KerrKS", tag("Spin", a)); p.mb = M("KerrKS", tag("Spin", -a)); p.f = [](const double *x, const double *v, double *y, double *w) { ident(x, v, y, w); y[2] = -y[2]; w[2] = -w[2]; }; } }
  }
  if (!p.flat) p.rh = 1 + sqrt(1 - p.a * p.a); return p; }
struct Obs { int hit; double I, z, t, ic[16]; std::vector<double> S; };
std::string vec(const double *x, int n) { std::string s; for (int i = 0; i < n; ++i) s += (i ? " " : "") + num(x[i]); return s; }
Obs shoot(MetricP g, AstrobjP o, const double *x, const double *v, SpectroP sp, const std::string &integ, double tol, double tmin, bool pt, bool spec) { double c[8]; for (int i = 0; i < 4; ++i) { c[i] = x[i]; c[4 + i] = v[i]; } Obs q; PhotonP p = new Gyoto::Photon(); p->integrator(integ); p->absTol(tol); p->relTol(tol); p->setInitialCondition(g, o, c); p->spectrometer(sp); p->tMin(tmin); p->freqObs(1e11);
  Gyoto::Astrobj::Properties d; q.I = q.z = q.t = 0; for (auto &y : q.ic) y = 0; q.S.assign(sp->nSamples(), 0.); (pt ? d.user4 : d.intensity) = &q.I; d.redshift = &q.z; d.time = &q.t; d.impactcoords = q.ic; if (spec) d.spectrum = q.S.data(); d.offset = 1; d.init(sp->nSamples()); q.hit = p->hit(&d); return q; }
void one() { Rng r = caseRng(11); int k = r.i(0, 13); Pair p = makePair(k, r);
  guard(p.name, [&] {
    // the object, in both descriptions
    strs kinds = {"ThinDisk", "ThinDisk"}; if (!p.kep) kinds.clear(); if (p.euclid) { kinds.push_back("FixedStar"); if (k != 0) kinds.push_back("Star"); if (p.kep && !p.mirror) kinds.push_back("Torus"); } if (p.pt && !p.flat) { kinds.push_back("PageThorneDisk"); kinds.push_back("PageThorneDisk"); }
    std::string kind = r.pick(kinds), oa, ob; double rin = p.rh + r.u(1, 5), rout = rin + r.u(4, 15), R = r.u(.4, 1.5); bool thin = r.p(.6); double c[4], u[4], cb[4], ub[4]; double px[3] = {0, 0, 0}, rr0 = 10;
    MetricP ga = metric(hdr() + p.ma), gb = metric(hdr() + p.mb); double size = rout;
    Met ma, mb; ma.sph = p.sa; mb.sph = p.sb;
    if (kind == "ThinDisk" || kind == "PageThorneDisk") { bool zamo = kind == "ThinDisk" && k == 0 && false; if (kind == "PageThorneDisk") rin = 0; std::string com = (r.p(.3) ? "<OpticallyThin/>" : "<OpticallyThick/>"); if (kind == "PageThorneDisk") com = "<OpticallyThick/>"; thin = com == "<OpticallyThin/>"; if (thin && !p.flat && (p.sa != p.sb || p.dr != 0)) { com = "<OpticallyThick/>"; thin = false; } bool co = kind == "PageThorneDisk" || r.p(.7);
      auto mk = [&](double dr, bool m) { return "<Astrobj kind=\"" + kind + "\">" + (kind == "PageThorneDisk" ? "" : tag("InnerRadius", rin + dr)) + tag("OuterRadius", rout + dr) + tag("Thickness", .1) + com + (co != m ? "<CoRotating/>" : "<CounterRotating/>") + (zamo ? tag("VelocityKind", std::string("ZAMO")) : "") + "</Astrobj>\n"; }; oa = mk(0, false); ob = mk(p.dr, p.mirror); }
    else if (kind == "Torus") { double Rl = p.rh + r.u(6, 14), rs = r.u(.5, 2); rout = Rl + rs; rin = Rl - rs; R = rs; size = rout; oa = "<Astrobj kind=\"Torus\">" + tag("LargeRadius", Rl) + tag("SmallRadius", rs) + tag("DeltaInObj", .02) + "<Spectrum kind=\"PowerLaw\"><Exponent>-1</Exponent><Constant>1e-30</Constant></Spectrum>" + (thin ? "<OpticallyThin/>" : "<OpticallyThick/>") + "</Astrobj>\n"; ob = oa; }
    else { // a ball at some place, at rest or free falling
      double rr = p.rh + R + r.u(5, 15), th = r.u(.4, 2.7), ph = r.u(-3, 3); c[0] = 0; if (ma.sph) { c[1] = rr; c[2] = th; c[3] = ph; } else { c[1] = rr * sin(th) * cos(ph); c[2] = rr * sin(th) * sin(ph); c[3] = rr * cos(th); } double X[3]; cart(ma, c, NULL, X, NULL); for (int i = 0; i < 3; ++i) px[i] = X[i]; size = rr + R; rr0 = rr;
      std::string com = tag("Radius", R) + tag("DeltaInObj", .02) + "<Spectrum kind=\"PowerLaw\"><Exponent>-1</Exponent><Constant>1e-30</Constant></Spectrum>" + (thin ? "<Opacity kind=\"PowerLaw\"><Exponent>0</Exponent><Constant>0.001</Constant></Opacity><OpticallyThin/>" : "<OpticallyThick/>");
      if (kind == "FixedStar") { u[0] = 1; u[1] = u[2] = u[3] = 0; p.f(c, u, cb, ub); oa = "<Astrobj kind=\"FixedStar\">" + tag("Position", vec(c + 1, 3)) + com + "</Astrobj>\n"; ob = "<Astrobj kind=\"FixedStar\">" + tag("Position", vec(cb + 1, 3)) + com + "</Astrobj>\n"; }
      else { if (ma.sph) c[2] = M_PI / 2; else { double q = hypot(c[1], c[2]); c[1] *= rr / q; c[2] *= rr / q; c[3] = 0; } { double X[3]; cart(ma, c, NULL, X, NULL); for (int i = 0; i < 3; ++i) px[i] = X[i]; } ga->circularVelocity(c, u, p.mirror || r.p(.5) ? 1. : -1.); p.f(c, u, cb, ub); std::string d = tag("DeltaMax", .5) + tag("AbsTol", 1e-10) + tag("RelTol", 1e-10); auto st = [&](const double *x, const double *w) { return "<Astrobj kind=\"Star\">" + tag("InitCoord", vec(x, 4) + " " + vec(w, 4)) + d + com + "</Astrobj>\n"; }; oa = st(c, u); ob = st(cb, ub); } }
    std::string A = hdr() + "<Scenery>" + p.ma + oa + "</Scenery>", B = hdr() + "<Scenery>" + p.mb + ob + "</Scenery>"; distinct("pairs", A + B); SceneryP sa = V::scenery(A), sb = V::scenery(B); ga = sa->metric(); gb = sb->metric(); AstrobjP xa = sa->astrobj(), xb = sb->astrobj(); xa->rMax(1e3); xb->rMax(1e3);
    SpectroP sp; { std::vector<char> z; std::string s = hdr() + "<Spectrometer kind=\"freqlog\" nsamples=\"3\" unit=\"Hz\">10 13</Spectrometer>"; z.assign(s.begin(), s.end()); z.push_back(0); Gyoto::Factory F(z.data()); sp = F.spectrometer(); }
    std::string integ = r.pick(strs{"runge_kutta_fehlberg78", "runge_kutta_fehlberg78", "runge_kutta_cash_karp54", "runge_kutta_dopri5"}); double tol = 1e-9; const bool pt = kind == "PageThorneDisk", spec = !pt && kind != "Torus"; ev(kind); ev(thin ? "thin" : "thick"); sample(A + " = " + B);
    std::function<void(const double *, T44)> f = [&](const double *x, T44 g) { ga->gmunu(g, x); };
    auto inv = [&](const double *x, const double *w, double *y, double *z) { p.f(x, w, y, z); };
    for (int n = 0; n < (S().thorough ? 16 : 8); ++n) {
      double ro = r.u(25, 80) + size, th = p.flat ? r.u(.3, 2.8) : r.u(.25, 2.9), ph = r.u(-3, 3), x[4]; x[0] = r.u(0, 100) + ro; Met s; s.sph = true; double y[4] = {x[0], ro, th, ph}, X[3], T[3]; cart(s, y, NULL, X, NULL); if (ma.sph) for (int i = 1; i < 4; ++i) x[i] = y[i]; else for (int i = 0; i < 3; ++i) x[1 + i] = X[i];
      // aim at a point of the scene
      if (kind == "Star" || kind == "FixedStar") { double q = 1. * R; for (int i = 0; i < 3; ++i) T[i] = px[i] + r.u(-q, q); if (kind == "Star") { x[0] = r.u(-6, 6) + sqrt((X[0] - px[0]) * (X[0] - px[0]) + (X[1] - px[1]) * (X[1] - px[1]) + (X[2] - px[2]) * (X[2] - px[2])); } } else { double q = rout * sqrt(r.u()), w = r.u(-3.1, 3.1); T[0] = q * cos(w); T[1] = q * sin(w); T[2] = kind == "Torus" ? r.u(-R, R) : 0; }
      double d[3], w = 0; for (int i = 0; i < 3; ++i) { d[i] = X[i] - T[i]; w += d[i] * d[i]; } w = sqrt(w); for (auto &z : d) z /= w;
      double v[4]; if (ma.sph) { double cs = cos(th), sn = sin(th), cp = cos(ph), spn = sin(ph); v[1] = d[0] * sn * cp + d[1] * sn * spn + d[2] * cs; v[2] = (d[0] * cs * cp + d[1] * cs * spn - d[2] * sn) / ro; v[3] = (-d[0] * spn + d[1] * cp) / (ro * sn); } else for (int i = 0; i < 3; ++i) v[1 + i] = d[i];
      auto null = [&](double *z) { T44 g; f(x, g); double A0 = g[0][0], B0 = 0, C0 = 0; for (int i = 1; i < 4; ++i) { B0 += g[0][i] * z[i]; for (int j = 1; j < 4; ++j) C0 += g[i][j] * z[i] * z[j]; } z[0] = (-B0 - sqrt(B0 * B0 - A0 * C0)) / A0; }; null(v);
      double xb4[4], vb[4]; inv(x, v, xb4, vb); double xs[4], vs[4]; for (int i = 0; i < 4; ++i) { xs[i] = x[i]; vs[i] = v[i]; } vs[2] *= 1 + 1e-6; vs[3] = vs[3] * (1 - 1e-6) + 1e-9; null(vs);
      double span = w + 3 * size + 20; Obs a, b, e; try { a = shoot(ga, xa, x, v, sp, integ, tol, x[0] - span, pt, spec); b = shoot(gb, xb, xb4, vb, sp, integ, tol, xb4[0] - span - (k == 0 ? 60 : 0), pt, spec); e = shoot(ga, xa, xs, vs, sp, integ, tol, x[0] - span, pt, spec); }
      catch (Gyoto::Error &er) { std::string m = er.get_message(); if (m.find("not implemented") != std::string::npos || m.find("undefined") != std::string::npos || m.find("below") != std::string::npos || m.find("can't get coordinates") != std::string::npos) { ev("refused"); note(p.name + " " + kind + ": " + m); return; } throw; }
      ev("rays"); bool ha = a.I > 0, hb = b.I > 0, he = e.I > 0; std::string K = p.name + " " + kind;
      bool vol = kind == "Star" || kind == "FixedStar" || kind == "Torus";
      // chaotic ray?
      auto posOf = [&](const double *ic, double *P) { Met m; m.sph = ma.sph; cart(m, ic, NULL, P, NULL); };
      if (!ha && !hb) { ev("missed by both"); continue; }
      double P[3], Q[3]; if (ha != he) { ev("edge"); continue; }
      if (!ha) { // b reports a hit that a does not: near an edge?
        double zz[4]; (void) zz; static std::map<long, int> miss; ev("hit in one description only"); if (++miss[S().ncase] >= 3) CHECK("hits:" + K, false, "%d rays hit in the second description only (last at %s)", miss[S().ncase], vec(b.ic, 4).c_str()); continue; }
      posOf(a.ic, P); posOf(e.ic, Q); double sens = sqrt((P[0] - Q[0]) * (P[0] - Q[0]) + (P[1] - Q[1]) * (P[1] - Q[1]) + (P[2] - Q[2]) * (P[2] - Q[2])); if (sens > 3e-3) { ev("chaotic"); continue; }
      double rc = sqrt(P[0] * P[0] + P[1] * P[1]), mg = p.name == "KerrBL-KerrKS" && p.a != 0 ? 1.2 : .02; if (!vol && (fabs(rc - rout) < mg || fabs(rc - rin) < mg || rc < p.rh * 1.15)) { ev("edge"); continue; }
      if (vol) { // grazing rays
        static std::map<long, int> g; if (!hb) { ev("hit in one description only"); if (++g[S().ncase] >= 3) CHECK("hits:" + K, false, "%d rays hit in the first description only (last at %s)", g[S().ncase], vec(a.ic, 4).c_str()); continue; } }
      else { CHECK("hits:" + K, hb, "the ray hits at %s in the first description, nothing in the second", vec(a.ic, 4).c_str()); if (!hb) continue; }
      double ia[4], va[4], z4[4] = {0, 0, 0, 0}; inv(a.ic, z4, ia, va); double U[3], W[3]; Met m2; m2.sph = mb.sph; cart(m2, ia, NULL, U, NULL); cart(m2, b.ic, NULL, W, NULL); double D = sqrt((U[0] - W[0]) * (U[0] - W[0]) + (U[1] - W[1]) * (U[1] - W[1]) + (U[2] - W[2]) * (U[2] - W[2]));
      double tp = vol ? .05 * R + 10 * sens : 1e-3 + 10 * sens; if (p.name == "KerrBL-ChernSimons") tp += 5e-3; ev("impacts compared"); cal("pos " + K, D / tp);
      CHECK("impact:" + K, D <= tp, "impact %s instead of %s", vec(b.ic, 4).c_str(), vec(ia, 4).c_str());
      if (!thin) CHECK("time:" + K, fabs(b.t - ia[0]) <= tp + (vol ? .1 * R : 0), "emission date %.10g instead of %.10g", b.t, ia[0]); CHECK("date of the impact:" + K, !(fabs(b.t - b.ic[0]) > 1e-6 * (1 + fabs(b.t))) || vol || thin, "emission date %.10g, impact at %.10g", b.t, b.ic[0]);
      double tz = kind == "Star" ? .03 + 1.5 * R / rr0 : vol ? .01 : 3e-4 + 5 * sens; cal("z " + K, fabs(a.z / b.z - 1) / tz); ev("redshifts compared"); CHECK("redshift:" + K, V::close(a.z, b.z, tz), "redshift %.10g in the first description, %.10g in the second", a.z, b.z);
      double ti = kind == "Star" ? 4 * tz : vol ? (thin ? .05 : .04) : 2e-3 + 20 * sens; if (kind == "PageThorneDisk") ti = .01; double full = 0; bool weak = false; if (vol && thin) { static std::map<long, double> mx; double &m = mx[S().ncase]; m = std::max(m, a.I); full = m; weak = a.I < .5 * full; }
      if (!weak) { ev("intensities compared"); cal("I " + K, fabs(a.I / b.I - 1) / ti); CHECK("intensity:" + K, V::close(a.I, b.I, ti), "intensity %.10g in the first description, %.10g in the second", a.I, b.I); if (spec) for (size_t i = 0; i < a.S.size(); ++i) CHECK("spectrum:" + K, V::close(a.S[i], b.S[i], ti), "channel %zu: %.10g and %.10g", i, a.S[i], b.S[i]); }
    } }, p.name); }
} // namespace
int main(int c, char **v) { init(c, v); for (int rep = 0; rep < (S().thorough ? 6000 : 130); ++rep) if (mine()) one(); return done(); }
