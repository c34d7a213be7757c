// C23: orbits, characteristic radii and 4-velocity helpers agree with the tensor.
#include "metrics.h"
using namespace V; using namespace Gyoto;
static void one(const std::string &fam) {
  Rng r = caseRng(); Met m = makeMet(fam, r);
  guard(fam, [&]() {
    MetricP a = m.make(); distinct("metrics", m.xml); sample(m.xml);
    auto K = [&](const char *w) { return fam + ":" + w; };
    bool hasCirc = fam != "Minkowski" && fam != "MinkowskiSph" && fam != "BalasinGrumiller" && fam != "ShiftKS" && fam != "ComplexKS";
    bool smallRadius = fam == "BalasinGrumiller";
    int N = S().thorough ? 60 : 15;
    for (int k = 0; k < N; ++k) {
      // --- circular orbits in the equatorial plane are geodesics
      if (hasCirc) for (int dir = -1; dir <= 1; dir += 2) {
        double rr = r.p(.5) ? r.u(10, 30) : r.lu(10, 500), ph = r.u(-4, 4), x[4] = {r.u(-9, 9), rr, M_PI / 2, ph}; if (!m.sph) { x[1] = rr * cos(ph); x[2] = rr * sin(ph); x[3] = 0; }
        std::string at = fmt("%s dir=%d at (%.10g %.10g %.10g)", m.xml.c_str(), dir, x[1], x[2], x[3]);
        double u[4]; a->circularVelocity(x, u, dir); T44 g; a->gmunu(g, x); T444 F, G; fdJac([&](const double *y, T44 o) { a->gmunu(o, y); }, m, x, F); gammaFrom(g, F, G);
        CHECK(K("circular-unit"), fabs(dot(g, u, u) + 1) < 1e-9 && u[0] > 0, "u.u=%.15g u^t=%g %s", dot(g, u, u), u[0], at.c_str());
        double Om = m.sph ? u[3] / u[0] : (x[1] * u[2] - x[2] * u[1]) / (rr * rr) / u[0];
        CHECK(K("circular-sense"), Om * dir > 0 && (m.sph ? u[1] == 0 && u[2] == 0 : fabs(x[1] * u[1] + x[2] * u[2]) < 1e-9 * rr && u[3] == 0), "Omega=%g %s", Om, at.c_str());
        double acc[4], sc = Om * Om * rr * u[0] * u[0]; for (int i = 0; i < 4; ++i) { acc[i] = 0; for (int p = 0; p < 4; ++p) for (int q = 0; q < 4; ++q) acc[i] += G[i][p][q] * u[p] * u[q]; }
        if (!m.sph) { acc[1] += -Om * u[0] * u[2]; acc[2] += Om * u[0] * u[1]; }
        double am = std::max(fabs(acc[1]), m.sph ? 0 : fabs(acc[2]));
        double tol = 1e-5 ;
        CHECK(K("circular-geodesic"), am < tol * sc, "acceleration %.4g of centripetal %.4g, Omega=%.12g %s", am, sc, Om, at.c_str());
        ev("circular orbits");
        // angular momentum and energy the library gives for that orbit
        if (dir == 1 && (fam == "KerrBL" || fam == "Hayward" || fam == "ReissnerNordstrom" || fam == "RezzollaZhidenko")) {
          double ut = 0, up = 0; for (int i = 0; i < 4; ++i) { ut += g[0][i] * u[i]; up += g[3][i] * u[i]; }
          CHECK_CLOSE(K("angular-momentum"), a->getSpecificAngularMomentum(rr), -up / ut, 1e-8, 0, "l " + at); ev("angular momenta"); }
        // off the equatorial plane: unit, same angular velocity as at the projected radius
        double th = r.u(1., 2.1), y[4] = {x[0], rr, th, ph}; if (!m.sph) { y[1] = rr * sin(th) * cos(ph); y[2] = rr * sin(th) * sin(ph); y[3] = rr * cos(th); }
        double w[4]; a->circularVelocity(y, w, dir); a->gmunu(g, y); CHECK(K("offplane-unit"), fabs(dot(g, w, w) + 1) < 1e-9 && w[0] > 0, "u.u=%.15g u^t=%g theta=%g %s", dot(g, w, w), w[0], th, at.c_str());
      }
      // --- Newtonian-Keplerian option
      if (fam == "KerrBL" || fam == "KerrKS" || fam == "ChernSimons" || fam == "KonoplyaRezzollaZhidenko0" || fam == "Minkowski" || fam == "MinkowskiSph") { int dir = r.p(.5) ? 1 : -1;
        double rr = r.lu(10, 300), th = r.u(1., 2.1), ph = r.u(-4, 4), x[4] = {0, rr, th, ph}, u[4]; if (!m.sph) { x[1] = rr * sin(th) * cos(ph); x[2] = rr * sin(th) * sin(ph); x[3] = rr * cos(th); }
        a->keplerian(true); a->circularVelocity(x, u, dir); a->keplerian(false); T44 g; a->gmunu(g, x); double rho = rr * sin(th);
        double Om = m.sph ? u[3] / u[0] : (x[1] * u[2] - x[2] * u[1]) / (rho * rho) / u[0];
        CHECK(K("keplerian"), fabs(dot(g, u, u) + 1) < 1e-9 && close(Om, dir * pow(rho, -1.5), 1e-10), "u.u=%.15g Omega=%.12g expected %.12g", dot(g, u, u), Om, dir * pow(rho, -1.5)); ev("keplerian"); }
      // --- velocity helpers at any regular point
      { double x[8]; point(m, r, x, 1.2, 1e3, .2); double e[4]; scales(m, x, e); T44 g; a->gmunu(g, x); double smax = 0, umax = 0; T44 gi; invert4(g, gi); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { smax = std::max(smax, fabs(g[i][j] / (e[i] * e[j]))); umax = std::max(umax, fabs(gi[i][j] * e[i] * e[j])); }
        std::string at = fmt("%s at (%.10g %.10g %.10g)", m.xml.c_str(), x[1], x[2], x[3]); double T = 1e-10 * smax * smax * umax;
        double u[4]; a->zamoVelocity(x, u);
        double ep[4] = {0, 0, 0, 1 / e[3]}; if (!m.sph) { double ph = atan2(x[2], x[1]); ep[1] = -sin(ph); ep[2] = cos(ph); ep[3] = 0; }
        // generic implementation starts from d_t, which has to be time-like once freed of rotation
        if (gi[0][0] < 0 && (m.sph || g[0][0] < 0)) { CHECK(K("zamo-unit"), fabs(dot(g, u, u) + 1) < T && u[0] > 0, "u.u=%.15g %s", dot(g, u, u), at.c_str());
          CHECK(K("zamo-no-angular-momentum"), fabs(dot(g, u, ep)) < T, "u.ephi=%.3g %s", dot(g, u, ep), at.c_str());
          if (m.sph) CHECK(K("zamo-static"), u[1] == 0 && u[2] == 0, "u^r=%g u^th=%g", u[1], u[2]); ev("zamos"); }
        // time-like direction: observer n plus a small spatial 3-velocity
        if (gi[0][0] < 0) { double n[4], v[4], sp[4] = {0, r.u(-1, 1) / e[1], r.u(-1, 1) / e[2], r.u(-1, 1) / e[3]}; for (int i = 0; i < 4; ++i) n[i] = -gi[0][i] / sqrt(-gi[0][0]);
          double s2 = dot(g, sp, sp), be = r.u(0, .95); for (int i = 0; i < 4; ++i) v[i] = n[i] + be * sp[i] / sqrt(s2); // sp is orthogonal to n (sp^t=0)
          double V3[3] = {v[1] / v[0], v[2] / v[0], v[3] / v[0]}, td = a->SysPrimeToTdot(x, V3), w[4] = {td, td * V3[0], td * V3[1], td * V3[2]};
          double Tg = 1e-9 * smax / (1 - be * be) * td * td;
          CHECK(K("SysPrimeToTdot"), td > 0 && fabs(dot(g, w, w) + 1) < Tg, "tdot=%g u.u=%.15g beta=%g %s", td, dot(g, w, w), be, at.c_str());
          double y[8]; memcpy(y, x, 4 * sizeof(double)); for (int i = 0; i < 4; ++i) y[4 + i] = v[i] * r.u(.999, 1.001) * 0 + v[i] * 3.7; 
          a->normalizeFourVel(y); CHECK(K("normalizeFourVel"), fabs(dot(g, y + 4, y + 4) + 1) < Tg && y[4] > 0, "u.u=%.15g %s", dot(g, y + 4, y + 4), at.c_str());
          for (int i = 0; i < 3; ++i) CHECK(K("normalizeFourVel-direction"), close(y[5 + i] / y[4], V3[i], 1e-10, 1e-12 / e[i + 1]), "v^%d=%.15g was %.15g %s", i, y[5 + i] / y[4], V3[i], at.c_str());
          double z[4]; for (int i = 0; i < 4; ++i) z[i] = v[i] * .31; a->normalizeFourVel(x, z); for (int i = 0; i < 4; ++i) CHECK(K("normalizeFourVel-2"), close(z[i], y[4 + i], 1e-9, 1e-11 / e[i]), "component %d %.15g vs %.15g", i, z[i], y[4 + i]);
          // faster than light
          for (int i = 0; i < 4; ++i) v[i] = n[i] + r.u(1.02, 3) * sp[i] / sqrt(s2); double W3[3] = {v[1] / v[0], v[2] / v[0], v[3] / v[0]};
          if (v[0] > 0) { double t = a->SysPrimeToTdot(x, W3); CHECK(K("superluminal"), !(t > 0) || !std::isfinite(t), "tdot=%g for a space-like direction %s", t, at.c_str()); }
          // null directions
          double c1[8], c2[8], t2 = 0; memcpy(c1, x, 4 * sizeof(double)); memcpy(c1 + 4, sp, sizeof sp); c1[4] = 99; memcpy(c2, c1, sizeof c1);
          if (g[0][0] < 0) { // inside an ergosphere not every spatial direction has a null lift
          a->nullifyCoord(c1); a->nullifyCoord(c2, t2);
          double big = std::max(1., c1[4] * c1[4]) * smax + smax * smax;
          CHECK(K("nullify"), fabs(dot(g, c1 + 4, c1 + 4)) < 1e-9 * big && close(c1[4], c2[4], 1e-12, 1e-12), "k.k=%.3g k^t=%g %g %s", dot(g, c1 + 4, c1 + 4), c1[4], c2[4], at.c_str());
          for (int i = 1; i < 4; ++i) CHECK(K("nullify-space"), c1[4 + i] == sp[i] && c2[4 + i] == sp[i], "space component %d changed %s", i, at.c_str());
          double p2[4] = {t2, sp[1], sp[2], sp[3]}; if (g[0][0] < 0) CHECK(K("nullify-future"), dot(g, c1 + 4, n) < 0 && dot(g, p2, n) > 0, "k.n=%g, other root %g %s", dot(g, c1 + 4, n), dot(g, p2, n), at.c_str());
          if (std::isfinite(t2)) CHECK(K("nullify-other"), fabs(dot(g, p2, p2)) < 1e-9 * (big + t2 * t2 * smax), "other root %g: k.k=%.3g %s", t2, dot(g, p2, p2), at.c_str());
          ev("null lifts"); }
          ev("velocity helpers");
          // orthonormal frames
          double f0[4], f1[4], f2[4], f3[4]; memcpy(f0, z, sizeof f0);
          for (int ok = 0; ok < 2; ++ok) { obskind_t kind = ok ? GYOTO_OBSKIND_ZAMO : GYOTO_OBSKIND_VELOCITYSPECIFIED; if (ok && !(m.sph || g[0][0] < 0)) continue; if (!ok && be > .9) continue; if (umax * smax > 1e3) continue; if (fam == "Minkowski") continue; /* tetrads are only provided in spherical coordinates there */ if (m.sph && m.kind == "BalasinGrumiller") continue;
            memcpy(f0, z, sizeof f0); a->observerTetrad(kind, x, f0, f1, f2, f3); double *ff[4] = {f0, f1, f2, f3};
            for (int i = 0; i < 4; ++i) for (int j = 0; j <= i; ++j) CHECK(K("tetrad"), fabs(dot(g, ff[i], ff[j]) - (i == j ? (i ? 1 : -1) : 0)) < 1e-8, "e%d.e%d=%.12g (%s) %s", i, j, dot(g, ff[i], ff[j]), ok ? "ZAMO" : "velocity", at.c_str()); ev("tetrads"); } }
        // potential
        if (fam == "KerrBL" || fam == "Hayward" || fam == "ReissnerNordstrom" || fam == "RezzollaZhidenko") { double l = r.u(0, 3.5), arg = -(gi[0][0] - 2 * l * gi[0][3] + l * l * gi[3][3]); 
          if (arg > 1e-3 && g[0][0] < 0) { double W = a->getPotential(x, l); CHECK_CLOSE(K("potential"), W, .5 * log(arg), 1e-8, 1e-9, "W " + at + fmt(" l=%g", l)); ev("potentials"); } } }
    }
    (void) smallRadius;
    if (m.kind == "KerrBL") { double rms = a->getRms(), rmb = a->getRmb(); 
      auto E = [&](double rr) { double x[4] = {0, rr, M_PI / 2, 0}, u[4]; T44 g; a->gmunu(g, x); a->circularVelocity(x, u, 1); return -(g[0][0] * u[0] + g[0][3] * u[3]); };
      double h = 3e-3 * rms, d1 = (E(rms + h) - E(rms - h)) / (2 * h), d2 = (E(rms + h) - 2 * E(rms) + E(rms - h)) / (h * h);
      CHECK(K("rms"), d2 > 0 && fabs(d1) < 0.02 * d2 * rms, "dE/dr=%.3g d2E=%.3g at rms=%.12g %s", d1, d2, rms, m.xml.c_str());
      CHECK(K("rmb"), fabs(E(rmb * (1 + 1e-9)) - 1) < 1e-5 && rmb < rms, "E=%.12g at rmb=%.12g %s", E(rmb * (1 + 1e-9)), rmb, m.xml.c_str()); ev("characteristic radii"); }
    if (m.kind == "RezzollaZhidenko") { double p = r.u(4, 9), q = r.u(2, 4); a->set("Rms", p); a->set("Rmb", q); CHECK(K("rms-set"), a->getRms() == p && a->getRmb() == q, "Rms %g Rmb %g", a->getRms(), a->getRmb()); MetricP b = a->clone(); CHECK(K("rms-clone"), b->getRms() == p && b->getRmb() == q, "clone Rms %g Rmb %g vs %g %g", b->getRms(), b->getRmb(), p, q); }
    if (m.kind == "KonoplyaRezzollaZhidenko") { double p = r.u(4, 9); a->set("Rms", p); CHECK(K("rms-set"), a->getRms() == p, "Rms %g", a->getRms()); }
  }, fam); }
int main(int c, char **v) { init(c, v); int reps = S().thorough ? 300 : 80;
  for (int k = 0; k < reps; ++k) for (auto &f : metricFamilies()) { if (!mine()) continue; one(f); }
  return done(); }
