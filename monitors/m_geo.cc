// C09: recorded trajectories obey the geodesic equation and keep the constants of motion.
#include "geo.h"
using namespace V; using namespace Gyoto;
static void one(const std::string &fam, int rep) {
  Rng r = caseRng(); Met m = makeMet(fam, r);
  bool massive = r.p(.5); std::string integ = INTEG[r.i(0, 4)]; bool back = r.p(.5), i31 = fam == "KerrBL" && integ != "Legacy" && r.p(.25); 
  guard(fam + " " + integ + (massive ? " massive" : " photon") + (i31 ? " 3+1" : ""), [&]() {
    MetricP a = m.make(); bool axial = (fam == "MinkowskiSph" || fam == "ReissnerNordstrom" || fam == "SchwarzschildHarmonic" || fam == "RezzollaZhidenko") && rep % 2; distinct("metrics", m.xml); auto f = tensorOf(m, a); double sp = kerrSpin(fam, m);
    std::string K = fam + ":" + integ + (i31 ? ":3+1" : "") + ":";
    for (int k = 0; k < (S().thorough ? 8 : 3); ++k) {
      double x[4], u[4]; int tries = 0; do { point(m, r, x, massive ? 3.5 : 2.2, 60, .3); } while ((radius(m, x) < 2 || !launch(f, m, r, x, massive, u, axial)) && ++tries < 400); if (tries >= 400) { ev("no launch"); return; }
      Line L; if (massive) L.star(); else L.photon(); Worldline *w = L.w; double c[8] = {x[0], x[1], x[2], x[3], u[0], u[1], u[2], u[3]};
      w->integrator(integ); if (i31) w->integ31(true); bool tight = integ != "Legacy" && r.p(.5), fixed = !tight && !axial && r.p(.3); if (tight) { w->absTol(1e-9); w->relTol(1e-9); } if (fixed) { w->adaptive(false); w->delta(.02); }
      double R = radius(m, x); w->setInitialCondition(a, c, back ? -1 : 1); double span = fixed ? r.u(1, 10) : r.u(.5, 6) * R; w->xFill(x[0] + (back ? -span : span));
      size_t i0 = w->getImin(), i1 = w->getImax(); std::string at = m.xml + fmt(" from (%.9g %.9g %.9g %.9g | %.9g %.9g %.9g %.9g) %s%s", c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], back ? "backward" : "forward", tight ? " tight" : fixed ? " fixed" : "");
      CHECK(K + "records", i1 > i0 && (back ? w->getI0() == i1 : w->getI0() == i0), "imin %zu i0 %zu imax %zu %s", i0, w->getI0(), i1, at.c_str()); if (i1 <= i0) continue;
      Consts c0 = constants(f, m, sp, c); std::vector<double> tau(i1 - i0 + 1); w->get_tau(&tau[0]); distinct("trajectories", at); ev(massive ? "massive" : "photons"); ev(back ? "backward" : "forward"); ev(integ); if (i31) ev("3+1");
      state_t s, t; double sE = std::max(fabs(c0.E), 1e-3 * fabs(u[0])); bool pole = false; size_t n = 0;
      // the part of the trajectory away from horizon and axis
      std::vector<char> good(i1 - i0 + 1, 0); long dirn = back ? -1 : 1; bool ok = true, crossed = false;
      for (long i = w->getI0(); ok && i >= (long) i0 && i <= (long) i1; i += dirn) { s.clear(); w->getCoord(size_t(i), s); double rr = radius(m, &s[0]); if (!(rr > std::max(1., 1.35 * m.rmin + (m.sph ? 0 : .3))) || (m.sph && sin(s[2]) < .05 && !axial)) { ok = false; pole = m.sph && sin(s[2]) < .05; } else if (axial && sin(s[2]) < .05) crossed = true; else { good[i - i0] = 1; ++n; } }
      if (crossed) ev("axis crossings followed"); if (n < 2) { ev("skipped"); continue; } if (pole) ev("axis crossings (cut)");
      double tolc = integ == "Legacy" && !fixed ? 1e-3 : fixed ? 1e-4 : tight ? 2e-6 : 3e-4; if (axial) tolc *= 20; if (fam == "ChernSimons" && integ == "Legacy") tolc *= 10; std::string cls = std::string(integ == "Legacy" ? (fixed ? "Legacyfixed" : "Legacy") : fixed ? "fixed" : tight ? "tight" : "default") + (massive ? " massive " : " photon ");
      for (size_t i = i0; i <= i1; ++i) { if (!good[i - i0]) continue; s.clear(); w->getCoord(i, s); Consts q = constants(f, m, sp, &s[0]); double rr = std::max(R, radius(m, &s[0])), sL = std::max(fabs(c0.L), sE * R);
        double eN = fabs(q.norm - c0.norm) / (massive ? 1 : std::max(sE * sE, s[4] * s[4])), eE = fabs(q.E - c0.E) / sE, eL = fabs(q.L - c0.L) / sL; (void) rr; std::string cc = cls + fam; cal("norm " + cc, eN); cal("E " + cc, eE); cal("L " + cc, eL); ev("states");
        CHECK(K + "norm", eN < tolc, "norm %.10g -> %.10g at record %zu of %zu-%zu %s", c0.norm, q.norm, i, i0, i1, at.c_str()); CHECK(K + "energy", eE < tolc, "%.10g -> %.10g at record %zu %s", c0.E, q.E, i, at.c_str());
        CHECK(K + "angular momentum", eL < tolc, "%.10g -> %.10g at record %zu %s", c0.L, q.L, i, at.c_str());
        if (sp == sp) { double eQ = fabs(q.Q - c0.Q) / std::max(fabs(c0.Q), sL * sL); cal("Q " + cc, eQ); CHECK(K + "carter", eQ < 5 * tolc, "%.10g -> %.10g at record %zu %s", c0.Q, q.Q, i, at.c_str()); ev("carter"); } }
      if (fam == "MinkowskiSph" || fam == "Minkowski") { double X0[3], V0[3]; cart(m, c, c + 4, X0, V0); for (size_t i = i0; i <= i1; ++i) { if (!good[i - i0]) continue; s.clear(); w->getCoord(i, s); double X[3], W[3]; cart(m, &s[0], &s[4], X, W); double e = 0; for (int j = 0; j < 3; ++j) e = std::max(e, fabs(X[j] - X0[j] - V0[j] / c[4] * (s[0] - c[0]))); cal("line " + cls + fam, e / std::max(R, span)); CHECK(K + "straight line", e < 20 * tolc * std::max(R, span), "off by %g at record %zu %s", e, i, at.c_str()); ev("straight lines"); } }
      // recorded states follow one another along the geodesic
      for (int z = 0; z < 6; ++z) { size_t i = r.i(i0, i1 - 1); if (!good[i - i0] || !good[i + 1 - i0]) continue; bool rev = r.p(.5); s.clear(); t.clear(); w->getCoord(rev ? i + 1 : i, s); w->getCoord(rev ? i : i + 1, t); double ta = tau[(rev ? i + 1 : i) - i0], tb = tau[(rev ? i : i + 1) - i0];
        CHECK(K + "dates", t[0] != s[0] && (t[0] > s[0]) == !rev, "%g %g %s", s[0], t[0], at.c_str()); St y; for (int j = 0; j < 8; ++j) y[j] = s[j]; y[8] = ta; double err; St e = refGeodesic(f, m, y, t[0], err); if (err > 1e-6) { ev("reference not converged"); continue; }
        double X[3], W[3], X1[3], W1[3]; cart(m, &t[0], &t[4], X, W); cart(m, &e[0], &e[4], X1, W1); double dx = 0, dv = 0, h = fabs(t[0] - s[0]); for (int j = 0; j < 3; ++j) { dx = std::max(dx, fabs(X[j] - X1[j])); dv = std::max(dv, fabs(W[j] - W1[j]) / fabs(s[4])); } dv = std::max(dv, fabs(t[4] - e[4]) / fabs(s[4]));
        double tl = integ == "Legacy" && !fixed ? (fam == "ChernSimons" ? 5e-3 : 1e-4) : fixed ? (fam == "ChernSimons" && integ == "Legacy" ? 2e-4 : 1e-6) : tight ? 2e-7 : 5e-5; std::string cc = cls + fam; cal("dx " + cc, dx / std::max(R, h)); cal("dv " + cc, dv); ev("steps followed");
        CHECK(K + "step position", dx < tl * std::max(R, h), "off by %g over a step of %g %s", dx, h, at.c_str()); CHECK(K + "step velocity", dv < tl * 3, "off by %g over a step of %g %s", dv, h, at.c_str());
        if (integ != "Legacy") { double dt = fabs(tb - e[8]) / std::max(fabs(tb - ta), 1e-3 * h); cal("dtau " + cc, dt); CHECK(K + "proper time", dt < (i31 ? .2 : tl * 10), "tau %.10g expected %.10g, step %g %s", tb, e[8], h, at.c_str()); } } } }, fam + ":" + integ); }
int main(int c, char **v) { init(c, v); for (int rep = 0; rep < (S().thorough ? 60 : 14); ++rep) for (auto &f : metricFamilies()) { if (mine()) one(f, rep); } return done(); }
