// C10: a worldline answers the same whatever was asked before.
#include "geo.h"
#include <algorithm>
#include "GyotoScreen.h"
using namespace V; using namespace Gyoto;
struct Ans { double s[8]; double tau; };
static void get(Worldline *w, double t, Ans &a, bool proper = false) { state_t c(8); w->getCoord(t, c, proper); for (int i = 0; i < 8; ++i) a.s[i] = c[i]; double o, x1, x2, x3; w->getCoord(&t, 1, &x1, &x2, &x3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, &o, proper); a.tau = o; }
static void one(const std::string &fam, int rep) {
  Rng r = caseRng(); Met m = makeMet(fam, r); bool massive = r.p(.6); std::string integ = INTEG[r.p(.4) ? 0 : r.i(0, 4)]; bool tight = r.p(.6) && integ != "Legacy"; (void) rep;
  guard(fam + " " + integ + (massive ? " massive" : " photon"), [&]() {
    MetricP a = m.make(); distinct("metrics", m.xml); auto f = tensorOf(m, a); std::string K = fam + (integ == "Legacy" ? ":Legacy:" : ":") + (massive ? "" : "photon:");
    double x[4], u[4]; int tries = 0; do { point(m, r, x, massive ? 5 : 4, 60, .5); } while ((radius(m, x) < 2 || !launch(f, m, r, x, massive, u)) && ++tries < 400); if (tries >= 400) { ev("no launch"); return; }
    double c[8] = {x[0], x[1], x[2], x[3], u[0], u[1], u[2], u[3]}, R = radius(m, x), past = r.u(0, 1.2) * R, fut = r.u(.3, 1.5) * R; if (r.p(.3)) std::swap(past, fut);
    auto mk = [&](Line &L) { if (massive) L.star(); else L.photon(); L.w->integrator(integ); if (tight) { L.w->absTol(1e-9); L.w->relTol(1e-9); } L.w->setInitialCondition(a, c, 1); };
    std::string at = m.xml + " " + integ + (tight ? " tight" : "") + fmt(" from (%.9g %.9g %.9g %.9g | %.9g %.9g %.9g %.9g) [-%.6g,%.6g]", c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], past, fut);
    // stay where the whole interval exists, away from horizon and axis
    { Line L; mk(L); L.w->xFill(x[0] + fut); L.w->xFill(x[0] - past); state_t s; for (size_t i = L.w->getImin(); i <= L.w->getImax(); ++i) { s.clear(); L.w->getCoord(i, s); if (radius(m, &s[0]) < std::max(1.5, 1.6 * m.rmin + (m.sph ? 0 : .4)) || (m.sph && sin(s[2]) < .12)) { ev("skipped"); return; } } state_t e; L.w->getCoord(L.w->getImin(), e); if (e[0] > x[0] - past) { ev("skipped"); return; } e.clear(); L.w->getCoord(L.w->getImax(), e); if (e[0] < x[0] + fut) { ev("skipped"); return; } }
    int N = r.i(5, 25); std::vector<double> d(N); for (auto &t : d) t = x[0] + r.u(-past, fut); if (r.p(.5)) d[r.i(0, N - 1)] = x[0]; if (r.p(.5)) d[0] = d[N - 1]; if (r.p(.3)) std::sort(d.begin(), d.end()); else if (r.p(.3)) std::sort(d.rbegin(), d.rend());
    distinct("queries", at + fmt("%d %.17g", N, d[0])); ev(massive ? "massive" : "photons");
    double tol = fam == "MinkowskiSph" ? 1e-2 : 3e-3; // of the radius: interpolation between records
    auto cmp = [&](const char *what, const double *p, const double *q, double tp, bool vel = true) { double X[3], W[3], Y[3], Z[3]; cart(m, p, vel ? p + 4 : NULL, X, W); cart(m, q, vel ? q + 4 : NULL, Y, Z); double dx = 0, dv = 0; for (int j = 0; j < 3; ++j) { dx = std::max(dx, fabs(X[j] - Y[j]) / R); if (vel) dv = std::max(dv, fabs(W[j] - Z[j]) / fabs(c[4])); } if (vel) dv = std::max(dv, fabs(p[4] - q[4]) / fabs(c[4]));
      std::string cc = std::string(integ == "Legacy" ? "Legacy" : tight ? "tight" : "default") + (massive ? " massive " : " photon ") + fam; for (auto &ch : cc) (void) ch; std::string wn = what; std::replace(wn.begin(), wn.end(), ' ', '_'); if (tp > 1e-9) { cal(wn + " " + cc, dx); if (getenv("VDBG") && dx > ::atof(getenv("VDBG"))) fprintf(stderr, "DBG case %ld %s dx %g date %.9g (%.9g %.9g %.9g) vs (%.9g %.9g %.9g) %s\n", S().ncase, what, dx, p[0], p[1], p[2], p[3], q[1], q[2], q[3], at.c_str()); cal(wn + ".v " + cc, dv); }
      CHECK(K + what, dx <= tp && dv <= 4 * tp && p[0] == p[0], "at date %.9g: off by %g of R, %g in velocity: (%.9g %.9g %.9g) vs (%.9g %.9g %.9g) %s", p[0], dx, dv, p[1], p[2], p[3], q[1], q[2], q[3], at.c_str()); ev(what); };
    // reference: my own geodesic
    std::vector<Ans> ref(N); std::vector<char> okr(N, 0); for (int i = 0; i < N && i < 6; ++i) { St y; for (int j = 0; j < 8; ++j) y[j] = c[j]; y[8] = 0; double err = 0; St e = d[i] == c[0] ? y : refGeodesic(f, m, y, d[i], err); (void) err; for (int j = 0; j < 8; ++j) ref[i].s[j] = e[j]; ref[i].tau = e[8]; okr[i] = d[i] == c[0] || err < 1e-6; }
    Line A, B, C; mk(A); mk(B); mk(C); Worldline *wa = A.w, *wb = B.w, *wc = C.w;
    // A: one array; B: one by one in another order; C: filled first, in steps, then one by one
    std::vector<double> X1(N), X2(N), X3(N), D0(N), D1(N), D2(N), D3(N), O(N); wa->getCoord(&d[0], N, &X1[0], &X2[0], &X3[0], &D0[0], &D1[0], &D2[0], &D3[0], 0, 0, 0, 0, 0, 0, 0, 0, &O[0], false);
    std::vector<int> o(N); for (int i = 0; i < N; ++i) o[i] = i; for (int i = N - 1; i > 0; --i) std::swap(o[i], o[r.i(0, i)]);
    std::vector<Ans> b(N), cc(N); for (int i : o) get(wb, d[i], b[i]);
    for (int k = r.i(1, 4); k > 0; --k) wc->xFill(x[0] + r.u(-past, fut)); if (r.p(.5)) wc->xFill(x[0] + fut); for (int i : o) get(wc, d[i], cc[i]);
    for (int i = 0; i < N; ++i) { double q[8] = {d[i], X1[i], X2[i], X3[i], D0[i], D1[i], D2[i], D3[i]}; cmp("array vs single", q, b[i].s, tol); cmp("prefilled vs fresh", cc[i].s, b[i].s, tol); CHECK(K + "date", b[i].s[0] == d[i], "%.17g %.17g", b[i].s[0], d[i]); if (okr[i]) { cmp("vs reference geodesic", b[i].s, ref[i].s, 3 * tol);
        if (integ != "Legacy") { double e = fabs(b[i].tau - ref[i].tau) / R; cal(std::string("tau ") + (tight ? "tight" : "default") + (massive ? " massive " : " photon ") + fam, e); CHECK(K + "proper time of a date", e < 3 * tol, "tau %.9g expected %.9g %s", b[i].tau, ref[i].tau, at.c_str()); } }
      T44 g; f(b[i].s, g); double nn = dot(g, b[i].s + 4, b[i].s + 4), n0 = dot(g, c + 4, c + 4); (void) n0; double want = massive ? -1 : 0; CHECK(K + "norm of the answer", fabs(nn - want) < (massive ? 1e-3 : 3e-2) * (massive ? 1 : c[4] * c[4]), "%.9g at %.9g %s", nn, d[i], at.c_str()); }
    // now that nothing needs integrating, any way of asking is exactly the same
    Worldline *w = wa; w->xFill(x[0] + fut); w->xFill(x[0] - past); size_t n0 = w->get_nelements(); std::vector<Ans> s1(N); for (int i : o) get(w, d[i], s1[i]); std::vector<double> dd(d); std::vector<int> o2(o); for (int i = N - 1; i > 0; --i) std::swap(o2[i], o2[r.i(0, i)]); for (int i = 0; i < N; ++i) dd[i] = d[o2[i]];
    w->getCoord(&dd[0], N, &X1[0], &X2[0], &X3[0], &D0[0], &D1[0], &D2[0], &D3[0], 0, 0, 0, 0, 0, 0, 0, 0, &O[0], false); std::vector<double> Y1(N), Y2(N), Y3(N); w->getCoord(&dd[0], N, &Y1[0], &Y2[0], &Y3[0]);
    std::vector<double> Z0(N), Z1(N), Z2(N), Z3(N); w->getCoord(&dd[0], N, NULL, NULL, NULL, &Z0[0], &Z1[0], &Z2[0], &Z3[0]); std::vector<double> cx(N), cy(N), cz(N), vx(N), vy(N), vz(N); w->getCartesian(&dd[0], N, &cx[0], &cy[0], &cz[0], &vx[0], &vy[0], &vz[0]);
    for (int i = 0; i < N; ++i) { int k = o2[i]; double q[8] = {dd[i], X1[i], X2[i], X3[i], D0[i], D1[i], D2[i], D3[i]}; cmp("exact array vs single", q, s1[k].s, 1e-12); CHECK(K + "exact proper time", O[i] == s1[k].tau, "%.17g %.17g", O[i], s1[k].tau); double p[8] = {dd[i], Y1[i], Y2[i], Y3[i]}; cmp("positions only", p, q, 1e-12, false); double z[8] = {dd[i], X1[i], X2[i], X3[i], Z0[i], Z1[i], Z2[i], Z3[i]};
      if (Z2[i] * D2[i] >= 0 || !m.sph) cmp("velocities only", z, q, 1e-12);
      double X[3], W[3]; cart(m, q, q + 4, X, W); CHECK(K + "getCartesian", close(cx[i], X[0], 1e-12, 1e-12 * R) && close(cy[i], X[1], 1e-12, 1e-12 * R) && close(cz[i], X[2], 1e-12, 1e-12 * R) && close(vx[i], W[0] / q[4], 1e-11, 1e-11) && close(vy[i], W[1] / q[4], 1e-11, 1e-11) && close(vz[i], W[2] / q[4], 1e-11, 1e-11), "(%g %g %g | %g %g %g) vs (%g %g %g | %g %g %g)", cx[i], cy[i], cz[i], vx[i], vy[i], vz[i], X[0], X[1], X[2], W[0] / q[4], W[1] / q[4], W[2] / q[4]); }
    CHECK(K + "queries inside integrate nothing", w->get_nelements() == n0, "%zu %zu %s", n0, w->get_nelements(), at.c_str());
    // proper-time queries name the same event
    if (integ != "Legacy" && massive) for (int i = 0; i < N && i < 6; ++i) { state_t q(8); w->getCoord(s1[i].tau, q, true); double p[8]; for (int j = 0; j < 8; ++j) p[j] = q[j]; cmp("by proper time", p, s1[i].s, 3 * tol); CHECK(K + "date by proper time", fabs(q[0] - d[i]) < 3 * tol * R, "%.9g %.9g", q[0], d[i]); }
    // records: monotonic, returned as they are, same in all accessors
    size_t n = w->get_nelements(), i0 = w->getImin(); std::vector<double> t(n), tau(n), gx(n), gy(n), gz(n), p1(n), p2(n), p3(n), q0(n), q1(n), q2(n), q3(n), e0(n), e1(n), e2(n), e3(n), ra(n), de(n), di(n); w->get_t(&t[0]); w->get_tau(&tau[0]); w->get_xyz(&gx[0], &gy[0], &gz[0]); w->get_prime(&p1[0], &p2[0], &p3[0]); w->get_dot(&q0[0], &q1[0], &q2[0], &q3[0]); w->getCoord(&e0[0], &e1[0], &e2[0], &e3[0]);
    Screen *sc = new Screen(); ScreenP scp(sc); sc->metric(a); sc->distance(1000, "geometrical"); sc->inclination(r.u(.2, 2.8)); sc->PALN(r.u(0, 6)); sc->argument(r.u(0, 6)); w->getSkyPos(scp, &ra[0], &de[0], &di[0]);
    state_t q; bool seen0 = false; for (size_t i = 0; i < n; ++i) { q.clear(); w->getCoord(i0 + i, q); if (i) { CHECK(K + "dates increase", t[i] > t[i - 1], "record %zu: %.17g after %.17g %s", i, t[i], t[i - 1], at.c_str()); if (integ != "Legacy") CHECK(K + "proper times increase", tau[i] > tau[i - 1], "%.17g %.17g", tau[i], tau[i - 1]); }
      double X[3], W[3], CP[4]; cart(m, &q[0], &q[4], X, W); w->getCartesianPos(i0 + i, CP); CHECK(K + "accessors", q[0] == t[i] && e0[i] == t[i] && e1[i] == q[1] && e2[i] == q[2] && e3[i] == q[3] && q0[i] == q[4] && q1[i] == q[5] && q2[i] == q[6] && q3[i] == q[7] && close(p1[i], q[5] / q[4], 1e-13) && close(p2[i], q[6] / q[4], 1e-13) && close(p3[i], q[7] / q[4], 1e-13) && close(gx[i], X[0], 1e-13, 1e-13 * R) && close(gy[i], X[1], 1e-13, 1e-13 * R) && close(gz[i], X[2], 1e-13, 1e-13 * R) && CP[0] == t[i] && close(CP[1], X[0], 1e-13, 1e-13 * R) && close(CP[2], X[1], 1e-13, 1e-13 * R) && close(CP[3], X[2], 1e-13, 1e-13 * R), "record %zu of %zu %s", i, n, at.c_str());
      double pos[4] = {q[0], q[1], q[2], q[3]}, sky[3]; sc->coordToSky(pos, sky); CHECK(K + "sky", sky[0] == ra[i] && sky[1] == de[i] && sky[2] == di[i], "record %zu", i); ev("records");
      if (i0 + i == w->getI0()) { seen0 = true; bool eq = true; for (int j = 0; j < 8; ++j) eq = eq && q[j] == c[j]; CHECK(K + "initial record", eq && tau[i] == 0, "%s", at.c_str()); }
      if (r.p(.1) || i == 0 || i + 1 == n) { Ans h; get(w, t[i], h); double p[8]; for (int j = 0; j < 8; ++j) p[j] = q[j]; cmp("query at a record", h.s, p, 1e-13); CHECK(K + "proper time at a record", h.tau == tau[i], "%g %g", h.tau, tau[i]); } }
    CHECK(K + "initial record", seen0, "gone"); 
    // text output
    { char fn[] = "/tmp/vlineXXXXXX"; int fd = mkstemp(fn); ::close(fd); w->save_txyz(fn); FILE *F = fopen(fn, "r"); size_t k = 0; double T, A1, A2, A3; bool good = true; while (F && fscanf(F, "%lf %lf %lf %lf", &T, &A1, &A2, &A3) == 4) { if (k >= n || !V::close(T, t[k], 1e-10, 1e-9) || !V::close(A1, gx[k], 1e-10, 1e-9 * R) || !V::close(A2, gy[k], 1e-10, 1e-9 * R) || !V::close(A3, gz[k], 1e-10, 1e-9 * R)) good = false; ++k; } if (F) fclose(F); CHECK(K + "saved text", good && k == n, "%zu lines for %zu records", k, n); ev("saved");
      w->save_txyz(fn, t[n - 1], 1e6, 8., "geometrical"); F = fopen(fn, "r"); char line[1024]; k = 0; good = true; while (F && fgets(line, sizeof line, F)) { if (line[0] == '#') continue; if (sscanf(line, "%lf %lf %lf %lf", &T, &A1, &A2, &A3) != 4) continue; if (k >= n || !V::close(T, t[k], 1e-5, 1e-5) || !V::close(A1, gx[k], 1e-5, 1e-5 * R) || !V::close(A2, gy[k], 1e-5, 1e-5 * R) || !V::close(A3, gz[k], 1e-5, 1e-5 * R)) good = false; ++k; } if (F) fclose(F); unlink(fn); CHECK(K + "saved converted text", good && k == n, "%zu lines for %zu records", k, n); }
    // a small state vector holds a position only
    { state_t four(4); w->getCoord(i0, four); CHECK(K + "position vector", four.size() == 4 && four[0] == t[0], "size"); state_t f2(4); w->getCoord(d[0], f2, false); double p[8] = {d[0], f2[1], f2[2], f2[3]}; cmp("position vector", p, s1[0].s, 1e-12, false); }
    // changing what the trajectory depends on restarts it; resetting forgets
    w->reset(); CHECK(K + "reset", w->get_nelements() == 1, "%zu", w->get_nelements()); Ans h; get(w, d[0], h); cmp("after reset", h.s, b[0].s, tol); }, fam + ":" + integ); }
int main(int c, char **v) { init(c, v); for (int rep = 0; rep < (S().thorough ? 80 : 16); ++rep) for (auto &f : metricFamilies()) if (mine()) one(f, rep); return done(); }
