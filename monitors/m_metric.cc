// C08: every metric is a consistent Lorentzian geometry.
#include "metrics.h"
using namespace V; using namespace Gyoto;
static double worstG = 0, worstC = 0;
static void one(const std::string &fam, int rep) {
  Rng r = caseRng(); Met m = makeMet(fam, r);
  guard(fam, [&]() {
    MetricP a = m.make(), b = m.make(), c = m.make(); distinct("metrics", m.xml); if (rep == 0) sample(m.xml);
    auto K = [&](const char *w) { return fam + ":" + w; };
    CHECK(K("coordkind"), a->coordKind() == (m.sph ? GYOTO_COORDKIND_SPHERICAL : GYOTO_COORDKIND_CARTESIAN), "coordKind %d", a->coordKind());
    int N = S().thorough ? 60 : 12;
    for (int k = 0; k < N; ++k) {
      double x[8]; point(m, r, x); double e[4]; scales(m, x, e); double R = radius(m, x); ev("points");
      std::string at = fmt("%s at (%.10g %.10g %.10g %.10g)", m.xml.c_str(), x[0], x[1], x[2], x[3]);
      T44 g, gc, gu, guc, P; T444 G, Gc, J, J2, F, GF;
      // a: matrix accessors first; b: coefficient accessors first; c: the derived ones first
      a->gmunu(g, x);
      for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) gc[i][j] = b->gmunu(x, i, j);
      T44 s; // physical components
      for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { s[i][j] = g[i][j] / (e[i] * e[j]); 
        CHECK(K("gmunu-accessors"), close(g[i][j], gc[i][j], 1e-12, 1e-13 * e[i] * e[j]), "g[%d][%d] matrix %.17g coefficient %.17g %s", i, j, g[i][j], gc[i][j], at.c_str());
        CHECK(K("symmetric"), close(g[i][j], g[j][i], 1e-14, 1e-15 * e[i] * e[j]) && close(gc[i][j], gc[j][i], 1e-14, 1e-15 * e[i] * e[j]), "g[%d][%d]=%.17g g[%d][%d]=%.17g %s", i, j, g[i][j], j, i, g[j][i], at.c_str()); }
      double smax = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) smax = std::max(smax, fabs(s[i][j]));
      CHECK(K("signature"), negatives(s) == 1, "%d negative eigenvalues %s", negatives(s), at.c_str());
      if (m.g) { m.g(x, P); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j)
        CHECK(K("published-tensor"), close(g[i][j], P[i][j], 1e-9, 1e-11 * smax * e[i] * e[j]), "g[%d][%d]=%.17g, published %.17g %s", i, j, g[i][j], P[i][j], at.c_str()); }
      // inverse
      c->gmunu_up(gu, x); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) guc[i][j] = b->gmunu_up(x, i, j);
      double umax = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) umax = std::max(umax, fabs(gu[i][j] * e[i] * e[j]));
      double tolI = 1e-12 * smax * umax + 1e-11;
      for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { double d = 0, d2 = 0; for (int l = 0; l < 4; ++l) { d += gu[i][l] * g[l][j]; d2 += guc[i][l] * g[l][j]; }
        double f = e[i] / e[j];
        CHECK(K("inverse"), fabs(d - (i == j)) * f <= tolI, "(gup.g)[%d][%d]=%.17g %s", i, j, d, at.c_str());
        CHECK(K("inverse-coef"), fabs(d2 - (i == j)) * f <= tolI, "(gup.g)[%d][%d]=%.17g %s", i, j, d2, at.c_str()); }
      // connection
      c->christoffel(G, x); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int l = 0; l < 4; ++l) Gc[i][j][l] = b->christoffel(x, i, j, l);
      fdJac([&](const double *y, T44 o) { a->gmunu(o, y); }, m, x, F); gammaFrom(g, F, GF);
      double gmax = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int l = 0; l < 4; ++l) gmax = std::max(gmax, fabs(GF[i][j][l] * e[i] / (e[j] * e[l])));
      // forward differences with h=1e-7: rounding eps*|g|/h in coordinate components, truncation h*g''/2
      double tolC = m.exactJac ? 2e-7 * (gmax + 1 / R) : 3e-6 * (gmax + 1 / R) + 1e-8 * umax * smax;
      if (m.kind == "Complex" || m.kind == "Shift" || m.kind == "KerrKS") tolC = 2e-7 * (gmax + 1 / R);
      for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int l = 0; l < 4; ++l) { double sc = e[i] / (e[j] * e[l]);
        worstC = std::max(worstC, fabs(G[i][j][l] - GF[i][j][l]) * sc / tolC);
        CHECK(K("christoffel"), fabs(G[i][j][l] - GF[i][j][l]) * sc <= tolC, "Gamma^%d_%d%d=%.12g, from the tensor %.12g (tol %.3g, max %.3g) %s", i, j, l, G[i][j][l] * sc, GF[i][j][l] * sc, tolC, gmax, at.c_str());
        CHECK(K("christoffel-coef"), fabs(Gc[i][j][l] - GF[i][j][l]) * sc <= tolC, "coefficient Gamma^%d_%d%d=%.12g, from the tensor %.12g (tol %.3g) %s", i, j, l, Gc[i][j][l] * sc, GF[i][j][l] * sc, tolC, at.c_str()); }
      // tensor derivatives
      { MetricP d = k % 2 ? a : m.make(); d->jacobian(J, x); T44 gu2; MetricP d2 = k % 3 ? d : m.make(); d2->gmunu_up_and_jacobian(gu2, J2, x);
        double jmax = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int l = 0; l < 4; ++l) jmax = std::max(jmax, fabs(F[i][j][l] / (e[i] * e[j] * e[l])));
        // default implementation: forward difference h=1e-7 in the coordinate, i.e. h/e_i physical for angles
        double tolJ = 3e-6 * (jmax + 1 / R) + 2e-8 * smax;
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int l = 0; l < 4; ++l) { double sc = 1 / (e[i] * e[j] * e[l]);
          CHECK(K("jacobian"), fabs(J[i][j][l] - F[i][j][l]) * sc <= tolJ, "d_%d g_%d%d=%.12g, differences %.12g tol %.3g %s", i, j, l, J[i][j][l] * sc, F[i][j][l] * sc, tolJ, at.c_str());
          CHECK(K("up_and_jacobian"), fabs(J2[i][j][l] - F[i][j][l]) * sc <= tolJ, "d_%d g_%d%d=%.12g, differences %.12g tol %.3g %s", i, j, l, J2[i][j][l] * sc, F[i][j][l] * sc, tolJ, at.c_str()); }
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) CHECK(K("up_and_jacobian-up"), close(gu2[i][j], gu[i][j], 1e-8, 1e-8 * umax / (e[i] * e[j])), "g^%d%d=%.17g vs %.17g %s", i, j, gu2[i][j], gu[i][j], at.c_str()); }
      // contractions
      { double u[4], v[4]; for (int i = 0; i < 4; ++i) { u[i] = r.u(-1, 1) / e[i]; v[i] = r.u(-1, 1) / e[i]; }
        double uv = dot(g, u, v), uu = dot(g, u, u), T = 1e-12 * smax * 16;
        CHECK(K("ScalarProd"), close(a->ScalarProd(x, u, v), uv, 1e-9, T) && close(a->ScalarProd(x, v, u), uv, 1e-9, T), "%.17g vs contraction %.17g %s", a->ScalarProd(x, u, v), uv, at.c_str());
        double nn = a->norm(x, u); if (fabs(uu) > 1e-6 * smax) CHECK(K("norm"), close(nn * fabs(nn), uu, 1e-8, T), "norm %.17g, u.u %.17g %s", nn, uu, at.c_str());
        double o[4]; a->dualOneForm(x, u, o); for (int i = 0; i < 4; ++i) { double w = 0; for (int j = 0; j < 4; ++j) w += g[i][j] * u[j]; CHECK(K("dualOneForm"), close(o[i], w, 1e-9, T * e[i]), "u_%d=%.17g vs %.17g %s", i, o[i], w, at.c_str()); }
        // time-like unit vector from the tensor: -g^{0 mu}/sqrt(-g^00)
        if (gu[0][0] < 0) { double n[4]; for (int i = 0; i < 4; ++i) n[i] = -gu[0][i] / sqrt(-gu[0][0]);
          double w[4]; memcpy(w, u, sizeof w); a->projectFourVect(x, w, n);
          double nu = dot(g, n, u);
          for (int i = 0; i < 4; ++i) CHECK(K("projectFourVect"), close(w[i], u[i] + nu * n[i], 1e-8, 1e-9 * smax * umax / e[i]), "component %d %.17g vs %.17g %s", i, w[i], u[i] + nu * n[i], at.c_str());
          double b0[4], b1[4], b2[4], b3[4]; memcpy(b0, n, sizeof b0); for (int i = 0; i < 4; ++i) { b1[i] = (i == 1) / e[i] + .1 * r.u(-1, 1) / e[i]; b2[i] = (i == 2) / e[i] + .1 * r.u(-1, 1) / e[i]; b3[i] = (i == 3) / e[i] + .1 * r.u(-1, 1) / e[i]; }
          a->GramSchmidt(x, b0, b1, b2, b3); double *bb[4] = {b0, b1, b2, b3}; 
          for (int i = 0; i < 4; ++i) for (int j = 0; j <= i; ++j) CHECK(K("GramSchmidt"), fabs(dot(g, bb[i], bb[j]) - (i == j ? (i ? 1 : -1) : 0)) < 1e-8 * smax * umax, "b%d.b%d=%.12g %s", i, j, dot(g, bb[i], bb[j]), at.c_str()); }
      }
      // geodesic and parallel-transport right-hand side
      for (int nv = 1; nv <= 3; nv += 1) { std::vector<double> y(4 + 4 * nv), dy(4 + 4 * nv); for (int i = 0; i < 4; ++i) y[i] = x[i]; for (int v = 0; v < nv; ++v) for (int i = 0; i < 4; ++i) y[4 + 4 * v + i] = r.u(-1, 1) / e[i]; y[4] = r.u(.5, 2);
        if (c->diff(y, dy, 1.)) { viol(K("diff-return"), "non-zero at a regular point " + at); continue; }
        for (int i = 0; i < 4; ++i) CHECK(K("diff-position"), dy[i] == y[4 + i], "dx^%d/dtau=%.17g, u=%.17g %s", i, dy[i], y[4 + i], at.c_str());
        for (int v = 0; v < nv; ++v) for (int i = 0; i < 4; ++i) { double w = 0; for (int j = 0; j < 4; ++j) for (int l = 0; l < 4; ++l) w -= GF[i][j][l] * y[4 + j] * y[4 + 4 * v + l];
          CHECK(K(v ? "parallel-transport" : "geodesic-rhs"), fabs(dy[4 + 4 * v + i] - w) * e[i] <= 40 * tolC, "component %d of vector %d: %.12g, -Gamma u v = %.12g (tol %.2g) %s", i, v, dy[4 + 4 * v + i] * e[i], w * e[i], 40 * tolC, at.c_str()); } ev("rhs"); }
    } }, fam); }
int main(int c, char **v) { init(c, v); int reps = S().thorough ? 400 : 60;
  for (int k = 0; k < reps; ++k) for (auto &f : metricFamilies()) { if (!mine()) continue; one(f, k); }
  if (getenv("VERIF_WORST")) note(fmt("worst christoffel/tol %.3g", worstC));
  return done(); }
