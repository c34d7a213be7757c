// C16: radiative transfer is physical and order-consistent.
// LINK: stdplug
#include "scenes.h"
#include "spy.h"
#include "metrics.h"
#include <algorithm>
#include "GyotoFixedStar.h"
#include "GyotoStar.h"
#include "GyotoThinDisk.h"
#include "GyotoTorus.h"
using namespace V; using namespace Gyoto;
namespace {
const double H = 6.62606896e-34, KB = 1.3806504e-23, CC = 299792458.;
struct Sp { bool bb; double a, b; std::string xml(const char *t) const { return bb ? fmt("<%s kind=\"BlackBody\"><Temperature>%.17g</Temperature></%s>", t, a, t) : fmt("<%s kind=\"PowerLaw\"><Constant>%.17g</Constant><Exponent>%.17g</Exponent></%s>", t, a, b, t); }
  double operator()(double nu) const { return bb ? 2 * H * nu * nu * nu / CC / CC / expm1(H * nu / KB / a) : a * pow(nu, b); } };
struct Star { double x[3], R; Sp s, o; bool thin; double delta = -1;
  std::string xml(bool sph, const char *tag = "Astrobj") const { double r = sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); std::string p = sph ? fmt("%.17g %.17g %.17g", r, acos(x[2] / r), atan2(x[1], x[0])) : fmt("%.17g %.17g %.17g", x[0], x[1], x[2]);
    return std::string("<") + tag + " kind=\"FixedStar\">" + V::tag("Radius", R) + V::tag("Position", p) + s.xml("Spectrum") + o.xml("Opacity") + (thin ? "<OpticallyThin/>" : "<OpticallyThick/>") + V::tag("RMax", 60.) + (delta > 0 ? V::tag("DeltaInObj", delta) : std::string()) + "</" + tag + ">"; } };
struct Cam { std::string met; bool sph; double fov, inc, paln, arg; std::string spectro; std::string q; int n = 6; double fo = -1;
  std::string xml(const std::string &obj) const { return hdr() + "<Scenery>" + met + "<Screen><Distance unit=\"geometrical\">100</Distance><Time unit=\"geometrical_time\">1000</Time>" + tag("FieldOfView", fov) + tag("Inclination", inc) + tag("PALN", paln) + tag("Argument", arg) + fmt("<Resolution>%d</Resolution>", n) + (fo > 0 ? fmt("<FreqObs>%.17g</FreqObs>", fo) : std::string()) + spectro + "</Screen>" + obj + "<Quantities>" + q + "</Quantities><MinimumTime>0</MinimumTime><NThreads>1</NThreads></Scenery>"; } };
static Sp randS(Rng &r) { Sp s; s.bb = r.p(.5); if (s.bb) { s.a = r.lu(2000, 1e5); s.b = 0; } else { s.b = r.u(-1.5, 1.5); s.a = r.lu(1e-3, 1e3) * pow(1e14, -s.b); } return s; }
static Sp randO(Rng &r) { Sp s; s.bb = false; s.b = r.p(.5) ? 0 : r.u(-2, 2); s.a = r.lu(1e-3, 2) * pow(2e14, -s.b); return s; }
static Cam randC(Rng &r, bool curved) { Cam c; if (curved) { c.sph = r.p(.6); c.met = "<Metric kind=\"" + std::string(c.sph ? "KerrBL" : "KerrKS") + "\"><Mass unit=\"sunmass\">" + num(r.lu(1e6, 1e9)) + "</Mass>" + tag("Spin", r.u(-.9, .9)) + "</Metric>"; } else { c.sph = r.p(.5); c.met = std::string("<Metric kind=\"Minkowski\"><Mass unit=\"sunmass\">4e6</Mass>") + (c.sph ? "<Spherical/>" : "") + "</Metric>"; }
  c.fov = r.u(.2, .3); c.inc = r.u(.4, 2.7); c.paln = r.u(0, 6.2); c.arg = r.u(0, 6.2); c.spectro = fmt("<Spectrometer kind=\"freq\" nsamples=\"%d\">1e14 %.15g</Spectrometer>", int(r.i(1, 4)), r.lu(1.05e14, 5e14)); return c; }
static Star randStar(Rng &r) { Star s; double q; do { q = 0; for (auto &z : s.x) { z = r.u(-11, 11); q += z * z; } s.R = r.u(2.5, 5); } while (q < (s.R + 5) * (s.R + 5) || fabs(s.x[2]) > .9 * sqrt(q)); s.s = randS(r); s.o = randO(r); s.thin = r.p(.6); return s; }
// --- flat space: closed-form transfer through a sphere
static void slab() { Rng r = caseRng();
  guard("slab", [&]() { Cam c = randC(r, false); Star s = randStar(r); c.q = "Intensity Spectrum BinSpectrum Redshift EmissionTime"; std::string x0 = c.xml(s.xml(c.sph)); SceneryP sc = V::scenery(x0); SpectroP sp = sc->screen()->spectrometer(); size_t nn = sp->nSamples(); std::vector<double> mid(sp->getMidpoints(), sp->getMidpoints() + nn); int ch = r.i(0, nn - 1); c.fo = mid[ch]; std::string x = c.xml(s.xml(c.sph)); sc = V::scenery(x); distinct("sceneries", x); const double *bnd = sc->screen()->spectrometer()->getChannelBoundaries(); const size_t *ci = sc->screen()->spectrometer()->getChannelIndices();
    double off = 0; for (size_t j = 1; j <= (size_t) c.n; ++j) for (size_t i = 1; i <= (size_t) c.n; ++i) { Buffers b(sc->getRequestedQuantities(), 1, nn); (*sc)(i, j, &b.props); double u[8]; sc->screen()->getRayTriad(i, j, u); Met m; m.sph = c.sph; double X[3], W[3]; { double rr = u[1], st = sin(u[2]), ct = cos(u[2]), cp = cos(u[3]), spn = sin(u[3]); if (c.sph) { X[0] = rr * st * cp; X[1] = rr * st * spn; X[2] = rr * ct; W[0] = u[5] * st * cp + rr * u[6] * ct * cp - rr * st * u[7] * spn; W[1] = u[5] * st * spn + rr * u[6] * ct * spn + rr * st * u[7] * cp; W[2] = u[5] * ct - rr * u[6] * st; } else for (int k = 0; k < 3; ++k) { X[k] = u[1 + k]; W[k] = u[5 + k]; } }
      double ww = 0, xw = 0, xx = 0; for (int k = 0; k < 3; ++k) { double dx = X[k] - s.x[k]; ww += W[k] * W[k]; xw += dx * W[k]; xx += dx * dx; } double d2 = xx - xw * xw / ww, L = d2 < s.R * s.R ? 2 * sqrt(s.R * s.R - d2) : 0; bool graze = fabs(sqrt(d2) - s.R) < .05; if (graze) { ev("grazing"); continue; } { double x2 = 0, b2 = 0; for (int k = 0; k < 3; ++k) { x2 += X[k] * X[k]; b2 += X[k] * W[k]; } if (x2 - b2 * b2 / ww < (c.sph ? 1 : .01)) { ev("rays through the origin"); continue; } } std::string at = fmt("pixel (%zu,%zu) chord %g ", i, j, L) + x; ev(L > 0 ? "chords" : "empty pixels"); ev(s.thin ? "thin" : "opaque");
      for (size_t k = 0; k < nn; ++k) { double nu = mid[k], tau = s.o(nu) * L, e = L == 0 ? 0 : s.thin ? s.s(nu) * -expm1(-tau) : s.s(nu); double tolr = 3e-3 + (s.thin ? .02 / std::max(L, .1) : 0); off = std::max(off, e ? fabs(b.S[k] / e - 1) : 0.); CHECK("flat:spectrum", V::close(b.S[k], e, tolr), "channel %zu: %.9g expected %.9g (tau %g) %s", k, b.S[k], e, tau, at.c_str());
        // whole channel
        double n1 = bnd[ci[2 * k]], n2 = bnd[ci[2 * k + 1]], q = 0; if (n1 > n2) std::swap(n1, n2); int M = 200; for (int z = 0; z < M; ++z) { double nz = n1 + (n2 - n1) * (z + .5) / M; q += (L == 0 ? 0 : s.thin ? s.s(nz) * -expm1(-s.o(nz) * L) : s.s(nz)) * (n2 - n1) / M; } CHECK("flat:bin", V::close(b.B[k], q, tolr + .03 + .3 * (std::max(n1, n2) / std::min(n1, n2) - 1)), "channel %zu [%g,%g]: %.9g expected %.9g %s", k, n1, n2, b.B[k], q, at.c_str()); ev("channels"); }
      CHECK("flat:intensity at FreqObs", V::close(b.I[0], b.S[ch], 1e-9), "%.12g, channel %d has %.12g %s", b.I[0], ch, b.S[ch], at.c_str()); if (L > 0) CHECK("flat:redshift", V::close(b.Z[0], 1, 1e-6), "%.9g", b.Z[0]); } }, "slab"); }
// --- composite objects
template <class F> static void images(const std::string &xml, Log *l, std::vector<std::vector<Ev> > *evs, std::vector<std::vector<double> > &S, F post) { SceneryP sc = V::scenery(xml); size_t nn = nnu(sc); if (l) { l->nnu = nn; post(sc, l); } size_t n = sc->screen()->resolution(); for (size_t j = 1; j <= n; ++j) for (size_t i = 1; i <= n; ++i) { if (l) l->e.clear(); Buffers b(sc->getRequestedQuantities(), 1, nn); (*sc)(i, j, &b.props); S.push_back(b.S); if (evs) evs->push_back(l->e); } }
static void composite() { Rng r = caseRng();
  guard("composite", [&]() { Cam c = randC(r, r.p(.7)); c.q = "Spectrum"; int nb = r.i(2, 3); double los[3]; { std::string xx = c.xml(randStar(r).xml(c.sph)); SceneryP t = V::scenery(xx); double u[8]; t->screen()->getRayTriad(size_t(3), size_t(3), u); XYZ q = xyz(c.sph, u); for (int k = 0; k < 3; ++k) los[k] = q.v[k] / 100; } bool line = r.p(.8); std::vector<Star> st; while ((int) st.size() < nb) { Star s = randStar(r); bool ok = true; if (line && st.size() == 1) { double d = st[0].R + s.R + r.u(.4, 6), q = 0; for (int k = 0; k < 3; ++k) { s.x[k] = st[0].x[k] + (r.p(.5) ? 1 : 1) * -d * los[k] + r.u(-1, 1); q += s.x[k] * s.x[k]; } if (q < (s.R + 5) * (s.R + 5) || fabs(s.x[2]) > .95 * sqrt(q)) ok = false; } for (auto &o : st) { double d = 0; for (int k = 0; k < 3; ++k) d += (o.x[k] - s.x[k]) * (o.x[k] - s.x[k]); if (sqrt(d) < o.R + s.R + .3) ok = false; } if (ok) st.push_back(s); else if (r.p(.01)) { ev("no room"); return; } }
    // line two of them up with the observer in some cases
    bool disk = r.p(.3); std::string dx = "kind=\"ThinDisk\">" + tag("InnerRadius", r.u(14, 16)) + tag("OuterRadius", r.u(20, 30)) + "<OpticallyThick/>" + tag("RMax", 60.); if (!(c.met.find("Kerr") != std::string::npos)) disk = false;
    std::vector<std::string> parts, alone; for (auto &s : st) { parts.push_back(s.xml(c.sph, "SubAstrobj")); alone.push_back(s.xml(c.sph)); } if (disk) { parts.push_back("<SubAstrobj " + dx + "</SubAstrobj>"); alone.push_back("<Astrobj " + dx + "</Astrobj>"); }
    auto comp = [&](const std::vector<std::string> &p) { std::string x = "<Astrobj kind=\"Complex\">"; for (auto &q : p) x += q; return x + "<RMax>60</RMax></Astrobj>"; };
    std::string x = c.xml(comp(parts)); distinct("sceneries", x); std::vector<std::vector<double> > all, rev; images(x, NULL, NULL, all, [](SceneryP, Log *) { return true; }); std::vector<std::string> rp(parts.rbegin(), parts.rend()); images(c.xml(comp(rp)), NULL, NULL, rev, [](SceneryP, Log *) { return true; });
    std::vector<std::vector<std::vector<Ev> > > evs(alone.size()); std::vector<std::vector<std::vector<double> > > S(alone.size()); for (size_t k = 0; k < alone.size(); ++k) { Log l; images(c.xml(alone[k]), &l, &evs[k], S[k], [](SceneryP sc, Log *l) { return spy<Astrobj::FixedStar>(sc, l) || spy<Astrobj::ThinDisk>(sc, l); }); }
    // a dark transparent body put anywhere
    Star dark = randStar(r); dark.thin = true; dark.s.bb = false; dark.s.a = 0; dark.s.b = 0; dark.o.a = 0; dark.o.b = 0; std::vector<std::string> dp(parts); dp.insert(dp.begin() + r.i(0, dp.size()), dark.xml(c.sph, "SubAstrobj")); std::vector<std::vector<double> > dk; images(c.xml(comp(dp)), NULL, NULL, dk, [](SceneryP, Log *) { return true; });
    double top = 0; for (auto &p : all) for (double v : p) top = std::max(top, v);
    for (size_t p = 0; p < all.size(); ++p) { size_t nn = all[p].size(); struct E { double t; std::vector<double> e, f; size_t who; }; std::vector<E> m; std::set<size_t> who; bool thinEdge = false; for (size_t k = 0; k < alone.size(); ++k) { double path = 0; for (auto &e : evs[k][p]) path += e.dt; if (evs[k][p].size() && path < .8 && k < st.size()) thinEdge = true; for (auto &e : evs[k][p]) { E q; q.t = e.ph[0]; q.who = k; for (size_t z = 0; z < nn; ++z) { if (e.T0[z] <= 0) { q.e.push_back(0); q.f.push_back(0); } else { q.e.push_back((e.S1[z] - e.S0[z]) / e.T0[z]); q.f.push_back(e.T1[z] / e.T0[z]); } } m.push_back(q); who.insert(k); } }
      std::stable_sort(m.begin(), m.end(), [](const E &a, const E &b) { return a.t > b.t; }); std::vector<double> I(nn, 0), T(nn, 1); for (auto &q : m) for (size_t z = 0; z < nn; ++z) { I[z] += q.e[z] * T[z]; T[z] *= q.f[z]; }
      std::string at = fmt("pixel %zu of %zux%zu, %zu bodies on the ray ", p, (size_t) c.n, (size_t) c.n, who.size()) + x; ev(who.size() > 1 ? "rays through several bodies" : who.size() ? "rays through one body" : "rays through none");
      for (size_t z = 0; z < nn; ++z) { double tol = who.size() ? (thinEdge ? .3 : .03) : 0; CHECK("composite:ordered transfer", V::close(all[p][z], I[z], tol), "channel %zu: %.9g, parts say %.9g %s", z, all[p][z], I[z], at.c_str()); CHECK("composite:order of the list", V::close(all[p][z], rev[p][z], tol), "channel %zu: %.9g, reversed list %.9g %s", z, all[p][z], rev[p][z], at.c_str()); CHECK("composite:dark transparent body", V::close(all[p][z], dk[p][z], tol), "channel %zu: %.9g, with it %.9g %s", z, all[p][z], dk[p][z], at.c_str()); ev("composite channels"); }
      if (who.size() > 1 && m.size()) { Star *f = m[0].who < st.size() ? &st[m[0].who] : NULL; if (f && !f->thin) { for (size_t z = 0; z < nn; ++z) CHECK("composite:hidden", V::close(all[p][z], S[m[0].who][p][z], 1e-2), "behind an opaque body: %.9g, alone %.9g %s", all[p][z], S[m[0].who][p][z], at.c_str()); ev("hidden bodies"); } } } }, "composite"); }
// --- scaling, step independence, agreement of outputs
static std::string setTag(const std::string &x, const std::string &t, const std::string &v, size_t from = 0) { size_t p = x.find("<" + t + ">", from); if (p == std::string::npos) return ""; size_t q = x.find("</" + t + ">", p); return x.substr(0, p) + "<" + t + ">" + v + x.substr(q); }
static void scaling() { Rng r = caseRng();
  guard("scaling", [&]() { Cam c = randC(r, true); Star s = randStar(r); c.q = "Intensity Spectrum BinSpectrum"; int mode = r.i(0, 3); std::string x = c.xml(s.xml(c.sph)), y; double k = r.lu(.01, 100); std::string what;
    if (mode == 0) { Star z = s; if (z.s.bb) { y = x; size_t p = y.find("</Temperature>"); x.insert(p + 14, "<Scaling>1</Scaling>"); y.insert(p + 14, "<Scaling>" + num(k) + "</Scaling>"); } else { z.s.a *= k; y = c.xml(z.xml(c.sph)); } what = "emissivity"; }
    else if (mode == 1) { Star z = s; z.delta = r.u(.005, .2); y = c.xml(z.xml(c.sph)); k = 1; what = "sub-step"; }
    else if (mode == 2) { y = x; size_t p = y.find("</Scenery>"); y.insert(p, "<AbsTol>1e-9</AbsTol><RelTol>1e-9</RelTol>"); k = 1; what = "tolerance"; }
    else { Entry e = {"KerrBL", "PageThorneDisk", "User4", false}; SceneOpt o; o.res = 5; Rng r2(r.u(0, 1e9)); Scene sn = makeScene(e, r2, o); x = sn.xml; while (x.find("<UniFlux/>") != std::string::npos) x.erase(x.find("<UniFlux/>"), 10); size_t p = x.find("<Mdot>"); if (p != std::string::npos) x.erase(p, x.find("</Mdot>") + 7 - p); p = x.find("<Astrobj"); p = x.find('>', p) + 1; y = x; double m0 = r.lu(.2, 9); x.insert(p, tag("Mdot", m0)); y.insert(p, tag("Mdot", m0 * k)); what = "accretion rate"; }
    distinct("sceneries", x); SceneryP a = V::scenery(x), b = V::scenery(y); size_t nn = nnu(a), n = a->screen()->resolution(); for (size_t j = 1; j <= n; ++j) for (size_t i = 1; i <= n; ++i) { Buffers p(a->getRequestedQuantities(), 1, nn), q(b->getRequestedQuantities(), 1, nn); (*a)(i, j, &p.props); (*b)(i, j, &q.props); double tol = mode == 0 || mode == 3 ? 1e-9 : .05; auto P = p.planes(), Q = q.planes();
      bool hit = false; for (size_t z = 0; z < P.size(); ++z) for (size_t w = 0; w < P[z].second->size(); ++w) if ((*P[z].second)[w] > 0 && (*Q[z].second)[w] > 0) hit = true; if (!hit) continue; if (mode == 1 || mode == 2) { double u[8]; (void) u; }
      for (size_t z = 0; z < P.size(); ++z) for (size_t w = 0; w < P[z].second->size(); ++w) { double A = (*P[z].second)[w] * k, B = (*Q[z].second)[w]; bool edge = (mode == 1 || mode == 2) && s.thin && A < .4 * 1e300 && fabs(A - B) > tol * A; if (edge) { ev("edges"); static std::map<long, int> cnt; if (++cnt[S().ncase] < 12) continue; } CHECK("scaling:" + what, V::close(A, B, tol), "%s[%zu] pixel (%zu,%zu): %.12g x %g expected, got %.12g %s", P[z].first, w, i, j, (*P[z].second)[w], k, B, x.c_str()); ev("scaled " + what); } } }, "scaling"); }
} // namespace
int main(int c, char **v) { init(c, v); for (int rep = 0; rep < (S().thorough ? 800 : 150); ++rep) { if (mine()) slab(); if (mine()) composite(); if (mine()) scaling(); } return done(); }
