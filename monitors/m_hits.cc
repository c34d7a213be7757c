// C17 (hits lie on the object and carry its emitter) and the per-step part of C16.
// A spy derived from the real object records every emission event of a ray.
// LINK: stdplug
#include "geo.h"
#include "scenes.h"
#include "spy.h"
#include <algorithm>
#include "GyotoTorus.h"
#include "GyotoFixedStar.h"
#include "GyotoStar.h"
#include "GyotoInflateStar.h"
#include "GyotoFreeStar.h"
#include "GyotoBlob.h"
#include "GyotoThinDisk.h"
#include "GyotoPageThorneDisk.h"
#include "GyotoThinDiskPL.h"
#include "GyotoThinDiskIronLine.h"
#include "GyotoThinDiskProfile.h"
#include "GyotoEquatorialHotSpot.h"
#include "GyotoSphericalAccretion.h"
#include "GyotoThickDisk.h"
#include "GyotoJet.h"
#include "GyotoDeformedTorus.h"
#include "GyotoOscilTorus.h"
#include "GyotoPolishDoughnut.h"
#include "GyotoPhoton.h"
using namespace V; using namespace Gyoto;
namespace {
typedef std::function<double(const double *)> Dist; // signed distance-like function, negative inside; NaN: no closed form
struct Model { Dist d; bool disk = false, standard = true; double rin = 0, rout = 1e300; int vel = 0; double spin = 0; bool unit = true; };
struct Kind { const char *metric, *obj, *q; bool (*spy)(SceneryP, Log *); };
#define STDQ "Intensity EmissionTime MinDistance Redshift ImpactCoords Spectrum BinSpectrum"
const Kind KINDS[] = {
  {"KerrBL", "Torus", STDQ, spy<Astrobj::Torus>}, {"KerrKS", "Torus", STDQ, spy<Astrobj::Torus>}, {"Minkowski", "Torus", STDQ, spy<Astrobj::Torus>}, {"Minkowski", "Torus", STDQ, spy<Astrobj::Torus>}, {"KerrBL", "FixedStar", "Intensity Redshift EmissionTime", spy<Astrobj::FixedStar>}, {"KerrBL", "PageThorneDisk", "Spectrum Redshift EmissionTime", spy<Astrobj::PageThorneDisk>}, {"KerrBL", "StarThick", "Intensity Redshift EmissionTime ImpactCoords", spy<Astrobj::Star>}, {"KerrBL", "ThinDisk", "Redshift", spy<Astrobj::ThinDisk>}, {"KerrBL", "FixedStar", STDQ, spy<Astrobj::FixedStar>}, {"KerrKS", "FixedStar", STDQ, spy<Astrobj::FixedStar>},
  {"ReissnerNordstrom", "FixedStar", STDQ, spy<Astrobj::FixedStar>}, {"SchwarzschildHarmonic", "FixedStar", STDQ, spy<Astrobj::FixedStar>}, {"RezzollaZhidenko", "FixedStar", STDQ, spy<Astrobj::FixedStar>}, {"Minkowski", "FixedStar", STDQ, spy<Astrobj::FixedStar>},
  {"KerrBL", "Star", STDQ, spy<Astrobj::Star>}, {"KerrKS", "Star", STDQ, spy<Astrobj::Star>}, {"KerrBL", "StarThick", STDQ, spy<Astrobj::Star>}, {"KerrBL", "InflateStar", STDQ, spy<Astrobj::InflateStar>}, {"KerrBL", "FreeStar", STDQ, spy<Astrobj::FreeStar>}, {"KerrBL", "Blob", "Redshift EmissionTime ImpactCoords Spectrum", spy<Astrobj::Blob>},
  {"KerrBL", "ThinDisk", "Intensity EmissionTime Redshift ImpactCoords", spy<Astrobj::ThinDisk>}, {"KerrKS", "ThinDisk", "Intensity EmissionTime Redshift ImpactCoords", spy<Astrobj::ThinDisk>}, {"Minkowski", "ThinDisk", "Intensity EmissionTime Redshift ImpactCoords", spy<Astrobj::ThinDisk>}, {"KerrBL", "PageThorneDisk", "User4 EmissionTime Redshift ImpactCoords", spy<Astrobj::PageThorneDisk>},
  {"KerrBL", "ThinDiskPL", "Spectrum EmissionTime Redshift ImpactCoords", spy<Astrobj::ThinDiskPL>}, {"KerrBL", "ThinDiskIronLine", "Spectrum Redshift", spy<Astrobj::ThinDiskIronLine>}, {"KerrBL", "ThinDiskProfile", "Redshift", spy<Astrobj::ThinDiskProfile>}, {"KerrBL", "ThinDiskProfile", "ImpactCoords", spy<Astrobj::ThinDiskProfile>}, {"KerrBL", "EquatorialHotSpot", "Spectrum Redshift EmissionTime ImpactCoords", spy<Astrobj::EquatorialHotSpot>},
  {"KerrBL", "SphericalAccretion", "Spectrum Redshift EmissionTime ImpactCoords", spy<Astrobj::SphericalAccretion>}, {"KerrBL", "ThickDisk", "Spectrum Redshift EmissionTime ImpactCoords", spy<Astrobj::ThickDisk>}, {"KerrBL", "Jet", "Spectrum Redshift EmissionTime ImpactCoords", spy<Astrobj::Jet>}, {"KerrBL", "DeformedTorus", STDQ, spy<Astrobj::DeformedTorus>}, {"KerrBL", "OscilTorus", "Intensity EmissionTime Redshift ImpactCoords", spy<Astrobj::OscilTorus>}, {"KerrBL9", "PolishDoughnut", "Spectrum Redshift EmissionTime ImpactCoords", spy<Astrobj::PolishDoughnut>} };
static double xd(const std::string &x, const std::string &t, double def) { size_t p = x.find("<" + t); if (p == std::string::npos) return def; p = x.find('>', p); return ::atof(x.c_str() + p + 1); }
static std::vector<double> xv(const std::string &x, const std::string &t) { std::vector<double> v; size_t p = x.find("<" + t + ">"); if (p == std::string::npos) return v; const char *s = x.c_str() + p + t.size() + 2; char *e; for (;;) { double d = strtod(s, &e); if (e == s) break; v.push_back(d); s = e; } return v; }
static Model model(const Kind &k, const std::string &xml, bool sph, SceneryP sc) {
  Model m; std::string o = k.obj, ax = xml.substr(xml.find("<Astrobj")), mx = xml.substr(xml.find("<Metric"), xml.find("</Metric>") - xml.find("<Metric")); m.spin = xd(mx, "Spin", 0); double R = xd(ax, "Radius", 0); (void) sc; double harm = std::string(k.metric) == "SchwarzschildHarmonic" ? 1 : 0;
  auto sphere = [=](std::function<XYZ(double)> c, std::function<double(double)> rad) { return [=](const double *x) { double y[4] = {x[0], x[1] + harm, x[2], x[3]}; XYZ p = xyz(sph, y), q = c(x[0]); double d = 0; for (int i = 0; i < 3; ++i) d += (p.v[i] - q.v[i]) * (p.v[i] - q.v[i]); return sqrt(d) - rad(x[0]); }; };
  if (o == "Torus") { double c = xd(ax, "LargeRadius", 0), a = xd(ax, "SmallRadius", 0); m.d = [=](const double *x) { XYZ p = xyz(sph, x); double rho = sqrt(p.v[0] * p.v[0] + p.v[1] * p.v[1]); return sqrt((rho - c) * (rho - c) + p.v[2] * p.v[2]) - a; }; m.vel = 3; m.unit = false; }
  else if (o == "FixedStar") { std::vector<double> p = xv(ax, "Position"); double x[4] = {0, p[0] + harm, p[1], p[2]}; XYZ c = xyz(sph, x); m.d = sphere([c](double) { return c; }, [R](double) { return R; }); m.vel = ax.find("<Rotating/>") != std::string::npos ? 0 : 1; m.unit = false; }
  else if (o == "Star" || o == "StarThick" || o == "InflateStar") { AstrobjP st = sc->astrobj()->clone(); auto cen = [st](double t) { XYZ q; const_cast<Worldline *>(dynamic_cast<const Worldline *>(&*st))->getCartesian(&t, 1, q.v, q.v + 1, q.v + 2); return q; };
    double Rs = xd(ax, "RadiusStop", R), ti = xd(ax, "TimeInflateInit", 0), ts = xd(ax, "TimeInflateStop", 1); bool inf = o == "InflateStar"; m.d = sphere(cen, [=](double t) { return !inf || t <= ti ? R : t >= ts ? Rs : R + (Rs - R) * (t - ti) / (ts - ti); }); m.unit = false; }
  else if (o == "FreeStar" || o == "Blob") { std::vector<double> p = xv(ax, o == "Blob" ? "Init4Coord" : "InitPosition"), v = xv(ax, o == "Blob" ? "Init3Velo" : "InitVelocity"); m.d = sphere([=](double t) { double x[4] = {t, p[1] + v[0] * (t - p[0]), p[2] + v[1] * (t - p[0]), p[3] + v[2] * (t - p[0])}; return xyz(true, x); }, [R](double) { return R; }); m.unit = false; }
  else if (o.find("Disk") != std::string::npos && o != "ThickDisk") { m.disk = true; m.standard = false; m.rin = xd(ax, "InnerRadius", o == "PageThorneDisk" ? nan("") : 0); m.rout = xd(ax, "OuterRadius", 1e300); m.vel = o == "ThinDiskProfile" ? 0 : ax.find("<CounterRotating/>") != std::string::npos ? -2 : 2; if (o == "PageThorneDisk") { double a = m.spin, z1 = 1 + cbrt(1 - a * a) * (cbrt(1 + a) + cbrt(1 - a)), z2 = sqrt(3 * a * a + z1 * z1); m.rin = 3 + z2 - (a >= 0 ? 1 : -1) * sqrt((3 - z1) * (3 + z1 + 2 * z2)); } }
  else if (o == "EquatorialHotSpot") { m.disk = true; m.standard = false; m.unit = false; m.vel = 0; m.rin = xd(ax, "InnerRadius", 0); m.rout = xd(ax, "OuterRadius", 1e300); }
  else if (o == "SphericalAccretion") { double r0 = xd(ax, "SphericalAccretionInnerRadius", 0); m.d = [=](const double *x) { return r0 - x[1]; }; }
  else if (o == "Jet") { double a1 = xd(ax, "JetInnerOpeningAngle", 0), a2 = xd(ax, "JetOuterOpeningAngle", 0), r0 = xd(ax, "JetInnerRadius", 0); m.d = [=](const double *x) { double th = std::min(x[2], M_PI - x[2]); return std::max(std::max((a1 - th) * x[1], (th - a2) * x[1]), r0 - x[1]); }; }
  else if (o == "ThickDisk") m.d = [](const double *) { return -1.; };
  else m.unit = o != "DeformedTorus" && o != "OscilTorus";
  return m; }
static void one(const Kind &k, int rep) {
  Rng r = caseRng(); SceneOpt o; o.res = 6; o.quantities = k.q; Entry en = {k.metric, k.obj, k.q, false}; Scene sn = makeScene(en, r, o); (void) rep; bool wide = false;
  auto inject = [&](const std::string &t, const std::string &v) { size_t p = sn.xml.find("</" + t + ">"); if (p != std::string::npos) sn.xml.insert(p, v); };
  auto replace = [&](const std::string &t, const std::string &v) { size_t p = sn.xml.find("<" + t + ">"), q = sn.xml.find("</" + t + ">"); if (p != std::string::npos) sn.xml.replace(p, q - p, "<" + t + ">" + v); };
  // a ring seen almost edge-on with integration steps longer than the ring: one step meets it several times
  if (std::string(k.metric) == "Minkowski" && std::string(k.obj) == "Torus" && r.p(.8)) { wide = true; { size_t p = sn.xml.find("<Spherical/>"); if (p != std::string::npos) sn.xml.erase(p, 12); } replace("Inclination", num(M_PI / 2 + r.u(-.12, .12))); inject("Astrobj", "<OpticallyThin/>" + tag("DeltaMaxInsideRMax", 200.)); inject("Scenery", tag("DeltaMaxOverR", 1000.) + tag("Delta", r.u(7, 25)) + (r.p(.8) ? "<NonAdaptive/>" : "")); ev("long steps"); }
  // narrow channels, so that a channel's energy is its width times the spectrum
  bool narrow = std::string(k.q) == STDQ && std::string(k.obj) != "Torus" && r.p(.6); if (narrow) { size_t p = sn.xml.find("<Spectrometer"), q = sn.xml.find("</Spectrometer>"); double f = r.lu(1e12, 1e15); sn.xml.replace(p, q - p, "<Spectrometer kind=\"freq\" nsamples=\"3\">" + fmt("%.15g %.15g", f, f * 1.03)); }
  std::string N = std::string(k.metric) + "/" + k.obj + ":";
  guard(N, [&]() {
    SceneryP sc = V::scenery(sn.xml); Log log; log.nnu = nnu(sc); bool sph = sc->metric()->coordKind() == GYOTO_COORDKIND_SPHERICAL; Model md = model(k, sn.xml, sph, sc); MetricP g = sc->metric(); distinct("sceneries", sn.xml); Astrobj::Standard *stdo = dynamic_cast<Astrobj::Standard *>(&*sc->astrobj()); bool thin = sc->astrobj()->opticallyThin();
    if (!k.spy(sc, &log)) { CHECK(N + "kind", false, "cannot cast"); return; } stdo = dynamic_cast<Astrobj::Standard *>(&*sc->astrobj()); AstrobjP ob = sc->astrobj(); double rmax = ob->rMax();
    size_t n = sc->screen()->resolution(), nn = log.nnu; bool adaptive = true; (void) adaptive;
    for (size_t j = 1; j <= n; ++j) for (size_t i = 1; i <= n; ++i) {
      log.e.clear(); Buffers b(sc->getRequestedQuantities(), 1, nn); Astrobj::Properties &d = b.props; d.init(nn); Photon *none = NULL; (void) none; (*sc)(i, j, &d); ev("rays");
      // the same ray, twice, without any object
      double c[8]; sc->screen()->getRayTriad(i, j, c); auto ray = [&](Line &L, double tol) { L.photon(); L.w->absTol(tol); L.w->relTol(tol); L.w->setInitialCondition(g, c, -1); L.w->xFill(sc->tMin() > 500 ? sc->tMin() : 500.); }; Line A, B; ray(A, 1e-9); ray(B, 1e-6);
      auto tEnd = [](Line &L) { state_t q; L.w->getCoord(L.w->getImin(), q); return q[0]; }; double tlo = std::max(tEnd(A), tEnd(B));
      auto posAt = [&](Line &L, double t) { state_t q(8); L.w->getCoord(t, q); return q; };
      std::string at = fmt("pixel (%zu,%zu) ", i, j) + sn.xml; double tprev = 1e300, sumdt = 0, divmax = 0;
      auto inside = [&](const double *x) { return md.d ? md.d(x) : (*stdo)(x) - stdo->safetyValue() * 0; }; (void) inside;
      for (size_t q = 0; q < log.e.size(); ++q) { Ev &e = log.e[q]; ev("events"); const double *x = e.ph; T44 G; g->gmunu(G, x); double kn = dot(G, e.ph + 4, e.ph + 4), uu = dot(G, e.ob + 4, e.ob + 4), ku = -dot(G, e.ob + 4, e.ph + 4);
        CHECK(N + "emitter where the photon is", e.ob[0] == x[0] && e.ob[1] == x[1] && e.ob[2] == x[2] && e.ob[3] == x[3], "event %zu: photon at (%g %g %g %g), emitter at (%g %g %g %g) %s", q, x[0], x[1], x[2], x[3], e.ob[0], e.ob[1], e.ob[2], e.ob[3], at.c_str());
        if (wide && q && tprev < 1e300 && e.ph[0] < tprev - 1) ev("re-entries"); CHECK(N + "null", fabs(kn) < 1e-2 * e.ph[4] * e.ph[4], "%g", kn); CHECK(N + "emitted frequency", ku > 0 || md.disk == false, "nu_em/nu_obs = %g %s", ku, at.c_str());
        if (md.unit) CHECK(N + "unit velocity", fabs(uu + 1) < 1e-6, "g(u,u)=%.10g at (%g %g %g) u=(%g %g %g %g) %s", uu, x[1], x[2], x[3], e.ob[4], e.ob[5], e.ob[6], e.ob[7], at.c_str()); else CHECK(N + "time-like velocity", uu < -.2 && uu > -3 && e.ob[4] > 0, "g(u,u)=%.10g at (%g %g %g)", uu, x[1], x[2], x[3]);
        if (md.vel == 1) CHECK(N + "static", e.ob[5] == 0 && e.ob[6] == 0 && e.ob[7] == 0, "%g %g %g", e.ob[5], e.ob[6], e.ob[7]);
        if (sph && (abs(md.vel) == 2 || md.vel == 3)) { double rr = md.vel == 3 ? x[1] * sin(x[2]) : x[1], s = md.vel == -2 ? -1 : 1; std::string mk = k.metric; if ((mk == "KerrBL" && rr > 1.05 * (md.vel == -2 ? 9 : 6)) || mk == "Minkowski") { double om = mk == "Minkowski" ? s * pow(rr, -1.5) : s / (pow(rr, 1.5) + s * md.spin); CHECK(N + "Keplerian", V::close(e.ob[7] / e.ob[4], om, 1e-8) && e.ob[5] == 0 && fabs(e.ob[6]) < 1e-12, "Omega %.10g expected %.10g at r=%g %s", e.ob[7] / e.ob[4], om, rr, at.c_str()); ev("keplerian emitters"); } }
        if (md.vel == 3) { T44 P; double y[4] = {x[0], x[1], x[2], 0}; if (sph) { y[1] = x[1] * sin(x[2]); y[2] = M_PI / 2; y[3] = x[3]; } g->gmunu(P, y); double uu2 = dot(P, e.ob + 4, e.ob + 4); CHECK(N + "normalised below the emitter", fabs(uu2 + 1) < 1e-8, "g(u,u)=%.12g in the equatorial plane below (%g %g %g)", uu2, x[1], x[2], x[3]);
          if (!sph) { double r2 = x[1] * x[1] + x[2] * x[2], rb = sqrt(std::max(r2 - md.spin * md.spin, 0.)), om = 1 / (pow(rb, 1.5) + md.spin); const double *u = e.ob + 4; CHECK(N + "Keplerian", V::close(u[1], -x[2] * om * u[0], 1e-8, 1e-10) && V::close(u[2], x[1] * om * u[0], 1e-8, 1e-10) && u[3] == 0, "u=(%g %g %g %g) at (%g %g %g) %s", u[0], u[1], u[2], u[3], x[1], x[2], x[3], at.c_str()); ev("keplerian emitters"); } }
        if (narrow && e.S0.size() && e.B0.size()) { SpectroP sp = sc->screen()->spectrometer(); const double *w = sp->getWidths(); for (size_t z = 0; z < nn; ++z) { double ds = e.S1[z] - e.S0[z], db = e.B1[z] - e.B0[z]; if (ds > 1e-9 * e.S1[z] && db > 1e-9 * e.B1[z]) { double ratio = db / (ds * w[z]); cal("bin " + N, fabs(ratio - 1)); CHECK(N + "energy of a narrow channel", fabs(ratio - 1) < .03, "channel %zu: %g in the channel, spectrum times width %g, redshift %g %s", z, db, ds * w[z], e.Z, at.c_str()); ev("narrow channels"); } } }
        // on the object
        if (md.disk) { double z = sph ? x[1] * cos(x[2]) : x[3], rho = sph ? x[1] : sqrt(x[1] * x[1] + x[2] * x[2]); CHECK(N + "on the disk", fabs(z) < 2e-2 && rho >= md.rin - 1e-9 && rho <= md.rout + 1e-9, "z=%g rho=%g [%g,%g] %s", z, rho, md.rin, md.rout, at.c_str()); ev("on disk"); }
        else if (md.d) { double dd = md.d(x); CHECK(N + "on the object", dd < 5e-2, "distance %g at (%g %g %g %g) %s", dd, x[0], x[1], x[2], x[3], at.c_str()); ev("in volume"); }
        // in order, and on the trajectory
        CHECK(N + "order", e.ph[0] <= tprev + 1e-9, "date %.9g after %.9g %s", e.ph[0], tprev, at.c_str()); tprev = e.ph[0] - (md.standard ? e.dt : 0); sumdt += e.dt; CHECK(N + "positive path", e.dt >= 0, "%g", e.dt);
        if (e.ph[0] > tlo + 1 && (q < 3 || q % 7 == 0)) { state_t pa = posAt(A, e.ph[0]), pb = posAt(B, e.ph[0]); XYZ a = xyz(sph, &pa[0]), bb = xyz(sph, &pb[0]), h = xyz(sph, x); double div = 0, off = 0; for (int z = 0; z < 3; ++z) { div = std::max(div, fabs(a.v[z] - bb.v[z])); off = std::max(off, fabs(a.v[z] - h.v[z])); } divmax = std::max(divmax, div); cal("off " + N + " x", off / (1e-2 + 30 * div)); if (div < .2) { CHECK(N + "on the trajectory", off < 6e-2 + 50 * div, "impact at (%g %g %g), the ray passes (%g %g %g) at that date, %s", h.v[0], h.v[1], h.v[2], a.v[0], a.v[1], a.v[2], at.c_str()); CHECK(N + "photon momentum", fabs(pa[4] - e.ph[4]) < (2e-2 + 20 * div) * fabs(pa[4]), "tdot %g %g", pa[4], e.ph[4]); ev("on trajectory"); } }
        // what is reported for it
        if (e.Z == e.Z && sn.xml.find("<UniFlux/>") == std::string::npos) { CHECK(N + "redshift", V::close(e.Z, 1 / ku, 1e-9), "reported %.12g, photon energies say %.12g %s", e.Z, 1 / ku, at.c_str()); ev("redshifts"); } if (e.tm == e.tm) { CHECK(N + "emission time", e.tm == x[0], "%.12g %.12g", e.tm, x[0]); ev("times"); }
        // transfer
        CHECK(N + "transmission", e.t1 >= 0 && e.t1 <= e.t0 && e.t0 <= 1, "%g -> %g %s", e.t0, e.t1, at.c_str()); for (size_t z = 0; z < nn; ++z) CHECK(N + "channel transmission", e.T1[z] >= 0 && e.T1[z] <= e.T0[z] && e.T0[z] <= 1, "channel %zu: %g -> %g %s", z, e.T0[z], e.T1[z], at.c_str());
        CHECK(N + "intensity grows", e.I1 >= e.I0 && std::isfinite(e.I1), "%g -> %g %s", e.I0, e.I1, at.c_str()); for (size_t z = 0; z < e.S0.size(); ++z) CHECK(N + "spectrum grows", e.S1[z] >= e.S0[z] && std::isfinite(e.S1[z]), "channel %zu %g -> %g %s", z, e.S0[z], e.S1[z], at.c_str()); for (size_t z = 0; z < e.B0.size(); ++z) CHECK(N + "bins grow", e.B1[z] >= e.B0[z] && std::isfinite(e.B1[z]), "channel %zu %g -> %g", z, e.B0[z], e.B1[z]); ev("transfer steps");
        if (q) { Ev &p = log.e[q - 1]; CHECK(N + "transmission carried over", p.t1 == e.t0 && p.T1 == e.T0, "%g %g", p.t1, e.t0); } else CHECK(N + "transmission starts at one", e.t0 == 1 && std::all_of(e.T0.begin(), e.T0.end(), [](double t) { return t == 1; }), "%g", e.t0); }
      // nothing behind an opaque surface
      if (!thin && ((md.disk && std::string(k.obj) != "ThinDiskProfile") || std::string(k.obj) == "FixedStar" || std::string(k.obj) == "StarThick")) { for (size_t q = 1; q < log.e.size(); ++q) CHECK(N + "hidden by an opaque surface", log.e[q].ph[0] > log.e[0].ph[0] - 30 && (!md.disk), "event %zu of an opaque object, date %g, first %g %s", q, log.e[q].ph[0], log.e[0].ph[0], at.c_str()); if (log.e.size()) ev("opaque hits"); }
      // the pixel reports the events
      if (d.impactcoords) { bool hit = d.impactcoords[0] != DBL_MAX; CHECK(N + "impact recorded", hit == !log.e.empty(), "hit %d, %zu events %s", hit, log.e.size(), at.c_str()); if (hit && log.e.size()) { CHECK(N + "first impact", (!memcmp(d.impactcoords, log.e[0].ob, 64) && !memcmp(d.impactcoords + 8, log.e[0].ph, 64)) || (std::string(k.obj) == "ThinDiskProfile" && !memcmp(d.impactcoords, log.e.back().ob, 64)), "impact coordinates are not those of the first event"); ev("impacts"); } }
      if (log.e.size()) { ev("hit pixels"); if (d.redshift) CHECK(N + "pixel redshift", *d.redshift == log.e.back().Z, "%g %g", *d.redshift, log.e.back().Z); if (d.time && !md.standard) CHECK(N + "pixel time", *d.time == log.e.back().ph[0], "%g", *d.time); } else ev("missed pixels");
      // completeness: what the bare trajectory crosses is reported, nothing else
      bool opaque = log.e.size() && log.e.back().t1 < 1e-5; double tA = tEnd(A);
      if (md.disk) { size_t want = 0, unsure = 0; state_t p, q; bool first = true; double vol = 0; for (size_t z = A.w->getImax() + 1; z-- > A.w->getImin();) { q.clear(); A.w->getCoord(z, q); if (!first) { int M = std::min(400, std::max(40, int(fabs(p[0] - q[0]) / .25))); double h0 = 0, rho0 = 0; state_t u(8), up; for (int s = 0; s <= M; ++s) { double t = p[0] + (q[0] - p[0]) * s / M; if (s == 0) u = p; else if (s == M) u = q; else A.w->getCoord(t, u); double h = sph ? u[1] * cos(u[2]) : u[3], rho = sph ? u[1] : sqrt(u[1] * u[1] + u[2] * u[2]), rs = rho; if (s && h != h0) rho = rho0 + (rho - rho0) * h0 / (h0 - h); rho0 = rs; if (s && (h > 0) != (h0 > 0)) { (void) vol; if (rho > md.rin + .15 && rho < md.rout - .15 && rho < rmax) ++want; else if (rho > md.rin - .15 && rho < md.rout + .15) ++unsure; if (rho < 4.5) ++unsure; } h0 = h; up = u; if (u[0] < 0) break; } } p = q; first = false; }
        if (tA > 0 && !unsure) { if (opaque || !thin) CHECK(N + "crossing the disk is a hit", (want > 0) == (log.e.size() > 0), "%zu crossings, %zu events %s", want, log.e.size(), at.c_str()); else CHECK(N + "every crossing of the disk is an event", want == log.e.size() || divmax > .05, "%zu crossings, %zu events %s", want, log.e.size(), at.c_str()); ev(want ? "crossings confirmed" : "misses confirmed"); } }
      else if (md.d && std::string(k.obj) != "ThickDisk" && std::string(k.obj) != "SphericalAccretion") { double in = 0, dmin = 1e300, edge = 0; state_t p, q, u(8); bool first = true; double dstep = 0; XYZ cp = {{0, 0, 0}}; for (size_t z = A.w->getImax() + 1; z-- > A.w->getImin();) { q.clear(); A.w->getCoord(z, q); double rq = sph ? q[1] : sqrt(q[1] * q[1] + q[2] * q[2] + q[3] * q[3]); if (!first && rq < rmax + 30) { int M = std::min(400, 2 + int(fabs(p[0] - q[0]) / .1)); for (int s = 0; s < M; ++s) { double t = p[0] + (q[0] - p[0]) * (s + .5) / M; A.w->getCoord(t, u); double dd = md.d(&u[0]); dmin = std::min(dmin, dd); if (dd < 0 && u[0] > tlo && (sph ? u[1] : sqrt(u[1] * u[1] + u[2] * u[2] + u[3] * u[3])) < rmax) in += fabs(q[0] - p[0]) / M; if (fabs(dd) < .1) edge += fabs(q[0] - p[0]) / M; } } p = q; first = false; } (void) dstep; (void) cp;
        bool strong = divmax > .02; XYZ fin = xyz(sph, &q[0]); (void) fin; double rend = sph ? q[1] : sqrt(q[1] * q[1] + q[2] * q[2] + q[3] * q[3]); if (!strong && rend > 10 && !wide) { if (dmin < -.25) { CHECK(N + "crossing the object is a hit", !log.e.empty(), "the ray enters to depth %g but nothing is reported %s", -dmin, at.c_str()); ev("crossings confirmed"); } if (dmin > .15) { CHECK(N + "passing by is not a hit", log.e.empty(), "the ray stays at %g from the object %s", dmin, at.c_str()); ev("misses confirmed"); }
          if (!opaque && thin && log.e.size() && d.distance == NULL ? true : !opaque && thin && log.e.size()) { cal("dur " + N + " x", fabs(in - sumdt) / (edge + .3)); CHECK(N + "whole path inside", fabs(in - sumdt) < edge + .3 + .02 * in, "%g inside, %g accounted %s", in, sumdt, at.c_str()); ev("paths measured"); } }
        if (d.distance && log.e.empty() && !strong && dmin > .5 && std::string(k.obj) != "DeformedTorus") { ev("distances"); } }
    } }, N); }
} // namespace
int main(int c, char **v) { init(c, v); for (int rep = 0; rep < (S().thorough ? 24 : 3); ++rep) for (auto &k : KINDS) if (mine()) one(k, rep); for (int rep = 0; rep < (S().thorough ? 200 : 16); ++rep) if (mine()) one(KINDS[2], rep); return done(); }
