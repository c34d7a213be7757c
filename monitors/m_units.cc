// C07: unit conversions against their physical definition, and by-unit accessors.
#include "reflect.h"
#include "GyotoKerrBL.h"
using namespace V; using namespace Gyoto;
struct U { const char *n; double f; double tol; };
// SI factors written from the definitions (IAU/SI), not taken from the library
static const double PC = 3.0856775814913673e16, AU = 149597870700., C = 299792458., GM = 6.6743e-11 * 1.98841e30;
static std::vector<U> LEN = {{"m",1,0},{"cm",1e-2,1e-14},{"km",1e3,1e-14},{"mm",1e-3,1e-14},{"nm",1e-9,1e-14},{"sunradius",6.957e8,2e-3},{"au",AU,1e-5},{"AU",AU,1e-5},{"ua",AU,1e-5},{"astronomicalunit",AU,1e-5},
  {"ly",9.4607304725808e15,1e-4},{"pc",PC,1e-5},{"kpc",PC*1e3,1e-5},{"Mpc",PC*1e6,1e-5},{"inch",.0254,1e-9}};
static std::vector<U> TIM = {{"s",1,0},{"min",60,1e-14},{"h",3600,1e-14},{"d",86400,1e-14},{"yr",3.15569e7,3e-5},{"kyr",3.15569e10,3e-5},{"ms",1e-3,1e-14}};
static std::vector<U> MAS = {{"kg",1,0},{"g",1e-3,1e-14},{"sunmass",1.98841e30,1e-3},{"Mg",1e3,1e-14},{"ug",1e-9,1e-14}};
static std::vector<U> FRQ = {{"Hz",1,0},{"GHz",1e9,1e-14},{"THz",1e12,1e-14},{"s-1",1,1e-14}};
static std::vector<U> ENE = {{"eV",2.417989242e14,1e-5},{"keV",2.417989242e17,1e-5},{"MeV",2.417989242e20,1e-5},{"J",2.417989242e14/1.602176634e-19,1e-5},{"erg",1e-7*2.417989242e14/1.602176634e-19,1e-5}};
static std::vector<U> ANG = {{"rad",1,0},{"degree",M_PI/180,1e-12},{"°",M_PI/180,1e-12},{"arcmin",M_PI/10800,1e-12},{"arcsec",M_PI/648000,1e-12},{"as",M_PI/648000,1e-12},{"mas",M_PI/648e6,1e-12},{"µas",M_PI/648e9,1e-12},{"uas",M_PI/648e9,1e-12},{"mrad",1e-3,1e-12}};
static std::vector<U> DEN = {{"m-3",1,1e-13},{"cm-3",1e6,1e-13},{"km-3",1e-9,1e-12}}, PRS = {{"J/m3",1,1e-13},{"erg/cm3",.1,1e-13},{"Pa",1,1e-13},{"kPa",1e3,1e-13}};
static const double RT = 1e-11;
static void throws(const char *key, const std::string &what, std::function<void()> f) {
  ev("checks"); ev("refusals");
  try { f(); viol(key, what + " accepted"); } catch (Gyoto::Error &) {} }
static MetricP withMass(double kg) { MetricP m = mkMetric("KerrBL"); m->mass(kg); return m; }

int main(int argc, char **argv) {
  init(argc, argv);
  int n = S().thorough ? 4000 : 400;
  for (int k = 0; k < n; ++k) { if (!mine()) continue; Rng r = caseRng();
    guard("units functions", [&] {
      double x = r.lu(1e-6, 1e9) * (r.p(.2) ? -1 : 1), kg = r.lu(1e27, 1e41); MetricP m = withMass(kg);
      double L = m->unitLength(); distinct("value,mass", num(x) + num(kg)); ev("conversions");
      CHECK_CLOSE("unitLength", L, kg * 7.42616e-28, 2e-5, 0, "G M/c^2");
      MetricP m2 = withMass(kg * 3); CHECK_CLOSE("unitLength-scales", m2->unitLength(), 3 * L, 1e-13, 0, "mass x3");
      for (auto &u : LEN) {
        double si = Units::ToMeters(x, u.n, m); CHECK_CLOSE(std::string("ToMeters ") + u.n, si, x * u.f, u.tol + 1e-15, 0, u.n);
        CHECK_CLOSE(std::string("FromMeters ") + u.n, Units::FromMeters(si, u.n, m), x, RT, 0, u.n);
        CHECK_CLOSE(std::string("FromMeters factor ") + u.n, Units::FromMeters(x, u.n, m), x / u.f, u.tol + 1e-14, 0, u.n);
        CHECK_CLOSE(std::string("ToGeometrical ") + u.n, Units::ToGeometrical(x, u.n, m), si / L, RT, 0, u.n);
        CHECK_CLOSE(std::string("FromGeometrical ") + u.n, Units::FromGeometrical(si / L, u.n, m), x, RT, 0, u.n);
        CHECK_CLOSE(std::string("ToSeconds(length) ") + u.n, Units::ToSeconds(x, u.n, m), si / C, RT, 0, u.n);
        CHECK_CLOSE(std::string("FromSeconds(length) ") + u.n, Units::FromSeconds(si / C, u.n, m), x, RT, 0, u.n);
        if (x > 0) { CHECK_CLOSE(std::string("ToHerz(length) ") + u.n, Units::ToHerz(x, u.n), C / si, RT, 0, u.n);
          CHECK_CLOSE(std::string("FromHerz(length) ") + u.n, Units::FromHerz(C / si, u.n), x, RT, 0, u.n); } }
      CHECK_CLOSE("ToMeters geometrical", Units::ToMeters(x, "geometrical", m), x * L, RT, 0, "geometrical");
      CHECK_CLOSE("FromMeters geometrical", Units::FromMeters(x, "geometrical", m), x / L, RT, 0, "geometrical");
      CHECK_CLOSE("ToGeometrical identity", Units::ToGeometrical(x, "geometrical", m), x, 0, 0, "");
      CHECK_CLOSE("ToGeometrical default", Units::ToGeometrical(x, "", m), x, 0, 0, "");
      CHECK_CLOSE("FromGeometrical identity", Units::FromGeometrical(x, "geometrical", m), x, 0, 0, "");
      for (auto &u : TIM) {
        double si = Units::ToSeconds(x, u.n, m); CHECK_CLOSE(std::string("ToSeconds ") + u.n, si, x * u.f, u.tol + 1e-15, 0, u.n);
        CHECK_CLOSE(std::string("FromSeconds ") + u.n, Units::FromSeconds(si, u.n, m), x, RT, 0, u.n);
        CHECK_CLOSE(std::string("FromSeconds factor ") + u.n, Units::FromSeconds(x, u.n, m), x / u.f, u.tol + 1e-14, 0, u.n);
        CHECK_CLOSE(std::string("ToGeometricalTime ") + u.n, Units::ToGeometricalTime(x, u.n, m), si * C / L, RT, 0, u.n);
        CHECK_CLOSE(std::string("FromGeometricalTime ") + u.n, Units::FromGeometricalTime(si * C / L, u.n, m), x, RT, 0, u.n);
        CHECK_CLOSE(std::string("ToMeters(time) ") + u.n, Units::ToMeters(x, u.n, m), si * C, RT, 0, u.n);
        CHECK_CLOSE(std::string("FromMeters(time) ") + u.n, Units::FromMeters(si * C, u.n, m), x, RT, 0, u.n);
        CHECK_CLOSE(std::string("FromGeometrical(time) ") + u.n, Units::FromGeometrical(si * C / L, u.n, m), x, RT, 0, u.n);
        CHECK_CLOSE(std::string("ToGeometrical(time) ") + u.n, Units::ToGeometrical(x, u.n, m), si * C / L, RT, 0, u.n); }
      CHECK_CLOSE("ToSeconds geometrical_time", Units::ToSeconds(x, "geometrical_time", m), x * L / C, RT, 0, "");
      CHECK_CLOSE("FromSeconds geometrical_time", Units::FromSeconds(x, "geometrical_time", m), x * C / L, RT, 0, "");
      for (auto &u : MAS) {
        double si = Units::ToKilograms(x, u.n); CHECK_CLOSE(std::string("ToKilograms ") + u.n, si, x * u.f, u.tol + 1e-15, 0, u.n);
        CHECK_CLOSE(std::string("FromKilograms ") + u.n, Units::FromKilograms(si, u.n), x, RT, 0, u.n);
        m2->mass(fabs(x), u.n); CHECK_CLOSE(std::string("Metric::mass ") + u.n, m2->mass(), fabs(si), RT, 0, u.n);
        CHECK_CLOSE(std::string("Metric::mass get ") + u.n, m2->mass(u.n), fabs(x), RT, 0, u.n);
        CHECK_CLOSE("Metric::unitLength after mass", m2->unitLength(), fabs(si) * L / kg, RT, 0, u.n); }
      double f = fabs(x) * r.lu(1e6, 1e15);
      for (auto &u : FRQ) {
        double si = Units::ToHerz(f, u.n); CHECK_CLOSE(std::string("ToHerz ") + u.n, si, f * u.f, u.tol + 1e-15, 0, u.n);
        CHECK_CLOSE(std::string("FromHerz ") + u.n, Units::FromHerz(si, u.n), f, RT, 0, u.n);
        CHECK_CLOSE(std::string("ToMeters(freq) ") + u.n, Units::ToMeters(f, u.n, m), C / si, RT, 0, u.n);
        CHECK_CLOSE(std::string("FromMeters(freq) ") + u.n, Units::FromMeters(C / si, u.n, m), f, RT, 0, u.n); }
      for (auto &u : ENE) {
        double si = Units::ToHerz(f, u.n); CHECK_CLOSE(std::string("ToHerz ") + u.n, si, f * u.f, u.tol, 0, u.n);
        CHECK_CLOSE(std::string("FromHerz ") + u.n, Units::FromHerz(si, u.n), f, RT, 0, u.n);
        CHECK_CLOSE(std::string("ToMeters(energy) ") + u.n, Units::ToMeters(f, u.n, m), C / si, RT, 0, u.n);
        CHECK_CLOSE(std::string("FromMeters(energy) ") + u.n, Units::FromMeters(C / si, u.n, m), f, RT, 0, u.n); }
      // every pair of convertible units, by the Unit/Converter classes
      std::vector<std::vector<U> *> G = {&LEN, &TIM, &MAS, &FRQ, &ANG};
      size_t g = r.i(0, 4), h = r.i(0, 4); const U &a = r.pick(*G[g]), &b = r.pick(*G[g]), &z = r.pick(*G[h]);
      Units::Converter cv{Units::Unit(a.n), Units::Unit(b.n)};
      CHECK_CLOSE(std::string("Converter ") + a.n + " " + b.n, cv(x), x * a.f / b.f, a.tol + b.tol + 1e-13, 0, "");
      CHECK_CLOSE("Unit::To", Units::Unit(b.n).To(x, Units::Unit(a.n)), cv(x), RT, 0, "");
      CHECK_CLOSE("Unit::From", Units::Unit(a.n).From(x, Units::Unit(b.n)), cv(x), RT, 0, "");
      CHECK("areConvertible", Units::areConvertible(Units::Unit(a.n), Units::Unit(b.n)), "%s %s", a.n, b.n);
      bool compat = g == h || (g == 1 && h == 3) || (g == 3 && h == 1); // udunits: times and frequencies are reciprocal
      CHECK("areConvertible families", Units::areConvertible(Units::Unit(a.n), Units::Unit(z.n)) == compat, "%s %s", a.n, z.n);
      if (!compat) {
        throws("Converter incompatible", std::string(a.n) + " to " + z.n, [&] { Units::Converter c2(a.n, z.n); });
        throws("Converter reset incompatible", std::string(a.n) + " to " + z.n, [&] { cv.reset(a.n, z.n); });
        // a refused reset must leave a usable converter
        double y = cv(x); CHECK("Converter after refusal", std::isfinite(y), "%g", y);
        cv.reset(a.n, b.n); CHECK_CLOSE("Converter after refusal and reset", cv(x), x * a.f / b.f, a.tol + b.tol + 1e-13, 0, "");
        ev("refused resets"); }
      cv.reset(); CHECK_CLOSE("Converter trivial", cv(x), x, 0, 0, "");
      static const char *bad[] = {"foo", "m/", "geometricall", "kpcc", "sunmas", "Hz2 ", "m^", "(", "é", "12kk"};
      const char *bu = bad[r.i(0, 9)];
      throws("bad unit ToMeters", bu, [&] { Units::ToMeters(x, bu, m); });
      throws("bad unit FromMeters", bu, [&] { Units::FromMeters(x, bu, m); });
      throws("bad unit ToSeconds", bu, [&] { Units::ToSeconds(x, bu, m); });
      throws("bad unit FromSeconds", bu, [&] { Units::FromSeconds(x, bu, m); });
      throws("bad unit ToKilograms", bu, [&] { Units::ToKilograms(x, bu); });
      throws("bad unit FromKilograms", bu, [&] { Units::FromKilograms(x, bu); });
      throws("bad unit ToHerz", bu, [&] { Units::ToHerz(x, bu); });
      throws("bad unit FromHerz", bu, [&] { Units::FromHerz(x, bu); });
      throws("bad unit ToGeometrical", bu, [&] { Units::ToGeometrical(x, bu, m); });
      throws("wrong dimension ToMeters", "kg", [&] { Units::ToMeters(x, "kg", m); });
      throws("wrong dimension ToSeconds", "kg", [&] { Units::ToSeconds(x, "kg", m); });
      throws("wrong dimension ToKilograms", "m", [&] { Units::ToKilograms(x, "m"); });
      throws("wrong dimension ToHerz", "kg", [&] { Units::ToHerz(x, "kg"); });
      throws("wrong dimension FromHerz", "kg", [&] { Units::FromHerz(x, "kg"); });
      throws("no metric ToMeters", "geometrical", [&] { Units::ToMeters(x, "geometrical", NULL); });
      throws("no metric ToSeconds", "geometrical_time", [&] { Units::ToSeconds(x, "geometrical_time", NULL); });
      throws("no metric ToGeometrical", "m", [&] { Units::ToGeometrical(x, "m", NULL); });
      throws("no metric FromMeters", "geometrical", [&] { Units::FromMeters(x, "geometrical", NULL); });
      if (k < 2) sample(fmt("x=%.17g M=%.17g kg L=%.17g m", x, kg, L));
    }); }
  // screen accessors
  for (int k = 0; k < n / 2; ++k) { if (!mine()) continue; Rng r = caseRng();
    guard("screen units", [&] {
      double kg = r.lu(1e30, 1e40); MetricP m = withMass(kg); double L = m->unitLength(); ScreenP s = new Screen(); s->metric(m); ev("screens"); distinct("value,mass", num(kg));
      const U &u = r.pick(LEN), &u2 = r.pick(LEN); double d = r.lu(10., 1e9) * L / u.f;
      s->distance(d, u.n); CHECK_CLOSE(std::string("distance m ") + u.n, s->distance(), d * u.f, u.tol + 1e-13, 0, u.n);
      CHECK_CLOSE(std::string("distance get ") + u.n, s->distance(u.n), d, RT, 0, u.n);
      CHECK_CLOSE(std::string("distance get2 ") + u2.n, s->distance(u2.n), d * u.f / u2.f, u.tol + u2.tol + 1e-13, 0, u2.n);
      CHECK_CLOSE("distance geometrical", s->distance("geometrical"), s->distance() / L, RT, 0, "");
      const U &t = r.pick(TIM); double tm = r.u(-1e5, 1e5);
      s->time(tm, t.n); CHECK_CLOSE(std::string("time s ") + t.n, s->time(), tm * t.f, t.tol + 1e-13, 0, t.n);
      CHECK_CLOSE(std::string("time get ") + t.n, s->time(t.n), tm, RT, 0, t.n);
      CHECK_CLOSE("time geometrical", s->time("geometrical_time"), s->time() * C / L, RT, 0, "");
      const U &a = r.pick(ANG); double an = r.u(.01, 1.5) / a.f;
      struct { const char *n; std::function<void(double, std::string)> set; std::function<double(std::string)> get; std::function<double()> rad; } A[] = {
        {"fov", [&](double v, std::string q) { s->fieldOfView(v, q); }, [&](std::string q) { return s->fieldOfView(q); }, [&] { return s->fieldOfView(); }},
        {"inclination", [&](double v, std::string q) { s->inclination(v, q); }, [&](std::string q) { return s->inclination(q); }, [&] { return s->inclination(); }},
        {"paln", [&](double v, std::string q) { s->PALN(v, q); }, [&](std::string q) { return s->PALN(q); }, [&] { return s->PALN(); }},
        {"argument", [&](double v, std::string q) { s->argument(v, q); }, [&](std::string q) { return s->argument(q); }, [&] { return s->argument(); }},
        {"dangle1", [&](double v, std::string q) { s->dangle1(v, q); }, [&](std::string q) { return s->dangle1(q); }, [&] { return s->dangle1(); }},
        {"dangle2", [&](double v, std::string q) { s->dangle2(v, q); }, [&](std::string q) { return s->dangle2(q); }, [&] { return s->dangle2(); }}};
      for (auto &q : A) { q.set(an, a.n); CHECK_CLOSE(std::string(q.n) + " rad " + a.n, q.rad(), an * a.f, a.tol + 1e-13, 0, a.n);
        CHECK_CLOSE(std::string(q.n) + " get " + a.n, q.get(a.n), an, RT, 0, a.n);
        const U &b = r.pick(ANG); CHECK_CLOSE(std::string(q.n) + " get " + b.n, q.get(b.n), an * a.f / b.f, a.tol + b.tol + 1e-13, 0, b.n);
        double before = q.rad(); throws((std::string(q.n) + " bad unit").c_str(), "kg", [&] { q.set(.1, "kg"); });
        CHECK_CLOSE(std::string(q.n) + " after refusal", q.rad(), before, 0, 0, ""); }
      const U &fq = r.p(.5) ? r.pick(FRQ) : r.pick(ENE); double f = r.lu(1., 1e6);
      s->freqObs(f, fq.n); CHECK_CLOSE(std::string("freqObs ") + fq.n, s->freqObs(), f * fq.f, fq.tol + 1e-13, 0, fq.n);
      CHECK_CLOSE(std::string("freqObs get ") + fq.n, s->freqObs(fq.n), f, RT, 0, fq.n);
      CHECK_CLOSE("freqObs wavelength", s->freqObs("m"), C / s->freqObs(), RT, 0, "");
      s->freqObs(f, "um"); CHECK_CLOSE("freqObs from um", s->freqObs(), C / (f * 1e-6), RT, 0, "");
      // field of view as a length at the distance of the screen
      double dm = s->distance(), w = dm * r.u(.001, .05); s->fieldOfView(w, "m"); CHECK_CLOSE("fov from length", s->fieldOfView(), w / dm, 1e-3, 0, "small-angle");
    }); }
  // every by-name property of every kind that accepts units
  int ni = nHeld();
  for (int rep = 0; rep < (S().thorough ? 10 : 2); ++rep) for (int i = 0; i < ni; ++i) { if (!mine()) continue; Rng r = caseRng();
    guard("by-name units", [&] {
      Held h = mkHeld(i); S().at += " " + h.id();
      MetricP m = h.m; if (h.a) m = h.a->metric(); if (h.sc) m = h.sc->metric(); if (h.scn) m = h.scn->metric(); if (h.ph) m = h.ph->metric();
      for (const Property *p : props(h.o)) { if (!p->supportsUnits() || p->type != Property::double_t) continue;
        // which family?
        std::vector<std::vector<U> *> F = {&LEN, &TIM, &MAS, &ANG, &FRQ, &DEN, &PRS};
        int fam = -1; double x = r.lu(.1, 50.);
        Value old; try { old = h.o->get(*p); } catch (Gyoto::Error &) { continue; }
        auto takes = [&](const char *un) { try { h.o->set(*p, Value(x), un); return true; } catch (Gyoto::Error &) { return false; } };
        if (takes("g")) fam = 2; else if (takes("degree")) fam = 3; else if (m && !h.m && takes("geometrical_time")) fam = 1;
        else if (m && !h.m && takes("geometrical")) fam = 0; else if (takes("GHz")) fam = 4; else if (takes("cm-3")) fam = 5; else if (takes("erg/cm3")) fam = 6;
        if (fam < 0) { ev("unit properties of other dimension"); continue; }
        ev("unit properties"); distinct("property", h.id() + p->name);
        const U &u = r.pick(*F[fam]), &v = r.pick(*F[fam]); std::string key = h.id() + " " + p->name;
        double xs = fam == 0 ? x * (m ? m->unitLength() : 1.) / u.f : x;
        try { h.o->set(*p, Value(xs), u.n); } catch (Gyoto::Error &e) { viol("set refused " + key, std::string(u.n) + e.get_message()); continue; }
        CHECK_CLOSE("by-name unit round trip " + key, double(h.o->get(*p, u.n)), xs, 1e-9, 0, u.n);
        CHECK_CLOSE("by-name unit change " + key, double(h.o->get(*p, v.n)), xs * u.f / v.f, u.tol + v.tol + 1e-9, 0, fmt("%s->%s", u.n, v.n));
        double base = h.o->get(*p), base_ = h.o->get(*p, ""); CHECK_CLOSE("by-name default unit " + key, base_, base, 1e-14, 0, "");
        h.o->setParameter(p->name, num(xs), u.n); CHECK_CLOSE("textual with unit " + key, double(h.o->get(*p)), base, 1e-12, 0, u.n);
        ev("checks"); try { h.o->set(*p, Value(x), "foo"); viol("unknown unit accepted " + key, "foo"); } catch (Gyoto::Error &) { ev("refusals"); }
        CHECK_CLOSE("after refusal " + key, double(h.o->get(*p)), base, 0, 0, "");
        ev("checks"); try { h.o->set(*p, Value(x), "candela"); viol("incompatible unit accepted " + key, "candela"); } catch (Gyoto::Error &) { ev("refusals"); }
        CHECK_CLOSE("after refusal2 " + key, double(h.o->get(*p)), base, 0, 0, "");
        // geometrical units scale with the mass of the metric
        if (fam <= 1 && m && !h.m) { const char *gu = fam == 0 ? "geometrical" : "geometrical_time";
          h.o->set(*p, Value(x), gu); double g1 = h.o->get(*p, gu), si1 = h.o->get(*p, fam == 0 ? "m" : "s"); CHECK_CLOSE("geometrical round trip " + key, g1, x, 1e-9, 0, gu);
          CHECK_CLOSE("geometrical to SI " + key, si1, x * m->unitLength() / (fam == 0 ? 1 : C), 1e-9, 0, gu); ev("geometrical"); }
      } }); }
  return done(); }
