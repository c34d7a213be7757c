// C06: access to properties by name.
#include "reflect.h"
#include <algorithm>
using namespace V; using namespace Gyoto;
static bool isNum(int t) { return t == Property::double_t || t == Property::long_t || t == Property::unsigned_long_t || t == Property::size_t_t; }
static std::string asText(const Value &v, int t) {
  switch (t) { case Property::double_t: return num(double(v)); case Property::long_t: return fmt("%ld", long(v)); case Property::unsigned_long_t: case Property::size_t_t: return fmt("%lu", (unsigned long) v);
    case Property::string_t: case Property::filename_t: return std::string(v);
    case Property::vector_double_t: { std::string s; for (double d : std::vector<double>(v)) s += num(d) + " "; return s; }
    case Property::vector_unsigned_long_t: { std::string s; for (unsigned long d : std::vector<unsigned long>(v)) s += fmt("%lu ", d); return s; } } return ""; }
static bool eq(const Value &a, const Value &b, int t, double rt) {
  switch (t) { case Property::double_t: return close(double(a), double(b), rt); case Property::long_t: return long(a) == long(b); case Property::unsigned_long_t: case Property::size_t_t: return (unsigned long) a == (unsigned long) b;
    case Property::bool_t: return bool(a) == bool(b); case Property::string_t: case Property::filename_t: return std::string(a) == std::string(b);
    case Property::vector_double_t: { std::vector<double> x = a, y = b; if (x.size() < y.size()) return false; /* shorter vectors may be completed */ for (size_t i = 0; i < y.size(); ++i) if (!close(x[i], y[i], rt)) return false; return true; }
    case Property::vector_unsigned_long_t: return std::vector<unsigned long>(a) == std::vector<unsigned long>(b); } return true; }
static std::string words(const std::string &s) { std::set<std::string> w; std::string t; for (char c : s + " ") if (c == ' ') { if (t.size()) w.insert(t); t = ""; } else t += c; for (auto &x : w) t += x + " "; return t; }
/// value got = value set, up to documented normal forms
static bool holds(const Held &h, const Property *p, const Value &g, const Value &v) {
  if (h.kind == "Torus" && p->name == "SmallRadius") return close(double(g), fabs(double(v)), 1e-12);
  if (h.kind == "Scenery" && p->name == "Quantities") return words(std::string(g)) == words(std::string(v));
  if (h.kind == "PowerLaw" && p->name == "CutOff") { std::vector<double> x = v; std::sort(x.begin(), x.end()); return eq(g, Value(x), p->type, 1e-12); }
  return eq(g, v, p->type, 1e-12); }
/// something that must be refused: a Gyoto::Error, and nothing changed
static void refused(Held &h, const std::string &key, std::function<void()> f, bool same = true) {
  Snap s0 = snap(h.o); ev("checks"); ev("refusals"); bool threw = false;
  try { f(); } catch (Gyoto::Error &) { threw = true; } catch (std::exception &e) { viol("not a Gyoto error: " + key, std::string(typeid(e).name()) + e.what()); return; }
  if (!threw) { viol("accepted: " + key, ""); return; }
  if (!same) return;   // a value its own setter refuses: no claim about a half-way state
  std::string d = snapDiff(s0, snap(h.o)); CHECK("changed by a refused setting: " + key, d == "", "%s", d.c_str()); }
static void oneObject(Held &h, Rng &r) {
  for (const Property *p : props(h.o)) {
    std::string key = h.id() + " " + p->name; S().at = key; distinct("property", key); ev("properties");
    Property const *q = h.o->property(p->name); CHECK("property lookup " + key, q && q->name == p->name, "");
    if (!isObjectType(p->type) && p->type != Property::filename_t)
      for (Value &v : candidates(h.o, p, r)) {
        bool ok = true;
        try { if (r.p(.5)) h.o->set(*p, v); else h.o->set(p->name, v); }
        catch (Gyoto::Error &) { ok = false; ev("values refused"); }
        if (!ok) continue;
        ev("values set"); Value g = h.o->get(p->name); CHECK("get after set: " + key, holds(h, p, g, v), "%s vs %s", asText(g, p->type).c_str(), asText(v, p->type).c_str());
        g = h.o->get(*p); CHECK("get after set: " + key, holds(h, p, g, v), "%s vs %s", asText(g, p->type).c_str(), asText(v, p->type).c_str());
        if (p->type == Property::bool_t) continue;
        // the same as text
        int rc = h.o->setParameter(p->name, asText(v, p->type), ""); CHECK("setParameter return: " + key, rc == 0, "%d", rc); g = h.o->get(*p);
        CHECK("get after text: " + key, holds(h, p, g, v), "%s vs %s", asText(g, p->type).c_str(), asText(v, p->type).c_str()); ev("texts set");
        if (isNum(p->type)) { h.o->set(*p, Value(asText(v, p->type))); g = h.o->get(*p); CHECK("get after string value: " + key, holds(h, p, g, v), "%s vs %s", asText(g, p->type).c_str(), asText(v, p->type).c_str()); }
      }
    if (p->type == Property::bool_t) for (int b = 0; b < 2; ++b) {
      ev("booleans"); h.o->set(p->name, Value(bool(b))); CHECK("bool: " + key, bool(h.o->get(p->name)) == bool(b) && bool(h.o->get(p->name_false)) == !b, "%d", b);
      h.o->set(p->name_false, Value(bool(b))); CHECK("bool by opposite name: " + key, bool(h.o->get(p->name)) == !b && bool(h.o->get(p->name_false)) == bool(b), "%d", b);
      h.o->setParameter(b ? p->name : p->name_false, "", ""); CHECK("bool by text: " + key, bool(h.o->get(p->name)) == bool(b), "%d", b); }
    if (isObjectType(p->type) && h.cat != "Photon") { ev("objects set"); Value g; bool ok = true;
      auto put = [&](Value v) { try { h.o->set(p->name, v); } catch (Gyoto::Error &) { ok = false; ev("objects refused"); } if (ok) g = h.o->get(p->name); };
#define OBJ(T, mk) { T x = mk; put(Value(x)); if (ok) CHECK("get after set: " + key, &*T(g) == &*x, "another object"); }
      if (p->type == Property::metric_t) OBJ(MetricP, h.kind == "Shift" ? mkMetric("KerrKS") : stdMetric()) else if (p->type == Property::astrobj_t) OBJ(AstrobjP, mkAstrobj("FixedStar")) else if (p->type == Property::spectrum_t) OBJ(SpectrumP, mkSpectrum("BlackBody"))
      else if (p->type == Property::spectrometer_t) OBJ(SpectroP, stdSpectro()) else OBJ(ScreenP, stdScreen(stdMetric())) }
    // wrong types
    std::vector<double> vd = {1., 2.};
    if (isNum(p->type)) { refused(h, key + " = text", [&] { h.o->set(*p, Value(std::string("abc"))); }); refused(h, key + " = array", [&] { h.o->set(p->name, Value(vd)); }); refused(h, key + " = empty text", [&] { h.o->set(p->name, Value(std::string(""))); });
      if (p->type == Property::double_t) refused(h, key + " = too large", [&] { h.o->set(p->name, Value(std::string("1e400000"))); });
      if (p->type != Property::double_t) { refused(h, key + " = double", [&] { h.o->set(*p, Value(1.5)); }); refused(h, key + " = huge integer", [&] { h.o->set(*p, Value(std::string("99999999999999999999999999"))); }); } }
    if (p->type == Property::bool_t) { refused(h, key + " = text", [&] { h.o->set(*p, Value(std::string("abc"))); }); refused(h, key + " = array", [&] { h.o->set(*p, Value(vd)); }); }
    if (p->type == Property::string_t || p->type == Property::filename_t) refused(h, key + " = double", [&] { h.o->set(*p, Value(1.5)); });
    if (p->type == Property::vector_double_t) refused(h, key + " = double", [&] { h.o->set(*p, Value(1.5)); });
    if (p->type == Property::vector_unsigned_long_t) refused(h, key + " = double", [&] { h.o->set(*p, Value(vd)); });
    if (isObjectType(p->type)) { refused(h, key + " = double", [&] { h.o->set(*p, Value(1.5)); });
      if (p->type != Property::spectrum_t) refused(h, key + " = wrong object", [&] { h.o->set(*p, Value(mkSpectrum("PowerLaw"))); }); else refused(h, key + " = wrong object", [&] { h.o->set(*p, Value(stdMetric())); }); }
    if (!p->supportsUnits() && !isObjectType(p->type) && p->type != Property::filename_t) { Value v; try { v = h.o->get(*p); } catch (Gyoto::Error &) { continue; } refused(h, key + " with a unit", [&] { h.o->set(*p, v, "m"); }); refused(h, key + " read with a unit", [&] { h.o->get(*p, "m"); }); }
    if (p->type == Property::filename_t && h.cat != "Screen") refused(h, key + " = missing file", [&] { h.o->set(*p, Value(std::string("/nonexistent/dir/file.fits"))); }, false);
    if (p->type == Property::string_t && ENUMS().count(p->name) && ENUMS()[p->name].size() && p->name != "MagneticConfiguration") refused(h, key + " = unknown word", [&] { h.o->set(*p, Value(std::string("NoSuchThing"))); }, false);
  }
  refused(h, h.id() + " unknown name", [&] { h.o->set("NoSuchProperty", Value(1.)); });
  refused(h, h.id() + " unknown name read", [&] { h.o->get("NoSuchProperty"); });
  refused(h, h.id() + " unknown name with unit", [&] { h.o->set("NoSuchProperty", Value(1.), "m"); });
  { Snap s0 = snap(h.o); int rc = -1; try { rc = h.o->setParameter("NoSuchProperty", "1", ""); } catch (Gyoto::Error &) { rc = 1; } CHECK("unknown parameter accepted: " + h.id(), rc != 0, ""); CHECK("unknown parameter changed: " + h.id(), snapDiff(s0, snap(h.o)) == "", ""); }
  strs names = h.o->getPropertyNames(true), n2 = h.o->getPropertyNames(); for (auto &n : names) CHECK("advertised name " + h.id(), h.o->property(n) != NULL, "%s", n.c_str()); CHECK("name lists " + h.id(), names.size() >= n2.size(), ""); }
static void paths(Object *top, Object *o, const std::string &pre, Rng &r, int depth) {
  for (const Property *p : props(o)) {
    if (isObjectType(p->type)) { if (depth > 2) continue; Value x; try { x = o->get(*p); } catch (Gyoto::Error &) { continue; } Object *c = NULL; MetricP m; AstrobjP a; SpectrumP s; SpectroP sr; ScreenP sc;
      if (p->type == Property::metric_t) { m = MetricP(x); if (m) c = &*m; } else if (p->type == Property::astrobj_t) { a = AstrobjP(x); if (a) c = &*a; } else if (p->type == Property::spectrum_t) { s = SpectrumP(x); if (s) c = &*s; }
      else if (p->type == Property::spectrometer_t) { sr = SpectroP(x); if (sr) c = &*sr; } else { sc = ScreenP(x); if (sc) c = &*sc; }
      if (c) paths(top, c, pre + p->name + "::", r, depth + 1); continue; }
    if (pre == "" || p->type != Property::double_t) continue;
    double v = r.u(.1, .9), old = o->get(*p); int rc = -2; try { rc = top->setParameter(pre + p->name, num(v), ""); } catch (Gyoto::Error &) { continue; }
    CHECK("path " + pre + p->name, rc == 0 && close(double(o->get(*p)), v, 1e-12), "rc %d: %g vs %g", rc, double(o->get(*p)), v); ev("paths"); distinct("path", pre + p->name); try { o->set(*p, Value(old)); } catch (Gyoto::Error &) {} }
  ev("checks"); int rc; try { rc = top->setParameter(pre + "NoSuchChild::X", "1", ""); } catch (Gyoto::Error &) { rc = 1; } if (rc == 0) viol("unknown path accepted", pre); ev("refusals"); }
int main(int argc, char **argv) {
  init(argc, argv);
  for (int rep = 0; rep < (S().thorough ? 100 : 6); ++rep) for (int i = 0; i < nHeld(); ++i) { if (!mine()) continue; Rng r = caseRng();
    guard("properties", [&] { Held h = mkHeld(i); oneObject(h, r); paths(h.o, h.o, "", r, 0); }); }
  return done(); }
