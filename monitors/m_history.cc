// LINK: stdplug
// C20: results depend on the final configuration, not on how it was reached.
#include "reflect.h"
#include "scenes.h"
#include "geo.h"
#include "GyotoComplexMetric.h"
#include <algorithm>
using namespace V; using namespace Gyoto;
// ---- a tiny XML tree, to write the same document in another order ----
struct El { std::string open, name, text; std::vector<El> kids;
  std::string str() const { std::string s = open; if (open.size() > 1 && open[open.size() - 2] == '/') return s; for (auto &k : kids) s += k.str(); return s + text + "</" + name + ">"; }
  void shuffle(Rng &r) { if (open.find("\"Complex\"") != std::string::npos) { for (auto &k : kids) k.shuffle(r); return; }   // the order of the elements is part of the configuration
    for (size_t i = kids.size(); i > 1; --i) std::swap(kids[i - 1], kids[r.next() % i]); for (auto &k : kids) k.shuffle(r);
    // giving an opacity by definition makes a sphere optically thin: an explicit choice of the opposite comes after it
    std::stable_sort(kids.begin(), kids.end(), [](const El &a, const El &b) { return a.name == "Opacity" && b.name != "Opacity"; }); } };
static El parse(const std::string &t, size_t &p) {
  El e; size_t a = t.find('<', p), b = t.find('>', a); e.open = t.substr(a, b - a + 1); e.name = e.open.substr(1, e.open.find_first_of(" />", 1) - 1); p = b + 1; if (t[b - 1] == '/') return e;
  for (;;) { size_t n = t.find('<', p); std::string tx = t.substr(p, n - p); if (tx.find_first_not_of(" \n\t") != std::string::npos) e.text += tx; p = n; if (t[n + 1] == '/') { p = t.find('>', n) + 1; return e; } e.kids.push_back(parse(t, p)); } }
static std::string toXML(SceneryP s) { Factory f(s); return f.format(); }
static AstrobjP A0(SceneryP s) { return s->astrobj(); }
/// properties whose meaning depends on others by definition, or that are views of others
static bool skip(const Object *o, const Property *p) {
  static const std::set<std::string> no = {"NThreads", "NProcesses", "Quantities", "Resolution", "NSamples", "Kind", "Unit", "InitCoord", "Distance", "DMax", "Integrator"};
  return p->type == Property::filename_t || no.count(p->name) || isObjectType(p->type); (void) o; }
struct Slot { Object *a, *b; const Property *p; std::string name; };
static void slots(Object *a, Object *b, const std::string &pre, std::vector<Slot> &out, std::vector<Kept> &keep, int depth = 0) {
  if (typeid(*a) != typeid(*b)) return;
  for (const Property *p : props(a)) {
    if (isObjectType(p->type)) { if (depth < 4 && !(depth && p->type == Property::metric_t)) try { Kept ka, kb; Object *x = ka.get(a->get(*p), p->type), *y = kb.get(b->get(*p), p->type); keep.push_back(ka); keep.push_back(kb); if (x && y) slots(x, y, pre + p->name + "::", out, keep, depth + 1); } catch (Gyoto::Error &) {} continue; }
    if (!skip(a, p)) out.push_back({a, b, p, pre + p->name}); } }
static bool sameValue(const Object *a, const Object *b, const Property *p) { Snap x, y; try { Value u = a->get(*p), v = b->get(*p); switch (p->type) { case Property::double_t: return double(u) == double(v); case Property::bool_t: return bool(u) == bool(v); case Property::string_t: return std::string(u) == std::string(v); case Property::vector_double_t: return std::vector<double>(u) == std::vector<double>(v); case Property::long_t: return long(u) == long(v); case Property::size_t_t: return size_t(u) == size_t(v); case Property::unsigned_long_t: return (unsigned long) u == (unsigned long) v; default: return true; } } catch (Gyoto::Error &) { return true; } }
/// emission dates of rays that miss are dates of closest approach: ill determined
static void sameDates(Buffers &a, Buffers &b) { for (size_t i = 0; i < a.T.size() && i < b.T.size(); ++i) if (fabs(a.T[i] - b.T[i]) < .5) b.T[i] = a.T[i]; }
/// trajectories follow every change of their metric, directly or through what it is made of
static void lines(const std::string &fam) {
  Rng r = caseRng(); Met m1 = makeMet(fam, r), m2 = makeMet(fam, r);
  guard("trajectories " + fam, [&] { MetricP A = m1.make(), B = m2.make(); double x[4]; Met mm = m1; mm.rmin = std::max(m1.rmin, m2.rmin) * 1.5 + 2; point(mm, r, x, 1.3, 60, .4); double u[4]; auto f = tensorOf(m1, A); bool massive = r.p(.4); if (!launch(f, m1, r, x, massive, u)) return;
    double c[8]; memcpy(c, x, 32); memcpy(c + 4, u, 32); int dir = r.p(.5) ? 1 : -1; auto mk = [&](MetricP g) { Line L; massive ? L.star() : L.photon(); if (massive) L.st->metric(g); L.w->metric(g); L.w->setInitCoord(c, dir); return L; };
    Line L = mk(A); double T = x[0] + dir * r.u(10, 30); L.w->xFill(T); 
    std::vector<std::pair<Object *, Object *> > pairs = {{&*A, &*B}}; std::vector<MetricP> keep; if (fam == "ShiftKS") { MetricP a = MetricP(A->get("SubMetric")), b = MetricP(B->get("SubMetric")); keep.push_back(a); keep.push_back(b); pairs.push_back({&*a, &*b}); }
    if (fam == "ComplexKS") { auto *a = dynamic_cast<Metric::Complex *>(&*A), *b = dynamic_cast<Metric::Complex *>(&*B); if (a->getCardinal() && b->getCardinal()) { MetricP p = (*a)[0], q = (*b)[0]; keep.push_back(p); keep.push_back(q); pairs.push_back({&*p, &*q}); } }
    for (auto &pr : pairs) for (const Property *p : props(pr.first)) { if (isObjectType(p->type) || p->type == Property::string_t || p->name == "Spherical" || sameValue(pr.first, pr.second, p)) continue; std::string key = fam + " " + p->name; S().at = key; if (p->name == "Mass") continue; /* only scales units */
      bool refused = false; try { pr.first->set(*p, pr.second->get(*p)); } catch (Gyoto::Error &) { refused = true; } if (refused) { ev("metric values refused"); return; }
      ev("trajectories after a metric setting"); distinct("metric property", key); MetricP C(A->clone()); Line F = mk(C); 
      double a[4], b[4]; bool oka = true, okb = true; auto pos = [&](Line &W, double *o, bool &ok) { try { double t = T; o[0] = W.w->get_nelements(); W.w->xFill(T); W.w->getCoord(&t, 1, o + 1, o + 2, o + 3); ok = ok && (dir > 0 ? T : T) == T; } catch (Gyoto::Error &) { ok = false; } }; pos(L, a, oka); pos(F, b, okb);
      CHECK("trajectory not reset by its metric: " + key, a[0] == 1, "%g points were kept", a[0]); CHECK("trajectory after a change of its metric refused differently: " + key, oka == okb, "%d %d", oka, okb); if (!oka || !okb) return;
      bool ok = true; for (int i = 1; i < 4; ++i) ok = ok && close(a[i], b[i], 1e-7, 1e-9); CHECK("trajectory after a change of its metric: " + key, ok, "%.12g %.12g %.12g vs fresh %.12g %.12g %.12g", a[1], a[2], a[3], b[1], b[2], b[3]); } }); }
static void trace(SceneryP s, Quantity_t q) { size_t n = s->screen()->resolution(); Buffers b(q, n * n, nnu(s)); traceFull(s, b); }
static void one(const Entry &e) {
  Rng r = caseRng(); SceneOpt o; o.res = 4; Rng ra(r.next()), rb(r.next()); Scene s = makeScene(e, ra, o), s2 = makeScene(e, rb, o); double tol = s.objKind == "StarTrace" ? 2e-2 : s.orbit ? 1e-5 : s.objKind == "Jet" ? 1e-5 : 1e-6; if (s.metricKind == "ChernSimons") tol = 1e-3;
  guard(s.name, [&] { std::string why; size_t np = o.res * o.res; SceneryP ref = scenery(s.xml); Quantity_t q = ref->getRequestedQuantities(); Buffers R(q, np, nnu(ref)); traceFull(ref, R); ev("hit pixels", hits(R)); distinct("scenes", s.xml);
    // (1) the same document in another order
    for (int k = 0; k < 2; ++k) { size_t p = s.xml.find("<Scenery"); El t = parse(s.xml, p); t.shuffle(r); std::string x = hdr() + t.str(); S().at = s.name + " shuffled"; SceneryP h; try { h = scenery(x); } catch (Gyoto::Error &) { ev("orders refused"); continue; } Buffers B(q, np, nnu(h)); traceFull(h, B); ev("shuffled documents"); CHECK("order of the document: " + s.name, sameBuffers(R, B, why, tol), "%s\n%s", why.c_str(), x.c_str()); distinct("orders", x); }
    // (2) detours: values of another scene set and used, then set back
    { SceneryP h = scenery(s.xml), g = scenery(s2.xml), orig = scenery(s.xml); if (r.p(.6)) trace(h, q);
      int rounds = r.i(1, 3); std::string done;
      for (int k = 0; k < rounds; ++k) { std::vector<Slot> sl; std::vector<Kept> keep; slots(&*h, &*g, "", sl, keep); std::vector<Slot> chosen; double pr = r.p(.3) ? .9 : r.p(.5) ? .3 : .08; for (auto &x : sl) if (!sameValue(x.a, x.b, x.p) && r.p(pr)) chosen.push_back(x);
        if (chosen.empty() && sl.size()) chosen.push_back(sl[r.next() % sl.size()]);
        for (size_t i = chosen.size(); i > 1; --i) std::swap(chosen[i - 1], chosen[r.next() % i]);
        for (auto &x : chosen) { S().at = s.name + " " + x.name; try { x.a->set(*x.p, x.b->get(*x.p)); ev("detour settings"); distinct("property", s.objKind + " " + x.name); done += x.name + " "; } catch (Gyoto::Error &) {} }
        if (r.p(.7)) try { trace(h, q); ev("detour images"); } catch (Gyoto::Error &) { ev("detour images refused"); }
        // back: from the untouched original, every property that differs, repeatedly since some are views of others
        std::vector<Slot> bk; std::vector<Kept> keep2; slots(&*h, &*orig, "", bk, keep2); for (int pass = 0; pass < 3; ++pass) { size_t m = 0; for (size_t i = bk.size(); i > 1; --i) std::swap(bk[i - 1], bk[r.next() % i]); for (auto &x : bk) if (!sameValue(x.a, x.b, x.p)) { S().at = s.name + " back " + x.name; try { x.a->set(*x.p, x.b->get(*x.p)); ++m; } catch (Gyoto::Error &) {} } if (!m) break; } }
      std::string f, d; { Snap a = snap(&*orig), b = snap(&*h); a.erase("InitCoord"); b.erase("InitCoord"); d = snapDiff(a, b, &f); } if (d != "") { ev("configurations not restored"); note("not restored " + s.name + " " + d); }
      else { Buffers B(q, np, nnu(h)); traceFull(h, B); ev("histories"); CHECK("after a detour: " + s.name, sameBuffers(R, B, why, tol), "%s after %s", why.c_str(), done.c_str()); } }
    if (s.objKind == "StarTrace") return;   // sampled at the steps of the integration, which depend on the (irrelevant) normalisation of the initial velocity
    double t15 = 1e-3;   // through a document: the 15 digits are amplified where a ray grazes or the steps are decided
    // (3) a new configuration reached step by step equals the same one read from a file
    { SceneryP h = scenery(s.xml), g = scenery(s2.xml); std::vector<Slot> sl; std::vector<Kept> keep; slots(&*h, &*g, "", sl, keep); double pr = r.p(.5) ? .9 : .3; std::string done; for (size_t i = sl.size(); i > 1; --i) std::swap(sl[i - 1], sl[r.next() % i]);
      if (r.p(.7)) trace(h, q);
      for (auto &x : sl) if (!sameValue(x.a, x.b, x.p) && r.p(pr)) { S().at = s.name + " step " + x.name; try { x.a->set(*x.p, x.b->get(*x.p)); ev("steps"); done += x.name + " "; } catch (Gyoto::Error &) {} if (r.p(.15)) try { trace(h, q); ev("images between steps"); } catch (Gyoto::Error &) {} }
      std::string x = toXML(h); SceneryP fresh = scenery(x); Buffers B(q, np, nnu(h)), C(q, np, nnu(fresh)); bool okB = true, okC = true; S().at = s.name + " compare"; try { traceFull(h, B); } catch (Gyoto::Error &) { okB = false; } try { traceFull(fresh, C); } catch (Gyoto::Error &) { okC = false; }
      ev("rewritten configurations"); CHECK("new configuration refused differently: " + s.name, okB == okC, "%d %d after %s", okB, okC, done.c_str()); if (okB && okC) CHECK("new configuration: " + s.name, (sameDates(C, B), sameBuffers(C, B, why, t15)), "%s (fresh vs stepwise) after %s", why.c_str(), done.c_str()); }
    // (4) a shared metric changed through any of its users
    { SceneryP h = scenery(s.xml), g = scenery(s2.xml); trace(h, q); MetricP gm = g->metric(); MetricP mm = r.p(.3) ? h->metric() : r.p(.5) ? h->screen()->metric() : A0(h)->metric(); for (const Property *p : props(&*mm)) if (!skip(&*mm, p) && r.p(.8)) try { mm->set(*p, gm->get(*p)); } catch (Gyoto::Error &) {} 
      std::string x = toXML(h); SceneryP fresh = scenery(x); Buffers B(q, np, nnu(h)), C(q, np, nnu(fresh)); bool okB = true, okC = true; S().at = s.name + " metric"; try { traceFull(h, B); } catch (Gyoto::Error &) { okB = false; } try { traceFull(fresh, C); } catch (Gyoto::Error &) { okC = false; } ev("metric changes"); CHECK("metric change refused differently: " + s.name, okB == okC, "%d %d", okB, okC); if (okB && okC) CHECK("after a change of the metric: " + s.name, (sameDates(C, B), sameBuffers(C, B, why, t15)), "%s (fresh vs changed)", why.c_str());
      // (5) another metric, screen, object put in place
      SceneryP k = scenery(s.xml); trace(k, q); int w = r.i(0, 3); S().at = s.name + fmt(" replace %d", w); if (w == 0) k->metric(scenery(s2.xml)->metric()); else if (w == 1) k->screen(scenery(s2.xml)->screen()); else if (w == 2) k->astrobj(scenery(s2.xml)->astrobj()); else { k->screen()->spectrometer(scenery(s2.xml)->screen()->spectrometer()); }
      x = toXML(k); fresh = scenery(x); okB = okC = true; Buffers D(q, np, nnu(k)), E(q, np, nnu(fresh)); try { traceFull(k, D); } catch (Gyoto::Error &) { okB = false; } try { traceFull(fresh, E); } catch (Gyoto::Error &) { okC = false; } ev("replacements"); CHECK(fmt("replacement %d refused differently: ", w) + s.name, okB == okC, "%d %d", okB, okC); if (okB && okC) CHECK(fmt("after replacement %d: ", w) + s.name, (sameDates(E, D), sameBuffers(E, D, why, t15)), "%s (fresh vs replaced)", why.c_str()); } }); }
int main(int c, char **v) { init(c, v);
  int reps = S().thorough ? 30 : 2; for (int k = 0; k < reps; ++k) for (auto &e : catalogue()) { if (e.slow && !S().thorough && k) continue; if (!mine()) continue; one(e); }
  int lr = S().thorough ? 300 : 20; for (int k = 0; k < lr; ++k) for (auto &f : metricFamilies()) { if (!mine()) continue; lines(f); }
  return done(); }
