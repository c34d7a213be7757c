// C14: spectral channels.
#include "reflect.h"
using namespace V; using namespace Gyoto;
typedef Spectrometer::Uniform Un; typedef Spectrometer::Complex Cx;
static double strtod_(const char *s) { return strtod(s, NULL); }
static const double C = 299792458.;
static double toHz(double x, const std::string &u) { // independent
  if (u == "Hz" || u == "") return x; if (u == "GHz") return x * 1e9; if (u == "keV") return x * 2.417989242e17; if (u == "eV") return x * 2.417989242e14;
  if (u == "m") return C / x; if (u == "um") return C / (x * 1e-6); if (u == "nm") return C / (x * 1e-9); if (u == "cm") return C / (x * 1e-2); abort(); }
static double fromHz(double f, const std::string &u) {
  if (u == "Hz" || u == "") return f; if (u == "GHz") return f / 1e9; if (u == "keV") return f / 2.417989242e17; if (u == "eV") return f / 2.417989242e14;
  if (u == "m") return C / f; if (u == "um") return C / f / 1e-6; if (u == "nm") return C / f / 1e-9; if (u == "cm") return C / f / 1e-2; abort(); }
static const std::vector<std::string> UNITS = {"", "Hz", "GHz", "keV", "eV", "m", "um", "nm", "cm"};
static const std::vector<std::string> KINDS = {"wave", "wavelog", "freq", "freqlog"};
struct Model { std::string kind; double b0 = 0, b1 = 0; size_t n = 0;   // band in the native unit of kind
  double bnd(size_t i) const { double v = b0 + i * (b1 - b0) / n; if (kind == "freqlog" || kind == "wavelog") v = pow(10., v);
    if (kind[0] == 'w') v = C / v; return v; } };
static void checkUniform(const Spectrometer::Generic &s, const Model &M, Rng &r) {
  ev("uniform checks"); std::string K = "uniform " + M.kind;
  CHECK(K + " nSamples", s.nSamples() == M.n, "%zu vs %zu", s.nSamples(), M.n);
  if (!M.n || s.nSamples() != M.n) return;
  CHECK(K + " nBoundaries", s.getNBoundaries() == M.n + 1, "%zu vs %zu", s.getNBoundaries(), M.n + 1);
  const double *B = s.getChannelBoundaries(), *w = s.getWidths(), *mp = s.getMidpoints(); const size_t *ci = s.getChannelIndices();
  for (size_t i = 0; i <= M.n; ++i) CHECK_CLOSE(K + " boundary", B[i], M.bnd(i), 1e-10, 0, fmt("%zu/%zu", i, M.n));
  for (size_t i = 0; i < M.n; ++i) {
    CHECK(K + " index", ci[2 * i] < s.getNBoundaries() && ci[2 * i + 1] < s.getNBoundaries() && ci[2 * i] == i && ci[2 * i + 1] == i + 1, "%zu: %zu %zu", i, ci[2 * i], ci[2 * i + 1]);
    CHECK_CLOSE(K + " width", w[i], fabs(M.bnd(i + 1) - M.bnd(i)), 1e-8, 1e-10 * M.bnd(i), fmt("%zu", i));
    CHECK_CLOSE(K + " midpoint", mp[i], .5 * (M.bnd(i + 1) + M.bnd(i)), 1e-10, 0, fmt("%zu", i)); }
  std::string u = r.pick(UNITS); double ut = u.find("eV") != std::string::npos ? 1e-5 : 1e-10;
  std::vector<double> Bu = s.channelBoundaries(u), wu = s.widths(u), mu = s.midpoints(u), B0 = s.channelBoundaries(), w0 = s.widths(), m0 = s.midpoints();
  CHECK(K + " vector sizes", Bu.size() == M.n + 1 && B0.size() == M.n + 1 && wu.size() == M.n && mu.size() == M.n && w0.size() == M.n && m0.size() == M.n, "sizes");
  std::vector<double> raw(M.n + 1); s.getChannelBoundaries(raw.data(), u);
  for (size_t i = 0; i <= M.n; ++i) { CHECK_CLOSE(K + " boundary unit " + u, Bu[i], fromHz(M.bnd(i), u), ut, 0, fmt("%zu", i)); CHECK_CLOSE(K + " boundary vector", B0[i], B[i], 0, 0, ""); CHECK_CLOSE(K + " boundary raw unit", raw[i], Bu[i], 0, 0, ""); }
  std::vector<unsigned long> ix = s.channelIndices();
  for (size_t i = 0; i < M.n; ++i) {
    CHECK(K + " index vector", ix[2 * i] == ci[2 * i] && ix[2 * i + 1] == ci[2 * i + 1], "%zu", i);
    CHECK_CLOSE(K + " midpoint unit " + u, mu[i], fromHz(mp[i], u), ut, 0, ""); CHECK_CLOSE(K + " midpoint vector", m0[i], mp[i], 0, 0, ""); CHECK_CLOSE(K + " width vector", w0[i], w[i], 0, 0, "");
    CHECK_CLOSE(K + " width unit " + u, wu[i], fabs(fromHz(M.bnd(i + 1), u) - fromHz(M.bnd(i), u)), 1e-4, ut * fabs(fromHz(M.bnd(i), u)), ""); } }
static void randBand(Rng &r, const std::string &k, double &a, double &b) {
  double f0 = r.lu(1e8, 1e19), f1 = f0 * r.lu(1.01, 1e4); if (r.p(.2)) std::swap(f0, f1);
  if (k[0] == 'w') { f0 = C / f0; f1 = C / f1; }
  if (k == "freqlog" || k == "wavelog") { f0 = log10(f0); f1 = log10(f1); } a = f0; b = f1; }
/// random change to a Uniform and its model, through one of the interfaces
static void mutate(SmartPointer<Un> s, Model &M, Rng &r) {
  ev("changes");
  switch (r.i(0, 5)) {
  case 0: { double nb[2]; randBand(r, M.kind, nb[0], nb[1]); M.b0 = nb[0]; M.b1 = nb[1]; s->band(nb); break; }
  case 1: { // band with a unit
    double f0 = r.lu(1e8, 1e19), f1 = f0 * r.lu(1.01, 1e4); std::string u = r.pick(UNITS);
    std::string nat = M.kind[0] == 'w' ? "m" : "Hz"; if (u == "") u = nat;
    double x[2] = {fromHz(f0, u), fromHz(f1, u)}; bool lg = M.kind.find("log") != std::string::npos;
    double y[2]; for (int i = 0; i < 2; ++i) { y[i] = lg ? log10(x[i]) : x[i]; }
    bool en = u.find("eV") != std::string::npos;
    if (r.p(.5)) s->band(y, u); else s->set("Band", Value(std::vector<double>{y[0], y[1]}), u);
    M.b0 = M.kind[0] == 'w' ? C / f0 : f0; M.b1 = M.kind[0] == 'w' ? C / f1 : f1; if (lg) { M.b0 = log10(M.b0); M.b1 = log10(M.b1); }
    std::vector<double> g = s->band(), gu = s->band(u);
    for (int i = 0; i < 2; ++i) { CHECK_CLOSE("band native " + M.kind, g[i], i ? M.b1 : M.b0, en ? 1e-5 : 1e-10, en ? 1e-5 : 0, u);
      CHECK_CLOSE("band read back in unit " + M.kind, gu[i], y[i], 1e-9, 1e-12, u); }
    M.b0 = g[0]; M.b1 = g[1]; ev("bands with unit"); break; }
  case 2: { size_t n = r.i(0, 12); if (r.p(.9) && !n) n = 1; M.n = n; if (r.p(.5)) s->nSamples(n); else s->set("NSamples", Value((unsigned long) n)); break; }
  case 3: { M.kind = r.pick(KINDS); double nb[2]; randBand(r, M.kind, nb[0], nb[1]); M.b0 = nb[0]; M.b1 = nb[1]; s->band(nb, "", M.kind); break; }
  case 4: { M.kind = r.pick(KINDS); s->kind(M.kind); double nb[2]; randBand(r, M.kind, nb[0], nb[1]); M.b0 = nb[0]; M.b1 = nb[1]; s->set("Band", Value(std::vector<double>{nb[0], nb[1]})); break; }
  case 5: { // refused change leaves everything as it was
    ev("refusals"); ev("checks"); int w = r.i(0, 2);
    try { if (w == 0) s->kind("bogus"); else if (w == 1) { double nb[2] = {1, 2}; s->band(nb, "kg"); } else s->set("Band", Value(std::vector<double>{1., 2., 3.})); viol("bogus setting accepted", fmt("%d", w)); }
    catch (Gyoto::Error &) {}
    CHECK("kind after refusal", s->kind() == M.kind, "%s vs %s", s->kind().c_str(), M.kind.c_str()); } } }
static SmartPointer<Un> mkU(Model &M, Rng &r) {
  M.kind = r.pick(KINDS); randBand(r, M.kind, M.b0, M.b1); M.n = r.i(1, 9);
  if (r.p(.3)) { const char *k = M.kind == "wave" ? Un::WaveKind : M.kind == "wavelog" ? Un::WaveLogKind : M.kind == "freq" ? Un::FreqKind : Un::FreqLogKind;
    return new Un(M.n, M.b0, M.b1, k); }
  SpectroP g = mkSpectro(M.kind); SmartPointer<Un> s(dynamic_cast<Un *>(&*g));
  s->kind(M.kind); double nb[2] = {M.b0, M.b1}; s->band(nb); s->nSamples(M.n); return s; }
static void checkComplex(Cx &c, const std::vector<SpectroP> &el) {
  ev("complex checks"); CHECK("complex cardinal", c.getCardinal() == el.size(), "%zu vs %zu", c.getCardinal(), el.size());
  size_t n = 0, nb = 0; for (auto &e : el) { n += e->nSamples(); nb += e->getNBoundaries(); }
  CHECK("complex nSamples", c.nSamples() == n, "%zu vs %zu", c.nSamples(), n); CHECK("complex nBoundaries", c.getNBoundaries() == nb, "%zu vs %zu", c.getNBoundaries(), nb);
  if (c.nSamples() != n || c.getNBoundaries() != nb || c.getCardinal() != el.size()) return;
  size_t k = 0, kb = 0;
  for (size_t j = 0; j < el.size(); ++j) { auto &e = el[j]; CHECK("complex element", c[j]() == e(), "element %zu", j);
    for (size_t i = 0; i < e->getNBoundaries(); ++i) CHECK("complex boundary", c.getChannelBoundaries()[kb + i] == e->getChannelBoundaries()[i], "%zu/%zu", j, i);
    for (size_t i = 0; i < e->nSamples(); ++i) {
      CHECK("complex midpoint", c.getMidpoints()[k + i] == e->getMidpoints()[i], "%zu/%zu", j, i); CHECK("complex width", c.getWidths()[k + i] == e->getWidths()[i], "%zu/%zu", j, i);
      for (int h = 0; h < 2; ++h) { size_t ix = c.getChannelIndices()[2 * (k + i) + h]; CHECK("complex index", ix < nb && ix == e->getChannelIndices()[2 * i + h] + kb, "%zu/%zu: %zu", j, i, ix); } }
    k += e->nSamples(); kb += e->getNBoundaries(); } }
int main(int argc, char **argv) {
  init(argc, argv);
  int n = S().thorough ? 3000 : 300;
  for (int k = 0; k < n; ++k) { if (!mine()) continue; Rng r = caseRng();
    guard("uniform history", [&] {
      Model M; SmartPointer<Un> s = mkU(M, r); checkUniform(*s, M, r); if (k < 3) sample(fmt("%s n=%zu band %g %g", M.kind.c_str(), M.n, M.b0, M.b1));
      for (int q = 0; q < 12; ++q) { mutate(s, M, r); checkUniform(*s, M, r); distinct("setting", M.kind + num(M.b0) + num(M.b1) + fmt("%zu", M.n));
        if (r.p(.2)) { SpectroP c(s->clone()); checkUniform(*c, M, r); Model M2 = M; mutate(SmartPointer<Un>(dynamic_cast<Un *>(&*c)), M2, r); checkUniform(*s, M, r); checkUniform(*c, M2, r); ev("clones"); }
        if (r.p(.2) && M.n) { Held h = Held::of(SpectroP(s)); Held g = h.reread(h.xml()); Model M2 = M; M2.b0 = strtod_(fmt("%.15g", M.b0).c_str()); M2.b1 = strtod_(fmt("%.15g", M.b1).c_str()); checkUniform(*g.sr, M2, r); ev("xml"); }
        if (r.p(.3)) { // textual creation with unit attribute
          std::string u = r.pick(UNITS); Model X; X.kind = r.pick(KINDS); std::string nat = X.kind[0] == 'w' ? "m" : "Hz"; if (u.find("eV") != std::string::npos) u = nat; bool lg = X.kind.find("log") != std::string::npos;
          double f0 = r.lu(1e8, 1e18), f1 = f0 * r.lu(1.1, 1e3); std::string uu = u == "" ? nat : u; double x0 = fromHz(f0, uu), x1 = fromHz(f1, uu); if (lg) { x0 = log10(x0); x1 = log10(x1); }
          X.n = r.i(1, 7); X.b0 = X.kind[0] == 'w' ? C / f0 : f0; X.b1 = X.kind[0] == 'w' ? C / f1 : f1; if (lg) { X.b0 = log10(X.b0); X.b1 = log10(X.b1); }
          std::string t = hdr() + fmt("<Spectrometer kind=\"%s\" nsamples=\"%zu\"%s>%.17g %.17g</Spectrometer>", X.kind.c_str(), X.n, u == "" ? "" : (" unit=\"" + u + "\"").c_str(), x0, x1);
          std::vector<char> b(t.begin(), t.end()); b.push_back(0); Factory f(b.data()); SpectroP g = f.spectrometer(); checkUniform(*g, X, r); ev("textual"); } } }); }
  for (int k = 0; k < n; ++k) { if (!mine()) continue; Rng r = caseRng();
    guard("complex history", [&] {
      struct E { SmartPointer<Un> u; Model m; }; std::vector<E> pool; SmartPointer<Cx> c = new Cx(), outer = new Cx(); std::vector<SpectroP> el;
      bool nested = r.p(.3); if (nested) { Model m0; SmartPointer<Un> u0 = mkU(m0, r); outer->append(SpectroP(u0)); outer->append(SpectroP(c)); }
      SpectroP first = nested ? (*outer)[0] : SpectroP(NULL);
      std::string hist;
      for (int q = 0; q < 16; ++q) { int w = r.i(0, 5);
        if (w <= 1) { E e; e.u = mkU(e.m, r); pool.push_back(e); c->append(SpectroP(e.u)); el.push_back(SpectroP(e.u)); hist += "A"; ev("appends"); }
        else if (w == 2 && el.size()) { size_t i = r.i(0, el.size() - 1); c->remove(i); el.erase(el.begin() + i); hist += fmt("R%zu", i); ev("removes"); }
        else if (w == 3 && pool.size()) { E &e = pool[r.i(0, pool.size() - 1)]; mutate(e.u, e.m, r); hist += "M"; ev("element changes"); }
        else if (w == 4) { ev("checks"); ev("refusals"); try { c->remove(el.size() + r.i(0, 2)); viol("complex remove out of range accepted", ""); } catch (Gyoto::Error &) {}
          ev("checks"); try { (*c)[el.size() + r.i(0, 1)]; viol("complex index out of range accepted", fmt("cardinal %zu", el.size())); } catch (Gyoto::Error &) {} hist += "x"; }
        else if (w == 5 && el.size()) { SmartPointer<Cx> d(c->clone()); std::vector<SpectroP> de; for (size_t i = 0; i < d->getCardinal(); ++i) { CHECK("clone shares an element", (*d)[i]() != (*c)[i](), ""); de.push_back((*d)[i]); }
          checkComplex(*d, de); CHECK("complex clone size", d->nSamples() == c->nSamples(), "");
          for (size_t i = 0; i < d->nSamples() && i < c->nSamples(); ++i) CHECK("complex clone midpoints", d->getMidpoints()[i] == c->getMidpoints()[i], "%zu", i);
          // change an element of the clone: the clone follows, the original does not
          size_t i = r.i(0, de.size() - 1); Un *u = dynamic_cast<Un *>(&*de[i]); u->nSamples(u->nSamples() + 2); checkComplex(*d, de); hist += "C"; ev("complex clones");
          if (r.p(.5)) { std::vector<SpectroP> keep = de; d = NULL; dynamic_cast<Un *>(&*keep[0])->nSamples(3); ev("element outlives complex"); } }
        checkComplex(*c, el); if (nested) { std::vector<SpectroP> oe = {first, SpectroP(c)}; checkComplex(*outer, oe); } }
      distinct("history", hist);
      // photons and screens that use it
      PhotonP ph = new Photon(); MetricP m = stdMetric(); ph->metric(m); ScreenP sc = new Screen(); sc->metric(m); sc->spectrometer(SpectroP(c)); CHECK("screen spectrometer", sc->spectrometer()() == c(), "");
      ph->spectrometer(SpectroP(c)); for (size_t i = 0; i < c->nSamples(); ++i) CHECK("fresh transmission", ph->getTransmission(i) == 1., "%zu", i); ev("photons");
      // an element that left the composite no longer disturbs it, nor does any element once the composite is gone
      struct Ear : public Hook::Listener { long n = 0; void tell(Hook::Teller *) { ++n; } } ear; c->hook(&ear);
      for (auto &e : pool) { bool in = false; for (auto &x : el) in = in || x() == e.u(); long before = ear.n; size_t ns = c->nSamples(); mutate(e.u, e.m, r); if (!in) { CHECK("composite notified by an element it no longer has", ear.n == before && c->nSamples() == ns, "history %s", hist.c_str()); ev("changes of removed elements"); } }
      c->unhook(&ear); ph = NULL; sc->spectrometer(SpectroP(NULL)); outer = NULL; c = NULL; for (auto &e : pool) { mutate(e.u, e.m, r); checkUniform(*e.u, e.m, r); } ev("element outlives complex");
    }); }
  return done(); }
