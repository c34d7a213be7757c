// Shared runtime of the monitors: reproducible choices, event accounting,
// verdict lines for the runner (lib/runner.py), per-case CPU watchdog.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "GyotoDefs.h"
#include "GyotoUtils.h"
#include "GyotoRegister.h"
#include "GyotoFactory.h"
#include "GyotoScenery.h"
#include "GyotoScreen.h"
#include "GyotoMetric.h"
#include "GyotoAstrobj.h"
#include "GyotoStandardAstrobj.h"
#include "GyotoThinDisk.h"
#include "GyotoPhoton.h"
#include "GyotoWorldline.h"
#include "GyotoSpectrum.h"
#include "GyotoSpectrometer.h"
#include "GyotoUniformSpectrometer.h"
#include "GyotoComplexSpectrometer.h"
#include "GyotoConverters.h"
#include "GyotoProperty.h"
#include "GyotoValue.h"
#include "GyotoError.h"
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <typeinfo>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

namespace V {
typedef Gyoto::SmartPointer<Gyoto::Metric::Generic> MetricP;
typedef Gyoto::SmartPointer<Gyoto::Astrobj::Generic> AstrobjP;
typedef Gyoto::SmartPointer<Gyoto::Spectrum::Generic> SpectrumP;
typedef Gyoto::SmartPointer<Gyoto::Spectrometer::Generic> SpectroP;
typedef Gyoto::SmartPointer<Gyoto::Screen> ScreenP;
typedef Gyoto::SmartPointer<Gyoto::Scenery> SceneryP;
typedef Gyoto::SmartPointer<Gyoto::Photon> PhotonP;
typedef std::vector<std::string> strs;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; ++i) next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  double lu(double a, double b) { return a * pow(b / a, u()); }
  long i(long a, long b) { return a + long(next() % uint64_t(b - a + 1)); }   // inclusive
  bool p(double pr) { return u() < pr; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
  double sgn() { return p(.5) ? 1. : -1.; }
};

struct State {
  uint64_t seed = 1; bool thorough = false; int shard = 0, nshards = 1; long only = -1;
  std::string group;
  std::map<std::string, long> ev;
  std::map<std::string, std::set<uint64_t> > dist;
  std::string at; long nviol = 0, nsample = 0, ncase = 0;
  std::map<std::string, int> violkeys;
  double cpu_limit = 120;
};
inline State &S() { static State s; return s; }

inline std::string fmt(const char *f, ...) {
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline std::string oneline(std::string s) { for (auto &c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
inline void ev(const std::string &n, long k = 1) { S().ev[n] += k; }
inline uint64_t hash(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
inline void distinct(const std::string &cls, const std::string &key) { S().dist[cls].insert(hash(key)); }
inline void sample(const std::string &s) { if (S().nsample++ < 3) { printf("SAMPLE %s\n", oneline(s).c_str()); fflush(stdout); } }
/// key identifies *what* fails (no run-dependent numbers); msg gives the particulars
inline void viol(const std::string &key, const std::string &msg) {
  S().nviol++;
  if (S().violkeys[key]++ < 3) {
    printf("VIOL %s | case=%ld [%s] %s\n", oneline(key).c_str(), S().ncase, oneline(S().at).c_str(), oneline(msg).c_str()); fflush(stdout); }
}
inline void note(const std::string &s) { printf("NOTE %s\n", oneline(s).c_str()); fflush(stdout); }

inline bool close(double a, double b, double rtol, double atol = 0) {
  if (a == b) return true;
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return fabs(a - b) <= atol + rtol * std::max(fabs(a), fabs(b)); }
inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
#define CHECK(key, cond, ...) do { V::ev("checks"); if (!(cond)) V::viol(key, V::fmt(__VA_ARGS__)); } while (0)
#define CHECK_CLOSE(key, a, b, rt, at, what) do { V::ev("checks"); double _a = (a), _b = (b); \
  if (!V::close(_a, _b, rt, at)) V::viol(key, V::fmt("%s: %.17g vs %.17g (rtol %g atol %g)", std::string(what).c_str(), _a, _b, double(rt), double(at))); } while (0)

inline void on_vtalrm(int) {
  const char m[] = "\nHANG cpu watchdog\n"; if (write(1, m, sizeof m - 1)) {} _exit(77); }
inline void arm(double sec) {
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = long(sec); it.it_value.tv_usec = long((sec - long(sec)) * 1e6);
  setitimer(ITIMER_VIRTUAL, &it, NULL); }

/// Is the current case for this shard?  Call once per case: advances the counter.
inline bool mine() {
  State &s = S(); long c = s.ncase++;
  if (s.only >= 0) return c == s.only;
  return c % s.nshards == s.shard; }
inline Rng caseRng(uint64_t salt = 0) { return Rng(S().seed * 1000003ull + uint64_t(S().ncase) * 7919ull + salt * 104729ull); }

/// Run one case; anything thrown is a failure to deliver the promised result.
inline void guard(const std::string &what, std::function<void()> f, const std::string &key = "") {
  S().at = what; printf("AT %ld %s\n", S().ncase, oneline(what).c_str()); fflush(stdout);
  arm(S().cpu_limit);
  std::string k = key.size() ? key : what;
  try { f(); }
  catch (Gyoto::Error &e) { viol("unexpected-error:" + k, e.get_message()); }
  catch (std::exception &e) { viol("unexpected-exception:" + k, std::string(typeid(e).name()) + " " + e.what()); }
  arm(0); ev("cases"); }

inline void init(int argc, char **argv) {
  State &s = S();
  for (int i = 1; i < argc; ++i) { std::string a = argv[i];
    auto val = [&](const char *p) { return a.substr(strlen(p)); };
    if (a.rfind("--seed=", 0) == 0) s.seed = strtoull(val("--seed=").c_str(), 0, 10);
    else if (a.rfind("--tier=", 0) == 0) s.thorough = val("--tier=") == "thorough";
    else if (a.rfind("--shard=", 0) == 0) { sscanf(val("--shard=").c_str(), "%d/%d", &s.shard, &s.nshards); }
    else if (a.rfind("--case=", 0) == 0) s.only = atol(val("--case=").c_str());
    else if (a.rfind("--group=", 0) == 0) s.group = val("--group="); }
  signal(SIGVTALRM, on_vtalrm);
  if (s.only >= 0) s.only -= 1;   // reported numbers are 1-based (counter after increment)
  Gyoto::verbose(0);
  Gyoto::Register::init("stdplug");
}
inline int done() {
  for (auto &p : S().ev) printf("EV %s %ld\n", p.first.c_str(), p.second);
  for (auto &p : S().dist) { for (uint64_t h : p.second) printf("DIST %s %016llx\n", p.first.c_str(), (unsigned long long) h); }
  printf("DONE %ld\n", S().nviol); fflush(stdout);
  return 0; }

// ---- loading from memory ----
inline SceneryP scenery(const std::string &xml) {
  std::vector<char> b(xml.begin(), xml.end()); b.push_back(0); Gyoto::Factory f(b.data()); return f.scenery(); }
inline MetricP metric(const std::string &xml) {
  std::vector<char> b(xml.begin(), xml.end()); b.push_back(0); Gyoto::Factory f(b.data()); return f.metric(); }
inline AstrobjP astrobj(const std::string &xml) {
  std::vector<char> b(xml.begin(), xml.end()); b.push_back(0); Gyoto::Factory f(b.data()); return f.astrobj(); }
inline std::string hdr() { return "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>\n"; }

inline SpectrumP mkSpectrum(const std::string &k) { strs p; auto *sc = Gyoto::Spectrum::getSubcontractor(k, p); return (*sc)(NULL, p); }
inline MetricP mkMetric(const std::string &k) { strs p; auto *sc = Gyoto::Metric::getSubcontractor(k, p); return (*sc)(NULL, p); }
inline AstrobjP mkAstrobj(const std::string &k) { strs p; auto *sc = Gyoto::Astrobj::getSubcontractor(k, p); return (*sc)(NULL, p); }
inline SpectroP mkSpectro(const std::string &k) { strs p; auto *sc = Gyoto::Spectrometer::getSubcontractor(k, p); return (*sc)(NULL, p); }
inline std::string num(double x) { return fmt("%.17g", x); }
inline std::string tag(const std::string &n, double x) { return "<" + n + ">" + num(x) + "</" + n + ">"; }
inline std::string tag(const std::string &n, const std::string &x) { return "<" + n + ">" + x + "</" + n + ">"; }
} // namespace V
#endif
