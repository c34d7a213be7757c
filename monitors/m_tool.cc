// LINK: stdplug
// C21: the command-line tool writes what the library computes.
#include "scenes.h"
#include <fitsio.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fstream>
#include <sstream>
using namespace V; using namespace Gyoto;
static std::string dir, tool;
static std::string here() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; std::string s = b; return s.substr(0, s.rfind('/')); }
static std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
struct Ran { int code = -1, sig = 0; bool hung = false; std::string out, err; };
static void child(const std::vector<std::string> &a, int perturb) {
  if (chdir(dir.c_str())) _exit(99);
  int o = open("out.txt", O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open("err.txt", O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(o, 1); dup2(e, 2);
  if (perturb) setenv("MALLOC_PERTURB_", fmt("%d", perturb).c_str(), 1);
  setenv("GYOTO_PLUGINS", "stdplug", 1); std::vector<char *> v; for (auto &s : a) v.push_back(const_cast<char *>(s.c_str())); v.push_back(NULL);
  struct itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_VIRTUAL, &it, NULL); execv(tool.c_str(), v.data()); _exit(98); }
static Ran finish(pid_t p, double limit) { Ran r; int st = 0; double t = 0;
  for (;;) { pid_t q = waitpid(p, &st, WNOHANG); if (q == p) break; usleep(2000); t += .002; if (t > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); r.hung = true; break; } }
  if (WIFEXITED(st)) r.code = WEXITSTATUS(st); else { r.code = -1; r.sig = WTERMSIG(st); } r.out = slurp(dir + "/out.txt"); r.err = slurp(dir + "/err.txt"); return r; }
static Ran run(std::vector<std::string> a, int perturb = 0) { a.insert(a.begin(), "gyoto"); fflush(stdout); pid_t p = fork(); if (!p) child(a, perturb); ev("tool runs"); return finish(p, 300); }
static std::string join(const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += " " + x; return s; }
struct Fits { bool ok = false, ip = false; long n[3] = {0, 0, 0}, m[3] = {0, 0, 0}; std::vector<double> v, c; std::vector<std::string> q; double date = 0; std::string why; };
static Fits readFits(const std::string &f) { Fits r; fitsfile *p = NULL; int s = 0, nx = 0, bp = 0; fits_open_file(&p, f.c_str(), READONLY, &s); fits_get_img_param(p, 3, &bp, &nx, r.n, &s); if (s || nx != 3) { char t[80] = ""; fits_get_errstatus(s, t); r.why = fmt("status %d %s, %d axes", s, t, nx); s = 0; if (p) fits_close_file(p, &s); return r; }
  size_t N = r.n[0] * r.n[1] * r.n[2]; r.v.assign(N, 0); long one[3] = {1, 1, 1}; int any; if (N) fits_read_pix(p, TDOUBLE, one, N, NULL, r.v.data(), &any, &s);
  for (int i = 1; !s; ++i) { char k[80], val[80]; snprintf(k, 80, "QUANT_%d", i); int t = 0; fits_read_key(p, TSTRING, k, val, NULL, &t); if (t) { fits_clear_errmsg(); break; } r.q.push_back(val); }
  int t = 0; fits_movnam_hdu(p, ANY_HDU, const_cast<char *>("Gyoto Impact Coordinates"), 0, &t); if (!t) { r.ip = true; fits_get_img_size(p, 3, r.m, &s); r.c.assign(r.m[0] * r.m[1] * r.m[2], 0); fits_read_key(p, TDOUBLE, "Gyoto Observing Date", &r.date, NULL, &s); fits_read_pix(p, TDOUBLE, one, r.c.size(), NULL, r.c.data(), &any, &s); } else fits_clear_errmsg();
  r.ok = !s; if (s) r.why = fmt("status %d", s); s = 0; fits_close_file(p, &s); return r; }
static const char *label(const char *n) { std::string s = n; return s == "FirstDmin" ? "FirstDistMin" : s == "StokesQ" ? "SpectrumStokesQ" : s == "StokesU" ? "SpectrumStokesU" : s == "StokesV" ? "SpectrumStokesV" : n; }
struct Region { size_t i0, i1, di, j0, j1, dj; bool in(size_t i, size_t j) const { return i >= i0 && i <= i1 && (i - i0) % di == 0 && j >= j0 && j <= j1 && (j - j0) % dj == 0; } };
/// the file against the buffers of the library; cells outside the region must hold one well-defined value per plane
static void compare(const std::string &what, Fits &f, Buffers &B, size_t res, const Region &g, double tol, bool storedImpacts, const std::string &cmd, const std::vector<bool> *may = NULL) {
  if (!f.ok) { viol("unreadable file: " + what, f.why + cmd); return; }
  size_t off = 0, np = res * res; std::vector<std::string> want; bool shape = f.n[0] == long(res) && f.n[1] == long(res); CHECK("image size: " + what, shape, "%ld x %ld for %zu %s", f.n[0], f.n[1], res, cmd.c_str()); if (!shape) return;
  static const char *order[] = {"Intensity", "EmissionTime", "MinDistance", "FirstDmin", "Redshift", "NbCrossEqPlane", "User1", "User2", "User3", "User4", "User5", "Spectrum", "StokesQ", "StokesU", "StokesV", "BinSpectrum"};
  (void) order; std::map<std::string, std::vector<double> *> mine; for (auto &p : B.planes()) if (strcmp(p.first, "ImpactCoords")) mine[label(p.first)] = p.second;
  size_t total = 0; for (auto &m : mine) total += m.second->size() / np; CHECK("number of planes: " + what, size_t(f.n[2]) == total && f.q.size() == mine.size(), "%ld planes, %zu labels for %zu and %zu %s", f.n[2], f.q.size(), total, mine.size(), cmd.c_str());
  for (auto &q : f.q) { auto m = mine.find(q); CHECK("label: " + what, m != mine.end(), "%s %s", q.c_str(), cmd.c_str()); if (m == mine.end()) return; size_t k = m->second->size() / np; if ((off + k) * np > f.v.size()) { viol("truncated: " + what, q + cmd); return; }
    double sc = scaleOf(*m->second); long bad = 0; bool first = true; double out0 = 0;
    for (size_t c = 0; c < k; ++c) for (size_t j = 1; j <= res; ++j) for (size_t i = 1; i <= res; ++i) { size_t p = (j - 1) * res + i - 1; double a = f.v[(off + c) * np + p], b = (*m->second)[c * np + p]; if (may && (*may)[p]) continue;
      if (g.in(i, j)) { ev("cells compared"); if (!agree(a, b, tol, sc) && !(tol >= 1e-3 && q == "EmissionTime" && fabs(a - b) < 1) && !bad++) viol("plane " + q + ": " + what, fmt("pixel %zu %zu channel %zu: %.17g in the file, %.17g from the library", i, j, c, a, b) + cmd); }
      else { ev("cells outside"); if (first) { out0 = a; first = false; } if (!(same(a, out0) && (a == 0 || fabs(a) == DBL_MAX || std::isnan(a))) && !bad++) viol("outside the region: " + what, fmt("%s pixel %zu %zu: %.17g (%.17g elsewhere)", q.c_str(), i, j, a, out0) + cmd); } }
    off += k; }
  if (B.C.size() && storedImpacts) { CHECK("impact coordinates stored: " + what, f.ip && f.m[0] == 16 && f.m[1] == long(res) && f.m[2] == long(res), "%d %ld %ld %ld %s", f.ip, f.m[0], f.m[1], f.m[2], cmd.c_str()); if (!f.ip || f.c.size() != B.C.size()) return; long bad = 0;
    for (size_t j = 1; j <= res; ++j) for (size_t i = 1; i <= res; ++i) for (int k = 0; k < 16; ++k) { size_t c = ((j - 1) * res + i - 1) * 16 + k; double a = f.c[c]; if (g.in(i, j) ? !agree(a, B.C[c], tol, 1) : a != DBL_MAX) if (!bad++) viol("stored impact coordinates: " + what, fmt("pixel %zu %zu component %d: %.17g for %.17g%s", i, j, k, a, B.C[c], g.in(i, j) ? "" : " (outside)") + cmd); ev("impact cells"); } }
}
static std::string spec(Rng &r, size_t res, size_t &a, size_t &b, size_t &d) { a = 1; b = res; d = 1; std::string s; bool A = r.p(.7); if (A) { a = r.i(1, res); s += fmt("%zu", a); } if (A && r.p(.25)) { b = a; return s; }
  s += ":"; if (r.p(.6)) { b = r.i(a, res + 3); s += fmt("%zu", b); if (b > res) b = res; } if (r.p(.5)) { s += ":"; if (r.p(.8)) { d = r.i(1, 3); s += fmt("%zu", d); } } return s; }
int main(int argc, char **argv) {
  init(argc, argv); S().cpu_limit = 300; { const char *e = getenv("VERIF_SCRATCH"); char b[] = "/tmp/vtoolXXXXXX"; dir = e ? e : mkdtemp(b); } tool = here() + "/gyoto"; auto put = [&](const std::string &f, const std::string &t) { std::ofstream o(dir + "/" + f); o << t; };
  int reps = S().thorough ? 20 : 5; int fileno_ = 0;
  for (int rep = 0; rep < reps; ++rep) for (auto &e : catalogue()) { if (e.slow && (!S().thorough || rep > 1)) continue; if (!mine()) continue; Rng r = caseRng();
    guard(std::string("tool ") + e.metric + "/" + e.obj, [&] { SceneOpt o; o.res = r.i(3, 7); o.nchan = r.i(1, 3);
      if (r.p(.3)) o.extra = "<Delta>" + num(r.u(.5, 2)) + "</Delta>";
      Scene s = makeScene(e, r, o); put("s.xml", s.xml); SceneryP sc = scenery(s.xml); std::vector<std::string> a; size_t res = o.res; Region g{1, 0, 1, 1, 0, 1}; bool thr = false, setR = false;
      // options in random order; the library gets the same settings through its own interface
      std::vector<std::function<void()> > opts; auto scr = sc->screen(); bool ipct = false; std::string used;
      auto add = [&](double p, const char *n, std::function<void()> f) { if (r.p(p)) { opts.push_back(f); distinct("option", n); used += std::string(" ") + n; } };
      bool dist = std::string(e.obj).find("Star") == std::string::npos && std::string(e.obj) != "Complex" && std::string(e.obj) != "Blob";
      add(.25, "time", [&] { double t = scr->time() + scr->time() * r.u(-1e-2, 1e-2); a.push_back("--time=" + num(t)); scr->time(t); });
      add(.2, "tmin", [&] { double t = r.u(-500, 400); a.push_back("--tmin=" + num(t)); sc->tMin(t); });
      add(.3, "fov", [&] { double t = r.u(.1, .3); a.push_back("--fov=" + num(t)); scr->fieldOfView(t); });
      add(.2, "distance", [&] { double t = scr->distance() * r.u(.95, 1.1); a.push_back("--distance=" + num(t)); scr->distance(t); });
      add(.3, "paln", [&] { double t = r.u(-3, 6); a.push_back("--paln=" + num(t)); scr->PALN(t); });
      add(.3, "inclination", [&] { double t = r.u(.3, 2.8); a.push_back("--inclination=" + num(t)); scr->inclination(t); });
      add(.3, "argument", [&] { double t = r.u(-3, 6); a.push_back("--argument=" + num(t)); scr->argument(t); });
      add(.3, "threads", [&] { int t = r.i(1, 4); a.push_back(r.p(.5) ? fmt("-T%d", t) : fmt("--nthreads=%d", t)); sc->nThreads(1); thr = t > 1; });
      add(.3, "resolution", [&] { res = r.i(2, 6); a.push_back(r.p(.5) ? fmt("-r%zu", res) : fmt("--resolution=%zu", res)); scr->resolution(res); setR = true; });
      add(.25, "unit", [&] { double t = r.u(8, 14); a.push_back("--unit=degree"); a.push_back(fmt("-EScreen::FieldOfView=%.17g", t)); scr->fieldOfView(t, "degree"); if (r.p(.5)) { a.push_back("-ukpc"); double d = scr->distance("kpc") * r.u(1, 1.1); a.push_back("--parameter=Screen::Distance=" + num(d)); scr->distance(d, "kpc"); } a.push_back("--unit"); });
      add(.2, "parameter", [&] { double t = r.u(.05, .9); a.push_back("-EDelta=" + num(t)); sc->delta(t); });
      add(.2, "metric parameter", [&] { double m = r.u(1, 1.05) * sc->metric()->mass(); a.push_back("-EMetric::Mass=" + num(m)); double d = scr->distance("geometrical"), tt = scr->time("geometrical_time"); sc->metric()->mass(m); (void) d; (void) tt; });
      add(.15, "object parameter", [&] { double m = r.u(30, 60); a.push_back("-EAstrobj::RMax=" + num(m)); sc->astrobj()->rMax(m); });
      add(.15, "flag", [&] { a.push_back("-EAdaptive"); sc->adaptive(true); if (r.p(.5)) { std::string it = r.pick(strs{"runge_kutta_fehlberg78", "runge_kutta_dopri5", "runge_kutta_cash_karp54"}); a.push_back("-EIntegrator=" + it); sc->integrator(it); } });
      add(.4, "quantities", [&] { strs w; std::istringstream is(e.q); std::string t, u; while (is >> t) w.push_back(t); for (size_t k = w.size(); k > 1; --k) std::swap(w[k - 1], w[r.i(0, k - 1)]); if (!s.polar) w.resize(r.i(1, w.size())); for (auto &t : w) u += (u.size() ? " " : "") + t; if (u == "ImpactCoords") u += " Redshift"; a.push_back("-EQuantities=" + u); sc->requestedQuantitiesString(u); });
      add(.2, "verbosity", [&] { a.push_back(r.pick(strs{"-q", "-s", "-v", "--verbose=3", "--quiet", "--silent"})); });
      add(.1, "plugins", [&] { a.push_back("--plugins=stdplug"); });
      add(.1, "no-sigfpe", [&] { a.push_back("--no-sigfpe"); });
      for (size_t k = opts.size(); k > 1; --k) std::swap(opts[k - 1], opts[r.i(0, k - 1)]);
      for (auto &f : opts) f();
      g.i1 = g.j1 = res;
      if (r.p(.6)) { if (r.p(.5)) { std::string t = spec(r, res, g.i0, g.i1, g.di); a.push_back((r.p(.5) ? "-i" : "--ispec=") + t); t = spec(r, res, g.j0, g.j1, g.dj); if (r.p(.7)) a.push_back((r.p(.5) ? "-j" : "--jspec=") + t); else g.j0 = 1, g.j1 = res, g.dj = 1; distinct("option", "spec"); }
        else { if (r.p(.6)) { g.i0 = r.i(1, res); a.push_back(fmt("--imin=%zu", g.i0)); } if (r.p(.6)) { g.i1 = r.i(g.i0, res + 2); a.push_back(fmt("--imax=%zu", g.i1)); g.i1 = std::min(g.i1, res); } if (r.p(.4)) { g.di = r.i(1, 3); a.push_back(fmt("--di=%zu", g.di)); } if (r.p(.6)) { g.j0 = r.i(1, res); a.push_back(fmt("--jmin=%zu", g.j0)); } if (r.p(.6)) { g.j1 = r.i(g.j0, res + 2); a.push_back(fmt("--jmax=%zu", g.j1)); g.j1 = std::min(g.j1, res); } if (r.p(.4)) { g.dj = r.i(1, 3); a.push_back(fmt("--dj=%zu", g.dj)); } distinct("option", "bounds"); } ev("regions"); }
      Quantity_t q = sc->getRequestedQuantities(); if (!s.polar && r.p(.25) && s.objKind != "ThinDiskProfile") { a.push_back("--impact-coords"); ipct = true; distinct("option", "impact-coords"); }
      bool wx = r.p(.3); if (wx) a.push_back(r.p(.5) ? "-Xw.xml" : "--xmlwrite=w.xml");
      std::string out = fmt("o%d.fits", fileno_++); if (r.p(.5)) { a.push_back("s.xml"); a.push_back(out); } else { a.insert(a.begin(), out); a.insert(a.begin(), "s.xml"); }
      std::string cmd = "   gyoto" + join(a); Ran x = run(a, r.i(1, 255)); sample(s.name + cmd); distinct("command", cmd + s.xml);
      Buffers B(q | (ipct ? GYOTO_QUANTITY_IMPACTCOORDS : 0), res * res, nnu(sc)); bool refused = false; std::string why;
      { B.props.alloc = true; try { Screen::Range ir(g.i0, g.i1, g.di), jr(g.j0, g.j1, g.dj); Screen::Grid gr(ir, jr, ""); sc->rayTrace(gr, &B.props); } catch (Gyoto::Error &er) { refused = true; why = er.get_message(); } B.props.alloc = false; }
      if (x.hung) { viol("hangs: " + s.name, cmd); return; }
      if (x.sig) { viol("crash of the tool", fmt("signal %d ", x.sig) + x.err.substr(0, 300) + cmd); return; }
      if (refused) { ev("refused"); CHECK("failure reported as success", x.code != 0, "the library says %s %s", why.c_str(), cmd.c_str()); return; }
      if (x.code) { viol("fails where the library does not: " + s.name, fmt("status %d: ", x.code) + x.err.substr(0, 400) + cmd); return; }
      Fits f = readFits(dir + "/" + out); double tol = s.orbit ? (thr || g.i0 > 1 || g.j0 > 1 ? 1e-4 : 1e-12) : 0; compare(s.name, f, B, res, g, tol, true, cmd); ev("images"); ev("hit pixels", hits(B)); ev("planes", f.q.size());
      // the scenery written back gives the same file
      if (wx) { std::string out2 = fmt("o%d.fits", fileno_++); std::vector<std::string> b = {"w.xml", out2, "-s", fmt("-i%zu:%zu:%zu", g.i0, g.i1, g.di), fmt("-j%zu:%zu:%zu", g.j0, g.j1, g.dj)}; if (ipct) b.push_back("--impact-coords"); Ran y = run(b); if (y.code) viol("written scenery refused: " + s.name, y.err.substr(0, 300) + cmd); else { Fits h = readFits(dir + "/" + out2); compare("written back " + s.name, h, B, res, g, 1e-3, false, cmd); ev("written back"); } unlink((dir + "/" + out2).c_str()); unlink((dir + "/w.xml").c_str()); }
      unlink((dir + "/" + out).c_str()); }, "tool"); }
  // impact coordinates stored by one run and used by another
  for (int rep = 0; rep < (S().thorough ? 200 : 32); ++rep) { if (!mine()) continue; Rng r = caseRng();
    guard("impact coordinates", [&] { static const Entry es[] = {{"KerrBL", "ThinDisk", "EmissionTime Redshift Intensity", false}, {"KerrBL", "PageThorneDisk", "User4 Redshift", false}, {"KerrBL", "ThinDiskPL", "Redshift Spectrum", false}, {"KerrKS", "ThinDisk", "EmissionTime Redshift Intensity", false}};
      const Entry &e = es[r.i(0, 3)]; SceneOpt o; o.res = r.i(3, 6); o.quantities = std::string(e.q) + (r.p(.5) ? " ImpactCoords" : ""); bool q = o.quantities != e.q; Scene s = makeScene(e, r, o); { size_t p; while ((p = s.xml.find("<OpticallyThin/>")) != std::string::npos) s.xml.replace(p, 16, "<OpticallyThick/>"); } put("s.xml", s.xml); size_t res = o.res;
      bool shift = r.p(.5); unlink((dir + "/a.fits").c_str()); unlink((dir + "/b.fits").c_str());
      std::vector<std::string> a = {"s.xml", "a.fits", "-s"}; if (!q || r.p(.5)) a.push_back("--impact-coords"); Ran x = run(a, r.i(1, 255)); std::string cmd = join(a); if (x.code) { viol("cannot store impact coordinates", x.err + cmd); return; }
      SceneryP sc = scenery(s.xml); double t0 = sc->screen()->time(), t1 = shift ? t0 * r.u(.9, 1.2) : t0; Region g{1, res, 1, 1, res, 1}; if (r.p(.4)) { g.i0 = r.i(1, res); g.dj = r.i(1, 2); }
      std::vector<std::string> b = {"s.xml", "b.fits", "-s", "--impact-coords=a.fits", "--time=" + num(t1), fmt("-i%zu:", g.i0), fmt("-j::%zu", g.dj), fmt("-T%d", int(r.i(1, 3)))}; Ran y = run(b, r.i(1, 255)); cmd += " then" + join(b); if (y.code) { viol("cannot use stored impact coordinates", y.err + cmd); return; }
      // the scene does not change with time: the image at the other date is the direct one
      sc->screen()->time(t1); Buffers B(sc->getRequestedQuantities(), res * res, nnu(sc)); traceFull(sc, B); Fits A = readFits(dir + "/a.fits"), f = readFits(dir + "/b.fits"); std::vector<bool> none(res * res, false);
      compare("from impact coordinates " + s.name, f, B, res, g, 1e-5, false, cmd); ev("impacts re-used"); ev("hit pixels", hits(B)); if (shift) ev("impacts shifted in time");
      if (q) { double dt = (t1 - t0) * GYOTO_C / sc->metric()->unitLength(); long bad = 0; CHECK("impact coordinates passed on", f.ip && f.c.size() == A.c.size(), "%s", cmd.c_str()); if (f.ip && f.c.size() == A.c.size()) for (size_t k = 0; k < A.c.size(); ++k) { double w = A.c[k] == DBL_MAX || k % 8 ? A.c[k] : A.c[k] + dt; if (!close(f.c[k], w, 1e-9, 1e-7) && !bad++) viol("impact coordinates passed on with a wrong date", fmt("%zu: %.17g for %.17g", k, f.c[k], w) + cmd); } double d = t1 * GYOTO_C / sc->metric()->unitLength(); CHECK("date of the impact coordinates passed on", close(f.date, d, 1e-9), "%.17g for %.17g %s", f.date, d, cmd.c_str()); ev("impacts passed on"); }
      else CHECK("impact coordinates not asked for", !f.ip, "%s", cmd.c_str());
      if (r.p(.5)) { unlink((dir + "/c.fits").c_str()); std::vector<std::string> c = {"s.xml", "c.fits", "-s", "--impact-coords=a.fits", fmt("-r%zu", res + 1)}; Ran z = run(c); CHECK("impact coordinates of another resolution accepted", z.code != 0 && !z.sig, "%d %d %s", z.code, z.sig, join(c).c_str()); ev("failures"); } }); }
  // failures have a non-zero status, successes 0, and no command line crashes the tool
  for (int rep = 0; rep < (S().thorough ? 20 : 2); ++rep) for (int k = 0; k < 40; ++k) { if (!mine()) continue; Rng r = caseRng();
    guard(fmt("status %d", k), [&] { SceneOpt o; o.res = 4; const Entry &e = catalogue()[r.p(.5) ? 1 : 2]; Scene s = makeScene(e, r, o); put("s.xml", s.xml); put("m.xml", hdr() + metricXML("KerrBL", r)); put("broken.xml", s.xml.substr(0, r.i(20, s.xml.size() - 20))); put("empty.xml", ""); put("nofits.fits", "SIMPLE = nothing"); put("old.fits", "keep me");
      { std::string t = s.xml; size_t p = t.find("<Screen>"), q = t.find("</Screen>"); t.erase(p, q + 9 - p); put("noscreen.xml", t); } { std::string t = s.xml; size_t p = t.find("<Astrobj"), q = t.rfind("</Astrobj>"); t.erase(p, q + 10 - p); put("noobject.xml", t); } { std::string t = s.xml; size_t p = t.find("<Metric"), q = t.find("</Metric>"); t.erase(p, q + 9 - p); put("nometric.xml", t); } { std::string t = s.xml; size_t p = t.find("<Spectrometer"), q = t.find("</Spectrometer>"); t.erase(p, q + 15 - p); p = t.find("<Quantities>"); q = t.find("</Quantities>"); t.replace(p, q - p, "<Quantities>Spectrum"); put("nospectro.xml", t); }
      unlink((dir + "/n.fits").c_str()); struct Cse { int want; std::vector<std::string> a; }; static const Cse cs[] = {
        {1, {"missing.xml", "n.fits"}}, {1, {"broken.xml", "n.fits"}}, {1, {"empty.xml", "n.fits"}}, {1, {"m.xml", "n.fits"}}, {1, {"nometric.xml", "n.fits"}}, {1, {"noobject.xml", "n.fits"}}, {1, {"noscreen.xml", "n.fits"}}, {1, {"nospectro.xml", "n.fits"}},
        {1, {"s.xml"}}, {1, {}}, {1, {"s.xml", "n.fits", "extra"}}, {1, {"s.xml", "n.fits", "--frobnicate"}}, {1, {"s.xml", "n.fits", "--imin"}}, {1, {"s.xml", "n.fits", "-ENoSuchThing=3"}}, {1, {"s.xml", "n.fits", "-EScreen::NoSuch=3"}}, {1, {"s.xml", "n.fits", "-uparsnip", "-EScreen::Distance=3"}}, {1, {"s.xml", "n.fits", "-us", "-EScreen::Inclination=3"}},
        {1, {"s.xml", "old.fits"}}, {1, {"s.xml", "nodir/n.fits"}}, {1, {"s.xml", "n.fits", "--impact-coords=missing.fits"}}, {1, {"s.xml", "n.fits", "--impact-coords=nofits.fits"}}, {1, {"s.xml", "n.fits", "--imin=0"}}, {1, {"s.xml", "n.fits", "--jmax=-3"}}, {1, {"s.xml", "n.fits", "--plugins=nosuchplugin"}}, {1, {"s.xml", "n.fits", "-Xnodir/w.xml"}},
        {1, {"s.xml", "n.fits", "--imin=3", "--imax=2"}}, {1, {"s.xml", "n.fits", "-i0:2"}}, {1, {"s.xml", "n.fits", "-i9"}}, {1, {"s.xml", "n.fits", "-j3:2"}}, {1, {"s.xml", "n.fits", "-j::-1"}}, {1, {"s.xml", "n.fits", "-i-3:2"}}, {1, {"s.xml", "n.fits", "--di=-2"}}, {1, {"s.xml", "n.fits", "-iabc"}}, {1, {"s.xml", "n.fits", "-EQuantities=Spectrum Nonsense"}},
        {0, {"--help"}}, {0, {"--version"}}, {0, {"--list"}}, {0, {"--help=Astrobj::Star"}}, {0, {"s.xml", "n.fits", "--no-sigfpe", "-s"}}, {0, {"s.xml", "!old.fits", "-q"}} };
      const Cse &c = cs[k % 40]; std::string cmd = join(c.a); Ran x = run(c.a, r.i(1, 255)); distinct("command", cmd); std::string key = fmt("%s", cmd.c_str()); CHECK("status of gyoto" + key, !x.sig && !x.hung && (c.want ? x.code > 0 : x.code == 0), "status %d signal %d hung %d: %s", x.code, x.sig, x.hung, x.err.substr(0, 300).c_str()); ev(c.want ? "failures" : "successes"); struct stat st; if (c.want && c.a.size() > 1 && c.a[1] == "old.fits") CHECK("an existing file was overwritten", slurp(dir + "/old.fits") == "keep me", "%s", cmd.c_str());
      if (!c.want && c.a.size() > 2) { Fits f = readFits(dir + (c.a[1][0] == '!' ? "/old.fits" : "/n.fits")); CHECK("no image after" + key, f.ok, "%s", f.why.c_str()); } (void) st; }); }
  // interrupted: what was computed is saved
  for (int rep = 0; rep < (S().thorough ? 60 : 8); ++rep) { if (!mine()) continue; Rng r = caseRng();
    guard("interrupted", [&] { SceneOpt o; o.res = 40; o.quantities = "Intensity EmissionTime Redshift Spectrum"; o.nchan = 2; const Entry &e = catalogue()[r.p(.5) ? 1 : 4]; Scene s = makeScene(e, r, o); put("s.xml", s.xml); unlink((dir + "/n.fits").c_str()); std::vector<std::string> a = {"gyoto", "s.xml", "n.fits"}; int nt = r.i(1, 2); a.push_back(fmt("-T%d", nt));
      fflush(stdout); pid_t p = fork(); if (!p) child(a, r.i(1, 255)); ev("tool runs"); for (int k = 0; k < 20000; ++k) { if (slurp(dir + "/out.txt").find("\rj = ") != std::string::npos || kill(p, 0)) break; usleep(2000); } usleep(r.i(0, 300000)); kill(p, SIGINT); Ran x = finish(p, 60);
      if (x.hung || (x.sig && x.sig != SIGINT)) { ev("interruptions without verdict"); return; }
      Fits f = readFits(dir + "/n.fits"); if (!x.sig) { ev("finished before the interruption"); if (x.code) viol("status after an interruption", fmt("%d", x.code)); }
      if (!f.ok) { viol("interrupted run left no readable image", f.why + x.err.substr(0, 200)); return; }
      SceneryP sc = scenery(s.xml); Buffers B(sc->getRequestedQuantities(), 1600, nnu(sc)); traceFull(sc, B); if (f.v.size() < 1600 * 5) { viol("interrupted run: size", ""); return; } long done = 0, todo = 0, odd = 0; std::vector<double> *pl[5] = {&B.I, &B.T, &B.Z, &B.S, &B.S};
      for (size_t k = 0; k < 1600; ++k) { bool d = true, z = true; for (int c = 0; c < 5; ++c) { double v = f.v[c * 1600 + k], w = (*pl[c])[c == 4 ? 1600 + k : k]; if (!same(v, w)) d = false; if (v != 0) z = false; } if (d) ++done; else if (z) ++todo; else ++odd; }
      ev("interrupted pixels saved", done); if (x.sig) { ev("interruptions"); if (todo) ev("interrupted before the end"); } CHECK("interrupted run: pixels neither computed nor blank", odd <= nt, "%ld odd, %ld computed, %ld blank", odd, done, todo); CHECK("interrupted run: nothing saved", done > 0, "%ld blank", todo); CHECK("finished run: pixels missing", x.sig || !todo, "%ld", todo); }); }
  if (!getenv("VERIF_SCRATCH")) { std::string c = "rm -rf " + dir; if (dir.rfind("/tmp/vtool", 0) == 0 && system(c.c_str())) {} }
  return done(); }
