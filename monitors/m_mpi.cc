// LINK: stdplug
// C22: ray-tracing shared out to MPI workers equals local ray-tracing.
// Run directly, it starts itself under mpirun; rank 0 is the monitor (manager), the others are Scenery::mpiWorker().
#include "reflect.h"
#include "scenes.h"
#include <boost/mpi/environment.hpp>
#include <boost/mpi/communicator.hpp>
#include <boost/mpi/collectives.hpp>
using namespace V; using namespace Gyoto;
namespace mpi = boost::mpi;
static Rng *drng = NULL; static long pauses = 0;
static void nap(int) { if (!drng) return; ++pauses; usleep(drng->p(.2) ? drng->i(1000, 20000) : drng->i(10, 1500)); struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_usec = drng->i(300, 8000); setitimer(ITIMER_REAL, &it, NULL); }
static void onwall(int) { const char m[] = "\nHANG cpu watchdog\n"; if (write(1, m, sizeof m - 1)) {} _exit(77); }
static long deliveries; static std::string order; static int teamSize;
/// who delivers what in which order: every result received by the manager
extern "C" int MPI_Recv(void *b, int c, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Status *s) { MPI_Status st; int e = PMPI_Recv(b, c, t, src, tag, comm, &st); if (s != MPI_STATUS_IGNORE) *s = st; if (src == MPI_ANY_SOURCE) { ++deliveries; if (order.size() < 4000) order += char('A' + st.MPI_SOURCE); } return e; }
int main(int argc, char **argv) {
  if (!getenv("OMPI_COMM_WORLD_SIZE")) { int shard = 0, n = 1; for (int i = 1; i < argc; ++i) sscanf(argv[i], "--shard=%d/%d", &shard, &n); const char *sz = getenv("VERIF_TEAM");
    std::vector<std::string> a = {"mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "--mca", "btl_vader_single_copy_mechanism", "none", "--mca", "btl", "self,vader", "--mca", "mpi_yield_when_idle", "1", "-n", sz ? sz : fmt("%d", 2 + shard % 4)}; { char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); b[k > 0 ? k : 0] = 0; a.push_back(b); } for (int i = 1; i < argc; ++i) a.push_back(argv[i]);
    std::vector<char *> v; for (auto &s : a) v.push_back(const_cast<char *>(s.c_str())); v.push_back(NULL); execvp("mpirun", v.data()); perror("mpirun"); return 3; }
  mpi::environment env(argc, argv, false); mpi::communicator world; init(argc, argv); teamSize = world.size();
  if (world.rank()) { Rng r(S().seed * 131 + world.rank() * 17 + S().shard); drng = &r; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = nap; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, NULL); nap(0);
    for (;;) { int go = 0; mpi::broadcast(world, go, 0); if (!go) break; Scenery::mpiWorker(); } drng = NULL; long p = pauses; mpi::reduce(world, p, std::plus<long>(), 0); return 0; }
  signal(SIGALRM, onwall); int go = 1; ev("teams"); distinct("team size", fmt("%d", teamSize));
  int reps = S().thorough ? 40 : S().group == "asan" ? 1 : 8;
  for (int rep = 0; rep < reps; ++rep) for (auto &e : catalogue()) { if (e.slow && (!S().thorough || rep > 0)) continue; if (!mine()) continue; Rng r = caseRng(); alarm(200);
    guard(std::string("mpi ") + e.metric + "/" + e.obj, [&] { SceneOpt o; o.res = r.i(2, 6); o.nchan = r.i(1, 4); strs w; { std::istringstream is(e.q); std::string t; while (is >> t) w.push_back(t); } bool polar = strstr(e.q, "Stokes"), one = !strcmp(e.obj, "ThinDiskProfile");
      if (!one) { if (!polar) { if (strstr(e.q, "Intensity")) for (const char *x : {"MinDistance", "FirstDistMin", "ImpactCoords", "NbCrossEqPlane"}) if (r.p(.3) && !(*x == 'N' && (e.metric[0] == 'M' || !strcmp(e.metric, "KerrKS"))) && !(e.metric[0] == 'C' && *x != 'N') && std::find(w.begin(), w.end(), x) == w.end()) w.push_back(x); if (strstr(e.q, " Spectrum") && r.p(.4) && std::find(w.begin(), w.end(), "BinSpectrum") == w.end()) w.push_back("BinSpectrum"); } for (size_t k = w.size(); k > 1; --k) std::swap(w[k - 1], w[r.i(0, k - 1)]); if (!polar) w.resize(r.i(1, w.size())); }
      bool units = r.p(.3); for (auto &t : w) { if (o.quantities.size()) o.quantities += " "; o.quantities += t; if (units && t == "Spectrum") o.quantities += "[erg.s-1.cm-2.sr-1.Hz-1]"; if (units && t == "BinSpectrum") o.quantities += "[erg.s-1.cm-2.sr-1]"; }
      Scene s = makeScene(e, r, o); s.polar = polar; std::string x = Held::of(scenery(s.xml)).xml(); // numbers as they are sent to the workers
      SceneryP L = scenery(x), M = scenery(x); if (units) { L->requestedQuantitiesString(o.quantities); M->requestedQuantitiesString(o.quantities); } L->nProcesses(0); sample(s.name + fmt(" %d workers ", teamSize - 1) + o.quantities);
      size_t res = o.res, np = res * res; Quantity_t q = L->getRequestedQuantities(); distinct("scenery", x + o.quantities); distinct("quantities", o.quantities);
      go = 1; mpi::broadcast(world, go, 0); M->mpiSpawn(-1); M->mpiClone(); double tol = s.orbit ? 1e-4 : 0; bool q0 = std::string(e.metric) == "ChernSimons"; if (q0 && s.orbit) tol = 1e-3; if (units) tol = std::max(tol, 1e-13);   // converted once per pixel by the manager, once per step locally
      try {
      for (int k = 0, K = r.i(1, 4); k < K; ++k) { deliveries = 0; order = ""; std::string why, what; long want = 0; Buffers A(q, np, nnu(L)), B(q, np, nnu(L)); double *ipA = NULL; std::vector<double> ip; int mode = r.i(0, polar || one ? 2 : 3); bool alloc = false;
        auto go2 = [&](SceneryP sc, Buffers &b) { if (mode == 0) { Screen::Range ir(1, res, 1), jr(1, res, 1); Screen::Grid g(ir, jr, ""); sc->rayTrace(g, &b.props); want = np; what = "whole image"; } };
        if (mode == 0) { go2(L, A); go2(M, B); }
        else if (mode == 1) { size_t a = r.i(1, res), c = r.i(a, res), d = r.i(1, 2), f = r.i(1, res), g = r.i(f, res), h = r.i(1, 2); alloc = r.p(.5); A.props.alloc = B.props.alloc = alloc; for (int t = 0; t < 2; ++t) { Screen::Range ir(a, c, d), jr(f, g, h); Screen::Grid gr(ir, jr, ""); (t ? M : L)->rayTrace(gr, t ? &B.props : &A.props); } A.props.alloc = B.props.alloc = false; want = ((c - a) / d + 1) * ((g - f) / h + 1); what = alloc ? "region in place" : "region"; }
        else if (mode == 2) { std::vector<double> al, de; double f = L->screen()->fieldOfView(); int n = r.i(1, np); for (int t = 0; t < n; ++t) al.push_back(r.u(-.5, .5) * f), de.push_back(r.u(-.5, .5) * f); for (int t = 0; t < 2; ++t) { Screen::Angles A1(al.data(), n), A2(de.data(), n); Screen::Bucket bk(A1, A2); (t ? M : L)->rayTrace(bk, t ? &B.props : &A.props); } want = n; what = "directions"; }
        else { // from stored impacts
          Buffers C(GYOTO_QUANTITY_IMPACTCOORDS, np, nnu(L)); traceFull(L, C); ip = C.C; ipA = ip.data(); for (int t = 0; t < 2; ++t) { Screen::Range ir(1, res, 1), jr(1, res, 1); Screen::Grid g(ir, jr, ""); (t ? M : L)->rayTrace(g, t ? &B.props : &A.props, ipA); } want = np; what = "stored impacts"; }
        ev(what); ev("images"); ev("pixels shared out", want); ev("hit pixels", hits(A)); distinct("delivery order", order);
        CHECK("results delivered: " + what, deliveries == want + teamSize - 1, "%ld messages for %ld pixels and %d workers", deliveries, want, teamSize - 1);
        CHECK("differs from local ray-tracing: " + what + " " + s.name, sameBuffers(A, B, why, tol), "%s; %d workers; %s", why.c_str(), teamSize - 1, o.quantities.c_str());
        if (r.p(.3)) { double i = r.u(.5, 1.4); L->screen()->inclination(i); M->screen()->inclination(i); std::string y = Held::of(L).xml(); SceneryP N = scenery(y); L->screen()->inclination(N->screen()->inclination()); M->screen()->inclination(N->screen()->inclination()); M->mpiClone(); ev("scenery changed"); } }
      } catch (...) { M->mpiTerminate(); throw; }
      M->mpiTerminate(); }); alarm(0); }
  go = 0; mpi::broadcast(world, go, 0); long p = 0, tot = 0; mpi::reduce(world, p, tot, std::plus<long>(), 0); ev("worker pauses injected", tot);
  return done(); }
