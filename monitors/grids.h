// Objects holding gridded data: filling their arrays and reading them back.
#ifndef VERIF_GRIDS_H
#define VERIF_GRIDS_H
#include "reflect.h"
#include "GyotoPatternDisk.h"
#include "GyotoDisk3D.h"
#include "GyotoDirectionalDisk.h"
#include "GyotoXillverReflection.h"
#include "GyotoThinDiskGridIntensity.h"
#include "GyotoFlaredDiskSynchrotron.h"
namespace V {
typedef std::map<std::string, std::pair<const double *, std::vector<double> > > Dump;
inline std::vector<double> rnd(Rng &r, size_t n, double a, double b) { std::vector<double> v(n); for (auto &x : v) x = r.u(a, b); return v; }
inline std::vector<double> asc(Rng &r, size_t n, double a, double step) { std::vector<double> v(n); double x = a; for (auto &y : v) { y = x; x += step * r.u(.5, 1.5); } return v; }
/// all arrays of the object
inline Dump dump(const Gyoto::Astrobj::Generic *a) { using namespace Gyoto::Astrobj; Dump d;
  auto put = [&](const char *n, const double *p, size_t k) { if (p) d[n] = std::make_pair(p, std::vector<double>(p, p + k)); };
  if (auto *o = dynamic_cast<const PatternDisk *>(a)) { size_t n[3]; o->getIntensityNaxes(n); put("emission", o->getIntensity(), n[0] * n[1] * n[2]); put("opacity", o->opacity(), n[0] * n[1] * n[2]); put("velocity", o->getVelocity(), 2 * n[1] * n[2]); put("radius", o->getGridRadius(), n[2]); }
  else if (auto *o = dynamic_cast<const Disk3D *>(a)) { size_t n[4]; o->getEmissquantNaxes(n); put("emissquant", o->getEmissquant(), n[0] * n[1] * n[2] * n[3]); put("opacity", o->opacity(), n[0] * n[1] * n[2] * n[3]); put("velocity", o->getVelocity(), 3 * n[1] * n[2] * n[3]); }
  else if (auto *o = dynamic_cast<const DirectionalDisk *>(a)) { size_t n[3]; o->getIntensityNaxes(n); put("emission", o->getIntensity(), n[0] * n[1] * n[2]); put("freq", o->getGridFreq(), n[0]); put("cosi", o->getGridCosi(), n[1]); put("radius", o->getGridRadius(), n[2]); }
  else if (auto *o = dynamic_cast<const XillverReflection *>(a)) { size_t n[3], m[2]; o->getReflectionNaxes(n); o->getIlluminationNaxes(m); put("reflection", o->getReflection(), n[0] * n[1] * n[2]); put("illumination", o->getIllumination(), m[0] * m[1]); put("freq", o->getGridReflFreq(), n[0]); put("incl", o->getGridReflIncl(), n[1]); put("logxi", o->getGridReflLogxi(), n[2]); put("radius", o->getGridIllumRadius(), m[0]); put("phi", o->getGridIllumPhi(), m[1]); }
  else if (auto *o = dynamic_cast<const ThinDiskGridIntensity *>(a)) { size_t n = o->nt() * o->nphi() * o->nr(); put("intensity", o->getIntensity(), n); put("times", o->getTimeArray(), o->nt()); }
  else if (auto *o = dynamic_cast<const FlaredDiskSynchrotron *>(a)) { size_t n = o->nt() * o->nphi() * o->nr(); put("density", o->getDensity(), n); put("velocity", o->getVelocity(), 2 * n); put("Bvector", o->getBvector(), 4 * n); put("times", o->getTimeArray(), o->nt()); }
  return d; }
/// fill the grids of a with random data; false if it holds none
inline bool giveGrids(Gyoto::Astrobj::Generic *a, Rng &r) { using namespace Gyoto::Astrobj;
  if (auto *o = dynamic_cast<PatternDisk *>(a)) { size_t n[3] = {size_t(r.i(1, 4)), size_t(r.i(1, 6)), size_t(r.i(2, 7))}; o->innerRadius(4); o->outerRadius(20); o->repeatPhi(r.i(1, 2)); o->nu0(1e13); o->dnu(1e13);
    std::vector<double> e = rnd(r, n[0] * n[1] * n[2], 0, 9), v = rnd(r, 2 * n[1] * n[2], .01, .05), ra = asc(r, n[2], 4, 2), op = rnd(r, e.size(), 0, 1);
    o->copyIntensity(e.data(), n); if (r.p(.6)) o->copyOpacity(op.data(), n); if (r.p(.6)) o->copyVelocity(v.data(), n + 1); if (r.p(.5)) o->copyGridRadius(ra.data(), n[2]); return true; }
  if (auto *o = dynamic_cast<Disk3D *>(a)) { size_t n[4] = {size_t(r.i(1, 3)), size_t(r.i(2, 5)), size_t(r.i(2, 4)), size_t(r.i(2, 6))}; o->rin(4); o->rout(20); o->zmin(r.p(.5) ? 0. : -3.); o->zmax(3); o->repeatPhi(r.i(1, 2)); o->nu0(1e13); o->dnu(1e13);
    size_t N = n[0] * n[1] * n[2] * n[3]; std::vector<double> e = rnd(r, N, 0, 9), op = rnd(r, N, 0, 1), v = rnd(r, 3 * n[1] * n[2] * n[3], .01, .05); o->copyEmissquant(e.data(), n); if (r.p(.6)) o->copyOpacity(op.data(), n); if (r.p(.6)) o->copyVelocity(v.data(), n + 1); return true; }
  if (auto *o = dynamic_cast<DirectionalDisk *>(a)) { size_t n[3] = {size_t(r.i(2, 5)), size_t(r.i(2, 5)), size_t(r.i(2, 6))}; std::vector<double> e = rnd(r, n[0] * n[1] * n[2], 0, 9), f = asc(r, n[0], 1e15, 1e15), c = asc(r, n[1], .1, .15), ra = asc(r, n[2], 4, 2); std::vector<double> fd(f.rbegin(), f.rend());
    o->copyIntensity(e.data(), n); o->copyGridFreq(fd.data(), n[0]); o->copyGridCosi(c.data(), n[1]); o->copyGridRadius(ra.data(), n[2]); return true; }
  if (auto *o = dynamic_cast<XillverReflection *>(a)) { size_t n[3] = {size_t(r.i(2, 5)), size_t(r.i(2, 4)), size_t(r.i(2, 4))}, m[2] = {size_t(r.i(2, 5)), size_t(r.i(2, 5))}; std::vector<double> e = rnd(r, n[0] * n[1] * n[2], 0, 9), il = rnd(r, m[0] * m[1], 1, 1e15), f = asc(r, n[0], 1e17, 1e17), inc = asc(r, n[1], .1, .3), lx = asc(r, n[2], 0, 1), ra = asc(r, m[0], 4, 2), ph = asc(r, m[1], .1, .8);
    o->copyReflection(e.data(), n); o->copyGridReflFreq(f.data(), n[0]); o->copyGridReflIncl(inc.data(), n[1]); o->copyGridReflLogxi(lx.data(), n[2]); o->copyIllumination(il.data(), m); o->copyGridIllumRadius(ra.data(), m[0]); o->copyGridIllumPhi(ph.data(), m[1]); return true; }
  if (auto *o = dynamic_cast<ThinDiskGridIntensity *>(a)) { size_t n[3] = {size_t(r.i(2, 5)), size_t(r.i(2, 5)), size_t(r.i(2, 5))}; std::vector<double> e = rnd(r, n[0] * n[1] * n[2], 0, 9), t = asc(r, n[2], 100, 50); o->copyIntensity(e.data(), n); o->copyTimeArray(t.data(), n[2]); o->rmin(4); o->rmax(20); o->phimin(0); o->phimax(2 * M_PI * (1 - 1. / n[1])); o->tmin(t.front()); o->tmax(t.back()); return true; }
  if (auto *o = dynamic_cast<FlaredDiskSynchrotron *>(a)) { size_t n[3] = {size_t(r.i(2, 5)), size_t(r.i(2, 5)), size_t(r.i(2, 5))}; size_t N = n[0] * n[1] * n[2]; std::vector<double> e = rnd(r, N, 0, 1), v = rnd(r, 2 * N, .01, .05), B = rnd(r, 4 * N, 0, 1), t = asc(r, n[2], 100, 50); o->copyDensity(e.data(), n); if (r.p(.7)) o->copyVelocity(v.data(), n); if (r.p(.5)) o->copyBvector(B.data(), n); o->copyTimeArray(t.data(), n[2]); o->rmin(4); o->rmax(20); o->phimin(0); o->phimax(2 * M_PI * (1 - 1. / n[1])); o->tmin(t.front()); o->tmax(t.back()); return true; }
  return false; }
inline std::string dumpDiff(const Dump &a, const Dump &b) { for (auto &p : a) { auto q = b.find(p.first); if (q == b.end()) return p.first + " absent"; if (q->second.second != p.second.second) return p.first + " differs"; } for (auto &p : b) if (!a.count(p.first)) return p.first + " only in second"; return ""; }
} // namespace V
#endif
