// A spy derived from the real object records every emission event of a ray.
#ifndef VERIF_SPY_H
#define VERIF_SPY_H
#include "common.h"
#include "GyotoPhoton.h"
#include "GyotoAstrobj.h"
namespace V {
using namespace Gyoto;
struct Ev { double ph[8], ob[8], dt; std::vector<double> T0, T1, S0, S1, B0, B1; double t0, t1, I0, I1, Z, tm; size_t nph; };
struct Log { std::vector<Ev> e; size_t nnu = 0; };
template <class T> struct Spy : public T {
  Log *log; Spy(const T &t, Log *l) : T(t), log(l) {} Spy(const Spy &o) : T(o), log(o.log) {} virtual Spy *clone() const { return new Spy(*this); }
  virtual void processHitQuantities(Photon *ph, state_t const &c, double const *o, double dt, Astrobj::Properties *d) const {
    Ev e; e.nph = c.size(); for (int i = 0; i < 8; ++i) { e.ph[i] = c[i]; e.ob[i] = o[i]; } e.dt = dt; size_t n = log->nnu;
    e.t0 = ph->getTransmission(size_t(-1)); for (size_t i = 0; i < n; ++i) e.T0.push_back(ph->getTransmission(i)); if (d && d->spectrum) for (size_t i = 0; i < n; ++i) e.S0.push_back(d->spectrum[i * d->offset]); if (d && d->binspectrum) for (size_t i = 0; i < n; ++i) e.B0.push_back(d->binspectrum[i * d->offset]); e.I0 = d && d->intensity ? *d->intensity : 0;
    T::processHitQuantities(ph, c, o, dt, d);
    e.t1 = ph->getTransmission(size_t(-1)); for (size_t i = 0; i < n; ++i) e.T1.push_back(ph->getTransmission(i)); if (d && d->spectrum) for (size_t i = 0; i < n; ++i) e.S1.push_back(d->spectrum[i * d->offset]); if (d && d->binspectrum) for (size_t i = 0; i < n; ++i) e.B1.push_back(d->binspectrum[i * d->offset]); e.I1 = d && d->intensity ? *d->intensity : 0; e.Z = d && d->redshift ? *d->redshift : nan(""); e.tm = d && d->time ? *d->time : nan(""); log->e.push_back(e); } };
struct XYZ { double v[3]; };
static XYZ xyz(bool sph, const double *x) { XYZ r; if (!sph) { r = {x[1], x[2], x[3]}; return r; } double s = sin(x[2]); r = {x[1] * s * cos(x[3]), x[1] * s * sin(x[3]), x[1] * cos(x[2])}; return r; }
template <class T> bool spy(SceneryP sc, Log *l) { AstrobjP a = sc->astrobj(); T *t = dynamic_cast<T *>(&*a); if (!t) return false; Spy<T> *s = new Spy<T>(*t, l); AstrobjP p = s; sc->astrobj(p); return true; }
} // namespace V
#endif
