#include "scenes.h"
using namespace V;
int main(int c, char **v) { init(c, v);
  for (auto &e : catalogue()) { if (!mine()) continue; Rng r = caseRng(); SceneOpt o; Scene s = makeScene(e, r, o);
    guard(s.name, [&]() { clock_t t0 = clock(); SceneryP sc = scenery(s.xml); Buffers b(sc->getRequestedQuantities(), o.res * o.res, nnu(sc)); traceFull(sc, b);
      long poison = 0; for (auto &p : b.planes()) for (double x : *p.second) if (x == Image::POISON()) ++poison;
      note(fmt("%s hits %ld/36 poison %ld  %.2fs", s.name.c_str(), hits(b), poison, double(clock() - t0) / CLOCKS_PER_SEC)); }); }
  return done(); }
