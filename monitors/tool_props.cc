// prints the property inventory (development aid)
#include "reflect.h"
int main(int c, char **v) { V::init(c, v);
  for (int i = 0; i < V::nHeld(); ++i) { try { V::Held h = V::mkHeld(i);
    for (auto *p : V::props(h.o)) { std::string g, st;
      try { V::Snap s = V::snap(h.o); g = s[p->name]; } catch (Gyoto::Error &e) { g = e.get_message(); }
      printf("%s %s %s%s = %s\n", h.id().c_str(), V::typeName(p->type), p->name.c_str(), p->supportsUnits() ? " [u]" : "", g.c_str()); } }
    catch (Gyoto::Error &e) { printf("%d: %s\n", i, e.get_message().c_str()); } }
  return 0; }
