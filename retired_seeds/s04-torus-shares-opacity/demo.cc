#include "GyotoRegister.h"
#include "GyotoFactory.h"
#include "GyotoScenery.h"
#include "GyotoScreen.h"
#include "GyotoPhoton.h"
#include "GyotoMetric.h"
#include "GyotoAstrobj.h"
#include "GyotoSpectrum.h"
#include "GyotoSpectrometer.h"
#include "GyotoUniformSpectrometer.h"
#include "GyotoComplexSpectrometer.h"
#include "GyotoConverters.h"
#include "GyotoProperty.h"
#include "GyotoValue.h"
#include "GyotoError.h"
#include "GyotoUtils.h"
#include <cstdio>
#include <cmath>
#include <cfloat>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
using namespace Gyoto; using namespace std;
static int fail(const char *m) { printf("DEMO: %s\n", m); return 1; }
static SmartPointer<Metric::Generic> mkM(string k){vector<string> p("stdplug"?1:0,"");p.clear();return (*Metric::getSubcontractor(k,p))(NULL,p);}
static SmartPointer<Astrobj::Generic> mkA(string k){vector<string> p;return (*Astrobj::getSubcontractor(k,p))(NULL,p);}
static SmartPointer<Spectrum::Generic> mkS(string k){vector<string> p;return (*Spectrum::getSubcontractor(k,p))(NULL,p);}
static SmartPointer<Spectrometer::Generic> mkSp(string k){vector<string> p;return (*Spectrometer::getSubcontractor(k,p))(NULL,p);}
static SmartPointer<Scenery> mkSc(string x){ x="<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>\n"+x; vector<char> b(x.begin(),x.end()); b.push_back(0); Factory f(b.data()); return f.scenery(); }
int run(int argc, char **argv);
int main(int argc, char **argv) { try { verbose(0); Register::init("stdplug"); return run(argc, argv); } catch (Error &e) { printf("DEMO: error %s\n", e.get_message().c_str()); return 1; } }

int run(int, char **) {
  SmartPointer<Astrobj::Generic> t=mkA("Torus"); SmartPointer<Spectrum::Generic> o=mkS("PowerLaw"); o->set("Constant",Value(1.)); t->set("Opacity",Value(o));
  SmartPointer<Astrobj::Generic> c=t->clone();
  SmartPointer<Spectrum::Generic> oc=c->get("Opacity"); oc->set("Constant",Value(5.));
  SmartPointer<Spectrum::Generic> ot=t->get("Opacity"); double v=ot->get("Constant");
  return v==1.?0:fail("changing the opacity of the clone changed the original");
}
