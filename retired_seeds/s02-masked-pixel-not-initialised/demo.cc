#include "GyotoRegister.h"
#include "GyotoFactory.h"
#include "GyotoScenery.h"
#include "GyotoScreen.h"
#include "GyotoPhoton.h"
#include "GyotoMetric.h"
#include "GyotoAstrobj.h"
#include "GyotoSpectrum.h"
#include "GyotoSpectrometer.h"
#include "GyotoUniformSpectrometer.h"
#include "GyotoComplexSpectrometer.h"
#include "GyotoConverters.h"
#include "GyotoProperty.h"
#include "GyotoValue.h"
#include "GyotoError.h"
#include "GyotoUtils.h"
#include <cstdio>
#include <cmath>
#include <cfloat>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
using namespace Gyoto; using namespace std;
static int fail(const char *m) { printf("DEMO: %s\n", m); return 1; }
static SmartPointer<Metric::Generic> mkM(string k){vector<string> p("stdplug"?1:0,"");p.clear();return (*Metric::getSubcontractor(k,p))(NULL,p);}
static SmartPointer<Astrobj::Generic> mkA(string k){vector<string> p;return (*Astrobj::getSubcontractor(k,p))(NULL,p);}
static SmartPointer<Spectrum::Generic> mkS(string k){vector<string> p;return (*Spectrum::getSubcontractor(k,p))(NULL,p);}
static SmartPointer<Spectrometer::Generic> mkSp(string k){vector<string> p;return (*Spectrometer::getSubcontractor(k,p))(NULL,p);}
static SmartPointer<Scenery> mkSc(string x){ x="<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>\n"+x; vector<char> b(x.begin(),x.end()); b.push_back(0); Factory f(b.data()); return f.scenery(); }
int run(int argc, char **argv);
int main(int argc, char **argv) { try { verbose(0); Register::init("stdplug"); return run(argc, argv); } catch (Error &e) { printf("DEMO: error %s\n", e.get_message().c_str()); return 1; } }

int run(int, char **) {
  string x="<Scenery><Metric kind=\"KerrBL\"><Spin>0.5</Spin></Metric><Screen><Distance unit=\"geometrical\">100</Distance><Inclination unit=\"degree\">60</Inclination><FieldOfView>0.3</FieldOfView><Resolution>8</Resolution></Screen>"
   "<Astrobj kind=\"FixedStar\"><Radius>3</Radius><Position>10 1.2 2</Position><RMax>20</RMax></Astrobj><Quantities>Intensity</Quantities></Scenery>";
  SmartPointer<Scenery> sc=mkSc(x); vector<double> m(64,0.); m[9]=1.; sc->screen()->mask(m.data(),8);
  double it=42., t=42.; Astrobj::Properties d; d.intensity=&it; d.time=&t; (*sc)(size_t(4),size_t(4),&d);
  return it==0.&&t==DBL_MAX?0:fail("a masked pixel did not get the default values");
}
