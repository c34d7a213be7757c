// Precompiled prefix: system and third-party headers only (no Gyoto header).
// It shortens the rebuild; it is force-included in every translation unit.
#ifndef VERIF_PCH_H
#define VERIF_PCH_H
#include <iostream>
#include <fstream>
#include <string>
#include <cmath>
#include <cstdlib>
#include <iomanip>
#include <cstring>
#include <sstream>
#include <limits>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <memory>
#include <random>
#include <float.h>
#include <fitsio.h>
#include <boost/version.hpp>
#include <boost/array.hpp>
#include <boost/serialization/array_wrapper.hpp>
#include <boost/serialization/boost_array.hpp>
#include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/math/special_functions/bessel.hpp>
#include <Eigen/Dense>
#include <udunits2.h>
#define XERCES_INCLUDE_WCHAR_H 0
#include <xercesc/dom/DOMElement.hpp>
#endif
