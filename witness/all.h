/* The whole library as one translation unit: the checks analyse the current
 * text of every header and of every source file the library is built from. */
#include <src/base.cpp>
#include <src/ccode.cpp>
#include <src/matrix.cpp>
#include <src/modulation.cpp>
#include <src/mt.cpp>
#include <src/rng.cpp>
#include <src/rrcosine.cpp>
#include <src/sets.cpp>
#include <src/svd.cpp>
#include <src/utility.cpp>
#include "vspec.h"
using namespace susa;
namespace spec {
template <class T> inline matrix<T> mk(const char* n, std::size_t R, std::size_t C)
{ matrix<T> a(R, C); V::input(a(0), a.size(), n); return a; }
}
