// the library compiled with the options of the project's own CMake files, the harness without -ffast-math
#include "vf.hpp"
#include <complex>
#include <utility>
#include <initializer_list>
#include <cmath>
#include <sstream>
#include <iostream>
#pragma GCC push_options
#pragma GCC optimize("O3","fast-math","tree-vectorize","strict-aliasing")
#if FASTLIB==1 || FASTLIB==9
#if defined(RODAS)
#include "Rodascc.hpp"
#else
#include "Radau5cc.hpp"
#endif
#endif
#if FASTLIB==2 || FASTLIB==9
#if __has_include("Rock4.hpp")
#include "Rock4.hpp"
#else
#include "Rock4L.hpp"
#endif
#endif
#if FASTLIB==3 || FASTLIB==9
#include "GenericException.hpp"
#include "Sdirkl.hpp"
#include "CrN.hpp"
#include "EulerImp.hpp"
#include "RKMethod1.hpp"
#include "RKMethod2.hpp"
#include "RKRS.hpp"
#endif
#if FASTLIB==4 || FASTLIB==9
#include "SymplecticRK.hpp"
#endif
#if FASTLIB==5
#include "protos_lapack.hpp"
#include "Matrices.hpp"
#include "MatrixType.hpp"
#endif
#pragma GCC pop_options
