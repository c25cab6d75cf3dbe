// All of vif, in the order of vif.hpp, without its main(). Third-party headers come before the traps.
#ifndef VIFALL_HPP
#define VIFALL_HPP
#include "vifref.hpp"
#undef exit
#undef _exit
#undef abort
#undef terminate
#undef quick_exit
#include <set>
#include <map>
#include <complex>
#include <random>
#include <fitsio.h>
#include <fftw3.h>
#include <gsl/gsl_sf_bessel.h>
#include <gsl/gsl_multimin.h>
#include <wcslib/wcslib.h>
#include <wcslib/wcshdr.h>
#include <wcslib/wcserr.h>
#include <wcslib/tab.h>
#include <wcslib/dis.h>
#include "trap.hpp"
#define VIF_CORE_MAIN_HPP
#include <vif.hpp>
#endif
