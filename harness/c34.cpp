// C34: nearest neighbour matching with several threads: same result under every schedule.
#include "conc.hpp"
#include <set>
#include <map>
#include <complex>
#include <random>
#include <fitsio.h>
#include <fftw3.h>
#include <gsl/gsl_sf_bessel.h>
#include <gsl/gsl_multimin.h>
#include <wcslib/wcslib.h>
#include <wcslib/wcshdr.h>
#include <wcslib/wcserr.h>
#include <wcslib/tab.h>
#include <wcslib/dis.h>
#include "trap_conc.hpp"
#define VIF_CORE_MAIN_HPP
#include <vif.hpp>
#include <vif/astro/qxmatch.hpp>
#include "qxref.hpp"
using namespace vif;

void go(bool brute) {
    unsigned nt = 2 + mc::choose(mc::thorough() ? 3 : 2), n1 = mc::choose(4), n2 = mc::choose(3); Opt o; o.brute = brute; o.lin = mc::flip(); o.self = mc::flip(); o.mirror = !mc::flip(); o.nth = 1 + mc::choose(2);
    if (o.self && n2) return; if (o.self) n2 = n1;
    Cat a, b; for (unsigned i = 0; i < n1; ++i) { a.x.push_back(150.0 + (i*i*7 % 5)/3600.0); a.y.push_back(2.0 + i/3600.0); } for (unsigned j = 0; j < n2; ++j) { b.x.push_back(150.0 + (2*j + 0.4)/3600.0); b.y.push_back(2.0 + (3 - j)/3600.0); } if (o.self) b = a; if (o.lin) for (auto* c : {&a, &b}) for (unsigned i = 0; i < c->n(); ++i) { c->x[i] = (c->x[i] - 150)*3600; c->y[i] = (c->y[i] - 2)*3600; }
    MC_LOG(nt, " threads, ", o.lin ? "linear " : "sky ", o.brute ? "brute force " : "buckets ", "nth=", o.nth, " mirror=", o.mirror, " self=", o.self, " cat1=", a, " cat2=", b);
    vec1d x1 = a.vx(), y1 = a.vy(), x2 = b.vx(), y2 = b.vy();
    auto body = [&]{ auto r = o.self ? astro::qxmatch(x1, y1, params(o, nt)) : astro::qxmatch(x1, y1, x2, y2, params(o, nt)); check_match(a, b, r, o); };
    conc::run(nt == 2 ? (mc::thorough() ? 4 : 3) : (mc::thorough() ? 3 : 2), body);
}
CONC_SCENARIO(buckets) { go(false); }
CONC_SCENARIO(brute_force) { go(true); }
