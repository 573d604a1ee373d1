// fields FILE XMIN YMIN D XRES YRES: digests of the maps of a saved flow
#include "TSpace.hpp"
#include "XVorticity.hpp"
#include "XVelocity.hpp"
#include "XStreamfunction.hpp"
#include "XPressure.hpp"
#include "XIsoline.hpp"
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>

static unsigned long long fnv(const std::string &s)
{
    unsigned long long h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

template <class F> static void out(const char *name, const F &f)
{
    std::ostringstream o;
    o << f;
    printf("%s %016llx\n", name, fnv(o.str()));
    fflush(stdout);
}

int main(int argc, char **argv)
{
    double x = atof(argv[2]), y = atof(argv[3]), d = atof(argv[4]);
    int nx = atoi(argv[5]), ny = atoi(argv[6]);
    Space S;
    S.load(argv[1]);
    { XVorticity f(S, x, y, d, nx, ny); f.eps_mult = 2; f.evaluate(); out("vorticity", f); }
    for (char m : {'x', 'y'}) {
        XVelocity f(S, x, y, d, nx, ny); f.mode = m; f.ref_frame = 'o'; f.evaluate();
        out(m == 'x' ? "vx" : "vy", f);
    }
    {
        XStreamfunction f(S, x, y, d, nx, ny); f.eps_mult = 2; f.ref_frame = 'o'; f.evaluate();
        out("streamfunction", f);
        XIsoline l(f, -2, 2, 0.1);
        out("streamlines", l);
    }
    { XPressure f(S, x, y, d, nx, ny); f.eps_mult = 2; f.ref_frame = 's'; f.evaluate(); out("pressure", f); }
}
