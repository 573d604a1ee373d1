// probe SNAPSHOT PROBES: the velocities the main loop would report at the
// probes in the step the snapshot belongs to, one line of "vx vy" per probe
#include "TSpace.hpp"
#include "TSortedTree.hpp"
#include "MConvectiveFast.hpp"
#include "MEpsilonFast.hpp"
#include "MFlowmove.hpp"
#include <cstdio>
#include <cmath>
#include <limits>
int main(int argc, char **argv)
{
    Space S;
    S.load(argv[1]);
    bool viscous = S.re != std::numeric_limits<double>::infinity();
    double dl = S.average_segment_length();
    TSortedTree tr(&S, 8, dl > 0 ? dl * 5 : 0, dl > 0 ? dl * 100 : std::numeric_limits<double>::max());
    MConvectiveFast conv(&S, &tr);
    MEpsilonFast eps(&S, &tr);
    MFlowmove fm(&S);
    const void *collision = nullptr;
    if (S.BodyList.size()) {
        tr.build();
        eps.CalcEpsilonFast(false);
        conv.calc_circulation(&collision);
        tr.destroy();
    }
    fm.heat_shed();
    fm.vortex_shed();
    fm.streak_shed();
    tr.build();
    eps.CalcEpsilonFast(viscous);
    FILE *f = fopen(argv[2], "r");
    double x, y;
    while (f && fscanf(f, "%lf %lf", &x, &y) == 2) {
        TVec v = conv.velocity(TVec(x, y));
        // the same by summing over everything, and how much far cells may err
        TVec w = S.inf_speed();
        double far = 0;
        for (auto &o : S.VortexList) {
            TVec dr = TVec(x, y) - o.r;
            double e = 1. / o._1_eps;
            w += rotl(dr) * (o.g / (dr.abs2() + e * e)) / (2 * M_PI);
            far += fabs(o.g) / (sqrt(dr.abs2() + e * e)) / (2 * M_PI);
        }
        for (auto &o : S.SourceList) {
            TVec dr = TVec(x, y) - o.r;
            w += dr * (o.g / (dr.abs2() + double(S.dt) * fabs(o.g) / M_PI)) / (2 * M_PI);
        }
        bool still = true;
        for (auto &b : S.BodyList) still = still && b->speed_slae.iszero() && !b->get_slip();
        printf("%lg %lg %.12g %.12g %.12g %d\n", v.x, v.y, w.x, w.y, far, (int)still);
    }
    return 0;
}
