// stdin: "n ox oy x0 y0 m  x y x y ..." per outline: n corners, moved by
// (ox,oy), queried on an m*m grid of half units from (x0,y0)/2 on.
// stdout: JSON per outline
#include "TBody.hpp"
#include <cstdio>
int main()
{
    int n, x0, y0, m;
    double ox, oy;
    while (scanf("%d %lf %lf %d %d %d", &n, &ox, &oy, &x0, &y0, &m) == 6) {
        TBody b;
        for (int i = 0; i < n; i++) {
            double x, y;
            if (scanf("%lf %lf", &x, &y) != 2) return 2;
            b.alist.emplace_back(x + ox, y + oy);
        }
        b.doUpdateSegments();
        b.doFillProperties();
        printf("{\"n\":%zu,\"area\":%.17g,\"slen\":%.17g,\"cofm\":[%.17g,%.17g],\"moi\":%.17g,\"hollow\":%d,\"segs\":[",
               b.size(), b.get_area(), b.get_slen(), b.get_cofm().x - ox, b.get_cofm().y - oy,
               b.get_moi_cofm(), (int)b.isInsideValid());
        const char *sep = "";
        for (auto &a : b.alist) {
            printf("%s[%.17g,%.17g,%.17g,%.17g,%.17g,%.17g,%.17g]", sep, a.corner.x - ox, a.corner.y - oy,
                   a.r.x - ox, a.r.y - oy, a.dl.x, a.dl.y, 3.0 / a._1_eps);
            sep = ",";
        }
        // the axis somewhere else: moment about it
        b.holder.r = TVec(ox + 3, oy - 2);
        b.dpos.r = TVec(-1, 1);
        printf("],\"moi_axis\":%.17g,\"inv\":[", b.get_moi_axis());
        sep = "";
        for (int j = 0; j < m; j++)
            for (int i = 0; i < m; i++) {
                TAtt *a = b.isPointInvalid(TVec(ox + (x0 + i) / 2., oy + (y0 + j) / 2.));
                printf("%s%d", sep, a ? int(a - &b.alist[0]) + 1 : 0);
                sep = ",";
            }
        printf("]}\n");
    }
    return 0;
}
