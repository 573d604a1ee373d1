// stdin: lines of requests about TTime; stdout: one answer per line
#include "TTime.hpp"
#include <cstdio>
#include <cstring>
#include <cstdlib>
int main() {
    char op[16];
    while (scanf("%15s", op) == 1) {
        if (!strcmp(op, "dec")) {
            char s[64]; if (scanf("%63s", s) != 1) return 2;
            TTime t = TTime::makeWithSecondsDecimal(strtod(s, NULL));
            printf("%d %u\n", t.value, t.timescale);
        } else if (!strcmp(op, "add")) {
            int v1, v2; unsigned a, b; if (scanf("%d %u %d %u", &v1, &a, &v2, &b) != 4) return 2;
            TTime t = TTime::add(TTime(v1, a), TTime(v2, b));
            printf("%d %u\n", t.value, t.timescale);
        } else if (!strcmp(op, "div")) {
            int v1, v2; unsigned a, b; if (scanf("%d %u %d %u", &v1, &a, &v2, &b) != 4) return 2;
            printf("%d\n", (int)TTime(v1, a).divisibleBy(TTime(v2, b)));
        } else if (!strcmp(op, "steps")) {
            int v1, v2, n; unsigned a, b; if (scanf("%d %u %d %u %d", &v1, &a, &v2, &b, &n) != 5) return 2;
            TTime t(v1, a), d(v2, b);
            for (int i = 0; i < n; i++) t = TTime::add(t, d);
            printf("%d %u\n", t.value, t.timescale);
        } else return 3;
    }
    return 0;
}
