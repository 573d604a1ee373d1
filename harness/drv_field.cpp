// Fields and isolines driven by commands on stdin; one answer per line.
#include "XField.hpp"
#include "XIsoline.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
using std::string;

static void num(double x)
{
    if (x != x) printf("NaN");
    else if (std::isinf(x)) printf(x > 0 ? "Infinity" : "-Infinity");
    else printf("%.9g", x);
}
static void floats(const string &s)
{
    printf("[");
    for (size_t k = 0; k + 4 <= s.size(); k += 4) {
        float f;
        memcpy(&f, &s[k], 4);
        if (k) printf(",");
        num(f);
    }
    printf("]");
}
static float rd(std::istream &in)
{
    string s;
    in >> s;
    return strtof(s.c_str(), NULL);
}

int main()
{
    string line;
    std::unique_ptr<XField> f;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        string op;
        if (!(in >> op)) continue;
        try {
            if (op == "field") { // extra bytes, then the numbers
                int extra, n;
                in >> extra >> n;
                string s;
                for (int k = 0; k < n; k++) {
                    float x = rd(in);
                    s.append(reinterpret_cast<char *>(&x), 4);
                }
                s.append(extra, 'x');
                f.reset();
                f.reset(new XField(s));
                std::ostringstream os;
                os << *f;
                printf("{\"pack\":");
                floats(os.str());
                printf(",\"min\":"); num(f->min());
                printf(",\"max\":"); num(f->max());
                printf("}");
            } else if (!f) {
                printf("null");
            } else if (op == "at") {
                int i, j;
                in >> i >> j;
                num(f->at(i, j));
            } else if (op == "pct") {
                num(f->percentile(rd(in)));
            } else if (op == "iso") {
                string w[3];
                in >> w[0] >> w[1] >> w[2];
                double a = strtod(w[0].c_str(), NULL), b = strtod(w[1].c_str(), NULL), d = strtod(w[2].c_str(), NULL);
                std::ostringstream os;
                os << XIsoline(*f, a, b, d);
                floats(os.str());
            } else return 3;
        } catch (const std::exception &e) {
            printf("{\"error\":\"%s\"}", e.what());
        }
        printf("\n");
        fflush(stdout);
    }
    return 0;
}
