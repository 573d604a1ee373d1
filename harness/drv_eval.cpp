// Expressions of time driven by commands on stdin; one answer per line.
#include "TEval.hpp"
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
using std::string;

static string unhex(const string &h)
{
    string s;
    for (size_t k = 1; k + 2 < h.size(); k += 2) s += char(strtol(h.substr(k, 2).c_str(), NULL, 16));
    return s;
}

int main()
{
    std::map<int, std::unique_ptr<TEval>> e;
    string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        string op;
        int k;
        if (!(in >> op >> k)) continue;
        if (!e[k]) e[k].reset(new TEval());
        try {
            if (op == "set") {
                string h;
                in >> h;
                *e[k] = unhex(h);
                printf("true");
            } else if (op == "make") {
                string h;
                in >> h;
                std::unique_ptr<TEval> n(new TEval(unhex(h)));
                e[k] = std::move(n);
                printf("true");
            } else if (op == "copy" || op == "clone") {
                int from;
                in >> from;
                if (!e[from]) e[from].reset(new TEval());
                if (op == "copy") *e[k] = *e[from];
                else {
                    std::unique_ptr<TEval> n(new TEval(*e[from]));
                    e[k] = std::move(n);
                }
                printf("true");
            } else if (op == "eval") {
                double t;
                in >> t;
                printf("[%.17g]", e[k]->eval(t));
            } else if (op == "many") { // from several threads at once
                int n;
                in >> n;
                std::vector<double> t(n), v(n);
                std::vector<int> bad(n, 0);
                for (double &x : t) in >> x;
                const TEval &ev = *e[k];
#pragma omp parallel for num_threads(4) schedule(dynamic, 1)
                for (int m = 0; m < n; m++) {
                    try {
                        v[m] = ev.eval(t[m]);
                    } catch (...) {
                        bad[m] = 1;
                    }
                }
                printf("[");
                for (int m = 0; m < n; m++)
                    if (bad[m]) printf(m ? ",[]" : "[]");
                    else printf(m ? ",[%.17g]" : "[%.17g]", v[m]);
                printf("]");
            } else if (op == "text") {
                string s(*e[k]);
                printf("\"");
                for (unsigned char c : s) printf("%02x", c);
                printf("\"");
            } else return 3;
        } catch (const std::invalid_argument &) {
            printf(op == "eval" ? "[]" : "false");
        }
        printf("\n");
        fflush(stdout);
    }
    return 0;
}
