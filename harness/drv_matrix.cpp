// The linear solver driven by commands on stdin. Every command answers with one line.
#include "TMatrix.hpp"
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>

static std::unique_ptr<Matrix> m;
static double vars[256];

static int attempt(void (*f)(int), int a)
{
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
        freopen("/dev/null", "w", stderr);
        f(a);
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static void solve(int inv) { m->solveUsingInverseMatrix(inv != 0); }

int main()
{
    std::string op;
    while (std::cin >> op) {
        if (op == "new") { m.reset(new Matrix); puts("ok"); }
        else if (op == "resize") { unsigned n; std::cin >> n; m->resize(n); puts("ok"); }
        else if (op == "bind") {
            unsigned n; std::cin >> n;
            for (unsigned c = 0; c < n; c++) { int v; std::cin >> v; m->setSolutionForCol(c, vars + v); }
            puts("ok");
        } else if (op == "zero") { m->fillWithZeros(); puts("ok"); }
        else if (op == "mark") { m->markBodyMatrixAsFilled(); puts("ok"); }
        else if (op == "cells") { // row, variable, value
            unsigned n; std::cin >> n;
            for (; n; n--) { int r, v; double x; std::cin >> r >> v >> x; *m->getCell(r, vars + v) = x; }
            puts("ok");
        } else if (op == "right") {
            unsigned n; std::cin >> n;
            for (unsigned r = 0; r < n; r++) { double x; std::cin >> x; *m->getRightCol(r) = x; }
            puts("ok");
        } else if (op == "ok") { printf("{\"ok\":%d}\n", (int)m->bodyMatrixIsOk()); }
        else if (op == "solve") {
            int inv; std::cin >> inv;
            int st = attempt(solve, inv);
            if (st) { printf("{\"failed\":%d,\"ok\":%d}\n", st, (int)m->bodyMatrixIsOk()); }
            else {
                for (double &v : vars) v = 12345;
                solve(inv);
                printf("{\"failed\":0,\"ok\":%d,\"vars\":[", (int)m->bodyMatrixIsOk());
                for (int i = 0; i < 256; i++) {
                    if (i) printf(",");
                    if (vars[i] != vars[i]) printf("NaN");
                    else if (vars[i] > 1e300) printf("1e300");
                    else if (vars[i] < -1e300) printf("-1e300");
                    else printf("%.17g", vars[i]);
                }
                puts("]}");
            }
        } else return 3;
        fflush(stdout);
    }
}
