// A space driven by commands on stdin, through the library's public interface.
// Every command answers with one line: "ok", or JSON.
#include "TSpace.hpp"
#include "TSortedTree.hpp"
#include "MConvectiveFast.hpp"
#include "MDiffusiveFast.hpp"
#include "MEpsilonFast.hpp"
#include "MFlowmove.hpp"
#include "XVelocity.hpp"
#include "XStreamfunction.hpp"
#include "XVorticity.hpp"
#include "XPressure.hpp"
#include <stdexcept>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>

using std::string;
static std::unique_ptr<Space> S;
static std::unique_ptr<MFlowmove> fm;
static std::unique_ptr<TSortedTree> tr;
static std::unique_ptr<MConvectiveFast> conv;
static const void *collision = nullptr;

static void num(double x)
{
    if (x != x) printf("NaN");
    else if (std::isinf(x)) printf(x > 0 ? "Infinity" : "-Infinity");
    else if (x == 0 && std::signbit(x)) printf("-0.0");
    else printf("%.17g", x);
}
static void arr(std::initializer_list<double> l)
{
    const char *sep = "[";
    for (double x : l) { printf("%s", sep); num(x); sep = ","; }
    printf("]");
}
static void v3(const char *n, const TVec3D &v) { printf("\"%s\":", n); arr({v.r.x, v.r.y, v.o}); printf(","); }
static void list(const char *n, const std::vector<TObj> &l)
{
    printf("\"%s\":[", n);
    const char *sep = "";
    for (auto &o : l) { printf("%s", sep); arr({o.r.x, o.r.y, o.g, o.v.x, o.v.y, o._1_eps}); sep = ","; }
    printf("],");
}
static void dump()
{
    printf("{");
    list("vort", S->VortexList);
    list("heat", S->HeatList);
    list("streak", S->StreakList);
    printf("\"time\":[%d,%u],\"marker\":", S->time.value, S->time.timescale);
    arr({S->inf_marker.x, S->inf_marker.y});
    int hit = -1, comp = -1, k = 0;
    for (auto &b : S->BodyList) {
        if (collision == &b->kspring.r.x) hit = k, comp = 0;
        if (collision == &b->kspring.r.y) hit = k, comp = 1;
        if (collision == &b->kspring.o) hit = k, comp = 2;
        k++;
    }
    printf(",\"hit\":[%d,%d],\"some\":%d,\"bodies\":[", hit, comp, (int)(collision != nullptr));
    const char *sep = "";
    for (auto &b : S->BodyList) {
        printf("%s{", sep);
        sep = ",";
        v3("holder", b->holder); v3("dpos", b->dpos); v3("speed", b->speed_slae); v3("speed_prev", b->speed_slae_prev);
        v3("friction", b->friction); v3("friction_prev", b->friction_prev);
        v3("hydro", b->force_hydro); v3("fholder", b->force_holder); v3("fdt_dead", b->fdt_dead);
        printf("\"g_dead\":"); num(b->g_dead);
        printf(",\"nusselt\":"); num(b->nusselt);
        printf(",\"area\":"); num(b->get_area());
        printf(",\"slen\":"); num(b->get_slen());
        printf(",\"moi\":"); num(b->get_moi_cofm());
        printf(",\"cofm\":"); arr({b->get_cofm().x, b->get_cofm().y});
        printf(",\"axis\":"); arr({b->get_axis().x, b->get_axis().y});
        printf(",\"segs\":[");
        const char *s2 = "";
        for (auto &a : b->alist) {
            printf("%s{\"c\":", s2);
            s2 = ",";
            arr({a.corner.x, a.corner.y});
            printf(",\"r\":"); arr({a.r.x, a.r.y});
            printf(",\"dl\":"); arr({a.dl.x, a.dl.y});
            printf(",\"g\":"); num(a.g);
            printf(",\"gsum\":"); num(a.gsum);
            printf(",\"hsum\":"); num(a.hsum);
            printf(",\"fric\":"); num(a.fric);
            printf(",\"Cp\":"); num(a.Cp);
            printf(",\"Fr\":"); num(a.Fr);
            printf(",\"Nu\":"); num(a.Nu);
            printf(",\"layer\":%lld,\"slip\":%u}", (long long)a.heat_layer_obj_no, a.slip);
        }
        printf("]}");
    }
    printf("]}\n");
}

// everything that a saved flow holds; strings in hexadecimal
static void text(const char *n, const string &s)
{
    printf("\"%s\":\"", n);
    for (unsigned char c : s) printf("%02x", c);
    printf("\",");
}
static string unhex(std::istream &in)
{
    string h, s;
    in >> h;
    for (size_t k = 1; k + 1 < h.size(); k += 2) s += (char)std::stoi(h.substr(k, 2), nullptr, 16);
    return s; // the word starts with a dash so that it is never empty
}
static void d1(const char *n, double x) { printf("\"%s\":", n); arr({x}); printf(","); }
static void d2(const char *n, TVec v) { printf("\"%s\":", n); arr({v.x, v.y}); printf(","); }
static void tm(const char *n, TTime t) { printf("\"%s\":[%d,%u],", n, t.value, t.timescale); }
static void points(const char *n, const std::vector<TObj> &l)
{
    printf(",\"%s\":[", n);
    const char *sep = "";
    for (auto &o : l) { printf("%s", sep); arr({o.r.x, o.r.y, o.g}); sep = ","; }
    printf("]");
}
static void whole()
{
    printf("{\"attr\":{");
    text("caption", S->caption);
    text("inf_vx", string(S->inf_vx)); text("inf_vy", string(S->inf_vy));
    tm("time", S->time); tm("dt", S->dt); tm("dt_save", S->dt_save); tm("dt_streak", S->dt_streak); tm("dt_profile", S->dt_profile);
    d1("re", S->re); d1("pr", S->pr); d1("inf_g", S->inf_g); d1("finish", S->finish);
    d2("marker", S->inf_marker); d2("gravity", S->gravity);
    printf("\"end\":0}");
    points("vort", S->VortexList); points("heat", S->HeatList); points("source", S->SourceList);
    points("ink", S->StreakList); points("ink_source", S->StreakSourceList);
    printf(",\"bodies\":[");
    const char *sep = "";
    for (auto &b : S->BodyList) {
        printf("%s{\"attr\":{", sep);
        sep = ",";
        text("label", b->label);
        text("speed_x", string(b->speed_x)); text("speed_y", string(b->speed_y));
        text("speed_o", string(b->speed_o)); text("force_o", string(b->force_o));
        v3("holder", b->holder); v3("dpos", b->dpos); v3("speed", b->speed_slae); v3("speed_prev", b->speed_slae_prev);
        v3("kspring", b->kspring); v3("damping", b->damping); v3("cmin", b->collision_min); v3("cmax", b->collision_max);
        v3("hydro", b->force_hydro); v3("fholder", b->force_holder); v3("friction_prev", b->friction_prev); v3("fdt_dead", b->fdt_dead);
        d1("density", b->density); d1("g_dead", b->g_dead); d1("bounce", b->bounce);
        d1("area", b->get_area()); d2("cofm", b->get_cofm()); d1("moi_cofm", b->get_moi_cofm()); d1("moi_axis", b->get_moi_axis());
        printf("\"special\":%d,\"bc\":%d,\"hc\":%d},", b->special_segment_no, (int)b->boundary_condition, (int)b->heat_condition);
        int root = -1, k = 0;
        auto r = b->root_body.lock();
        for (auto &o : S->BodyList) { if (o == r) root = k; k++; }
        if (r && root < 0) root = -2;
        printf("\"root\":%d,\"segs\":[", root);
        const char *s2 = "";
        for (auto &a : b->alist) {
            printf("%s", s2);
            s2 = ",";
            arr({a.corner.x, a.corner.y, a.g, a.gsum, a.fric, (double)a.slip, (double)a.heat_const});
        }
        printf("]}");
    }
    printf("]}\n");
}

static int node_id(std::map<const TSortedNode *, int> &ids, const TSortedNode *n)
{
    auto it = ids.find(n);
    return it == ids.end() ? -1 : it->second;
}
static void range_json(const char *n, TObj *first, TObj *last, TObj *base)
{
    printf("\"%s\":[%ld,%ld],", n, first ? long(first - base) : 0L, last ? long(last - base) : 0L);
}
// the whole tree: nodes in preorder, root first
static void moving_json(const char *name, const std::vector<TObj> &l)
{
    printf("\"%s\":[", name);
    const char *sep = "";
    for (auto &o : l) { printf("%s", sep); sep = ","; arr({o.r.x, o.r.y, o.g, o.v.x, o.v.y, 1. / o._1_eps}); }
    printf("],");
}
// with points: also the velocities of all particles and at these points
static void tree_json(int far, double mn, double mx, bool v, bool b, bool h, const std::vector<TVec> *points = nullptr, const string &what = "motion")
{
    TSortedTree t(S.get(), far, mn, mx);
    t.build(v, b, h);
    std::vector<TVec> there;
    if (points) {
        if (what == "moving")
            for (auto *l : {&S->VortexList, &S->HeatList, &S->StreakList}) for (auto &o : *l) o.v = TVec(0, 0);
        MEpsilonFast(S.get(), &t).CalcEpsilonFast(false);
        MConvectiveFast c(S.get(), &t);
        if (what != "spread") c.process_all_lists();
        if (what != "motion") {
            MDiffusiveFast(S.get(), &t).process_vort_list();
            MDiffusiveFast(S.get(), &t).process_heat_list();
        }
        for (auto &p : *points) there.push_back(c.velocity(p));
    }
    std::vector<const TSortedNode *> all, todo;
    std::map<const TSortedNode *, int> ids;
    // the root contains every near and far node of any leaf: climb from a leaf
    const TSortedNode *leaf = t.getBottomNodes().at(0);
    (void)leaf;
    printf("{\"leaves\":[");
    auto &bn = t.getBottomNodes();
    for (size_t k = 0; k < bn.size(); k++) ids[bn[k]] = (int)k;
    const char *sep = "";
    for (auto *n : bn) {
        printf("%s{", sep);
        sep = ",";
        printf("\"box\":"); arr({n->x, n->y, n->w, n->h});
        printf(",\"depth\":%d,", n->i);
        range_json("v", n->vRange.first, n->vRange.last, S->VortexList.data());
        range_json("h", n->hRange.first, n->hRange.last, S->HeatList.data());
        range_json("s", n->sRange.first, n->sRange.last, S->StreakList.data());
        printf("\"b\":[");
        const char *s2 = "";
        for (auto *o : n->bllist) {
            int k = 0, found = -1, seg = -1;
            for (auto &body : S->BodyList) {
                if (body->alist.size() && o >= &body->alist.front() && o <= &body->alist.back())
                    found = k, seg = int(static_cast<TAtt *>(o) - &body->alist[0]);
                k++;
            }
            printf("%s[%d,%d]", s2, found, seg);
            s2 = ",";
        }
        printf("],\"near\":[");
        s2 = "";
        for (auto *m : *n->NearNodes) { printf("%s%d", s2, node_id(ids, m)); s2 = ","; }
        printf("],\"far\":[");
        s2 = "";
        for (auto *m : *n->FarNodes) {
            // a far cell: its box, centres and the leaves below it
            printf("%s{\"box\":", s2);
            s2 = ",";
            arr({m->x, m->y, m->w, m->h});
            printf(",\"p\":"); arr({m->CMp.r.x, m->CMp.r.y, m->CMp.g});
            printf(",\"m\":"); arr({m->CMm.r.x, m->CMm.r.y, m->CMm.g});
            printf(",\"leaves\":[");
            const char *s3 = "";
            std::vector<const TSortedNode *> st{m};
            while (!st.empty()) {
                auto *q = st.back();
                st.pop_back();
                if (q->ch1) { st.push_back(q->ch2); st.push_back(q->ch1); continue; }
                printf("%s%d", s3, node_id(ids, q));
                s3 = ",";
            }
            printf("]}");
        }
        printf("],\"p\":"); arr({n->CMp.r.x, n->CMp.r.y, n->CMp.g});
        printf(",\"m\":"); arr({n->CMm.r.x, n->CMm.r.y, n->CMm.g});
        printf("}");
    }
    printf("],");
    // where points are looked up
    printf("\"find\":[");
    sep = "";
    auto find = [&](TVec p) { printf("%s%d", sep, node_id(ids, t.findNode(p))); sep = ","; };
    for (auto &o : S->VortexList) find(o.r);
    printf("],");
    list("vort", S->VortexList);
    list("heat", S->HeatList);
    list("streak", S->StreakList);
    if (points) {
        printf("\"moving\":{");
        moving_json("vort", S->VortexList);
        moving_json("heat", S->HeatList);
        moving_json("streak", S->StreakList);
        printf("\"points\":[");
        sep = "";
        for (size_t k = 0; k < points->size(); k++) {
            printf("%s{\"leaf\":%d,\"v\":", sep, node_id(ids, t.findNode((*points)[k])));
            arr({there[k].x, there[k].y});
            printf("}");
            sep = ",";
        }
        printf("],\"fric\":[");
        sep = "";
        for (auto &b : S->BodyList) {
            printf("%s[", sep);
            sep = ",";
            const char *s2 = "";
            for (auto &a : b->alist) { printf("%s", s2); num(a.fric); s2 = ","; }
            printf("]");
        }
        printf("]},");
    }
    printf("\"n\":%zu}\n", bn.size());
    t.destroy();
}

// a map as numbers, or that it was refused
template <class F> static void map_json(const char *name, F &f, int nx, int ny)
{
    printf("\"%s\":", name);
    try {
        f.evaluate();
    } catch (const std::invalid_argument &) {
        printf("\"refused\",");
        return;
    }
    printf("[");
    for (int j = 0; j < ny; j++)
        for (int i = 0; i < nx; i++) { if (i || j) printf(","); num(f.at(i, j)); }
    printf("],");
}
static void maps_json(char frame, double mult, double x, double y, double d, int nx, int ny)
{
    printf("{");
    for (char m : {'x', 'y'}) {
        XVelocity f(*S, x, y, d, nx, ny);
        f.mode = m; f.ref_frame = frame;
        map_json(m == 'x' ? "vx" : "vy", f, nx, ny);
    }
    { XStreamfunction f(*S, x, y, d, nx, ny); f.eps_mult = mult; f.ref_frame = frame; map_json("psi", f, nx, ny); }
    { XVorticity f(*S, x, y, d, nx, ny); f.eps_mult = mult; map_json("om", f, nx, ny); }
    { XPressure f(*S, x, y, d, nx, ny); f.eps_mult = mult; f.ref_frame = frame; map_json("cp", f, nx, ny); }
    { XPressure f(*S, x, y, d, nx, ny); f.eps_mult = mult; f.ref_frame = 's'; map_json("cps", f, nx, ny); }
    printf("\"at\":[");
    for (int j = 0; j < ny; j++)
        for (int i = 0; i < nx; i++) {
            if (i || j) printf(",");
            num(XStreamfunction::streamfunction(*S, TVec(x + i * d, y + j * d)));
        }
    printf("]}\n");
}

static double rd(std::istream &in)
{
    string s;
    in >> s;
    return strtod(s.c_str(), NULL);
}
static TVec3D rd3(std::istream &in) { double a = rd(in), b = rd(in), c = rd(in); return TVec3D(a, b, c); }

int main()
{
    string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        string op;
        if (!(in >> op)) continue;
        try {
            if (op == "new") {
                S.reset(new Space());
                fm.reset(new MFlowmove(S.get()));
                double dl = rd(in);
                (void)dl;
                collision = nullptr;
                tr.reset();
                conv.reset();
            } else if (op == "set") {
                string f;
                in >> f;
                if (f == "re") S->re = rd(in);
                else if (f == "pr") S->pr = rd(in);
                else if (f == "inf_g") S->inf_g = rd(in);
                else if (f == "inf_vx") { string e; in >> e; S->inf_vx = e; }
                else if (f == "inf_vy") { string e; in >> e; S->inf_vy = e; }
                else if (f == "finish") S->finish = rd(in);
                else if (f == "caption") S->caption = unhex(in);
                else if (f == "inf_vx_text") S->inf_vx = unhex(in);
                else if (f == "inf_vy_text") S->inf_vy = unhex(in);
                else if (f == "marker") { double a = rd(in); S->inf_marker = TVec(a, rd(in)); }
                else if (f == "gravity") { double a = rd(in); S->gravity = TVec(a, rd(in)); }
                else {
                    int v; unsigned s;
                    in >> v >> s;
                    if (f == "time") S->time = TTime(v, s);
                    else if (f == "dt") S->dt = TTime(v, s);
                    else if (f == "dt_streak") S->dt_streak = TTime(v, s);
                    else if (f == "dt_save") S->dt_save = TTime(v, s);
                    else if (f == "dt_profile") S->dt_profile = TTime(v, s);
                    else return 3;
                }
            } else if (op == "body") {
                size_t n;
                in >> n;
                auto b = std::make_shared<TBody>();
                for (size_t k = 0; k < n; k++) {
                    double x = rd(in), y = rd(in);
                    int slip;
                    in >> slip;
                    b->alist.emplace_back(x, y, slip);
                }
                b->doUpdateSegments();
                b->doFillProperties();
                S->BodyList.push_back(b);
                S->EnumerateBodies();
            } else if (op == "bset") {
                int k;
                string f;
                in >> k >> f;
                TBody &b = *S->BodyList.at(k);
                if (f == "holder") b.holder = rd3(in);
                else if (f == "dpos") b.dpos = rd3(in);
                else if (f == "speed") b.speed_slae = rd3(in);
                else if (f == "speed_prev") b.speed_slae_prev = rd3(in);
                else if (f == "kspring") b.kspring = rd3(in);
                else if (f == "damping") b.damping = rd3(in);
                else if (f == "cmin") b.collision_min = rd3(in);
                else if (f == "cmax") b.collision_max = rd3(in);
                else if (f == "bounce") b.bounce = rd(in);
                else if (f == "density") b.density = rd(in);
                else if (f == "g_dead") b.g_dead = rd(in);
                else if (f == "fdt_dead") b.fdt_dead = rd3(in);
                else if (f == "special") b.special_segment_no = (int)rd(in);
                else if (f == "root") { int r; in >> r; if (r < 0) b.root_body.reset(); else b.root_body = S->BodyList.at(r); }
                else if (f == "vx") { string e; in >> e; b.speed_x = e; }
                else if (f == "vy") { string e; in >> e; b.speed_y = e; }
                else if (f == "vo") { string e; in >> e; b.speed_o = e; }
                else if (f == "label") b.label = unhex(in);
                else if (f == "vx_text") b.speed_x = unhex(in);
                else if (f == "vy_text") b.speed_y = unhex(in);
                else if (f == "vo_text") b.speed_o = unhex(in);
                else if (f == "fo_text") b.force_o = unhex(in);
                else if (f == "fholder") b.force_holder = rd3(in);
                else if (f == "fo") { string e; in >> e; b.force_o = e; }
                else if (f == "kutta") b.boundary_condition = rd(in) ? bc_t::kutta : bc_t::steady;
                else if (f == "friction_prev") b.friction_prev = rd3(in);
                else if (f == "friction") b.friction = rd3(in);
                else if (f == "hydro") b.force_hydro = rd3(in);
                else if (f == "heat") { int h; in >> h; b.heat_condition = (hc_t)h; }
                else return 3;
            } else if (op == "seg") {
                int k, i;
                string f;
                in >> k >> i >> f;
                TAtt &a = S->BodyList.at(k)->alist.at(i);
                double x = rd(in);
                if (f == "g") a.g = x;
                else if (f == "gsum") a.gsum = x;
                else if (f == "hsum") a.hsum = x;
                else if (f == "fric") a.fric = x;
                else if (f == "Cp") a.Cp = x;
                else if (f == "Fr") a.Fr = x;
                else if (f == "Nu") a.Nu = x;
                else if (f == "heat_const") a.heat_const = x;
                else if (f == "slip") { a.slip = (x != 0); S->BodyList.at(k)->doFillProperties(); }
                else return 3;
            } else if (op == "vort" || op == "heat" || op == "streak" || op == "src" || op == "ssrc") {
                double x = rd(in), y = rd(in), g = rd(in), vx = rd(in), vy = rd(in);
                TObj o(x, y, g);
                o.v = TVec(vx, vy);
                (op == "vort" ? S->VortexList : op == "heat" ? S->HeatList : op == "streak" ? S->StreakList
                 : op == "src" ? S->SourceList : S->StreakSourceList).push_back(o);
            } else if (op == "flow") {
                // velocities of a list: v = (a + b y, c + d x)
                string l; in >> l;
                double a = rd(in), b = rd(in), c = rd(in), d = rd(in);
                for (auto &o : l == "vort" ? S->VortexList : l == "heat" ? S->HeatList : S->StreakList)
                    o.v = TVec(a + b * o.r.y, c + d * o.r.x);
            } else if (op == "vortex_shed") fm->vortex_shed();
            else if (op == "heat_shed") fm->heat_shed();
            else if (op == "streak_shed") fm->streak_shed();
            else if (op == "heat_crop") { double s = rd(in); if (s > 0) fm->heat_crop(s); else fm->heat_crop(); }
            else if (op == "move") {
                int remove;
                in >> remove;
                size_t n = 0;
                fm->move_and_clean(remove, &collision, &n);
                printf("{\"cleaned\":%zu}\n", n);
                fflush(stdout);
                continue;
            } else if (op == "calc_forces") S->calc_forces();
            else if (op == "zero_forces") S->zero_forces();
            else if (op == "step") S->finish_step();
            else if (op == "eps") {
                // build, sizes and merging, destroy
                int merge; double mn, mx;
                in >> merge;
                mn = rd(in); mx = rd(in);
                TSortedTree t(S.get(), 8, mn, mx);
                t.build();
                MEpsilonFast e(S.get(), &t);
                e.CalcEpsilonFast(merge);
                int n = e.Merged();
                t.destroy();
                printf("{\"merged\":%d}\n", n);
                fflush(stdout);
                continue;
            } else if (op == "solve" || op == "conv" || op == "diff" || op == "hdiff") {
                // one solver for the life of the space, as in a run
                double dl = S->average_segment_length();
                if (!tr) {
                    tr.reset(new TSortedTree(S.get(), 8, dl > 0 ? dl * 5 : 0, dl > 0 ? dl * 100 : std::numeric_limits<double>::max()));
                    conv.reset(new MConvectiveFast(S.get(), tr.get()));
                }
                tr->build();
                MEpsilonFast(S.get(), tr.get()).CalcEpsilonFast(false);
                if (op == "solve") conv->calc_circulation(&collision);
                if (op == "conv") conv->process_all_lists();
                if (op == "diff") MDiffusiveFast(S.get(), tr.get()).process_vort_list();
                if (op == "hdiff") MDiffusiveFast(S.get(), tr.get()).process_heat_list();
                tr->destroy();
            } else if (op == "both") {
                // the unknowns found by a new solver and by the one used all along
                double dl = S->average_segment_length();
                if (!tr) {
                    tr.reset(new TSortedTree(S.get(), 8, dl > 0 ? dl * 5 : 0, dl > 0 ? dl * 100 : std::numeric_limits<double>::max()));
                    conv.reset(new MConvectiveFast(S.get(), tr.get()));
                }
                tr->build();
                MEpsilonFast(S.get(), tr.get()).CalcEpsilonFast(false);
                std::vector<double *> at;
                for (auto &b : S->BodyList) {
                    for (auto &a : b->alist) at.push_back(&a.g);
                    for (TVec3D *v : {&b->speed_slae, &b->force_hydro, &b->force_holder})
                        for (double *x : {&v->r.x, &v->r.y, &v->o}) at.push_back(x);
                }
                std::vector<double> fresh, used, old;
                int times = 0;
                do { // again after a collision, as the main loop does
                    old.clear();
                    for (double *x : at) old.push_back(*x);
                    const void *col = collision;
                    { MConvectiveFast once(S.get(), tr.get()); once.calc_circulation(&collision); }
                    for (size_t k = 0; k < at.size(); k++) { fresh.push_back(*at[k]); *at[k] = old[k]; }
                    collision = col;
                    conv->calc_circulation(&collision);
                    for (double *x : at) used.push_back(*x);
                } while (collision && ++times < 2);
                printf("{\"new\":[");
                for (size_t k = 0; k < fresh.size(); k++) { if (k) printf(","); num(fresh[k]); }
                printf("],\"used\":[");
                for (size_t k = 0; k < used.size(); k++) { if (k) printf(","); num(used[k]); }
                printf("],\"hits\":%d}\n", times);
                tr->destroy();
                fflush(stdout);
                continue;
            } else if (op == "tree") {
                int far; double mn, mx; int v, b, h;
                in >> far;
                mn = rd(in); mx = rd(in);
                in >> v >> b >> h;
                tree_json(far, mn, mx, v, b, h);
                fflush(stdout);
                continue;
            } else if (op == "motion" || op == "spread" || op == "moving") {
                double mn = rd(in), mx = rd(in);
                size_t n;
                in >> n;
                std::vector<TVec> p;
                for (size_t k = 0; k < n; k++) { double x = rd(in); p.push_back(TVec(x, rd(in))); }
                tree_json(8, mn, mx, true, true, true, &p, op);
                fflush(stdout);
                continue;
            } else if (op == "maps") {
                string frame;
                in >> frame;
                double mult = rd(in), x = rd(in), y = rd(in), d = rd(in);
                int nx, ny;
                in >> nx >> ny;
                maps_json(frame[0], mult, x, y, d, nx, ny);
                fflush(stdout);
                continue;
            } else if (op == "clear") {
                string l; in >> l;
                if (l == "body") { S->BodyList.clear(); S->EnumerateBodies(); collision = nullptr; }
                else (l == "vort" ? S->VortexList : l == "heat" ? S->HeatList : l == "streak" ? S->StreakList
                 : l == "src" ? S->SourceList : S->StreakSourceList).clear();
            } else if (op == "erase") { // a body
                int k; in >> k;
                S->BodyList.erase(S->BodyList.begin() + k);
                S->EnumerateBodies();
            } else if (op == "save") { string f; in >> f; S->save(f.c_str());
            } else if (op == "load") { string f; in >> f; S->load(f.c_str()); collision = nullptr;
            } else if (op == "copy") {
                string f, g; in >> f >> g;
                std::ifstream src(f, std::ios::binary);
                std::ofstream(g, std::ios::binary) << src.rdbuf();
            } else if (op == "loadlist" || op == "loadbody" || op == "reload") {
                // answers whether it was refused
                string l, kind, f;
                size_t k = 0;
                int err;
                if (op == "loadlist") {
                    in >> l >> kind >> f;
                    std::vector<TObj> &to = l == "vort" ? S->VortexList : l == "heat" ? S->HeatList : l == "ink" ? S->StreakList
                        : l == "source" ? S->SourceList : S->StreakSourceList;
                    err = kind == "text" ? Space::load_list_txt(to, f.c_str()) : Space::load_list_bin(to, f.c_str());
                } else if (op == "loadbody") {
                    in >> f;
                    err = S->load_body_txt(f.c_str());
                } else {
                    in >> k >> f;
                    err = S->BodyList.at(k)->load_txt(f.c_str());
                }
                printf("{\"refused\":%s}\n", err ? "true" : "false");
                fflush(stdout);
                continue;
            } else if (op == "whole") {
                whole();
                fflush(stdout);
                continue;
            } else if (op == "dump") {
                dump();
                fflush(stdout);
                continue;
            } else {
                fprintf(stderr, "unknown command %s\n", op.c_str());
                return 3;
            }
            printf("ok\n");
        } catch (const std::exception &e) {
            printf("{\"error\":\"%s\"}\n", e.what());
        }
        fflush(stdout);
    }
    return 0;
}
