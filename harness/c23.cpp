// C23: programs that make requests, valid and invalid, each in a process of its own.
#include "fields.h"
#include "Heap.h"
#include "InputOutput.h"
#include "Optimise.h"
#include <fcntl.h>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
using namespace slsm;
namespace nlopt { std::function<result(opt&, std::vector<double>&, double&)> solver; }

struct Req { J j; std::function<void()> go; std::string out; };
struct Prog
{
    std::unique_ptr<LevelSet> ls;
    std::unique_ptr<Heap> heap;
    std::unique_ptr<Boundary> boundary;
    unsigned next;
    std::vector<Req> reqs;
    std::string dir;
    Prog() : next(0) {}
};
static const double NOTANUM = std::nan("");

// turn < 0: anything. Otherwise one of the threshold values of one of the constructors, all else valid.
static Req levelset(Rng& r, bool valid, int turn = -1)
{
    int form = turn >= 0 ? turn / 6 % 6 + 1 : r.in(1, 6), band = valid ? r.pick(std::vector<int>{ 3, 4, 6, 50 }) : r.in(0, 3);
    int move = valid ? r.pick(std::vector<int>{ 1, 100, 500, 999 }) : r.pick(std::vector<int>{ -1000, -1, 0, 1, 500, 999, 1000, 1001, 5000 });
    bool nan = !valid && r.coin(1, 8), fixed = r.coin();
    if (turn >= 0)
    {
        static const int ms[] = { 0, 1000, 500, 1, 999, 500 }, bs[] = { 6, 3, 2, 3, 50, 6 };
        move = ms[turn % 6]; band = bs[turn % 6]; nan = turn % 6 == 5;
    }
    int w = r.in(3, 12), h = r.in(3, 12);
    if (turn >= 0 && form == 1) { w = 75; h = 76; }
    else if (form == 1 || (turn < 0 && r.coin(1, 20)))
    {
        w = r.pick(std::vector<int>{ 75, 76, 90, 104, 105 }); h = r.pick(std::vector<int>{ 75, 80, 100 });
        if (!valid && r.coin(2, 3)) (r.coin() ? w : h) = r.pick(std::vector<int>{ 2, 5, 14, 15, 44, 45, 60, 74 });
        if (!valid && r.coin(1, 3)) { w = r.pick(std::vector<int>{ 1, 14, 15, 74, 75 }); h = r.pick(std::vector<int>{ 1, 14, 15, 74, 75 }); }
        if (!valid && r.coin(3, 4)) { band = 6; move = 500; nan = false; }
    }
    double m = nan ? NOTANUM : move / 1000.0;
    Req q;
    q.j.k("k", "levelset").k("form", form).k("w", w).k("h", h).k("band", band).k("move", move).k("nan", nan);
    bool defaults = band == 6 && move == 500 && !fixed && !nan;
    q.go = [=]()
    {
        std::vector<Hole> a(1, Hole(w / 2.0, h / 2.0, 1.3)), b(1, Hole(w / 3.0, h / 2.0, 1.1));
        std::vector<Coord> p = { Coord(0.7, 0.8), Coord(0.9, h - 0.6), Coord(w - 0.7, h - 0.9), Coord(w - 0.6, 0.7), Coord(0.7, 0.8) };
        switch (form)
        {
            case 1: if (defaults) LevelSet(w, h); else LevelSet(w, h, m, band, fixed); break;
            case 2: if (defaults) LevelSet(w, h, a); else LevelSet(w, h, a, m, band, fixed); break;
            case 3: if (defaults) LevelSet(w, h, p); else LevelSet(w, h, p, m, band, fixed); break;
            case 4: if (defaults) LevelSet(w, h, a, b); else LevelSet(w, h, a, b, m, band, fixed); break;
            case 5: if (defaults) LevelSet(w, h, a, p); else LevelSet(w, h, a, p, m, band, fixed); break;
            default: if (defaults) LevelSet(w, h, p, p); else LevelSet(w, h, p, p, m, band, fixed);
        }
    };
    return q;
}
static Req optimiser(Rng& r, bool valid)
{
    int move = valid ? r.pick(std::vector<int>{ 1, 500, 999 }) : r.pick(std::vector<int>{ -1, 0, 500, 500, 999, 1000, 2000 });
    bool nan = !valid && r.coin(1, 10);
    int np = valid ? r.in(1, 3) : r.in(0, 2), nc = r.in(0, 3), nd = valid ? nc : r.coin() ? nc : r.in(0, 4);
    Req q;
    q.j.k("k", "optimiser").k("move", move).k("nan", nan).k("points", np).k("constraints", nc).k("distances", nd);
    q.go = [=]()
    {
        std::vector<BoundaryPoint> p(np);
        for (auto& b : p) { b.sensitivities.assign(nc + 1, 1.0); b.length = 1; }
        std::vector<double> lambdas(nc + 1, 0.0), dist(nd, 0.1); double step = 0;
        Optimise(p, dist, lambdas, step, nan ? NOTANUM : move / 1000.0);
    };
    return q;
}
static Req field(Rng& r, Prog& p, bool valid)
{
    int kind = valid ? r.in(2, 5) : r.in(0, 1);
    auto v = std::make_shared<std::vector<double>>();
    bool pos = false, neg = false, zero = false;
    double u = r.pick(std::vector<double>{ 1, 1e-5, 1e5 });
    for (unsigned i = 0; i < p.ls->mesh.nNodes; i++)
    {
        int a = r.in(1, 9);
        if (kind == 1 || (kind == 2 && r.coin()) || kind == 4) a = -a;
        if ((kind == 3 || kind == 4) && i == p.ls->mesh.nNodes / 2) a = 0;
        if (kind == 5) a = i == p.ls->mesh.nNodes - 1 ? -a : a;
        pos |= a > 0; neg |= a < 0; zero |= a == 0;
        v->push_back(a * u);
    }
    Req q;
    q.j.k("k", "field").k("pos", pos).k("neg", neg).k("zero", zero);
    LevelSet* ls = p.ls.get();
    q.go = [=]() { ls->signedDistance = *v; };
    return q;
}
static Req save(Rng& r, Prog& p, bool valid, int id)
{
    int fmt = r.in(0, 9), place = valid ? 0 : r.in(1, 2);
    bool numbered = r.coin();
    std::string d = place == 1 ? p.dir + "/none" + std::to_string(id) : p.dir + "/d" + std::to_string(id);
    mkdir((p.dir + "/d" + std::to_string(id)).c_str(), 0700);
    static const char* names[] = { "level-set_0007.vtk", "level-set_0007.vtk", "level-set_0007.txt", "level-set_0007.txt", "level-set_0007.bin", "boundary-points_0007.txt",
                                   "boundary-segments_0007.txt", "area_0007.vtk", "area_0007.txt", "area_0007.txt" };
    std::string name = d + "/" + (numbered ? names[fmt] : "x");
    if (place == 2) mkdir(name.c_str(), 0700);                    // a directory of that name
    Req q;
    q.out = place == 0 ? d + "/" : place == 1 ? d + "/" : "";
    q.j.k("k", "save").k("place", place == 0 ? "file" : "none").k("form", fmt);
    LevelSet* ls = p.ls.get(); Boundary* b = p.boundary.get();
    q.go = [=]()
    {
        InputOutput io;
        if (numbered) switch (fmt)
        {
            case 0: io.saveLevelSetVTK(7u, *ls, false, false, d); break;
            case 1: io.saveLevelSetVTK(7u, *ls, true, true, d); break;
            case 2: io.saveLevelSetTXT(7u, *ls, d); break;
            case 3: io.saveLevelSetTXT(7u, *ls, d, true); break;
            case 4: io.saveLevelSetBIN(7u, *ls, d); break;
            case 5: io.saveBoundaryPointsTXT(7u, *b, d); break;
            case 6: io.saveBoundarySegmentsTXT(7u, *b, d); break;
            case 7: io.saveAreaFractionsVTK(7u, ls->mesh, d); break;
            case 8: io.saveAreaFractionsTXT(7u, ls->mesh, d); break;
            default: io.saveAreaFractionsTXT(7u, ls->mesh, d, true);
        }
        else switch (fmt)
        {
            case 0: io.saveLevelSetVTK(name, *ls, false, false); break;
            case 1: io.saveLevelSetVTK(name, *ls, true, true); break;
            case 2: io.saveLevelSetTXT(name, *ls); break;
            case 3: io.saveLevelSetTXT(name, *ls, true); break;
            case 4: io.saveLevelSetBIN(name, *ls); break;
            case 5: io.saveBoundaryPointsTXT(name, *b); break;
            case 6: io.saveBoundarySegmentsTXT(name, *b); break;
            case 7: io.saveAreaFractionsVTK(name, ls->mesh); break;
            case 8: io.saveAreaFractionsTXT(name, ls->mesh); break;
            default: io.saveAreaFractionsTXT(name, ls->mesh, true);
        }
    };
    return q;
}
static Req load(Rng& r, Prog& p, bool valid, int id)
{
    static const char* forms[] = { "txt", "txtxy", "bin" };
    int want = r.in(0, 2), form = want, n = p.ls->mesh.nNodes, records = n, ragged = 0, place = 0;
    bool numbered = r.coin();
    if (!valid) switch (r.in(0, 5))
    {
        case 0: place = r.in(1, 2); break;
        case 1: records = r.pick(std::vector<int>{ 0, 1, n - 1, n + 1, 2 * n, n - 2, n + 7 }); break;
        case 2: form = want == 0 ? 1 : 0; if (want == 2) { form = 2; ragged = r.in(1, 7); } break;
        case 3: ragged = want == 2 ? r.in(1, 7) : r.in(1, 5); break;
        case 4: records = r.coin() ? n - 1 : n + 1; ragged = r.in(0, 2); break;
        default: records = r.in(0, 2 * n);
    }
    std::string d = p.dir + "/l" + std::to_string(id);
    mkdir(d.c_str(), 0700);
    std::string name = d + "/" + (numbered ? (want == 2 ? "level-set_0012.bin" : "level-set_0012.txt") : "x");
    bool pos = false, neg = false, zero = false;
    if (place == 2) mkdir(name.c_str(), 0700);
    if (place == 0)
    {
        FILE* f = fopen(name.c_str(), form == 2 ? "wb" : "w");
        for (int i = 0; i < records; i++)
        {
            double v = (i % 3 == 1 ? -1 : 1) * r.in(1, 40) / 8.0;
            pos |= v > 0; neg |= v < 0;
            if (form == 2) { fwrite(&v, 8, 1, f); continue; }
            if (form == 1) fprintf(f, "%f %f ", (double)i, 1.0);
            bool mid = i == records / 2;
            if (ragged == 1 && mid) fprintf(f, "%f %f\n", v, 0.0);                       // one number short
            else if (ragged == 2 && mid) fprintf(f, "%f %f %f %f\n", v, 0.0, 0.0, 1.0);  // one too many
            else if (ragged == 3 && mid) fprintf(f, "%f abc %f\n", v, 0.0);              // not a number
            else if (ragged == 4 && mid) fprintf(f, "\n");                               // an empty line
            else if (ragged == 5 && i == records - 1) fprintf(f, "%f 0.0", v);           // cut off
            else fprintf(f, "%f %f %f%s", v, 0.5, 1.0, i == records - 1 && r.coin() ? "" : "\n");
        }
        if (form == 2) fwrite("abcdefgh", 1, ragged, f);
        if (form != 2 && records == 0) ragged = 0;
        fclose(f);
    }
    Req q;
    q.j.k("k", "load").k("place", place ? "none" : "file").k("form", forms[form]).k("want", forms[want]).k("records", records).k("nodes", n).k("ragged", ragged)
        .k("pos", pos).k("neg", neg).k("zero", zero);
    LevelSet* ls = p.ls.get();
    q.go = [=]()
    {
        InputOutput io;
        if (numbered) { if (want == 2) io.loadLevelSetBIN(12u, *ls, d); else io.loadLevelSetTXT(12u, *ls, d, want == 1); }
        else { if (want == 2) io.loadLevelSetBIN(name, *ls); else io.loadLevelSetTXT(name, *ls, want == 1); }
    };
    return q;
}
static Req heap(Rng& r, Prog& p, const char* what, int cap)
{
    Req q;
    q.j.k("k", what);
    Prog* pp = &p;
    std::string w = what;
    bool test = r.coin(); int v = r.in(-5, 5);
    if (w == "heap") { q.j.k("cap", cap); q.go = [=]() { pp->heap.reset(new Heap(cap, test)); pp->next = 0; }; }
    else if (w == "push") q.go = [=]() { pp->heap->push(pp->next++, v); };
    else if (w == "pop") q.go = [=]() { unsigned a; double d; pp->heap->pop(a, d); };
    else q.go = [=]() { volatile double d = pp->heap->peek(); (void)d; };
    return q;
}
static void program(Rng& r, int id, int theme, int turn = -1)
{
    Prog p;
    p.dir = SCRATCH + "/c23_" + std::to_string(id);
    mkdir(p.dir.c_str(), 0700);
    int w = r.in(2, 6), h = r.in(2, 6);
    p.ls.reset(new LevelSet(w, h, Holder::hole(w, h), 0.5, 3 + r.in(0, 3), r.coin(1, 3)));
    p.boundary.reset(new Boundary);
    p.boundary->discretise(*p.ls);
    p.ls->computeAreaFractions(*p.boundary);
    int n = turn >= 0 ? 1 : r.in(1, 6), live = 0, cap = 0;
    p.reqs.push_back(heap(r, p, "heap", cap = r.in(0, 3)));
    for (int i = 0; i < n; i++)
    {
        bool valid = i < n - 1 ? r.coin(6, 7) : r.coin(1, 3);
        int k = theme ? theme : r.in(1, 6);
        if (k == 1) p.reqs.push_back(levelset(r, valid, turn));
        else if (k == 2) p.reqs.push_back(optimiser(r, valid));
        else if (k == 3)
        {
            p.reqs.push_back(field(r, p, valid));
            Req q; q.j.k("k", "reinit"); LevelSet* ls = p.ls.get(); q.go = [=]() { ls->reinitialise(); };
            p.reqs.push_back(q);
        }
        else if (k == 4) p.reqs.push_back(save(r, p, valid, i));
        else if (k == 5)
        {
            p.reqs.push_back(load(r, p, valid, i));
            if (r.coin(1, 4)) { Req q; q.j.k("k", "reinit"); LevelSet* ls = p.ls.get(); q.go = [=]() { ls->reinitialise(); }; p.reqs.push_back(q); }
        }
        else for (int s = 0; s < 3; s++)
        {
            const char* what = r.pick(std::vector<const char*>{ "push", "pop", "peek", "push", "heap" });
            std::string t = what;
            if (valid && t == "push" && live >= cap) what = "heap";
            if (valid && (t == "pop" || t == "peek") && live == 0) what = live < cap ? "push" : "heap";
            t = what;
            if (t == "heap") { cap = r.in(1, 4); live = 0; }
            if (t == "push") live++;
            if (t == "pop") live--;
            p.reqs.push_back(heap(r, p, what, cap));
        }
    }
    T.begin("program " + std::to_string(id));
    std::string mark = p.dir + "/mark";
    int fd = open(mark.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    ChildResult c = inChild([&]() { for (auto& q : p.reqs) { q.go(); if (write(fd, "x", 1) != 1) _exit(77); } });
    ::close(fd);
    struct stat st; stat(mark.c_str(), &st);
    std::string reqs = "[";
    std::vector<bool> out;
    for (size_t i = 0; i < p.reqs.size(); i++)
    {
        reqs += (i ? "," : "") + p.reqs[i].j.str();
        bool made = false;
        if (!p.reqs[i].out.empty()) { std::string cmd = "find '" + p.reqs[i].out + "' -type f 2>/dev/null | grep -q ."; made = system(cmd.c_str()) == 0; }
        out.push_back(made);
    }
    bool error = c.err.find("[ERROR]") != std::string::npos;
    std::string end = c.timeout ? "hung" : !c.exited ? "killed" : c.code == 1 && error ? "refused" : c.code == 0 && !error ? "finished" : "other";
    T.rec(J().k("ev", "program").raw("reqs", reqs + "]").k("served", (int)st.st_size).k("end", end).k("out", out));
    std::string rm = "rm -rf '" + p.dir + "'";
    if (p.dir.find("/c23_") != std::string::npos && system(rm.c_str())) {}
}
static void run(uint64_t seed, bool thorough)
{
    Rng r(seed);
    for (int n = 0; n < 36; n++) program(r, 100000 + n, 1, n);
    static const int themes[] = { 0, 1, 2, 3, 4, 5, 5, 5, 6, 1 };
    for (int n = 0; n < (thorough ? 6000 : 700); n++) program(r, n, themes[n % 10]);
}
static Reg reg("C23", run);
