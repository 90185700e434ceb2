// C16: histories of saves and loads of two level sets.
#include "fields.h"
#include "InputOutput.h"
#include <dirent.h>
#include <fstream>
#include <map>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace slsm;

static std::vector<int> bits(const std::vector<double>& v)
{
    uint64_t h = 1469598103934665603ull;
    for (double d : v) { uint64_t b; memcpy(&b, &d, 8); for (int i = 0; i < 8; i++) { h ^= (b >> (8 * i)) & 0xff; h *= 1099511628211ull; } h ^= h >> 29; }
    return { (int)v.size(), (int)(h & 0x3fffffff), (int)((h >> 30) & 0x3fffffff) };
}
static std::vector<int> m6(const std::vector<double>& v) { std::vector<int> r; for (double d : v) r.push_back(fx(d, 1e6)); return r; }
static std::string slurp(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream s; s << i.rdbuf(); return s.str(); }
static void list(const std::string& d, std::map<std::string, std::string>& m)
{
    DIR* p = opendir(d.empty() ? "." : d.c_str());
    if (!p) return;
    while (dirent* e = readdir(p))
    {
        std::string n = e->d_name, q = d.empty() ? n : d + "/" + n;
        if (n == "." || n == "..") continue;
        struct stat st;
        if (!stat(q.c_str(), &st) && S_ISDIR(st.st_mode)) list(q, m); else m[q] = slurp(q);
    }
    closedir(p);
}
struct Obj
{
    LevelSet ls;
    Boundary b;
    static std::vector<Hole> hole(int w, int h) { std::vector<Hole> v; v.push_back(Hole(0.5 * w, 0.5 * h, 0.7)); return v; }
    Obj(int w, int h) : ls(w, h, hole(w, h), 0.5, 6, false) {}
    std::string state()
    {
        Mesh& m = ls.mesh;
        std::vector<std::vector<int> > xy, exy;
        std::vector<int> row, erow, area, flags;
        for (auto& n : m.nodes) { xy.push_back({ fx(n.coord.x, 1e6), fx(n.coord.y, 1e6) }); flags.push_back(n.isActive + 2 * n.isMine + 4 * n.isMasked); }
        for (auto& e : m.elements) { exy.push_back({ fx(e.coord.x, 1e6), fx(e.coord.y, 1e6) }); area.push_back(fx(e.area, 1e6)); }
        // Which node (element) belongs at each place of a grid that runs along x first.
        std::vector<int> at((m.width + 1) * (m.height + 1)), eat(m.width * m.height);
        for (unsigned i = 0; i < m.nNodes; i++) at[(int)m.nodes[i].coord.x + (int)m.nodes[i].coord.y * (m.width + 1)] = i + 1;
        for (unsigned i = 0; i < m.nElements; i++) eat[(int)m.elements[i].coord.x + (int)m.elements[i].coord.y * m.width] = i + 1;
        return J().k("bits", bits(ls.signedDistance)).k("phi", m6(ls.signedDistance)).k("vel", m6(ls.velocity)).k("grad", m6(ls.gradient))
                  .k("xy", xy).k("exy", exy).k("row", at).k("erow", eat).k("area", area).k("flags", flags).str();
    }
};
// Fill with values that text rounds and binary keeps.
static void change(Rng& r, Obj& o)
{
    for (auto& v : o.ls.signedDistance)
    {
        int k = r.in(0, 9);
        v = k == 0 ? -0.0 : k == 1 ? 1e-300 : k == 2 ? r.in(-3, 3) : k == 3 ? 1e-7 * r.in(-50, 50) : (r.u() - 0.5) * (k == 4 ? 1500 : 7);
    }
    for (auto& v : o.ls.velocity) v = (r.u() - 0.5) * 4;
    for (auto& v : o.ls.gradient) v = r.u();
    o.b = Boundary();
    o.b.discretise(o.ls);
    o.ls.computeAreaFractions(o.b);
}
static bool numeric(const std::string& s, double& v) { char* e; v = strtod(s.c_str(), &e); return !s.empty() && !*e; }
static std::string vtk(const std::string& text)
{
    // Header comment lines, then tokens.
    std::istringstream in(text);
    std::string line, head = "[", blocks = "[", tok;
    std::vector<std::string> h;
    for (int i = 0; i < 3; i++) std::getline(in, line);
    in >> tok; in >> tok;                              // DATASET RECTILINEAR_GRID
    bool ok = tok == "RECTILINEAR_GRID";
    while (in >> tok && tok != "SCALARS")
    {
        double v;
        head += (head.size() > 1 ? "," : "") + (numeric(tok, v) ? std::to_string((int)v) : "\"" + tok + "\"");
    }
    while (in && tok == "SCALARS")
    {
        std::string name, type, comps, table, deflt;
        in >> name >> type >> comps >> table >> deflt;
        ok &= type == "float" && comps == "1" && table == "LOOKUP_TABLE" && deflt == "default";
        std::vector<int> v;
        double d;
        tok.clear();
        while (in >> tok && numeric(tok, d)) v.push_back(fx(d, 1e6));
        blocks += std::string(blocks.size() > 1 ? "," : "") + J().k("name", name).k("v", v).str();
    }
    return J().raw("head", (ok ? head : "[0") + "]").raw("blocks", blocks + "]").str();
}
static void run(uint64_t seed, bool th)
{
    Rng r(seed);
    InputOutput io;
    for (int n = 0; n < (th ? 300 : 60); n++)
    {
        std::string base = SCRATCH + "/h" + std::to_string(n);
        if (mkdir(base.c_str(), 0755) || chdir(base.c_str()) || mkdir("out", 0755) || mkdir("out/deep", 0755)) { perror("scratch"); exit(90); }
        bool big = n % 20 == 19;
        int w = r.in(1, big ? 40 : 6), h = r.in(1, big ? 40 : 6);
        T.begin("history " + std::to_string(n));
        Obj a(w, h), b(w, h);
        Obj* o[2] = { &a, &b };
        change(r, a); change(r, b);
        auto objs = [&] { return "[" + a.state() + "," + b.state() + "]"; };
        T.rec(J().k("ev", "start").k("new", true).raw("objs", objs()));
        struct Saved { std::string form, name, dir; int number; bool xy; };
        std::vector<Saved> saved;
        for (int s = big ? r.in(3, 5) : r.in(6, 14); s > 0; s--)
        {
            int k = r.in(0, 1), op = r.in(0, 9);
            LevelSet& ls = o[k]->ls;
            std::map<std::string, std::string> before, after;
            list("", before);
            if (op < 2)
            {
                change(r, *o[k]);
                T.rec(J().k("ev", "change").k("new", false).k("obj", k + 1).raw("state", o[k]->state()));
                continue;
            }
            if (op < 5 && !saved.empty())
            {
                Saved q = r.pick(saved);
                if (q.form != "lsbin" && q.form != "lstxt") continue;
                bool txt = q.form == "lstxt", byName = q.number < 0 || r.coin(1, 3);
                if (!byName) { unsigned dp = q.number; if (txt) io.loadLevelSetTXT(dp, ls, q.dir, q.xy); else io.loadLevelSetBIN(dp, ls, q.dir); }
                else { if (txt) io.loadLevelSetTXT(q.name, ls, q.xy); else io.loadLevelSetBIN(q.name, ls); }
                list("", after);
                std::vector<std::string> ch;
                for (auto& f : after) if (!before.count(f.first) || before[f.first] != f.second) ch.push_back(f.first);
                T.rec(J().k("ev", "load").k("new", false).k("obj", k + 1).k("form", q.form).k("name", q.name).k("dir", q.dir).k("number", byName ? -1 : q.number)
                         .k("xy", q.xy).k("changed", ch).raw("state", o[k]->state()).raw("objs", objs()));
                continue;
            }
            Saved q;
            q.form = r.pick(std::vector<std::string>{ "lsbin", "lsbin", "lstxt", "lstxt", "lsvtk", "lsvtk", "points", "segments", "areavtk", "areatxt" });
            q.dir = r.pick(std::vector<std::string>{ "", "out", "out/deep" });
            q.xy = (q.form == "lstxt" || q.form == "areatxt") && r.coin();
            bool numbered = r.coin(2, 3), again = false;
            if (!saved.empty() && r.coin(1, 2))                 // write a file anew
            {
                Saved p = r.pick(saved);
                again = true;
                q.form = p.form; q.dir = p.dir; q.xy = (p.form == "lstxt" || p.form == "areatxt") && r.coin();
                numbered = p.number >= 0; q.number = p.number; q.name = p.name;
            }
            bool iv = q.form == "lsvtk" && r.coin(), ig = q.form == "lsvtk" && r.coin();
            std::string ext = q.form == "lsbin" ? ".bin" : q.form == "lsvtk" || q.form == "areavtk" ? ".vtk" : ".txt";
            q.number = again ? q.number : numbered ? r.pick(std::vector<int>{ 0, 7, 10, 99, 100, 999, 1000, 9999, 12345 }) : -1;
            if (numbered)
            {
                unsigned d = q.number;
                if (q.form == "lsbin") io.saveLevelSetBIN(d, ls, q.dir);
                else if (q.form == "lstxt") io.saveLevelSetTXT(d, ls, q.dir, q.xy);
                else if (q.form == "lsvtk") io.saveLevelSetVTK(d, ls, iv, ig, q.dir);
                else if (q.form == "points") io.saveBoundaryPointsTXT(d, o[k]->b, q.dir);
                else if (q.form == "segments") io.saveBoundarySegmentsTXT(d, o[k]->b, q.dir);
                else if (q.form == "areavtk") io.saveAreaFractionsVTK(d, ls.mesh, q.dir);
                else io.saveAreaFractionsTXT(d, ls.mesh, q.dir, q.xy);
                // The documented name, for reading back and for the record.
                char num[32]; snprintf(num, sizeof num, "%04d", q.number);
                std::string pre = q.form == "points" ? "boundary-points_" : q.form == "segments" ? "boundary-segments_" : q.form[0] == 'a' ? "area_" : "level-set_";
                q.name = (q.dir.empty() ? "" : q.dir + "/") + pre + num + ext;
            }
            else
            {
                if (!again) q.name = (q.dir.empty() ? "" : q.dir + "/") + std::string(1, "pqr"[r.in(0, 2)]) + "-" + q.form;
                if (q.form == "lsbin") io.saveLevelSetBIN(q.name, ls);
                else if (q.form == "lstxt") io.saveLevelSetTXT(q.name, ls, q.xy);
                else if (q.form == "lsvtk") io.saveLevelSetVTK(q.name, ls, iv, ig);
                else if (q.form == "points") io.saveBoundaryPointsTXT(q.name, o[k]->b);
                else if (q.form == "segments") io.saveBoundarySegmentsTXT(q.name, o[k]->b);
                else if (q.form == "areavtk") io.saveAreaFractionsVTK(q.name, ls.mesh);
                else io.saveAreaFractionsTXT(q.name, ls.mesh, q.xy);
            }
            list("", after);
            std::vector<std::string> ch, ex;
            for (auto& f : after) { ex.push_back(f.first); if (!before.count(f.first) || before[f.first] != f.second) ch.push_back(f.first); }
            std::string text = after.count(q.name) ? after[q.name] : "";
            std::vector<double> raw(text.size() / 8);
            if (q.form == "lsbin" && text.size() % 8 == 0 && !text.empty()) memcpy(&raw[0], text.data(), text.size());
            std::vector<int> tok;
            if (ext == ".txt") { std::istringstream in(text); std::string t; double d; while (in >> t) tok.push_back(numeric(t, d) ? fx(d, 1e6) : BIG); }
            // How many values each line that is not empty holds.
            std::vector<int> perLine;
            if (ext == ".txt") { std::istringstream in(text); std::string t, v; while (std::getline(in, t)) { std::istringstream l(t); int c = 0; while (l >> v) c++; if (c) perLine.push_back(c); } }
            std::vector<std::vector<int> > pts, segs;
            std::vector<int> len;
            for (auto& p : o[k]->b.points) { pts.push_back({ fx(p.coord.x, 1e6), fx(p.coord.y, 1e6) }); len.push_back(fx(p.length, 1e6)); }
            for (auto& p : o[k]->b.segments) segs.push_back({ (int)p.start + 1, (int)p.end + 1 });
            T.rec(J().k("ev", "save").k("new", false).k("obj", k + 1).k("form", q.form).k("name", q.name).k("dir", q.dir).k("number", q.number).k("w", w).k("h", h)
                     .k("xy", q.xy).k("isVel", iv).k("isGrad", ig).k("changed", ch).k("exist", ex).k("bits", bits(raw)).k("t", tok).k("perLine", perLine).raw("vtk", ext == ".vtk" ? vtk(text) : "[]")
                     .raw("boundary", J().k("pts", pts).k("len", len).k("segs", segs).str()).raw("objs", objs()));
            // A later save of another form under the same name replaces it.
            for (size_t i = 0; i < saved.size();) if (saved[i].name == q.name) saved.erase(saved.begin() + i); else i++;
            saved.push_back(q);
        }
        if (chdir(SCRATCH.c_str())) exit(90);
    }
}
static Reg reg("C16", run);
