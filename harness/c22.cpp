// C22: histories of operations on several objects; every operation is repeated on objects made for it.
#include "fields.h"
#include "InputOutput.h"
#include "Sensitivity.h"
#include <fstream>
#include <sstream>
#include <iterator>
#include <map>
#include <memory>
#include <unistd.h>
using namespace slsm;

struct Par { int w, h, band; double move; bool fixed; };
struct Obj { std::unique_ptr<LevelSet> ls; Par par; };
struct World { Obj ls[3]; Boundary bd[3]; };

static std::vector<int> dg(const std::vector<double>& v) { return digest(v); }
typedef std::map<std::string, std::vector<int>> Parts;
static Parts parts(const Obj& o)
{
    const LevelSet& s = *o.ls; const Mesh& m = s.mesh;
    std::vector<double> X = { (double)m.width, (double)m.height, (double)m.nNodes, (double)m.nElements, (double)o.par.band, s.moveLimit, (double)o.par.fixed }, M, B, S, A;
    for (auto& n : m.nodes)
    {
        X.push_back(n.coord.x); X.push_back(n.coord.y); X.push_back(n.isDomain); X.push_back(n.nElements);
        for (unsigned k : n.neighbours) X.push_back(k);
        for (unsigned k = 0; k < n.nElements; k++) X.push_back(n.elements[k]);
        M.push_back(n.isMasked);
        B.push_back(n.isActive); B.push_back(n.isMine);
        S.push_back((int)n.status); S.push_back(n.nBoundaryPoints);
        for (unsigned k = 0; k < std::min(4u, n.nBoundaryPoints); k++) S.push_back(n.boundaryPoints[k]);
    }
    for (auto& e : m.elements)
    {
        X.push_back(e.coord.x); X.push_back(e.coord.y);
        for (unsigned k : e.nodes) X.push_back(k);
        S.push_back((int)e.status); S.push_back(e.nBoundarySegments);
        for (unsigned k = 0; k < std::min(4u, e.nBoundarySegments); k++) S.push_back(e.boundarySegments[k]);
        A.push_back(e.area);
    }
    B.push_back(s.nNarrowBand); B.push_back(s.nMines);
    for (unsigned i = 0; i < s.nNarrowBand; i++) B.push_back(s.narrowBand[i]);
    for (unsigned i = 0; i < s.nMines; i++) B.push_back(s.mines[i]);
    return Parts{ { "X", dg(X) }, { "F", dg(s.signedDistance) }, { "M", dg(M) }, { "B", dg(B) }, { "V", dg(s.velocity) }, { "G", dg(s.gradient) },
                  { "T", dg(s.target) }, { "S", dg(S) }, { "A", dg(A) } };
}
static Parts parts(const Boundary& b)
{
    std::vector<double> P, N, W, Q;
    for (auto& p : b.points)
    {
        for (double d : { p.coord.x, p.coord.y, p.length, p.negativeLimit, p.positiveLimit, (double)p.isDomain, (double)p.isFixed, (double)p.nSegments, (double)p.nNeighbours }) P.push_back(d);
        for (unsigned k = 0; k < std::min(2u, p.nSegments); k++) P.push_back(p.segments[k]);
        for (unsigned k = 0; k < std::min(2u, p.nNeighbours); k++) P.push_back(p.neighbours[k]);
        N.push_back(p.normal.x); N.push_back(p.normal.y); W.push_back(p.velocity);
        Q.push_back(p.sensitivities.size()); for (double s : p.sensitivities) Q.push_back(s);
    }
    for (auto& s : b.segments) for (double d : { (double)s.start, (double)s.end, (double)s.element, s.length, s.weight }) P.push_back(d);
    P.push_back(b.points.size()); P.push_back(b.segments.size());
    if (!b.points.empty()) { P.push_back(b.nPoints); P.push_back(b.nSegments); P.push_back(b.length); }
    return Parts{ { "P", dg(P) }, { "N", dg(N) }, { "W", dg(W) }, { "Q", dg(Q) } };
}
static std::string json(const Parts& p) { J j; for (auto& q : p) j.k(q.first.c_str(), q.second); return j.str(); }
static void emit(const World& w, const char* op, int i, int j, const std::vector<int>& arg, const std::vector<int>& out, bool first = false)
{
    std::string l, b;
    for (int k = 0; k < 3; k++) { l += (k ? "," : "") + json(parts(w.ls[k])); b += (k ? "," : "") + json(parts(w.bd[k])); }
    J o; o.k("ev", first ? "case" : op);
    if (first) o.k("new", true);
    o.k("i", i + 1).k("j", j + 1).k("arg", arg).k("out", out).raw("ls", "[" + l + "]").raw("bd", "[" + b + "]");
    T.rec(o);
}
typedef std::function<std::vector<double>(LevelSet&, Boundary&)> Go;
struct Op { std::string name; std::vector<int> arg; Go go; };

static std::vector<double> slurp(const std::string& f)
{
    std::ifstream in(f.c_str(), std::ios::binary);
    std::vector<double> v;
    for (std::istreambuf_iterator<char> c(in), e; c != e; ++c) v.push_back((unsigned char)*c);
    remove(f.c_str());
    return v;
}
static Obj make(const Par& p)
{
    Obj o; o.par = p;
    o.ls.reset(new LevelSet(p.w, p.h, Holder::hole(p.w, p.h), p.move, p.band, p.fixed));
    return o;
}
static void setBand(LevelSet& t, const LevelSet& s)
{
    t.nNarrowBand = s.nNarrowBand; t.nMines = s.nMines; t.narrowBand = s.narrowBand; t.mines = s.mines;
    for (unsigned k = 0; k < t.mesh.nNodes; k++) { t.mesh.nodes[k].isActive = s.mesh.nodes[k].isActive; t.mesh.nodes[k].isMine = s.mesh.nodes[k].isMine; }
}
// Copy the parts an operation reads, fill the others with junk.
static void prepare(Rng& r, LevelSet& t, const LevelSet& s, const std::string& reads)
{
    auto has = [&](char c) { return reads.find(c) != std::string::npos; };
    auto junk = [&](std::vector<double>& v) { for (auto& x : v) x = (r.u() - 0.5) * 20; };
    t.signedDistance = s.signedDistance; t.velocity = s.velocity; t.gradient = s.gradient; t.target = s.target;
    if (!has('F')) junk(t.signedDistance);
    if (!has('V')) junk(t.velocity);
    if (!has('G')) junk(t.gradient);
    if (!has('T')) { if (r.coin()) t.target.resize(t.mesh.nNodes); junk(t.target); }
    if (has('B')) setBand(t, s);
    else
    {
        t.nNarrowBand = t.nMines = 0;
        for (unsigned k = 0; k < t.mesh.nNodes; k++)
        {
            Node& n = t.mesh.nodes[k];
            n.isActive = r.coin(); n.isMine = n.isActive && r.coin(1, 4);
            if (n.isActive) t.narrowBand[t.nNarrowBand++] = k;
            if (n.isMine && t.nMines < t.mines.size()) t.mines[t.nMines++] = k; else n.isMine = false;
        }
    }
    for (unsigned k = 0; k < t.mesh.nNodes; k++)
    {
        Node& n = t.mesh.nodes[k]; const Node& m = s.mesh.nodes[k];
        n.isMasked = m.isMasked;
        if (has('S')) { n.status = m.status; n.nBoundaryPoints = m.nBoundaryPoints; n.boundaryPoints = m.boundaryPoints; }
        else
        {
            n.status = r.pick(std::vector<NodeStatus::NodeStatus>{ NodeStatus::NONE, NodeStatus::INSIDE, NodeStatus::OUTSIDE, NodeStatus::BOUNDARY });
            n.nBoundaryPoints = r.in(0, 3);
            for (auto& q : n.boundaryPoints) q = r.in(0, 3);
        }
    }
    for (unsigned k = 0; k < t.mesh.nElements; k++)
    {
        Element& e = t.mesh.elements[k]; const Element& f = s.mesh.elements[k];
        e.area = has('A') ? f.area : r.u();
        if (has('S')) { e.status = f.status; e.nBoundarySegments = f.nBoundarySegments; e.boundarySegments = f.boundarySegments; }
        else
        {
            e.status = r.pick(std::vector<ElementStatus::ElementStatus>{ ElementStatus::NONE, ElementStatus::INSIDE, ElementStatus::OUTSIDE, ElementStatus::CENTRE_INSIDE });
            e.nBoundarySegments = r.in(0, 2);
            for (auto& q : e.boundarySegments) q = r.in(0, 3);
        }
    }
    t.area = r.u() * 100;
}
static void prepare(Rng& r, Boundary& t, const Boundary& s, const std::string& reads)
{
    auto has = [&](char c) { return reads.find(c) != std::string::npos; };
    t = s;
    if (!has('P'))
    {
        if (r.coin()) { t = Boundary(); t.nPoints = t.nSegments = 0; t.length = 0; }
        else
        {
            t.nPoints = r.in(1, 5); t.nSegments = r.in(1, 5); t.length = r.u() * 30;
            t.points.assign(t.nPoints, BoundaryPoint()); t.segments.assign(t.nSegments, BoundarySegment());
            for (auto& q : t.segments) q.element = 0;
            for (auto& p : t.points) { p.coord = Coord(r.u() * 4, r.u() * 4); p.length = r.u(); p.nNeighbours = r.in(0, 2); p.nSegments = r.in(0, 2); }
        }
    }
    for (auto& p : t.points)
    {
        if (!has('N')) p.normal = Coord(r.u(), r.u());
        if (!has('W')) p.velocity = r.u() * 9 - 4;
        if (!has('Q')) { p.sensitivities.resize(r.in(2, 3)); for (auto& q : p.sensitivities) q = r.u(); }
    }
}
static const char* readsLs(const std::string& op)
{
    static const std::map<std::string, const char*> t = { { "discretise", "FMB" }, { "target", "TMB" }, { "normals", "FBS" }, { "areas", "S" }, { "velocities", "FMB" }, { "noisy", "FMB" },
        { "gradients", "FVB" }, { "reinit", "FM" }, { "update", "FMVGB" }, { "mask", "FM" }, { "itols", "FBS" }, { "savels", "FVG" }, { "saveareas", "A" } };
    auto i = t.find(op); return i == t.end() ? "" : i->second;
}
static const char* readsBd(const std::string& op)
{
    static const std::map<std::string, const char*> t = { { "normals", "P" }, { "areas", "P" }, { "velocities", "PW" }, { "noisy", "PW" }, { "sensitivity", "PNW" }, { "ito", "PNQ" }, { "itols", "PQ" },
        { "perimeter", "P" }, { "savebd", "PNWQ" } };
    auto i = t.find(op); return i == t.end() ? "" : i->second;
}

struct Hist
{
    Rng& r; World w; std::vector<int> none; int id;
    int from[2]; bool normal[2]; int owner[2]; // boundary j discretised from level set from[j]; statuses of level set i belong to boundary owner[i]
    bool target[2]; std::map<int, std::vector<double>> files; std::string want;
    Hist(Rng& r_, int id_) : r(r_), id(id_) {}
    LevelSet& L(int i) { return *w.ls[i].ls; }
    void perform(const Op& op, int i, int j)
    {
        std::vector<double> out = op.go(L(i), w.bd[j]);
        emit(w, op.name.c_str(), i, j, op.arg, dg(out));
    }
    void assume(int i, int j) { emit(w, "set", i, j, none, none); }
    // The operation on i and j, and on objects of its own, before or after.
    void both(const Op& op, int i, int j)
    {
        LevelSet was(L(i)); Boundary wasB(w.bd[j]);
        int order = r.in(0, 2);                                     // 0: here first; 1: elsewhere first; 2: here, then rewound and here again
        auto elsewhere = [&]()
        {
            w.ls[2] = make(w.ls[i].par);
            if (r.coin(1, 4)) w.ls[2].ls.reset(new LevelSet(was));  // a copy
            prepare(r, L(2), was, readsLs(op.name)); prepare(r, w.bd[2], wasB, readsBd(op.name));
            assume(2, 2);
            perform(op, 2, 2);
        };
        if (order == 1) elsewhere();
        perform(op, i, j);
        if (order == 0) elsewhere();
        if (order == 2)
        {
            LevelSet now(L(i)); Boundary nowB(w.bd[j]);
            prepare(r, L(i), was, readsLs(op.name)); prepare(r, w.bd[j], wasB, readsBd(op.name));
            assume(i, j);
            perform(op, i, j);
            // What a discretisation found belongs together; otherwise carry on from the first result.
            prepare(r, L(i), now, "FVGTBSA"); w.bd[j] = nowB;
            assume(i, j);
        }
    }
    // A plan is a list of operations with their objects.
    void run(const std::vector<std::pair<std::string, std::pair<int, int>>>* plan = 0)
    {
        Par p; p.w = r.in(r.coin(1, 5) ? 1 : 4, 7); p.h = r.in(r.coin(1, 5) ? 1 : 4, 7); p.band = r.in(3, 5); p.move = r.coin() ? 0.5 : 0.125; p.fixed = r.coin(1, 4);
        if (!plan && r.coin(1, 20)) { p.w = r.in(17, 40); p.h = r.in(17, 40); }
        Par q = p;
        if (r.coin(1, 3)) { q.band = r.in(3, 6); q.fixed = r.coin(); }
        if (r.coin(1, 5)) { q.w = r.in(r.coin(1, 5) ? 1 : 4, 7); q.h = r.in(r.coin(1, 5) ? 1 : 4, 7); }
        w.ls[0] = make(p); w.ls[1] = make(q); w.ls[2] = make(p);
        for (auto& o : w.ls)
        {
            Field f = randomField(r, o.par.w, o.par.h, r.pick(std::vector<int>{ 0, 2, 2, 2, 3, 4, 7 }));
            for (int y = 0; y <= f.h; y++) for (int x = 0; x <= f.w; x++) o.ls->signedDistance[o.ls->mesh.xyToIndex[x][y]] = f.at(x, y) * f.unit;
            o.ls->target.assign(o.ls->mesh.nNodes, 0);
            for (auto& t : o.ls->target) t = r.coin(1, 8) ? 0 : r.in(-5, 5);
            for (unsigned k = 0; k < o.ls->mesh.nNodes; k++) o.ls->mesh.nodes[k].isMasked = r.coin(1, 15);
            if (!contour(o.ls->signedDistance) ) o.ls->signedDistance[0] *= -1;
            o.ls->reinitialise();
            for (auto& n : o.ls->mesh.nodes) { n.status = NodeStatus::NONE; n.nBoundaryPoints = 0; }
            for (auto& e : o.ls->mesh.elements) { e.status = ElementStatus::NONE; e.nBoundarySegments = 0; }
        }
        for (int k = 0; k < 2; k++) { from[k] = owner[k] = -1; normal[k] = target[k] = false; }
        emit(w, "case", 0, 0, none, none, true);
        if (plan)
        {
            static const std::map<std::string, int> at = { { "discretise", 0 }, { "target", 0 }, { "normals", 3 }, { "areas", 5 }, { "velocities", 7 }, { "noisy", 7 }, { "gradients", 9 }, { "reinit", 11 },
                { "update", 12 }, { "mask", 14 }, { "sensitivity", 15 }, { "ito", 16 }, { "itols", 16 }, { "transfer", 20 }, { "replace", 21 } };
            for (auto& a : *plan) { want = a.first; step(at.at(want), a.second.first - 1, a.second.second - 1); }
            want.clear();
            return;
        }
        for (int n = r.in(10, 24); n > 0; n--)
        {
            int k = r.in(0, 24), i = r.in(0, 1), j = r.in(0, 1);
            if (r.coin(3, 4) && from[j] >= 0 && k != 0) i = from[j];
            if (k < 22) { step(k, i, j); continue; }
            for (int q : { 0, 7, 9, 12 }) step(q, i, j);           // one step of an evolution
        }
    }
    // A level set changed: what boundaries say about it is out of date.
    void stale(int i) { for (int j = 0; j < 2; j++) if (from[j] == i) { from[j] = -1; } owner[i] = -1; }
    void step(int k, int i, int j)
    {
        LevelSet& s = L(i); Boundary& b = w.bd[j];
        bool mine = from[j] == i && owner[i] == j && !target[j];
        std::string dir = SCRATCH;
        Op op;
        switch (k)
        {
            case 0: case 1: case 2:
                op.name = !want.empty() ? want : r.coin(1, 6) ? "target" : "discretise";
                if (!contour(s.signedDistance)) return;
                { bool t = op.name == "target"; op.go = [t](LevelSet& l, Boundary& c) { if (t) c.discretise(l, true); else c.discretise(l); return std::vector<double>(); }; target[j] = t; }
                both(op, i, j); from[j] = i; owner[i] = j; normal[j] = false;
                return;
            case 3: case 4:
                if (!mine) return;
                op.name = "normals"; op.go = [](LevelSet& l, Boundary& c) { c.computeNormalVectors(l); return std::vector<double>(); };
                both(op, i, j); normal[j] = true; return;
            case 5: case 6:
                if (!(from[j] == i && owner[i] == j)) return;
                op.name = "areas"; op.go = [](LevelSet& l, Boundary& c) { double a = l.computeAreaFractions(c); return std::vector<double>{ a, l.area }; };
                both(op, i, j); return;
            case 7: case 8:
                if (from[j] != i || target[j] || !contour(s.signedDistance)) return;
                for (auto& p : b.points) p.velocity = r.coin(1, 10) ? 0 : (r.u() - 0.5) * 2;
                assume(i, j);
                if (want.empty() ? r.coin(1, 4) : want == "noisy")
                {
                    for (auto& p : b.points) if (!(p.length > 1e-3)) return;
                    int seed = r.in(0, 3), t = r.in(0, 2), d = r.in(1, 4);
                    op.name = "noisy"; op.arg = { seed, t, d };
                    op.go = [=](LevelSet& l, Boundary& c) { MersenneTwister rng; rng.setSeed(seed); double step = d / 4.0; double x = l.computeVelocities(c.points, step, t / 8.0, rng); return std::vector<double>{ x, step, rng() }; };
                }
                else { op.name = "velocities"; op.go = [](LevelSet& l, Boundary& c) { l.computeVelocities(c.points); return std::vector<double>(); }; }
                both(op, i, j); return;
            case 9: case 10:
                op.name = "gradients"; op.go = [](LevelSet& l, Boundary&) { l.computeGradients(); return std::vector<double>(); };
                both(op, i, j); return;
            case 11:
                if (!contour(s.signedDistance)) return;
                op.name = "reinit"; op.go = [](LevelSet& l, Boundary&) { l.reinitialise(); return std::vector<double>(); };
                both(op, i, j); stale(i); return;
            case 12: case 13:
            {
                double m = 0;
                for (unsigned a = 0; a < s.nNarrowBand; a++) m = std::max(m, std::abs(s.gradient[s.narrowBand[a]] * s.velocity[s.narrowBand[a]]));
                if (!(m > 0) || !(m < 1e3)) return;
                int d = std::max(1, (int)(400 * s.moveLimit / m));
                if (!survives(s, d / 1000.0)) return;
                op.name = "update"; op.arg = { d }; op.go = [d](LevelSet& l, Boundary&) { return std::vector<double>{ (double)l.update(d / 1000.0) }; };
                both(op, i, j); stale(i); return;
            }
            case 14:
            {
                if (want.empty() && !r.coin()) return;
                int x = r.in(0, 2 * s.mesh.width), y = r.in(0, 2 * s.mesh.height), q = r.in(1, 3), kind = r.in(0, 2);
                LevelSet t(s);
                auto go = [=](LevelSet& l, Boundary&)
                {
                    double cx = x / 2.0, cy = y / 2.0, h = q / 2.0;
                    if (kind == 0) l.mask(std::vector<Hole>(1, Hole(cx, cy, h)));
                    else if (kind == 1) l.mask(std::vector<Coord>{ Coord(cx - h, cy - h), Coord(cx + h, cy + h) });
                    else l.mask(std::vector<Coord>{ Coord(cx - h, cy), Coord(cx, cy + h), Coord(cx + h, cy), Coord(cx, cy - h), Coord(cx - h, cy) });
                    return std::vector<double>();
                };
                // Something has to stay outside the mask for a contour to exist.
                bool pos = false;
                for (unsigned a = 0; a < s.mesh.nNodes; a++)
                {
                    double dx = std::abs(s.mesh.nodes[a].coord.x - x / 2.0), dy = std::abs(s.mesh.nodes[a].coord.y - y / 2.0);
                    if (s.signedDistance[a] >= 0 && std::max(dx, dy) > q / 2.0) pos = true;
                }
                if (!pos) return;
                op.name = "mask"; op.arg = { x, y, q, kind }; op.go = go;
                both(op, i, j); stale(i); return;
            }
            case 15:
            {
                if (b.points.empty() || from[j] < 0) return;
                int c = r.in(0, 2), at = r.in(0, b.points.size() - 1);
                op.name = "sensitivity"; op.arg = { c, at };
                op.go = [c, at](LevelSet&, Boundary& d)
                {
                    SensitivityCallback f = [c](const BoundaryPoint& p) -> double { return c == 0 ? p.coord.x + 2 * p.coord.y : c == 1 ? p.coord.x * p.coord.y + p.velocity : std::sin(p.coord.x) + p.normal.x; };
                    Sensitivity s(c == 2 ? 0.01 : 1e-4);
                    return std::vector<double>{ s.computeSensitivity(d.points[at], f) };
                };
                both(op, i, j); return;
            }
            case 16:
            {
                if (b.points.empty() || from[j] < 0) return;
                int t = r.in(0, 2);
                if (mine && (want.empty() ? r.coin() : want == "itols") && ++t) { op.name = "itols"; op.arg = { t }; op.go = [t](LevelSet& l, Boundary& c) { Sensitivity().itoCorrection(c, l, t / 4.0); return std::vector<double>(); }; }
                else { op.name = "ito"; op.arg = { t }; op.go = [t](LevelSet&, Boundary& c) { Sensitivity().itoCorrection(c, t / 4.0); return std::vector<double>(); }; }
                both(op, i, j); return;
            }
            case 17:
                op.name = "locate"; op.arg = { r.in(0, 7 * (int)s.mesh.width), r.in(0, 7 * (int)s.mesh.height) };
                { auto a = op.arg; op.go = [a](LevelSet& l, Boundary&) { double x = a[0] / 7.0, y = a[1] / 7.0; return std::vector<double>{ (double)l.mesh.getElement(x, y), (double)l.mesh.getClosestNode(x, y), (double)l.mesh.getElement(Coord(x, y)) }; }; }
                both(op, i, j); return;
            case 18:
            {
                if (b.points.empty() || from[j] < 0) return;
                int at = r.in(0, b.points.size() - 1);
                op.name = "perimeter"; op.arg = { at }; op.go = [at](LevelSet&, Boundary& c) { return std::vector<double>{ c.computePerimeter(c.points[at]) }; };
                both(op, i, j); return;
            }
            case 19:
            {
                int what = r.in(0, 5);
                std::string f = SCRATCH + "/c22_file";
                op.arg = { what };
                if (what >= 4 && from[j] < 0) return;
                op.name = what < 3 ? "savels" : what == 3 ? "saveareas" : "savebd";
                op.go = [what, f](LevelSet& l, Boundary& c)
                {
                    InputOutput io;
                    switch (what)
                    {
                        case 0: io.saveLevelSetBIN(f, l); break;
                        case 1: io.saveLevelSetTXT(f, l, true); break;
                        case 2: io.saveLevelSetVTK(f, l, true, true); break;
                        case 3: io.saveAreaFractionsTXT(f, l.mesh); break;
                        case 4: io.saveBoundaryPointsTXT(f, c); break;
                        default: io.saveBoundarySegmentsTXT(f, c);
                    }
                    return slurp(f);
                };
                both(op, i, j); return;
            }
            case 20:                                                // the field of the other level set, through a file
            {
                int o = 1 - i;
                if (L(o).mesh.width != s.mesh.width || L(o).mesh.height != s.mesh.height) return;
                std::string f = SCRATCH + "/c22_move";
                InputOutput io; io.saveLevelSetBIN(f, L(o)); io.loadLevelSetBIN(f, s); remove(f.c_str());
                stale(i);
                emit(w, "transfer", i, o, none, none);
                if (r.coin()) { for (unsigned a = 0; a < s.mesh.nNodes; a++) s.mesh.nodes[a].isMasked = L(o).mesh.nodes[a].isMasked; if (w.ls[0].par.band == w.ls[1].par.band) setBand(s, L(o)); assume(i, j); }
                return;
            }
            default:                                                // a new level set in place of an old one
                if (want.empty() && !r.coin(1, 3)) return;
                {
                    Par p = w.ls[i].par;
                    std::vector<Hole> holes;
                    for (int a = r.in(1, 2); a > 0; a--) holes.push_back(Hole(r.in(2, 2 * p.w - 2) / 2.0, r.in(2, 2 * p.h - 2) / 2.0, 1 + r.in(0, 4) / 4.0));
                    w.ls[i].ls.reset(new LevelSet(p.w, p.h, holes, p.move, p.band, p.fixed));
                    LevelSet& t = L(i);
                    t.target.assign(t.mesh.nNodes, 1);
                    for (auto& n : t.mesh.nodes) { n.status = NodeStatus::NONE; n.nBoundaryPoints = 0; }
                    for (auto& e : t.mesh.elements) { e.status = ElementStatus::NONE; e.nBoundarySegments = 0; }
                    if (contour(t.signedDistance)) t.reinitialise(); else t.signedDistance[0] = -1;
                    stale(i);
                    assume(i, j);
                }
        }
    }
};
static void run(uint64_t seed, bool thorough)
{
    Rng r(seed);
    // Behaviours of the specification Usage, one per line.
    std::ifstream in(getenv("SLSM_PLANS") ? getenv("SLSM_PLANS") : "");
    std::string line;
    for (int n = 0; std::getline(in, line); n++)
    {
        std::vector<std::pair<std::string, std::pair<int, int>>> plan;
        std::istringstream is(line);
        std::string op, semi; int i, j;
        while (is >> op >> i >> j) { plan.push_back({ op, { i, j } }); is >> semi; }
        T.begin("plan " + line);
        Hist h(r, n);
        h.run(&plan);
    }
    for (int n = 0; n < (thorough ? 900 : 80); n++)
    {
        T.begin("history " + std::to_string(n));
        Hist h(r, n);
        h.run();
    }
}
static Reg reg("C22", run);
