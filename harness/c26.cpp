// C26: the same scene twice, as it is and turned over (mirrored, transposed) or moved elsewhere on a larger mesh; every operation on
// both is one record with everything that can be observed of either.
#include "fields.h"
#include <algorithm>
using namespace slsm;
struct Image
{
    int w, h; bool mx, my, tr; int ox, oy, W, H;     // mesh of the image: W x H
    bool moved() const { return W != (tr ? h : w) || H != (tr ? w : h); }
    Coord to(double x, double y) const
    {
        if (mx) x = w - x;
        if (my) y = h - y;
        if (tr) std::swap(x, y);
        return Coord{ x + ox, y + oy };
    }
    Coord from(const Coord& c) const
    {
        double x = c.x - ox, y = c.y - oy;
        if (tr) std::swap(x, y);
        return Coord{ mx ? w - x : x, my ? h - y : y };
    }
};
struct Side
{
    LevelSet ls; Boundary b; Image im; int own;      // own: position of the window in the mesh
    std::vector<double> val;
    Side(LevelSet&& l, const Image& i) : ls(l), im(i), own(0) {}
    static int e5(double v) { return fx(v, 1e5); }
    // Nodal quantities in the window, row-major in the orientation of this mesh.
    template <class F> std::vector<int> window(F f, bool elements = false) const
    {
        int a = im.tr ? im.h : im.w, c = im.tr ? im.w : im.h, d = elements ? 0 : 1;
        std::vector<int> v;
        for (int y = 0; y < c + d; y++) for (int x = 0; x < a + d; x++)
            v.push_back(f(elements ? ls.mesh.getElement(x + im.ox + 0.5, y + im.oy + 0.5) : ls.mesh.xyToIndex[x + im.ox][y + im.oy]));
        return v;
    }
    J record(bool all)
    {
        J j;
        auto band = [&](unsigned k) { return ls.mesh.nodes[k].isActive; };
        j.k("kind", window([&](unsigned k) { return band(k) + 2 * ls.mesh.nodes[k].isMine + 4 * ls.mesh.nodes[k].isMasked; }));
        j.k("nb", ls.nNarrowBand).k("nm", ls.nMines);
        j.k("phi", window([&](unsigned k) { return all || band(k) ? fx(ls.signedDistance[k], 1e7) : 0; }));
        j.k("vel", window([&](unsigned k) { return band(k) ? fx(ls.velocity[k], 1e7) : 0; }));
        j.k("grad", window([&](unsigned k) { return band(k) ? e5(ls.gradient[k]) : 0; }));
        j.k("area", window([&](unsigned k) { return e5(ls.mesh.elements[k].area); }, true));
        std::vector<std::vector<int>> p, s;
        for (auto& q : b.points)
            p.push_back({ e5(q.coord.x), e5(q.coord.y), e5(q.length), e5(q.negativeLimit), e5(q.positiveLimit), e5(q.normal.x), e5(q.normal.y), (int)q.isDomain + 2 * q.isFixed + 4 * (int)q.nSegments + 16 * (int)q.nNeighbours, e5(b.computePerimeter(q)) });
        for (auto& q : b.segments)
        {
            const Coord &c = b.points[q.start].coord, &d = b.points[q.end].coord;
            s.push_back({ e5((c.x + d.x) / 2), e5((c.y + d.y) / 2), e5(q.length), (int)(2 * ls.mesh.elements[q.element].coord.x), (int)(2 * ls.mesh.elements[q.element].coord.y) });
        }
        return j.k("pts", p).k("segs", s).k("len", e5(b.length)).k("total", e5(ls.area));
    }
    void look() { b.discretise(ls); b.computeNormalVectors(ls); ls.computeAreaFractions(b); }
};
// Is there a contour next to a node that is not masked (after an update by dt)? Without one the march cannot start.
static bool marchable(const LevelSet& ls, double dt)
{
    std::vector<double> v = ls.signedDistance;
    if (dt > 0) for (unsigned i = 0; i < ls.nNarrowBand; i++) v[ls.narrowBand[i]] -= dt * ls.gradient[ls.narrowBand[i]] * ls.velocity[ls.narrowBand[i]];
    for (unsigned i = 0; i < ls.mesh.nNodes; i++) if (!ls.mesh.nodes[i].isMasked && !ls.mesh.nodes[i].isDomain)
        for (unsigned q : ls.mesh.nodes[i].neighbours) if (q < ls.mesh.nNodes && v[i] * v[q] < 0) return true;
    return false;
}
// Speeds of the points as a function of their place in the original scene.
struct Speed
{
    double a, p, q, s; int sign;
    double at(const Coord& c) const { double v = a + p * std::sin(0.37 * c.x + s) + q * std::cos(0.23 * c.y - s * c.x * 0.1); return sign ? sign * std::abs(v) : v; }
};
struct Scene
{
    int w, h; std::vector<double> blob;              // x, y, r, ...
    bool solid;                                      // blobs of material in void, or of void in material
    double at(const Coord& c) const
    {
        double d = 1e9;
        for (size_t k = 0; k < blob.size(); k += 3) d = std::min(d, std::hypot(c.x - blob[k], c.y - blob[k + 1]) - blob[k + 2]);
        return solid ? -d : d;
    }
    double room() const
    {
        double m = 1e9;
        for (size_t k = 0; k < blob.size(); k += 3)
            m = std::min(m, std::min(std::min(blob[k], w - blob[k]), std::min(blob[k + 1], h - blob[k + 1])) - blob[k + 2]);
        return m;
    }
};
static LevelSet start(const Scene& sc, const Image& im, double limit, int band, bool fixed, bool original)
{
    int W = original ? sc.w : im.W, H = original ? sc.h : im.H;
    LevelSet ls(W, H, std::vector<Hole>(1, Hole(0.5 * W, 0.5 * H, 0.7)), limit, band, fixed);
    for (unsigned k = 0; k < ls.mesh.nNodes; k++) ls.signedDistance[k] = sc.at(original ? ls.mesh.nodes[k].coord : im.from(ls.mesh.nodes[k].coord));
    return ls;
}
static void story(Rng& r, const Scene& sc, const Image& im, const std::string& name, int steps)
{
    double limit = 0.1 + 0.85 * r.u(); int band = r.in(3, 6); bool fixed = r.coin(1, 4);
    bool closed = sc.solid && sc.room() > band + 5;          // nothing near the edge of the domain
    if (im.moved() && !closed) return;
    T.begin(name + " " + std::to_string(sc.w) + "x" + std::to_string(sc.h) + " to " + std::to_string(im.W) + "x" + std::to_string(im.H));
    Image id = { sc.w, sc.h, false, false, false, 0, 0, sc.w, sc.h };
    Side A(start(sc, im, limit, band, fixed, true), id), B(start(sc, im, limit, band, fixed, false), im);
    Side* both[2] = { &A, &B };
    if (!contour(A.ls.signedDistance)) return;
    bool all = !im.moved();
    bool first = true;
    // Nodes that the contour passes closely, or exactly.
    bool pinched = r.coin(1, 3);
    if (pinched) for (int x = 1; x < sc.w; x++) for (int y = 1; y < sc.h; y++)
    {
        unsigned k = A.ls.mesh.xyToIndex[x][y]; bool by = false;
        for (unsigned q : A.ls.mesh.nodes[k].neighbours) by |= A.ls.signedDistance[k] * A.ls.signedDistance[q] < 0;
        if (!by || !r.coin(1, 4)) continue;
        double v = r.coin(1, 6) ? 0 : std::copysign(std::pow(10.0, -2 - 3.5 * r.u()), A.ls.signedDistance[k]);
        Coord c = im.to(x, y);
        A.ls.signedDistance[k] = v; B.ls.signedDistance[B.ls.mesh.xyToIndex[(int)c.x][(int)c.y]] = v;
    }
    auto put = [&](const char* op, int ra, int rb)
    {
        J j;
        T.rec(j.k("ev", first ? "start" : "step").k("op", op).k("w", sc.w).k("h", sc.h).k("mx", im.mx).k("my", im.my).k("tr", im.tr).k("ox", im.ox).k("oy", im.oy).k("moved", im.moved())
            .k("new", first).k("ra", ra).k("rb", rb).raw("a", A.record(all).str()).raw("b", B.record(all).str()));
        first = false;
    };
    // Masks first: a few discs of void.
    if (r.coin(1, 4))
    {
        double x = r.u() * sc.w, y = r.u() * sc.h, q = 0.8 + 1.5 * r.u(), v = r.u() * 2 + 0.6;
        int kind = r.in(0, 2);
        // Enough of a contour must be left beside the mask.
        bool left = false;
        auto away = [&](unsigned k) { const Node& nd = A.ls.mesh.nodes[k]; return !nd.isDomain && (std::abs(nd.coord.x - x) > q + 0.3 || std::abs(nd.coord.y - y) > std::max(q, v) + 0.3); };
        for (unsigned k = 0; k < A.ls.mesh.nNodes; k++) if (away(k))
            for (unsigned o : A.ls.mesh.nodes[k].neighbours) left |= o < A.ls.mesh.nNodes && away(o) && A.ls.signedDistance[k] * A.ls.signedDistance[o] < 0;
        if (!left) return;
        for (Side* s : both)
        {
            auto at = [&](double a, double c) { return s == &A ? Coord{ a, c } : im.to(a, c); };
            if (kind == 0) { Coord c = at(x, y); s->ls.mask(std::vector<Hole>(1, Hole(c.x, c.y, q))); }
            else if (kind == 1)
            {
                Coord c = at(x - q, y - v), d = at(x + q, y + v);
                std::vector<Coord> box(2);
                box[0] = Coord{ std::min(c.x, d.x), std::min(c.y, d.y) }; box[1] = Coord{ std::max(c.x, d.x), std::max(c.y, d.y) };
                s->ls.mask(box);
            }
            else
            {
                std::vector<Coord> t;
                for (auto& c : { at(x - q, y - 0.3), at(x + q, y - v), at(x + 0.2, y + v), at(x - q, y - 0.3) }) t.push_back(c);
                s->ls.mask(t);
            }
        }
    }
    if (!marchable(A.ls, 0) || !marchable(B.ls, 0)) return;
    if (pinched)
    {
        for (Side* s : both)
        {
            s->ls.nNarrowBand = s->ls.nMines = 0;
            for (auto& nd : s->ls.mesh.nodes)
            {
                unsigned k = &nd - &s->ls.mesh.nodes[0];
                nd.isActive = !nd.isMasked && std::abs(s->ls.signedDistance[k]) < 2; nd.isMine = false;
                if (nd.isActive) s->ls.narrowBand[s->ls.nNarrowBand++] = k;
            }
            s->look();
        }
        put("discretise", 0, 0);
        return;
    }
    A.ls.reinitialise(); B.ls.reinitialise();
    for (Side* s : both) s->look();
    put("reinitialise", 0, 0);
    bool still = !closed;                                    // material at the edge: distances there tie
    for (int n = 0; n < steps; n++)
    {
        Speed v = { r.u() - 0.3, r.u(), r.u() - 0.5, 6 * r.u(), r.coin(1, 2) ? 0 : r.coin() ? 1 : -1 };
        // Which of two points that both lie on a node (within 1e-3) gives it its velocity is open.
        for (auto& q : A.b.points)
        {
            const Node& nd = A.ls.mesh.nodes[A.ls.mesh.getClosestNode(q.coord)];
            int on = 0;
            for (unsigned k = 0; k < nd.nBoundaryPoints; k++) { const Coord& c = A.b.points[nd.boundaryPoints[k]].coord; on += std::hypot(c.x - nd.coord.x, c.y - nd.coord.y) < 1.5e-3; }
            if (on > 1) return;
        }
        double worst = 0;
        for (Side* s : both)
        {
            for (auto& q : s->b.points) q.velocity = v.at(s == &A ? q.coord : im.from(q.coord));
            s->ls.computeVelocities(s->b.points);
            s->ls.computeGradients();
            for (unsigned k = 0; k < s->ls.nNarrowBand; k++) { unsigned q = s->ls.narrowBand[k]; worst = std::max(worst, std::abs(s->ls.velocity[q] * s->ls.gradient[q])); }
        }
        put("extend", 0, 0);
        if (still || worst < 1e-6) return;
        double dt = limit * (0.2 + 0.79 * r.u()) / std::max(worst, 0.3);
        if (!marchable(A.ls, dt) || !marchable(B.ls, dt)) return;
        int ra = A.ls.update(dt), rb = B.ls.update(dt);
        // Nothing may come near the edge of the domain, where the image of a moved scene goes on.
        for (int x = 0; x <= sc.w; x++) for (int y = 0; y <= sc.h; y++)
            if ((x < band + 4 || y < band + 4 || x > sc.w - band - 4 || y > sc.h - band - 4) && A.ls.signedDistance[A.ls.mesh.xyToIndex[x][y]] > -1) return;
        for (Side* s : both) s->look();
        put("update", ra, rb);
        if (r.coin(1, 8)) { A.ls.reinitialise(); B.ls.reinitialise(); for (Side* s : both) s->look(); put("reinitialise", 0, 0); }
    }
}
static Scene scene(Rng& r, bool closed)
{
    Scene sc;
    sc.solid = closed || r.coin();
    int n = r.in(1, closed ? 3 : 5);
    sc.w = closed ? r.in(26, 36) : r.in(3, 18); sc.h = closed ? r.in(26, 36) : r.in(3, 18);
    for (int k = 0; k < n; k++)
    {
        double m = closed ? 12.5 : 0;
        double x = m + r.u() * (sc.w - 2 * m), y = m + r.u() * (sc.h - 2 * m), q = closed ? 0.8 + 3 * r.u() : 0.4 + r.u() * 4;
        for (double v : { x, y, q }) sc.blob.push_back(v);
    }
    return sc;
}
static void run(uint64_t seed, bool th)
{
    Rng r(seed);
    for (int n = 0; n < (th ? 700 : 75); n++)
    {
        Scene sc = scene(r, n % 3 == 2);
        bool closed = n % 3 == 2;
        int g = r.in(1, 7);
        Image im = { sc.w, sc.h, bool(g & 1), bool(g & 2), bool(g & 4), 0, 0, 0, 0 };
        im.W = im.tr ? sc.h : sc.w; im.H = im.tr ? sc.w : sc.h;
        story(r, sc, im, "turned", closed ? 8 : 2);
        if (!closed) continue;
        // Elsewhere on a larger mesh, turned over as well or not.
        g = r.in(0, 7);
        Image mv = { sc.w, sc.h, bool(g & 1), bool(g & 2), bool(g & 4), 0, 0, 0, 0 };
        bool wide = n % 9 == 2;
        mv.ox = r.in(0, wide ? (th ? 5000 : 2500) : 40); mv.oy = r.in(0, wide ? 3 : 40);
        if (wide && r.coin()) std::swap(mv.ox, mv.oy);
        mv.W = (mv.tr ? sc.h : sc.w) + mv.ox + r.in(1, 6); mv.H = (mv.tr ? sc.w : sc.h) + mv.oy + r.in(1, 6);
        story(r, sc, mv, wide ? "moved far" : "moved", wide ? 2 : 6);
    }
}
static Reg a("C26", run);
