// C14 (masks) and C15 (initial shapes). All shapes have coordinates k/8.
#include "fields.h"
#include <algorithm>
#include <memory>
using namespace slsm;

typedef std::vector<std::vector<int> > Shape;
static std::vector<Hole> holesOf(const Shape& s) { std::vector<Hole> v; for (auto& h : s) { if (v.size() % 2) v.push_back(Hole(Coord(h[0] / 8.0, h[1] / 8.0), h[2] / 8.0)); else v.push_back(Hole(h[0] / 8.0, h[1] / 8.0, h[2] / 8.0)); } return v; }
static std::vector<Coord> pointsOf(const Shape& s) { std::vector<Coord> v; for (auto& p : s) v.push_back(Coord(p[0] / 8.0, p[1] / 8.0)); return v; }
static int coordIn(Rng& r, int n) { int k = r.in(0, 3); return k == 0 ? 8 * r.in(0, n) : k == 1 ? 4 * r.in(0, 2 * n) : r.in(-8, 8 * n + 8); }
static Shape randomHoles(Rng& r, int w, int h, int lo, int hi)
{
    Shape s;
    for (int k = r.in(lo, hi); k > 0; k--) s.push_back({ coordIn(r, w), coordIn(r, h), r.coin() ? 8 * r.in(1, 3) : r.in(4, 30) });
    return s;
}
static Shape randomPolygon(Rng& r, int w, int h)
{
    Shape s;
    int kind = r.in(0, 5);
    if (kind == 5)                       // there and back: encloses nothing
        s = { { coordIn(r, w), coordIn(r, h) }, { coordIn(r, w), coordIn(r, h) } };
    else if (kind == 0)                       // rectangle
    {
        int x0 = coordIn(r, w), x1 = coordIn(r, w), y0 = coordIn(r, h), y1 = coordIn(r, h);
        s = { { x0, y0 }, { x0, y1 }, { x1, y1 }, { x1, y0 } };
    }
    else if (kind == 1)                  // triangle, possibly thin
        s = { { coordIn(r, w), coordIn(r, h) }, { coordIn(r, w), coordIn(r, h) }, { coordIn(r, w), coordIn(r, h) } };
    else if (kind == 2)                  // any closed line, possibly crossing itself
        for (int k = r.in(4, 7); k > 0; k--) s.push_back({ coordIn(r, w), coordIn(r, h) });
    else if (kind == 3)                  // star around a centre
    {
        int n = r.in(5, 9), cx = coordIn(r, w), cy = coordIn(r, h);
        for (int k = 0; k < n; k++) { double a = 6.283185307 * k / n, q = 8 * (0.7 + 3 * r.u()); s.push_back({ cx + (int)std::lround(q * std::cos(a)), cy + (int)std::lround(q * std::sin(a)) }); }
    }
    else                                 // L shape with edges on grid lines
    {
        int x = 8 * r.in(0, w / 2), y = 8 * r.in(0, h / 2), a = 8 * r.in(1, 3), b = 8 * r.in(1, 3);
        s = { { x, y }, { x, y + 2 * b }, { x + a, y + 2 * b }, { x + a, y + b }, { x + 2 * a, y + b }, { x + 2 * a, y } };
    }
    if (r.coin()) std::reverse(s.begin(), s.end());
    s.push_back(s[0]);
    return s;
}
struct View
{
    LevelSet& ls;
    int w, h;
    std::vector<unsigned> id;
    std::vector<int> num;
    View(LevelSet& l) : ls(l), w(l.mesh.width), h(l.mesh.height)
    {
        num.resize(ls.mesh.nNodes);
        for (int y = 0; y <= h; y++) for (int x = 0; x <= w; x++) { num[ls.mesh.xyToIndex[x][y]] = (int)id.size() + 1; id.push_back(ls.mesh.xyToIndex[x][y]); }
    }
    template <class F> std::vector<int> row(F f) const { std::vector<int> v; for (unsigned n : id) v.push_back(f(n)); return v; }
    std::vector<int> side() const { return row([&](unsigned n) { double v = ls.signedDistance[n]; return (v > 0) - (v < 0); }); }
    std::vector<int> band() const { std::vector<int> v; for (unsigned i = 0; i < ls.nNarrowBand; i++) v.push_back(num[ls.narrowBand[i]]); return v; }
    J common(const char* ev, bool isNew, bool disc = false) const
    {
        std::vector<bool> act;
        std::vector<std::string> st;
        for (unsigned n : id)
        {
            const Node& q = ls.mesh.nodes[n];
            act.push_back(q.isActive);
            st.push_back(q.status == NodeStatus::INSIDE ? "I" : q.status == NodeStatus::OUTSIDE ? "O" : "B");
        }
        J j;
        j.k("ev", ev).k("new", isNew).k("disc", disc).k("w", w).k("h", h).k("masked", row([&](unsigned n) { return (int)ls.mesh.nodes[n].isMasked; }));
        j.k("side", side()).k("act", act).k("status", st).k("band", band());
        return j;
    }
    std::vector<int> val() const { return row([&](unsigned n) { return fx(ls.signedDistance[n], 1e3); }); }
};
static bool inside(const Coord& p, const Shape& s)
{
    int k = 0;
    for (size_t i = 0; i + 1 < s.size(); i++)
    {
        double ax = s[i][0] / 8.0, ay = s[i][1] / 8.0, bx = s[i + 1][0] / 8.0, by = s[i + 1][1] / 8.0;
        double c = (bx - ax) * (p.y - ay) - (p.x - ax) * (by - ay);
        if (ay <= p.y && by > p.y && c >= 0) k++;
        if (ay > p.y && by <= p.y && c <= 0) k--;
        if (c == 0 && std::min(ax, bx) <= p.x && p.x <= std::max(ax, bx) && std::min(ay, by) <= p.y && p.y <= std::max(ay, by)) return true;
    }
    return k != 0;
}
static void run14(uint64_t seed, bool th)
{
    Rng r(seed);
    for (int n = 0; n < (th ? 1500 : 400); n++)
    {
        bool large = n % 80 == 79;
        int w = large ? r.in(17, 50) : r.in(3, 13), h = large ? r.in(17, 50) : r.in(3, 13);
        T.begin("history " + std::to_string(n));
        std::unique_ptr<LevelSet> ls;
        bool fixed = r.coin(1, 3);
        int band = r.in(3, 6);
        double ml = r.pick(std::vector<double>{ 0.5, 0.1, 0.9 });
        if (r.coin()) ls.reset(new LevelSet(w, h, holesOf(randomHoles(r, w, h, 0, 2)), ml, band, fixed));
        else ls.reset(new LevelSet(w, h, pointsOf(randomPolygon(r, w, h)), ml, band, fixed));
        View v(*ls);
        T.rec(v.common("start", true));
        if (!contour(ls->signedDistance)) continue;
        if (r.coin(3, 4)) { ls->reinitialise(); T.rec(v.common("op", false)); }
        for (int s = r.in(2, 9); s > 0; s--)
        {
            int k = r.in(0, 7);
            if (k < 3 || s == 9)
            {
                std::string kind = std::vector<std::string>{ "holes", "rect", "polygon" }[r.in(0, 2)];
                Shape sh;
                if (kind == "holes") { sh = randomHoles(r, w, h, 1, 2); for (auto& q : sh) q[2] = std::min(q[2], 20); }
                else if (kind == "polygon") sh = randomPolygon(r, w, h);
                else { int x = coordIn(r, w), y = coordIn(r, h); sh = { { x, y }, { x + r.in(1, 30), y + r.in(1, 30) } }; if (r.coin()) { sh[0][0] -= sh[0][0] % 8; sh[1][0] = sh[0][0] + 8 * r.in(1, 3); } }
                if (r.coin(1, 5))                                    // over a corner of the mesh
                {
                    int cx = 0, cy = 0, m = (int)sh.size();
                    for (auto& q : sh) { cx += q[0]; cy += q[1]; }
                    cx = cx / m - (r.coin() ? 8 * w : 0) - r.in(-4, 4); cy = cy / m - (r.coin() ? 8 * h : 0) - r.in(-4, 4);
                    for (auto& q : sh) { q[0] -= cx; q[1] -= cy; }
                }
                bool any = false;                                    // something has to be left
                for (unsigned i : v.id)
                {
                    Coord c = ls->mesh.nodes[i].coord;
                    bool in = false;
                    if (kind == "holes") { for (auto& q : sh) in |= std::hypot(c.x - q[0] / 8.0, c.y - q[1] / 8.0) < q[2] / 8.0; }
                    else if (kind == "rect") in = c.x > sh[0][0] / 8.0 && c.y > sh[0][1] / 8.0 && c.x < sh[1][0] / 8.0 && c.y < sh[1][1] / 8.0;
                    else in = inside(c, sh);
                    any |= ls->signedDistance[i] >= 0 && !in;
                }
                if (!any) continue;
                std::vector<int> before = v.side();
                if (kind == "holes") ls->mask(holesOf(sh)); else ls->mask(pointsOf(sh));
                bool disc = r.coin();
                if (disc) { Boundary b; b.discretise(*ls); }
                J j = v.common("mask", false, disc).k("kind", kind).k("shape", sh).k("sideBefore", before);
                T.rec(j);
            }
            else if (k == 3) { ls->reinitialise(); T.rec(v.common("op", false)); }
            else
            {
                Boundary b;
                b.discretise(*ls);
                b.computeNormalVectors(*ls);
                if (k == 4) ls->computeAreaFractions(b);
                T.rec(v.common("op", false, true));
                if (w < 4 || h < 4) continue;
                for (auto& p : b.points) p.velocity = r.coin(1, 4) ? r.u() * 2 - 1 : (k == 5 ? 1 : -1) * r.u();
                ls->computeVelocities(b.points);
                ls->computeGradients();
                double dt = r.coin(1, 3) ? 3 * r.u() : 0.5 * r.u();
                if (!survives(*ls, dt)) break;
                ls->update(dt);
                T.rec(v.common("op", false));
            }
        }
    }
}
static void field(const char* ev, LevelSet& ls, const Shape& s)
{
    View v(ls);
    J j;
    j.k("ev", ev).k("w", v.w).k("h", v.h).k("shape", s).k("val", v.val());
    T.rec(j);
}
// Closed line in units of 1/64 of a cell with very short edges, some of them over mesh nodes.
static Shape finePolygon(Rng& r, int w, int h)
{
    Shape c, s;
    int n = r.in(3, 5);
    for (int k = 0; k < n; k++) c.push_back({ 64 * r.in(0, w), 64 * r.in(0, h) });
    if (r.coin(1, 3)) for (auto& p : c) { p[0] += r.in(-20, 20); p[1] += r.in(-20, 20); }
    for (int k = 0; k < n; k++)
    {
        std::vector<int> a = c[k], b = c[(k + 1) % n];
        int g = std::max(1, std::__gcd(std::abs(b[0] - a[0]), std::abs(b[1] - a[1])));   // lattice steps along the edge
        int lx = (b[0] - a[0]) / g, ly = (b[1] - a[1]) / g;
        s.push_back(a);
        std::vector<int> at;
        for (int q = 64; q < g; q += 64) if (r.coin(2, 3)) { at.push_back(q - r.in(1, 4)); at.push_back(q + r.in(1, 4)); }
        for (int m = r.in(0, 3); m > 0; m--) { int q = r.in(0, g); at.push_back(q); at.push_back(std::min(g, q + r.in(0, 3))); }
        std::sort(at.begin(), at.end());
        for (int q : at) s.push_back({ a[0] + q * lx, a[1] + q * ly });
    }
    if (r.coin()) std::reverse(s.begin(), s.end());
    s.push_back(s[0]);
    return s;
}
// The move limit has no say in the field.
static double limit(Rng& r) { return r.pick(std::vector<double>{ 0.5, 0.05, 0.25, 0.75, 0.95 }); }
static void run15(uint64_t seed, bool th)
{
    Rng r(seed);
    for (int n = 0; n < (th ? 1600 : 300); n++)
    {
        int w = r.in(1, 12), h = r.in(1, 12);
        bool poly = n % 2;
        Shape s = poly ? randomPolygon(r, w, h) : randomHoles(r, w, h, 0, 4);
        T.begin(std::string(poly ? "polygon " : "holes ") + J::arr(s));
        if (poly) { LevelSet ls(w, h, pointsOf(s), limit(r), r.in(3, 6), r.coin()); field("polygon", ls, s); }
        else { LevelSet ls(w, h, holesOf(s), limit(r), r.in(3, 6), r.coin()); field("holes", ls, s); }
    }
    for (int n = 0; n < (th ? 600 : 120); n++)
    {
        int w = r.in(1, 6), h = r.in(1, 6);
        Shape s = finePolygon(r, w, h);
        std::vector<Coord> p;
        for (auto& q : s) p.push_back(Coord(q[0] / 64.0, q[1] / 64.0));
        T.begin("fine " + J::arr(s));
        LevelSet ls(w, h, p, limit(r), r.in(3, 6), r.coin());
        field("fine", ls, s);
    }
    // Three to five holes each way, as many or not.
    const std::vector<std::vector<int> > sizes = { { 75, 78, 84, 90, 102 }, { 105, 107, 111, 120, 134 }, { 135, 140, 150, 160 } };
    for (int n = 0; n < (th ? 14 : 5); n++)
    {
        int nx = n % 3 == 0 ? r.in(0, 1) : n % 3 == 1 ? 0 : r.in(0, 2), ny = n % 3 == 0 ? nx : n % 3 == 1 ? r.in(1, 2) : r.in(0, nx);
        int w = r.pick(sizes[nx]), h = r.pick(sizes[ny]);
        // The closest spacings: as many holes as possible for the size, one way and the other.
        if (n == 3) { w = r.pick(std::vector<int>{ 75, 78 }); h = r.pick(std::vector<int>{ 99, 102 }); }
        if (n == 4) { w = r.pick(std::vector<int>{ 99, 102 }); h = r.pick(std::vector<int>{ 75, 78 }); }
        T.begin("swiss " + std::to_string(w) + "x" + std::to_string(h));
        LevelSet ls(w, h, limit(r), 6, false);
        field("swiss", ls, Shape());
    }
    for (int n = 0; n < (th ? 600 : 120); n++)
    {
        int w = r.in(3, 11), h = r.in(3, 11), band = r.in(3, 6), kind = n % 3;
        bool fixed = r.coin();
        double ml = limit(r);
        Shape a = kind == 2 ? randomPolygon(r, w, h) : randomHoles(r, w, h, 0, 2), b = kind ? randomPolygon(r, w, h) : randomHoles(r, w, h, 0, 2);
        T.begin("target " + std::to_string(kind) + " " + J::arr(a) + J::arr(b));
        // The target on its own, reinitialised.
        std::unique_ptr<LevelSet> t(kind ? new LevelSet(w, h, pointsOf(b), ml, band, fixed) : new LevelSet(w, h, holesOf(b), ml, band, fixed));
        if (!contour(t->signedDistance)) continue;
        t->reinitialise();
        std::unique_ptr<LevelSet> i(kind == 2 ? new LevelSet(w, h, pointsOf(a), ml, band, fixed) : new LevelSet(w, h, holesOf(a), ml, band, fixed));
        std::unique_ptr<LevelSet> x(kind == 0 ? new LevelSet(w, h, holesOf(a), holesOf(b), ml, band, fixed)
                                  : kind == 1 ? new LevelSet(w, h, holesOf(a), pointsOf(b), ml, band, fixed)
                                              : new LevelSet(w, h, pointsOf(a), pointsOf(b), ml, band, fixed));
        T.rec(J().k("ev", "target").k("target", digest(x->target)).k("targetRef", digest(t->signedDistance))
                 .k("field", digest(x->signedDistance)).k("fieldRef", digest(i->signedDistance)).k("band", View(*x).band()).k("bandRef", View(*i).band()));
    }
}
static Reg a("C14", run14), b("C15", run15);
