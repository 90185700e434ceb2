// C06: velocity extensions.
#include "fields.h"
#include "FastMarchingMethod.h"
#include <algorithm>
using namespace slsm;

static int sgn(double v) { return (v > 0) - (v < 0); }
static const double VS = 1e3;

// Velocity patterns for the boundary points (in 10^-3).
static std::vector<int> pattern(Rng& r, size_t n, int kind)
{
    std::vector<int> v(n);
    int c = r.in(-5000, 5000), one = n ? r.in(0, (int)n - 1) : 0;
    for (size_t i = 0; i < n; i++)
        v[i] = kind == 0 ? c : kind == 1 ? r.in(-5000, 5000) : kind == 2 ? ((int)i == one ? 4000 : 0) : kind == 3 ? (r.coin() ? 3000 : -3000) : r.in(0, 3000);
    return v;
}
struct Case
{
    LevelSet& ls;
    Boundary b;
    int w, h;
    std::vector<unsigned> id;
    std::vector<int> num;
    Case(LevelSet& l) : ls(l), w(l.mesh.width), h(l.mesh.height)
    {
        b.discretise(ls);
        num.resize(ls.mesh.nNodes);
        for (int y = 0; y <= h; y++) for (int x = 0; x <= w; x++) { num[ls.mesh.xyToIndex[x][y]] = (int)id.size() + 1; id.push_back(ls.mesh.xyToIndex[x][y]); }
    }
    // Points too near a node to tell which rule applies.
    bool clear() const
    {
        for (auto& p : b.points)
        {
            double dx = std::abs(p.coord.x - std::round(p.coord.x)), dy = std::abs(p.coord.y - std::round(p.coord.y)), d = std::hypot(dx, dy);
            if (d > 9e-4 && d < 2e-3) return false;
            if (std::min(dx, dy) > 1e-9) return false;
        }
        return true;
    }
    std::vector<int> extend(const std::vector<int>& v)
    {
        std::vector<BoundaryPoint> p = b.points;
        for (size_t i = 0; i < p.size(); i++) p[i].velocity = v[i] / VS;
        ls.computeVelocities(p);
        return out();
    }
    std::vector<int> out() const
    {
        std::vector<int> o;
        for (unsigned n : id) o.push_back(fx(ls.velocity[n], VS, 100000000));
        return o;
    }
    void record(const std::vector<int>& v)
    {
        std::vector<double> before = ls.signedDistance, ref = before;
        {
            FastMarchingMethod fmm(ls.mesh, false);
            fmm.march(ref);
        }
        POPS.clear();
        std::vector<int> vel = extend(v);
        std::vector<PopEvent> pops = POPS;
        std::vector<int> phi, act, dist;
        for (unsigned n : id) { phi.push_back(sgn(before[n])); act.push_back(ls.mesh.nodes[n].isActive); dist.push_back(fx(ref[n], 1e6, 200000000)); }
        std::string pts = "[";
        for (size_t i = 0; i < b.points.size(); i++)
        {
            J q; q.k("x", fx(b.points[i].coord.x, 1e6)).k("y", fx(b.points[i].coord.y, 1e6)).k("v", v[i]);
            pts += (i ? "," : "") + q.str();
        }
        T.rec(J().k("ev", "start").k("new", true).k("w", w).k("h", h).k("phi", phi).k("active", act).k("dist", dist).raw("pts", pts + "]")
               .k("vel", vel).k("phiBefore", digest(before)).k("phiAfter", digest(ls.signedDistance)));
        for (auto& p : pops) T.rec(J().k("ev", "pop").k("node", p.addr < num.size() ? num[p.addr] : 0).k("val", fx(p.value, 1e6, 200000000)));
        T.rec(J().k("ev", "end"));
    }
    void linear(Rng& r)
    {
        std::vector<int> a = pattern(r, b.points.size(), 1), c = pattern(r, b.points.size(), 4), m(a.size());
        int k = r.in(-3, 3);
        for (size_t i = 0; i < a.size(); i++) m[i] = k * a[i] + c[i];
        std::vector<int> va = extend(a), vb = extend(c), vc = extend(m);
        T.rec(J().k("ev", "lin").k("new", true).k("k", k).k("a", va).k("b", vb).k("c", vc));
        // The same velocities in other units (a power of two, so that nothing is rounded).
        double u = std::ldexp(1.0, r.in(-70, 70));
        std::vector<BoundaryPoint> p = b.points;
        for (size_t i = 0; i < p.size(); i++) p[i].velocity = a[i] / VS * u;
        ls.computeVelocities(p);
        for (auto& x : ls.velocity) x /= u;
        T.rec(J().k("ev", "lin").k("new", true).k("k", 1).k("a", va).k("b", std::vector<int>(va.size(), 0)).k("c", out()));
    }
};
// What else a point carries has no influence.
static void attributes(Rng& r, std::vector<BoundaryPoint>& b)
{
    if (r.coin()) return;
    for (auto& p : b)
    {
        p.isFixed = r.coin(1, 3); p.isDomain = r.coin(1, 3);
        p.negativeLimit = r.coin(1, 3) ? 0 : -r.u(); p.positiveLimit = r.coin(1, 3) ? 0 : r.u();
        p.length = r.coin(1, 4) ? 0 : 2 * r.u();
        p.normal.x = r.in(-1, 1); p.normal.y = r.in(-1, 1);
        if (r.coin(1, 4)) p.nSegments = p.nNeighbours = r.in(0, 1);
        for (double& e : p.sensitivities) e = r.in(-2, 2);
    }
}
static void all(Rng& r, LevelSet& ls)
{
    Case c(ls);
    if (!c.clear()) return;
    attributes(r, c.b.points);
    c.record(pattern(r, c.b.points.size(), r.in(0, 4)));
    if (r.coin(1, 2)) c.linear(r);
}
// Lists of boundary points of any order and number: on the contour of the field, shifted along its grid lines, some
// onto or nearly onto a node, some twice.
static void lists(Rng& r, LevelSet& ls)
{
    Case c(ls);
    std::vector<BoundaryPoint>& p = c.b.points;
    if (p.empty()) return;
    for (int k = r.in(0, 4); k > 0; k--) p.push_back(p[r.in(0, (int)p.size() - 1)]);
    for (auto& q : p)
    {
        double fx_ = q.coord.x - std::floor(q.coord.x), fy = q.coord.y - std::floor(q.coord.y);
        double s = r.pick(std::vector<double>{ -1, 0, 2e-4, 7e-4, 4e-3, 0.02, 1 - 0.02, 1 - 4e-3, 1 - 7e-4, 1 - 2e-4, 1, r.u() });
        if (s < 0) continue;
        if (fx_ > 0) q.coord.x = std::min<double>(c.w, std::floor(q.coord.x) + s);
        else if (fy > 0) q.coord.y = std::min<double>(c.h, std::floor(q.coord.y) + s);
    }
    attributes(r, p);
    for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[r.in(0, (int)i - 1)]);
    if (!c.clear()) return;
    c.record(pattern(r, p.size(), r.in(0, 4)));
    if (r.coin(1, 2)) c.linear(r);
}
// The same velocity everywhere on the contour, free domain, meshes up to a thousand cells a side: what the band gets.
static void uniform(Rng& r, int w, int h)
{
    T.begin("uniform " + std::to_string(w) + "x" + std::to_string(h));
    std::vector<Hole> holes;
    for (int k = r.in(1, 3); k > 0; k--)                // away from the edges, where nodes on the contour may have no point
    {
        double q = 1 + r.u() * (std::min(w, h) / 2.0 - 2.5);
        holes.push_back(Hole(1.1 + q + r.u() * (w - 2.2 - 2 * q), 1.1 + q + r.u() * (h - 2.2 - 2 * q), q));
    }
    LevelSet ls(w, h, holes, 0.5, r.in(3, 7), false);
    if (!contour(ls.signedDistance)) return;
    if (w * h < 40000) ls.reinitialise();
    Boundary b;
    b.discretise(ls);
    int v = r.in(1, 5000) * (r.coin() ? 1 : -1), lo = BIG, hi = -BIG;
    for (auto& p : b.points) p.velocity = v / VS;
    std::vector<double> before = ls.signedDistance;
    ls.computeVelocities(b.points);
    for (unsigned i = 0; i < ls.mesh.nNodes; i++) if (ls.mesh.nodes[i].isActive) { lo = std::min(lo, fx(ls.velocity[i], VS)); hi = std::max(hi, fx(ls.velocity[i], VS)); }
    T.rec(J().k("ev", "uniform").k("new", true).k("v", v).k("lo", lo).k("hi", hi).k("phiBefore", digest(before)).k("phiAfter", digest(ls.signedDistance)));
}
static void run(uint64_t seed, bool thorough)
{
    Rng r(seed);
    // Raw fields, with masked nodes and both kinds of domain.
    for (int n = 0; n < (thorough ? 2000 : 200); n++)
    {
        Field f = randomField(r, r.in(2, 8), r.in(2, 8), std::vector<int>{ 0, 1, 2, 3, 4, 7 }[n % 6]);
        bool p = false, q = false;
        for (int v : f.phi) { p |= v >= 0; q |= v <= 0; }
        if (!p || !q) continue;
        if (r.coin(1, 3)) for (size_t i = 0; i < f.phi.size(); i++) f.masked[i] = f.phi[i] < 0 && r.coin(1, 3);
        bool fixed = r.coin(1, 3);
        // Nodes that the contour passes at a distance below 10^-3.
        if (r.coin(1, 3)) { for (auto& v : f.phi) v *= 10000; f.unit /= 10000; for (int k = r.in(1, 4); k > 0; k--) f.phi[r.in(0, (int)f.phi.size() - 1)] = r.pick(std::vector<int>{ 1, -1, 4, -4 }) * (f.unit < 1e-5 ? 100 : 1); }
        T.begin(std::string("raw ") + (fixed ? "fixed " : "free ") + f.str());
        Holder h(f, 0.5, r.in(3, 6), fixed);
        if (n % 2) lists(r, h.ls); else all(r, h.ls);
    }
    // Histories of shapes.
    for (int n = 0; n < (thorough ? 500 : 50); n++)
    {
        bool large = n % 25 == 24;
        int w = large ? r.in(17, 28) : r.in(4, 12), h = large ? r.in(17, 28) : r.in(4, 12);
        T.begin("history " + std::to_string(n));
        std::vector<Hole> holes;
        for (int k = large ? r.in(4, 9) : r.in(1, 3); k > 0; k--) holes.push_back(Hole(r.u() * w, r.u() * h, 0.8 + 2.5 * r.u()));
        LevelSet ls(w, h, holes, 0.5, r.in(3, 5), r.coin(1, 3));
        if (!contour(ls.signedDistance)) continue;
        ls.reinitialise();
        for (int s = r.in(1, 3); s > 0; s--)
        {
            if (r.coin(1, 4))
            {
                double cx = r.u() * w, cy = r.u() * h, cr = 0.8 + r.u();
                bool any = false;
                for (unsigned i = 0; i < ls.mesh.nNodes; i++) any |= ls.signedDistance[i] >= 0 && std::hypot(ls.mesh.nodes[i].coord.x - cx, ls.mesh.nodes[i].coord.y - cy) >= cr;
                std::vector<Hole> mk; mk.push_back(Hole(cx, cy, cr));
                if (any) ls.mask(mk);
            }
            all(r, ls);
            ls.computeGradients();
            double dt = 0.1 * r.u();
            if (!survives(ls, dt)) break;
            ls.update(dt);
        }
    }
    uniform(r, 1000, 1000);
    for (int n = 0; n < (thorough ? 60 : 12); n++) uniform(r, r.in(8, n % 3 ? 40 : 240), r.in(8, n % 3 ? 40 : 240));
}
static Reg reg("C06", run);
