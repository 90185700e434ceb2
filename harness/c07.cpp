// C07, C08, C24: the narrow band along histories of updates, masks and reinitialisations.
#include "fields.h"
#include <memory>
using namespace slsm;

static const double U = 4194304;            // 2^22: products of sixteenths are multiples of 1024 / U

struct View
{
    LevelSet& ls;
    int w, h, band;
    bool fixed;
    std::vector<unsigned> id;
    std::vector<int> num;
    View(LevelSet& l, int b, bool f) : ls(l), w(l.mesh.width), h(l.mesh.height), band(b), fixed(f)
    {
        num.resize(ls.mesh.nNodes);
        for (int y = 0; y <= h; y++) for (int x = 0; x <= w; x++) { num[ls.mesh.xyToIndex[x][y]] = (int)id.size() + 1; id.push_back(ls.mesh.xyToIndex[x][y]); }
    }
    template <class F> std::vector<int> row(F f) const { std::vector<int> v; for (unsigned n : id) v.push_back(f(n)); return v; }
    std::vector<int> list(const std::vector<unsigned>& v, unsigned n) const
    {
        std::vector<int> r;
        for (unsigned i = 0; i < n; i++) r.push_back(i < v.size() && v[i] < num.size() ? num[v[i]] : 0);
        return r;
    }
    J common(const char* ev, bool isNew, bool tame)
    {
        J j;
        j.k("ev", ev).k("new", isNew).k("w", w).k("h", h).k("bw", band).k("fixed", fixed).k("tame", tame);
        std::vector<bool> act, mine, near;
        for (unsigned n : id)
        {
            act.push_back(ls.mesh.nodes[n].isActive);
            mine.push_back(ls.mesh.nodes[n].isMine);
            bool c = false;
            double v = ls.signedDistance[n];
            // An end of an edge that the contour crosses (masked ends excepted).
            for (unsigned m : ls.mesh.nodes[n].neighbours)
                if (m < ls.mesh.nNodes && !ls.mesh.nodes[m].isMasked && !(fixed && ls.mesh.nodes[m].isDomain)) c |= v * ls.signedDistance[m] < 0;
            near.push_back(c);
        }
        j.k("masked", row([&](unsigned n) { return (int)ls.mesh.nodes[n].isMasked; }));
        j.k("fl", row([&](unsigned n) { double a = std::abs(ls.signedDistance[n]); return a < 1e6 ? (int)std::floor(a) : 1000000; }));
        j.k("band", list(ls.narrowBand, ls.nNarrowBand)).k("nb", ls.nNarrowBand).k("mines", list(ls.mines, ls.nMines)).k("nm", ls.nMines);
        j.k("act", act).k("mine", mine).k("near", near).k("digest", digest(ls.signedDistance));
        return j;
    }
    void build(bool isNew, bool tame) { T.rec(common("build", isNew, tame)); }
    template <class F> void keep(F f, bool tame)
    {
        std::vector<int> b = digest(ls.signedDistance);
        f();
        T.rec(common("keep", false, tame).k("before", b));
    }
};

// An update whose result is exact: values k/2^22, gradients and velocities k/16, time step k/16.
static bool exactUpdate(Rng& r, View& v, bool big)
{
    LevelSet& ls = v.ls;
    for (auto& d : ls.signedDistance) d = std::round(d * U) / U;
    std::vector<int> g(v.id.size()), vel(v.id.size()), phi;
    for (size_t i = 0; i < v.id.size(); i++)
    {
        g[i] = r.in(0, 20); vel[i] = r.in(-16, 16) * (big ? 4 : 1);
        ls.gradient[v.id[i]] = g[i] / 16.0; ls.velocity[v.id[i]] = vel[i] / 16.0;
        phi.push_back(fx(ls.signedDistance[v.id[i]], U));
    }
    int t = r.pick(std::vector<int>{ 0, 1, 2, 4, 8, 16 });
    double dt = t / 16.0;
    // Direct a few mines close to the distance of one cell.
    if (ls.nMines && r.coin() && t)
    {
        unsigned m = ls.mines[r.in(0, ls.nMines - 1)];
        std::vector<unsigned> rim;
        for (unsigned i = 0; i < ls.nMines; i++) if (ls.mesh.nodes[ls.mines[i]].isDomain) rim.push_back(ls.mines[i]);
        bool loose = r.coin(2, 3);
        if (loose && !rim.empty() && r.coin(2, 3)) m = r.pick(rim);
        double want = r.pick(std::vector<double>{ 1.0, 1.0 - 1 / U, 1.0 + 1 / U, 0.5, -1.0, -1.0 + 1 / U });
        double need = (ls.signedDistance[m] - want) / dt * 256;       // 16 v, v in 1/16
        if (loose)
        {
            // Anywhere between half a cell and a little more than one, on the side it is on; often all other mines rest.
            want = (ls.signedDistance[m] < 0 ? -1 : 1) * (r.coin() ? 0.5 + 0.55 * r.u() : 0.85 + 0.2 * r.u());
            need = std::round((ls.signedDistance[m] - want) / dt * 256);
            if (r.coin(2, 3)) for (unsigned q = 0; q < ls.nMines; q++) ls.velocity[ls.mines[q]] = 0;
            for (size_t i = 0; i < v.id.size(); i++) vel[i] = (int)(ls.velocity[v.id[i]] * 16);
        }
        if (need == std::round(need) && std::abs(need) < 1e5)
        {
            ls.gradient[m] = 1 / 16.0;
            ls.velocity[m] = need / 16;
            for (size_t i = 0; i < v.id.size(); i++) if (v.id[i] == m) { g[i] = 1; vel[i] = (int)need; }
        }
    }
    // Some nodes end within a few millionths of zero, on either side.
    if (r.coin(1, 3))
        for (size_t i = 0; i < v.id.size(); i++)
            if (r.coin(1, 3) && ls.mesh.nodes[v.id[i]].isActive && !ls.mesh.nodes[v.id[i]].isMine)
            {
                phi[i] = t * g[i] * vel[i] * 1024 + r.in(-5, 5);
                ls.signedDistance[v.id[i]] = phi[i] / U;
            }
    if (!survives(ls, dt)) return false;
    // The advanced field on its own level set, freshly reinitialised.
    std::vector<double> adv = ls.signedDistance;
    for (unsigned i = 0; i < ls.nNarrowBand; i++)
    {
        unsigned n = ls.narrowBand[i];
        adv[n] -= dt * ls.gradient[n] * ls.velocity[n];
        if (ls.mesh.nodes[n].isDomain && adv[n] > 0) adv[n] = 0;
    }
    Field f(v.w, v.h);
    for (size_t i = 0; i < v.id.size(); i++) f.masked[i] = ls.mesh.nodes[v.id[i]].isMasked;
    Holder ref(f, 0.5, v.band, v.fixed);
    ref.ls.signedDistance = adv;
    ref.ls.reinitialise();
    std::vector<int> refBand;
    for (unsigned i = 0; i < ref.ls.nNarrowBand; i++) refBand.push_back(v.num[ref.ls.narrowBand[i]]);
    std::vector<int> advOut;
    for (unsigned n : v.id) advOut.push_back(fx(adv[n], U));
    bool ret = ls.update(dt);
    std::vector<int> out;
    for (unsigned n : v.id)
    {
        double x = ls.signedDistance[n] * U;
        out.push_back(std::abs(x) < 1e9 && x == std::round(x) ? (int)x : BIG);
    }
    T.rec(v.common("update", false, false).k("phi", phi).k("g", g).k("v", vel).k("t", t).k("unit", (int)U).k("ret", ret)
           .k("out", out).k("adv", advOut).k("refDigest", digest(ref.ls.signedDistance)).k("refBand", refBand));
    return true;
}

static bool randomMask(Rng& r, View& v, bool tame)
{
    LevelSet& ls = v.ls;
    if (r.coin())
    {
        double cx = r.u() * v.w, cy = r.u() * v.h, cr = 0.8 + 1.5 * r.u();
        bool any = false;
        for (auto& n : ls.mesh.nodes) any |= ls.signedDistance[n.neighbours.size() ? &n - &ls.mesh.nodes[0] : 0] >= 0 && std::hypot(n.coord.x - cx, n.coord.y - cy) >= cr;
        if (!any) return false;
        std::vector<Hole> m; m.push_back(Hole(cx, cy, cr));
        ls.mask(m);
    }
    else
    {
        double x0 = r.u() * v.w, y0 = r.u() * v.h, x1 = x0 + 3 * r.u(), y1 = y0 + 3 * r.u();
        bool any = false;
        for (auto& n : ls.mesh.nodes) any |= ls.signedDistance[&n - &ls.mesh.nodes[0]] >= 0 && !(n.coord.x > x0 && n.coord.x < x1 && n.coord.y > y0 && n.coord.y < y1);
        if (!any) return false;
        std::vector<Coord> c; c.push_back(Coord(x0, y0)); c.push_back(Coord(x1, y1));
        ls.mask(c);
    }
    v.build(false, tame);
    return true;
}
static bool rimHole = false;                // also void that is deeper than the band at the edge of the domain
static std::unique_ptr<LevelSet> shape(Rng& r, int& w, int& h, int& band, bool& fixed, int lo, int hi)
{
    w = r.in(lo, hi); h = r.in(lo, hi); band = r.in(3, 7); fixed = r.coin(1, 3);
    std::vector<Hole> holes;
    for (int k = lo > 14 ? r.in(4, 16) : r.in(0, 3); k > 0; k--) holes.push_back(Hole(r.coin() ? r.in(0, w) : r.u() * w, r.coin() ? r.in(0, h) : r.u() * h, r.coin(1, 3) ? r.in(1, 3) : 0.7 + 2.5 * r.u()));
    if (rimHole) { rimHole = false; holes.push_back(Hole(r.coin() ? 0 : w, r.u() * h, band - 0.9 + 1.9 * r.u())); }
    else if (w > 1 && h > 1 && r.coin(1, 3))
    {
        std::vector<Coord> p;
        double x0 = r.in(0, w - 2), y0 = r.in(0, h - 2), x1 = r.in((int)x0 + 1, w), y1 = r.in((int)y0 + 1, h);
        double s = r.coin() ? 0.5 : 0;
        p.push_back(Coord(x0 + s, y0)); p.push_back(Coord(x0 + s, y1)); p.push_back(Coord(x1, y1)); p.push_back(Coord(x1, y0)); p.push_back(p[0]);
        return std::unique_ptr<LevelSet>(new LevelSet(w, h, p, 0.5, band, fixed));
    }
    return std::unique_ptr<LevelSet>(new LevelSet(w, h, holes, 0.5, band, fixed));
}
static void exactHistories(Rng& r, int count)
{
    for (int n = 0; n < count; n++)
    {
        int w, h, band; bool fixed;
        T.begin("exact history " + std::to_string(n));
        rimHole = r.coin(1, 3);
        std::unique_ptr<LevelSet> ls = n % 40 == 39 ? shape(r, w, h, band, fixed, 17, 45) : shape(r, w, h, band, fixed, 1 + (n % 3) * 2, 12);
        View v(*ls, band, fixed);
        v.build(true, false);
        if (!contour(ls->signedDistance)) continue;
        for (int s = r.in(2, 10); s > 0; s--)
        {
            int k = r.in(0, 9);
            if (k < 6) { if (!exactUpdate(r, v, k == 0)) break; }
            else if (k == 6) { ls->reinitialise(); v.build(false, false); }
            else if (k == 7) { randomMask(r, v, false); if (!contour(ls->signedDistance)) break; }
            else if (k == 8) v.keep([&] { Boundary b; b.discretise(*ls); b.computeNormalVectors(*ls); ls->computeAreaFractions(b); }, false);
            else if (w > 4 && h > 4) v.keep([&] { Boundary b; b.discretise(*ls); for (auto& p : b.points) p.velocity = r.u() - 0.5; ls->computeVelocities(b.points); ls->computeGradients(); }, false);
        }
    }
}
// The band of raw fields with values near the thresholds.
static void thresholds(Rng& r, int count)
{
    for (int n = 0; n < count; n++)
    {
        int band = r.in(3, 6);
        Field f(r.in(1, 7), r.in(1, 7));
        bool fixed = r.coin();
        T.begin("thresholds " + std::to_string(n));
        std::vector<Hole> hole; hole.push_back(Hole(0.5 * f.w, 0.5 * f.h, 0.7));
        LevelSet ls(f.w, f.h, hole, 0.5, band, fixed);
        View v(ls, band, fixed);
        // Distances that a reinitialisation keeps: one line of nodes on the contour, the others at multiples of a cell.
        int x0 = r.in(0, f.w);
        bool t = r.coin(), tilt = r.coin(1, 3);
        double off = r.coin() ? 0 : r.u();
        for (auto& nd : ls.mesh.nodes) ls.signedDistance[&nd - &ls.mesh.nodes[0]] = (t ? nd.coord.x : nd.coord.y) - x0 + off + (tilt ? 0.3 * (t ? nd.coord.y : nd.coord.x) : 0);
        for (auto& nd : ls.mesh.nodes) nd.isMasked = r.coin(1, 10);
        if (!contour(ls.signedDistance)) continue;
        ls.reinitialise();
        v.build(true, false);
        for (int k = 0; k < 2; k++)
        {
            if (!exactUpdate(r, v, false)) break;
            if (r.coin()) { if (!contour(ls.signedDistance)) break; ls.reinitialise(); v.build(false, false); }
        }
    }
}
// Stripes: more mines than the array of mines starts with room for.
static void stripes(Rng& r, int count)
{
    for (int n = 0; n < count; n++)
    {
        int band = r.in(3, 5), gap = 2 * (band - 1) + r.in(0, 2), w = r.in(3, 40), h = r.in(3 * gap, 44);
        bool fixed = r.coin(1, 3), t = r.coin();
        if (t) std::swap(w, h);
        T.begin("stripes " + std::to_string(n));
        std::vector<Hole> hole; hole.push_back(Hole(0.5 * w, 0.5 * h, 0.7));
        LevelSet ls(w, h, hole, 0.5, band, fixed);
        View v(ls, band, fixed);
        int o = r.in(0, gap - 1);
        double side = r.coin() ? 1 : -1, off = r.coin() ? 0.5 : 0.01 + 0.4 * r.u();
        for (auto& nd : ls.mesh.nodes)
        {
            int k = (int)(t ? nd.coord.x : nd.coord.y) + o, s = k / gap, p = k % gap;
            double d = std::min(p + off, gap - p - off);
            ls.signedDistance[&nd - &ls.mesh.nodes[0]] = side * (s % 2 ? -d : d);
        }
        if (!contour(ls.signedDistance)) continue;
        ls.reinitialise();
        v.build(true, false);
        for (int k = r.in(0, 2); k > 0; k--) if (!exactUpdate(r, v, false)) break;
    }
}
// Evolutions with the whole pipeline, steps within the move limit.
static void evolutions(Rng& r, int count, int steps, int hi)
{
    for (int n = 0; n < count; n++)
    {
        int w, h, band; bool fixed;
        T.begin("evolution " + std::to_string(n));
        std::unique_ptr<LevelSet> ls = shape(r, w, h, band, fixed, hi > 24 ? 17 : 5, hi);
        View v(*ls, band, fixed);
        if (!contour(ls->signedDistance)) continue;
        if (r.coin(2, 3)) ls->reinitialise();
        v.build(true, true);
        int mode = r.in(0, 3);
        double cx = r.u() * w, cy = r.u() * h, sp = r.coin() ? 0.45 : -0.45;
        for (int s = 0; s < steps; s++)
        {
            Boundary b;
            b.discretise(*ls);
            b.computeNormalVectors(*ls);
            for (auto& p : b.points)
            {
                double d = std::hypot(p.coord.x - cx, p.coord.y - cy);
                double u = mode == 0 ? sp : mode == 1 ? (d < 3 ? sp : 0) : mode == 2 ? sp * std::cos(d) : 0.9 * (r.u() - 0.5);
                p.velocity = std::max(p.negativeLimit, std::min(p.positiveLimit, u));
            }
            ls->computeVelocities(b.points);
            ls->computeGradients();
            if (!survives(*ls, 1)) break;
            std::vector<int> jump;
            for (unsigned m : v.id) jump.push_back(ls->mesh.nodes[m].isActive && std::abs(ls->gradient[m] * ls->velocity[m]) >= 1);
            bool small = true;
            for (int j : jump) small &= !j;
            bool ret = ls->update(1);
            T.rec(v.common("step", false, small).k("ret", ret).k("jump", jump));
            if (!small) break;
            if (r.coin(1, 30)) { randomMask(r, v, true); if (!contour(ls->signedDistance)) break; }
        }
    }
}
// A straight contour (axis-aligned or tilted) that sweeps the domain with up to one cell per update, through the whole
// pipeline; the mines start at any distance.
static void sweeps(Rng& r, int count)
{
    for (int n = 0; n < count; n++)
    {
        int w = r.in(6, 14), h = r.in(10, 24), band = r.in(3, 5);
        bool fixed = r.coin(1, 4), t = r.coin(), up = r.coin();
        if (t) std::swap(w, h);
        T.begin("sweep " + std::to_string(n));
        std::vector<Hole> hole; hole.push_back(Hole(0.5 * w, 0.5 * h, 0.7));
        LevelSet ls(w, h, hole, 0.99, band, fixed);
        View v(ls, band, fixed);
        int L = t ? w : h;
        double off = 2 + (L - 4) * r.u(), tilt = r.coin(2, 3) ? 0 : 0.6 * (r.u() - 0.5), ripple = r.coin(1, 4) ? 0.4 : 0;
        for (auto& nd : ls.mesh.nodes)
        {
            double a = t ? nd.coord.x : nd.coord.y, b = t ? nd.coord.y : nd.coord.x;
            double d = a - off + tilt * (b - (t ? h : w) / 2.0) + ripple * std::sin(b);
            ls.signedDistance[&nd - &ls.mesh.nodes[0]] = up ? d : -d;
        }
        if (!contour(ls.signedDistance)) continue;
        ls.reinitialise();
        v.build(true, true);
        double sp = (0.55 + 0.44 * r.u()) * (r.coin() ? 1 : -1);
        bool vary = r.coin(1, 3);
        for (int s = 0; s < 30; s++)
        {
            Boundary b;
            b.discretise(ls);
            b.computeNormalVectors(ls);
            double u = vary && r.coin(1, 4) ? -sp : sp;
            for (auto& p : b.points) p.velocity = u;
            ls.computeVelocities(b.points);
            ls.computeGradients();
            if (!survives(ls, 1)) break;
            std::vector<int> jump;
            for (unsigned m : v.id) jump.push_back(ls.mesh.nodes[m].isActive && std::abs(ls.gradient[m] * ls.velocity[m]) >= 1);
            bool small = true;
            for (int j : jump) small &= !j;
            if (!small) break;
            bool ret = ls.update(1);
            T.rec(v.common("step", false, true).k("ret", ret).k("jump", jump));
        }
    }
}
static void run7(uint64_t seed, bool th) { Rng r(seed); thresholds(r, th ? 1500 : 150); stripes(r, th ? 80 : 10); exactHistories(r, th ? 1200 : 120); evolutions(r, th ? 150 : 15, 12, 16); evolutions(r, th ? 20 : 2, 5, 50); }
static void run8(uint64_t seed, bool th) { Rng r(seed); exactHistories(r, th ? 2000 : 250); thresholds(r, th ? 600 : 60); }
static void run24(uint64_t seed, bool th) { Rng r(seed); evolutions(r, th ? 600 : 70, 25, 14); evolutions(r, th ? 60 : 6, 40, 24); evolutions(r, th ? 20 : 2, 12, 50); sweeps(r, th ? 1500 : 150); }
static Reg a("C07", run7), b("C08", run8), c("C24", run24);
