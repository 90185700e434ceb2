// C04, C05: reinitialisations of many fields.
#include "fields.h"
#include <algorithm>
using namespace slsm;

static int sgn(double v) { return (v > 0) - (v < 0); }

// Holder keeps the field; the masks of the field are irrelevant to the march.
struct Result { std::vector<double> out; std::vector<PopEvent> pops; };
static Result march(Holder& h)
{
    Result r;
    POPS.clear();
    h.ls.reinitialise();
    r.pops = POPS;
    r.out = h.ls.signedDistance;
    return r;
}
static bool hasContour(const Field& f)
{
    bool p = false, n = false;
    for (int v : f.phi) { if (v == 0) return true; (v > 0 ? p : n) = true; }
    return p && n;
}
static std::vector<int> rowOf(Holder& h, const std::vector<double>& v, double s)
{
    return h.row([&](unsigned n) { return fx(v[n], s, 20000000); });
}
// The march as a history of acceptances.
static void history(const Field& f, const std::string& what, int band = 6, bool fixed = false)
{
    if (!hasContour(f)) return;
    T.begin(what + " " + f.str());
    Holder h(f, 0.5, band, fixed);
    Result r = march(h);
    std::vector<int> num(h.ls.mesh.nNodes);
    for (int y = 0; y <= f.h; y++) for (int x = 0; x <= f.w; x++) num[h.node(x, y)] = x + y * (f.w + 1) + 1;
    std::vector<int> out4 = rowOf(h, r.out, 1e4);
    std::vector<int> zeroed = f.phi;
    bool hook = !r.pops.empty();
    T.rec(J().k("ev", "start").k("new", true).k("w", f.w).k("h", f.h).k("phi", f.phi).k("hook", hook).k("vals", out4).k("out6", rowOf(h, r.out, 1e6)));
    if (!hook)
    {
        // No heap events: order the remaining nodes by their distance.
        std::vector<std::pair<double, int> > o;
        for (int y = 0; y <= f.h; y++) for (int x = 0; x <= f.w; x++)
        {
            bool first = f.at(x, y) == 0;
            const int dx[4] = { -1, 1, 0, 0 }, dy[4] = { 0, 0, -1, 1 };
            for (int k = 0; k < 4; k++)
            {
                int X = x + dx[k], Y = y + dy[k];
                if (X >= 0 && Y >= 0 && X <= f.w && Y <= f.h && sgn(f.at(X, Y)) * sgn(f.at(x, y)) < 0) first = true;
            }
            if (!first) o.push_back({ std::abs(r.out[h.node(x, y)]), (int)h.node(x, y) });
        }
        std::sort(o.begin(), o.end());
        for (auto& p : o) r.pops.push_back({ (unsigned)p.second, p.first });
    }
    for (auto& p : r.pops)
        T.rec(J().k("ev", "pop").k("node", p.addr < num.size() ? num[p.addr] : 0).k("val", fx(p.value, 1e4, 20000000)));
    T.rec(J().k("ev", "end"));
}
static Field image(const Field& f, const std::string& kind)
{
    bool t = kind == "transpose";
    Field g(t ? f.h : f.w, t ? f.w : f.h, f.unit, f.bt);
    for (int y = 0; y <= f.h; y++) for (int x = 0; x <= f.w; x++)
    {
        int v = f.at(x, y);
        if (kind == "negate") g.at(x, y) = -v;
        else if (kind == "mirrorx") g.at(f.w - x, y) = v;
        else if (kind == "mirrory") g.at(x, f.h - y) = v;
        else g.at(y, x) = v;
    }
    return g;
}
static void symmetry(const Field& f, const std::string& what)
{
    if (!hasContour(f)) return;
    const char* kinds[] = { "negate", "mirrorx", "mirrory", "transpose" };
    Holder a(f);
    Result ra = march(a);
    for (auto kind : kinds)
    {
        T.begin(what + " " + kind + " " + f.str());
        Holder b(image(f, kind));
        Result rb = march(b);
        T.rec(J().k("ev", "sym").k("new", true).k("kind", kind).k("w", f.w).k("h", f.h).k("a", rowOf(a, ra.out, 1e6)).k("b", rowOf(b, rb.out, 1e6)));
    }
}
// Field with values that do not repeat, so that no two nodes tie.
static Field generic(Rng& r, int w, int h, bool rough)
{
    bool large = w * h > 400;
    Field f(w, h, 1e-6, 1);
    if (rough) { for (auto& v : f.phi) v = r.in(50000, 2000000) * (r.coin() ? 1 : -1); return f; }
    std::vector<double> cx, cy, cr;
    for (int k = large ? r.in(4, 20) : r.in(1, 3); k > 0; k--) { cx.push_back(r.u() * w); cy.push_back(r.u() * h); cr.push_back(0.8 + r.u() * (large ? 6 : 0.35 * (w + h) / 2)); }
    bool inv = r.coin(1, 3);
    double scale = r.coin() ? 1 : 0.3 + 3 * r.u();
    for (int y = 0; y <= h; y++) for (int x = 0; x <= w; x++)
    {
        double d = 1e9;
        for (size_t k = 0; k < cx.size(); k++) d = std::min(d, std::hypot(x - cx[k], y - cy[k]) - cr[k]);
        d *= scale * (inv ? -1 : 1);
        int v = (int)std::llround(d * 1e6) + r.in(-300, 300);
        f.at(x, y) = std::abs(v) < 500 ? (v < 0 ? -700 : 700) : v;
    }
    return f;
}
// How close a node comes to having two directions just too far apart to be combined (0: exactly).
static double tightness(const Field& f)
{
    Holder h(f);
    if (!hasContour(f)) return 9;
    h.ls.reinitialise();
    const std::vector<double>& v = h.ls.signedDistance;
    double best = 9;
    for (int y = 0; y <= f.h; y++) for (int x = 0; x <= f.w; x++)
    {
        double u = std::abs(v[h.node(x, y)]), t[2], w[2];
        int s = sgn(f.at(x, y)), n = 0;
        bool border = s == 0;
        for (int ax = 0; ax < 2; ax++)
        {
            double d = 1e9;
            for (int k = -1; k <= 1; k += 2)
            {
                int X = x + (ax ? 0 : k), Y = y + (ax ? k : 0);
                if (X < 0 || Y < 0 || X > f.w || Y > f.h) continue;
                if (sgn(f.at(X, Y)) * s < 0) border = true;
                double a = std::abs(v[h.node(X, Y)]);
                if (a >= u || a >= d) continue;
                d = a; t[n] = a; w[n] = 1;
                X += ax ? 0 : k; Y += ax ? k : 0;
                if (X < 0 || Y < 0 || X > f.w || Y > f.h) continue;
                double b = std::abs(v[h.node(X, Y)]);
                if (b <= a) { t[n] = (4 * a - b * (sgn(f.at(X, Y)) * s < 0 ? -1 : 1)) / 3; w[n] = 2.25; }
            }
            if (d < 1e9) n++;
        }
        if (border || n < 2) continue;
        best = std::min(best, std::abs(1 / w[0] + 1 / w[1] - (t[0] - t[1]) * (t[0] - t[1])));
    }
    return best;
}
static void run5(uint64_t seed, bool thorough)
{
    Rng r(seed);
    // Fields in which two directions can just, or just not, be combined.
    for (int n = 0; n < (thorough ? 400 : 40); n++)
    {
        Field f = generic(r, 2, 2, true);
        double best = tightness(f);
        for (int k = 0; k < 400 && best > 0.02; k++)
        {
            Field g = generic(r, r.in(2, 5), r.in(2, 5), true);
            if (r.coin()) { int s = r.coin() ? 1 : -1; for (auto& v : g.phi) if (r.coin(2, 3)) v = s * std::abs(v); }
            if (!hasContour(g)) continue;
            double d = tightness(g);
            if (d < best) { best = d; f = g; }
        }
        history(f, "tight");
    }
    for (int n = 0; n < (thorough ? 2500 : 240); n++)
    {
        int k = n % 7;
        Field f = k < 4 ? randomField(r, r.in(2, 9), r.in(2, 9), std::vector<int>{ 0, 2, 4, 7 }[k]) : generic(r, r.in(2, 12), r.in(2, 12), k == 4);
        // The distances do not depend on the scale of the field.
        if (r.coin(1, 3)) f.unit *= std::pow(10.0, r.coin() ? r.in(-20, -6) : r.in(-5, 8));
        // Nor do they on masks, the width of the band or whether the domain is fixed.
        if (r.coin(1, 3)) for (int& m : f.masked) m = r.coin(1, 4);
        history(f, "march", r.in(3, 6), r.coin(1, 3));
    }
    for (int n = 0; n < (thorough ? 1500 : 150); n++) symmetry(generic(r, r.in(2, 11), r.in(2, 11), n % 2), "symmetry");
    // Large meshes.
    for (int n = 0; n < (thorough ? 40 : 2); n++) history(generic(r, r.in(21, 30), r.in(21, 30), false), "large", r.in(3, 6), r.coin(1, 3));
    for (int n = 0; n < (thorough ? 100 : 8); n++) symmetry(generic(r, r.in(21, 90), r.in(21, 90), n % 3 == 2), "large symmetry");
}

static void reinit(LevelSet& ls, int w, int h, const std::function<void()>& f, const std::vector<int>* mask = nullptr)
{
    std::vector<unsigned> id;
    for (int y = 0; y <= h; y++) for (int x = 0; x <= w; x++) id.push_back(ls.mesh.xyToIndex[x][y]);
    std::vector<int> before, after, rank;
    std::vector<bool> fin;
    for (size_t i = 0; i < id.size(); i++) before.push_back(mask && (*mask)[i] ? -1 : sgn(ls.signedDistance[id[i]]));
    f();
    std::vector<double> d;
    d.push_back(0);
    for (unsigned i : id)
    {
        double v = ls.signedDistance[i];
        after.push_back(sgn(v));
        fin.push_back(std::isfinite(v) && std::abs(v) < 1e6);
        d.push_back(std::isnan(v) ? 1e300 : std::abs(v));
    }
    std::sort(d.begin(), d.end());
    d.erase(std::unique(d.begin(), d.end()), d.end());
    for (unsigned i : id) rank.push_back((int)(std::lower_bound(d.begin(), d.end(), std::isnan(ls.signedDistance[i]) ? 1e300 : std::abs(ls.signedDistance[i])) - d.begin()));
    T.rec(J().k("ev", "reinit").k("w", w).k("h", h).k("before", before).k("after", after).k("fin", fin).k("rank", rank));
}
static void run4(uint64_t seed, bool thorough)
{
    Rng r(seed);
    // Fields of all kinds; several reinitialisations in a row; magnitudes far from a distance field.
    for (int n = 0; n < (thorough ? 8000 : 800); n++)
    {
        Field f = n % 10 < 8 ? randomField(r, r.in(1, 9), r.in(1, 9), n % 10) : generic(r, r.in(2, 12), r.in(2, 12), n % 10 == 8);
        if (r.coin(1, 3)) f.unit *= std::pow(10.0, r.coin(1, 4) ? r.in(-24, -10) : r.in(-3, 3));
        if (!hasContour(f)) continue;
        T.begin("reinit " + f.str());
        Holder h(f);
        for (int k = r.in(1, 3); k > 0; k--) reinit(h.ls, f.w, f.h, [&] { h.ls.reinitialise(); });
    }
    // Histories: shapes, masks, updates, reinitialisations.
    for (int n = 0; n < (thorough ? 1200 : 124); n++)
    {
        bool large = n % 31 == 30;
        int w = large ? r.in(20, 80) : r.in(4, 14), hh = large ? r.in(20, 80) : r.in(4, 14);
        T.begin("history " + std::to_string(n));
        std::vector<Hole> holes;
        for (int k = r.in(1, 3); k > 0; k--) holes.push_back(Hole(r.u() * w, r.u() * hh, 0.8 + 3 * r.u()));
        LevelSet ls(w, hh, holes, 0.5, r.in(3, 6), r.coin(1, 3));
        if (!contour(ls.signedDistance)) continue;                // the holes cover the domain
        reinit(ls, w, hh, [&] { ls.reinitialise(); });
        for (int s = r.in(1, 5); s > 0; s--)
        {
            if (r.coin(1, 3))
            {
                double cx = r.u() * w, cy = r.u() * hh, cr = 0.8 + 2 * r.u();
                std::vector<int> m;
                for (int y = 0; y <= hh; y++) for (int x = 0; x <= w; x++) m.push_back(std::hypot(x - cx, y - cy) < cr);
                std::vector<Hole> mk; mk.push_back(Hole(cx, cy, cr));
                bool any = false;
                for (int y = 0; y <= hh; y++) for (int x = 0; x <= w; x++) any |= ls.signedDistance[ls.mesh.xyToIndex[x][y]] >= 0 && !m[x + y * (w + 1)];
                if (!any) continue;                    // nothing would be left
                reinit(ls, w, hh, [&] { ls.mask(mk); }, &m);
            }
            else
            {
                Boundary b;
                b.discretise(ls);
                b.computeNormalVectors(ls);
                for (auto& p : b.points) p.velocity = r.u() * 2 - 1;
                ls.computeVelocities(b.points);
                ls.computeGradients();
                double dt = 0.3 * r.u();
                if (!survives(ls, dt)) break;
                ls.update(dt);
                reinit(ls, w, hh, [&] { ls.reinitialise(); });
            }
        }
    }
}
static Reg a("C05", run5), b("C04", run4);
