// C19: sensitivities and the Ito correction.
#include "fields.h"
#include "Sensitivity.h"
#include <algorithm>
using namespace slsm;

static void push(std::vector<double>& v, const BoundaryPoint& p, bool coord, bool normal, bool sens0)
{
    if (coord) { v.push_back(p.coord.x); v.push_back(p.coord.y); }
    if (normal) { v.push_back(p.normal.x); v.push_back(p.normal.y); }
    for (double d : { p.length, p.velocity, p.negativeLimit, p.positiveLimit, (double)p.isDomain, (double)p.isFixed, (double)p.nSegments, (double)p.nNeighbours }) v.push_back(d);
    for (unsigned k = 0; k < p.nSegments; k++) v.push_back(p.segments[k]);
    for (unsigned k = 0; k < p.nNeighbours; k++) v.push_back(p.neighbours[k]);
    for (size_t k = sens0 ? 0 : 1; k < p.sensitivities.size(); k++) v.push_back(p.sensitivities[k]);
}
static std::vector<int> attributes(const BoundaryPoint& p) { std::vector<double> v; push(v, p, false, true, true); return digest(v); }
static std::vector<int> everything(const Boundary& b, bool sens0)
{
    std::vector<double> v;
    for (auto& p : b.points) push(v, p, true, true, sens0);
    for (auto& s : b.segments) for (double d : { (double)s.start, (double)s.end, (double)s.element, s.length, s.weight }) v.push_back(d);
    v.push_back(b.length); v.push_back(b.nPoints); v.push_back(b.nSegments);
    return digest(v);
}
static std::vector<std::vector<int>> perPoint(const Boundary& b)
{
    std::vector<std::vector<int>> r;
    for (auto& p : b.points) { std::vector<double> v; push(v, p, true, true, false); r.push_back(digest(v)); }
    return r;
}
static std::vector<int> place(const BoundaryPoint& p) { std::vector<int> a = words(p.coord.x), b = words(p.coord.y); a.insert(a.end(), b.begin(), b.end()); return a; }

static void one(Rng& r, bool exact)
{
    BoundaryPoint p;
    double delta; int dinv = 0, pw = 0, lq = 4;
    static const std::vector<int> invs = { 4, 10, 100, 1000, 10000 };
    if (exact) { pw = r.in(1, 8); delta = std::ldexp(1.0, -pw); } else { dinv = r.pick(invs); delta = 1.0 / dinv; }
    int nx, ny, m = exact ? r.in(1, 40) : r.in(2000, 20000);
    if (exact)
    {
        static const std::vector<std::pair<int, int>> ns = { { 64, 0 }, { 0, -64 }, { 0, 64 }, { -64, 0 }, { 45, 45 }, { -45, 45 }, { 17, -61 }, { 0, 0 } };
        auto q = r.pick(ns); nx = q.first; ny = q.second;
        p.normal.x = nx / 64.0; p.normal.y = ny / 64.0;
        p.coord.x = r.in(0, 160) / 16.0; p.coord.y = r.in(0, 160) / 16.0;
        if (r.coin(1, 3)) { lq = r.in(8, 18); pw = r.in(1, 3); delta = std::ldexp(1.0, -pw); }     // very short
        p.length = std::ldexp(m, -lq);
    }
    else
    {
        double a = r.u() * 6.2831853; p.normal.x = std::cos(a); p.normal.y = std::sin(a);
        nx = fx(p.normal.x, 1e6); ny = fx(p.normal.y, 1e6);
        p.coord.x = r.u() * 10; p.coord.y = r.u() * 10;
        p.length = m / 10000.0;
    }
    for (auto& s : p.sensitivities) s = r.in(-9, 9);
    p.velocity = r.u(); p.negativeLimit = -r.u(); p.positiveLimit = r.u();
    p.isDomain = r.coin(); p.isFixed = r.coin();
    p.nSegments = p.nNeighbours = r.in(1, 2);
    for (auto& s : p.segments) s = r.in(0, 9);
    for (auto& s : p.neighbours) s = r.in(0, 9);
    BoundaryPoint was = p;
    int f1 = r.in(-100, 100), f2 = r.coin(1, 8) ? f1 : r.in(-100, 100);
    if (lq > 4) { f1 = r.in(0, 1); f2 = r.in(0, 1); }
    std::vector<std::vector<int>> calls, seen;
    SensitivityCallback f = [&](const BoundaryPoint& q) -> double
    {
        double sc = exact ? 16384.0 : 1e6;
        calls.push_back(std::vector<int>{ fx(q.coord.x, sc), fx(q.coord.y, sc) });
        seen.push_back(attributes(q));
        double side = (q.coord.x - was.coord.x) * was.normal.x + (q.coord.y - was.coord.y) * was.normal.y;
        return side > 0 ? f1 : side < 0 ? f2 : 0;
    };
    if (nx == 0 && ny == 0) f1 = f2 = 0;
    T.begin(std::string(exact ? "exact" : "general") + " sensitivity");
    std::vector<int> before = place(p), other = attributes(p);
    Sensitivity s(delta);
    double v = s.computeSensitivity(p, f);
    J j;
    j.k("ev", exact ? "exact" : "general").k("at", std::vector<int>{ fx(was.coord.x, exact ? 16384.0 : 1e6), fx(was.coord.y, exact ? 16384.0 : 1e6) })
     .k("n", std::vector<int>{ nx, ny }).k("f1", f1).k("f2", f2).k("calls", calls).k("seen", seen).k("other", other).k("otherAfter", attributes(p))
     .k("before", before).k("after", place(p));
    if (exact) j.k("p", pw).k("m", m).k("q", lq).k("sens", fx(v, 1e3));
    else j.k("dinv", dinv).k("len", m).k("sens", fx(v, 100));
    T.rec(j);
}
static void ito(Rng& r, LevelSet& ls)
{
    Boundary b;
    b.discretise(ls);
    if (b.points.empty()) return;
    b.computeNormalVectors(ls);
    int t = r.coin(1, 8) ? 0 : r.in(1, 32);
    double temp = t / 16.0;
    size_t ns = r.in(2, 4);
    for (auto& p : b.points) { p.sensitivities.resize(ns); for (auto& s : p.sensitivities) s = r.in(-3000, 3000) / 1000.0; p.velocity = r.u(); }
    if (r.coin()) for (auto& p : b.points) { p.isFixed = r.coin(); p.isDomain = r.coin(); p.negativeLimit = -r.u(); }     // no business of the correction's
    {
        int dinv = r.coin() ? 4 : 10;
        Boundary c = b;
        T.begin("ito, displacement 1/" + std::to_string(dinv));
        Sensitivity s(1.0 / dinv);
        s.itoCorrection(c, temp);
        std::vector<std::vector<int>> at, n, nb; std::vector<int> len, d;
        for (size_t i = 0; i < b.points.size(); i++)
        {
            auto& p = b.points[i];
            at.push_back(std::vector<int>{ fx(p.coord.x, 1e4), fx(p.coord.y, 1e4) }); n.push_back(std::vector<int>{ fx(p.normal.x, 1e4), fx(p.normal.y, 1e4) });
            std::vector<int> q; for (unsigned k = 0; k < p.nNeighbours; k++) q.push_back(p.neighbours[k] + 1);
            nb.push_back(q); len.push_back(fx(p.length, 1e4)); d.push_back(fx(p.sensitivities[0] - c.points[i].sensitivities[0], 1e4));
        }
        T.rec(J().k("ev", "ito").k("t", t).k("dinv", dinv).k("at", at).k("n", n).k("nb", nb).k("len", len).k("d", d)
               .k("off", perPoint(b)).k("offAfter", perPoint(c)).k("all", everything(b, true)).k("allAfter", everything(c, true)));
    }
    {
        Boundary c = b;
        T.begin("ito, default displacement");
        Sensitivity s;
        s.itoCorrection(c, temp);
        std::vector<int> dp, len, d;
        for (size_t i = 0; i < b.points.size(); i++)
        {
            BoundaryPoint p = b.points[i], q = p;
            p.coord.x += 1e-4 * p.normal.x; p.coord.y += 1e-4 * p.normal.y;
            q.coord.x -= 1e-4 * q.normal.x; q.coord.y -= 1e-4 * q.normal.y;
            dp.push_back(fx(b.computePerimeter(p) - b.computePerimeter(q), 1e9));
            len.push_back(fx(p.length, 1e3)); d.push_back(fx(b.points[i].sensitivities[0] - c.points[i].sensitivities[0], 1e4));
        }
        T.rec(J().k("ev", "itofine").k("t", t).k("dp", dp).k("len", len).k("d", d)
               .k("off", perPoint(b)).k("offAfter", perPoint(c)).k("all", everything(b, true)).k("allAfter", everything(c, true)));
    }
    {
        Boundary c = b, e = b;
        T.begin("ito, with a level set");
        for (auto& p : c.points) { p.normal.x = r.u(); p.normal.y = r.u(); }            // stale normals
        Sensitivity s(r.coin() ? 1e-4 : 0.125);
        std::vector<int> l0 = digest(ls.signedDistance);
        if (t == 0) e = c;
        s.itoCorrection(c, ls, temp);
        std::vector<int> l1 = digest(ls.signedDistance);
        s.itoCorrection(e, temp);
        T.rec(J().k("ev", "itols").k("one", everything(c, true)).k("two", everything(e, true)).k("lsBefore", l0).k("lsAfter", l1));
    }
}
// Neighbours along the normal and dyadic data: the perimeter, the curvature and the correction are exact.
static void line(Rng& r, LevelSet& ls)
{
    Boundary b;
    b.discretise(ls);                                        // a boundary to start from: its points are replaced
    b.segments.clear(); b.nSegments = 0;
    int n = r.in(3, 7), j = r.in(1, 16);
    b.points.assign(n, BoundaryPoint());
    b.nPoints = n;
    std::vector<int> x(n), nx(n), q(n), m(n), d;
    std::vector<std::vector<int>> nb(n);
    bool up = r.coin();
    for (int i = 0; i < n; i++)
    {
        BoundaryPoint& p = b.points[i];
        x[i] = i ? x[i - 1] + r.in(1, 3) : r.in(0, 3);
        nx[i] = r.in(-1, 1); q[i] = r.in(0, 10); m[i] = r.in(1, 5);
        (up ? p.coord.y : p.coord.x) = x[i]; (up ? p.coord.x : p.coord.y) = 2;
        (up ? p.normal.y : p.normal.x) = nx[i]; (up ? p.normal.x : p.normal.y) = 0;
        p.length = std::ldexp(m[i], -q[i]);
        p.sensitivities.assign(r.in(1, 3), 0.0);
        p.isFixed = r.coin(1, 3); p.isDomain = r.coin(1, 3);
        int k = r.in(0, 3);
        p.neighbours.assign(std::max(k, 2), 0); p.nNeighbours = k;
        for (int t = 0; t < k; t++) { int o = (i + r.in(1, n - 1)) % n; p.neighbours[t] = o; nb[i].push_back(o + 1); }
    }
    int t = r.in(1, 3), pw = r.in(2, 6);
    // Large corrections are left out: they do not fit the record.
    for (int i = 0; i < n; i++) while (2 * q[i] - j > 16) { q[i]--; b.points[i].length *= 2; }
    Boundary c = b;
    T.begin("ito on a line");
    Sensitivity s(std::ldexp(1.0, -pw));
    s.itoCorrection(c, std::ldexp(t, -j));
    for (int i = 0; i < n; i++) d.push_back(fx(b.points[i].sensitivities[0] - c.points[i].sensitivities[0], 1e3));
    T.rec(J().k("ev", "itoline").k("t", t).k("j", j).k("x", x).k("n", nx).k("nb", nb).k("m", m).k("q", q).k("d", d)
           .k("off", perPoint(b)).k("offAfter", perPoint(c)));
}
static void run(uint64_t seed, bool thorough)
{
    Rng r(seed);
    {
        std::vector<Hole> h; h.push_back(Hole(3, 3, 1.5));
        LevelSet ls(6, 6, h, 0.5, 3, false);
        for (int n = 0; n < (thorough ? 4000 : 400); n++) line(r, ls);
    }
    for (int n = 0; n < (thorough ? 20000 : 2000); n++) one(r, n % 2 == 0);
    for (int n = 0; n < (thorough ? 600 : 60); n++)
    {
        int w = r.in(3, 8), h = r.in(3, 8);
        if (n % 2)
        {
            Field f = randomField(r, w, h, std::vector<int>{ 0, 2, 2, 3, 4, 7 }[r.in(0, 5)]);
            if (r.coin(1, 3)) for (size_t i = 0; i < f.phi.size(); i++) f.masked[i] = f.phi[i] < 0 && r.coin(1, 3);
            Holder hd(f, 0.5, r.in(3, 6), r.coin(1, 3));
            ito(r, hd.ls);
        }
        else
        {
            std::vector<Hole> holes;
            for (int k = r.in(1, 3); k > 0; k--) holes.push_back(Hole(r.u() * w, r.u() * h, 0.8 + 2 * r.u()));
            LevelSet ls(w, h, holes, 0.5, r.in(3, 5), r.coin(1, 3));
            if (!contour(ls.signedDistance)) continue;
            ls.reinitialise();
            ito(r, ls);
        }
    }
}
static Reg reg("C19", run);
