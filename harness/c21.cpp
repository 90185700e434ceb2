// C21: upwind WENO gradients.
#include "fields.h"
using namespace slsm;

struct Case { Field f; std::vector<double> vel; std::vector<int> in; };
// Mirror in x, mirror in y, transpose (an element of the symmetry group of the grid).
static Case image(const Case& c, bool mx, bool my, bool tr)
{
    const Field& f = c.f;
    int W = tr ? f.h : f.w, H = tr ? f.w : f.h;
    Case o{ Field(W, H, f.unit, f.bt), c.vel, c.in };
    for (int y = 0; y <= f.h; y++) for (int x = 0; x <= f.w; x++)
    {
        int p = mx ? f.w - x : x, q = my ? f.h - y : y;
        if (tr) std::swap(p, q);
        int i = x + y * (f.w + 1), j = p + q * (W + 1);
        o.f.phi[j] = f.phi[i]; o.vel[j] = c.vel[i]; o.in[j] = c.in[i];
    }
    return o;
}
// Gradients of a case, row-major (the band is exactly the nodes in `in`).
static std::vector<double> gradients(const Case& c, Rng& r, bool& hold, bool stale)
{
    // The move limit, the width of the band, masks and mines have no say.
    Holder hd(c.f, r.pick(std::vector<double>{ 0.1, 0.25, 0.5, 0.9 }), r.in(3, 7), r.coin(1, 3));
    int odd = r.in(0, 2);
    LevelSet& ls = hd.ls;
    int W = c.f.w + 1;
    ls.nNarrowBand = 0; ls.nMines = 0;
    for (unsigned i = 0; i < ls.mesh.nNodes; i++)
    {
        Node& n = ls.mesh.nodes[i];
        int k = (int)n.coord.x + (int)n.coord.y * W;
        n.isActive = c.in[k]; n.isMine = false;
        if (c.in[k]) ls.narrowBand[ls.nNarrowBand++] = i;
        n.isMasked = odd == 1 && r.coin(1, 4);
        if (odd == 2 && c.in[k] && ls.nMines + 1 < ls.mines.size() && r.coin()) { n.isMine = true; ls.mines[ls.nMines++] = i; }
        ls.velocity[i] = c.vel[k];
        ls.gradient[i] = stale ? r.in(-5, 5) : 0;
    }
    auto v0 = digest(ls.velocity), s0 = digest(ls.signedDistance); unsigned nb = ls.nNarrowBand; auto b0 = ls.narrowBand;
    ls.computeGradients();
    hold = v0 == digest(ls.velocity) && s0 == digest(ls.signedDistance) && nb == ls.nNarrowBand && b0 == ls.narrowBand;
    std::vector<double> g;
    for (int y = 0; y <= c.f.h; y++) for (int x = 0; x <= c.f.w; x++) g.push_back(ls.gradient[hd.node(x, y)]);
    return g;
}
static void velocities(Rng& r, Case& c)
{
    int n = c.f.phi.size(), kind = r.in(0, 3);
    c.vel.resize(n); c.in.assign(n, 1);
    for (auto& v : c.vel) v = kind == 0 ? 1.0 : kind == 1 ? -1.0 : r.coin(1, 10) ? 0.0 : (r.u() - 0.5) * std::pow(10.0, r.in(-8, 2));
    if (r.coin(1, 3)) for (auto& k : c.in) k = !r.coin(1, 4);
}
static void put(Rng& r, const Case& c, const char* name, bool images)
{
    const Field& f = c.f;
    T.begin(std::string(name) + " " + f.str());
    bool hold; double u = 1 / f.unit;
    std::vector<double> g = gradients(c, r, hold, r.coin());
    std::vector<int> gi, sg; std::vector<bool> in;
    for (size_t k = 0; k < g.size(); k++) { gi.push_back(fx(g[k] * u, 1e5)); sg.push_back((c.vel[k] > 0) - (c.vel[k] < 0)); in.push_back(c.in[k]); }
    int K = f.unit == 0.01 ? 100 : f.unit == 0.125 ? 10000 : 1, E = f.unit == 0.01 ? 12 : f.unit == 0.125 ? 8 : 0;
    T.rec(J().k("ev", "field").k("w", f.w).k("h", f.h).k("K", K).k("E", E).k("phi", f.phi).k("sg", sg).k("band", in).k("g", gi).k("hold", hold));
    if (!images) return;
    for (int k = 1; k < 8; k++)
    {
        if (!r.coin(1, 2)) continue;
        bool mx = k & 1, my = k & 2, tr = k & 4, h2;
        Case o = image(c, mx, my, tr);
        std::vector<double> q = gradients(o, r, h2, false);
        std::vector<int> a, b;
        for (int y = 0; y <= f.h; y++) for (int x = 0; x <= f.w; x++)
        {
            int p = mx ? f.w - x : x, s = my ? f.h - y : y;
            if (tr) std::swap(p, s);
            a.push_back(fx(g[x + y * (f.w + 1)] * u, 1e6)); b.push_back(fx(q[p + s * (o.f.w + 1)] * u, 1e6));
        }
        T.begin(std::string(name) + " image " + std::to_string(k) + " of " + f.str());
        T.rec(J().k("ev", "pair").k("a", a).k("b", b));
    }
}
static void run(uint64_t seed, bool thorough)
{
    Rng r(seed);
    int big = thorough ? 1500 : 160;
    for (int n = 0; n < big; n++)
    {
        int w = r.in(4, r.coin(1, 4) ? 9 : 6), h = r.in(4, r.coin(1, 4) ? 9 : 6);
        if (n % 6 == 5) { (r.coin() ? w : h) = r.in(1, 3); if (r.coin(1, 3)) w = r.in(1, 3); }   // narrower than the stencil
        if (n % 20 == 14) { w = r.in(13, 24); h = r.in(15, 24); }
        if (n % 45 == 44) { w = r.in(15, 36); h = r.in(15, 36); }
        int kind = std::vector<int>{ 0, 1, 2, 2, 2, 3, 4, 7 }[n % 8];
        Case c{ randomField(r, w, h, kind), {}, {} };
        if (kind == 4 && r.coin()) c.f.unit = 0.125;
        if (kind == 1 && r.coin()) for (auto& v : c.f.phi) v = std::max(-1, std::min(1, v));
        if (r.coin(1, 6))                                           // corners level with their neighbours
        {
            Field& f = c.f;
            for (int x : { 0, w }) for (int y : { 0, h }) if (r.coin(2, 3)) f.at(x ? w - 1 : 1, y) = f.at(x, y ? h - 1 : 1) = f.at(x, y);
        }
        velocities(r, c);
        put(r, c, "random", true);
    }
    // Ramps and steps that change slope at each place in turn, in each direction.
    for (int W = 1; W <= (thorough ? 9 : 7); W++) for (int at = 0; at <= W; at++) for (int s = -1; s <= 1; s += 2)
    {
        Case c{ Field(W, (W < 4 ? 1 : 4) + (at + W) % 3), {}, {} };
        int m1 = r.in(-3, 3), m2 = r.in(-3, 3), jump = r.coin(1, 3) ? r.in(-5, 5) : 0, across = r.in(-2, 2);
        for (int y = 0; y <= c.f.h; y++) for (int x = 0; x <= W; x++)
            c.f.at(x, y) = (x <= at ? m1 * (x - at) : m2 * (x - at) + jump) + across * y;
        c.vel.assign(c.f.phi.size(), s); c.in.assign(c.f.phi.size(), 1);
        put(r, r.coin() ? image(c, false, false, true) : c, "kinked ramp", false);
    }
    for (int n = 0; n < (thorough ? 400 : 60); n++)
    {
        int a = n < 8 ? std::vector<int>{ 16, -16, 0, 0, 16, 16, -16, -16 }[n] : r.in(-40, 40), b = n < 8 ? std::vector<int>{ 0, 0, 16, -16, 16, -16, 16, -16 }[n] : r.in(-40, 40);
        if (a == 0 && b == 0) continue;
        Case c{ Field(r.in(n % 4 ? 4 : 1, 9), r.in(n % 5 ? 4 : 1, 9), 1 / 16.0), {}, {} };
        int o = r.in(-200, 200);
        for (int y = 0; y <= c.f.h; y++) for (int x = 0; x <= c.f.w; x++) c.f.at(x, y) = a * x + b * y + o;
        velocities(r, c);
        T.begin("plane " + std::to_string(a) + " " + std::to_string(b));
        bool hold;
        std::vector<double> g = gradients(c, r, hold, true);
        std::vector<int> gi; std::vector<bool> in;
        for (size_t k = 0; k < g.size(); k++) { gi.push_back(fx(g[k], 1e5)); in.push_back(c.in[k]); }
        T.rec(J().k("ev", "plane").k("a", a).k("b", b).k("g", gi).k("band", in));
    }
    // Corners whose neighbours almost equal them have the gradient of those that clearly do not.
    for (int n = 0; n < (thorough ? 600 : 80); n++)
    {
        Case c{ Field(r.in(4, 7), r.in(4, 7), 1e-6, 1), {}, {} };
        Field& f = c.f;
        for (auto& v : f.phi) v = r.in(300000, 900000) * (r.coin() ? 1 : -1);
        Case d = c;
        int small = (int)std::exp(std::log(2.5) + r.u() * std::log(400)), large = 1000;
        for (int x : { 0, f.w }) for (int y : { 0, f.h })
        {
            int a = r.coin() ? 1 : -1, b = r.coin() ? 1 : -1, X = x ? f.w - 1 : 1, Y = y ? f.h - 1 : 1;
            if (r.coin(1, 4)) (r.coin() ? a : b) = 0;
            f.at(X, y) = f.at(x, y) + a * small; d.f.at(X, y) = f.at(x, y) + a * large;
            f.at(x, Y) = f.at(x, y) + b * small; d.f.at(x, Y) = f.at(x, y) + b * large;
        }
        velocities(r, c); d.vel = c.vel; d.in = c.in;
        T.begin("almost level corners " + f.str());
        bool hold;
        std::vector<double> g = gradients(c, r, hold, true), q = gradients(d, r, hold, true);
        std::vector<int> p, s;
        for (int x : { 0, f.w }) for (int y : { 0, f.h }) { int k = x + y * (f.w + 1); p.push_back(fx(g[k], 1e6)); s.push_back(fx(q[k], 1e6)); }
        T.rec(J().k("ev", "corners").k("a", p).k("b", s));
    }
    // Whole histories: a real evolution and its images, velocities from the extension.
    for (int n = 0; n < (thorough ? 150 : 15); n++)
    {
        int w = r.in(6, 14), h = r.in(6, 14); bool mx = r.coin(), my = r.coin();
        std::vector<Hole> A, B;
        for (int k = r.in(1, 3); k > 0; k--)
        {
            double x = r.in(0, 16 * w) / 16.0, y = r.in(0, 16 * h) / 16.0, q = 1 + r.in(0, 40) / 16.0;
            A.push_back(Hole(x, y, q)); B.push_back(Hole(mx ? w - x : x, my ? h - y : y, q));
        }
        T.begin("evolution " + std::to_string(w) + "x" + std::to_string(h));
        LevelSet a(w, h, A, 0.5, 4, false), b(w, h, B, 0.5, 4, false);
        if (!contour(a.signedDistance)) continue;
        a.reinitialise(); b.reinitialise();
        double v = r.coin() ? 1 : -1;
        for (LevelSet* s : { &a, &b }) { for (unsigned i = 0; i < s->mesh.nNodes; i++) s->velocity[i] = v; s->computeGradients(); }
        std::vector<int> p, q; int far = 0;
        for (int y = 0; y <= h; y++) for (int x = 0; x <= w; x++)
        {
            unsigned i = a.mesh.xyToIndex[x][y], j = b.mesh.xyToIndex[mx ? w - x : x][my ? h - y : y];
            if (std::abs(a.signedDistance[i] - b.signedDistance[j]) > 1e-9) far++;
            p.push_back(fx(a.gradient[i], 1e6)); q.push_back(fx(b.gradient[j], 1e6));
        }
        if (!far) T.rec(J().k("ev", "pair").k("a", p).k("b", q));
    }
}
static Reg reg("C21", run);
