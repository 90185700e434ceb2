// C25: whole evolutions with a uniform velocity on the points of one shape (a disc or an axis-parallel rectangle, of material or
// of void), far from other contours.  Every update and reinitialisation is a record with the boundary afterwards.
#include "fields.h"
#include <algorithm>
using namespace slsm;
static double rectangle(double x, double y, const std::vector<double>& s)
{
    double dx = std::max(s[0] - x, x - s[1]), dy = std::max(s[2] - y, y - s[3]);
    return dx > 0 && dy > 0 ? std::hypot(dx, dy) : std::max(dx, dy);
}
static int e4(double v) { return fx(v, 10000); }
struct Run
{
    LevelSet& ls; bool disc; int up; std::vector<double> s; std::vector<int> box; Boundary b; int phantom;
    double distance(const Coord& c) const { return disc ? std::hypot(c.x - s[0], c.y - s[1]) - s[2] : rectangle(c.x, c.y, s); }
    double room() const
    {
        double w = ls.mesh.width, h = ls.mesh.height;
        return disc ? std::min(std::min(s[0], w - s[0]), std::min(s[1], h - s[1])) - s[2] : std::min(std::min(s[0], w - s[1]), std::min(s[2], h - s[3]));
    }
    // The shape when its boundary has moved by d towards the material.
    void move(double d) { double g = up * d; if (disc) s[2] += g; else { s[0] -= g; s[1] += g; s[2] -= g; s[3] += g; } }
    bool small() const { return disc ? s[2] < 4 : s[3] - s[2] < 8 || s[1] - s[0] < 14; }
    void look(J j)
    {
        b.discretise(ls); b.computeNormalVectors(ls); ls.computeAreaFractions(b);
        std::vector<std::vector<int>> p; double len = 0, area = 0;
        for (auto& q : b.points) if (std::abs(distance(q.coord)) < 3) { p.push_back({e4(q.coord.x), e4(q.coord.y)}); len += q.length; }
        for (auto& e : ls.mesh.elements)
            if (e.coord.x > box[0] && e.coord.x < box[1] && e.coord.y > box[2] && e.coord.y < box[3]) area += e.area;
        T.rec(j.k("pts", p).k("len", fx(len, 1000)).k("area", fx(area, 1000)));
    }
    // A displacement in several updates; one record.
    void step(double v, double dt, int parts)
    {
        int rebuilt = 0; phantom = 0;
        for (int k = 0; k < parts; k++)
        {
            if (k) b.discretise(ls);
            for (auto& q : b.points) q.velocity = std::abs(distance(q.coord)) < 3 ? v : 0;
            ls.computeVelocities(b.points);
            ls.computeGradients();
            std::vector<std::pair<unsigned, double>> mines;
            for (unsigned m = 0; m < ls.nMines; m++)
            {
                double t = up * distance(ls.mesh.nodes[ls.mines[m]].coord);
                if (t * ls.signedDistance[ls.mines[m]] > 0) mines.push_back({ls.mines[m], t});
            }
            rebuilt += ls.update(dt / parts);
            move(v * dt / parts);
            // A mine that ended on the other side although the shape stays away from it (see known_findings.txt).
            for (auto& m : mines)
            {
                double t = up * distance(ls.mesh.nodes[m.first].coord);
                if (t * m.second > 0 && std::abs(t) >= 0.5 && std::abs(m.second) >= 1 && ls.signedDistance[m.first] * t <= 0) phantom++;
            }
            if (phantom) break;
        }
        J j; look(j.k("ev", "step").k("new", false).k("d", e4(v * dt)).k("rebuilt", rebuilt).k("phantom", phantom));
    }
};
// The recorded finding (known_findings.txt).
static void known()
{
    T.begin("growing disc, wide band");
    LevelSet ls(34, 33, std::vector<Hole>(1, Hole(17, 16.5, 0.7)), 0.9, 6, false);
    std::vector<double> s = {17.3810, 15.8674, 4.4788};
    Run q = { ls, true, 1, s, {5, 29, 5, 28}, Boundary(), 0 };
    for (auto& nd : ls.mesh.nodes) ls.signedDistance[&nd - &ls.mesh.nodes[0]] = q.distance(nd.coord);
    ls.reinitialise();
    J j; j.k("ev", "start").k("new", true).k("w", 34).k("h", 33).k("disc", true).k("up", 1).k("steady", true).k("band", 6);
    q.look(j.k("shape", std::vector<int>{173810, 158674, 44788}));
    for (double d : {0.8796, 0.8350, 0.8090, 0.5525, 0.3779, 0.7205}) { q.step(1, d, 1); if (q.phantom) break; }
}
static void run(uint64_t seed, bool th)
{
    Rng r(seed);
    known();
    for (int n = 0; n < (th ? 1200 : 150); n++)
    {
        bool disc = r.coin(), steady = r.coin(2, 3), fixed = r.coin(1, 4), slow = r.coin(1, 12);
        int w = r.in(26, 40), h = r.in(26, 40), band = r.coin(2, 3) ? 3 : r.in(4, 6), up = r.coin() ? 1 : -1;
        double limit = 0.2 + 0.75 * r.u();
        T.begin((disc ? "disc " : "rectangle ") + std::to_string(n) + " " + std::to_string(w) + "x" + std::to_string(h));
        std::vector<Hole> hole; hole.push_back(Hole(0.5 * w, 0.5 * h, 0.7));
        LevelSet ls(w, h, hole, limit, band, fixed);
        std::vector<double> s;
        // coordinates in ten-thousandths
        if (disc) s = {0.5 * w + r.in(-10000, 10000) / 10000.0, 0.5 * h + r.in(-10000, 10000) / 10000.0, 4 + r.in(0, 50000) / 10000.0};
        else { s = {7 + r.in(0, 15000) / 10000.0, w - 7 - r.in(0, 15000) / 10000.0, 7 + r.in(0, 15000) / 10000.0, h - 7 - r.in(0, 15000) / 10000.0}; }
        if (!disc && r.coin(1, 4)) for (auto& x : s) x = std::floor(x);       // sides on grid lines
        Run q = { ls, disc, up, s, {5, w - 5, 5, h - 5}, Boundary(), 0 };
        if (q.small() || q.room() < 6) continue;
        for (auto& nd : ls.mesh.nodes) ls.signedDistance[&nd - &ls.mesh.nodes[0]] = up * q.distance(nd.coord);
        ls.reinitialise();
        J j; j.k("ev", "start").k("new", true).k("w", w).k("h", h).k("disc", disc).k("up", up).k("steady", steady).k("band", band);
        std::vector<int> si; for (double x : q.s) si.push_back(e4(x));
        q.look(j.k("shape", si));
        // velocity and time step are dyadic, so that the displacements add up exactly; in units of 1/10000 they are rounded
        double v = std::ldexp(r.in(1, 40), -4) * (r.coin() ? 1 : -1);
        for (int k = 0; k < (slow ? 4 : 12); k++)
        {
            int parts = slow ? r.in(30, 120) : 1, d = slow ? r.in(50, 2000) : r.in(r.coin() ? 100 : (int)(limit * 6000), (int)(limit * 9990));
            double vk = steady ? v : v * (r.coin() ? 1 : -1), dt = (d / 10000.0) / std::abs(vk);
            Run probe = q; probe.move(vk * dt);
            if (probe.small() || probe.room() < 6) break;
            q.step(vk, dt, parts);
            if (q.phantom) break;
            if (r.coin(1, 12)) { ls.reinitialise(); J i; q.look(i.k("ev", "reinit").k("new", false)); }
        }
    }
}
static Reg a("C25", run);
