// Building level sets that hold a given integer field.
#ifndef VERIF_FIELDS_H
#define VERIF_FIELDS_H
#include "common.h"
#include "Boundary.h"
#include "Hole.h"
#include "LevelSet.h"
#include "MersenneTwister.h"

struct Field                      // row-major over (x, y); value = phi[i] * unit
{
    int w, h;
    std::vector<int> phi;
    double unit;
    int bt;                       // |phi| < bt  <=>  |value| < 1e-6
    std::vector<int> masked;      // 0/1 per node
    Field(int w_, int h_, double u = 1.0, int b = 1) : w(w_), h(h_), phi((w_ + 1) * (h_ + 1), 1), unit(u), bt(b), masked((w_ + 1) * (h_ + 1), 0) {}
    int& at(int x, int y) { return phi[x + y * (w + 1)]; }
    int at(int x, int y) const { return phi[x + y * (w + 1)]; }
    std::string str() const
    {
        std::string s = std::to_string(w) + "x" + std::to_string(h) + " unit " + std::to_string(unit) + " [";
        for (int v : phi) s += std::to_string(v) + " ";
        return s + "]";
    }
};

// Construct a level set of the right size and put the field into it. The band is rebuilt the
// way the documentation defines it, through the public members.
struct Holder
{
    slsm::LevelSet ls;
    static std::vector<slsm::Hole> hole(int w, int h)
    {
        std::vector<slsm::Hole> v; v.push_back(slsm::Hole(0.5 * w, 0.5 * h, 0.7)); return v;
    }
    Holder(const Field& f, double moveLimit = 0.5, int band = 6, bool fixed = false) :
        ls(f.w, f.h, hole(f.w, f.h), moveLimit, band, fixed) { put(f, ls.signedDistance); setMask(f); rebuild(band, fixed); }
    unsigned node(int x, int y) const { return ls.mesh.xyToIndex[x][y]; }
    void put(const Field& f, std::vector<double>& to)
    {
        to.resize(ls.mesh.nNodes);
        for (int y = 0; y <= f.h; y++) for (int x = 0; x <= f.w; x++) to[node(x, y)] = f.at(x, y) * f.unit;
    }
    void setMask(const Field& f)
    {
        for (int y = 0; y <= f.h; y++) for (int x = 0; x <= f.w; x++) ls.mesh.nodes[node(x, y)].isMasked = f.masked[x + y * (f.w + 1)];
    }
    void rebuild(int band, bool fixed)
    {
        ls.nNarrowBand = 0; ls.nMines = 0;
        for (unsigned i = 0; i < ls.mesh.nNodes; i++)
        {
            slsm::Node& n = ls.mesh.nodes[i];
            double a = std::abs(ls.signedDistance[i]);
            n.isActive = !n.isMasked && (!n.isDomain || !fixed) && a < band;
            n.isMine = n.isActive && a >= band - 1;
            if (n.isActive) ls.narrowBand[ls.nNarrowBand++] = i;
            if (n.isMine) { if (ls.nMines >= ls.mines.size()) ls.mines.resize(ls.nMines + 8); ls.mines[ls.nMines++] = i; }
        }
    }
    // Row-major view of a nodal quantity.
    template <class F> std::vector<int> row(F f) const
    {
        std::vector<int> v;
        for (unsigned y = 0; y <= ls.mesh.height; y++) for (unsigned x = 0; x <= ls.mesh.width; x++) v.push_back(f(node(x, y)));
        return v;
    }
};

inline bool contour(const std::vector<double>& v)
{
    bool p = false, q = false, z = false;
    for (double x : v) { p |= x > 0; q |= x < 0; z |= x == 0; }
    return z || (p && q);
}
// Would the contour still exist after an update by dt? (Without one the library refuses to go on.)
inline bool survives(const slsm::LevelSet& ls, double dt)
{
    std::vector<double> v = ls.signedDistance;
    for (unsigned i = 0; i < ls.nNarrowBand; i++)
    {
        unsigned n = ls.narrowBand[i];
        v[n] -= dt * ls.gradient[n] * ls.velocity[n];
        if (ls.mesh.nodes[n].isDomain && v[n] > 0) v[n] = 0;
    }
    return contour(v);
}

// Random integer fields of several kinds.
inline Field randomField(Rng& r, int w, int h, int kind)
{
    Field f(w, h);
    int n = f.phi.size();
    switch (kind)
    {
        case 0:                                     // rough, few zeros
            for (int i = 0; i < n; i++) { f.phi[i] = r.in(1, 9) * (r.coin() ? 1 : -1); if (r.coin(1, 12)) f.phi[i] = 0; }
            break;
        case 1:                                     // rough, many zeros
            for (int i = 0; i < n; i++) f.phi[i] = r.coin(2, 5) ? 0 : r.in(1, 4) * (r.coin() ? 1 : -1);
            break;
        case 2:                                     // smooth: signed distance to circles, in 1/100
        {
            f.unit = 0.01;
            std::vector<double> cx, cy, cr;
            for (int k = r.in(1, 3); k > 0; k--) { cx.push_back(r.u() * w); cy.push_back(r.u() * h); cr.push_back(0.6 + r.u() * 0.4 * (w + h) / 2); }
            bool inv = r.coin(1, 3);
            for (int y = 0; y <= h; y++) for (int x = 0; x <= w; x++)
            {
                double d = 1e9;
                for (size_t k = 0; k < cx.size(); k++) d = std::min(d, std::hypot(x - cx[k], y - cy[k]) - cr[k]);
                f.at(x, y) = (int)std::llround((inv ? -d : d) * 100);
            }
            break;
        }
        case 3:                                     // checkerboard-like saddles
            for (int y = 0; y <= h; y++) for (int x = 0; x <= w; x++)
                f.at(x, y) = ((x + y) % 2 ? 1 : -1) * (r.coin(4, 5) ? 1 : -1) * r.in(1, 3);
            break;
        case 4:                                     // axis-aligned blocks with the contour on grid lines
        {
            for (auto& v : f.phi) v = r.coin() ? 2 : -2;
            int s = r.coin() ? 1 : -1;
            for (auto& v : f.phi) v = 2 * s;
            for (int k = r.in(1, 3); k > 0; k--)
            {
                int x0 = r.in(0, w), x1 = r.in(x0, w), y0 = r.in(0, h), y1 = r.in(y0, h);
                for (int y = y0; y <= y1; y++) for (int x = x0; x <= x1; x++)
                {
                    bool edge = x == x0 || x == x1 || y == y0 || y == y1;
                    f.at(x, y) = edge ? 0 : -2 * s;
                }
            }
            break;
        }
        case 5:                                     // tiny values around the 1e-6 tolerance, unit 1e-7
        {
            f.unit = 1e-7; f.bt = 10;
            std::vector<int> a = { 0, 9, -9, 11, -11, 30, -30, 25, -25, 40 };
            for (auto& v : f.phi) v = r.pick(a);
            break;
        }
        case 6:                                     // tiny next to ordinary values, unit 1e-7
        {
            f.unit = 1e-7; f.bt = 10;
            std::vector<int> a = { 0, 9, -9, 5, 11, -11, 15, -15, 60, -60, 10000000, -10000000, 5000000, -20000000, 20000000, 100000, -100000 };
            for (auto& v : f.phi) v = r.pick(a);
            break;
        }
        default:                                    // mostly one sign with isolated nodes, wide magnitudes
        {
            int s = r.coin() ? 1 : -1;
            for (auto& v : f.phi) v = s * r.in(1, 12);
            for (int k = r.in(1, 3); k > 0; k--) f.phi[r.in(0, n - 1)] *= -1;
            if (r.coin(1, 3)) f.phi[r.in(0, n - 1)] = 0;
        }
    }
    return f;
}
#endif
