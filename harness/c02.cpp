// C02: point location queries on real meshes.
#include "common.h"
#include "Mesh.h"
using namespace slsm;

// Large meshes are recorded from the column ox and the row oy on, so that 1e-7 cells remain a unit.
static std::vector<int> cell2(const Mesh& m, unsigned e, int ox, int oy)
{
    if (e >= m.elements.size()) return { -BIG, -BIG };
    return { fx(m.elements[e].coord.x - ox, 2), fx(m.elements[e].coord.y - oy, 2) };
}
static std::vector<int> node1(const Mesh& m, unsigned n, int ox, int oy)
{
    if (n >= m.nodes.size()) return { -BIG, -BIG };
    return { fx(m.nodes[n].coord.x - ox, 1), fx(m.nodes[n].coord.y - oy, 1) };
}
static void point(const Mesh& m, int px, int py, int ox = 0, int oy = 0)
{
    double x = ox + px / 1e7, y = oy + py / 1e7;
    Coord c(x, y);
    T.rec(J().k("ev", "point").k("w", std::min((int)m.width - ox, 213)).k("h", std::min((int)m.height - oy, 213)).k("p", std::vector<int>{ px, py })
          .k("elC", cell2(m, m.getElement(c), ox, oy)).k("elXY", cell2(m, m.getElement(x, y), ox, oy))
          .k("nodeC", node1(m, m.getClosestNode(c), ox, oy)).k("nodeXY", node1(m, m.getClosestNode(x, y), ox, oy)));
}
static void run(uint64_t seed, bool thorough)
{
    Rng r(seed);
    const int U = 10000000;
    // Every lattice point of small meshes.
    int top = thorough ? 5 : 3, s = thorough ? 8 : 4;
    for (int w = 1; w <= top + 1; w++) for (int h = 1; h <= top; h++)
    {
        Mesh m(w, h);
        T.begin("lattice " + std::to_string(w) + "x" + std::to_string(h));
        for (int i = 0; i <= s * w; i++) for (int j = 0; j <= s * h; j++) point(m, i * (U / s), j * (U / s));
    }
    // Random points, points near grid lines and half lines, far edges, on larger meshes.
    for (int k = 0; k < (thorough ? 200 : 40); k++)
    {
        int w = r.in(1, k % 4 ? 90 : 213), h = r.in(1, k % 4 ? 90 : 213);
        Mesh m(w, h);
        T.begin("random points " + std::to_string(w) + "x" + std::to_string(h));
        for (int q = 0; q < 60; q++)
        {
            int c[2], n[2] = { w, h };
            for (int d = 0; d < 2; d++)
            {
                switch (r.in(0, 5))
                {
                    case 0: c[d] = r.in(0, n[d]) * U; break;
                    case 1: c[d] = r.in(0, 2 * n[d]) * (U / 2); break;
                    case 2: c[d] = r.in(0, 2 * n[d]) * (U / 2) + r.in(-40, 40); break;
                    case 3: c[d] = n[d] * U - r.in(0, 30); break;
                    default: c[d] = (int)(r.u() * n[d] * U);
                }
                if (c[d] < 0) c[d] = 0;
                if (c[d] > n[d] * U) c[d] = n[d] * U;
            }
            point(m, c[0], c[1]);
        }
    }
    // Very large meshes: indices beyond 16 bits, coordinates beyond a thousand.
    for (int k = 0; k < (thorough ? 36 : 9); k++)
    {
        int w = k % 3 == 0 ? r.in(1000, 5000) : r.in(200, 700), h = k % 3 == 0 ? r.in(1, 60) : r.in(100, 400);
        if (k % 2) std::swap(w, h);
        Mesh m(w, h);
        T.begin("far points " + std::to_string(w) + "x" + std::to_string(h));
        for (int q = 0; q < 100; q++)
        {
            int n[2] = { w, h }, o[2], c[2];
            for (int d = 0; d < 2; d++)
            {
                int at = r.coin(1, 5) ? n[d] - r.in(0, std::min(2, n[d])) : r.in(0, n[d]);
                o[d] = std::max(0, at - 100);
                switch (r.in(0, 3))
                {
                    case 0: c[d] = (at - o[d]) * U; break;
                    case 1: c[d] = (at - o[d]) * U + r.in(0, 1) * (U / 2) + r.in(-40, 40); break;
                    default: c[d] = (at - o[d]) * U + (int)(r.u() * U);
                }
                c[d] = std::max(0, std::min(c[d], std::min(n[d] - o[d], 213) * U));
            }
            point(m, c[0], c[1], o[0], o[1]);
        }
    }
}
static Reg reg("C02", run);
