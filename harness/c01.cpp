// C01: dump the topology of real meshes.
#include "common.h"
#include <set>
#include "Mesh.h"
#include "LevelSet.h"
#include "Hole.h"
#include "MersenneTwister.h"
using namespace slsm;

static std::vector<int> c4(const Coord& c) { return { fx(c.x, 4), fx(c.y, 4) }; }
static bool quarter(const Coord& c) { return c.x * 4 == std::floor(c.x * 4) && c.y * 4 == std::floor(c.y * 4); }
static std::vector<int> c4s(const Coord& c) { return quarter(c) ? c4(c) : std::vector<int>{ -BIG, -BIG }; }

// All nodes and elements, or (sample) those near the edges, near multiples of 256 and some others.
static void dump(const Mesh& m, int w, int h, const char* kind, Rng* sample = nullptr)
{
    T.begin(std::string(kind) + " mesh " + std::to_string(w) + "x" + std::to_string(h));
    std::set<std::vector<int>> dn, de, dl;
    int bad = 0;
    int lw = m.xyToIndex.size(), lh = lw ? m.xyToIndex[0].size() : 0;
    for (auto& c : m.xyToIndex) if ((int)c.size() != lh) lh = -1;
    std::set<unsigned> look;
    if (lh > 0) for (int x = 0; x < lw; x++) for (int y = 0; y < lh; y++)
    {
        unsigned n = m.xyToIndex[x][y];
        look.insert(n);
        if (n >= m.nodes.size() || m.nodes[n].coord.x != x || m.nodes[n].coord.y != y) bad++;
    }
    for (auto& n : m.nodes) dn.insert(c4s(n.coord));
    for (auto& e : m.elements) de.insert(c4s(e.coord));
    T.rec(J().k("ev", "mesh").k("kind", kind).k("w", w).k("h", h).k("width", m.width).k("height", m.height)
          .k("nNodes", m.nNodes).k("nElements", m.nElements).k("nodesSize", m.nodes.size()).k("elementsSize", m.elements.size())
          .k("lookupW", lw).k("lookupH", lh).k("lookupBad", bad).k("lookupDistinct", look.size())
          .k("distinctNodes", dn.size()).k("distinctElements", de.size()));
    auto skip = [&](size_t i, size_t n) { return sample && i > 1 && i + 2 < n && i % 65536 > 1 && !(i % 256 < 2 && sample->coin(1, 4)) && !sample->coin(150, (int)n); };
    for (unsigned i = 0; i < m.nodes.size(); i++)
    {
        if (skip(i, m.nodes.size())) continue;
        const Node& n = m.nodes[i];
        std::vector<int> nbr, back;
        std::vector<std::vector<int>> nc, ec;
        for (int j = 0; j < 4; j++)
        {
            unsigned k = n.neighbours.at(j);
            nbr.push_back(k);
            if (k < m.nodes.size()) { nc.push_back(c4s(m.nodes[k].coord)); back.push_back(m.nodes[k].neighbours.at(j ^ 1)); }
            else { nc.push_back({ -1, -1 }); back.push_back(-1); }
        }
        for (unsigned j = 0; j < n.nElements; j++)
        {
            unsigned e = n.elements.at(j);
            ec.push_back(e < m.elements.size() ? c4s(m.elements[e].coord) : std::vector<int>{ -1, -1 });
        }
        int x = fx(n.coord.x, 1), y = fx(n.coord.y, 1);
        int lookup = (x >= 0 && x < lw && y >= 0 && y < lh) ? (int)m.xyToIndex[x][y] : -1;
        T.rec(J().k("ev", "node").k("w", w).k("h", h).k("id", i).k("nNodes", m.nNodes).k("c4", c4s(n.coord)).k("lookup", lookup)
              .k("nbr", nbr).k("nbrC4", nc).k("nbrBack", back).k("nEls", n.nElements).k("elC4", ec)
              .k("isDomain", n.isDomain).k("isMasked", n.isMasked));
    }
    for (size_t i = 0; i < m.elements.size(); i++)
    {
        if (skip(i, m.elements.size())) continue;
        const Element& e = m.elements[i];
        std::vector<std::vector<int>> cs;
        for (int j = 0; j < 4; j++)
        {
            unsigned n = e.nodes.at(j);
            cs.push_back(n < m.nodes.size() ? c4s(m.nodes[n].coord) : std::vector<int>{ -1, -1 });
        }
        T.rec(J().k("ev", "elem").k("w", w).k("h", h).k("c4", c4s(e.coord)).k("corners4", cs));
    }
}

static void run(uint64_t seed, bool thorough)
{
    Rng r(seed);
    int top = thorough ? 12 : 7;
    for (int w = 1; w <= top; w++) for (int h = 1; h <= top; h++) dump(Mesh(w, h), w, h, "plain");
    for (int k = 0; k < (thorough ? 20 : 5); k++)
    {
        int a = r.in(13, thorough ? 70 : 40), b = r.in(1, 12);
        if (r.coin()) std::swap(a, b);
        dump(Mesh(a, b), a, b, "plain");
    }
    for (int k = 0; k < (thorough ? 12 : 4); k++)
    {
        int w = r.in(3, 12), h = r.in(3, 12);
        std::vector<Hole> holes;
        holes.push_back(Hole(w / 2.0, h / 2.0, 1.2));
        LevelSet ls(w, h, holes, 0.5, 6, r.coin());
        dump(ls.mesh, w, h, "levelset");
        Mesh copy(ls.mesh);
        dump(copy, w, h, "copy");
    }
    // Large meshes (more than 2^16 nodes; rows longer than 2^8 and 2^10).
    for (int k = 0; k < (thorough ? 8 : 2); k++)
    {
        int a = k % 2 ? r.in(257, 340) : r.in(1025, 1300), b = k % 2 ? r.in(257, 340) : r.in(52, 80);
        if (r.coin()) std::swap(a, b);
        dump(Mesh(a, b), a, b, "large", &r);
    }
}
static Reg reg("C01", run);
