// C17: random number generators.
#include "common.h"
#include "MersenneTwister.h"
#include <memory>
#include <map>
using namespace slsm;

struct Op { char kind; int a, b; };
static Op randomOp(Rng& r)
{
    static const std::vector<std::pair<int, int>> ranges = { { 0, 1 }, { 0, 0 }, { -3, 3 }, { 1, 6 }, { -1000000, 1000000 }, { 0, 2147483647 }, { -2147483647, 2147483647 }, { 5, 5 }, { -7, -2 } };
    static const std::vector<std::pair<int, int>> scales = { { 0, 1 }, { 5, 2 }, { -3, 7 }, { 0, 100 }, { 1000, 1 } };
    if (r.coin(1, 30)) return Op{ 'm', r.pick(std::vector<int>{ 100, 311, 623, 624, 1300, 5000 }), 0 };
    switch (r.in(0, 4))
    {
        case 0: return Op{ 'u', 0, 0 };
        case 1: { auto p = r.pick(ranges); return Op{ 'i', p.first, p.second }; }
        case 2: { auto p = r.pick(scales); return Op{ 's', p.first, p.second }; }
        default: return Op{ 'n', 0, 0 };
    }
}
static std::vector<int> halves(unsigned s) { return { (int)(s & 0xffff), (int)(s >> 16) }; }
struct Rig
{
    std::map<int, std::unique_ptr<MersenneTwister>> g;
    void make(int o)
    {
        g[o].reset(new MersenneTwister());
        T.rec(J().k("ev", "make").k("obj", o).k("seed", halves(g[o]->getSeed())));
    }
    void seed(int o, unsigned s)
    {
        g[o]->setSeed(s);
        T.rec(J().k("ev", "seed").k("obj", o).k("seed", halves(s)).k("reported", halves(g[o]->getSeed())));
    }
    void copy(int o, int p)
    {
        g[o].reset(new MersenneTwister(*g[p]));
        T.rec(J().k("ev", "copy").k("obj", o).k("from", p).k("reported", halves(g[o]->getSeed())).k("fromReported", halves(g[p]->getSeed())));
    }
    void draw(int o, Op op)
    {
        J j;
        j.k("ev", "draw").k("obj", o).k("kind", std::string(1, op.kind)).k("a", op.a).k("b", op.b);
        if (op.kind == 'm')                                     // many draws of all kinds
        {
            uint64_t hash = 1469598103934665603ull;
            for (int i = 0; i < op.a; i++)
            {
                double v = i % 7 == 3 ? g[o]->normal() : i % 7 == 5 ? g[o]->integer(-5, 1000) : (*g[o])();
                uint64_t b; memcpy(&b, &v, 8);
                for (int c = 0; c < 8; c++) { hash ^= (b >> (8 * c)) & 0xff; hash *= 1099511628211ull; }
                hash ^= hash >> 29;
            }
            j.k("value", 0).k("out", std::vector<int>{ (int)(hash & 0x3fffffff), (int)((hash >> 30) & 0x3fffffff) });
        }
        else if (op.kind == 'i')
        {
            int v = g[o]->integer(op.a, op.b);
            if (v == -2147483647 - 1) v++;                      // not a TLC literal
            j.k("value", v).k("out", std::vector<int>{ v });
        }
        else
        {
            double v = op.kind == 'u' ? (*g[o])() : op.kind == 'n' ? g[o]->normal() : g[o]->normal(op.a, op.b);
            double f = std::floor(v * 1073741824.0);
            j.k("value", f >= 1073741824.0 || f != f ? 1073741824 : f < 0 ? -1 : (int)f).k("out", words(v));
        }
        T.rec(j);
    }
};
static unsigned someSeed(Rng& r)
{
    static const std::vector<unsigned> s = { 0u, 1u, 2u, 42u, 65535u, 65536u, 0x7fffffffu, 0x80000000u, 0xffffffffu };
    return r.coin() ? r.pick(s) : (unsigned)r.next();
}
static void histories(Rng& r, bool thorough)
{
    for (int n = 0; n < (thorough ? 400 : 60); n++)
    {
        T.begin("histories " + std::to_string(n));
        T.rec(J().k("ev", "case").k("new", true));
        Rig g;
        int objs = r.in(1, 3);
        for (int o = 1; o <= objs; o++) g.make(o);
        // A script is a list of calls after a seed; two scripts share a beginning.
        std::vector<unsigned> seeds = { someSeed(r), someSeed(r) };
        std::vector<std::vector<Op>> scripts(3);
        for (int k = r.in(3, 12); k > 0; k--) scripts[0].push_back(randomOp(r));
        scripts[1] = scripts[0];
        for (int k = r.in(1, 4); k > 0; k--) scripts[1].push_back(randomOp(r));
        for (int k = r.in(1, 9); k > 0; k--) scripts[2].push_back(randomOp(r));
        // What each object is working through.
        std::vector<int> sc(objs + 1, -1), pos(objs + 1, 0);
        for (int step = 0; step < (thorough ? 250 : 150); step++)
        {
            int o = r.in(1, objs);
            if (sc[o] < 0 || pos[o] >= (int)scripts[sc[o]].size())
            {
                int what = r.in(0, 9);
                if (what < 7) { g.seed(o, r.pick(seeds)); sc[o] = r.in(0, 2); pos[o] = 0; }
                else if (what == 7) { g.draw(o, randomOp(r)); }
                else if (what == 8 && objs > 1)
                {
                    int p = o % objs + 1;
                    g.copy(o, p); sc[o] = sc[p]; pos[o] = pos[p];
                }
                else
                {
                    g.make(o);
                    if (r.coin()) { int p = o % objs + 1; g.seed(p, g.g[o]->getSeed()); sc[o] = sc[p] = 2; pos[o] = pos[p] = 0; }
                    else { sc[o] = 0; pos[o] = 0; }
                }
            }
            else if (r.coin(1, 25)) { g.seed(o, r.pick(seeds)); sc[o] = r.in(0, 2); pos[o] = 0; }    // seeded half way
            else g.draw(o, scripts[sc[o]][pos[o]++]);
        }
    }
}
static void firsts(Rng& r)
{
    for (int n = 0; n < 12; n++)
    {
        T.begin("first draws of many seeds");
        std::vector<unsigned> s;
        unsigned base = someSeed(r);
        s.push_back(base);
        if (n % 2) for (int b = 0; b < 32; b++) s.push_back(base ^ (1u << b));
        else for (unsigned k = 1; k <= 32; k++) s.push_back(base + k);
        std::vector<std::vector<int>> outs;
        MersenneTwister m;
        for (unsigned x : s)
        {
            m.setSeed(x);
            double a = n % 3 == 0 ? m() : n % 3 == 1 ? m.normal() : m.normal(1, 3), b = m();
            std::vector<int> o = words(a), p = words(b);
            o.insert(o.end(), p.begin(), p.end());
            outs.push_back(o);
        }
        T.rec(J().k("ev", "first").k("new", true).k("outs", outs));
    }
    for (int n = 0; n < 40; n++)
    {
        T.begin("scaled draw after a seed");
        unsigned s = someSeed(r);
        int a = r.in(-50, 50), b = r.in(1, 50);
        MersenneTwister m;
        m.setSeed(s); double x = m.normal();
        m.setSeed(s); double y = m.normal(a, b);
        T.rec(J().k("ev", "scaled").k("new", true).k("standard", fx(x, 1e6)).k("normalised", fx((y - a) / b, 1e6)));
    }
}
static void stats(Rng& r, bool thorough)
{
    int N = thorough ? 200000 : 20000;
    static const std::vector<std::pair<int, int>> ranges = { { 0, 1 }, { 1, 6 }, { -3, 3 }, { 7, 7 }, { -9, -8 }, { 0, 63 } };
    for (auto& p : ranges)
    {
        T.begin("integers " + std::to_string(p.first) + ".." + std::to_string(p.second));
        MersenneTwister m; m.setSeed(r.next());
        std::vector<int> c(p.second - p.first + 1, 0);
        bool ok = true;
        for (int k = 0; k < N; k++) { int v = m.integer(p.first, p.second); if (v < p.first || v > p.second) ok = false; else c[v - p.first]++; }
        if (!ok) c.push_back(1);
        T.rec(J().k("ev", "stat").k("new", true).k("what", "integer").k("lo", p.first).k("hi", p.second).k("n", N).k("count", c));
    }
    // The lowest and the highest bits of wide ranges and of uniform draws.
    static const std::vector<std::pair<int, int>> wide = { { 0, 0x3fffffff }, { 0, 0x7fffffff }, { -0x40000000, 0x3fffffff }, { -0x7fffffff - 1, 0x7fffffff }, { 0, 0xffffff },
        { -1000000000, 2000000000 }, { 0, 1500000000 }, { 0, 0 } };
    for (auto& p : wide)
    {
        bool uni = p.second == 0;
        T.begin(uni ? "bits of uniform draws" : "bits of integers");
        MersenneTwister m; m.setSeed(r.next());
        std::vector<int> low(8, 0), high(8, 0);
        uint64_t size = uni ? 1ull << 30 : (uint64_t)((int64_t)p.second - p.first) + 1;
        for (int k = 0; k < N; k++)
        {
            uint64_t v = uni ? (uint64_t)(m() * 1073741824.0) : (uint64_t)((int64_t)m.integer(p.first, p.second) - p.first);
            low[v & 7]++; high[v * 8 / size]++;
        }
        T.rec(J().k("ev", "stat").k("new", true).k("what", "bits").k("n", N).k("low", low).k("high", high));
    }
    for (int k = 0; k < 2; k++)
    {
        T.begin("uniform statistics");
        MersenneTwister m; m.setSeed(r.next());
        std::vector<int> c(8, 0), q(16, 0);
        int last = 0;
        { double v = m(); last = std::min(3, std::max(0, (int)(v * 4))); }
        for (int i = 0; i < N; i++)
        {
            double v = m();
            c[std::min(7, std::max(0, (int)(v * 8)))]++;
            int x = std::min(3, std::max(0, (int)(v * 4)));
            q[4 * last + x]++; last = x;
        }
        T.rec(J().k("ev", "stat").k("new", true).k("what", "uniform").k("n", N).k("count", c).k("pairs", q));
    }
    for (int k = 0; k < 6; k++)
    {
        T.begin("normal statistics");
        MersenneTwister m; m.setSeed(r.next());
        double mean = k < 2 ? 0 : r.in(-100, 100), dev = k < 2 ? 1 : r.in(1, 20);
        std::vector<int> c(4, 0), q(4, 0);
        int last = 0;
        for (int i = -1; i < N; i++)
        {
            double v = ((k < 2 ? m.normal() : m.normal(mean, dev)) - mean) / dev;
            int s = v >= 0;
            if (i >= 0) { c[v < -1 ? 0 : v < 0 ? 1 : v < 1 ? 2 : 3]++; q[2 * last + s]++; }
            last = s;
        }
        T.rec(J().k("ev", "stat").k("new", true).k("what", "normal").k("n", N).k("count", c).k("pairs", q));
    }
}
static void run(uint64_t seed, bool thorough)
{
    Rng r(seed);
    histories(r, thorough);
    firsts(r);
    stats(r, thorough);
}
static Reg reg("C17", run);
