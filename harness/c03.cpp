// C03: operation histories on real heaps.
#include "common.h"
#include "Heap.h"
using namespace slsm;

static bool refused(const ChildResult& r)
{
    return r.exited && r.code == 1 && !r.timeout && r.err.find("[ERROR]") != std::string::npos;
}

// Integers as doubles: an exact map that keeps the order, at very different scales.
struct Scale
{
    double base; int e;
    double up(int v) const { return base + std::ldexp((double)v, e); }
    int down(double d) const
    {
        double q = std::ldexp(d - base, e < -1000 ? 1000 : -e);
        if (e < -1000) q = std::ldexp(q, -e - 1000);
        return std::abs(q) < 1e8 && q == std::round(q) ? (int)q : BIG;
    }
};
static const Scale QUARTERS = { 0, -2 };
static const Scale SCALES[] = { { 0, -2 }, { 0, -60 }, { 1, -50 }, { 0, -1040 }, { 0, 900 }, { -1, -50 }, { 0, -2 }, { 1e6, -30 } };

struct Hist
{
    Heap heap;
    int cap, nextAddr;
    Scale sc;
    std::vector<unsigned> live, addrs; // handles and addresses of entries not yet popped
    Hist(int c, bool test, Scale s = QUARTERS) : heap(c, test), cap(c), nextAddr(0), sc(s)
    {
        T.rec(J().k("ev", "new").k("new", true).k("cap", c).k("size", heap.size()).k("empty", heap.empty()));
    }
    void push(int v, unsigned a)
    {
        unsigned h = heap.push(a, sc.up(v));
        live.push_back(h); addrs.push_back(a);
        T.rec(J().k("ev", "push").k("a", a).k("v", v).k("h", h).k("size", heap.size()).k("empty", heap.empty()));
    }
    void set(int i, int v)
    {
        heap.set(live[i], sc.up(v));
        T.rec(J().k("ev", "set").k("h", live[i]).k("v", v).k("size", heap.size()).k("empty", heap.empty()));
    }
    void peek()
    {
        double v = heap.peek();
        T.rec(J().k("ev", "peek").k("v", sc.down(v)).k("size", heap.size()).k("empty", heap.empty()));
    }
    void pop(bool last)
    {
        unsigned a = 12345; double v = -777;
        heap.pop(a, v);
        for (size_t i = 0; i < addrs.size(); i++) if (addrs[i] == a) { live.erase(live.begin() + i); addrs.erase(addrs.begin() + i); break; }
        T.rec(J().k("ev", "pop").k("a", a).k("v", sc.down(v)).k("last", last).k("size", heap.size()).k("empty", heap.empty()));
    }
    void drain()
    {
        int n = live.size();
        for (int i = 0; i < n && !live.empty(); i++) pop(i == n - 1);
    }
};

// Every operation sequence of a given length over small alphabets.
static void enumerate(int cap, int len, const std::vector<int>& vals)
{
    std::vector<int> choice(len, 0);
    for (;;)
    {
        // Number of options at each step depends on the state, so replay to find out.
        std::string d = "enumerated cap " + std::to_string(cap) + ":";
        for (int c : choice) d += " " + std::to_string(c);
        T.begin(d);
        Hist h(cap, true);
        std::vector<int> radix(len, 1);
        int addr = 10;
        for (int i = 0; i < len; i++)
        {
            int nv = vals.size(), np = (int)h.live.size() < cap ? nv : 0, npop = h.live.empty() ? 0 : 1, ns = h.live.size() * nv;
            radix[i] = np + npop + ns;
            if (radix[i] == 0) { radix[i] = 1; continue; }
            int c = choice[i] % radix[i];
            if (c < np) h.push(vals[c], addr++);
            else if (c < np + npop) h.pop(false);
            else { c -= np + npop; h.set(c / nv, vals[c % nv]); }
        }
        h.drain();
        int i = len - 1;
        while (i >= 0 && ++choice[i] >= radix[i]) { choice[i] = 0; i--; }
        if (i < 0) break;
    }
}

static void run(uint64_t seed, bool thorough)
{
    Rng r(seed);
    enumerate(1, 5, { 0, 1 });
    enumerate(2, 4, { 0, 1, 2 });
    enumerate(3, thorough ? 5 : 4, { 0, 4 });
    int n = thorough ? 1500 : 220;
    for (int k = 0; k < n; k++)
    {
        int cap = r.coin(1, 4) ? r.in(1, 4) : r.in(5, 60);
        int spread = r.coin() ? r.in(1, 4) : r.in(5, 4000);
        int ops = thorough ? r.in(20, 400) : r.in(20, 120);
        int bias = r.in(0, 2);
        T.begin("random history " + std::to_string(k) + " cap " + std::to_string(cap));
        Hist h(cap, r.coin(), SCALES[k % 8]);
        int addr = r.in(0, 1000);
        for (int i = 0; i < ops; i++)
        {
            int c = r.in(0, 9), v = r.in(-spread, spread);
            int full = (int)h.live.size() >= cap;
            if (h.live.empty() || (c < 4 + bias && !full)) h.push(v, addr += r.in(1, 3));
            else if (c < 6) h.pop(false);
            else if (c < 7) h.peek();
            else h.set(r.in(0, (int)h.live.size() - 1), v);
        }
        h.drain();
    }
    // Long sift paths: fill in sorted, reversed and organ-pipe order, then change interior entries.
    for (int k = 0; k < (thorough ? 60 : 12); k++)
    {
        int cap = r.in(20, 100);
        T.begin("sorted fill " + std::to_string(k));
        Hist h(cap, true, SCALES[k % 8]);
        for (int i = 0; i < cap; i++) h.push(k % 3 == 0 ? i : k % 3 == 1 ? -i : std::abs(i - cap / 2), i + 1);
        for (int i = 0; i < 30; i++)
        {
            if (r.coin(1, 4) && !h.live.empty()) h.pop(false);
            if (!h.live.empty()) h.set(r.in(0, (int)h.live.size() - 1), r.in(-cap, cap));
        }
        h.drain();
    }
    // Large heaps, a record each: what was pushed (by address), changed, and popped.
    for (int k = 0; k < (thorough ? 16 : 4); k++)
    {
        int cap = k % 4 == 0 ? r.in(66000, 70000) : r.in(200, 5000), n = k % 2 || k % 4 == 0 ? cap : r.in(cap - cap / 8, cap), spread = r.coin() ? 1 << 29 : n / 4;
        if (thorough == false && k % 4) cap = std::min(cap, 3000), n = std::min(n, cap);
        T.begin("large heap " + std::to_string(n) + " of " + std::to_string(cap));
        Heap h(cap, false);
        Scale sc = SCALES[r.in(0, 3)];
        if (spread > 1000000) sc = QUARTERS;
        std::vector<int> val(n), handle(n), was, popA, popV, rest;
        std::vector<char> gone(n, 0);
        int shape = k % 4 == 0 ? r.in(1, 2) : r.in(0, 3), odd = 0;
        auto down = [&](double d) { double q = spread > 1000000 ? d * 4 : sc.down(d); return q == std::floor(q) && std::abs(q) < 2e9 ? (int)q : BIG; };
        auto popOne = [&] {
            unsigned a = 0; double v = 0, top = h.peek();
            h.pop(a, v);
            if (top != v) odd++;
            popA.push_back((int)a + 1); popV.push_back(down(v));
            if (a < gone.size()) gone[a] = 1;
        };
        auto drainHalf = [&](int m) { for (int i = 0; i < m && !h.empty(); i++) popOne(); };
        for (int i = 0; i < n; i++)
        {
            val[i] = shape == 0 ? i : shape == 1 ? n - i : r.in(-spread, spread);
            handle[i] = h.push(i, sc.up(val[i]));
        }
        was = val;
        drainHalf(k % 8 == 0 ? 0 : n / 3);
        int changes = k % 4 ? r.in(10, n) : n, popped = (int)popA.size();
        for (int i = 0; i < changes; i++)
        {
            int a = r.in(0, n - 1);
            if (gone[a]) continue;
            val[a] = r.coin() ? r.in(-spread, spread) : val[a] - r.in(0, 9);
            h.set(handle[a], sc.up(val[a]));
        }
        for (int i = 0; i < n; i++) rest.push_back(val[i]);
        int left = h.size();
        drainHalf(n);
        T.rec(J().k("ev", "bulk").k("new", true).k("n", n).k("first", was).k("second", rest).k("popA", popA).k("popV", popV)
                 .k("popped", popped).k("left", left).k("size", h.size()).k("empty", h.empty()).k("odd", odd));
    }
    // Misuse, in child processes.
    for (int cap = 1; cap <= 4; cap++) for (int fill = 0; fill <= cap; fill++) for (int churn = 0; churn < 2; churn++)
    {
        auto prep = [&](Heap& h) {
            unsigned a; double v;
            if (churn) for (int i = 0; i < 3; i++) { h.push(1, 1.0); h.pop(a, v); }
            for (int i = 0; i < fill; i++) h.push(i, i);
        };
        if (fill == 0)
        {
            T.begin("pop empty");
            T.rec(J().k("ev", "misuse").k("new", true).k("what", "pop empty").k("refused", refused(inChild([&] { Heap h(cap); prep(h); unsigned a; double v; h.pop(a, v); }))));
            T.begin("peek empty");
            T.rec(J().k("ev", "misuse").k("new", true).k("what", "peek empty").k("refused", refused(inChild([&] { Heap h(cap); prep(h); volatile double d = h.peek(); (void)d; }))));
        }
        if (fill == cap)
        {
            T.begin("push full");
            T.rec(J().k("ev", "misuse").k("new", true).k("what", "push full").k("refused", refused(inChild([&] { Heap h(cap); prep(h); h.push(9, 0.5); }))));
        }
    }
}
static Reg reg("C03", run);
