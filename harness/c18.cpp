// C18: stochastic velocity extension.
#include "fields.h"
#include <algorithm>
using namespace slsm;

static std::vector<int> rest(const std::vector<BoundaryPoint>& p, const LevelSet& ls)
{
    std::vector<double> v = ls.signedDistance;
    for (auto& q : p)
    {
        for (double d : { q.coord.x, q.coord.y, q.normal.x, q.normal.y, q.length, q.negativeLimit, q.positiveLimit }) v.push_back(d);
        v.push_back(q.isDomain + 2 * q.isFixed);
        for (double s : q.sensitivities) v.push_back(s);
    }
    for (unsigned i = 0; i < ls.mesh.nNodes; i++) v.push_back(ls.mesh.nodes[i].isActive + 2 * ls.mesh.nodes[i].isMine + 4 * ls.mesh.nodes[i].isMasked);
    return digest(v);
}
static void run(uint64_t seed, bool thorough)
{
    Rng r(seed);
    for (int n = 0; n < (thorough ? 1500 : 150); n++)
    {
        int c = r.in(16, 60);
        double limit = c / 64.0;
        bool large = n % 50 == 49;
        int w = large ? r.in(15, 30) : r.in(3, 9), h = large ? r.in(15, 30) : r.in(3, 9);
        std::vector<Hole> holes;
        for (int k = r.in(1, 2); k > 0; k--) holes.push_back(Hole(r.u() * w, r.u() * h, 0.8 + 2 * r.u()));
        T.begin("noise case " + std::to_string(n) + " mesh " + std::to_string(w) + "x" + std::to_string(h) + " move limit " + std::to_string(limit));
        LevelSet ls(w, h, holes, limit, r.in(3, 6), r.coin(1, 4));
        if (!contour(ls.signedDistance)) continue;
        ls.reinitialise();
        Boundary b;
        b.discretise(ls);
        if (b.points.empty()) continue;
        MersenneTwister rng;
        rng.setSeed((unsigned)r.next());
        MersenneTwister sa(rng), sb(rng);
        int drawn = 0;
        for (int call = r.in(1, 3); call > 0; call--)
        {
            std::vector<BoundaryPoint> p = b.points;
            int kind = r.in(0, 6);
            if (kind < 3)                                          // lengths of the caller's choice
                for (auto& q : p) q.length = kind == 0 ? std::pow(r.in(1, 8) / 4.0, 2) : kind == 1 ? 1.0 : 0.05 + 3 * r.u();
            if (kind == 6) for (auto& q : p) q.length = std::pow(r.in(2, 10) / 50.0, 2);     // shorter than a tenth of a cell
            if (r.coin(1, 2))                                      // what else a point carries is none of the noise's business
                for (auto& q : p)
                {
                    q.isFixed = r.coin(1, 2); q.isDomain = r.coin(1, 2);
                    q.negativeLimit = r.coin(1, 4) ? 0 : -limit; q.positiveLimit = r.coin(1, 4) ? 0 : limit;
                    if (r.coin(1, 3)) { q.nSegments = q.nNeighbours = r.in(0, 1); q.segments.resize(2); q.neighbours.resize(2); }
                    q.normal.x = r.in(-1, 1); q.normal.y = r.in(-1, 1);
                    for (double& e : q.sensitivities) e = r.in(-2, 2);
                }
            for (auto& q : p) { q.velocity = r.coin(1, 3) ? 0 : r.in(-3000, 3000) / 1000.0; }
            int d = kind == 3 ? r.in(512, 1000) : r.in(1, 200);
            // sqrt(2 T dt) = k dt, compared with half the limit: choose k on either side of it, or at it.
            double even = 0.5 * limit / (d / 1024.0) * 8;
            int k8 = 0;
            switch (r.in(0, 5))
            {
                case 0: k8 = 0; break;
                case 1: k8 = (int)even; break;
                case 2: k8 = (int)even + 1; break;
                case 3: k8 = r.in(0, (int)even); break;
                default: k8 = r.in((int)even, 3 * (int)even + 8);
            }
            while ((long)d * k8 * k8 > 1600000 || (long)d * d * k8 * k8 > 2000000000l) k8--;
            int t = d * k8 * k8;
            double temp = t / 131072.0, dt = d / 1024.0, was = dt;
            std::vector<int> len, za, zb, dv;
            std::vector<double> before, after;
            for (auto& q : p)
            {
                len.push_back(fx(q.length, 1e8));
                za.push_back(fx(sa.normal(0, 1), 1e3)); zb.push_back(fx(sb.normal(), 1e3));
                before.push_back(q.velocity);
            }
            std::vector<int> r0 = rest(p, ls);
            double s = ls.computeVelocities(p, dt, temp, rng);
            std::vector<int> r1 = rest(p, ls);
            std::vector<double> got = ls.velocity;
            for (size_t i = 0; i < p.size(); i++) { after.push_back(p[i].velocity); dv.push_back(fx(p[i].velocity - before[i], 1e3)); }
            ls.computeVelocities(p);
            std::vector<int> nodal, ordinary;
            for (unsigned i = 0; i < ls.mesh.nNodes; i++) { nodal.push_back(fx(got[i], 1e3)); ordinary.push_back(fx(ls.velocity[i], 1e3)); }
            T.rec(J().k("ev", "noise").k("new", drawn == 0).k("drawn", drawn).k("t", t).k("d", d).k("c", c).k("scale", fx(s, 1e3)).k("step", fx(dt, 1e6))
                   .k("stepWords", words(dt)).k("oldWords", words(was)).k("len", len).k("za", za).k("zb", zb).k("dv", dv)
                   .k("velBefore", digest(before)).k("velAfter", digest(after)).k("nodal", nodal).k("ordinary", ordinary)
                   .k("restBefore", r0).k("restAfter", r1));
            drawn += p.size();
        }
    }
}
static Reg reg("C18", run);
