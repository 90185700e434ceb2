// C20: the optimiser with a scripted numerical solver.  Each function may be given to the code in units of its own,
// a power of two: sensitivities and targets times the unit, multipliers divided by it; the problem handed to the
// solver and the displacements do not depend on the units, and what comes back is converted.
#include "common.h"
#include "Boundary.h"
#include "Optimise.h"
#include <iostream>
#include <sstream>
using namespace slsm;
namespace nlopt { std::function<result(opt&, std::vector<double>&, double&)> solver; }

static std::vector<int> rest(const std::vector<BoundaryPoint>& p)
{
    std::vector<double> v;
    for (auto& q : p)
    {
        for (double d : { q.coord.x, q.coord.y, q.normal.x, q.normal.y, q.length, q.negativeLimit, q.positiveLimit, (double)q.isDomain, (double)q.isFixed }) v.push_back(d);
        for (double s : q.sensitivities) v.push_back(s);
    }
    return digest(v);
}
static std::string said(Optimise& o)
{
    std::ostringstream s;
    std::streambuf* old = std::cout.rdbuf(s.rdbuf());
    o.queryReturnCode();
    std::cout.rdbuf(old);
    std::string t = s.str(), p = "[INFO] ";
    if (t.compare(0, p.size(), p)) return "?";
    t = t.substr(p.size());
    return t.substr(0, t.find_first_of(" :"));
}
static void one(Rng& r, int n)
{
    int nc = r.in(0, 3), np = 0, D = r.pick(std::vector<int>{ 16, 32, 32, 48, 63, 5 });
    std::vector<double> unit(nc + 1, 1.0);
    if (r.coin()) for (double& u : unit) u = std::ldexp(1.0, r.in(-14, 14));
    std::vector<BoundaryPoint> p;
    std::vector<std::vector<int>> s;
    std::vector<int> len, neg;
    auto points = [&]
    {
        np = r.in(1, 8);
        p.assign(np, BoundaryPoint()); s.assign(np, std::vector<int>(nc + 1)); len.assign(np, 0); neg.assign(np, 0);
        int style = r.in(0, 3);
        for (int i = 0; i < np; i++)
        {
            for (auto& v : s[i]) v = style == 0 ? r.in(1, 6) : style == 1 ? -r.in(1, 6) : r.in(-6, 6);
            if (style == 3) for (int f = 1; f <= nc; f++) s[i][f] = -s[i][0] + (r.coin(1, 3) ? r.in(0, 1) : 0);
            for (auto& v : s[i]) v = std::max(-6, std::min(6, v));
            len[i] = r.in(1, 8);
            p[i].isFixed = r.coin(1, 6);
            p[i].isDomain = r.coin(1, 3);
            neg[i] = p[i].isDomain ? (r.coin() ? 0 : -r.in(1, D)) : -D;
        }
        for (int f = 0; f <= nc; f++)
        {
            bool any = false;
            for (int i = 0; i < np; i++) any |= !p[i].isFixed && s[i][f];
            if (!any) { p[0].isFixed = false; if (!s[0][f]) s[0][f] = 3; }
        }
        for (int i = 0; i < np; i++)
        {
            p[i].length = len[i] / 8.0; p[i].negativeLimit = neg[i] / 64.0; p[i].positiveLimit = D / 64.0;
            // Positive limits never matter, negative ones only on the edge of the domain.
            if (r.coin(1, 3)) p[i].positiveLimit = r.in(1, 63) / 64.0;
            if (!p[i].isDomain && r.coin(1, 3)) p[i].negativeLimit = -r.in(0, 63) / 64.0;
            p[i].sensitivities.assign(s[i].begin(), s[i].end());
            for (int f = 0; f <= nc; f++) p[i].sensitivities[f] *= unit[f];
            p[i].coord.x = r.u(); p[i].coord.y = r.u(); p[i].normal.x = 1; p[i].velocity = r.u();
        }
    };
    points();
    // Attainable change of each constraint, roughly, to choose distances around it.
    std::vector<int> dist;
    std::vector<bool> eq;
    for (int c = 1; c <= nc; c++)
    {
        double m = 0;
        for (int i = 0; i < np; i++) if (!p[i].isFixed) m += D * std::abs(s[i][c]) * len[i] / 8.0;
        int k = r.in(0, 6), M = (int)(m * (1 + 0.5 * nc)) + 1;
        dist.push_back(k == 0 ? 0 : k < 3 ? r.in(0, M) : k == 3 ? r.in(M, 2 * M) : k == 4 ? -r.in(M, 2 * M) : -r.in(0, M));
        eq.push_back(r.coin(1, 4));
    }
    std::vector<double> lambdas(nc + 1), d;
    std::vector<int> first;
    auto guess = [&]
    {
        lambdas.resize(nc + 1); first.clear();
        int big = r.coin(1, 3) ? 20 : 2;
        for (auto& v : lambdas) v = r.coin(3, 4) ? r.in(-big, big) / 10.0 : 0;
        for (double v : lambdas) first.push_back((int)std::lround(v * 10));
        for (int f = 0; f <= nc; f++) lambdas[f] /= unit[f];
    };
    guess();
    for (size_t k = 0; k < dist.size(); k++) d.push_back(dist[k] / 64.0 * unit[k + 1]);
    double step = 7;
    bool isMax = r.coin();
    nlopt::algorithm alg = r.coin() ? nlopt::LD_SLSQP : nlopt::LD_MMA;
    bool noFlags = true;
    for (bool e : eq) noFlags &= !e;
    std::vector<bool> flags = eq;
    if (noFlags && r.coin()) flags.clear();
    T.begin("solve " + std::to_string(n) + " points " + std::to_string(np) + " constraints " + std::to_string(nc));
    Optimise o(p, d, lambdas, step, D / 64.0, isMax, flags, alg);
    if (r.coin(1, 10)) { T.rec(J().k("ev", "query").k("new", true).k("code", 0).k("said", said(o))); }
    // Solved once, or again after the points have changed.
    for (int k = r.in(1, 3), again = 0; again < k; again++)
    {
        if (again)
        {
            T.begin("solve " + std::to_string(n) + " again");
            if (r.coin(3, 4)) points();
            guess();
        }
        J j;
        int code = r.in(1, 6), throws = r.coin(1, 8) ? 1 : 0, calls = 0, thrown = 0;
        std::vector<int> answer;
        nlopt::solver = [&](nlopt::opt& q, std::vector<double>& x, double& f) -> nlopt::result
        {
            calls++;
            if (calls == 1)
            {
                std::vector<int> lo, hi, x0; std::vector<bool> eqs;
                for (unsigned k = 0; k < q.n; k++) { lo.push_back(fx(q.lo[k], 1e5)); hi.push_back(fx(q.hi[k], 1e5)); x0.push_back(fx(x[k], 1e5)); }
                for (auto& c : q.constraints) eqs.push_back(c.equality);
                std::string samples = "[";
                for (int t = 0; t < 4; t++)
                {
                    std::vector<int> a, fv; std::vector<double> v, g(q.n); std::vector<std::vector<int>> gv;
                    for (unsigned k = 0; k < q.n; k++) { int z = t == 0 ? 0 : t == 1 ? (r.coin() ? 8 : -8) : r.in(-8, 8); a.push_back(z); v.push_back(z / 8.0 * q.hi[k]); }
                    for (size_t k = 0; k <= q.constraints.size(); k++)
                    {
                        nlopt::Fn& fn = k == 0 ? q.objective : q.constraints[k - 1];
                        g.assign(q.n, 1e9);
                        std::vector<double> none;
                        double w = fn.f(v, r.coin(1, 5) ? none : g, fn.data), w2 = fn.f(v, g, fn.data);
                        fv.push_back(w == w2 ? fx(w, 1e5) : BIG);
                        std::vector<int> gi; for (double y : g) gi.push_back(fx(y, 1e5));
                        gv.push_back(gi);
                    }
                    J e; e.k("q", a).k("f", fv).k("g", gv);
                    samples += (t ? "," : "") + e.str();
                }
                j.k("n", q.n).k("isMax", q.isMax).k("alg", (int)q.alg).k("lo", lo).k("hi", hi).k("x0", x0).k("eqs", eqs).raw("samples", samples + "]");
            }
            answer.clear();
            for (unsigned k = 0; k < q.n; k++)
            {
                int z = r.coin(1, 3) ? (r.coin() ? 8 : -8) : r.in(-8, 8);
                if (k == 0 && z == 0) z = -5;
                answer.push_back(z); x[k] = z / 8.0 * q.hi[k];
            }
            std::vector<double> g(q.n);
            f = q.objective.f(x, g, q.objective.data);
            if (thrown < throws) { thrown++; throw nlopt::roundoff_limited(); }
            return (nlopt::result)code;
        };
        std::vector<int> r0 = rest(p);
        double ret = o.solve() / unit[0];
        std::vector<int> r1 = rest(p), moves, lam;
        for (auto& q : p) moves.push_back(fx(q.velocity * step, 1e6));
        for (size_t f = 0; f < lambdas.size(); f++) lam.push_back(fx(lambdas[f] * unit[std::min(f, (size_t)nc)], 1e6));
        step *= unit[0];
        std::string pts = "[";
        for (int i = 0; i < np; i++)
        {
            J e; e.k("s", s[i]).k("l", len[i]).k("fixed", (bool)p[i].isFixed).k("dom", (bool)p[i].isDomain).k("neg", neg[i]);
            pts += (i ? "," : "") + e.str();
        }
        std::string sd = said(o);
        j.k("ev", "solve").k("new", true).raw("pts", pts + "]").k("D", D).k("dist", dist).k("eq", eq).k("wantMax", isMax).k("wantAlg", (int)alg).k("answer", answer)
         .k("first", first).k("lambdas", lam).k("step", fx(step, 1e6)).k("moves", moves).k("change", fx(ret, 1e4)).k("rest", r0).k("restAfter", r1)
         .k("code", thrown && calls == 1 ? 0 : code).k("said", sd);
        T.rec(j);
    }
}
static void run(uint64_t seed, bool thorough)
{
    Rng r(seed);
    for (int n = 0; n < (thorough ? 12000 : 1600); n++) one(r, n);
}
static Reg reg("C20", run);
