// Stand-in for NLopt (not installed here): the interface, with a solver scripted by the driver.
#ifndef NLOPT_HPP
#define NLOPT_HPP
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <new>
#include <stdexcept>
#include <vector>
namespace nlopt
{
    enum algorithm { GN_DIRECT = 0, LN_COBYLA = 25, LD_MMA = 24, LD_SLSQP = 40, LD_AUGLAG = 31, LD_CCSAQ = 41 };
    enum result { FAILURE = -1, INVALID_ARGS = -2, OUT_OF_MEMORY = -3, ROUNDOFF_LIMITED = -4, FORCED_STOP = -5, SUCCESS = 1,
                  STOPVAL_REACHED = 2, FTOL_REACHED = 3, XTOL_REACHED = 4, MAXEVAL_REACHED = 5, MAXTIME_REACHED = 6 };
    class roundoff_limited : public std::runtime_error { public: roundoff_limited() : std::runtime_error("nlopt roundoff-limited") {} };
    class forced_stop : public std::runtime_error { public: forced_stop() : std::runtime_error("nlopt forced stop") {} };
    typedef double (*vfunc)(const std::vector<double>&, std::vector<double>&, void*);
    struct Fn { vfunc f; void* data; bool equality; double tol; };
    class opt
    {
    public:
        algorithm alg; unsigned n; std::vector<double> lo, hi; bool isMax, hasObjective; Fn objective; std::vector<Fn> constraints; int maxeval; double xtol;
        opt(algorithm a, unsigned n_) : alg(a), n(n_), lo(n_, -std::numeric_limits<double>::infinity()), hi(n_, std::numeric_limits<double>::infinity()),
            isMax(false), hasObjective(false), maxeval(0), xtol(0) {}
        void need(size_t k) const { if (k != n) throw std::invalid_argument("nlopt invalid argument"); }
        void set_lower_bounds(const std::vector<double>& v) { need(v.size()); lo = v; }
        void set_upper_bounds(const std::vector<double>& v) { need(v.size()); hi = v; }
        void set_lower_bounds(double v) { lo.assign(n, v); }
        void set_upper_bounds(double v) { hi.assign(n, v); }
        void set_maxeval(int k) { maxeval = k; }
        void set_maxtime(double) {}
        void set_xtol_rel(double t) { xtol = t; }
        void set_xtol_abs(double) {}
        void set_ftol_rel(double) {}
        void set_ftol_abs(double) {}
        void set_max_objective(vfunc f, void* d) { objective = Fn{ f, d, false, 0 }; isMax = true; hasObjective = true; }
        void set_min_objective(vfunc f, void* d) { objective = Fn{ f, d, false, 0 }; isMax = false; hasObjective = true; }
        void add_equality_constraint(vfunc f, void* d, double t = 0) { constraints.push_back(Fn{ f, d, true, t }); }
        void add_inequality_constraint(vfunc f, void* d, double t = 0) { constraints.push_back(Fn{ f, d, false, t }); }
        unsigned get_dimension() const { return n; }
        algorithm get_algorithm() const { return alg; }
        result optimize(std::vector<double>& x, double& f);
    };
    extern std::function<result(opt&, std::vector<double>&, double&)> solver;
    inline result opt::optimize(std::vector<double>& x, double& f) { need(x.size()); return solver(*this, x, f); }
}
#endif
