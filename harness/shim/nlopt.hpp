// Stand-in for NLopt's C++ interface, for judging the problem slsm::Optimise poses and what it does
// with whatever the optimiser answers. The harness supplies the "solver" as a hook.
#ifndef NLOPT_HPP
#define NLOPT_HPP
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <new>
#include <string>
#include <vector>
#include <stdexcept>
#include <functional>

namespace nlopt
{
    enum algorithm { GN_DIRECT = 0, LD_MMA = 24, LN_COBYLA = 25, LD_SLSQP = 40 };
    enum result { FAILURE = -1, INVALID_ARGS = -2, OUT_OF_MEMORY = -3, ROUNDOFF_LIMITED = -4, FORCED_STOP = -5,
                  SUCCESS = 1, STOPVAL_REACHED = 2, FTOL_REACHED = 3, XTOL_REACHED = 4, MAXEVAL_REACHED = 5, MAXTIME_REACHED = 6 };
    class roundoff_limited : public std::runtime_error { public: roundoff_limited() : std::runtime_error("nlopt roundoff-limited") {} };
    class forced_stop : public std::runtime_error { public: forced_stop() : std::runtime_error("nlopt forced stop") {} };
    typedef double (*vfunc)(const std::vector<double>& x, std::vector<double>& grad, void* data);

    struct Fn { vfunc f; void* d; double tol; bool equality; };
    struct Problem
    {
        algorithm alg; unsigned n; std::vector<double> lb, ub; Fn obj; bool isMax; bool hasObj;
        std::vector<Fn> cons; int maxeval; double xtol;
    };
    // The hook plays the solver: may change x, set f, throw, or return any code.
    std::function<result(Problem&, std::vector<double>& x, double& f)>& hook();

    class opt
    {
        Problem p;
    public:
        opt(algorithm a, unsigned n)
        { p.alg = a; p.n = n; p.hasObj = false; p.isMax = false; p.maxeval = 0; p.xtol = 0; p.lb.assign(n, -1e300); p.ub.assign(n, 1e300); }
        void set_lower_bounds(const std::vector<double>& v) { if (v.size() != p.n) throw std::invalid_argument("nlopt invalid argument"); p.lb = v; }
        void set_upper_bounds(const std::vector<double>& v) { if (v.size() != p.n) throw std::invalid_argument("nlopt invalid argument"); p.ub = v; }
        void set_lower_bounds(double v) { p.lb.assign(p.n, v); }
        void set_upper_bounds(double v) { p.ub.assign(p.n, v); }
        void set_maxeval(int m) { p.maxeval = m; }
        void set_xtol_rel(double t) { p.xtol = t; }
        void set_ftol_rel(double) {}
        void set_xtol_abs(double) {}
        void set_ftol_abs(double) {}
        void set_maxtime(double) {}
        void set_min_objective(vfunc f, void* d) { p.obj = Fn{f, d, 0, false}; p.isMax = false; p.hasObj = true; }
        void set_max_objective(vfunc f, void* d) { p.obj = Fn{f, d, 0, false}; p.isMax = true; p.hasObj = true; }
        void add_equality_constraint(vfunc f, void* d, double tol = 0) { p.cons.push_back(Fn{f, d, tol, true}); }
        void add_inequality_constraint(vfunc f, void* d, double tol = 0) { p.cons.push_back(Fn{f, d, tol, false}); }
        result optimize(std::vector<double>& x, double& f)
        {
            if (x.size() != p.n) throw std::invalid_argument("nlopt invalid argument");
            for (unsigned i=0;i<p.n;i++) if (!(p.lb[i] <= p.ub[i]) || !(x[i] >= p.lb[i]) || !(x[i] <= p.ub[i])) throw std::invalid_argument("nlopt invalid argument");
            return hook()(p, x, f);
        }
    };
}
#endif
