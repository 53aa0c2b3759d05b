// O01-O03: the optimisation interface, with the numerical optimiser replaced by a scripted one (shim/nlopt.hpp).
#include "vh.h"
#include "slsm_all.h"
#include "digest.h"
#include <nlopt.hpp>
#include "Optimise.h"
#include <iostream>
#include <sstream>
using namespace vh;
using namespace slsm;

namespace nlopt { std::function<result(Problem&, std::vector<double>&, double&)>& hook() { static std::function<result(Problem&, std::vector<double>&, double&)> h; return h; } }

namespace
{
    typedef long double ld;
    struct Sample { int fn; std::vector<double> x; double f; std::vector<double> grad; bool withGrad; };
    struct Attempt { std::vector<Sample> s; };
    struct Posed
    {
        int calls = 0, fails = 0; nlopt::Problem p; std::vector<Attempt> tries; std::vector<double> start, answer; int code = 0; std::vector<int> kinds;
    };

    // The request.
    struct Case
    {
        std::vector<BoundaryPoint> pts; int nC; std::vector<double> dist, lam; std::vector<bool> eq; bool isMax, anyDomain, zeroFn, eqGiven; double md; nlopt::algorithm alg; std::string text; int most = 40;
    };
    void randomPoints(Rng& r, Case& k)
    {
        int n = r.coin(0.1) ? r.i(1, 3) : r.i(3, k.most); k.pts.assign(n, BoundaryPoint()); k.anyDomain = false;
        // near: some points are close to, but not on, an edge or a masked point
        bool domains = r.coin(0.4), fixed = r.coin(0.4), near = r.coin(0.4); std::vector<double> S(k.nC + 1), B(k.nC + 1); for (int j=0;j<=k.nC;j++) { S[j] = r.coin(0.3) ? pow(10, r.u(-6, 6)) : r.u(0.2, 5); B[j] = r.u(-1, 1); }
        for (auto& p : k.pts)
        {
            p.length = r.coin(0.05) ? 0 : r.u(0.02, 1.6); p.isFixed = fixed && r.coin(0.25); p.isDomain = domains && r.coin(0.3); p.coord = Coord(r.u(0, 40), r.u(0, 40));
            p.negativeLimit = p.isDomain ? (r.coin(0.3) ? 0.0 : -r.u(0, 1)*k.md) : -k.md; p.positiveLimit = k.md; if (near && r.coin(0.4)) { if (!p.isDomain) p.negativeLimit = -r.u(0, 1)*k.md; if (r.coin()) p.positiveLimit = r.u(0, 1)*k.md; } p.velocity = r.u(-1, 1);
            p.sensitivities.assign(k.nC + 1, 0); for (int j=0;j<=k.nC;j++) p.sensitivities[j] = S[j]*(B[j] + r.u(-1, 1)); k.anyDomain |= p.isDomain && !p.isFixed;
        }
        // at least one movable point with length and sensitivity
        BoundaryPoint& q = k.pts[r.i(0, n - 1)]; q.isFixed = false; q.length = r.u(0.3, 1.2); k.anyDomain |= q.isDomain;
        for (int j=0;j<=k.nC;j++) if (std::fabs(q.sensitivities[j]) < 0.05*S[j]) q.sensitivities[j] = 0.5*S[j];
        // twins: functions that depend on each other
        if (k.nC > 1 && r.coin(0.15)) for (auto& p : k.pts) p.sensitivities[2] = -p.sensitivities[1]*1.5;
        k.zeroFn = false; if (k.nC > 0 && r.coin(0.08)) { int j = r.i(1, k.nC); for (auto& p : k.pts) p.sensitivities[j] = 0; k.zeroFn = true; }
    }
    std::vector<double> limits(const Case& k)
    {
        std::vector<double> L; for (int j=0;j<=k.nC;j++) { double m = 0; for (auto& p : k.pts) if (!p.isFixed) m = std::max(m, std::fabs(p.sensitivities[j])); L.push_back(m > 0 ? k.md/m : INFINITY); }
        return L;
    }
    // Displacements of physical multipliers; counts clamped points.
    std::vector<double> moves(const Case& k, const std::vector<ld>& M, bool* clamped = nullptr)
    {
        std::vector<double> z(k.pts.size(), 0); if (clamped) *clamped = false;
        for (size_t i=0;i<z.size();i++)
        {
            const BoundaryPoint& p = k.pts[i]; if (p.isFixed) continue; ld s = 0; for (int j=0;j<=k.nC;j++) if (M[j] != 0) s += M[j]*p.sensitivities[j];
            if (p.isDomain && s < p.negativeLimit) { s = p.negativeLimit; if (clamped) *clamped = true; } else if (p.isDomain && clamped && s < p.negativeLimit + 1e-9*k.md) *clamped = true;
            z[i] = (double)s;
        }
        return z;
    }
    ld change(const Case& k, const std::vector<double>& z, int j, ld* mag = nullptr)
    { ld s = 0, m = 0; for (size_t i=0;i<z.size();i++) if (!k.pts[i].isFixed) { ld t = (ld)z[i]*k.pts[i].sensitivities[j]*k.pts[i].length; s += t; m += fabsl(t); } if (mag) *mag = m; return s; }
    // Reachable extremes of each function's change over the box of the active multipliers.
    void extremes(const Case& k, const std::vector<double>& L, const std::vector<int>& act, int fn, ld& lo, ld& hi)
    {
        lo = INFINITY; hi = -INFINITY; int d = act.size();
        for (int v=0;v<(1 << d);v++)
        {
            std::vector<ld> M(k.nC + 1, 0); for (int b=0;b<d;b++) if (std::isfinite(L[act[b]])) M[act[b]] = (v >> b & 1 ? 1 : -1)*(ld)L[act[b]];
            ld c = change(k, moves(k, M), fn); lo = std::min(lo, c); hi = std::max(hi, c);
        }
    }
    struct Expect { std::vector<int> act; std::vector<std::vector<double>> targets; bool tie = false; };
    // Which constraints stay and what they aim at; several targets are possible where side limits bend the functions.
    Expect expectation(const Case& k, const std::vector<double>& L)
    {
        Expect e; e.act.push_back(0); for (int j=1;j<=k.nC;j++) e.act.push_back(j);
        std::vector<std::vector<double>> T(k.nC + 1);
        for (bool again = true;again && e.act.size() > 1;)
        {
            again = false; std::vector<int> next{0}; for (auto& t : T) {}
            for (size_t q=1;q<e.act.size();q++)
            {
                int j = e.act[q]; ld lo, hi; extremes(k, L, e.act, j, lo, hi); lo *= 0.99L; hi *= 0.99L; double d = k.dist[j-1], sc = (double)(fabsl(lo) + fabsl(hi)) + std::fabs(d);
                if (fabsl(d - lo) < 1e-9*sc || fabsl(d - hi) < 1e-9*sc) if (sc > 0) e.tie = true;
                bool keep = true;
                if (d < 0) { if (d < lo) T[j].push_back((double)lo); }
                else if (d > hi) { if (!k.eq[j-1]) keep = false; else T[j].push_back((double)hi); }
                if (keep) next.push_back(j); else again = true;
            }
            e.act = next;
        }
        for (size_t q=1;q<e.act.size();q++) { auto t = T[e.act[q]]; std::vector<double> c; if (t.empty()) c.push_back(k.dist[e.act[q]-1]); else if (k.anyDomain) { c = t; } else c.push_back(t.back()); e.targets.push_back(c); }
        // Where earlier passes set a target that the last one would not, either may stand (bent functions only).
        return e;
    }

    Case randomCase(Rng& r, int most, int more)
    {
        Case k; k.most = most; k.nC = more + r.pick(std::vector<int>{0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5}); k.md = r.coin(0.3) ? 0.5 : r.u(0.02, 0.98); k.isMax = r.coin(0.4); k.alg = r.coin(0.7) ? nlopt::LD_SLSQP : nlopt::LD_MMA;
        randomPoints(r, k); std::vector<double> L = limits(k);
        for (int j=0;j<=k.nC;j++) { double l = std::isfinite(L[j]) ? L[j] : 1; k.lam.push_back((r.coin() ? 1 : -1)*l*(r.coin(0.3) ? r.u(1, 50) : r.u(0.01, 1))); }
        k.eqGiven = r.coin(0.6); for (int j=0;j<k.nC;j++) k.eq.push_back(k.eqGiven && r.coin(0.4));
        for (int j=1;j<=k.nC;j++)
        {
            std::vector<int> all; for (int q=0;q<=k.nC;q++) all.push_back(q);
            ld lo, hi; extremes(k, L, all, j, lo, hi); double s = (double)std::max(fabsl(lo), fabsl(hi)); if (s == 0) s = 1;
            double d; switch (r.i(0, 5)) { case 0: d = 0; break; case 1: d = s*r.u(1.05, 20); break; case 2: d = -s*r.u(1.05, 20); break; default: d = s*r.u(-1, 1); }
            k.dist.push_back(d);
        }
        char b[300]; snprintf(b, sizeof b, "%zu points, %d constraints%s%s%s, limit %.4g, %s", k.pts.size(), k.nC, k.anyDomain ? ", side limits" : "", k.zeroFn ? ", one without sensitivity" : "", k.eqGiven ? ", types given" : "", k.md, k.isMax ? "maximise" : "minimise"); k.text = b;
        return k;
    }

    // Plays the optimiser: samples the functions, fails a few times, answers.
    struct Player { Rng* r; Posed out; int fails; int style; std::vector<int> failKind; };
    void install(Player& P)
    {
        nlopt::hook() = [&P](nlopt::Problem& p, std::vector<double>& x, double& f) -> nlopt::result
        {
            Rng& r = *P.r; Posed& o = P.out; o.calls++; if (o.calls == 1) { o.p = p; o.start = x; }
            Attempt a; unsigned n = p.n;
            for (int t=0;t<4 + (int)n;t++)
            {
                std::vector<double> y(n); for (unsigned j=0;j<n;j++) { double l = p.lb[j], u = p.ub[j]; y[j] = t == 0 ? 0 : t < 4 ? r.u(0.01, 1)*(r.coin() ? l : u) : (unsigned)(t - 4) == j ? 0.7*u : 0; if (!(std::fabs(y[j]) < 1e290)) y[j] = r.u(-1, 1); }
                for (int fn=0;fn<=(int)p.cons.size();fn++)
                {
                    Sample s; s.fn = fn; s.x = y; s.withGrad = r.coin(0.6); if (s.withGrad) s.grad.assign(n, 99);
                    const nlopt::Fn& F = fn ? p.cons[fn-1] : p.obj; s.f = F.f(y, s.grad, F.d); a.s.push_back(s);
                }
            }
            o.tries.push_back(a);
            bool failing = o.fails < P.fails;
            for (unsigned j=0;j<n;j++)
            {
                double u = std::min(p.ub[j], 1e100);
                switch (P.style)
                {
                    case 0: x[j] = u*r.u(-1, 1); break;
                    case 1: x[j] = r.coin() ? p.lb[j] : p.ub[j]; break;
                    case 2: x[j] = 1e-3*u*r.u(-1, 1); break;
                    case 3: x[j] = u*r.u(-4, 4); break;
                    default: x[j] = r.coin(0.5) && j ? 0 : u*r.u(-1, 1);
                }
                if (std::fabs(x[j]) > 1e90) x[j] = r.u(-1, 1);
            }
            if (std::fabs(x[0]) < 1e-6*p.ub[0]) x[0] = 1e-3*p.ub[0];
            // the best point so far is what a failing optimiser leaves behind
            f = r.u(-1e3, 1e3);
            if (failing)
            {
                for (unsigned j=0;j<n;j++) x[j] = std::min(std::max(x[j], p.lb[j]), p.ub[j]);
                int kind = P.failKind[o.fails]; o.fails++; o.kinds.push_back(kind); o.answer = x; o.code = nlopt::ROUNDOFF_LIMITED;
                if (kind == 0) throw nlopt::roundoff_limited();
                o.code = nlopt::FAILURE; return nlopt::FAILURE;
            }
            o.answer = x; o.code = r.i(1, 6); return (nlopt::result)o.code;
        };
    }
    std::string reportedCode(Optimise& o)
    {
        std::ostringstream s; std::streambuf* old = std::cout.rdbuf(s.rdbuf()); o.queryReturnCode(); std::cout.rdbuf(old); return s.str();
    }
    bool saysCode(const std::string& t, int code)
    {
        static const char* good[] = {"", "Generic success", "stopval", "ftol", "xtol", "maxeval", "maxtime"}; static const char* bad[] = {"", "Generic failure", "Invalid", "memory", "oundoff", "forced"};
        if (code > 0) return t.find("Success") != std::string::npos && t.find(good[code]) != std::string::npos;
        if (code < 0) return t.find("Failed") != std::string::npos && t.find(bad[-code]) != std::string::npos;
        return t.find("No optimisation") != std::string::npos;
    }

    enum { LIMITS = 1, PROBLEM = 2, RESULTS = 4 };
    // Judges one call of solve().
    void judge(Ctx& c, int what, const Case& k, Posed& o, const Expect& e, const std::vector<double>& L, const std::vector<double>& lamIn, const std::vector<double>& lamOut, double ts, double ret, const std::vector<BoundaryPoint>& after, bool again)
    {
        const char* rep = again ? " (second call)" : "";
        size_t nA = e.act.size();
        // Inputs other than velocities untouched.
        if (after.size() != k.pts.size()) return c.fail("points", "number of points changed");
        for (size_t i=0;i<after.size();i++)
        {
            const BoundaryPoint &a = after[i], &b = k.pts[i];
            if (a.sensitivities != b.sensitivities || a.length != b.length || a.coord.x != b.coord.x || a.coord.y != b.coord.y || a.isFixed != b.isFixed || a.isDomain != b.isDomain || a.negativeLimit != b.negativeLimit)
                return c.fail("points", "point %zu changed in more than its velocity%s", i, rep);
        }
        if (lamOut.size() != (size_t)k.nC + 1) return c.fail("multipliers", "%zu multipliers returned for %d constraints%s", lamOut.size(), k.nC, rep);
        if (o.p.n != nA)
        {
            if (what & RESULTS) return c.fail("active", "%u multipliers posed, %zu expected%s: distances %.6g %.6g ...", o.p.n, nA, rep, k.dist.size() ? k.dist[0] : 0, k.dist.size() > 1 ? k.dist[1] : 0);
            c.inconclusive("active set differs"); return;
        }
        // Scales from the bounds: a multiplier's bound is the one at which its function alone reaches the move limit.
        std::vector<double> S(nA);
        for (size_t q=0;q<nA;q++)
        {
            int j = e.act[q]; if (!std::isfinite(L[j])) { S[q] = NAN; continue; }
            if (!(o.p.ub[q] > 0) || !(std::fabs(o.p.ub[q] + o.p.lb[q]) <= 1e-12*o.p.ub[q]) || !std::isfinite(o.p.ub[q])) { if (what & PROBLEM) return c.fail("bounds", "bounds %.9g to %.9g for multiplier %d%s", o.p.lb[q], o.p.ub[q], j, rep); return; }
            S[q] = L[j]/o.p.ub[q];
            if (!(o.start[q] >= o.p.lb[q] && o.start[q] <= o.p.ub[q])) return c.fail("start", "starting value %.9g outside %.9g to %.9g%s", o.start[q], o.p.lb[q], o.p.ub[q], rep);
            // The search starts from the caller's estimate, in the units of the answer.
            if (what & PROBLEM)
            {
                double x = S[q]*o.start[q], l = lamIn[j];
                if (std::fabs(l) < L[j]*(1 - 1e-9) ? !(std::fabs(x - l) <= 1e-10*std::fabs(l)) : !(x*l > 0)) return c.fail("start", "the estimate of multiplier %d is %.12g (bound %.9g), the search starts at %.12g%s", j, l, L[j], x, rep);
                c.count("starting values");
            }
        }
        auto physical = [&](const std::vector<double>& x) { std::vector<ld> M(k.nC + 1, 0); for (size_t q=0;q<nA;q++) M[e.act[q]] = std::isfinite(S[q]) ? (ld)S[q]*x[q] : 0; return M; };
        if (what & (PROBLEM | RESULTS))
        {
            if (what & PROBLEM)
            {
                if (!o.p.hasObj || o.p.isMax != k.isMax) return c.fail("sense", "objective posed as %s%s", o.p.isMax ? "maximise" : "minimise", rep);
                if (o.p.alg != k.alg) return c.fail("algorithm", "algorithm %d instead of %d", o.p.alg, k.alg);
                if (o.p.cons.size() != nA - 1) return c.fail("constraints", "%zu constraints posed, %zu expected%s", o.p.cons.size(), nA - 1, rep);
                for (size_t q=1;q<nA;q++) if (o.p.cons[q-1].equality != k.eq[e.act[q]-1]) return c.fail("type", "constraint %d posed as %s%s", e.act[q], o.p.cons[q-1].equality ? "equality" : "inequality", rep);
                if (!(o.p.maxeval > 0)) c.count("no evaluation limit");
            }
            if (o.p.cons.size() != nA - 1) return;
            std::vector<double> prevT(nA, NAN);
            for (size_t t=0;t<o.tries.size();t++)
            {
                std::vector<double> tgt(nA, NAN);
                for (auto& s : o.tries[t].s)
                {
                    bool cl; std::vector<ld> M = physical(s.x); std::vector<double> z = moves(k, M, &cl); int j = e.act[s.fn]; if (!std::isfinite(S[s.fn])) { if (!std::isfinite(s.f) && (what & PROBLEM)) return c.fail("finite", "function %d without sensitivities evaluates to %g%s", j, s.f, rep); continue; }
                    ld mag, ch = change(k, z, j, &mag); double f = s.f/S[s.fn];
                    // rounding in the displacements themselves
                    ld dm = 0; for (auto& p : k.pts) if (!p.isFixed) { ld a = 0; for (int w=0;w<=k.nC;w++) a += fabsl(M[w]*p.sensitivities[w]); dm += a*fabs(p.sensitivities[j])*p.length; }
                    double tol = 1e-11*(double)(mag + dm) + 1e-13*std::fabs(f);
                    if (s.fn == 0) { if ((what & PROBLEM) && !(std::fabs(f - (double)ch) <= tol)) return c.fail("objective", "objective callback gives %.12g, first-order change is %.12g%s", f, (double)ch, rep); }
                    else
                    {
                        double T = (double)ch - f;     // target this evaluation implies
                        if (std::isnan(tgt[s.fn])) tgt[s.fn] = T;
                        double tt = tol + 1e-11*std::fabs(T) + 1e-10*std::fabs(tgt[s.fn]);
                        if ((what & PROBLEM) && !(std::fabs(T - tgt[s.fn]) <= 4*tt)) return c.fail("constraint", "constraint %d callback gives %.12g where its first-order change is %.12g and its target %.12g%s", j, f, (double)ch, tgt[s.fn], rep);
                    }
                    if (s.withGrad && (what & PROBLEM))
                    {
                        if (s.grad.size() != nA) return c.fail("gradient", "gradient of size %zu for %zu multipliers%s", s.grad.size(), nA, rep);
                        if (!cl) for (size_t q=0;q<nA;q++)
                        {
                            if (!std::isfinite(S[q])) { if (!std::isfinite(s.grad[q])) return c.fail("finite", "derivative of function %d with respect to a multiplier without effect is %g%s", j, s.grad[q], rep); continue; }
                            ld g = 0, m = 0; for (auto& p : k.pts) if (!p.isFixed) { ld v = (ld)p.sensitivities[j]*p.sensitivities[e.act[q]]*p.length; g += v; m += fabsl(v); }
                            g *= (ld)S[s.fn]*S[q]; m *= (ld)S[s.fn]*S[q];
                            if (!(fabsl(s.grad[q] - g) <= 1e-11*m)) return c.fail("gradient", "derivative of function %d by multiplier %d is reported as %.12g, is %.12g%s", j, e.act[q], s.grad[q], (double)g, rep);
                            c.count("derivatives");
                        }
                    }
                    c.count("evaluations judged");
                }
                // Targets.
                if (what & RESULTS) for (size_t q=1;q<nA;q++)
                {
                    if (std::isnan(tgt[q])) continue; int j = e.act[q];
                    if (t == 0)
                    {
                        bool ok = false; double L1 = 0; for (double v : e.targets[q-1]) { L1 = v; ok |= std::fabs(tgt[q] - v) <= 1e-8*(std::fabs(v) + std::fabs(tgt[q])) + 1e-13*k.md; }
                        ok |= k.anyDomain && std::fabs(tgt[q] - k.dist[j-1]) <= 1e-8*std::fabs(k.dist[j-1]);
                        double tiny = 0; for (auto& p : k.pts) tiny += std::fabs(p.sensitivities[j])*p.length*k.md; if (std::fabs(tgt[q] - L1) <= 1e-9*tiny) ok = true;
                        if (!ok) return c.fail("target", "constraint %d at distance %.9g (%s) aims at %.9g, expected %.9g%s", j, k.dist[j-1], k.eq[j-1] ? "equality" : "inequality", tgt[q], L1, rep);
                        c.count(e.targets[q-1][0] == k.dist[j-1] ? "constraints posed unchanged" : "constraints aimed at the reachable extreme");
                    }
                    else if (t <= o.kinds.size() && o.kinds[t-1] == 0)
                    {
                        double a = std::fabs(prevT[q]), tiny = 0; for (auto& p : k.pts) tiny += std::fabs(p.sensitivities[j])*p.length*k.md;
                        if (a > 1e-6*tiny && (!(std::fabs(tgt[q]) < a*(1 - 1e-6)) || tgt[q]*prevT[q] < -1e-12*a*a)) return c.fail("reduction", "after a round-off failure constraint %d aims at %.9g, before %.9g%s", j, tgt[q], prevT[q], rep);
                        c.count("targets reduced");
                    }
                }
                prevT = tgt;
            }
        }
        // Results.
        std::vector<double> z(after.size()); double worst = 0;
        for (size_t i=0;i<after.size();i++)
        {
            z[i] = after[i].velocity*ts; if (!std::isfinite(after[i].velocity)) return c.fail("finite", "velocity %g at point %zu (time step %.9g)%s", after[i].velocity, i, ts, rep);
            worst = std::max(worst, std::fabs(z[i]));
        }
        std::vector<ld> X = physical(o.answer); bool cl; std::vector<double> zx = moves(k, X, &cl); double wx = 0; for (double v : zx) wx = std::max(wx, std::fabs(v));
        c.maxOf("largest displacement asked for over the move limit", wx/k.md); c.maxOf("largest displacement over the move limit", worst/k.md);
        std::vector<ld> Mout(k.nC + 1, 0); for (int j=0;j<=k.nC;j++) Mout[j] = std::isfinite(L[j]) ? lamOut[j] : 0;
        if (what & LIMITS)
        {
            if (!std::isfinite(ts) || !(ts > 0) || !(std::fabs(ts - std::fabs(lamOut[0])) <= 1e-14*ts)) return c.fail("time-step", "time step %.12g, objective multiplier %.12g%s", ts, lamOut[0], rep);
            for (size_t i=0;i<after.size();i++)
            {
                const BoundaryPoint& p = k.pts[i];
                if (!(std::fabs(z[i]) <= k.md*(1 + 1e-10))) return c.fail("move-limit", "point %zu displaced by %.12g, move limit %.12g%s", i, z[i], k.md, rep);
                if (p.isFixed && z[i] != 0) return c.fail("fixed", "fixed point %zu displaced by %.9g%s", i, z[i], rep);
                if (p.isDomain && !(z[i] >= p.negativeLimit - 1e-10*k.md)) return c.fail("side-limit", "domain point %zu displaced by %.12g, its limit is %.12g%s", i, z[i], p.negativeLimit, rep);
            }
            // Displacements are those of the multipliers returned.
            std::vector<double> zo = moves(k, Mout);
            for (size_t i=0;i<z.size();i++)
            {
                ld a = 0; for (int w=0;w<=k.nC;w++) a += fabsl(Mout[w]*k.pts[i].sensitivities[w]);
                if (!(std::fabs(z[i] - zo[i]) <= 1e-11*(double)a + 1e-12*k.md)) return c.fail("displacement", "point %zu displaced by %.12g, multiplier-weighted sensitivities give %.12g%s", i, z[i], zo[i], rep);
            }
            // Scaled back only when needed, and only as far as needed.
            if (wx > k.md*(1 + 1e-9)) { if (!cl && !(worst >= k.md*(1 - 1e-9))) return c.fail("overscaled", "answer of %.9g times the move limit was scaled to %.9g of it%s", wx/k.md, worst/k.md, rep); c.count("answers scaled back"); }
            else { for (size_t i=0;i<z.size();i++) if (!(std::fabs(z[i] - zx[i]) <= 1e-9*k.md)) return c.fail("needless-scaling", "answer within limits (%.9g) but point %zu moves by %.12g instead of %.12g%s", wx, i, z[i], zx[i], rep); c.count("answers within limits"); }
        }
        if (what & RESULTS)
        {
            // Every multiplier in its place.
            double factor = NAN;
            for (size_t q=0;q<nA;q++) if (std::isfinite(S[q]) && std::fabs((double)X[e.act[q]]) > 1e-3*L[e.act[q]]) { factor = lamOut[e.act[q]]/(double)X[e.act[q]]; break; }
            if (std::isfinite(factor))
            {
                if (!(factor > 0 && factor <= 1 + 1e-12)) return c.fail("mapping", "first multiplier came back as %.9g times the answer%s", factor, rep);
                for (size_t q=0;q<nA;q++) if (std::isfinite(S[q]) && !(std::fabs(lamOut[e.act[q]] - factor*(double)X[e.act[q]]) <= 1e-10*(std::fabs(lamOut[e.act[q]]) + std::fabs(factor*(double)X[e.act[q]])))) return c.fail("mapping", "multiplier of constraint %d is %.12g, the optimiser's answer is %.12g (times %.9g)%s", e.act[q], lamOut[e.act[q]], (double)X[e.act[q]], factor, rep);
            }
            for (int j=1;j<=k.nC;j++) if (std::find(e.act.begin(), e.act.end(), j) == e.act.end()) { if (lamOut[j] != 0) return c.fail("dropped", "constraint %d was left out but its multiplier is %.9g%s", j, lamOut[j], rep); c.count("constraints left out"); }
            // Reported change.
            ld mag, ch = change(k, z, 0, &mag); if (!(std::fabs(ret - (double)ch) <= 1e-10*(double)mag + 1e-300)) return c.fail("reported", "reported objective change %.12g, that of the displacements %.12g%s", ret, (double)ch, rep);
        }
    }

    // The same request with some functions in other units (sensitivities and distance times a power of two, estimate divided
    // by it) poses the same problem, and the same answer means the same motion.
    void otherUnits(Ctx& c, const Case& k, const Posed& first, const std::vector<double>& lamOut, double ret, double ts, const std::vector<BoundaryPoint>& after)
    {
        std::vector<int> e; for (int j=0;j<=k.nC;j++) e.push_back(c.rng.coin(0.6) ? c.rng.i(-40, 40) : 0);
        for (int j=0;j<=k.nC;j++) { bool any = false; for (auto& p : k.pts) any |= !p.isFixed && p.sensitivities[j] != 0; if (!any) e[j] = 0; }      // nothing to scale by
        std::vector<BoundaryPoint> pts = k.pts; for (auto& p : pts) for (int j=0;j<=k.nC;j++) p.sensitivities[j] = ldexp(p.sensitivities[j], e[j]);
        std::vector<double> dist = k.dist, lam = k.lam; for (int j=0;j<=k.nC;j++) { lam[j] = ldexp(lam[j], -e[j]); if (j) dist[j-1] = ldexp(dist[j-1], e[j]); }
        double t2 = 0; Optimise o(pts, dist, lam, t2, k.md, k.isMax, k.eqGiven ? k.eq : std::vector<bool>(), k.alg);
        std::string bad; int calls = 0;
        nlopt::hook() = [&](nlopt::Problem& p, std::vector<double>& x, double& f) -> nlopt::result
        {
            char b[300]; calls++;
            auto close = [](double a, double q) { return std::fabs(a - q) <= 1e-9*(std::fabs(a) + std::fabs(q)) || a == q; };
            if (p.n != first.p.n || p.cons.size() != first.p.cons.size()) { bad = "another number of multipliers or constraints"; x.assign(p.n, 0); for (unsigned j=0;j<p.n;j++) x[j] = 1e-3*p.ub[j]; return nlopt::SUCCESS; }
            for (unsigned j=0;j<p.n && bad.empty();j++) if (!close(p.ub[j], first.p.ub[j]) || !close(p.lb[j], first.p.lb[j]) || !close(x[j], first.start[j])) { snprintf(b, sizeof b, "multiplier %u between %.12g and %.12g from %.12g, instead of %.12g, %.12g, %.12g", j, p.lb[j], p.ub[j], x[j], first.p.lb[j], first.p.ub[j], first.start[j]); bad = b; }
            for (auto& s : first.tries[0].s)
            {
                std::vector<double> g; if (s.withGrad) g.assign(p.n, 99); const nlopt::Fn& F = s.fn ? p.cons[s.fn-1] : p.obj; double v = F.f(s.x, g, F.d);
                double size = 0; for (auto& q : first.tries[0].s) if (q.fn == s.fn && std::isfinite(q.f)) size = std::max(size, std::fabs(q.f));
                if (bad.empty() && !(std::fabs(v - s.f) <= 1e-9*size) && !(std::isnan(v) && std::isnan(s.f))) { snprintf(b, sizeof b, "function %d is %.12g instead of %.12g", s.fn, v, s.f); bad = b; }
                double gs = 0; for (double q : s.grad) gs = std::max(gs, std::fabs(q));
                if (s.withGrad) for (unsigned j=0;j<p.n && bad.empty();j++) if (!(std::fabs(g[j] - s.grad[j]) <= 1e-9*gs)) { snprintf(b, sizeof b, "derivative of function %d for multiplier %u is %.12g instead of %.12g", s.fn, j, g[j], s.grad[j]); bad = b; }
            }
            x = first.answer; f = 0; return nlopt::SUCCESS;
        };
        double r2 = o.solve(); nlopt::hook() = nullptr; (void)r2; (void)ret;
        if (!bad.empty()) return c.fail("units", "in other units the problem posed differs: %s", bad.c_str());
        for (int j=0;j<=k.nC;j++) if (!(std::fabs(ldexp(lam[j], e[j]) - lamOut[j]) <= 1e-9*std::fabs(lamOut[j]))) return c.fail("units", "multiplier %d in other units is %.12g instead of %.12g", j, ldexp(lam[j], e[j]), lamOut[j]);
        double biggest = 0; for (auto& p : after) if (std::isfinite(p.velocity)) biggest = std::max(biggest, std::fabs(p.velocity));
        // the time step is the objective's multiplier, velocities are per unit of it
        if (!(std::fabs(ldexp(t2, e[0]) - ts) <= 1e-9*std::fabs(ts))) return c.fail("units", "time step %.12g in other units instead of %.12g", ldexp(t2, e[0]), ts);
        for (size_t i=0;i<after.size();i++) if (!after[i].isFixed && std::isfinite(after[i].velocity) && !(std::fabs(ldexp(pts[i].velocity, -e[0]) - after[i].velocity) <= 1e-9*biggest)) return c.fail("units", "point %zu moves at %.12g in other units instead of %.12g", i, ldexp(pts[i].velocity, -e[0]), after[i].velocity);
        c.count("problems compared in other units");
    }

    void play(Ctx& c, int what)
    {
        Case k = randomCase(c.rng, c.caseNo % 50 == 49 ? 3000 : 40, c.caseNo % 50 == 24 ? 5 : 0); c.tag("%s", k.text.c_str());
        std::vector<BoundaryPoint> pts = k.pts; std::vector<double> lam = k.lam; double ts = c.rng.u(0, 3);
        bool plainCtor = k.alg == nlopt::LD_SLSQP && !k.eqGiven && !k.isMax && c.rng.coin();
        std::unique_ptr<Optimise> o(plainCtor ? new Optimise(pts, k.dist, lam, ts, k.md) : k.alg == nlopt::LD_SLSQP && !k.eqGiven ? new Optimise(pts, k.dist, lam, ts, k.md, k.isMax) : new Optimise(pts, k.dist, lam, ts, k.md, k.isMax, k.eqGiven ? k.eq : std::vector<bool>(), k.alg));
        if ((what & RESULTS) && !saysCode(reportedCode(*o), 0)) return c.fail("return-code", "before any optimisation: '%s'", reportedCode(*o).c_str());
        int rounds = c.rng.coin(0.35) ? (c.rng.coin(0.2) ? c.rng.i(3, 6) : 2) : 1; uint64_t h = 17;
        for (int round=0;round<rounds;round++)
        {
            if (round)
            {
                // Between calls the caller may replace the points; distances stay those given to the constructor.
                if (c.rng.coin(0.7)) { Case k2 = k; randomPoints(c.rng, k2); k.pts = k2.pts; k.anyDomain = k2.anyDomain; k.zeroFn = k2.zeroFn; pts = k.pts; }
                else
                {
                    k.pts = pts;
                    // The same points, some of them newly fixed, freed, on or off the domain boundary.
                    if (c.rng.coin(0.6))
                    {
                        for (auto& p : pts) { if (c.rng.coin(0.25)) p.isFixed = !p.isFixed; if (c.rng.coin(0.1)) { p.isDomain = !p.isDomain; p.negativeLimit = p.isDomain ? -c.rng.u(0, 1)*k.md : -k.md; } }
                        size_t q = 0; for (size_t i=0;i<pts.size();i++) if (pts[i].length*std::fabs(pts[i].sensitivities[0]) > pts[q].length*std::fabs(pts[q].sensitivities[0])) q = i;
                        pts[q].isFixed = false; k.pts = pts; k.anyDomain = false; for (auto& p : pts) k.anyDomain |= p.isDomain && !p.isFixed;
                        c.count("optimisations after flags of points changed");
                    }
                }
                std::vector<double> L = limits(k);
                for (int j=0;j<=k.nC;j++) if (lam[j] == 0 || c.rng.coin(0.3) || !std::isfinite(lam[j])) lam[j] = (std::isfinite(L[j]) ? L[j] : 1)*c.rng.u(0.01, 2);
            }
            std::vector<double> L = limits(k); Expect e = expectation(k, L); Player P; P.r = &c.rng; P.style = c.rng.i(0, 4); P.fails = (what & RESULTS) && c.rng.coin(0.25) ? c.rng.i(1, 6) : 0;
            for (int i=0;i<P.fails;i++) P.failKind.push_back(c.rng.coin(0.8) ? 0 : 1);
            // A round-off failure every time: with constraints left there is something to reduce, without there is not.
            if (e.act.size() > 1 && P.fails && c.rng.coin(0.1)) { P.fails = c.rng.i(10, 60); P.failKind.assign(P.fails, 0); }
            if (e.act.size() == 1 && P.fails && c.rng.coin()) { P.fails = 500; P.failKind.assign(P.fails, 0); }
            if (e.tie) { c.count("skipped: constraint on the edge of being left out"); return; }
            std::vector<double> lamIn = lam; install(P); double ret = o->solve(); nlopt::hook() = nullptr;
            if (!P.out.calls) return c.fail("no-optimisation", "the optimiser was never called");
            if ((what & RESULTS) && e.act.size() > 1 && P.out.fails < P.fails) return c.fail("gave-up", "stopped after %d of %d failures", P.out.fails, P.fails);
            if (P.out.fails >= 500) return c.fail("endless", "the same problem without constraints was tried %d times after round-off failures", P.out.fails);
            judge(c, what, k, P.out, e, L, lamIn, lam, ts, ret, pts, round > 0); if (c.failed()) return;
            if ((what & PROBLEM) && !round && c.rng.coin(0.6)) { otherUnits(c, k, P.out, lam, ret, ts, pts); if (c.failed()) return; }
            if ((what & RESULTS) && !saysCode(reportedCode(*o), P.out.code)) return c.fail("return-code", "the optimiser said %d, reported: '%s'", P.out.code, reportedCode(*o).c_str());
            for (double v : lam) h = hashD(v, h); h = hashD(ret, h);
            c.count(round ? "repeated optimisations" : "optimisations"); if (P.fails) c.count("optimisations with failures");
            c.count((std::string("problems with ") + std::to_string(e.act.size() - 1) + " active constraints").c_str());
        }
        c.nontrivial(h);
    }
}

VH_CHECK(O01, 12000, 120000, "a case counts when displacements of an optimiser's answer were judged; identified by the multipliers returned") { play(c, LIMITS); }
VH_CHECK(O02, 10000, 100000, "a case counts when a posed problem was sampled; identified by the multipliers returned") { play(c, PROBLEM); }
VH_CHECK(O03, 10000, 120000, "a case counts when constraint handling and the mapping back were judged; identified by the multipliers returned") { play(c, RESULTS); }
