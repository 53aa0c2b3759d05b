// D01: the documented optimisation procedures, carried to their documented results.
#include "vh.h"
#include "slsm_all.h"
#include "digest.h"
#include <nlopt.hpp>
#include "Optimise.h"
#include "solver.h"
#include <fstream>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
// The shipped demos, each in a namespace of its own.
#define main demo
namespace area {
#include "minimise_area.cpp"
}
namespace perimeter {
#include "minimise_perimeter.cpp"
}
namespace constrained {
#include "minimise_perimeter_constrained.cpp"
}
namespace shape {
#include "shape_match.cpp"
}
namespace lobes {
#include "dumbbell.cpp"
}
namespace two {
#include "bimodal.cpp"
}
#undef main
using namespace vh;
using namespace slsm;

namespace nlopt { std::function<result(Problem&, std::vector<double>&, double&)>& hook() { static std::function<result(Problem&, std::vector<double>&, double&)> h; return h; } }

namespace
{
    struct Loop
    {
        LevelSet& ls; Boundary b; std::vector<double> lambdas; unsigned nReinit; double time, ts, predicted, area, length; bool isMax; MersenneTwister rng; double T; int steps; double dist;
        Loop(LevelSet& l, unsigned m) : ls(l), lambdas(m + 1), nReinit(0), time(0), ts(0), predicted(0), isMax(false), T(0), steps(0), dist(0) { ls.reinitialise(); b.discretise(ls); measure(); b.computeNormalVectors(ls); }
        void measure() { ls.computeAreaFractions(b); area = ls.area; length = b.length; }
        // One iteration as the demos have it; the sensitivities are in place.
        void step(std::vector<double> dist = std::vector<double>(), std::vector<bool> eq = std::vector<bool>())
        {
            nlopt::hook() = slpSolve; Optimise o(b.points, dist, lambdas, ts, ls.moveLimit, isMax, eq); predicted = o.solve(); nlopt::hook() = nullptr;
            if (T > 0) ls.computeVelocities(b.points, ts, T, rng); else ls.computeVelocities(b.points);
            ls.computeGradients(); if (!ls.update(ts)) { if (nReinit == 20) { ls.reinitialise(); nReinit = 0; } } else nReinit = 0;
            nReinit++; b.discretise(ls); measure(); b.computeNormalVectors(ls); time += ts; steps++;
        }
    };
    // Allowances, see DESIGN.md: about twice the worst seen.
    void within(Ctx& c, const char* what, double v, double limit)
    { c.maxOf(what, v); if (!(v <= limit)) c.fail(what, "%s: %.6g, at most %.6g", what, v, limit); }
}


namespace
{
    double enclosed(const Loop& l) { return (double)l.ls.mesh.width*l.ls.mesh.height - l.area; }
    void perimeterSensitivities(Loop& l, int at = 0)
    { Sensitivity s; SensitivityCallback cb = [&](const BoundaryPoint& p) { return l.b.computePerimeter(p); }; for (auto& p : l.b.points) p.sensitivities[at] = s.computeSensitivity(p, cb); }
    std::vector<Coord> closed(std::vector<Coord> v) { v.push_back(v[0]); return v; }
    // Convex outlines.
    std::vector<Coord> outline(Rng& r, double X, double Y, double R, int& kind)
    {
        kind = r.i(0, 2); std::vector<Coord> v; double a = r.u(0, 6.2832);
        if (kind == 0) { double e = r.u(0.55, 0.95); for (int i=0;i<160;i++) { double t = 2*M_PI*i/160, x = R*cos(t), y = R*e*sin(t); v.push_back(Coord(X + x*cos(a) - y*sin(a), Y + x*sin(a) + y*cos(a))); } }
        else { int n = kind == 1 ? 4 : r.i(3, 7); for (int i=0;i<n;i++) { double t = a + 2*M_PI*i/n; v.push_back(Coord(X + R*cos(t), Y + R*sin(t))); } }
        return closed(v);
    }
}

namespace
{
    struct Enough {};
    std::vector<std::vector<double>> table(const std::string& f) { std::vector<std::vector<double>> t; std::ifstream i(f); std::string s; while (std::getline(i, s)) { std::istringstream q(s); t.push_back(std::vector<double>()); double d; while (q >> d) t.back().push_back(d); } return t; }
    // Runs a shipped demo in a directory of its own.
    void shipped(Ctx& c, int which)
    {
        static const char* names[] = {"minimise_area", "minimise_perimeter", "minimise_perimeter_constrained", "shape_match", "dumbbell", "bimodal"};
        std::string dir = scratchDir() + "/demo", err; mkdir(dir.c_str(), 0700); mkdir((dir + "/shapes").c_str(), 0700); bool whole = which == 0 || (c.thorough && (which == 1 || which == 3)); int limit = which < 2 || which == 3 ? (whole ? 100000 : 60) : which == 2 ? 150 : which > 3 ? (c.thorough ? 200 : 60) : 100000; c.tag("the %s demo", names[which]);
        { std::ifstream i(std::string(VH_REPO_DIR) + "/demos/shapes/stanford-bunny.txt"); std::ofstream o(dir + "/shapes/stanford-bunny.txt"); o << i.rdbuf(); }
        int rc = runChild([&]()
        {
            if (chdir(dir.c_str())) _exit(90); std::string a0 = names[which], a1 = "0"; char* v[] = {&a0[0], &a1[0], nullptr}; int n = 0;
            nlopt::hook() = [&](nlopt::Problem& p, std::vector<double>& x, double& f) { if (n++ == limit) throw Enough(); nlopt::result q = slpSolve(p, x, f); for (double d : x) if (!std::isfinite(d)) _exit(89); return q; };
            try { switch (which) { case 0: area::demo(1, v); break; case 1: perimeter::demo(1, v); break; case 2: constrained::demo(2, v); break; case 3: shape::demo(2, v); break; case 4: lobes::demo(2, v); break; default: two::demo(2, v); } } catch (Enough&) { printf("\nstopped\n"); } fflush(nullptr);
        }, err, 800);
        if (rc == 77 || rc < 0 || rc > 1) { if (rc == 77) fprintf(stderr, "%s", err.c_str()); return c.fail("demo", "the %s demo ended with status %d: %s", names[which], rc, err.substr(0, 600).c_str()); }
        if (rc) return c.fail("demo", "the %s demo refused: %s", names[which], err.substr(0, 600).c_str());
        if (which == 0)
        {
            // distance moved against time: unit velocity
            auto t = table(dir + "/minimise_area.txt"); if (t.size() < 45) return c.fail("demo", "minimise_area sampled %zu times", t.size());
            double w = 0; for (auto& q : t) w = std::max(w, std::fabs(q[0] - q[1])); within(c, "minimise_area demo: distance moved against time", w, 0.15);
        }
        else if (which == 1 && whole)
        {
            // average speed, average sensitivity and inverse radius agree
            auto t = table(dir + "/minimise_perimeter.txt"); if (t.size() < 90) return c.fail("demo", "minimise_perimeter sampled %zu times", t.size());
            double a = 0, b = 0, e = 0; for (auto& q : t) { a += q[2]; b += q[3]; e += q[4]; } within(c, "minimise_perimeter demo: speed against curvature", std::fabs(a/e - 1), 0.15); within(c, "minimise_perimeter demo: sensitivity against curvature", std::fabs(b/e - 1), 0.15);
        }
        else if (which == 3 && whole)
        {
            auto t = table(dir + "/shape-match_0.0000.txt"); if (t.size() < 90) return c.fail("demo", "shape_match sampled %zu times", t.size());
            within(c, "shape_match demo: mismatch left, part of the first", t.back()[1]/t[0][1], 0.1);
        }
        c.log("%s", err.substr(0, 8000).c_str()); c.count("shipped demos"); c.nontrivial(which);
    }
}

VH_CHECK(D01, 600, 5000, "an optimisation counts when it was carried to its end; identified by the final field")
{
    if (c.caseNo < 6) return shipped(c, c.caseNo);
    Rng& r = c.rng; int kind = c.caseNo % 5;
    double ml = r.u(0.1, 0.6); unsigned bw = r.i(6, 8); bool fixedRim = true;
    if (kind == 0)
    {
        // Unit sensitivities: the front moves at unit normal speed.
        int N = r.i(40, 80); double R = r.u(0.2, 0.3)*N, X = N/2.0 + r.u(-3, 3), Y = N/2.0 + r.u(-3, 3); int shape; std::vector<Coord> P; bool circle = r.coin(); if (!circle) P = outline(r, X, Y, R, shape);
        LevelSet ls = circle ? LevelSet(N, N, std::vector<Hole>(1, Hole(X, Y, R)), ml, bw, fixedRim) : LevelSet(N, N, P, ml, bw, fixedRim); Loop l(ls, 0); l.isMax = r.coin();
        double A0 = enclosed(l), L0 = l.length, worst = 0, wp = 0, sum = 0; double end = l.isMax ? 0.12*N : (circle ? 0.7 : 0.4)*2*A0/L0;
        while (l.time < end && l.steps < 2000)
        {
            double B = l.area; for (auto& p : l.b.points) p.sensitivities[0] = 1; l.step(); sum += l.predicted;
            double t = l.time, want = circle ? M_PI*pow(R + (l.isMax ? t : -t), 2) : l.isMax ? A0 + L0*t + M_PI*t*t : 0; if (want) worst = std::max(worst, std::fabs(enclosed(l) - want)/l.length);
            double seen = B - l.area; wp = std::max(wp, std::fabs(seen - l.predicted)/std::fabs(l.predicted));
            if (!(l.ts > 0)) return c.fail("stuck", "time step %g", l.ts);
            c.log("t %.4g A %.5g L %.4g pred %.4g seen %.4g", l.time, enclosed(l), l.length, l.predicted, seen);
        }
        if (c.failed()) return; if (worst) within(c, "distance of a front at unit speed from its place", worst, 0.25);
        within(c, "relative error of the predicted area change", wp, 0.25); c.count("fronts at unit speed"); c.count("iterations", l.steps); c.nontrivial(hashV(ls.signedDistance));
    }
    else if (kind == 1)
    {
        // Perimeter sensitivities: motion by curvature.
        int N = r.i(36, 50); double R = r.u(0.25, 0.35)*N, X = N/2.0 + r.u(-3, 3), Y = N/2.0 + r.u(-3, 3); int shape; std::vector<Coord> P; bool circle = r.coin(); if (!circle) P = outline(r, X, Y, R, shape);
        LevelSet ls = circle ? LevelSet(N, N, std::vector<Hole>(1, Hole(X, Y, R)), ml, bw, fixedRim) : LevelSet(N, N, P, ml, bw, fixedRim); Loop l(ls, 0);
        double A0 = enclosed(l), L0 = l.length, sum = 0, up = 0;
        while (enclosed(l) > 0.5*A0 && l.steps < 2000) { double Lb = l.length; perimeterSensitivities(l); l.step(); sum += l.predicted; up = std::max(up, l.length - Lb); }
        double rate = (A0 - enclosed(l))/l.time/(2*M_PI); within(c, "curvature flow: relative error of the area rate", std::fabs(rate - 1), 0.18); within(c, "curvature flow: isoperimetric ratio at the end", l.length*l.length/4/M_PI/enclosed(l), 1.25);
        within(c, "curvature flow: largest growth of the perimeter in a step", up, 6); if (ml < 0.2) within(c, "curvature flow: error of the predicted perimeter change", std::fabs(sum/(l.length - L0) - 1), 2);
        c.count("curvature flows"); c.count("iterations", l.steps); c.nontrivial(hashV(ls.signedDistance));
    }
    else if (kind == 2)
    {
        int N = r.i(30, 44); double f = r.u(0.6, 0.75), R = N*sqrt((1 - f)/2)*r.u(0.8, 1.05); int shape; std::vector<Coord> P = outline(r, N/2.0, N/2.0, R, shape); bool eq = r.coin(0.3);
        LevelSet ls(N, N, P, ml, bw, fixedRim); Loop l(ls, 1); double M = N*(double)N, iso0 = l.length*l.length/4/M_PI/enclosed(l), start = l.area/M; std::vector<double> isos, as;
        double tEnd = N*N*0.06; while (l.time < tEnd && l.steps < 1500)
        {
            perimeterSensitivities(l); for (auto& p : l.b.points) p.sensitivities[1] = -1;
            l.step(std::vector<double>(1, M*f - l.area), std::vector<bool>(eq ? 1 : 0, true)); isos.push_back(l.length*l.length/4/M_PI/enclosed(l)); as.push_back(l.area/M);
        }
        std::vector<double> q(isos.begin() + isos.size()/2, isos.end()); std::sort(q.begin(), q.end()); std::vector<double> a(as.begin() + as.size()/2, as.end()); std::sort(a.begin(), a.end());
        within(c, "constrained perimeter: median area off the constraint, fraction of the grid", std::fabs(a[a.size()/2] - f), 0.002); within(c, "constrained perimeter: largest area off the constraint in the second half", std::max(std::fabs(a[0] - f), std::fabs(a.back() - f)), 0.01);
        within(c, "constrained perimeter: median isoperimetric ratio", q[q.size()/2], 1.25); within(c, "constrained perimeter: best isoperimetric ratio", q[0], 1.1); (void)iso0; (void)start;
        c.count("constrained minimisations"); c.count("iterations", l.steps); c.nontrivial(hashV(ls.signedDistance));
    }
    else if (kind == 3)
    {
        // Shape matching.
        int N = r.i(40, 60), shape; double R = r.u(0.15, 0.3)*N; std::vector<Coord> P = outline(r, N/2.0 + r.u(-4, 4), N/2.0 + r.u(-4, 4), r.u(0.2, 0.35)*N, shape);
        LevelSet ls(N, N, std::vector<Hole>(1, Hole(N/2.0 + r.u(-3, 3), N/2.0 + r.u(-3, 3), R)), P, ml, bw, fixedRim); std::vector<double> target;
        { Boundary b; b.discretise(ls, true); ls.computeAreaFractions(b); for (auto& e : ls.mesh.elements) target.push_back(e.area); }
        Loop l(ls, 0); auto mismatch = [&]() { double m = 0; for (size_t i=0;i<target.size();i++) m += std::fabs(target[i] - ls.mesh.elements[i].area); return m; };
        double m0 = mismatch(), up = 0, low = m0; while (l.time < N && l.steps < 600)
        {
            for (auto& p : l.b.points)
            {
                // bilinear mismatch, cut at one grid spacing
                double x = p.coord.x, y = p.coord.y; int i = std::min((int)x, N - 1), j = std::min((int)y, N - 1); double a = x - i, b = y - j, m = 0;
                for (int k=0;k<4;k++) { unsigned n = ls.mesh.xyToIndex[i + (k & 1)][j + k/2]; m += (k & 1 ? a : 1 - a)*(k/2 ? b : 1 - b)*(ls.target[n] - ls.signedDistance[n]); }
                p.sensitivities[0] = std::max(-1.0, std::min(1.0, m));
            }
            double b = mismatch(); l.step(); up = std::max(up, mismatch() - b); low = std::min(low, mismatch()); if (std::fabs(l.predicted) < 1e-3) break;
        }
        within(c, "shape matching: mismatch left, per perimeter", mismatch()/l.length, 0.15); within(c, "shape matching: best mismatch, per perimeter", low/l.length, 0.07); (void)m0; (void)up;
        c.count("shape matches"); c.count("iterations", l.steps); c.nontrivial(hashV(ls.signedDistance));
    }
    else
    {
        // Move a hole sideways at constant area.
        int N = r.i(40, 60); double R = r.u(0.15, 0.25)*N, X = N/2.0 + r.u(-6, 6), Y = N/2.0 + r.u(-6, 6), dir = r.u(0, 6.2832), wx = cos(dir), wy = sin(dir);
        LevelSet ls(N, N, std::vector<Hole>(1, Hole(X, Y, R)), ml, bw, fixedRim); Loop l(ls, 1); double A0 = l.area, worst = 0; l.isMax = r.coin();
        auto objective = [&]() { double m = 0; for (auto& e : ls.mesh.elements) m += e.area*(wx*(e.coord.x - X) + wy*(e.coord.y - Y)); return m; };
        double o0 = objective(), sum = 0, wp = 0; while (l.steps < 60)
        {
            for (auto& p : l.b.points) { p.sensitivities[0] = -(wx*(p.coord.x - X) + wy*(p.coord.y - Y)); p.sensitivities[1] = -1; }
            bool edge = false; for (auto& p : l.b.points) edge |= std::min(std::min(p.coord.x, N - p.coord.x), std::min(p.coord.y, N - p.coord.y)) < 3; if (edge) break;
            double b = objective(); l.step(std::vector<double>(1, A0 - l.area), std::vector<bool>(1, true)); sum += l.predicted; wp = std::max(wp, std::fabs(objective() - b - l.predicted)/std::fabs(l.predicted)); worst = std::max(worst, std::fabs(l.area - A0));
        }
        within(c, "moving hole: area drift, per perimeter", worst/l.length, 0.03); within(c, "moving hole: relative error of the predicted change", std::fabs((objective() - o0)/sum - 1), 0.05); within(c, "moving hole: worst error of a step's predicted change", wp, 0.6);
        c.count("moved holes"); c.count("iterations", l.steps); c.nontrivial(hashV(ls.signedDistance));
    }
}
