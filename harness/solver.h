// A small sequential linear-programming solver for the problems slsm::Optimise poses, in place of NLopt.
#ifndef VH_SOLVER_H
#define VH_SOLVER_H
#include <nlopt.hpp>
#include <algorithm>
#include <cmath>
#include <vector>

namespace vh
{
    // Minimises (or maximises) the objective within the bounds, subject to constraints g(x) <= 0 (or = 0).
    inline nlopt::result slpSolve(nlopt::Problem& p, std::vector<double>& x, double& fOut)
    {
        int n = p.n, m = p.cons.size(); std::vector<double> none, scale(n); double sg = p.isMax ? -1 : 1;
        auto F = [&](int k, const std::vector<double>& y) { const nlopt::Fn& fn = k ? p.cons[k-1] : p.obj; return (k ? 1 : sg)*fn.f(y, none, fn.d); };
        auto eval = [&](const std::vector<double>& y) { std::vector<double> v(m + 1); for (int k=0;k<=m;k++) v[k] = F(k, y); return v; };
        auto viol = [&](const std::vector<double>& v) { double w = 0; for (int k=1;k<=m;k++) w += p.cons[k-1].equality ? std::fabs(v[k]) : std::max(0.0, v[k]); return w; };
        for (int j=0;j<n;j++) scale[j] = std::min(p.ub[j], 1e100) - std::max(p.lb[j], -1e100);
        std::vector<double> v = eval(x); double radius = 1;
        for (int it=0;it<60 && radius>1e-10;it++)
        {
            // Derivatives by differences, as the functions bend where domain limits act.
            std::vector<std::vector<double>> g(m + 1, std::vector<double>(n));
            for (int j=0;j<n;j++)
            {
                std::vector<double> a = x, b = x; double h = 1e-5*scale[j]*radius; a[j] = std::min(x[j] + h, p.ub[j]); b[j] = std::max(x[j] - h, p.lb[j]); if (!(a[j] > b[j])) continue;
                std::vector<double> va = eval(a), vb = eval(b); for (int k=0;k<=m;k++) g[k][j] = (va[k] - vb[k])/(a[j] - b[j]);
            }
            std::vector<double> lo(n), hi(n); for (int j=0;j<n;j++) { lo[j] = std::max(p.lb[j], x[j] - radius*scale[j]); hi[j] = std::min(p.ub[j], x[j] + radius*scale[j]); }
            // Vertices of the linear model: every choice of n among the planes (sides of the box, constraints).
            int planes = 2*n + m; std::vector<int> pick(n); std::vector<double> best; double bestV = 0, bestF = 0;
            auto tryPoint = [&](std::vector<double> y)
            {
                for (int j=0;j<n;j++) y[j] = std::min(std::max(y[j], lo[j]), hi[j]);
                double V = 0, f = v[0]; for (int k=0;k<=m;k++) { double q = v[k]; for (int j=0;j<n;j++) q += g[k][j]*(y[j] - x[j]); if (k) { double w = p.cons[k-1].equality ? std::fabs(q) : std::max(0.0, q); if (w > 1e-10) V += w; } else f = q; }
                if (best.empty() || V < bestV - 1e-12 || (V <= bestV + 1e-12 && f < bestF)) { best = y; bestV = V; bestF = f; }
            };
            std::function<void(int, int)> rec = [&](int d, int from)
            {
                if (d == n)
                {
                    std::vector<std::vector<double>> A(n, std::vector<double>(n + 1, 0.0));
                    for (int r=0;r<n;r++) { int q = pick[r]; if (q < 2*n) { A[r][q/2] = 1; A[r][n] = q % 2 ? hi[q/2] : lo[q/2]; } else { int k = q - 2*n + 1; double c = -v[k]; for (int j=0;j<n;j++) { A[r][j] = g[k][j]; c += g[k][j]*x[j]; } A[r][n] = c; } }
                    for (int c=0;c<n;c++)
                    {
                        int s = c; for (int r=c;r<n;r++) if (std::fabs(A[r][c])*0 == 0 && std::fabs(A[r][c]) > std::fabs(A[s][c])) s = r; if (!(std::fabs(A[s][c]) > 1e-300)) return; std::swap(A[s], A[c]);
                        for (int r=0;r<n;r++) if (r != c) { double w = A[r][c]/A[c][c]; for (int k=c;k<=n;k++) A[r][k] -= w*A[c][k]; }
                    }
                    std::vector<double> y(n); for (int r=0;r<n;r++) { y[r] = A[r][n]/A[r][r]; if (!std::isfinite(y[r])) return; } tryPoint(y); return;
                }
                for (int q=from;q<planes;q++) { pick[d] = q; rec(d + 1, q + 1); }
            };
            tryPoint(x); rec(0, 0);
            std::vector<double> nv = eval(best); double merit = v[0] + 100*viol(v), newMerit = nv[0] + 100*viol(nv);
            if (newMerit < merit) { double gain = merit - newMerit, size = std::fabs(merit) + std::fabs(newMerit); x = best; v = nv; if (gain < 1e-13*size) break; } else radius *= 0.4;
        }
        fOut = sg*v[0]; return nlopt::XTOL_REACHED;
    }
}
#endif
