// Random simple outlines and direct geometry on them.
#ifndef VH_POLYGON_H
#define VH_POLYGON_H
#include "shapes.h"
#include "slsm_all.h"

namespace vh
{
    typedef std::vector<slsm::Coord> Poly;   // closed: last equals first

    inline double segDist(double px, double py, const slsm::Coord& a, const slsm::Coord& b)
    {
        long double dx = b.x - a.x, dy = b.y - a.y, l2 = dx*dx + dy*dy, t = 0;
        if (l2 > 0) { t = ((px - a.x)*dx + (py - a.y)*dy)/l2; if (t < 0) t = 0; if (t > 1) t = 1; }
        long double ex = a.x + t*dx - px, ey = a.y + t*dy - py;
        return (double)sqrtl(ex*ex + ey*ey);
    }
    inline double outlineDist(const Poly& p, double x, double y)
    {
        double d = DBL_MAX;
        for (size_t i=0;i+1<p.size();i++) d = std::min(d, segDist(x, y, p[i], p[i+1]));
        return d;
    }
    // Total turning angle seen from the point: independent of the usual crossing tests.
    inline bool inside(const Poly& p, double x, double y)
    {
        long double sum = 0;
        for (size_t i=0;i+1<p.size();i++)
        {
            long double ax = p[i].x - x, ay = p[i].y - y, bx = p[i+1].x - x, by = p[i+1].y - y;
            sum += atan2l(ax*by - ay*bx, ax*bx + ay*by);
        }
        return fabsl(sum) > 3.0L;
    }
    inline double minEdge(const Poly& p)
    {
        double m = DBL_MAX;
        // Repeated vertices don't count.
        for (size_t i=0;i+1<p.size();i++) { double d = hypot(p[i+1].x - p[i].x, p[i+1].y - p[i].y); if (d > 0) m = std::min(m, d); }
        return m;
    }
    inline Poly randomPoly(Rng& r, int w, int h, std::string& text)
    {
        Poly p; char b[200]; int kind = r.i(0, 6); double m = std::min(w, h);
        bool grid = r.coin(0.4); double cx = r.u(0.3*w, 0.7*w), cy = r.u(0.3*h, 0.7*h);
        if (kind <= 1)
        {
            // star-shaped: many (short edges) or few vertices
            int n = kind == 0 ? r.i(3, 9) : r.i(20, 200); double R = r.u(0.15, 0.5)*m, rough = r.u(0, 0.6);
            double off = r.u(0, 6.28);
            for (int i=0;i<n;i++) { double a = off + (i + 0.8*r.u())*6.283185307179586/n, q = R*(1 - rough*r.u()); p.push_back(slsm::Coord(cx + q*cos(a), cy + q*sin(a))); }
            snprintf(b, sizeof b, "star outline, %d vertices, radius %.3g, roughness %.2g", n, R, rough);
        }
        else if (kind == 2)
        {
            double hw = r.u(0.4, 0.4*w), hh = r.u(0.4, 0.4*h);
            p.push_back(slsm::Coord(cx - hw, cy - hh)); p.push_back(slsm::Coord(cx + hw, cy - hh)); p.push_back(slsm::Coord(cx + hw, cy + hh)); p.push_back(slsm::Coord(cx - hw, cy + hh));
            snprintf(b, sizeof b, "rectangle %.3g x %.3g", 2*hw, 2*hh);
        }
        else if (kind == 3)
        {
            // comb: teeth along a base line
            int t = r.i(1, 6); double x0 = r.u(0.05, 0.2)*w, x1 = r.u(0.7, 0.95)*w, y0 = r.u(0.1, 0.3)*h, y1 = r.u(0.7, 0.9)*h, ym = 0.5*(y0 + y1), st = (x1 - x0)/(2*t + 1);
            p.push_back(slsm::Coord(x1, y0)); p.push_back(slsm::Coord(x0, y0));
            std::vector<slsm::Coord> q;
            double x = x0; bool up = true;
            for (int i=0;i<2*t+1;i++, up = !up) { p.push_back(slsm::Coord(x, up ? y1 : ym)); x = i == 2*t ? x1 : x + st; p.push_back(slsm::Coord(x, up ? y1 : ym)); }
            snprintf(b, sizeof b, "comb with %d teeth", t + 1); grid = false;
        }
        else if (kind == 4)
        {
            // crossing itself: a star polygon, or vertices anywhere
            int n = r.i(3, 9), step = r.coin(0.6) ? 2 : 1; double R = r.u(0.2, 0.5)*m, off = r.u(0, 6.28);
            if (step == 2) n = 2*r.i(2, 5) + 1;
            bool any = r.coin(0.3);
            for (int i=0;i<n;i++) { double a = off + i*step*6.283185307179586/n; p.push_back(any ? slsm::Coord(r.u(0, w), r.u(0, h)) : slsm::Coord(cx + R*cos(a), cy + R*sin(a))); }
            snprintf(b, sizeof b, any ? "outline through %d random vertices" : step == 2 ? "star polygon of %d points" : "regular outline of %d points", n);
        }
        else
        {
            // rectangle with finely divided edges
            double hw = r.u(1, 0.4*w), hh = r.u(1, 0.4*h); int n = r.i(5, 60);
            double X[5] = {cx - hw, cx + hw, cx + hw, cx - hw, cx - hw}, Y[5] = {cy - hh, cy - hh, cy + hh, cy + hh, cy - hh};
            for (int s=0;s<4;s++) for (int i=0;i<n;i++) p.push_back(slsm::Coord(X[s] + (X[s+1] - X[s])*i/n, Y[s] + (Y[s+1] - Y[s])*i/n));
            snprintf(b, sizeof b, "rectangle %.3g x %.3g in %d pieces a side", 2*hw, 2*hh, n); grid = false;
        }
        if (grid && kind != 1) for (auto& c : p) { c.x = std::round(c.x); c.y = std::round(c.y); }
        bool rev = r.coin();
        if (rev) std::reverse(p.begin(), p.end());
        p.push_back(p[0]);
        text = std::string(b) + (grid ? ", on grid points" : "") + (rev ? ", reversed" : "");
        // No degenerate outlines (zero area) from rounding.
        double A = 0; for (size_t i=0;i+1<p.size();i++) A += p[i].x*p[i+1].y - p[i+1].x*p[i].y;
        if (std::fabs(A) < 0.5 || minEdge(p) < 1e-9) return randomPoly(r, w, h, text);
        // The same outline with some vertices listed more than once.
        if (r.coin(0.15))
        {
            Poly q; int most = r.i(1, 3);
            for (auto& v : p) for (int k = r.coin(0.3) ? r.i(0, most) : 0; k >= 0; k--) q.push_back(v);
            p.swap(q); text += ", repeated vertices";
        }
        return p;
    }
}
#endif
