// Independent piecewise-linear contour of a grid field (marching squares with the documented tolerance rules).
#ifndef VH_CONTOUR_H
#define VH_CONTOUR_H
#include <map>
#include "shapes.h"

namespace vh
{
    struct Seg { double x0, y0, x1, y1; };

    // Crossing points of the linearly interpolated field on cell edges, joined inside cells.
    inline std::vector<Seg> simpleContour(const Field& f)
    {
        std::vector<Seg> out;
        for (int y=0;y<f.h;y++) for (int x=0;x<f.w;x++)
        {
            const int cx[4] = {x, x+1, x+1, x}, cy[4] = {y, y, y+1, y+1};
            double v[4]; for (int k=0;k<4;k++) v[k] = f.at(cx[k], cy[k]);
            std::vector<std::pair<double,double>> p;
            for (int k=0;k<4;k++)
            {
                int m = (k+1)%4;
                if (v[k] == 0) p.push_back(std::make_pair((double)cx[k], (double)cy[k]));
                if (v[k]*v[m] < 0) { double t = v[k]/(v[k]-v[m]); p.push_back(std::make_pair(cx[k] + t*(cx[m]-cx[k]), cy[k] + t*(cy[m]-cy[k]))); }
            }
            for (size_t a=0;a<p.size();a++) for (size_t b=a;b<p.size();b++) if (a == b ? p.size() == 1 : true)
                out.push_back(Seg{p[a].first, p[a].second, p[b].first, p[b].second});
        }
        return out;
    }
    inline double segDist(const Seg& s, double x, double y)
    {
        double dx = s.x1 - s.x0, dy = s.y1 - s.y0, l = dx*dx + dy*dy, t = l > 0 ? ((x - s.x0)*dx + (y - s.y0)*dy)/l : 0;
        t = std::max(0.0, std::min(1.0, t));
        return hypot(x - s.x0 - t*dx, y - s.y0 - t*dy);
    }
    inline double contourDist(const std::vector<Seg>& v, double x, double y)
    {
        double d = DBL_MAX; for (const Seg& s : v) d = std::min(d, segDist(s, x, y)); return d;
    }

    // The discretised boundary cell by cell, from the documented rules: grid points within 1e-6 of zero are
    // boundary points; sides by linear interpolation; ambiguous cells by the mean of the corners.
    struct RefCell
    {
        std::vector<Seg> segs;      // material on the left
        double area;
        bool ambiguous;             // mean of the corners too close to zero to say, either choice is sound
        bool rimSkipped;            // an edge of a fixed rim that would carry boundary was left out
        bool hard;                  // a sign change sits on such an edge
    };
    struct RefBoundary
    {
        int w, h; std::vector<RefCell> cells; double area, length; bool tight; // tight: crossings within tolerance of a grid point
        std::vector<int> st;        // -1 outside, 0 boundary, 1 inside
        int at(int x, int y) const { return st[x + y*(w+1)]; }
        // live[n]: active or masked; empty means every edge counts
        // pick[cell]: for cells whose corners add up to nothing, whether their centre counts as material
        void build(const Field& f, const std::vector<char>& live, const std::map<int, bool>& pick = std::map<int, bool>())
        {
            w = f.w; h = f.h; cells.assign(w*h, RefCell()); area = length = 0; tight = false;
            st.resize(f.n()); for (size_t i=0;i<f.n();i++) { double a = std::fabs(f.v[i]); st[i] = a < 1e-6 ? 0 : f.v[i] < 0 ? -1 : 1; if (std::fabs(a - 1e-6) < 1e-11) tight = true; }
            for (int y=0;y<h;y++) for (int x=0;x<w;x++)
            {
                RefCell& c = cells[x + y*w]; c.area = 0; c.ambiguous = c.rimSkipped = c.hard = false;
                const int cx[4] = {x, x+1, x+1, x}, cy[4] = {y, y, y+1, y+1};
                int s[4], n[4]; double v[4]; int in = 0, out = 0;
                for (int k=0;k<4;k++) { n[k] = cx[k] + cy[k]*(w+1); s[k] = st[n[k]]; v[k] = f.v[n[k]]; in += s[k] > 0; out += s[k] < 0; }
                if (in == 0) continue;
                auto cross = [&](int k, double& X, double& Y)
                {
                    int m = (k+1)%4; double t = v[k]/(v[k] - v[m]);
                    if (t < 1.001e-6 || 1 - t < 1.001e-6) tight = true;
                    X = cx[k] + t*(cx[m] - cx[k]); Y = cy[k] + t*(cy[m] - cy[k]);
                };
                struct V { double x, y; int kind, k; };      // kind: corner status (1, 0) or 2 for a crossing; k corner or edge
                auto finish = [&](const std::vector<V>& p)
                {
                    for (size_t a=0;a<p.size();a++)
                    {
                        const V& q = p[a]; const V& r = p[(a+1)%p.size()];
                        c.area += 0.5*((q.x - x)*(r.y - y) - (r.x - x)*(q.y - y));
                        bool same = false;      // both on one cell edge
                        for (int e=0;e<4;e++)
                        {
                            auto on = [&](const V& z) { return z.kind == 2 ? z.k == e : (z.k == e || z.k == (e+1)%4); };
                            if (on(q) && on(r)) same = true;
                        }
                        if (same && !(q.kind == 0 && r.kind == 0)) continue;
                        if (same && !live.empty() && !live[n[q.k]] && !live[n[r.k]]) { c.rimSkipped = true; continue; }
                        c.segs.push_back(Seg{q.x, q.y, r.x, r.y});
                    }
                };
                for (int k=0;k<4;k++) if (s[k]*s[(k+1)%4] < 0 && !live.empty() && !live[n[k]] && !live[n[(k+1)%4]]) c.hard = true;
                bool saddle = s[0]*s[1] < 0 && s[1]*s[2] < 0 && s[2]*s[3] < 0;
                std::vector<V> p;
                if (saddle)
                {
                    double sum = v[0] + v[1] + v[2] + v[3];
                    if (std::fabs(sum) < 1e-9) { c.ambiguous = true; std::map<int, bool>::const_iterator q = pick.find(x + y*w); if (q != pick.end()) sum = q->second ? 1 : -1; }
                    V z[4]; for (int k=0;k<4;k++) { cross(k, z[k].x, z[k].y); z[k].kind = 2; z[k].k = k; }
                    if (sum > 0) { for (int k=0;k<4;k++) { if (s[k] > 0) p.push_back(V{(double)cx[k], (double)cy[k], 1, k}); p.push_back(z[k]); } finish(p); }
                    else for (int k=0;k<4;k++) if (s[k] > 0) { p.clear(); p.push_back(V{(double)cx[k], (double)cy[k], 1, k}); p.push_back(z[k]); p.push_back(z[(k+3)%4]); finish(p); }
                }
                else
                {
                    for (int k=0;k<4;k++)
                    {
                        int m = (k+1)%4, q = (k+3)%4;
                        if (s[k] > 0) p.push_back(V{(double)cx[k], (double)cy[k], 1, k});
                        else if (s[k] == 0 && !(s[m] < 0 && s[q] < 0)) p.push_back(V{(double)cx[k], (double)cy[k], 0, k});
                        if (s[k]*s[m] < 0) { V z; cross(k, z.x, z.y); z.kind = 2; z.k = k; p.push_back(z); }
                    }
                    finish(p);
                }
                area += c.area; for (const Seg& g : c.segs) length += hypot(g.x1 - g.x0, g.y1 - g.y0);
            }
        }
    };
}
#endif
