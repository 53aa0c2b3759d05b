// Scenario generators: exact shapes and rough grid fields.
#ifndef VH_SHAPES_H
#define VH_SHAPES_H
#include "vh.h"
#include <algorithm>

namespace vh
{
    // A grid field with w x h cells; value (x,y) at x + y*(w+1).
    struct Field
    {
        int w, h;
        std::vector<double> v;
        Field(int w_ = 0, int h_ = 0) : w(w_), h(h_), v((w_+1)*(h_+1), 0.0) {}
        double& at(int x, int y) { return v[x + y*(w+1)]; }
        double at(int x, int y) const { return v[x + y*(w+1)]; }
        bool in(int x, int y) const { return x >= 0 && y >= 0 && x <= w && y <= h; }
        size_t n() const { return v.size(); }
    };

    // Eight symmetries of the square lattice: bit 0 mirrors x, bit 1 mirrors y, bit 2 transposes (applied last).
    inline Field transformed(const Field& f, int s)
    {
        Field g(s & 4 ? f.h : f.w, s & 4 ? f.w : f.h);
        for (int y=0;y<=f.h;y++) for (int x=0;x<=f.w;x++)
        {
            int X = s & 1 ? f.w - x : x, Y = s & 2 ? f.h - y : y;
            if (s & 4) std::swap(X, Y);
            g.at(X, Y) = f.at(x, y);
        }
        return g;
    }
    inline void transformPoint(int w, int h, int s, double& x, double& y)
    {
        if (s & 1) x = w - x;
        if (s & 2) y = h - y;
        if (s & 4) std::swap(x, y);
    }

    // Exact shapes; positive inside the material.
    struct Shape
    {
        int kind; double p[6]; double sgn;
        std::string text;
        double sd(double x, double y) const
        {
            switch (kind)
            {
                case 0: return sgn*(p[2] - hypot(x - p[0], y - p[1]));                       // disc
                case 1: return sgn*(p[0]*x + p[1]*y - p[2]);                                 // half-plane (unit normal)
                case 2: return sgn*(0.5*p[3] - std::fabs(p[0]*x + p[1]*y - p[2]));           // stripe
                default:                                                                      // box
                {
                    double dx = std::fabs(x - p[0]) - p[2], dy = std::fabs(y - p[1]) - p[3];
                    double o = hypot(std::max(dx, 0.0), std::max(dy, 0.0));
                    return sgn*-(o + std::min(std::max(dx, dy), 0.0));
                }
            }
        }
    };
    inline Shape randomShape(Rng& r, int w, int h, int kind = -1)
    {
        Shape s; s.sgn = r.coin() ? 1 : -1;
        s.kind = kind >= 0 ? kind : r.i(0, 3);
        double m = std::min(w, h); char b[200];
        bool grid = r.coin(0.35);     // grid-aligned parameters
        auto q = [&](double v) { return grid ? std::round(2*v)/2 : v; };
        if (s.kind == 0)
        {
            s.p[0] = q(r.u(0.2*w, 0.8*w)); s.p[1] = q(r.u(0.2*h, 0.8*h)); s.p[2] = q(r.u(std::min(1.5, 0.15*m), 0.45*m));
            if (s.p[2] <= 0) s.p[2] = 0.7;
            snprintf(b, sizeof b, "%s disc (%.6g,%.6g) r %.6g", s.sgn > 0 ? "solid" : "void", s.p[0], s.p[1], s.p[2]);
        }
        else if (s.kind == 1 || s.kind == 2)
        {
            double a = r.coin(0.4) ? r.i(0, 7)*0.78539816339744831 : r.u(0, 6.283185307179586);
            s.p[0] = cos(a); s.p[1] = sin(a);
            double cx = q(r.u(0.25*w, 0.75*w)), cy = q(r.u(0.25*h, 0.75*h));
            s.p[2] = s.p[0]*cx + s.p[1]*cy; s.p[3] = q(r.u(0.6, 0.4*m)); if (s.p[3] <= 0) s.p[3] = 1;
            snprintf(b, sizeof b, "%s %s angle %.6g through (%.6g,%.6g) width %.6g", s.sgn > 0 ? "solid" : "void", s.kind == 1 ? "half-plane" : "stripe", a, cx, cy, s.p[3]);
        }
        else
        {
            s.p[0] = q(r.u(0.3*w, 0.7*w)); s.p[1] = q(r.u(0.3*h, 0.7*h)); s.p[2] = q(r.u(0.6, 0.35*m)); s.p[3] = q(r.u(0.6, 0.35*m));
            if (s.p[2] <= 0) s.p[2] = 1; if (s.p[3] <= 0) s.p[3] = 1;
            snprintf(b, sizeof b, "%s box (%.6g,%.6g) half %.6g x %.6g", s.sgn > 0 ? "solid" : "void", s.p[0], s.p[1], s.p[2], s.p[3]);
        }
        s.text = b;
        return s;
    }

    inline Field sample(const Shape& s, int w, int h)
    {
        Field f(w, h);
        for (int y=0;y<=h;y++) for (int x=0;x<=w;x++) f.at(x, y) = s.sd(x, y);
        return f;
    }
    inline bool bothSigns(const Field& f)
    {
        bool p = false, n = false;
        for (double v : f.v) { if (v > 0) p = true; if (v < 0) n = true; }
        return p && n;
    }

    enum { F_SHAPE, F_SHAPES, F_COSINE, F_NOISE, F_LATTICE, F_THIN, F_CELLS, F_NKINDS };

    // Random field of a given kind (or any); always has both signs. Text describes it.
    inline Field randomField(Rng& r, int w, int h, std::string& text, int kind = -1)
    {
        for (int attempt=0;;attempt++)
        {
            int k = kind >= 0 ? kind : r.i(0, F_NKINDS-1);
            Field f(w, h); char b[300];
            switch (k)
            {
                case F_SHAPE: { Shape s = randomShape(r, w, h); f = sample(s, w, h); snprintf(b, sizeof b, "%s", s.text.c_str()); break; }
                case F_SHAPES:
                {
                    int n = r.i(2, 6); std::string t = "mix:";
                    f = sample(randomShape(r, w, h), w, h);
                    for (int i=1;i<n;i++)
                    {
                        Shape s = randomShape(r, w, h); Field g = sample(s, w, h); bool un = r.coin();
                        for (size_t j=0;j<f.v.size();j++) f.v[j] = un ? std::max(f.v[j], g.v[j]) : std::min(f.v[j], g.v[j]);
                    }
                    snprintf(b, sizeof b, "%d combined shapes", n); break;
                }
                case F_COSINE:
                {
                    int n = r.i(1, 5); double lo = r.u(2.5, 8);
                    std::vector<double> kx(n), ky(n), ph(n), am(n);
                    for (int i=0;i<n;i++) { double L = r.u(lo, 4*lo), a = r.u(0, 6.283185307179586); kx[i] = 6.283185307179586/L*cos(a); ky[i] = 6.283185307179586/L*sin(a); ph[i] = r.u(0, 6.3); am[i] = r.u(0.3, 3); }
                    double off = r.u(-0.5, 0.5);
                    for (int y=0;y<=h;y++) for (int x=0;x<=w;x++) { double s = off; for (int i=0;i<n;i++) s += am[i]*cos(kx[i]*x + ky[i]*y + ph[i]); f.at(x, y) = s; }
                    snprintf(b, sizeof b, "%d cosines, shortest wavelength %.3g", n, lo); break;
                }
                case F_NOISE:
                {
                    double p = r.u(0.1, 0.9), z = r.coin(0.4) ? r.u(0, 0.3) : 0;
                    for (double& v : f.v) v = r.coin(z) ? 0 : (r.coin(p) ? 1 : -1)*r.u(0.02, 2);
                    snprintf(b, sizeof b, "node noise, %.2f positive, %.2f zero", p, z); break;
                }
                case F_LATTICE:
                {
                    int m = r.i(1, 3);
                    for (double& v : f.v) v = r.i(-m, m)*(r.coin() ? 1 : 0.5);
                    snprintf(b, sizeof b, "lattice noise to %d", m); break;
                }
                case F_THIN:
                {
                    double bg = r.coin() ? 1 : -1; int n = r.i(1, 5);
                    for (double& v : f.v) v = bg*r.u(0.3, 1.5);
                    for (int i=0;i<n;i++)
                    {
                        int x = r.i(0, w), y = r.i(0, h), dx = r.i(-1, 1), dy = r.i(-1, 1), L = r.i(1, 12); bool zero = r.coin(0.4);
                        for (int j=0;j<L && f.in(x, y);j++, x+=dx, y+=dy) f.at(x, y) = zero ? 0 : -bg*r.u(0.05, 1);
                    }
                    snprintf(b, sizeof b, "%d one-node lines", n); break;
                }
                default:
                {
                    int s = r.i(1, 4); double p = r.u(0.3, 0.7);
                    std::vector<double> val((w/s + 2)*(h/s + 2));
                    for (double& v : val) v = (r.coin(p) ? 1 : -1)*(r.coin(0.1) ? 0 : 1);
                    for (int y=0;y<=h;y++) for (int x=0;x<=w;x++) f.at(x, y) = val[x/s + (y/s)*(w/s + 2)]*(r.coin(0.5) ? 1 : r.u(0.1, 1));
                    snprintf(b, sizeof b, "random blocks of %d", s);
                }
            }
            if (bothSigns(f)) { text = b; return f; }
            if (attempt > 30) { f.at(0, 0) = 1; f.at(w, h) = -1; text = std::string(b) + " (forced)"; if (bothSigns(f)) return f; }
        }
    }
}
#endif
