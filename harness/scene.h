// Level sets for boundary checks: raw fields, reinitialised ones, masks, fixed rims, targets, moved interfaces.
#ifndef VH_SCENE_H
#define VH_SCENE_H
#include "slsm_all.h"
#include "contour.h"
#include "polygon.h"

namespace vh
{
    struct Scene
    {
        std::unique_ptr<slsm::LevelSet> ls; bool target, fixed, masked, raw; double ml; int w, h; unsigned bw; std::string text;
        Field field() const { Field f(w, h); f.v = target ? ls->target : ls->signedDistance; return f; }
        std::vector<char> live() const
        {
            std::vector<char> v; if (target) return v;
            for (auto& n : ls->mesh.nodes) v.push_back(n.isActive || n.isMasked);
            return v;
        }
        std::vector<char> maskedNodes() const { std::vector<char> v; for (auto& n : ls->mesh.nodes) v.push_back(n.isMasked); return v; }
    };
    inline bool hasInterface(const Field& f) { bool p = false, n = false, z = false; for (double v : f.v) { p |= v > 0; n |= v < 0; z |= v == 0; } return z || (p && n); }

    inline bool maskBox(Rng& r, slsm::LevelSet& ls)
    {
        int w = ls.mesh.width, h = ls.mesh.height;
        double x = r.i(-1, w), y = r.i(-1, h); std::vector<slsm::Coord> q{slsm::Coord(x, y), slsm::Coord(x + r.u(1.1, 0.5*w + 1), y + r.u(1.1, 0.5*h + 1))};
        bool left = false, hit = false;
        for (unsigned i=0;i<ls.mesh.nNodes;i++)
        {
            const slsm::Coord& k = ls.mesh.nodes[i].coord; bool in = k.x > q[0].x && k.y > q[0].y && k.x < q[1].x && k.y < q[1].y;
            if (ls.signedDistance[i] >= 0 && !in) left = true; if (in) hit = true;
        }
        if (!left || !hit) return false;
        ls.mask(q); return true;
    }
    inline bool maskDisc(Rng& r, slsm::LevelSet& ls)
    {
        int w = ls.mesh.width, h = ls.mesh.height;
        slsm::Hole o(r.u(0, w), r.u(0, h), r.u(0.6, 0.3*std::min(w, h) + 0.7)); bool left = false, hit = false;
        for (unsigned i=0;i<ls.mesh.nNodes;i++)
        {
            double d = hypot(ls.mesh.nodes[i].coord.x - o.coord.x, ls.mesh.nodes[i].coord.y - o.coord.y);
            if (ls.signedDistance[i] >= 0 && d >= o.r + 1e-9) left = true; if (d < o.r) hit = true;
        }
        if (!left || !hit) return false;
        ls.mask(std::vector<slsm::Hole>(1, o)); return true;
    }

    enum { S_ANY = 0, S_NOTARGET = 1, S_SMALL = 2, S_FREE = 4, S_NOMASK = 8, S_REINIT = 16 };
    // The grid size of the next scene that isn't a small one, if a large one is due.
    inline std::pair<int,int>& dueSize() { static std::pair<int,int> p(0, 0); return p; }
    inline void largeScene(const Ctx& c, long every) { std::pair<int,int>& p = dueSize(); if (!largeGrid(c, every, p.first, p.second)) p.first = p.second = 0; }
    // Makes a random scene; returns false if it came out without an interface.
    inline bool makeScene(Rng& r, Scene& s, int flags = 0, int kind = -1)
    {
        int most = flags & S_SMALL ? 14 : 34;
        s.w = r.coin(0.1) ? r.i(1, 4) : r.i(3, most); s.h = r.coin(0.1) ? r.i(1, 4) : r.i(3, most);
        if (!(flags & S_SMALL) && dueSize().first) { s.w = dueSize().first; s.h = dueSize().second; }
        s.fixed = !(flags & S_FREE) && r.coin(0.25); s.ml = r.u(0.05, 0.95); s.bw = r.coin(0.1) ? r.i(10, 60) : r.i(3, 9); s.target = !(flags & S_NOTARGET) && r.coin(0.12);
        s.masked = false; s.raw = !s.target && !(flags & S_REINIT) && r.coin(0.5);
        Field f = randomField(r, s.w, s.h, s.text, kind);
        int zr = r.i(0, 3);
        if (zr == 0) for (double& v : f.v) if (r.coin(0.15)) v = 0;
        bool wall = s.fixed ? r.coin(0.8) : r.coin(0.35);
        if (wall) for (int x=0;x<=s.w;x++) for (int y=0;y<=s.h;y++) if (x == 0 || y == 0 || x == s.w || y == s.h) f.at(x, y) = std::min(f.at(x, y), 0.0);
        std::vector<slsm::Hole> none;
        if (s.target)
        {
            s.ls.reset(new slsm::LevelSet(s.w, s.h, none, none, s.ml, s.bw, s.fixed));
            // the target is what it is, whatever is masked out of the structure
            if (!(flags & S_NOMASK) && r.coin(0.3)) { bool m = r.coin() ? maskBox(r, *s.ls) : maskDisc(r, *s.ls); if (m) s.text += " masked structure"; }
            s.ls->target = f.v; s.text += " (target)";
            return hasInterface(f);
        }
        s.ls.reset(new slsm::LevelSet(s.w, s.h, none, s.ml, s.raw ? 1000 : s.bw, s.fixed));
        s.ls->signedDistance = f.v;
        if (!hasInterface(f)) return false;
        if (!s.raw)
        {
            s.ls->reinitialise();
            if (!(flags & S_NOMASK) && r.coin(0.4)) { int n = r.i(1, 2); for (int k=0;k<n;k++) s.masked |= r.coin() ? maskBox(r, *s.ls) : maskDisc(r, *s.ls); }
        }
        else if (!(flags & S_NOMASK) && r.coin(0.15))
        {
            // a mask whose surroundings keep their own values
            std::vector<double> keep = s.ls->signedDistance; s.masked = maskBox(r, *s.ls);
            for (size_t i=0;i<keep.size();i++) if (!s.ls->mesh.nodes[i].isMasked) s.ls->signedDistance[i] = keep[i];
        }
        if (s.masked) s.text += " masked";
        return hasInterface(s.field());
    }
    inline void tagScene(Ctx& c, const Scene& s)
    { c.tag("%dx%d %s%s band %u limit %.3g %s", s.w, s.h, s.fixed ? "fixed" : "free", s.raw ? " raw" : "", s.bw, s.ml, s.text.c_str()); }

    // Orders reference segments so that they can be looked up by (undirected) end points.
    inline bool sameSeg(const Seg& a, double x0, double y0, double x1, double y1, double tol, bool& reversed)
    {
        auto near = [&](double p, double q) { return std::fabs(p - q) <= tol; };
        if (near(a.x0, x0) && near(a.y0, y0) && near(a.x1, x1) && near(a.y1, y1)) { reversed = false; return true; }
        if (near(a.x0, x1) && near(a.y0, y1) && near(a.x1, x0) && near(a.y1, y0)) { reversed = true; return true; }
        return false;
    }
}
#endif
