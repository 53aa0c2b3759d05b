// Fast marching reference with an ordered set for a queue, written from the method's description.
#ifndef VH_REF_FMM_H
#define VH_REF_FMM_H
#include "shapes.h"
#include <set>

namespace vh
{
    struct RefFmm
    {
        Field in, out;
        std::vector<char> seeded;     // next to (or on) the interface
        std::vector<int> order;       // freezing order (nodes frozen together share a number); -1 never
        std::vector<char> state;      // 0 far, 1 trial, 2 frozen
        bool fallback;                // a two-dimensional update had no real solution somewhere
        double worstCausality;        // how much a node came out below one it was computed from

        int nb(int i, int dir) const
        {
            int W = in.w + 1, x = i % W, y = i / W;
            if (dir == 0) return x > 0 ? i - 1 : -1;
            if (dir == 1) return x < in.w ? i + 1 : -1;
            if (dir == 2) return y > 0 ? i - W : -1;
            return y < in.h ? i + W : -1;
        }
        double update(int i, bool& ok)
        {
            double sum_w = 0, sum_wt = 0, sum_wtt = 0; ok = true;
            double one = DBL_MAX; // best one-dimensional solution
            for (int d=0;d<2;d++)
            {
                double d1 = DBL_MAX, d2 = DBL_MAX;
                for (int e=0;e<2;e++)
                {
                    int a = nb(i, 2*d + e);
                    if (a < 0 || state[a] != 2) continue;
                    double va = std::fabs(out.v[a]);
                    if (va > d1) continue;
                    int b = nb(a, 2*d + e);
                    double s = DBL_MAX;
                    if (b >= 0 && state[b] == 2 && std::fabs(out.v[b]) <= va) s = std::fabs(out.v[b])*((out.v[b] < 0) != (in.v[i] < 0) ? -1 : 1);
                    if (va < d1 || std::fabs(s) < std::fabs(d2)) { d1 = va; d2 = s; }
                }
                if (d1 == DBL_MAX) continue;
                double w = 1, t = d1;
                if (d2 != DBL_MAX) { w = 9.0/4; t = (4*d1 - d2)/3; }
                sum_w += w; sum_wt += w*t; sum_wtt += w*t*t;
                one = std::min(one, t + 1/sqrt(w));
            }
            double disc = sum_wt*sum_wt - sum_w*(sum_wtt - 1);
            if (!(disc > 0)) { ok = false; return one; }
            return (sum_wt + sqrt(disc))/sum_w;
        }
        void seed()
        {
            size_t N = in.n(); out = in; seeded.assign(N, 0); state.assign(N, 0); order.assign(N, -1);
            for (size_t i=0;i<N;i++)
            {
                if (in.v[i] == 0) { seeded[i] = 1; if (jitter) out.v[i] = jitter->u(-1e-12, 1e-12); continue; }
                double s = 0; 
                for (int d=0;d<2;d++)
                {
                    double best = DBL_MAX;
                    for (int e=0;e<2;e++)
                    {
                        int a = nb(i, 2*d + e);
                        if (a >= 0 && in.v[i]*in.v[a] < 0) best = std::min(best, in.v[i]/(in.v[i] - in.v[a]));
                    }
                    if (best != DBL_MAX) s += 1/(best*best);
                }
                if (s > 0) { seeded[i] = 1; out.v[i] = shake((in.v[i] < 0 ? -1 : 1)*sqrt(1/s)); }
            }
            for (size_t i=0;i<N;i++) if (seeded[i]) { state[i] = 2; order[i] = 0; }
        }
        const std::vector<char>* active;   // velocity extension: only these nodes are marched
        std::vector<double>* vel;
        bool bad;                           // a velocity had no upwind neighbour
        Rng* jitter;                        // if set, every computed distance is disturbed at rounding level
        RefFmm() : active(nullptr), vel(nullptr), bad(false), jitter(nullptr) {}
        double shake(double v) { return jitter ? v*(1 + jitter->u(-1e-12, 1e-12)) : v; }

        void extend(int i)
        {
            double num = 0, den = 0;
            for (int d=0;d<2;d++)
            {
                double best = DBL_MAX; int from = -1;
                for (int e=0;e<2;e++)
                {
                    int a = nb(i, 2*d + e);
                    if (a < 0 || state[a] != 2) continue;
                    if (std::fabs(out.v[a]) < best) { best = std::fabs(out.v[a]); from = a; }
                }
                if (from < 0) continue;
                double k = std::fabs(out.v[i] - out.v[from]);
                num += k*(*vel)[from]; den += k;
            }
            if (den == 0) bad = true; else (*vel)[i] = num/den;
        }
        void run(const Field& f)
        {
            in = f; fallback = false; bad = false; worstCausality = 0; seed();
            size_t N = in.n(); std::set<std::pair<double,int>> trial; std::vector<double> tv(N, 0.0);
            auto refresh = [&](int i)
            {
                bool ok; double v = shake(update(i, ok));
                if (!ok) fallback = true;
                if (state[i] == 1) trial.erase(std::make_pair(tv[i], i));
                tv[i] = v; state[i] = 1; trial.insert(std::make_pair(v, i));
            };
            auto allowed = [&](int i) { return !active || (*active)[i]; };
            for (size_t i=0;i<N;i++) if (state[i] == 0 && allowed(i)) for (int d=0;d<4;d++) { int a = nb(i, d); if (a >= 0 && state[a] == 2) { refresh(i); break; } }
            int step = 0;
            while (!trial.empty())
            {
                double m = trial.begin()->first; std::vector<int> fr; step++;
                while (!trial.empty() && trial.begin()->first == m) { fr.push_back(trial.begin()->second); trial.erase(trial.begin()); }
                for (int i : fr) { state[i] = 2; order[i] = step; out.v[i] = in.v[i] < 0 ? -tv[i] : tv[i]; if (vel) extend(i); }
                std::vector<int> todo;
                for (int i : fr) for (int d=0;d<4;d++)
                {
                    int a = nb(i, d); if (a < 0 || state[a] == 2) continue;
                    if (allowed(a)) todo.push_back(a);
                    int b = nb(a, d); if (b >= 0 && state[b] == 1) todo.push_back(b);
                }
                for (int a : todo) refresh(a);
            }
        }
    };
}
#endif
