// D03: the umbrella sampling demo follows the Metropolis rule for its bias, restores what it rejects and resumes from its restart file.
#include "vh.h"
#include "slsm_all.h"
#include <nlopt.hpp>
#include "Optimise.h"
#include "solver.h"
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <map>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#define main demo
namespace brolly {
#include "bimodal_brolly.cpp"
}
#undef main
using namespace vh;
using namespace slsm;

namespace nlopt { std::function<result(Problem&, std::vector<double>&, double&)>& hook() { static std::function<result(Problem&, std::vector<double>&, double&)> h; return h; } }
static unsigned hardware = 1;
std::random_device::result_type std::random_device::_M_getval() { return hardware*2654435761u; }

namespace
{
    struct Seg { double x1, y1, x2, y2; };
    typedef std::vector<Seg> Line;
    struct Row { double t, x, length, mismatch, accept; std::string text; };
    struct Result { int rc; std::string err, out; std::map<std::string, std::string> files; std::vector<Row> rows; };
    std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::ostringstream s; s << f.rdbuf(); return s.str(); }
    Line segments(const std::string& t) { Line v; std::istringstream i(t); Seg s; while (i >> s.x1 >> s.y1 >> s.x2 >> s.y2) v.push_back(s); return v; }
    std::string number(double d, const char* f = "%.6g") { char b[64]; snprintf(b, sizeof b, f, d); return b; }
    Result run(const std::string& dir, const std::vector<std::string>& args, const std::string& restart = "", const std::string& at = "")
    {
        Result r; mkdir(dir.c_str(), 0700); if (!at.empty()) { std::ofstream o(dir + "/" + at, std::ios::binary); o << restart; }
        r.rc = runChild([&]()
        {
            if (chdir(dir.c_str())) _exit(90);
            int o = open("stdout.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600); if (o < 0 || dup2(o, 1) < 0) _exit(91); int n = 0;
            nlopt::hook() = [&](nlopt::Problem& p, std::vector<double>& x, double& f) -> nlopt::result { if (n++ == 6000) _exit(92); slpSolve(p, x, f); for (double d : x) if (!std::isfinite(d)) _exit(89); return nlopt::XTOL_REACHED; };
            std::vector<std::string> a(1, "bimodal_brolly"); a.insert(a.end(), args.begin(), args.end()); std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr);
            int q = brolly::demo(a.size(), v.data()); fflush(nullptr); std::cout.flush(); _exit(q);
        }, r.err, 800);
        DIR* d = opendir(dir.c_str()); while (dirent* e = readdir(d)) if (e->d_type == DT_REG) r.files[e->d_name] = slurp(dir + "/" + e->d_name); closedir(d);
        for (auto& q : r.files) unlink((dir + "/" + q.first).c_str()); rmdir(dir.c_str()); r.out = r.files["stdout.txt"]; r.files.erase("stdout.txt");
        for (auto& q : r.files) if (q.first.compare(0, 7, "brolly_") == 0) { std::istringstream i(q.second); std::string l; while (std::getline(i, l)) { Row w; w.text = l; std::istringstream s(l); if (s >> w.t >> w.x >> w.length >> w.mismatch >> w.accept) r.rows.push_back(w); } }
        return r;
    }
    double apart(double x, double y, const Seg& s)
    {
        double dx = s.x2 - s.x1, dy = s.y2 - s.y1, l = dx*dx + dy*dy, t = l > 0 ? std::min(1.0, std::max(0.0, ((x - s.x1)*dx + (y - s.y1)*dy)/l)) : 0;
        return std::hypot(x - s.x1 - t*dx, y - s.y1 - t*dy);
    }
    // Largest distance from one outline to the other, both ways.
    double apart(const Line& a, const Line& b)
    {
        double w = 0; for (int k=0;k<2;k++) { const Line &p = k ? b : a, &q = k ? a : b; for (auto& s : p) { double m = 1e9; for (auto& u : q) m = std::min(m, apart(s.x1, s.y1, u)); w = std::max(w, m); } }
        return w;
    }
    // Perimeter and centre in the weighted measure the demo documents: the weight falls linearly from one at the top of the
    // right-hand lobe to 1 - gravity at its bottom (constant beyond), integrated at ten midpoints per segment.
    void measure(const Line& v, double g, double& length, double& x)
    {
        double top = 30 + 1 + 20, bottom = top - 40; length = x = 0;
        for (auto& s : v)
        {
            double l = std::hypot(s.x2 - s.x1, s.y2 - s.y1), w = 0;
            for (int j=0;j<10;j++) { double y = s.y1 + (j + 0.5)*(s.y2 - s.y1)/10, f = y > top ? 0 : y < bottom ? 1 : (top - y)/(top - bottom); w += (1 - g*f)*l/10; }
            length += w; x += w*(s.x1 + s.x2)/2;
        }
        x = x/length - 35;
    }
}

VH_CHECK(D03, 32, 160, "a run counts when all its trials were judged; identified by the samples it wrote")
{
    Rng& r = c.rng; hardware = c.seed*131 + c.caseNo + 1; std::string root = scratchDir() + "/um" + std::to_string(c.caseNo); mkdir(root.c_str(), 0700);
    double T = r.u(0.02, 0.3), g = r.coin() ? 0.02 : r.u(0, 0.1), centre = r.i(0, 3) ? r.u(-20, 20) : 0, k = std::pow(10, r.u(0, 5)), ui = r.coin() ? r.u(0.05, 0.5) : r.u(0.001, 0.05); int n = r.i(4, c.thorough ? 40 : 10), flavour = c.caseNo % 8;
    T = atof(number(T).c_str()); g = atof(number(g).c_str()); centre = atof(number(centre).c_str()); k = atof(number(k).c_str()); ui = atof(number(ui).c_str());
    c.tag("umbrella sampling at temperature %g, gravity %g, centre %g, spring %g, %d trials of %g", T, g, centre, k, n, ui);
    struct Opt { const char *s, *l; std::string v; }; bool longs = r.coin();
    auto options = [&](double spring, int samples, double interval, int per, const std::string& restart, bool boundary)
    {
        std::vector<Opt> o = {{"-t", "--temperature", number(T)}, {"-g", "--gravity", number(g)}, {"-c", "--centre", number(centre)}, {"-s", "--spring", number(spring)}, {"-ui", "--umbrella-interval", number(interval)}, {"-si", "--sample-interval", std::to_string(per)}, {"-n", "--number-samples", std::to_string(samples)}};
        if (!restart.empty()) o.push_back({"-r", "--restart", restart}); if (boundary) o.push_back({"-b", "--boundary-sample", ""});
        for (size_t i=o.size();i>1;i--) std::swap(o[i-1], o[r.i(0, i - 1)]);
        std::vector<std::string> a; for (auto& q : o) { a.push_back(longs ? q.l : q.s); if (!q.v.empty()) a.push_back(q.v); } return a;
    };
    if (flavour == 7)
    {
        // The command line: help and mistakes.
        Result h = run(root + "/h", {longs ? "--help" : "-h"}); if (h.rc) c.fail("help", "asking for help ends with status %d: %s", h.rc, h.err.substr(0, 300).c_str());
        for (const char* o : {"-t/--temperature", "-g/--gravity", "-c/--centre", "-s/--spring", "-ui/--umbrella-interval", "-si/--sample-interval", "-n/--number-samples", "-r/--restart", "-b/--boundary-sample"}) if (h.out.find(o) == std::string::npos) c.fail("help", "the help does not name %s", o);
        Result u = run(root + "/u", {r.coin() ? "--nothing" : "-z"}); if (u.rc <= 0 || u.rc == 77 || u.err.empty()) c.fail("option", "an unknown option ends with status %d, message '%s'", u.rc, u.err.substr(0, 200).c_str());
        Result m = run(root + "/m", {longs ? "--temperature" : "-t"}); if (m.rc <= 0 || m.rc == 77 || m.err.empty()) c.fail("option", "an option without its value ends with status %d, message '%s'", m.rc, m.err.substr(0, 200).c_str());
        rmdir(root.c_str()); c.count("command lines"); return;
    }
    auto bad = [&](Result& q, const char* what) { if (!q.rc) return false; if (q.rc == 77 || q.rc < 0) fprintf(stderr, "%s", q.err.c_str()); c.fail("ended", "the %s run ended with status %d: %s", what, q.rc, q.err.substr(0, 1500).c_str()); return true; };
    Result a = run(root + "/a", options(k, n, ui, 1, "", true)); if (bad(a, "biased")) return;
    // The same random numbers without bias: every trial is accepted, so where each trial ends is known until the first rejection.
    Result f = run(root + "/f", options(0, n, ui, 1, "", true)); if (bad(f, "unbiased")) return;
    // What is used is what was asked for.
    { std::istringstream i(a.out); std::map<std::string, double> v; std::string l; while (std::getline(i, l)) { char name[64]; double d; if (sscanf(l.c_str(), " %63s = %lf", name, &d) == 2) v[name] = d; }
      struct { const char* n; double d; } want[] = {{"temperature", T}, {"gravityMult", g}, {"centre", centre}, {"spring", k}, {"umbrellaInterval", ui}, {"sampleInterval", 1}, {"nSamples", (double)n}};
      for (auto& w : want) if (!v.count(w.n) || std::fabs(v[w.n] - w.d) > 0.00501) return c.fail("option", "%s is %g, asked for %g", w.n, v.count(w.n) ? v[w.n] : NAN, w.d); }
    std::string name = number(centre, "%.2f");
    auto files = [&](Result& q) { for (const std::string& s : {"brolly_" + name + ".txt", "level-set_" + name + ".bin", "boundary-segments_" + name + ".txt"}) if (!q.files.count(s)) { c.fail("files", "no %s", s.c_str()); return false; } if ((int)q.rows.size() != n) { c.fail("files", "%zu samples written of %d", q.rows.size(), n); return false; } return true; };
    if (!files(a) || !files(f)) return;
    auto boundary = [&](Result& q, int i) { char b[64]; snprintf(b, sizeof b, "boundary-segments_%04d.txt", i); return q.files.count(b) ? q.files[b] : std::string(); };
    // Start: the trial circle, centred between the lobes.
    Line now; for (int i=0;i<120;i++) { double p = 2*M_PI*i/120, q = 2*M_PI*(i + 1)/120; now.push_back(Seg{35 + 10*cos(p), 15 + 10*sin(p), 35 + 10*cos(q), 15 + 10*sin(q)}); }
    double x = 0, U = 0.5*k*centre*centre, time = 0, slack; int accepted = 0; bool same = true, exact = false; std::string kept; uint64_t h = 7; int sure = 0;
    for (int i=0;i<n;i++)
    {
        Row& w = a.rows[i]; int was = accepted; double L, X; std::string text = boundary(a, i + 1); Line s = segments(text); if (s.empty()) return c.fail("files", "no boundary for sample %d", i + 1);
        if (!(w.t - time >= ui*(1 - 1e-5))) c.fail("time", "sample %d at %g after one at %g, interval %g", i, w.t, time, ui); time = w.t;
        accepted = (int)std::lround(w.accept*(i + 1)); if (std::fabs(w.accept*(i + 1) - accepted) > 1e-4*(i + 1) || accepted < was || accepted > was + 1) return c.fail("accept", "acceptance %g after %d trials, %d accepted before", w.accept, i + 1, was);
        measure(s, g, L, X); c.maxOf("difference of the weighted perimeter", std::fabs(L - w.length)); if (std::fabs(L - w.length) > 1e-4*(1 + L)) c.fail("perimeter", "sample %d: weighted perimeter %.7g, written %.7g", i, L, w.length);
        // Each end of a sum is rounded to six decimals, so the potential is known to this much.
        slack = k*(2e-6*(std::fabs(x) + std::fabs(w.x) + 2*std::fabs(centre)) + 1e-9)/T + 1e-9;
        if (same)
        {
            // The trial's end, from the run without bias; the start is known only roughly (a circle on a grid).
            double V = 0.5*k*(f.rows[i].x - centre)*(f.rows[i].x - centre), e = (V - U)/T, loose = exact ? slack : k*(std::fabs(centre) + 1)*1e-3/T;
            if (e < -loose || e > 40 + loose) { sure++; if ((e < 0) != (accepted > was)) return c.fail("metropolis", "trial %d changes the bias by %g temperatures and is %s", i, e, accepted > was ? "accepted" : "rejected"); c.count(e < 0 ? "trials that must be accepted" : "trials that must be rejected"); }
            if (accepted > was && f.rows[i].x != w.x) return c.fail("bias", "trial %d ends at %g with and %g without bias, before any rejection", i, w.x, f.rows[i].x);
        }
        if (accepted > was)
        {
            if (std::fabs(X - w.x) > 1e-4*(1 + std::fabs(X))) c.fail("centre", "sample %d: centre %.7g, written %.7g", i, X, w.x);
            x = w.x; U = 0.5*k*(x - centre)*(x - centre); exact = true; now = s; kept.clear(); c.count("accepted");
        }
        else
        {
            if (exact && w.x != x) c.fail("rejected", "sample %d: rejected, but the centre is %g, not %g", i, w.x, x); if (!exact && std::fabs(w.x) > 0.05) c.fail("rejected", "sample %d: rejected from the start at 0, but the centre is %g", i, w.x);
            double d = apart(s, now); c.maxOf("distance of a restored outline", d); if (d > 0.3) c.fail("rejected", "sample %d: rejected, but the outline is %g away from the one before", i, d);
            if (!kept.empty() && kept != text) c.fail("rejected", "sample %d: a second rejection restores another outline", i); kept = text; same = false; c.count("rejected");
        }
        h = hashBytes(w.text.data(), w.text.size(), h);
    }
    for (int i=0;i<n;i++) if (std::lround(f.rows[i].accept*(i + 1)) != i + 1) return c.fail("unbiased", "without bias trial %d was rejected", i);
    if (a.files["boundary-segments_" + name + ".txt"] != boundary(a, n)) c.fail("files", "the current outline's file differs from the last sample's");
    // Resumed for a single step: the move limit, and what reinitialising shifts.
    std::string at = flavour == 3 ? std::string(r.i(96, 200), (char)114) + ".bin" : "start.bin"; n = 1;
    Result b = run(root + "/b", options(0, 1, 1e-9, 1, at, true), a.files["level-set_" + name + ".bin"], at); if (bad(b, "resumed")) return; if (!files(b)) return;
    Line last = segments(a.files["boundary-segments_" + name + ".txt"]); double d = apart(segments(boundary(b, 1)), last);
    c.maxOf("distance after resuming", d); if (d > 0.6) c.fail("restart", "one step after resuming the outline is %g away from the one saved", d);
    rmdir(root.c_str()); c.count("runs"); c.count("trials judged by the rule", sure); c.nontrivial(h);
}
