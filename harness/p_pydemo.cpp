// D02: the Python demos, run unchanged in an embedded interpreter, pose the same optimisations and write the same files as the C++ demos.
#include <Python.h>
#include "vh.h"
#include "slsm_all.h"
#include <nlopt.hpp>
#include "Optimise.h"
#include "solver.h"
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <map>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#define main demo
namespace area {
#include "minimise_area.cpp"
}
namespace perimeter {
#include "minimise_perimeter.cpp"
}
namespace constrained {
#include "minimise_perimeter_constrained.cpp"
}
namespace shape {
#include "shape_match.cpp"
}
namespace lobes {
#include "dumbbell.cpp"
}
namespace two {
#include "bimodal.cpp"
}
#undef main
using namespace vh;
using namespace slsm;

extern "C" PyObject* PyInit_pyslsm();
namespace nlopt { std::function<result(Problem&, std::vector<double>&, double&)>& hook() { static std::function<result(Problem&, std::vector<double>&, double&)> h; return h; } }

// The hardware generator that seeds the demos, replaced by a known one.
static unsigned hardware = 1;
std::random_device::result_type std::random_device::_M_getval() { return hardware*2654435761u; }

namespace
{
    const char* names[] = {"minimise_area", "minimise_perimeter", "minimise_perimeter_constrained", "shape_match", "dumbbell", "bimodal"};
    int cpp(int which, int n, char** v)
    {
        switch (which) { case 0: return area::demo(n, v); case 1: return perimeter::demo(n, v); case 2: return constrained::demo(n, v); case 3: return shape::demo(n, v); case 4: return lobes::demo(n, v); default: return two::demo(n, v); }
    }
    std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::ostringstream s; s << f.rdbuf(); return s.str(); }
    // Everything an optimisation poses and is answered, one line each.
    struct Trace
    {
        FILE* f; int n, limit; bool python;
        void operator()(nlopt::Problem& p, std::vector<double>& x, double& obj)
        {
            auto put = [&](const char* what, double d) { fprintf(f, "%d %s %.17g\n", n, what, d); };
            put("algorithm", p.alg); put("multipliers", p.n); put("maximise", p.isMax); put("constraints", p.cons.size());
            for (unsigned i=0;i<p.n;i++) { put("lower bound", p.lb[i]); put("upper bound", p.ub[i]); put("start", x[i]); }
            std::vector<double> g(p.n), y(p.n); for (unsigned i=0;i<p.n;i++) y[i] = 0.3*p.ub[i];
            put("objective", p.obj.f(y, g, p.obj.d)); for (double d : g) put("derivative", d);
            for (auto& k : p.cons) { put("equality", k.equality); put("constraint", k.f(y, g, k.d)); for (double d : g) put("derivative", d); }
            slpSolve(p, x, obj); for (double d : x) put("answer", d);
        }
    };
    void run(Ctx& c, int which, bool python, const std::string& dir, const std::vector<std::string>& args, int limit, std::string& err, int& rc)
    {
        (void)c; rc = runChild([&]()
        {
            if (chdir(dir.c_str())) _exit(90);
            int o = open("stdout.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600); if (o < 0 || dup2(o, 1) < 0) _exit(91);
            Trace t; t.f = fopen("trace.txt", "w"); t.n = 0; t.limit = limit; t.python = python; if (!t.f) _exit(92);
            auto done = [&]() { if (python) PyRun_SimpleString("import sys\nsys.stdout.flush()\n"); fflush(nullptr); std::cout.flush(); _exit(0); };
            nlopt::hook() = [&](nlopt::Problem& p, std::vector<double>& x, double& f) -> nlopt::result { if (t.n++ == t.limit) done(); t(p, x, f); return nlopt::XTOL_REACHED; };
            if (!python)
            {
                std::vector<std::string> a(1, names[which]); a.insert(a.end(), args.begin(), args.end()); std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr);
                int q = cpp(which, a.size(), v.data()); if (q) _exit(q); done();
            }
            PyPreConfig pre; PyPreConfig_InitIsolatedConfig(&pre); pre.allocator = PYMEM_ALLOCATOR_MALLOC; if (PyStatus_Exception(Py_PreInitialize(&pre))) _exit(93);
            PyImport_AppendInittab("pyslsm", PyInit_pyslsm); PyConfig cfg; PyConfig_InitIsolatedConfig(&cfg); cfg.site_import = 0; cfg.install_signal_handlers = 0; cfg.parse_argv = 0;
            std::vector<std::wstring> wa; wa.push_back(L"demo.py"); for (auto& s : args) wa.push_back(std::wstring(s.begin(), s.end())); std::vector<wchar_t*> wv; for (auto& s : wa) wv.push_back(&s[0]);
            PyConfig_SetArgv(&cfg, wv.size(), wv.data()); if (PyStatus_Exception(Py_InitializeFromConfig(&cfg))) _exit(94);
            std::string path = std::string(VH_REPO_DIR) + "/python/" + names[which] + ".py"; FILE* f = fopen(path.c_str(), "r"); if (!f) { fprintf(stderr, "no %s\n", path.c_str()); _exit(95); }
            if (PyRun_SimpleFileExFlags(f, path.c_str(), 1, nullptr)) { fflush(nullptr); _exit(1); } done();
        }, err, 800);
    }
}

VH_CHECK(D02, 24, 72, "a demo counts when both versions were run and compared; identified by the optimisations posed")
{
    Rng& r = c.rng; int which = c.caseNo % 6, variant = (c.caseNo/6) % 4; hardware = c.seed*97 + c.caseNo + 1;
    int limit = (which < 1 ? 24 : 12) + r.i(0, 8); if (c.thorough) limit *= 6;
    std::vector<std::string> args;
    if (which >= 2 && variant) { char b[40]; snprintf(b, sizeof b, "%.6g", variant == 1 ? 0.0 : variant == 2 ? r.u(0, 0.02) : pow(10, r.u(-5, -1))); args.push_back(b); }
    // the second number: part of the noise's sensitivity kept (dumbbell), gravity (bimodal)
    if (which >= 4 && variant >= 2) { char b[40]; snprintf(b, sizeof b, "%.6g", which == 4 ? r.u(0.5, 0.9) : r.u(0.2, 2)); args.push_back(b); }
    std::string text; for (auto& s : args) text += " " + s; c.tag("%s%s, %d iterations", names[which], text.c_str(), limit);
    std::string root = scratchDir() + "/pd" + std::to_string(c.caseNo), dirs[2] = {root + "/cpp", root + "/python"}, err; mkdir(root.c_str(), 0700);
    std::map<std::string, std::string> files[2];
    for (int k=0;k<2;k++)
    {
        mkdir(dirs[k].c_str(), 0700); mkdir((dirs[k] + "/demos").c_str(), 0700); mkdir((dirs[k] + "/demos/shapes").c_str(), 0700); mkdir((dirs[k] + "/shapes").c_str(), 0700);
        for (const char* to : {"/shapes/stanford-bunny.txt", "/demos/shapes/stanford-bunny.txt"}) { std::ifstream i(std::string(VH_REPO_DIR) + "/demos/shapes/stanford-bunny.txt"); std::ofstream o(dirs[k] + to); o << i.rdbuf(); }
        int rc; run(c, which, k, dirs[k], args, limit, err, rc);
        if (rc == 77 || rc < 0) fprintf(stderr, "%s", err.c_str());
        if (rc) return c.fail("ended", "the %s demo in %s ended with status %d: %s", names[which], k ? "Python" : "C++", rc, err.substr(0, 1500).c_str());
        DIR* d = opendir(dirs[k].c_str()); while (dirent* e = readdir(d)) if (e->d_type == DT_REG) files[k][e->d_name] = slurp(dirs[k] + "/" + e->d_name); closedir(d);
        for (auto& q : files[k]) unlink((dirs[k] + "/" + q.first).c_str());
        for (const char* to : {"/shapes/stanford-bunny.txt", "/demos/shapes/stanford-bunny.txt"}) unlink((dirs[k] + to).c_str());
        for (const char* to : {"/demos/shapes", "/shapes", "/demos", ""}) rmdir((dirs[k] + to).c_str());
    }
    rmdir(root.c_str());
    std::istringstream a(files[0]["trace.txt"]), b(files[1]["trace.txt"]); std::string la, lb; uint64_t h = which; long lines = 0;
    while (true)
    {
        bool ga = (bool)std::getline(a, la), gb = (bool)std::getline(b, lb); if (!ga && !gb) break; lines++;
        if (!ga || !gb || la != lb) return c.fail("problem", "line %ld of the optimisations posed is '%s' in C++, '%s' in Python", lines, ga ? la.c_str() : "(none)", gb ? lb.c_str() : "(none)");
        for (char q : la) h = hashU(q, h);
    }
    if (lines < 20) return c.fail("short", "%ld lines recorded", lines);
    for (auto& q : files[0])
    {
        if (q.first == "trace.txt" || q.first == "stdout.txt") continue;
        if (!files[1].count(q.first)) return c.fail("file", "%s is written by the C++ demo only", q.first.c_str());
        if (files[1][q.first] != q.second) return c.fail("file", "%s differs between the demos", q.first.c_str());
        c.count("files compared");
    }
    for (auto& q : files[1]) if (!files[0].count(q.first)) return c.fail("file", "%s is written by the Python demo only", q.first.c_str());
    // What is printed is compared word by word: the layout is each version's own.
    auto words = [](const std::string& t) { std::istringstream i(t); std::vector<std::string> w; std::string s; while (i >> s) w.push_back(s); return w; };
    if (words(files[0]["stdout.txt"]) != words(files[1]["stdout.txt"])) return c.fail("output", "printed by C++: %s, by Python: %s", files[0]["stdout.txt"].substr(0, 600).c_str(), files[1]["stdout.txt"].substr(0, 600).c_str());
    c.count("lines compared", lines); c.count("pairs of demos"); c.nontrivial(h);
}
