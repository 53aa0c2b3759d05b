#include "vh.h"
#include <cstdlib>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>
#include <set>

namespace vh
{
    static FILE* out = nullptr;
    static bool running = false;
    static pid_t mainPid = 0;
    // Plain lists: the standard containers' compiled parts aren't known to the memory sanitizer.
    template<class T> struct Table
    {
        std::vector<std::pair<std::string, T>> v;
        T& at(const char* k, bool* isNew = nullptr) { for (auto& p : v) if (!strcmp(p.first.c_str(), k)) { if (isNew) *isNew = false; return p.second; } v.push_back(std::make_pair(std::string(k), T())); if (isNew) *isNew = true; return v.back().second; }
    };
    static Table<double> counts, maxima;
    static Table<int> keyCount;
    static int caseCpu = 120;

    std::vector<Check>& registry() { static std::vector<Check> r; return r; }

    static std::string clean(const char* s)
    {
        std::string r(s);
        for (char& ch : r) if (ch == '\t' || ch == '\n' || ch == '\r') ch = ' ';
        if (r.size() > 1500) r.resize(1500);
        return r;
    }

    void Ctx::fail(const char* key, const char* fmt, ...)
    {
        char buf[2000];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        nFail++;
        if (keyCount.at(key)++ < 6 && out)
        {
            fprintf(out, "V\t%ld\t%s\t%s | %s\n", caseNo, key, clean(buf).c_str(), clean(tagText.c_str()).c_str());
            fflush(out);
        }
        if (verbose) fprintf(stderr, "FAIL case %ld key %s: %s | %s\n", caseNo, key, buf, tagText.c_str());
    }
    void Ctx::nontrivial(uint64_t h) { if (out) fprintf(out, "N\t%016llx\n", (unsigned long long)h); }
    void Ctx::count(const char* w, double n) { counts.at(w) += n; }
    void Ctx::maxOf(const char* w, double v)
    { bool fresh; double& m = maxima.at(w, &fresh); if (fresh || v > m) m = v; }
    void Ctx::inconclusive(const char* why) { counts.at((std::string("inconclusive: ") + why).c_str()) += 1; }
    void Ctx::emit(uint64_t d) { if (out) fprintf(out, "G\t%ld\t%016llx\n", caseNo, (unsigned long long)d); }
    void Ctx::tag(const char* fmt, ...)
    {
        char buf[4000];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        tagText = buf;
        if (out) { fprintf(out, "T\t%ld\t%s\n", caseNo, clean(buf).c_str()); fflush(out); }
    }
    void Ctx::log(const char* fmt, ...)
    {
        if (!verbose) return;
        va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap);
        fputc('\n', stderr);
    }

    static std::string scratch;
    static void rmScratch()
    {
        if (getpid() != mainPid || scratch.empty()) return;
        // two levels only: files in scratch/, files in scratch/<dir>/
        std::vector<std::string> dirs{scratch};
        for (size_t k=0;k<dirs.size();k++)
        {
            DIR* d = opendir(dirs[k].c_str()); if (!d) continue;
            while (dirent* e = readdir(d))
            {
                std::string n = e->d_name; if (n == "." || n == "..") continue;
                std::string p = dirs[k] + "/" + n;
                struct stat st; if (lstat(p.c_str(), &st)) continue;
                if (S_ISDIR(st.st_mode)) dirs.push_back(p); else unlink(p.c_str());
            }
            closedir(d);
        }
        for (size_t k=dirs.size();k-->0;) rmdir(dirs[k].c_str());
        scratch.clear();
    }
    std::string scratchDir()
    {
        if (scratch.empty())
        {
            const char* base = getenv("VH_SCRATCH");
            std::string t = std::string(base ? base : "/tmp") + "/vhXXXXXX";
            std::vector<char> b(t.begin(), t.end()); b.push_back(0);
            if (!mkdtemp(b.data())) { perror("mkdtemp"); _exit(90); }
            scratch = b.data();
        }
        return scratch;
    }

    int runChild(const std::function<void()>& fn, std::string& err, int cpuSeconds)
    {
        std::string ef = scratchDir() + "/child.err";
        fflush(nullptr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); _exit(91); }
        if (pid == 0)
        {
            running = false;
            int fd = open(ef.c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0600);
            dup2(fd, 2); dup2(fd, 1); close(fd);
            struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, nullptr);
            struct rlimit rl; rl.rlim_cur = cpuSeconds; rl.rlim_max = cpuSeconds + 5;
            signal(SIGXCPU, SIG_DFL); signal(SIGPROF, SIG_DFL);
            setrlimit(RLIMIT_CPU, &rl);
            struct rlimit nc; nc.rlim_cur = nc.rlim_max = 0; setrlimit(RLIMIT_CORE, &nc);
            fn();
            fflush(nullptr);
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0) {}
        err.clear();
        FILE* f = fopen(ef.c_str(), "r");
        if (f) { char b[8192]; size_t n = fread(b, 1, sizeof b, f); err.assign(b, n); fclose(f); }
        if (WIFEXITED(st)) return WEXITSTATUS(st);
        if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGXCPU ? -1000 : -WTERMSIG(st);
        return -2000;
    }

    static void onExit()
    {
        // The library called exit() in the middle of a case.
        if (getpid() != mainPid) return;
        if (running && out) { fprintf(out, "E\n"); fflush(out); rmScratch(); _exit(97); }
        rmScratch();
    }
    static void onHang(int)
    {
        static const char m[] = "VH: case exceeded its CPU budget\n";
        ssize_t r = write(2, m, sizeof m - 1); (void)r;
        _exit(98);
    }
}

using namespace vh;

int main(int argc, char** argv)
{
    std::string prop, outName;
    uint64_t seed = 1; long from = 0, step = 1, only = -1, total = -1; bool thorough = false, verbose = false, list = false;
    for (int i=1;i<argc;i++)
    {
        std::string a = argv[i];
        auto val = [&]() { if (i + 1 >= argc) { fprintf(stderr, "missing value\n"); exit(2); } return std::string(argv[++i]); };
        if (a == "--prop") prop = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--from") from = atol(val().c_str());
        else if (a == "--step") step = atol(val().c_str());
        else if (a == "--total") total = atol(val().c_str());
        else if (a == "--case") only = atol(val().c_str());
        else if (a == "--out") outName = val();
        else if (a == "--thorough") thorough = true;
        else if (a == "--verbose") verbose = true;
        else if (a == "--list") list = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (list)
    {
        for (auto& c : registry()) printf("%s\t%ld\t%ld\t%s\n", c.id, c.quick, c.thorough, c.rule);
        return 0;
    }
    const Check* chk = nullptr;
    for (auto& c : registry()) if (prop == c.id) chk = &c;
    if (!chk) { fprintf(stderr, "no such property %s\n", prop.c_str()); return 2; }
    mainPid = getpid();
    if (!outName.empty()) { out = fopen(outName.c_str(), "a"); if (!out) { perror("open"); return 2; } }
    struct rlimit nc; nc.rlim_cur = nc.rlim_max = 0; setrlimit(RLIMIT_CORE, &nc);
    if (getenv("VH_CASE_CPU")) caseCpu = atoi(getenv("VH_CASE_CPU"));
    signal(SIGPROF, onHang);
    atexit(onExit);

    if (total < 0) total = thorough ? chk->thorough : chk->quick;
    if (only >= 0) { from = only; step = 1; total = only + 1; verbose = true; }
    long done = 0, bad = 0;
    for (long k=from;k<total;k+=step)
    {
        Ctx c;
        c.seed = seed; c.caseNo = k; c.thorough = thorough; c.verbose = verbose; c.nFail = 0;
        uint64_t h = hashBytes(chk->id, strlen(chk->id));
        h = hashU(seed, h); h = hashU((uint64_t)k, h);
        c.rng.reseed(h);
        if (out) { fprintf(out, "C\t%ld\n", k); fflush(out); }
        struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = caseCpu;
        setitimer(ITIMER_PROF, &it, nullptr);
        running = true;
        chk->fn(c);
        running = false;
        done++;
        if (c.nFail) bad++;
        if (out) fprintf(out, "D\t%ld\n", k);
    }
    if (out)
    {
        for (auto& kv : counts.v) fprintf(out, "K\t%s\t%.17g\n", kv.first.c_str(), kv.second);
        for (auto& kv : maxima.v) fprintf(out, "M\t%s\t%.17g\n", kv.first.c_str(), kv.second);
        fprintf(out, "Z\t%ld\t%ld\n", done, bad);
        fclose(out); out = nullptr;
    }
    if (verbose)
    {
        for (auto& kv : counts.v) fprintf(stderr, "  count %s = %g\n", kv.first.c_str(), kv.second);
        for (auto& kv : maxima.v) fprintf(stderr, "  max %s = %g\n", kv.first.c_str(), kv.second);
        fprintf(stderr, "%ld cases, %ld bad\n", done, bad);
    }
    return 0;
}
