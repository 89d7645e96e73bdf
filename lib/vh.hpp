// Harness runtime: exhaustive case enumeration, sharded over forked workers.
// A "case" is one element of the enumerated space; it is identified by its position in the
// (deterministic) enumeration, so that `--only IDX` replays exactly that case.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <set>
#include <unordered_set>
#include <map>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <functional>
#include <cmath>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>

namespace vh
{
    inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
    {
        auto *c = (const unsigned char *)p;
        for (size_t i = 0; i < n; i++)
            h = (h ^ c[i]) * 1099511628211ull;
        return h;
    }
    struct Hash
    {
        uint64_t h = 1469598103934665603ull;
        template <class T>
        Hash &add(const T &v)
        {
            static_assert(std::is_trivially_copyable_v<T>);
            h = fnv(&v, sizeof(T), h);
            return *this;
        }
        Hash &add(const std::string &s)
        {
            h = fnv(s.data(), s.size(), h);
            return add(s.size());
        }
        template <class T>
        Hash &addv(const std::vector<T> &v)
        {
            add(v.size());
            for (auto &i : v)
                add(i);
            return *this;
        }
    };

    struct Shared
    {
        volatile int64_t cur;    // index of case being executed, -1: none
        volatile uint64_t beat;  // progress counter
        char desc[1536];
        char note[2048];
        char msg[1024];
    };

    struct Fail
    {
        int64_t idx;
        std::string key, desc, msg;
    };

    inline std::string vfmt(const char *f, va_list ap)
    {
        char b[4096];
        vsnprintf(b, sizeof b, f, ap);
        return b;
    }
    inline std::string fmts(const char *f, ...)
    {
        va_list ap;
        va_start(ap, f);
        auto s = vfmt(f, ap);
        va_end(ap);
        return s;
    }

    class Ctx
    {
    public:
        bool thorough = false;
        bool replay = false;
        int64_t counter = 0;
        int64_t shard = 0, nshards = 1, startFrom = 0, only = -1;
        std::string scratch;          // per-run scratch dir
        std::map<std::string, std::string> opts;
        Shared *sh = nullptr;
        std::unordered_set<uint64_t> states;
        uint64_t nCases = 0, nTrans = 0, nTraces = 0, nEvals = 0;
        std::map<std::string, uint64_t> extra;
        std::vector<std::string> samples;
        FILE *ffail = nullptr;
        int nfail = 0;
        std::string curDesc;

        // returns true if this case is to be executed by this worker
        bool take(const char *f, ...)
        {
            int64_t idx = counter++;
            bool mine;
            if (only >= 0)
                mine = idx == only;
            else
                mine = idx >= startFrom && (idx % nshards) == shard;
            if (!mine)
                return false;
            va_list ap;
            va_start(ap, f);
            curDesc = vfmt(f, ap);
            va_end(ap);
            sh->cur = idx;
            sh->beat = sh->beat + 1;
            snprintf(sh->desc, sizeof sh->desc, "%s", curDesc.c_str());
            sh->note[0] = 0;
            sh->msg[0] = 0;
            nCases++;
            if (samples.size() < 2 || (nCases & (nCases - 1)) == 0)
                if (samples.size() < 6)
                    samples.push_back(curDesc);
            return true;
        }
        // would this worker run any further case? (cheap pre-filter for grouped set-up)
        bool mineGroup(int64_t n)
        {
            // advance by n without running
            if (only >= 0)
                return only >= counter && only < counter + n;
            return true;
        }
        void skip(int64_t n) { counter += n; }
        void beat() { sh->beat = sh->beat + 1; }
        void note(const std::string &s) { snprintf(sh->note, sizeof sh->note, "%s", s.c_str()); }
        void fail(const std::string &key, const char *f, ...)
        {
            va_list ap;
            va_start(ap, f);
            auto m = vfmt(f, ap);
            va_end(ap);
            for (auto &c : m)
                if (c == '\n' || c == '\t')
                    c = ' ';
            auto d = curDesc;
            if (sh->note[0])
                d += std::string(" | ") + sh->note;
            for (auto &c : d)
                if (c == '\n' || c == '\t')
                    c = ' ';
            fprintf(ffail, "%lld\t%s\t%s\t%s\n", (long long)sh->cur, key.c_str(), d.c_str(), m.c_str());
            fflush(ffail);
            nfail++;
            if (nfail > 40)
                finish(), _exit(0);
        }
        void state(uint64_t h) { states.insert(h); }
        std::string outPrefix;
        void finish()
        {
            {
                std::ofstream o(outPrefix + ".states", std::ios::binary | std::ios::app);
                for (auto s : states)
                    o.write((char *)&s, 8);
            }
            {
                std::ofstream o(outPrefix + ".counts", std::ios::app);
                o << "cases " << nCases << "\ntrans " << nTrans << "\ntraces " << nTraces << "\nevals " << nEvals << "\n";
                for (auto &e : extra)
                    o << "x:" << e.first << " " << e.second << "\n";
                for (auto &s : samples)
                {
                    std::string t = s;
                    for (auto &c : t)
                        if (c == '\n')
                            c = ' ';
                    o << "sample " << t << "\n";
                }
                o << "end " << counter << "\n";
            }
        }
    };

    using Body = std::function<void(Ctx &)>;

    inline std::string jesc(const std::string &s)
    {
        std::string o;
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\')
                o += '\\', o += c;
            else if (c < 32)
                o += ' ';
            else if (c >= 127)
                o += '?';
            else
                o += c;
        }
        return o;
    }

    // fork one worker; returns pid
    inline pid_t spawn(const Body &body, Ctx base, const std::string &prefix)
    {
        fflush(nullptr);
        pid_t p = fork();
        if (p)
            return p;
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open((prefix + ".log").c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
        dup2(fd, 1);
        dup2(fd, 2);
        base.outPrefix = prefix;
        base.ffail = fopen((prefix + ".fail").c_str(), "a");
        base.sh->cur = -1;
        base.sh->note[0] = base.sh->msg[0] = 0;
        try
        {
            body(base);
        }
        catch (std::exception &e)
        {
            if (base.sh->cur >= 0)
                base.fail("exception", "uncaught exception: %s", e.what());
            base.finish();
            _exit(7);
        }
        base.finish();
        _exit(0);
    }

    inline std::string tailLog(const std::string &fn)
    {
        std::ifstream i(fn);
        std::string all((std::istreambuf_iterator<char>(i)), {});
        auto p = all.rfind("assertion failed");
        if (p == std::string::npos)
        {
            // dndsr prints "DNDS_assertion failed"
            p = all.size() > 300 ? all.size() - 300 : 0;
        }
        auto s = all.substr(p, 400);
        for (auto &c : s)
            if ((unsigned char)c < 32)
                c = ' ';
        return s;
    }

    inline int run(int argc, char **argv, const Body &body)
    {
        Ctx base;
        int nsh = 8;
        std::string out;
        double caseTimeout = 150;
        int64_t caseLimitFails = 12;
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            auto nx = [&]
            { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--thorough")
                base.thorough = true;
            else if (a == "--shards")
                nsh = atoi(nx().c_str());
            else if (a == "--only")
                base.only = atoll(nx().c_str()), base.replay = true;
            else if (a == "--out")
                out = nx();
            else if (a == "--case-timeout")
                caseTimeout = atof(nx().c_str());
            else if (a == "--opt")
            {
                auto kv = nx();
                auto e = kv.find('=');
                base.opts[kv.substr(0, e)] = kv.substr(e + 1);
            }
        }
        char tmpl[] = "/tmp/vh.XXXXXX";
        char *td = mkdtemp(tmpl);
        if (!td)
            return perror("mkdtemp"), 3;
        std::string dir = td;
        base.scratch = dir;
        if (base.only >= 0)
            nsh = 1;
        struct W
        {
            pid_t pid;
            Shared *sh;
            uint64_t lastBeat;
            double lastT;
            int gen;
            bool alive;
            std::string prefix;
        };
        auto now = []
        {
            timespec t;
            clock_gettime(CLOCK_MONOTONIC, &t);
            return t.tv_sec + 1e-9 * t.tv_nsec;
        };
        std::vector<W> ws(nsh);
        auto start = [&](int w, int64_t from)
        {
            Ctx c = base;
            c.shard = w, c.nshards = nsh, c.startFrom = from;
            c.sh = ws[w].sh;
            ws[w].lastBeat = c.sh->beat;
            ws[w].lastT = now();
            ws[w].alive = true;
            ws[w].pid = spawn(body, c, ws[w].prefix);
        };
        for (int w = 0; w < nsh; w++)
        {
            ws[w].sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            ws[w].gen = 0;
            ws[w].prefix = dir + "/w" + std::to_string(w);
            start(w, 0);
        }
        std::vector<Fail> fails;
        bool internalErr = false;
        std::string errMsg;
        int crashes = 0;
        int alive = nsh;
        auto crashFail = [&](W &w, const std::string &key, const std::string &what)
        {
            Fail f;
            f.idx = w.sh->cur;
            f.key = key;
            f.desc = w.sh->desc;
            if (w.sh->note[0])
                f.desc += std::string(" | ") + w.sh->note;
            f.msg = what + (w.sh->msg[0] ? std::string(": ") + w.sh->msg : std::string(": ") + tailLog(w.prefix + ".log"));
            fails.push_back(f);
        };
        while (alive > 0)
        {
            usleep(20000);
            for (int i = 0; i < nsh; i++)
            {
                auto &w = ws[i];
                if (!w.alive)
                    continue;
                int st;
                pid_t r = waitpid(w.pid, &st, WNOHANG);
                if (r == 0)
                {
                    if (w.sh->beat != w.lastBeat)
                        w.lastBeat = w.sh->beat, w.lastT = now();
                    else if (now() - w.lastT > caseTimeout)
                    {
                        kill(w.pid, SIGKILL);
                        waitpid(w.pid, &st, 0);
                        if (w.sh->cur < 0)
                            internalErr = true, errMsg = "worker made no progress before first case", w.alive = false, alive--;
                        else
                        {
                            crashFail(w, "hang", "no progress (hang)");
                            crashes++;
                            w.alive = false, alive--;
                        }
                    }
                    continue;
                }
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
                {
                    w.alive = false, alive--;
                    continue;
                }
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
                {
                    internalErr = true, errMsg = "worker was killed (memory?)";
                    w.alive = false, alive--;
                    continue;
                }
                if (w.sh->cur < 0)
                {
                    internalErr = true, errMsg = "worker died before first case: " + tailLog(w.prefix + ".log");
                    w.alive = false, alive--;
                    continue;
                }
                if (WIFSIGNALED(st))
                    crashFail(w, "crash", std::string("signal ") + std::to_string(WTERMSIG(st)));
                else if (WEXITSTATUS(st) == 86) // simulated-world fatal error (deadlock, ...), message in sh->msg
                    crashFail(w, "sim", "simulated MPI");
                else if (WEXITSTATUS(st) == 7)
                    ; // exception already recorded
                else
                    crashFail(w, "exit", "unexpected exit " + std::to_string(WEXITSTATUS(st)));
                crashes++;
                if (crashes >= caseLimitFails)
                    w.alive = false, alive--;
                else
                    start(i, w.sh->cur + 1);
            }
        }
        // merge
        std::unordered_set<uint64_t> states;
        std::map<std::string, uint64_t> cnt;
        std::vector<std::string> samples;
        int64_t total = 0;
        for (auto &w : ws)
        {
            std::ifstream s(w.prefix + ".states", std::ios::binary);
            uint64_t v;
            while (s.read((char *)&v, 8))
                states.insert(v);
            std::ifstream c(w.prefix + ".counts");
            std::string line;
            while (std::getline(c, line))
            {
                if (line.rfind("sample ", 0) == 0)
                {
                    if (samples.size() < 12)
                        samples.push_back(line.substr(7));
                    continue;
                }
                auto sp = line.find(' ');
                auto k = line.substr(0, sp);
                auto n = strtoull(line.c_str() + sp + 1, nullptr, 10);
                if (k == "end")
                    total = std::max<int64_t>(total, n);
                else
                    cnt[k] += n;
            }
            std::ifstream f(w.prefix + ".fail");
            while (std::getline(f, line))
            {
                Fail x;
                std::stringstream ss(line);
                std::string t;
                std::getline(ss, t, '\t');
                x.idx = atoll(t.c_str());
                std::getline(ss, x.key, '\t');
                std::getline(ss, x.desc, '\t');
                std::getline(ss, x.msg, '\t');
                fails.push_back(x);
            }
        }
        std::sort(fails.begin(), fails.end(), [](const Fail &a, const Fail &b)
                  { return a.idx < b.idx; });
        std::ostringstream js;
        js << "{\"internal_error\": " << (internalErr ? "\"" + jesc(errMsg) + "\"" : std::string("null"));
        js << ", \"states\": " << states.size() << ", \"space\": " << total;
        for (auto &k : cnt)
            js << ", \"" << jesc(k.first) << "\": " << k.second;
        js << ", \"samples\": [";
        for (size_t i = 0; i < samples.size(); i++)
            js << (i ? ", " : "") << "\"" << jesc(samples[i]) << "\"";
        js << "], \"fails\": [";
        for (size_t i = 0; i < fails.size(); i++)
            js << (i ? ", " : "") << "{\"idx\": " << fails[i].idx << ", \"key\": \"" << jesc(fails[i].key) << "\", \"desc\": \"" << jesc(fails[i].desc) << "\", \"msg\": \"" << jesc(fails[i].msg) << "\"}";
        js << "]}\n";
        if (out.size())
        {
            std::ofstream o(out);
            o << js.str();
        }
        else
            std::cout << js.str();
        // remove scratch (only files this process made, in its own mkdtemp directory)
        std::string cmd = "rm -rf -- '" + dir + "'";
        if (dir.rfind("/tmp/vh.", 0) == 0)
            if (system(cmd.c_str()))
                ;
        return internalErr ? 3 : (fails.empty() ? 0 : 1);
    }
}
