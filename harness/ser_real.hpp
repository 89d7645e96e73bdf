// Conformance: selected programs of the enumeration on the real MPI and HDF5 libraries. The parent (no MPI) starts
// mpirun on this same executable for blocks of programs; a rank that fails, crashes or hangs fails the block.
#include <poll.h>
namespace DNDS::vf
{
    static int child(int argc, char **argv)
    {
        // --child <h5|json> <thorough> <first> <last> <dir>
        bool h5 = std::string(argv[2]) == "h5", thorough = atoi(argv[3]);
        long first = atol(argv[4]), last = atol(argv[5]);
        std::string dir = argv[6];
        MPI_Init(&argc, &argv);
        if (!getenv("SHOW_H5"))
            H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
        int R, me;
        MPI_Comm_size(MPI_COMM_WORLD, &R);
        MPI_Comm_rank(MPI_COMM_WORLD, &me);
        long k = 0;
        enumerate([&](const std::string &desc, int r, bool conf, const Fn &f)
                  {
            if (!conf || r != R)
                return;
            long id = k++;
            if (id < first || id >= last)
                return;
            if (me == 0)
                printf("BEGIN %ld %s\n", id, desc.c_str()), fflush(stdout);
            Env e;
            e.mpi.setWorld();
            e.h5 = h5, e.dir = dir;
            e.failF = [&](const std::string &key, const std::string &m)
            { printf("FAIL %ld\t%s\t%s\n", id, key.c_str(), m.c_str()), fflush(stdout); };
            f(e);
            MPI_Barrier(MPI_COMM_WORLD);
            if (me == 0)
                printf("END %ld\n", id), fflush(stdout); },
                  h5, thorough);
        MPI_Finalize();
        return 0;
    }
    // runs a command, collects its output; false if it does not end in time
    static bool command(const std::vector<std::string> &args, int seconds, std::string &out, int &status, vh::Ctx *ctx)
    {
        int fd[2];
        if (pipe(fd))
            return false;
        pid_t p = fork();
        if (p == 0)
        {
            setpgid(0, 0);
            prctl(PR_SET_PDEATHSIG, SIGTERM);
            dup2(fd[1], 1), dup2(fd[1], 2);
            close(fd[0]), close(fd[1]);
            const char *env[][2] = {{"OMPI_ALLOW_RUN_AS_ROOT", "1"}, {"OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1"}, {"OMPI_MCA_rmaps_base_oversubscribe", "1"}, {"OMPI_MCA_hwloc_base_binding_policy", "none"}, {"OMPI_MCA_plm", "isolated"}, {"OMPI_MCA_btl", "self,vader"}, {"OMPI_MCA_btl_vader_single_copy_mechanism", "none"}, {"OMPI_MCA_oob_tcp_if_include", "lo"}, {"OMPI_MCA_mpi_yield_when_idle", "1"}, {"OMP_NUM_THREADS", "1"}, {"HDF5_USE_FILE_LOCKING", "FALSE"}};
            for (auto &e : env)
                setenv(e[0], e[1], 1);
            std::vector<char *> a;
            for (auto &s : args)
                a.push_back((char *)s.c_str());
            a.push_back(nullptr);
            execvp(a[0], a.data());
            _exit(127);
        }
        close(fd[1]);
        time_t t0 = time(nullptr);
        bool alive = true;
        while (alive)
        {
            pollfd pf{fd[0], POLLIN, 0};
            if (poll(&pf, 1, 500) > 0)
            {
                char b[4096];
                ssize_t n = read(fd[0], b, sizeof b);
                if (n <= 0)
                    break;
                out.append(b, n);
                t0 = time(nullptr); // the limit is on silence
            }
            if (ctx)
                ctx->beat();
            if (time(nullptr) - t0 > seconds)
                alive = false;
        }
        close(fd[0]);
        if (!alive)
        {
            kill(-p, SIGTERM);
            usleep(300000);
            kill(-p, SIGKILL);
        }
        waitpid(p, &status, 0);
        return alive;
    }
    static std::string self()
    {
        char b[4096];
        ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
        return std::string(b, n > 0 ? n : 0);
    }
    static void body(vh::Ctx &ctx)
    {
        std::string mode = ctx.opts["mode"] == "json" ? "json" : "h5";
        std::map<int, std::vector<std::string>> cases;
        enumerate([&](const std::string &desc, int R, bool conf, const Fn &)
                  { if (conf) cases[R].push_back(desc); },
                  mode == "h5", ctx.thorough);
        const int B = ctx.thorough ? 60 : 40;
        std::string dir = ctx.scratch + vh::fmts("/r%ld", (long)ctx.shard);
        mkdir(dir.c_str(), 0700);
        int usable = -1;
        auto start = [&](int R, long a, long b, int secs, std::string &out, int &st)
        { return command({"mpirun", "-n", std::to_string(R), self(), "--child", mode, ctx.thorough ? "1" : "0", std::to_string(a), std::to_string(b), dir}, secs, out, st, &ctx); };
        for (auto &c : cases)
            for (long a = 0; a < (long)c.second.size(); a += B)
            {
                long b = std::min<long>(a + B, c.second.size());
                if (!ctx.take("real libraries, %d ranks: programs %ld..%ld, first: %s", c.first, a, b - 1, c.second[a].c_str()))
                    continue;
                std::string out;
                int st = 0;
                if (usable < 0)
                {
                    std::string o;
                    usable = start(2, 0, 0, 60, o, st) && WIFEXITED(st) && WEXITSTATUS(st) == 0;
                    ctx.extra[usable ? "workers_with_mpirun" : "workers_without_mpirun"]++;
                }
                if (!usable || ctx.nfail)
                    continue;  // after a failure every further block may have to wait for its time limit
                    // no MPI launcher here: nothing can be said, the enumeration on the stand-in decides alone
                bool ended = start(c.first, a, b, 60, out, st);
                std::istringstream is(out);
                std::string l, cur;
                long done = 0;
                bool failed = false;
                std::string assertion;
                while (std::getline(is, l))
                {
                    if (l.compare(0, 6, "BEGIN ") == 0)
                        cur = l.substr(6);
                    else if (l.compare(0, 4, "END ") == 0)
                        done++, cur.clear(), ctx.nTraces++;
                    else if (l.compare(0, 5, "FAIL ") == 0)
                        failed = true, ctx.fail("real: " + l.substr(l.find('\t') + 1, l.rfind('\t') - l.find('\t') - 1), "%s: %s", cur.c_str(), l.c_str());
                    else if (l.find("assert") != std::string::npos)
                        assertion = l;
                }
                ctx.extra["programs_on_real_libraries"] += done;
                ctx.nTrans += done;
                vh::Hash h;
                h.add(c.second[a]).add(done);
                ctx.state(h.h);
                if (!failed && done != b - a)
                    ctx.fail(ended ? "real: crash" : "real: hang", "after %ld of %ld programs, in: %s %s (status %x)", done, b - a, cur.c_str(), assertion.c_str(), st);
            }
    }
}
int main(int argc, char **argv)
{
    if (argc > 6 && std::string(argv[1]) == "--child")
        return DNDS::vf::child(argc, argv);
    return vh::run(argc, argv, [&](vh::Ctx &ctx)
                   { DNDS::vf::body(ctx); });
}
