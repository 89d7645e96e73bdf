// Simulated MPI world: N ranks as cooperative fibers of one process under a controlled scheduler.
// The real DNDSR sources are linked against these definitions of the MPI_* entry points
// instead of libmpi, so every scheduling / buffering decision is ours to enumerate.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim
{
    struct Config
    {
        bool eager = true;      // standard-mode sends complete locally (buffered) / need a matching receive
        bool late = false;      // data moves as late as MPI allows (at completion calls) / as early as possible
        bool bcastSync = false; // rooted collectives synchronise all ranks
        int base = 0;           // 0: run current rank until it blocks; 1: round robin at each MPI call
        std::vector<int> prio;  // rank priority order (empty: identity)
        std::string str() const;
    };
    // decides one nondeterministic choice out of n (n>=2)
    struct Chooser
    {
        virtual int choose(int n) = 0;
        virtual ~Chooser() = default;
    };
    struct Stats
    {
        uint64_t mpiCalls = 0, switches = 0, choices = 0, messages = 0, collectives = 0;
    };
    // run one execution. Illegal behaviour (deadlock, mismatched collective, truncation, buffer misuse,
    // resource leak) calls fatal().
    Stats run(int nranks, const Config &cfg, Chooser *ch, const std::function<void(int)> &f);
    extern std::function<void(const std::string &)> fatal;
    bool inWorld();
    int rank();
    int size();
    extern bool checkLeaks;
    extern bool checkSendBuffers;

    // explore all executions within a deviation bound around the default schedule of cfg
    struct ExploreResult
    {
        uint64_t executions = 0;
        Stats total;
        bool truncated = false;
    };
    ExploreResult explore(int nranks, const Config &cfg, int maxDeviations, uint64_t maxExec,
                          const std::function<void(int)> &f,
                          const std::function<void(const std::string &sched)> &before,
                          const std::function<void()> &after);
    std::vector<Config> allConfigs(int nranks, bool full);
}
