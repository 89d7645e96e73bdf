// C04/C05/C06: ghost exchange of distributed arrays, executed on the real ArrayTransformer under the
// simulated MPI world, compared with a global model (a vector of rows).
#include "simctx.hpp"
#include "DNDS/ArrayTransformer.hpp"
#include "DNDS/ArrayPair.hpp"
namespace DNDS::vf
{

template <class T>
T mkval(int64_t v);
template <> real mkval<real>(int64_t v) { return v + 0.25; }
template <> index mkval<index>(int64_t v) { return v; }
template <> int32_t mkval<int32_t>(int64_t v) { return (int32_t)v; }
template <> uint8_t mkval<uint8_t>(int64_t v) { return (uint8_t)(v * 37 + v / 256); }
template <> std::array<real, 2> mkval<std::array<real, 2>>(int64_t v) { return {v + 0.5, -v - 0.125}; }
template <> std::array<int32_t, 3> mkval<std::array<int32_t, 3>>(int64_t v) { return {(int)v, (int)-v, (int)(v ^ 5)}; }
template <> Eigen::Matrix<real, 2, 2> mkval<Eigen::Matrix<real, 2, 2>>(int64_t v)
{
    Eigen::Matrix<real, 2, 2> m;
    m << v, -v, v + 0.5, v * 3.0;
    return m;
}
template <class T>
bool eq(const T &a, const T &b) { return a == b; }

// model value: row gi, column j, version
static int64_t mv(index gi, int j, int ver) { return 1 + gi * 1000 + j * 100 + ver * 7; }

struct Case
{
    int n;
    std::vector<int> sizes;                 // rows per rank
    std::vector<std::vector<index>> pull;   // per-rank requested global indices (as handed over)
    std::vector<int> rows;                  // row size per global row (variable layouts)
    std::string ops;
    bool fromPush = false;
    bool oneShot = false;
};
static std::string str(const Case &c)
{
    std::string s = "n" + std::to_string(c.n) + " sizes";
    for (auto i : c.sizes)
        s += " " + std::to_string(i);
    s += " pull";
    for (auto &p : c.pull)
    {
        s += " {";
        for (auto i : p)
            s += std::to_string(i) + ",";
        s += "}";
    }
    s += " rows";
    for (auto i : c.rows)
        s += std::to_string(i);
    s += " ops " + c.ops + (c.fromPush ? " byPushLists" : "") + (c.oneShot ? " once" : "");
    return s;
}

struct Model
{
    // version of each row
    std::vector<int> owner;                            // version per global row held by the owner
    std::vector<std::vector<std::pair<index, int>>> g; // per rank: sorted ghost gi -> version; version -1: never filled
};
struct Step
{
    char op;
    Model after;
};
static std::vector<index> offsets(const Case &c)
{
    std::vector<index> o(c.n + 1, 0);
    for (int r = 0; r < c.n; r++)
        o[r + 1] = o[r] + c.sizes[r];
    return o;
}
static std::vector<Step> modelRun(const Case &c)
{
    Model m;
    auto off = offsets(c);
    m.owner.assign(off.back(), 0);
    m.g.resize(c.n);
    for (int r = 0; r < c.n; r++)
    {
        auto p = c.pull[r];
        std::sort(p.begin(), p.end());
        p.erase(std::unique(p.begin(), p.end()), p.end());
        for (auto i : p)
            m.g[r].push_back({i, -1});
    }
    std::vector<Step> out;
    int ver = 1;
    for (char op : c.ops)
    {
        if (op == 'W')
        {
            for (auto &v : m.owner)
                v = ver;
            ver++;
        }
        else if (op == 'w')
        {
            for (auto &g : m.g)
                for (auto &x : g)
                    x.second = ver;
            ver++;
        }
        else if (op == 'P')
        {
            for (auto &g : m.g)
                for (auto &x : g)
                    x.second = m.owner[x.first];
        }
        else if (op == 'U')
        {
            for (auto &g : m.g)
                for (auto &x : g)
                    m.owner[x.first] = x.second;
        }
        else if (op == 'x') // holder specific ghost values: version 100+rank
        {
            for (int r = 0; r < c.n; r++)
                for (auto &x : m.g[r])
                    x.second = 100 + r;
        }
        else if (op == 'u') // push with disagreeing holders (only after x): any holder may win
        {
            for (auto &g : m.g)
                for (auto &x : g)
                    m.owner[x.first] = -2;
        }
        out.push_back({op, m});
    }
    return out;
}

template <class T, rowsize rs, rowsize rm>
struct Runner
{
    using Arr = ParArray<T, rs, rm>;
    using Trans = ArrayTransformer<T, rs, rm>;
    static constexpr DataLayout lay = Arr::_dataLayout;
    static constexpr bool var = lay == CSR || lay == TABLE_Max || lay == TABLE_StaticMax;
    static int rowsz(const Case &c, index gi)
    {
        if constexpr (var)
            return c.rows[gi];
        else if constexpr (lay == TABLE_Fixed)
            return 2;
        else
            return rs;
    }
    static T val(index gi, int j, int ver)
    {
        return mkval<T>(mv(gi, j, ver));
    }
    static void makeFather(const Case &c, Arr &f, int r, index off)
    {
        int n = c.sizes[r];
        if constexpr (lay == TABLE_StaticFixed)
            f.Resize(n);
        else if constexpr (lay == TABLE_Fixed)
            f.Resize(n, 2);
        else if constexpr (lay == TABLE_StaticMax)
        {
            f.Resize(n);
            for (int i = 0; i < n; i++)
                f.ResizeRow(i, c.rows[off + i]);
        }
        else if constexpr (lay == TABLE_Max)
        {
            f.Resize(n, 3);
            for (int i = 0; i < n; i++)
                f.ResizeRow(i, c.rows[off + i]);
        }
        else
        {
            f.Resize(n);
            for (int i = 0; i < n; i++)
                f.ResizeRow(i, c.rows[off + i]);
        }
    }
    static void writeFather(const Case &c, Arr &f, int r, index off, int ver)
    {
        for (index i = 0; i < f.Size(); i++)
            for (int j = 0; j < rowsz(c, off + i); j++)
                f(i, j) = val(off + i, j, ver);
    }
    static bool check(vh::Ctx &ctx, const Case &c, Trans &t, Arr &f, Arr &s, int r, index off, const Model &m, char op, int step, const char *what)
    {
        if (f.Size() != c.sizes[r])
            return ctx.fail("father-size", "%s step %d op %c rank %d: father size %ld", what, step, op, r, (long)f.Size()), false;
        for (index i = 0; i < f.Size(); i++)
        {
            if (f.RowSize(i) != rowsz(c, off + i))
                return ctx.fail("father-row", "%s step %d op %c rank %d: owned row %ld has width %d, expected %d", what, step, op, r, (long)i, f.RowSize(i), rowsz(c, off + i)), false;
            int ver = m.owner[off + i];
            if (ver == -1)
                continue; // pushed from a ghost that was never filled: unspecified
            if (ver == -2)
            {
                // must equal one of the holders' values, as a whole
                bool any = false;
                for (int h = 0; h < c.n; h++)
                    for (auto &x : m.g[h])
                        if (x.first == off + i)
                        {
                            bool all = true;
                            for (int j = 0; j < rowsz(c, off + i); j++)
                                all = all && eq(f(i, j), val(off + i, j, 100 + h));
                            any = any || all;
                        }
                if (!any)
                    return ctx.fail("father-value", "%s step %d op %c rank %d: owned row %ld equals no holder's value after push", what, step, op, r, (long)i), false;
                continue;
            }
            for (int j = 0; j < rowsz(c, off + i); j++)
                if (!eq(f(i, j), val(off + i, j, ver)))
                    return ctx.fail("father-value", "%s step %d op %c rank %d: owned row %ld column %d differs from the model", what, step, op, r, (long)i, j), false;
        }
        if (s.Size() != (index)m.g[r].size())
            return ctx.fail("ghost-size", "%s step %d op %c rank %d: %ld ghost rows, expected %zu", what, step, op, r, (long)s.Size(), m.g[r].size()), false;
        for (size_t k = 0; k < m.g[r].size(); k++)
        {
            auto [gi, ver] = m.g[r][k];
            if (s.RowSize(k) != rowsz(c, gi))
                return ctx.fail("ghost-row", "%s step %d op %c rank %d: ghost row %zu (global %ld) has width %d, expected %d", what, step, op, r, k, (long)gi, s.RowSize(k), rowsz(c, gi)), false;
            for (int j = 0; j < rowsz(c, gi) && ver != -1; j++)
                if (!eq(s(k, j), val(gi, j, ver)))
                    return ctx.fail("ghost-value", "%s step %d op %c rank %d: ghost row %zu (global %ld) column %d differs from the model", what, step, op, r, k, (long)gi, j), false;
        }
        return true;
    }

    // build father/son/transformer of one rank
    struct Inst
    {
        ssp<Arr> f, s;
        Trans t;
        index off;
    };
    static void build(const Case &c, Inst &x, const MPIInfo &mpi)
    {
        auto o = offsets(c);
        x.off = o[mpi.rank];
        x.f = std::make_shared<Arr>(mpi), x.s = std::make_shared<Arr>(mpi);
        makeFather(c, *x.f, mpi.rank, x.off);
        writeFather(c, *x.f, mpi.rank, x.off, 0);
        x.t.setFatherSon(x.f, x.s);
        x.t.createFatherGlobalMapping();
        if (c.fromPush)
        {
            std::vector<index> loc;
            std::vector<index> st(1, 0);
            for (int d = 0; d < c.n; d++)
            {
                auto p = c.pull[d];
                std::sort(p.begin(), p.end());
                p.erase(std::unique(p.begin(), p.end()), p.end());
                for (auto gi : p)
                    if (gi >= o[mpi.rank] && gi < o[mpi.rank + 1])
                        loc.push_back(gi - o[mpi.rank]);
                st.push_back((index)loc.size());
            }
            x.t.createGhostMapping(loc, st);
        }
        else
        {
            auto p = c.pull[mpi.rank];
            x.t.createGhostMapping(p);
        }
        x.t.createMPITypes();
    }
    static void writeGhost(const Case &c, Inst &x, int r, const Model &m)
    {
        for (size_t k = 0; k < m.g[r].size(); k++)
            for (int j = 0; j < rowsz(c, m.g[r][k].first); j++)
                (*x.s)(k, j) = val(m.g[r][k].first, j, m.g[r][k].second);
    }

    static void body(vh::Ctx &ctx, const Case &c, const std::vector<Step> &steps, const char *what)
    {
        MPIInfo mpi;
        mpi.setWorld();
        Inst x;
        build(c, x, mpi);
        if (!c.oneShot)
        {
            x.t.initPersistentPull();
            x.t.initPersistentPush();
        }
        int ver = 1, step = 0;
        for (auto &s : steps)
        {
            switch (s.op)
            {
            case 'W': writeFather(c, *x.f, mpi.rank, x.off, ver++); break;
            case 'w': ver++; writeGhost(c, x, mpi.rank, s.after); break;
            case 'x': writeGhost(c, x, mpi.rank, s.after); break;
            case 'P':
                if (c.oneShot)
                    x.t.pullOnce();
                else
                    x.t.startPersistentPull(), x.t.waitPersistentPull();
                break;
            case 'U':
            case 'u':
                if (c.oneShot)
                    x.t.pushOnce();
                else
                    x.t.startPersistentPush(), x.t.waitPersistentPush();
                break;
            }
            if (!check(ctx, c, x.t, *x.f, *x.s, mpi.rank, x.off, s.after, s.op, step++, what))
                break;
        }
        if (!c.oneShot)
        {
            x.t.clearPersistentPull();
            x.t.clearPersistentPush();
        }
    }
};

using F = void (*)(vh::Ctx &, const Case &, const std::vector<Step> &, const char *);
struct LayInfo
{
    const char *name;
    F f;
    bool var;
};
static const std::vector<LayInfo> LAYS = {
    {"real/StaticFixed", Runner<real, 2, 2>::body, false},
    {"real/Fixed", Runner<real, DynamicSize, DynamicSize>::body, false},
    {"real/StaticMax", Runner<real, NonUniformSize, 3>::body, true},
    {"real/Max", Runner<real, NonUniformSize, DynamicSize>::body, true},
    {"real/CSR", Runner<real, NonUniformSize, NonUniformSize>::body, true},
    {"index/CSR", Runner<index, NonUniformSize, NonUniformSize>::body, true},
    {"int32/StaticMax", Runner<int32_t, NonUniformSize, 3>::body, true},
    {"u8/StaticFixed", Runner<uint8_t, 3, 3>::body, false},
    {"array2/CSR", Runner<std::array<real, 2>, NonUniformSize, NonUniformSize>::body, true},
    {"array3i/Max", Runner<std::array<int32_t, 3>, NonUniformSize, DynamicSize>::body, true},
    {"mat22/StaticFixed", Runner<Eigen::Matrix<real, 2, 2>, 1, 1>::body, false},
};

static const char *stratName[] = {"?", "HIndexed", "InSitu"};

// enumerate all (sizes, pull subsets)
template <class CB>
static void forPatterns(int n, int maxPer, int maxTot, CB cb)
{
    std::vector<int> sizes(n, 0);
    while (true)
    {
        int tot = 0;
        for (auto s : sizes)
            tot += s;
        if (tot <= maxTot)
        {
            uint64_t combos = 1ull << (tot * n);
            for (uint64_t m = 0; m < combos; m++)
            {
                std::vector<std::vector<index>> pull(n);
                for (int r = 0; r < n; r++)
                    for (int i = 0; i < tot; i++)
                        if (m >> (r * tot + i) & 1)
                            pull[r].push_back(i);
                cb(sizes, pull, tot);
            }
        }
        int k = 0;
        while (k < n && ++sizes[k] > maxPer)
            sizes[k++] = 0;
        if (k == n)
            break;
    }
}

static std::vector<std::vector<int>> rowPatterns(int tot, bool all)
{
    std::vector<std::vector<int>> out;
    if (all)
    {
        int c = 1;
        for (int i = 0; i < tot; i++)
            c *= 3;
        for (int k = 0; k < c; k++)
        {
            std::vector<int> v(tot);
            int kk = k;
            for (auto &x : v)
                x = kk % 3, kk /= 3;
            out.push_back(v);
        }
        return out;
    }
    std::vector<std::vector<int>> bases = {{1, 2, 0, 3, 2, 1}, {0, 0, 0, 0, 0, 0}, {3, 0, 1, 2, 0, 3}};
    for (auto &b : bases)
        out.push_back(std::vector<int>(b.begin(), b.begin() + tot));
    std::sort(out.begin(), out.end());
    out.erase(std::unique(out.begin(), out.end()), out.end());
    return out;
}

static uint64_t chash(const Case &c, const char *lay, int strat)
{
    vh::Hash h;
    h.add(str(c)).add(std::string(lay)).add(strat);
    return h.h;
}

static void runOne(vh::Ctx &ctx, const Case &c, const LayInfo &L, int strat, const std::vector<sim::Config> &cfgs)
{
    if (!ctx.take("%s %s %s", L.name, stratName[strat], str(c).c_str()))
        return;
    MPI::CommStrategy::Instance().SetArrayStrategy((MPI::CommStrategy::ArrayCommType)strat);
    auto steps = modelRun(c);
    for (auto &cfg : cfgs)
    {
        ctx.note(cfg.str());
        auto st = sim::run(c.n, cfg, nullptr, [&](int)
                           { L.f(ctx, c, steps, L.name); });
        addStats(ctx, st);
        ctx.nTraces++;
    }
    ctx.state(chash(c, L.name, strat));
}

static std::vector<sim::Config> twoConfigs(int n)
{
    sim::Config a, b;
    a.eager = false, a.late = true, a.bcastSync = true, a.base = 0;
    for (int i = n - 1; i >= 0; i--)
        a.prio.push_back(i);
    b.eager = true, b.late = false, b.base = 1;
    return {a, b};
}

static void bodyData(vh::Ctx &ctx, bool push)
{
    simAttach(ctx);
    MPI::CommStrategy::Instance();
    const bool light = ctx.opts.count("light"); // reduced pattern set for additional wait settings
    std::vector<std::string> seqs = push ? std::vector<std::string>{"PwUWPwU", "xu", "wUPWU"}
                                         : std::vector<std::string>{"PWPwUP", "UPWPP"};
    for (int strat = 1; strat <= 2; strat++)
        for (size_t li = 0; li < LAYS.size(); li++)
        {
            auto &L = LAYS[li];
            auto pat = [&](int n, int maxPer, int maxTot, bool allRows, bool allSeq)
            {
                forPatterns(n, maxPer, maxTot, [&](auto &sizes, auto &pull, int tot)
                            {
                    auto rp = L.var ? rowPatterns(tot, allRows) : std::vector<std::vector<int>>{std::vector<int>(tot, 0)};
                    for (auto &rows : rp)
                        for (size_t si = 0; si < seqs.size(); si++)
                        {
                            Case c;
                            c.n = n, c.sizes = sizes, c.pull = pull, c.rows = rows, c.ops = seqs[si];
                            c.oneShot = si == 1;
                            c.fromPush = si == 1;
                            if (si == 0 && !push) // unordered, repeated requests
                                for (auto &p : c.pull)
                                {
                                    std::reverse(p.begin(), p.end());
                                    if (!p.empty()) p.push_back(p[0]);
                                }
                            if (!allSeq && si > 0) continue;
                            runOne(ctx, c, L, strat, twoConfigs(n));
                        } });
            };
            const bool core = li < 5; // the five layouts of reals get the full space, element types a smaller one
            if (light)
            {
                pat(2, 2, 3, false, true);
                pat(3, 1, 2, false, false);
                continue;
            }
            pat(1, 2, 2, true, true);
            if (core)
            {
                pat(2, 2, ctx.thorough ? 4 : 3, ctx.thorough || true, true);
                pat(3, ctx.thorough ? 2 : 1, 3, ctx.thorough, true);
                if (ctx.thorough)
                    pat(4, 1, 3, false, true);
            }
            else
            {
                pat(2, 2, 2, true, true);
                pat(3, 1, 2, false, true);
                if (ctx.thorough)
                    pat(3, 2, 3, false, true);
            }
        }
    // operation histories: all sequences up to a depth over {pull, push, owner write, ghost write}
    const char alpha[] = {'P', 'U', 'W', 'w'};
    int depth = light ? 2 : (ctx.thorough ? 5 : 4);
    for (int strat = 1; strat <= 2; strat++)
        for (int li = 0; li < 5; li++)
            for (int d = 1; d <= depth; d++)
                for (int k = 0; k < (1 << (2 * d)); k++)
                    for (int once = 0; once < 2; once++)
                    {
                        Case c;
                        c.n = 3, c.sizes = {2, 0, 2}, c.pull = {{2, 1}, {0, 3, 3}, {0}}, c.rows = {2, 0, 1, 3};
                        int kk = k;
                        for (int i = 0; i < d; i++)
                            c.ops += alpha[kk & 3], kk >>= 2;
                        if (c.ops.find(push ? 'U' : 'P') == std::string::npos)
                            continue;
                        c.oneShot = once;
                        runOne(ctx, c, LAYS[li], strat, twoConfigs(3));
                    }
}

// ---------------------------------------------------------------- C06: schedules
// programs over two arrays that share one ghost map
template <class RA, class RB>
static void prog(vh::Ctx &ctx, const Case &c, int p, const char *what)
{
    MPIInfo mpi;
    mpi.setWorld();
    typename RA::Inst a;
    typename RB::Inst b;
    auto mod = modelRun([&]
                        { Case d = c; d.ops = "P"; return d; }())[0].after;
    RA::build(c, a, mpi);
    RB::build(c, b, mpi);
    int r = mpi.rank;
    auto chk = [&](const char *w, const Model &m, bool A, bool B)
    {
        if (A)
            RA::check(ctx, c, a.t, *a.f, *a.s, r, a.off, m, 'A', p, w);
        if (B)
            RB::check(ctx, c, b.t, *b.f, *b.s, r, b.off, m, 'B', p, w);
    };
    // after pull of version v0 everywhere
    Model m0 = mod;
    auto setVer = [&](Model m, int own, int gh)
    {
        for (auto &v : m.owner)
            v = own;
        for (auto &g : m.g)
            for (auto &x : g)
                x.second = gh;
        return m;
    };
    switch (p)
    {
    case 0: // one-shot pull then push of a
        a.t.pullOnce();
        chk("pullOnce", m0, true, false);
        a.t.pushOnce();
        chk("pushOnce", m0, true, false);
        break;
    case 1: // two persistent pulls in flight, same order
        a.t.initPersistentPull(), b.t.initPersistentPull();
        a.t.startPersistentPull(), b.t.startPersistentPull();
        a.t.waitPersistentPull(), b.t.waitPersistentPull();
        chk("overlap", m0, true, true);
        // second round with new data
        RA::writeFather(c, *a.f, r, a.off, 5), RB::writeFather(c, *b.f, r, b.off, 5);
        b.t.startPersistentPull(), a.t.startPersistentPull();
        a.t.waitPersistentPull(), b.t.waitPersistentPull();
        chk("overlap2", setVer(m0, 5, 5), true, true);
        a.t.clearPersistentPull(), b.t.clearPersistentPull();
        break;
    case 2: // pull of a overlapping a push of b, with a collective in between
    {
        a.t.initPersistentPull(), b.t.initPersistentPush();
        RB::writeGhost(c, b, r, setVer(m0, 0, 9));
        a.t.startPersistentPull(), b.t.startPersistentPush();
        real v = mpi.rank, w = 0;
        MPI::Allreduce(&v, &w, 1, DNDS_MPI_REAL, MPI_SUM, mpi.comm);
        if (w != (c.n - 1) * c.n / 2.0)
            ctx.fail("allreduce", "Allreduce wrapper gave %g", w);
        a.t.waitPersistentPull(), b.t.waitPersistentPush();
        chk("pull|push", m0, true, false);
        Model mb = setVer(m0, 0, 9);
        for (auto &g : mb.g)
            for (auto &x : g)
                mb.owner[x.first] = 9;
        chk("pull|push", mb, false, true);
        a.t.clearPersistentPull(), b.t.clearPersistentPush();
        break;
    }
    case 3: // ranks reach the same exchange at different times: rank-dependent extra collectives are not legal,
            // so only local work differs; repeated start/wait without re-init
        a.t.initPersistentPull(), a.t.initPersistentPush();
        for (int it = 0; it < 3; it++)
        {
            RA::writeFather(c, *a.f, r, a.off, 20 + it);
            a.t.startPersistentPull(), a.t.waitPersistentPull();
            chk("iter-pull", setVer(m0, 20 + it, 20 + it), true, false);
            RA::writeGhost(c, a, r, setVer(m0, 0, 40 + it));
            a.t.startPersistentPush(), a.t.waitPersistentPush();
            Model ma = setVer(m0, 20 + it, 40 + it);
            for (auto &g : ma.g)
                for (auto &x : g)
                    ma.owner[x.first] = 40 + it;
            chk("iter-push", ma, true, false);
        }
        a.t.clearPersistentPull(), a.t.clearPersistentPush();
        break;
    case 4: // collective wrappers
    {
        std::vector<index> all(c.n, -1);
        index mine = 7 * r + 1;
        MPI::Allgather(&mine, 1, DNDS_MPI_INDEX, all.data(), 1, DNDS_MPI_INDEX, mpi.comm);
        for (int i = 0; i < c.n; i++)
            if (all[i] != 7 * i + 1)
                ctx.fail("allgather", "Allgather wrapper");
        std::vector<int> s(c.n), q(c.n, -1);
        for (int i = 0; i < c.n; i++)
            s[i] = r * 10 + i;
        MPI::Alltoall(s.data(), 1, MPI_INT, q.data(), 1, MPI_INT, mpi.comm);
        for (int i = 0; i < c.n; i++)
            if (q[i] != i * 10 + r)
                ctx.fail("alltoall", "Alltoall wrapper");
        index sc = r + 1, so = 0;
        MPI::Scan(&sc, &so, 1, DNDS_MPI_INDEX, MPI_SUM, mpi.comm);
        if (so != (index)(r + 1) * (r + 2) / 2)
            ctx.fail("scan", "Scan wrapper");
        MPI::Barrier(mpi.comm);
        for (int root = 0; root < c.n; root++)
        {
            index bv = r == root ? 99 + root : -1;
            MPI::Bcast(&bv, 1, DNDS_MPI_INDEX, root, mpi.comm);
            if (bv != 99 + root)
                ctx.fail("bcast", "Bcast wrapper");
        }
        // Alltoallv: rank r sends i copies of r to rank i
        std::vector<int> sc_(c.n), sd(c.n), rc(c.n), rd(c.n);
        std::vector<index> sb, rb;
        for (int i = 0; i < c.n; i++)
            sc_[i] = i, sd[i] = (int)sb.size(), sb.insert(sb.end(), i, 100 * r + i), rc[i] = r, rd[i] = i * r;
        rb.assign((size_t)c.n * r + 1, -1);
        MPI::Alltoallv(sb.data(), sc_.data(), sd.data(), DNDS_MPI_INDEX, rb.data(), rc.data(), rd.data(), DNDS_MPI_INDEX, mpi.comm);
        for (int i = 0; i < c.n; i++)
            for (int k = 0; k < r; k++)
                if (rb[i * r + k] != 100 * i + r)
                    ctx.fail("alltoallv", "Alltoallv wrapper");
        real mx = r;
        MPI::AllreduceOneReal(mx, MPI_MAX, mpi);
        index mn = r + 3;
        MPI::AllreduceOneIndex(mn, MPI_MIN, mpi);
        if (mx != c.n - 1 || mn != 3)
            ctx.fail("allreduce1", "AllreduceOne wrappers");
        int turn = 0;
        MPISerialDo(mpi, [&] { turn++; });
        if (turn != 1)
            ctx.fail("serialdo", "MPISerialDo ran the body %d times", turn);
        index gs = a.f->globalSize();
        if (gs != (index)c.rows.size())
            ctx.fail("globalSize", "globalSize %ld", (long)gs);
        a.f->AssertConsistent();
        break;
    }
    }
}

template <class RA, class RB>
static void prog5(vh::Ctx &ctx, const Case &c, int p, const char *what)
{
    prog<RA, RB>(ctx, c, p, what);
}

static void bodySched(vh::Ctx &ctx)
{
    simAttach(ctx);
    MPI::CommStrategy::Instance();
    const bool light = ctx.opts.count("light");
    using R0 = Runner<real, 2, 2>;
    using R4 = Runner<real, NonUniformSize, NonUniformSize>;
    using R3 = Runner<real, NonUniformSize, DynamicSize>;
    using R4i = Runner<index, NonUniformSize, NonUniformSize>;
    using PF = void (*)(vh::Ctx &, const Case &, int, const char *);
    std::vector<std::pair<const char *, PF>> progs = {{"CSR+Fixed", prog<R4, R0>}, {"Max+CSRi", prog<R3, R4i>}, {"Fixed+Max", prog<R0, R3>}};
    std::vector<Case> cases;
    {
        Case c;
        c.n = 2, c.sizes = {2, 2}, c.pull = {{2, 3}, {0}}, c.rows = {1, 2, 0, 2};
        cases.push_back(c);
        c.n = 2, c.sizes = {2, 2}, c.pull = {{}, {1}}, c.rows = {0, 0, 3, 1}; // only empty rows travel
        cases.push_back(c);
        c.n = 2, c.sizes = {3, 0}, c.pull = {{0}, {0, 1, 2}}, c.rows = {2, 0, 1};
        cases.push_back(c);
        c.n = 3, c.sizes = {1, 1, 1}, c.pull = {{1, 2}, {0, 2}, {0, 1}}, c.rows = {2, 1, 3};
        cases.push_back(c);
        c.n = 3, c.sizes = {2, 0, 2}, c.pull = {{2}, {0, 3}, {}}, c.rows = {2, 0, 1, 3};
        cases.push_back(c);
        c.n = 3, c.sizes = {1, 2, 0}, c.pull = {{1}, {}, {0, 1, 2}}, c.rows = {0, 0, 2};
        cases.push_back(c);
        if (ctx.thorough)
        {
            c.n = 4, c.sizes = {1, 1, 1, 1}, c.pull = {{1, 3}, {0, 2}, {1, 3}, {2, 0}}, c.rows = {2, 1, 0, 3};
            cases.push_back(c);
        }
    }
    for (int strat = 1; strat <= 2; strat++)
        for (auto &P : progs)
            for (auto &c : cases)
                for (int p = 0; p <= 4; p++)
                {
                    bool full = ctx.thorough && !light;
                    auto cfgs = sim::allConfigs(c.n, full && c.n < 4);
                    for (auto &cfg : cfgs)
                    {
                        if (!ctx.take("program %d %s %s %s cfg %s", p, P.first, stratName[strat], str(c).c_str(), cfg.str().c_str()))
                            continue;
                        MPI::CommStrategy::Instance().SetArrayStrategy((MPI::CommStrategy::ArrayCommType)strat);
                        int K = ctx.thorough ? (c.n == 2 ? 2 : 1) : (light ? 0 : 1);
                        auto res = sim::explore(
                            c.n, cfg, K, ctx.thorough ? 200000 : 20000, [&](int)
                            { P.second(ctx, c, p, P.first); },
                            [&](const std::string &s)
                            { ctx.note(s); },
                            [&] { if ((ctx.nTraces & 255) == 0) ctx.beat(); });
                        addStats(ctx, res.total);
                        ctx.nTraces += res.executions;
                        ctx.extra["scheduling_choice_points"] += res.total.choices;
                        if (res.truncated)
                            ctx.extra["truncated"]++;
                        vh::Hash h;
                        h.add(str(c)).add(cfg.str()).add(p).add(strat).add(std::string(P.first));
                        for (uint64_t e = 0; e < res.executions; e++)
                        {
                            auto g = h;
                            g.add(e);
                            ctx.state(g.h);
                        }
                    }
                }
}

} // namespace
int main(int argc, char **argv)
{
    std::string mode = "pull";
    for (int i = 1; i + 1 < argc; i++)
        if (std::string(argv[i]) == "--opt" && std::string(argv[i + 1]).rfind("mode=", 0) == 0)
            mode = argv[i + 1] + 5;
    return vh::run(argc, argv, [&](vh::Ctx &ctx)
                   {
        if (mode == "pull") DNDS::vf::bodyData(ctx, false);
        else if (mode == "push") DNDS::vf::bodyData(ctx, true);
        else DNDS::vf::bodySched(ctx); });
}
