// C02: derived arrays (adjacency, vectors, matrices, matrix batches): views store what was written,
// on every shape / sizing order / write order, for copies and for ghost copies in a simulated world.
#include "vh.hpp"
#include "simctx.hpp"
#include "adapters.hpp"
namespace DNDS::vf
{
    // ---------------- local histories
    template <class Ad>
    static void local(vh::Ctx &ctx, const char *name, int nmax)
    {
        auto caps = Ad::caps();
        using Arr = typename Ad::Arr;
        MPIInfo mpi;
        for (int n = 0; n <= nmax; n++)
        {
            size_t A = caps.alphabet.size();
            size_t nsh = 1;
            for (int i = 0; i < n; i++)
                nsh *= caps.uniform ? 1 : A;
            if (caps.uniform)
                nsh = A;
            for (size_t q = 0; q < nsh; q++)
            {
                std::vector<Shape> sh(n);
                size_t qq = q;
                for (int i = 0; i < n; i++)
                {
                    sh[i] = caps.alphabet[qq % A];
                    if (!caps.uniform)
                        qq /= A;
                }
                std::string d;
                for (auto &s : sh)
                    d += s2s(s);
                if (!ctx.take("%s %d rows %s", name, n, d.c_str()))
                    continue;
                std::vector<int> perm(n);
                for (int i = 0; i < n; i++)
                    perm[i] = i;
                do
                {
                    std::vector<int> perm2 = perm;
                    std::sort(perm2.begin(), perm2.end());
                    do
                        for (int mode = 0; mode < 3; mode++)
                            for (int how = 0; how < Ad::nHow; how++)
                                for (size_t alt = 0; alt <= (n ? A : 0); alt++) // alt shape the first-perm row is given first / in the copy
                                {
                                    if (alt > 0 && !caps.resizable)
                                        continue;
                                    auto fail = [&](const char *w, int i)
                                    { ctx.fail(w, "row %d is not what was written (sizing order %d.., write order %d.., mode %d, accessor %d, alternative shape %zu)", i,
                                               n ? perm[0] : -1, n ? perm2[0] : -1, mode, how, alt); };
                                    auto all = [&](Arr &a, const std::vector<Shape> &s, const std::vector<int> &tag, const char *w)
                                    {
                                        if (a.Size() != (index)s.size())
                                            return fail("size", -1), false;
                                        for (size_t i = 0; i < s.size(); i++)
                                            if (!Ad::ok(a, i, s[i], tag[i]))
                                                return fail(w, (int)i), false;
                                        return true;
                                    };
                                    Arr a;
                                    if (alt == 2)
                                        Ad::size(a, n + 1, sh); // was larger before
                                    Ad::size(a, n, sh);
                                    std::vector<int> tag(n, 0);
                                    int t = 1;
                                    auto shc = sh;
                                    if (alt > 0)
                                        Ad::sizeRow(a, perm[0], caps.alphabet[alt - 1]);
                                    if (mode == 0) // sizing and writing interleaved
                                        for (int i : perm)
                                            Ad::sizeRow(a, i, sh[i]), Ad::write(a, i, sh[i], tag[i] = t++, how);
                                    else
                                    {
                                        for (int i : perm)
                                            Ad::sizeRow(a, i, sh[i]);
                                        if (mode == 2)
                                            a.Compress();
                                        for (int i : perm2)
                                            Ad::write(a, i, sh[i], tag[i] = t++, how);
                                    }
                                    ctx.nTrans += 2 * n + 2;
                                    ctx.nTraces++;
                                    if (!all(a, sh, tag, "read back"))
                                        return;
                                    if (n == 0)
                                        continue;
                                    // overwrite one row
                                    int k = perm[0];
                                    Ad::write(a, k, sh[k], tag[k] = t++, (how + 1) % Ad::nHow);
                                    if (!all(a, sh, tag, "after overwrite"))
                                        return;
                                    // copies are independent, both ways
                                    Arr b(a);
                                    auto tagb = tag;
                                    if (alt > 0)
                                    {
                                        b.Decompress();
                                        shc[k] = caps.alphabet[alt - 1];
                                        Ad::sizeRow(b, k, shc[k]);
                                    }
                                    Ad::write(b, k, shc[k], tagb[k] = t++, how);
                                    if (!all(a, sh, tag, "original after change of the copy") || !all(b, shc, tagb, "copy after its change"))
                                        return;
                                    if (alt > 0)
                                        a.Decompress(), Ad::sizeRow(a, k, caps.alphabet[0]), sh[k] = caps.alphabet[0];
                                    Ad::write(a, k, sh[k], tag[k] = t++, how);
                                    bool okk = all(b, shc, tagb, "copy after change of the original") && all(a, sh, tag, "original after its change");
                                    if (okk)
                                    {
                                        if constexpr (Ad::L == CSR)
                                        {
                                            a.Compress();
                                            okk = all(a, sh, tag, "compressed");
                                            a.Decompress();
                                        }
                                    }
                                    sh[k] = caps.uniform ? sh[k] : [&]
                                    { size_t z = q; for (int i = 0; i < k; i++) z /= A; return caps.alphabet[z % A]; }();
                                    if (!okk)
                                        return;
                                }
                    while (std::next_permutation(perm2.begin(), perm2.end()));
                } while (std::next_permutation(perm.begin(), perm.end()));
                vh::Hash h;
                h.add(std::string(name)).add(d);
                ctx.state(h.h);
            }
        }
    }

    // ---------------- ghost copies
    template <class Ad>
    static void ghosts(vh::Ctx &ctx, const char *name)
    {
        auto caps = Ad::caps();
        using Arr = typename Ad::Arr;
        size_t A = caps.alphabet.size();
        for (int s0 = 0; s0 <= 2; s0++)
            for (int s1 = 0; s1 <= 2 && s0 + s1 <= 3; s1++)
            {
                int tot = s0 + s1;
                size_t nsh = 1;
                for (int i = 0; i < tot; i++)
                    nsh *= caps.uniform ? 1 : std::min<size_t>(A, 3);
                if (caps.uniform)
                    nsh = A;
                for (size_t q = 0; q < nsh; q++)
                    for (int m0 = 0; m0 < (1 << tot); m0++)
                        for (int m1 = 0; m1 < (1 << tot); m1++)
                        {
                            std::vector<Shape> sh(tot);
                            size_t qq = q;
                            for (int i = 0; i < tot; i++)
                            {
                                sh[i] = caps.alphabet[qq % (caps.uniform ? A : std::min<size_t>(A, 3))];
                                if (!caps.uniform)
                                    qq /= std::min<size_t>(A, 3);
                            }
                            if (!ctx.take("ghosts of %s sizes %d,%d shapes #%zu requests %x,%x", name, s0, s1, q, m0, m1))
                                continue;
                            sim::Config cfg;
                            cfg.eager = q % 2, cfg.late = !(q % 2);
                            auto st = sim::run(2, cfg, nullptr, [&](int)
                                               {
                                MPIInfo mpi;
                                mpi.setWorld();
                                ArrayPair<Arr> P;
                                P.father = std::make_shared<Arr>(mpi);
                                P.son = std::make_shared<Arr>(mpi);
                                int n = mpi.rank ? s1 : s0, off = mpi.rank ? s0 : 0, mask = mpi.rank ? m1 : m0;
                                std::vector<Shape> mine(sh.begin() + off, sh.begin() + off + n);
                                std::vector<Shape> shU = caps.uniform ? std::vector<Shape>(1, caps.alphabet[q % A]) : std::vector<Shape>();
                                Ad::size(*P.father, n, shU);
                                for (int i = 0; i < n; i++)
                                    Ad::sizeRow(*P.father, i, mine[i]), Ad::write(*P.father, i, mine[i], off + i + 1, 0);
                                std::vector<index> pull;
                                for (int i = 0; i < tot; i++)
                                    if (mask >> i & 1)
                                        pull.push_back(i);
                                Ad::size(*P.son, 0, shU); // dimensions common to all rows are known to the ghost side
                                P.father->Compress();
                                P.TransAttach();
                                P.trans.createFatherGlobalMapping();
                                auto pl = pull;
                                P.trans.createGhostMapping(pl);
                                P.trans.createMPITypes();
                                P.trans.pullOnce();
                                if (P.Size() != (index)(n + pull.size()))
                                    return ctx.fail("size", "rank %d pair size %ld", mpi.rank, (long)P.Size());
                                for (int i = 0; i < n; i++)
                                    if (!Ad::ok(P, i, mine[i], off + i + 1))
                                        ctx.fail("main", "rank %d main row %d", mpi.rank, i);
                                for (size_t k = 0; k < pull.size(); k++)
                                    if (!Ad::ok(P, n + k, sh[pull[k]], (int)pull[k] + 1) || !Ad::ok(*P.son, k, sh[pull[k]], (int)pull[k] + 1))
                                        ctx.fail("ghost", "rank %d ghost row %zu of global %ld is not what its owner wrote", mpi.rank, k, (long)pull[k]); });
                            addStats(ctx, st);
                            ctx.nTraces++;
                            vh::Hash h;
                            h.add(std::string(name)).add(s0).add(s1).add(q).add(m0).add(m1);
                            ctx.state(h.h);
                        }
            }
    }

    static void body(vh::Ctx &ctx)
    {
        simAttach(ctx);
        int n = 3, nb = ctx.thorough ? 3 : 2, na = ctx.thorough ? 4 : 3;
        constexpr rowsize D = DynamicSize, N = NonUniformSize;
        local<AdjA<2, 2>>(ctx, "Adjacency<2>", na);
        local<AdjA<D, D>>(ctx, "Adjacency<Dyn>", na);
        local<AdjA<N, D>>(ctx, "Adjacency<Non,Dyn>", n);
        local<AdjA<N, 2>>(ctx, "Adjacency<Non,2>", n);
        local<AdjA<N, N>>(ctx, "Adjacency<Non>", n);
        local<IdxA>(ctx, "Index", na);
        local<VecA<2, 2>>(ctx, "Vector<2>", na);
        local<VecA<D, D>>(ctx, "Vector<Dyn>", na);
        local<VecA<N, D>>(ctx, "Vector<Non,Dyn>", n);
        local<VecA<N, 2>>(ctx, "Vector<Non,2>", n);
        local<VecA<N, N>>(ctx, "Vector<Non>", n);
        local<MatA<2, 2>>(ctx, "Matrix<2,2>", na);
        local<MatA<3, 1>>(ctx, "Matrix<3,1>", na);
        local<MatA<2, D>>(ctx, "Matrix<2,Dyn>", na);
        local<MatA<D, 2>>(ctx, "Matrix<Dyn,2>", na);
        local<MatA<D, D>>(ctx, "Matrix<Dyn,Dyn>", na);
        local<MatA<N, N>>(ctx, "Matrix<Non,Non>", nb);
        local<MatA<N, 2>>(ctx, "Matrix<Non,2>", n);
        local<MatA<2, N>>(ctx, "Matrix<2,Non>", n);
        local<MatA<D, N>>(ctx, "Matrix<Dyn,Non>", n);
        local<MatA<N, N, D, D>>(ctx, "Matrix<Non,Non,Dyn,Dyn>", nb);
        local<MatA<N, N, 3, 2>>(ctx, "Matrix<Non,Non,3,2>", nb);
        local<BatA>(ctx, "MatrixBatch", n);
        local<UniA<2, 1, 2, 1>>(ctx, "UniBatch<2,1>", n);
        local<UniA<Eigen::Dynamic, Eigen::Dynamic, 2, 3>>(ctx, "UniBatch<Dyn,Dyn>", n);
        local<UniA<Eigen::Dynamic, 1, 3, 1>>(ctx, "UniBatch<Dyn,1>", n);
        local<UniA<2, Eigen::Dynamic, 2, 2>>(ctx, "UniBatch<2,Dyn>", n);

        ghosts<AdjA<2, 2>>(ctx, "Adjacency<2>");
        ghosts<AdjA<D, D>>(ctx, "Adjacency<Dyn>");
        ghosts<AdjA<N, N>>(ctx, "Adjacency<Non>");
        ghosts<AdjA<N, 2>>(ctx, "Adjacency<Non,2>");
        ghosts<IdxA>(ctx, "Index");
        ghosts<VecA<2, 2>>(ctx, "Vector<2>");
        ghosts<VecA<N, N>>(ctx, "Vector<Non>");
        ghosts<VecA<N, D>>(ctx, "Vector<Non,Dyn>");
        ghosts<MatA<2, 2>>(ctx, "Matrix<2,2>");
        ghosts<MatA<D, 2>>(ctx, "Matrix<Dyn,2>");
        ghosts<MatA<D, D>>(ctx, "Matrix<Dyn,Dyn>");
        ghosts<MatA<2, D>>(ctx, "Matrix<2,Dyn>");
        ghosts<BatA>(ctx, "MatrixBatch");
        ghosts<UniA<2, 1, 2, 1>>(ctx, "UniBatch<2,1>");
        ghosts<UniA<Eigen::Dynamic, Eigen::Dynamic, 2, 3>>(ctx, "UniBatch<Dyn,Dyn>");
    }
}
int main(int argc, char **argv)
{
    return vh::run(argc, argv, [&](vh::Ctx &ctx)
                   { DNDS::vf::body(ctx); });
}
