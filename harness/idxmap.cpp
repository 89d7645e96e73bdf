// C03: global offsets mapping and ghost index mapping, all size vectors and request sets, simulated MPI world
#include "vh.hpp"
#include "simctx.hpp"
#include "DNDS/IndexMapping.hpp"
#include "DNDS/ArrayTransformer.hpp"

namespace DNDS::vf
{
    using LI = std::vector<index>;
    struct Case
    {
        LI sizes;
        std::vector<LI> req; // per rank, as passed
    };
    static void checkGlobal(vh::Ctx &ctx, GlobalOffsetsMapping &g, const LI &sizes, int me)
    {
        int n = (int)sizes.size();
        LI off(n + 1, 0);
        for (int r = 0; r < n; r++)
            off[r + 1] = off[r] + sizes[r];
        if (g.globalSize() != off[n])
            ctx.fail("globalSize", "rank %d: %ld expected %ld", me, (long)g.globalSize(), (long)off[n]);
        if (g.RLengths() != sizes || g.ROffsets() != off)
            ctx.fail("offsets", "rank %d: length/offset tables differ from the sizes", me);
        LI q;
        for (int r = 0; r <= n; r++)
            for (int d = -2; d <= 2; d++)
                q.push_back(off[r] + d);
        for (index v = -1; v < std::min<index>(off[n], 12) + 2; v++)
            q.push_back(v);
        for (index v : q)
        {
            int er = -1;
            for (int r = 0; r < n; r++)
                if (v >= off[r] && v < off[r + 1])
                    er = r;
            MPI_int rk = -77;
            index lv = -77;
            bool f = g.search(v, rk, lv);
            auto [f2, rk2, lv2] = g.search(v);
            if (f != (er >= 0) || f2 != f)
                ctx.fail("search", "rank %d: search(%ld) found=%d,%d expected %d", me, (long)v, f, f2, er >= 0);
            else if (f && (rk != er || lv != v - off[er] || rk2 != rk || lv2 != lv))
                ctx.fail("search", "rank %d: search(%ld) = (%d,%ld) expected (%d,%ld)", me, (long)v, rk, (long)lv, er, (long)(v - off[er]));
            else if (f && g(rk, lv) != v)
                ctx.fail("inverse", "rank %d: operator()(%d,%ld) != %ld", me, rk, (long)lv, (long)v);
        }
        for (int r = 0; r < n; r++)
            if (g(r, 0) != off[r] || g(r, sizes[r]) != off[r + 1])
                ctx.fail("range", "rank %d: range of rank %d", me, r);
    }
    static void checkGhost(vh::Ctx &ctx, OffsetAscendIndexMapping &m, const Case &c, int me, const char *w)
    {
        int n = (int)c.sizes.size();
        LI off(n + 1, 0);
        for (int r = 0; r < n; r++)
            off[r + 1] = off[r] + c.sizes[r];
        auto owner = [&](index v)
        { int o = 0; while (v >= off[o + 1]) o++; return o; };
        std::vector<std::set<index>> S(n);
        for (int r = 0; r < n; r++)
            S[r] = std::set<index>(c.req[r].begin(), c.req[r].end());
        LI gi(S[me].begin(), S[me].end());
        if (m.ghostIndex != gi)
            return ctx.fail("ghostIndex", "%s rank %d: ghost list is not the sorted set of requests (%zu entries, expected %zu)", w, me, m.ghostIndex.size(), gi.size());
        std::vector<int> gs(n, 0), gst(n + 1, 0);
        for (index v : gi)
            gs[owner(v)]++;
        for (int r = 0; r < n; r++)
            gst[r + 1] = gst[r] + gs[r];
        if (m.ghostSizes != gs || m.ghostStart != gst)
            return ctx.fail("ghostStart", "%s rank %d: ghost sizes/starts", w, me);
        // push lists are the transposed request lists
        std::vector<int> ps(n, 0), pst(n + 1, 0);
        LI pg;
        for (int r = 0; r < n; r++)
        {
            for (index v : S[r])
                if (v >= off[me] && v < off[me + 1])
                    pg.push_back(v), ps[r]++;
            pst[r + 1] = pst[r] + ps[r];
        }
        if (m.pushIndexSizes != ps || m.pushIndexStarts != pst || m.pushingIndexGlobal != pg)
            return ctx.fail("push", "%s rank %d: send lists are not the transposed requests", w, me);
        LI q = gi;
        for (int r = 0; r <= n; r++)
            for (int d = -1; d <= 1; d++)
                q.push_back(off[r] + d);
        for (index v = -1; v < std::min<index>(off[n], 12) + 1; v++)
            q.push_back(v);
        for (index v : q)
        {
            bool inMain = v >= off[me] && v < off[me + 1];
            auto it = std::lower_bound(gi.begin(), gi.end(), v);
            bool inG = it != gi.end() && *it == v;
            index pos = it - gi.begin();
            int o = inG ? owner(v) : -1;
            index a = -7, b = -7, e = -7, f = -7, g = -7, h = -7;
            MPI_int rb = -7, re = -7, rf = -7, rg = -7;
            bool fa = m.searchInMain(v, a), fb = m.searchInAllGhost(v, rb, b), fe = m.search(v, re, e),
                 ff = m.search_indexAppend(v, rf, f), fg = m.search_indexRank(v, rg, g);
            bool good = fa == inMain && (!inMain || a == v - off[me]) && fb == inG && (!inG || (rb == o && b == pos)) &&
                        fe == (inMain || inG) && ff == fe && fg == fe;
            if (good && inMain)
                good = re == -1 && rf == -1 && rg == -1 && e == a && f == a && g == a;
            else if (good && inG)
                good = re == o && rf == o && rg == o && e == pos && f == pos + c.sizes[me] && g == pos - gst[o];
            for (int r = 0; r < n && good; r++)
            {
                h = -7;
                bool fh = m.searchInGhost(v, r, h);
                good = fh == (inG && o == r) && (!fh || h == pos - gst[r]);
            }
            if (good)
            {
                auto t1 = m.search(v);
                auto t2 = m.search_indexAppend(v);
                auto t3 = m.search_indexRank(v);
                good = std::get<0>(t1) == fe && std::get<0>(t2) == ff && std::get<0>(t3) == fg &&
                       (!fe || (t1 == std::make_tuple(fe, re, e) && t2 == std::make_tuple(ff, rf, f) && t3 == std::make_tuple(fg, rg, g)));
            }
            if (!good)
                return ctx.fail("lookup", "%s rank %d: a lookup of global index %ld disagrees with the ghost list", w, me, (long)v);
            if (fe)
            {
                if (m(-1, f) != v)
                    return ctx.fail("inverse", "%s rank %d: local %ld -> %ld, expected %ld", w, me, (long)f, (long)m(-1, f), (long)v);
                if (rg >= 0 && (m(rg, g) != v || m.ghostAt(rg, g) != v))
                    return ctx.fail("inverse", "%s rank %d: (rank %d, %ld)", w, me, rg, (long)g);
            }
        }
        for (size_t k = 0; k < gi.size(); k++) // the appended numbering is total
            if (m(-1, c.sizes[me] + (index)k) != gi[k])
                return ctx.fail("append", "%s rank %d: appended index %zu", w, me, k);
    }
    static void runCase(vh::Ctx &ctx, const Case &c, bool viaTrans)
    {
        int n = (int)c.sizes.size();
        LI off(n + 1, 0);
        for (int r = 0; r < n; r++)
            off[r + 1] = off[r] + c.sizes[r];
        for (int k = 0; k < 2; k++)
        {
            sim::Config cfg;
            cfg.eager = k, cfg.late = !k, cfg.base = k, cfg.bcastSync = !k;
            auto st = sim::run(n, cfg, nullptr, [&](int me)
                               {
                MPIInfo mpi;
                mpi.setWorld();
                GlobalOffsetsMapping g;
                g.setMPIAlignBcast(mpi, c.sizes[me]);
                checkGlobal(ctx, g, c.sizes, me);
                LI req = c.req[me];
                OffsetAscendIndexMapping m(off[me], c.sizes[me], req, g, mpi);
                checkGhost(ctx, m, c, me, "from requests");
                // the same map from the equivalent send lists
                LI pl;
                std::vector<index> pst(n + 1, 0);
                for (int r = 0; r < n; r++)
                {
                    std::set<index> S(c.req[r].begin(), c.req[r].end());
                    for (index v : S)
                        if (v >= off[me] && v < off[me + 1])
                            pl.push_back(v - off[me]);
                    pst[r + 1] = (index)pl.size();
                }
                OffsetAscendIndexMapping m2(off[me], c.sizes[me], pl, pst, g, mpi);
                checkGhost(ctx, m2, c, me, "from send lists");
                if (viaTrans)
                { // the route users take
                    ArrayTransformer<real, 1> t;
                    auto f = std::make_shared<ParArray<real, 1>>(mpi);
                    auto s = std::make_shared<ParArray<real, 1>>(mpi);
                    f->Resize(c.sizes[me]);
                    t.setFatherSon(f, s);
                    t.createFatherGlobalMapping();
                    LI r2 = c.req[me];
                    t.createGhostMapping(r2);
                    checkGlobal(ctx, *t.pLGlobalMapping, c.sizes, me);
                    checkGhost(ctx, *t.pLGhostMapping, c, me, "transformer");
                    LI r3 = pl;
                    ArrayTransformer<real, 1> t3;
                    t3.setFatherSon(f, s);
                    t3.createFatherGlobalMapping();
                    t3.createGhostMapping(r3, pst);
                    checkGhost(ctx, *t3.pLGhostMapping, c, me, "transformer from send lists");
                    ArrayTransformer<real, 2> t4;
                    auto f4 = std::make_shared<ParArray<real, 2>>(mpi);
                    auto s4 = std::make_shared<ParArray<real, 2>>(mpi);
                    f4->Resize(c.sizes[me]);
                    t4.setFatherSon(f4, s4);
                    t4.BorrowGGIndexing(t);
                    checkGhost(ctx, *t4.pLGhostMapping, c, me, "borrowed");
                } });
            addStats(ctx, st);
            ctx.nTraces++;
        }
        vh::Hash h;
        h.addv(c.sizes);
        for (auto &r : c.req)
            h.addv(r);
        ctx.state(h.h);
    }
    static std::string str(const Case &c)
    {
        std::string s = "sizes";
        for (auto i : c.sizes)
            s += " " + std::to_string(i);
        s += " requests";
        for (auto &r : c.req)
        {
            s += " {";
            for (auto v : r)
                s += std::to_string(v) + ",";
            s += "}";
        }
        return s;
    }
    static void allReq(vh::Ctx &ctx, const LI &sizes, const LI &cand, bool trans)
    {
        int n = (int)sizes.size();
        uint64_t per = 1ull << cand.size(), tot = 1;
        for (int r = 0; r < n; r++)
            tot *= per;
        for (uint64_t k = 0; k < tot; k++)
        {
            Case c;
            c.sizes = sizes;
            c.req.resize(n);
            uint64_t kk = k;
            for (int r = 0; r < n; r++, kk /= per)
            {
                uint64_t mask = kk % per;
                for (size_t i = 0; i < cand.size(); i++)
                    if (mask >> i & 1)
                        c.req[r].push_back(cand[i]);
                if ((r + k) % 2) // unordered with repetitions
                {
                    std::reverse(c.req[r].begin(), c.req[r].end());
                    if (!c.req[r].empty())
                        c.req[r].push_back(c.req[r].front()), c.req[r].push_back(c.req[r][c.req[r].size() / 2]);
                }
            }
            if (!ctx.take("%s", str(c).c_str()))
                continue;
            runCase(ctx, c, trans);
        }
    }
    static void body(vh::Ctx &ctx)
    {
        simAttach(ctx);
        auto sizesLoop = [&](int n, int maxPer, int maxTot, auto &&f)
        {
            LI s(n, 0);
            std::function<void(int, int)> rec = [&](int r, int tot)
            {
                if (r == n)
                    return f(s, tot);
                for (int v = 0; v <= maxPer && tot + v <= maxTot; v++)
                    s[r] = v, rec(r + 1, tot + v);
            };
            rec(0, 0);
        };
        auto go = [&](int n, int maxPer, int maxTot)
        {
            sizesLoop(n, maxPer, maxTot, [&](const LI &s, int tot)
                      {
                LI cand;
                for (int i = 0; i < tot; i++)
                    cand.push_back(i);
                allReq(ctx, s, cand, true); });
        };
        go(1, 4, 4);
        go(2, 4, ctx.thorough ? 6 : 5);
        go(3, 3, ctx.thorough ? 5 : 4);
        go(4, 2, ctx.thorough ? 4 : 3);
        // numbering beyond 32 bits (no array of that size needs to exist)
        const index big = 3000000001;
        std::vector<LI> bs = {{big}, {2, big}, {big, 2}, {big, 0, big}, {0, big, 1}, {big, big}, {1, big, 2}};
        for (auto &s : bs)
        {
            LI cand;
            index o = 0;
            for (auto v : s)
            {
                if (v > 0)
                    cand.push_back(o);
                if (v > 1)
                    cand.push_back(o + v - 1);
                if (v > 5 && s.size() < 3)
                    cand.push_back(o + v / 2);
                o += v;
            }
            allReq(ctx, s, cand, false);
        }
        // many ranks, mostly empty
        for (int n : {5, 6, 7})
            for (int mask = 0; mask < (1 << n); mask++)
            {
                Case c;
                c.sizes.assign(n, 0);
                int tot = 0;
                for (int r = 0; r < n; r++)
                    if (mask >> r & 1)
                        c.sizes[r] = 1 + r % 2, tot += 1 + r % 2;
                for (int pat = 0; pat < 3; pat++)
                {
                    c.req.assign(n, {});
                    for (int r = 0; r < n; r++)
                        for (int v = tot - 1; v >= 0; v--)
                            if (pat == 0 || (pat == 1 && (v + r) % 3 == 0) || (pat == 2 && r == n - 1))
                                c.req[r].push_back(v);
                    if (!ctx.take("%s", str(c).c_str()))
                        continue;
                    runCase(ctx, c, true);
                }
            }
    }
}
int main(int argc, char **argv)
{
    return vh::run(argc, argv, [&](vh::Ctx &ctx)
                   { DNDS::vf::body(ctx); });
}
