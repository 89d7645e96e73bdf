// C20: reordering routines on every small graph.
#include "DNDS/MPI.hpp"
#include "Geom/SerialAdjReordering.hpp"
#include "vh.hpp"
namespace DNDS::vf
{
    using Struct = std::vector<std::vector<index>>;
#define BAD(key, ...)               \
    do                              \
    {                               \
        ctx.fail(key, __VA_ARGS__); \
        return false;               \
    } while (0)
    std::string str(const Struct &g)
    {
        std::string s;
        for (auto &r : g)
        {
            s += "[";
            for (auto v : r)
                s += std::to_string(v) + (v == r.back() ? "" : ",");
            s += "]";
        }
        return s;
    }
    bool checkPerm(vh::Ctx &ctx, const char *name, const Struct &g, const std::pair<std::vector<index>, std::vector<index>> &r)
    {
        ctx.nTrans++;
        index n = g.size();
        auto &[n2o, o2n] = r;
        if ((index)n2o.size() != n || (index)o2n.size() != n)
            BAD(name, "%s returns %d/%d entries", name, int(n2o.size()), int(o2n.size()));
        std::vector<int> seen(n, 0);
        for (index i = 0; i < n; i++)
        {
            if (n2o[i] < 0 || n2o[i] >= n || seen[n2o[i]]++)
                BAD(name, "%s: new-to-old is not a permutation", name);
            if (o2n[n2o[i]] != i)
                BAD(name, "%s: old-to-new is not the inverse of new-to-old", name);
        }
        vh::Hash h;
        h.addv(n2o);
        ctx.state(h.h);
        return true;
    }
    index bw(const Struct &g, const std::vector<index> *o2n)
    {
        index b = 0;
        for (index i = 0; i < (index)g.size(); i++)
            for (auto j : g[i])
                b = std::max(b, std::abs((o2n ? (*o2n)[i] : i) - (o2n ? (*o2n)[j] : j)));
        return b;
    }
    std::vector<index> dist(const Struct &g, index root)
    {
        std::vector<index> d(g.size(), -1);
        std::vector<index> q{root};
        d[root] = 0;
        for (size_t k = 0; k < q.size(); k++)
            for (auto j : g[q[k]])
                if (d[j] < 0)
                    d[j] = d[q[k]] + 1, q.push_back(j);
        return d;
    }
    bool graph(vh::Ctx &ctx, const Struct &g, bool metis)
    {
        index n = g.size();
        auto g0 = g;
        index bo = -7, bn = -7;
        auto r = Geom::ReorderSerialAdj_CorrectRCM(g, bo, bn);
        if (!checkPerm(ctx, "CorrectRCM", g, r))
            return false;
        if (bo != bw(g, nullptr) || bn != bw(g, &r.second))
            BAD("bandwidth", "CorrectRCM reports bandwidths %d -> %d, actual %d -> %d", int(bo), int(bn), int(bw(g, nullptr)), int(bw(g, &r.second)));
        auto fun = [&](index i) -> const std::vector<index> &
        { return g.at(i); };
        CorrectRCM::UndirectedGraphProxy<decltype(fun)> G(fun, n);
        bool connected = n > 0;
        if (n)
            for (auto d : dist(g, 0))
                connected = connected && d >= 0;
        for (index root = 0; root < n; root++)
        {
            // breadth first search: every reachable vertex once, layer by layer
            std::vector<std::pair<index, index>> vis;
            auto lay = G.BreadthFirstSearch([&](index i, index l)
                                            { vis.push_back({i, l}); }, root);
            auto d = dist(g, root);
            ctx.nTrans++;
            std::vector<int> cnt(n, 0);
            index last = 0;
            for (auto &[i, l] : vis)
            {
                if (l != d.at(i) || l < last || cnt[i]++)
                    BAD("bfs", "breadth first search from %d visits %d at layer %d", int(root), int(i), int(l));
                last = l;
            }
            for (index i = 0; i < n; i++)
                if ((cnt[i] == 1) != (d[i] >= 0) || lay.at(i) != d[i])
                    BAD("bfs", "breadth first search from %d: layer of %d is %d, distance %d", int(root), int(i), int(lay.at(i)), int(d[i]));
            // ordering from this root
            std::vector<index> num(n, 0);
            index rt = root;
            CorrectRCM::CuthillMcKeeOrdering(G, [&](index i) -> index &
                                             { return num.at(i); }, rt);
            ctx.nTrans++;
            std::vector<index> at(n, -1);
            for (index i = 0; i < n; i++)
            {
                if (num[i] < 0 || num[i] >= n || at[num[i]] >= 0)
                    BAD("cm", "Cuthill-McKee from root %d does not number every vertex once", int(root));
                at[num[i]] = i;
            }
            // pieces are contiguous, and inside a piece numbers follow breadth first layers of its first vertex
            index k = 0;
            while (k < n)
            {
                auto dd = dist(g, at[k]);
                index sz = 0, l = 0;
                for (auto v : dd)
                    sz += v >= 0;
                for (index m = k; m < k + sz; m++)
                {
                    if (m >= n || dd[at[m]] < l)
                        BAD("cm", "Cuthill-McKee from root %d is not layered", int(root));
                    l = dd[at[m]];
                }
                k += sz;
            }
        }
        if (n > 0)
        {
            auto rm = Geom::ReorderSerialAdj_BoostMMD(g);
            if (!checkPerm(ctx, "BoostMMD", g, rm))
                return false;
            // minimum degree on a forest eliminates leaves first: no fill-in in the order it reports
            index edges = 0, pieces = 0;
            std::vector<int> seen(n, 0);
            for (index i = 0; i < n; i++)
            {
                edges += g[i].size();
                if (!seen[i])
                {
                    pieces++;
                    auto d = dist(g, i);
                    for (index j = 0; j < n; j++)
                        seen[j] |= d[j] >= 0;
                }
            }
            if (edges / 2 == n - pieces)
            {
                std::vector<std::set<index>> h(n);
                for (index i = 0; i < n; i++)
                    h[i].insert(g[i].begin(), g[i].end());
                for (index k = 0; k < n; k++)
                {
                    index v = rm.first[k];
                    if (h[v].size() > 1)
                        BAD("mmd", "minimum degree ordering eliminates vertex %d of a forest with %d uneliminated neighbours", int(v), int(h[v].size()));
                    for (auto w : h[v])
                        h[w].erase(v);
                }
            }
            if (metis && !checkPerm(ctx, "Metis", g, Geom::ReorderSerialAdj_Metis(g)))
                return false;
            if (connected)
            {
                bo = bn = -7;
                auto rb = Geom::ReorderSerialAdj_BoostRCM(g, bo, bn);
                if (!checkPerm(ctx, "BoostRCM", g, rb))
                    return false;
                if (bo != bw(g, nullptr) || bn != bw(g, &rb.second))
                    BAD("bandwidth", "BoostRCM reports bandwidths %d -> %d", int(bo), int(bn));
            }
        }
        if (g != g0)
            BAD("input", "the graph was modified");
        ctx.nTraces++;
        return true;
    }
    void body(vh::Ctx &ctx)
    {
        auto mk = [](int n, uint64_t mask, int rot)
        {
            Struct g(n);
            int k = 0;
            for (int i = 0; i < n; i++)
                for (int j = i + 1; j < n; j++, k++)
                    if (mask >> k & 1)
                        g[i].push_back(j), g[j].push_back(i);
            for (int i = 0; i < n; i++)
            {
                if (rot == 0)
                    std::sort(g[i].begin(), g[i].end());
                if (rot == 1)
                    std::sort(g[i].rbegin(), g[i].rend());
                if (rot == 2 && g[i].size() > 1)
                    std::rotate(g[i].begin(), g[i].begin() + 1 + i % (g[i].size() - 1), g[i].end());
            }
            return g;
        };
        int nmax = ctx.thorough ? 7 : 6;
        for (int n = 0; n <= nmax; n++)
        {
            uint64_t tot = 1ull << (n * (n - 1) / 2), blk = n >= 6 ? 256 : 1;
            for (uint64_t m0 = 0; m0 < tot; m0 += blk)
                if (ctx.take("all graphs on %d vertices, codes %llu..%llu", n, (unsigned long long)m0, (unsigned long long)(m0 + blk - 1)))
                    for (uint64_t m = m0; m < m0 + blk && m < tot; m++)
                    {
                        bool ok = true;
                        for (int rot = 0; rot < (n <= 5 ? 3 : 1) && ok; rot++)
                        {
                            auto g = mk(n, m, n <= 5 ? rot : int(m % 3));
                            ctx.note("graph " + str(g));
                            ok = graph(ctx, g, n <= 5 || m % 16 == 0 || ctx.thorough);
                        }
                        ctx.beat();
                        if (!ok)
                            break;
                    }
        }
        // structured larger graphs with every pair of vertices swapped in the numbering
        for (int kind = 0; kind < 5; kind++)
            for (int n : {9, 12, 30})
                for (int sw = 0; sw < n; sw++)
                    if (ctx.take("structured graph %d on %d vertices, numbering %d", kind, n, sw))
                    {
                        Struct g(n);
                        std::vector<int> p(n);
                        for (int i = 0; i < n; i++)
                            p[i] = (i * (n == 30 ? 7 : 5) + sw) % n;
                        auto link = [&](int a, int b)
                        { g[p[a]].push_back(p[b]), g[p[b]].push_back(p[a]); };
                        for (int i = 0; i < n; i++)
                        {
                            if (kind == 0 && i + 1 < n)
                                link(i, i + 1);
                            if (kind == 1 && i < n - 1 && i % 3 != 2)
                                link(i, i + 1); // disconnected paths of three
                            if (kind == 2)
                            {
                                if (i % 3 < 2)
                                    link(i, i + 1);
                                if (i + 3 < n)
                                    link(i, i + 3);
                            }
                            if (kind == 3 && i > 0 && i < n / 2)
                                link(0, i); // star and isolated vertices
                            if (kind == 4 && i > 0)
                                link(i, (i - 1) / 2); // tree
                        }
                        graph(ctx, g, true);
                    }
        // malformed adjacency is rejected, well-formed accepted: every list of up to 3 entries per vertex, 3 vertices
        {
            std::vector<std::vector<index>> rows;
            for (int l = 0; l <= 3; l++)
            {
                int tot = 1;
                for (int k = 0; k < l; k++)
                    tot *= 3;
                for (int c = 0; c < tot; c++)
                {
                    std::vector<index> r;
                    int cc = c;
                    for (int k = 0; k < l; k++)
                        r.push_back(cc % 3), cc /= 3;
                    rows.push_back(r);
                }
            }
            for (size_t a = 0; a < rows.size(); a++)
                if (ctx.take("adjacency validation, first row %d", int(a)))
                    for (auto &b : rows)
                        for (auto &c : rows)
                        {
                            Struct g{rows[a], b, c};
                            bool good = true;
                            for (int i = 0; i < 3; i++)
                                for (int j = 0; j < 3; j++)
                                    if (i != j)
                                    {
                                        auto x = std::count(g[i].begin(), g[i].end(), j), y = std::count(g[j].begin(), g[j].end(), i);
                                        good = good && x <= 1 && x == y;
                                    }
                            auto fun = [&](index i) -> const std::vector<index> &
                            { return g.at(i); };
                            CorrectRCM::UndirectedGraphProxy<decltype(fun)> G(fun, 3);
                            bool thrown = false;
                            try
                            {
                                G.CheckAdj();
                            }
                            catch (const std::exception &)
                            {
                                thrown = true;
                            }
                            ctx.nTrans++;
                            if (thrown == good)
                            {
                                ctx.fail("checkadj", "adjacency %s is %s", str(g).c_str(), thrown ? "rejected" : "accepted");
                                break;
                            }
                        }
        }
    }
}
int main(int argc, char **argv)
{
    return vh::run(argc, argv, [&](vh::Ctx &ctx)
                   { DNDS::vf::body(ctx); });
}
