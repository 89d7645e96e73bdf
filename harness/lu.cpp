// C19: symbolic and numeric block factorization on every small symmetric pattern and every ordering.
#include "Euler/EulerJacobian.hpp"
#include "simctx.hpp"
#include <numeric>
namespace DNDS::vf
{
    using Eigen::MatrixXd;
    using Eigen::VectorXd;
    using IV = std::vector<int>;
    using Struct = std::vector<std::vector<index>>;
    MPIInfo gmpi;

#define BAD(key, ...)               \
    do                              \
    {                               \
        ctx.fail(key, __VA_ARGS__); \
        return false;               \
    } while (0)

    // deterministic block values
    double val(int seed, int i, int j, int a, int b)
    {
        uint64_t h = vh::Hash().add(seed).add(i).add(j).add(a).add(b).h;
        return double((h >> 20) % 2001) / 1000. - 1.;
    }
    // assembled matrix, block size m, pattern adj
    MatrixXd assemble(int n, int m, const std::vector<std::set<int>> &adj, int seed, bool sym)
    {
        MatrixXd A = MatrixXd::Zero(n * m, n * m);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++)
                if (adj[i].count(j) || i == j)
                    for (int a = 0; a < m; a++)
                        for (int b = 0; b < m; b++)
                            A(i * m + a, j * m + b) = val(seed, i, j, a, b);
        if (sym)
            A = (A + A.transpose()).eval() / 2;
        for (int r = 0; r < n * m; r++)
        {
            double s = 0;
            for (int c = 0; c < n * m; c++)
                if (c != r)
                    s += std::max(std::abs(A(r, c)), std::abs(A(c, r)));
            A(r, r) = (s + .5) * ((!sym && (seed + r) % 3 == 0) ? -1 : 1);
            if (sym && seed % 2)
                A(r, r) *= -1;
        }
        return A;
    }

    struct Pat
    {
        int n;
        std::vector<std::set<int>> adj;
        Struct list; // as handed over (rows rotated so that they are not sorted)
    };
    Pat pattern(int n, uint64_t mask)
    {
        Pat p{n, std::vector<std::set<int>>(n), Struct(n)};
        int k = 0;
        for (int i = 0; i < n; i++)
            for (int j = i + 1; j < n; j++, k++)
                if (mask >> k & 1)
                    p.adj[i].insert(j), p.adj[j].insert(i);
        for (int i = 0; i < n; i++)
        {
            p.list[i].assign(p.adj[i].begin(), p.adj[i].end());
            if (p.list[i].size() > 1)
                std::rotate(p.list[i].begin(), p.list[i].begin() + (i + mask) % p.list[i].size(), p.list[i].end());
        }
        return p;
    }

    // expected strictly lower pattern in the new numbering
    std::vector<std::set<int>> expectFill(const Pat &p, const IV &o2n, int ilu)
    {
        int n = p.n;
        std::vector<std::vector<int>> dist(n, std::vector<int>(n, 1000)); // in new numbering
        for (int i = 0; i < n; i++)
        {
            dist[o2n[i]][o2n[i]] = 0;
            for (int j : p.adj[i])
                dist[o2n[i]][o2n[j]] = 1;
        }
        for (int k = 0; k < n; k++)
            for (int i = 0; i < n; i++)
                for (int j = 0; j < n; j++)
                    dist[i][j] = std::min(dist[i][j], dist[i][k] + dist[k][j]);
        std::vector<std::set<int>> g(n);
        for (int i = 0; i < n; i++)
            for (int j : p.adj[i])
                g[o2n[i]].insert(o2n[j]);
        for (int k = 0; k < n; k++)
            for (int i = k + 1; i < n; i++)
                for (int j = k + 1; j < n; j++)
                    if (i != j && g[k].count(i) && g[k].count(j) && (ilu < 0 || dist[i][j] <= ilu + 1))
                        g[i].insert(j);
        return g;
    }

    ssp<Direct::SerialSymLUStructure> symbolic(const Pat &p, const IV &n2o, bool natural, int ilu)
    {
        auto s = std::make_shared<Direct::SerialSymLUStructure>(gmpi, p.n);
        if (!natural)
        {
            s->localFillOrderingNew2Old.assign(n2o.begin(), n2o.end());
            s->localFillOrderingOld2New.resize(p.n);
            for (int i = 0; i < p.n; i++)
                s->localFillOrderingOld2New[n2o[i]] = i;
        }
        s->ObtainSymmetricSymbolicFactorization(p.list, ilu);
        return s;
    }

    bool checkSymbolic(vh::Ctx &ctx, const Pat &p, const IV &n2o, const IV &o2n, int ilu, Direct::SerialSymLUStructure &s)
    {
        int n = p.n;
        auto g = expectFill(p, o2n, ilu);
        if ((int)s.lowerTriStructure.size() != n || (int)s.upperTriStructure.size() != n || (int)s.lowerTriStructureNew.size() != n || (int)s.upperTriStructureNew.size() != n || (int)s.cell2cellFaceVLocal2FullRowPos.size() != n)
            BAD("symbolic", "structure has wrong size");
        for (int ip = 0; ip < n; ip++)
        {
            std::vector<index> lo, up;
            for (int j : g[ip])
                (j < ip ? lo : up).push_back(j);
            if (s.lowerTriStructureNew[ip] != lo || s.upperTriStructureNew[ip] != up)
                BAD("symbolic", "row %d (new numbering) of the factor pattern is not the fill-in of the elimination, ilu=%d", ip, ilu);
            int i = n2o[ip];
            for (size_t k = 0; k < lo.size(); k++)
            {
                if (s.lowerTriStructure[i].size() != lo.size() || s.lowerTriStructure[i][k] != n2o[lo[k]])
                    BAD("symbolic", "lower row of cell %d does not match the reordered row", i);
                index pos = s.lowerTriStructureNewInUpper[ip][k];
                if (pos < 0 || s.upperTriStructureNew[lo[k]].at(pos) != ip)
                    BAD("symbolic", "transposed position wrong (lower in upper)");
            }
            for (size_t k = 0; k < up.size(); k++)
            {
                if (s.upperTriStructure[i].size() != up.size() || s.upperTriStructure[i][k] != n2o[up[k]])
                    BAD("symbolic", "upper row of cell %d does not match the reordered row", i);
                index pos = s.upperTriStructureNewInLower[ip][k];
                if (pos < 0 || s.lowerTriStructureNew[up[k]].at(pos) != ip)
                    BAD("symbolic", "transposed position wrong (upper in lower)");
            }
            for (size_t k = 0; k < p.list[i].size(); k++)
            {
                index pos = s.cell2cellFaceVLocal2FullRowPos[i][k], j = p.list[i][k];
                index at = -1;
                if (pos >= 1 && pos <= (index)lo.size())
                    at = n2o[lo[pos - 1]];
                else if (pos > (index)lo.size() && pos <= (index)(lo.size() + up.size()))
                    at = n2o[up[pos - 1 - lo.size()]];
                if (at != j)
                    BAD("symbolic", "row position of neighbour %d of cell %d wrong", int(j), i);
            }
        }
        return true;
    }

    template <class V>
    void mkVec(V &v, int n, int m)
    {
        DNDS_MAKE_SSP(v.father, gmpi);
        DNDS_MAKE_SSP(v.son, gmpi);
        v.father->Resize(n, m, 1);
        v.son->Resize(0, m, 1);
    }

    template <int F, bool ldlt>
    bool numeric(vh::Ctx &ctx, const Pat &p, const IV &n2o, const IV &o2n, int ilu, ssp<Direct::SerialSymLUStructure> s, int m, int seed, int nAlg)
    {
        using J = std::conditional_t<ldlt, Euler::JacobianLocalLDLT<F>, Euler::JacobianLocalLU<F>>;
        int n = p.n;
        J jac(s, m);
        Euler::ArrayDOFV<F> x, b, r;
        mkVec(x, n, m), mkVec(b, n, m), mkVec(r, n, m);
        for (int alg = 0; alg < nAlg; alg++) // 0: InPlaceDecompose, 1 (LU): second variant, on the same object after setZero
        {
            MatrixXd A = assemble(n, m, p.adj, seed + alg * 17, ldlt);
            jac.setZero();
            for (int i = 0; i < n; i++)
            {
                jac.GetDiag(i) = A.block(i * m, i * m, m, m);
                for (size_t k = 0; k < s->lowerTriStructure[i].size(); k++)
                    jac.GetLower(i, k) = A.block(i * m, s->lowerTriStructure[i][k] * m, m, m);
                if constexpr (!ldlt)
                    for (size_t k = 0; k < s->upperTriStructure[i].size(); k++)
                        jac.GetUpper(i, k) = A.block(i * m, s->upperTriStructure[i][k] * m, m, m);
            }
            VectorXd xe(n * m);
            for (int i = 0; i < n * m; i++)
                xe[i] = val(99, i, seed, 0, 0);
            for (int i = 0; i < n; i++)
                x[i] = xe.segment(i * m, m), b[i].setConstant(7), r[i].setConstant(-3);
            jac.MatMul(x, b);
            ctx.nTrans++;
            VectorXd be = A * xe;
            for (int i = 0; i < n; i++)
                if ((VectorXd(b[i]) - be.segment(i * m, m)).cwiseAbs().maxCoeff() > 1e-12 * (1 + be.cwiseAbs().maxCoeff()))
                    BAD("matmul", "matrix-vector product differs from the assembled matrix in row %d (ilu=%d, m=%d, ldlt=%d)", i, ilu, m, ldlt);
            if constexpr (!ldlt)
            {
                if (alg == 1)
                    jac.InPlaceDecomposeV2();
                else
                    jac.InPlaceDecompose();
            }
            else
                jac.InPlaceDecompose();
            ctx.nTrans++;
            // factors as dense matrices in the new numbering
            MatrixXd L = MatrixXd::Identity(n * m, n * m), U = MatrixXd::Zero(n * m, n * m);
            std::vector<std::set<int>> pat(n);
            for (int ip = 0; ip < n; ip++)
            {
                int i = n2o[ip];
                MatrixXd Dinv = jac.GetDiag(i);
                U.block(ip * m, ip * m, m, m) = Dinv.inverse();
                pat[ip].insert(ip);
                for (size_t k = 0; k < s->lowerTriStructureNew[ip].size(); k++)
                {
                    int jp = s->lowerTriStructureNew[ip][k];
                    L.block(ip * m, jp * m, m, m) = jac.GetLower(i, k);
                    pat[ip].insert(jp);
                }
                for (size_t k = 0; k < s->upperTriStructureNew[ip].size(); k++)
                {
                    int jp = s->upperTriStructureNew[ip][k];
                    pat[ip].insert(jp);
                    if constexpr (!ldlt)
                        U.block(ip * m, jp * m, m, m) = jac.GetUpper(i, k);
                }
            }
            MatrixXd P = ldlt ? MatrixXd(L * U * L.transpose()) : MatrixXd(L * U);
            double sc = 1 + A.norm();
            for (int ip = 0; ip < n; ip++)
                for (int jp : pat[ip])
                    if ((P.block(ip * m, jp * m, m, m) - A.block(n2o[ip] * m, n2o[jp] * m, m, m)).cwiseAbs().maxCoeff() > 1e-11 * sc)
                        BAD("factor", "factors do not reproduce block (%d,%d) of the matrix (ilu=%d, m=%d, ldlt=%d, alg=%d)", n2o[ip], n2o[jp], ilu, m, ldlt, alg);
            // the solve applies exactly the stored factors; for complete factorization it solves A
            VectorXd rhs(n * m);
            for (int i = 0; i < n * m; i++)
                rhs[i] = val(5, i, seed, 1, alg);
            for (int i = 0; i < n; i++)
                b[i] = rhs.segment(i * m, m), r[i].setConstant(11);
            jac.Solve(b, r);
            ctx.nTrans++;
            MatrixXd Pold(n * m, n * m);
            for (int ip = 0; ip < n; ip++)
                for (int jp = 0; jp < n; jp++)
                    Pold.block(n2o[ip] * m, n2o[jp] * m, m, m) = P.block(ip * m, jp * m, m, m);
            if (n == 0)
                continue;
            VectorXd want = (ilu < 0 ? A : Pold).fullPivLu().solve(rhs);
            vh::Hash h;
            for (int i = 0; i < n; i++)
            {
                if ((VectorXd(r[i]) - want.segment(i * m, m)).cwiseAbs().maxCoeff() > 1e-10 * (1 + want.cwiseAbs().maxCoeff()))
                    BAD("solve", "solution differs in row %d (ilu=%d, m=%d, ldlt=%d, alg=%d)", i, ilu, m, ldlt, alg);
                if ((VectorXd(b[i]) - rhs.segment(i * m, m)).norm() != 0)
                    BAD("solve", "right-hand side was modified");
                h.add(double(r[i](0)));
            }
            ctx.state(h.add(ilu).add(int(ldlt)).h);
            ctx.nTraces++;
        }
        return true;
    }

    void one(vh::Ctx &ctx, int n, uint64_t mask, const std::vector<IV> &perms, bool heavy)
    {
        Pat p = pattern(n, mask);
        for (size_t ip = 0; ip < perms.size(); ip++)
        {
            IV n2o = perms[ip], o2n(n);
            for (int i = 0; i < n; i++)
                o2n[n2o[i]] = i;
            for (int ilu = -1; ilu <= (n > 3 ? 3 : 1); ilu++)
                for (int nat = 0; nat < (ip == 0 ? 2 : 1); nat++)
                {
                    std::string od;
                    for (int v : n2o)
                        od += char('0' + v);
                    ctx.note(vh::fmts("ordering new2old=%s ilu=%d natural=%d", od.c_str(), ilu, nat));
                    auto s = symbolic(p, n2o, nat, ilu);
                    ctx.nTrans++;
                    if (!checkSymbolic(ctx, p, n2o, o2n, ilu, *s))
                        return;
                    bool num = heavy || ilu < 1;
                    if (!num)
                        continue;
                    if (!numeric<2, false>(ctx, p, n2o, o2n, ilu, s, 2, int(ip) + 1, 2))
                        return;
                    if (!numeric<2, true>(ctx, p, n2o, o2n, ilu, s, 2, int(ip) + 2, 1))
                        return;
                    if (ip % 7 == 0)
                    {
                        if (!numeric<1, false>(ctx, p, n2o, o2n, ilu, s, 1, int(ip) + 3, 2))
                            return;
                        if (!numeric<1, true>(ctx, p, n2o, o2n, ilu, s, 1, int(ip) + 4, 2))
                            return;
                        if (!numeric<Eigen::Dynamic, false>(ctx, p, n2o, o2n, ilu, s, 3, int(ip) + 5, 2))
                            return;
                        if (!numeric<Eigen::Dynamic, true>(ctx, p, n2o, o2n, ilu, s, 3, int(ip) + 6, 2))
                            return;
                    }
                }
            ctx.beat();
        }
    }

    // block diagonal part: the applied inverse is the inverse of what was stored, also after refilling
    template <int F>
    bool diagBlock(vh::Ctx &ctx, int mode, int n, int m, int seed)
    {
        Euler::ArrayDOFV<F> mock;
        mkVec(mock, n, m);
        Euler::JacobianDiagBlock<F> D;
        D.SetModeAndInit(mode, m, mock);
        if (D.Size() != n || bool(D.isBlock()) != bool(mode))
            BAD("diag", "size/mode wrong");
        for (int round = 0; round < 3; round++)
        {
            D.clearValues();
            std::vector<MatrixXd> B(n);
            for (int i = 0; i < n; i++)
            {
                B[i] = assemble(1, m, {{}}, seed + i + 10 * round, false);
                if (!mode)
                    B[i] = MatrixXd(B[i].diagonal().asDiagonal());
                if (mode)
                    D.getBlock(i) = B[i];
                else
                    D.getDiag(i) = B[i].diagonal();
            }
            D.GetInvert();
            if (round == 1)
                D.GetInvert();
            for (int i = 0; i < n; i++)
            {
                VectorXd v(m);
                for (int a = 0; a < m; a++)
                    v[a] = val(3, i, a, round, seed);
                Eigen::Vector<real, F> vf = v;
                VectorXd w = D.MatVecLeft(i, vf), z = D.MatVecLeftInvert(i, vf);
                MatrixXd g = D.getValue(i);
                ctx.nTrans += 3;
                if ((g - B[i]).norm() > 0 || (w - B[i] * v).norm() > 1e-12 * (1 + w.norm()) || (B[i] * z - v).norm() > 1e-11 * (1 + v.norm()))
                    BAD("diag", "diagonal block %d: stored, applied or inverted value wrong in round %d", i, round);
            }
        }
        ctx.nTraces++;
        return true;
    }

    void body(vh::Ctx &ctx)
    {
        static std::ofstream null("/dev/null");
        setLogStream(&null);
        simAttach(ctx);
        auto inSim = [&](const std::function<void()> &f)
        {
            sim::run(1, {}, nullptr, [&](int)
                     {
                gmpi = MPIInfo{MPI_COMM_WORLD};
                f(); });
        };
        auto allPerms = [](int n)
        {
            std::vector<IV> out;
            IV v(n);
            std::iota(v.begin(), v.end(), 0);
            do
                out.push_back(v);
            while (std::next_permutation(v.begin(), v.end()));
            return out;
        };
        for (int n = 0; n <= 5; n++)
        {
            auto perms = allPerms(n);
            for (uint64_t mask = 0; mask < (1ull << (n * (n - 1) / 2)); mask++)
                if (ctx.take("n=%d pattern %llu, all %d orderings", n, (unsigned long long)mask, int(perms.size())))
                    inSim([&]
                          { one(ctx, n, mask, perms, n <= 4 || ctx.thorough); });
        }
        // larger patterns, a few orderings (identity, reverse, odd-even, rotated)
        {
            int n = 6;
            std::vector<IV> perms = {{0, 1, 2, 3, 4, 5}, {5, 4, 3, 2, 1, 0}, {0, 2, 4, 1, 3, 5}, {3, 5, 1, 0, 4, 2}};
            if (ctx.thorough)
                perms = allPerms(n);
            int step = ctx.thorough ? 1 : 8;
            // quick: all patterns with at most 6 edges or every 8th code; thorough: all
            for (uint64_t mask = 0; mask < (1ull << 15); mask++)
                if ((ctx.thorough || mask % step == 0) && ctx.take("n=6 pattern %llu, %d orderings", (unsigned long long)mask, int(perms.size())))
                {
                    std::vector<IV> pp = perms;
                    if (ctx.thorough)
                    {
                        pp.clear();
                        for (int k = 0; k < 12; k++)
                            pp.push_back(perms[(mask * 7 + k * 61) % perms.size()]);
                    }
                    inSim([&]
                          { one(ctx, n, mask, pp, false); });
                }
        }
        // banded / ring / grid patterns of 8..12
        for (int n : {8, 9, 12})
            for (int kind = 0; kind < 3; kind++)
                for (int o = 0; o < 4; o++)
                    if (ctx.take("n=%d structured pattern %d ordering %d", n, kind, o))
                        inSim([&]
                              {
                            uint64_t mask = 0;
                            // build through an explicit edge list
                            Pat p{n, std::vector<std::set<int>>(n), Struct(n)};
                            auto link = [&](int a, int b) { if (a != b) p.adj[a].insert(b), p.adj[b].insert(a); };
                            for (int i = 0; i < n; i++)
                            {
                                if (kind == 0 && i + 1 < n) link(i, i + 1);
                                if (kind == 1) link(i, (i + 1) % n);
                                if (kind == 2) { if (i % 3 < 2 && i + 1 < n) link(i, i + 1); if (i + 3 < n) link(i, i + 3); }
                            }
                            for (int i = 0; i < n; i++) p.list[i].assign(p.adj[i].begin(), p.adj[i].end());
                            IV n2o(n), o2n(n);
                            for (int i = 0; i < n; i++) n2o[i] = o == 0 ? i : o == 1 ? n - 1 - i : o == 2 ? (i < (n + 1) / 2 ? 2 * i : 2 * (i - (n + 1) / 2) + 1) : (i * 5 + 3) % n;
                            if (o == 3 && n % 5 == 0) return;
                            for (int i = 0; i < n; i++) o2n[n2o[i]] = i;
                            for (int ilu = -1; ilu <= 5; ilu++)
                            {
                                auto s = symbolic(p, n2o, false, ilu);
                                if (!checkSymbolic(ctx, p, n2o, o2n, ilu, *s)) return;
                                if (!numeric<2, false>(ctx, p, n2o, o2n, ilu, s, 2, o + 1, 2)) return;
                                if (!numeric<2, true>(ctx, p, n2o, o2n, ilu, s, 2, o + 1, 2)) return;
                                if (!numeric<5, false>(ctx, p, n2o, o2n, ilu, s, 5, o + 1, 2)) return;
                            } });
        for (int mode = 0; mode < 2; mode++)
            for (int n = 0; n <= 3; n++)
                for (int m : {1, 2, 3})
                    for (int seed = 0; seed < 6; seed++)
                        if (ctx.take("diagonal blocks mode=%d n=%d m=%d seed=%d", mode, n, m, seed))
                            inSim([&]
                                  {
                                if (m == 1) diagBlock<1>(ctx, mode, n, m, seed);
                                if (m == 2) diagBlock<2>(ctx, mode, n, m, seed);
                                if (m == 3) diagBlock<Eigen::Dynamic>(ctx, mode, n, m, seed); });
    }
}
int main(int argc, char **argv)
{
    return vh::run(argc, argv, [&](vh::Ctx &ctx)
                   { DNDS::vf::body(ctx); });
}
