// C21: Krylov solvers. All small matrices over a finite alphabet x right-hand sides x initial guesses x subspace sizes.
#include "Solver/Linear.hpp"
#include "vh.hpp"
namespace DNDS::vf
{
    using MX = Eigen::MatrixXd;
    using VX = Eigen::VectorXd;
    struct Dat : public VX
    {
        using VX::VX;
        using VX::operator=;
        void addTo(const Dat &R, double r) { *this += R * r; }
    };
#define BAD(key, ...)               \
    do                              \
    {                               \
        ctx.fail(key, __VA_ARGS__); \
        return;                     \
    } while (0)
    std::string str(const MX &m)
    {
        std::string s = "[";
        for (int i = 0; i < m.rows(); i++)
        {
            for (int j = 0; j < m.cols(); j++)
                s += vh::fmts("%g ", m(i, j));
            s += ";";
        }
        return s + "]";
    }
    double cond(const MX &A)
    {
        auto s = A.jacobiSvd().singularValues();
        return s(0) / std::max(s(s.size() - 1), 1e-300);
    }
    // min over d in K_k(MA, r) of |r - MA d|
    double krylovMin(const MX &A, const VX &r, int k)
    {
        int n = r.size();
        MX Q(n, 0);
        VX v = r;
        MX AK(n, 0);
        for (int i = 0; i < k; i++)
        {
            double nv = v.norm();
            for (int p = 0; p < 2; p++)
                for (int j = 0; j < Q.cols(); j++)
                    v -= Q.col(j) * Q.col(j).dot(v);
            if (v.norm() <= 1e-9 * nv || nv == 0)
                break;
            v /= v.norm();
            Q.conservativeResize(n, i + 1);
            Q.col(i) = v;
            v = A * v;
        }
        if (!Q.cols())
            return r.norm();
        AK = A * Q;
        VX y = AK.colPivHouseholderQr().solve(r);
        return (r - AK * y).norm();
    }

    void gmres(vh::Ctx &ctx, const MX &A, const MX &M, const VX &b0, const VX &x0, int k, int nRestart)
    {
        int n = A.rows();
        ctx.note(vh::fmts("A=%s M=%s b=%s x0=%s k=%d nRestart=%d", str(A).c_str(), str(M).c_str(), str(b0.transpose()).c_str(), str(x0.transpose()).c_str(), k, nRestart));
        Dat b, x;
        b = b0, x = x0;
        Linear::GMRES_LeftPreconditioned<Dat> g(k, [&](Dat &d)
                                                { d.resize(n); d.setConstant(7.5); });
        struct Call
        {
            uint32_t it;
            double res, resB;
            VX x;
        };
        std::vector<Call> calls;
        const double tol = 1e-9;
        auto fA = [&](Dat &x, Dat &y)
        { VX t = A * x; y = t; ctx.nTrans++; };
        auto fM = [&](Dat &x, Dat &y)
        { VX t = M * x; y = t; };
        auto fD = [](Dat &a, Dat &b) -> real
        { return a.dot(b); };
        bool stopped = false;
        bool ret = g.solve(fA, fM, fD, b, x, nRestart, [&](uint32_t it, real res, real resB) -> bool
                           { calls.push_back({it, res, resB, x});
                             return stopped = (res <= tol * (1 + resB)); });
        if ((VX(b) - b0).norm() != 0)
            BAD("input", "right-hand side was changed");
        if (!x.allFinite())
            BAD("finite", "solution is not finite");
        MX MA = M * A;
        VX Mb = M * b0;
        double last = (Mb - MA * VX(x)).norm();
        vh::Hash h;
        for (size_t i = 0; i < calls.size(); i++)
        {
            double tr = (Mb - MA * calls[i].x).norm();
            if (calls[i].it != i || std::abs(tr - calls[i].res) > 1e-9 * (1 + tr) || std::abs(calls[i].resB - Mb.norm()) > 1e-9 * (1 + Mb.norm()))
                BAD("report", "restart %zu reports residual %g of %g, actual %g of %g", i, calls[i].res, calls[i].resB, tr, Mb.norm());
            h.add(float(tr));
        }
        ctx.state(h.add(float(last)).h);
        if (calls.empty() || (calls[0].x - x0).norm() != 0)
            BAD("report", "initial guess is not what the solver starts from");
        // each restart minimises the residual over its Krylov space
        double scale = 1 + Mb.norm() + (MA * x0).norm();
        for (size_t i = 0; i + 1 <= calls.size(); i++)
        {
            double after = i + 1 < calls.size() ? calls[i + 1].res : last;
            if (i + 1 == calls.size() && (stopped || i == size_t(nRestart)))
            {
                if (std::abs(after - calls[i].res) > 1e-12 * scale)
                    BAD("stop", "solution changed after the final test");
                continue;
            }
            double best = krylovMin(MA, Mb - MA * calls[i].x, k);
            if (std::abs(after - best) > 1e-7 * scale)
                BAD("minimal", "restart %zu ends with residual %.3e, the minimum over its subspace is %.3e", i, after, best);
        }
        if (ret && !(last <= 1e-7 * scale))
            BAD("flag", "reports convergence with residual %g", last);
        if (stopped && calls.back().it < uint32_t(nRestart) && !ret)
            BAD("flag", "criterion was met at restart %u but no convergence is reported", calls.back().it);
        if (k >= n && nRestart >= 1 && last > 1e-7 * scale)
            BAD("solve", "full subspace leaves residual %g", last);
        if (k >= n && nRestart >= 2 && !ret)
            BAD("flag", "full subspace does not report convergence");
        ctx.nTraces++;
    }
    // one object, several solves: nothing may be carried over
    void gmresReuse(vh::Ctx &ctx, const std::vector<MX> &As, const VX &b0)
    {
        int n = b0.size();
        Linear::GMRES_LeftPreconditioned<Dat> g(n, [&](Dat &d)
                                                { d.resize(n); });
        for (auto &A : As)
        {
            Dat b, x;
            b = b0, x.resize(n), x.setZero();
            bool ret = g.solve([&](Dat &x, Dat &y)
                               { VX t = A * x; y = t; ctx.nTrans++; }, [&](Dat &x, Dat &y)
                               { y = x; }, [](Dat &a, Dat &b) -> real
                               { return a.dot(b); }, b, x, 4, [&](uint32_t, real res, real resB) -> bool
                               { return res <= 1e-9 * (1 + resB); });
            VX w = A.fullPivLu().solve(b0);
            if (!(VX(x - w).norm() <= 1e-6 * (1 + w.norm())) || !ret)
                BAD("reuse", "A=%s b=%s solved as %s after an earlier solve", str(A).c_str(), str(b0.transpose()).c_str(), str(x.transpose()).c_str());
        }
        ctx.nTraces++;
    }

    // preconditioned CG on SPD A with SPD M; the callers pass z = M^-1 (b - A x), r = M z
    void pcg(vh::Ctx &ctx, const MX &A, const MX &M, const VX &b, const VX &x0, const std::vector<int> &split, bool reset)
    {
        int n = A.rows();
        std::string sp;
        for (int s : split)
            sp += vh::fmts("%d ", s);
        ctx.note(vh::fmts("PCG A=%s M=%s b=%s x0=%s iterations per call %s reset=%d", str(A).c_str(), str(M).c_str(), str(b.transpose()).c_str(), str(x0.transpose()).c_str(), sp.c_str(), reset));
        MX Mi = M.inverse();
        Linear::PCG_PreconditionedRes<Dat, real> g([&](Dat &d)
                                                   { d.resize(n); d.setConstant(3.25); });
        Dat x;
        x = x0;
        // textbook recurrence
        VX rx = x0, rr = b - A * rx, rz = Mi * rr, rp = rz;
        double rzr = rz.dot(rr);
        auto refStep = [&]
        {
            double pAp = rp.dot(A * rp);
            if (!(pAp > 1e-20))
                return;
            double al = rzr / pAp;
            rx += al * rp;
            rr = b - A * rx;
            rz = Mi * rr;
            double nz = rz.dot(rr);
            rp = rz + (rzr > 0 ? nz / rzr : 0.) * rp;
            rzr = nz;
        };
        double scale = 1 + b.norm() + x0.norm();
        int total = 0;
        bool conv = false;
        for (size_t ic = 0; ic < split.size(); ic++)
        {
            if (reset && ic)
            {
                g.reset();
                if (g.getPHistorySize() != 0)
                    BAD("reset", "history size after reset");
                rr = b - A * rx, rz = Mi * rr, rp = rz, rzr = rz.dot(rr);
                total = 0;
            }
            int nc = 0;
            bool inBad = false;
            bool stopped = false;
            bool ret = g.solve([&](Dat &x, Dat &y)
                               { VX t = A * x; y = t; ctx.nTrans++; }, [&](Dat &x, Dat &y)
                               { VX t = M * x; y = t; }, [&](Dat &x, Dat &z)
                               { VX t = Mi * (b - A * x); z = t; }, [](Dat &a, Dat &b) -> real
                               { return a.dot(b); }, x, split[ic], [&](int it, real zr, real zz) -> bool
                               {
                nc++;
                VX z = Mi * (b - A * x);
                double wzr = z.dot(M * z);
                if (it != nc || std::abs(zr - wzr) > 1e-9 * (scale * scale) || std::abs(zz - z.squaredNorm()) > 1e-9 * (scale * scale)) inBad = true;
                return stopped = (zr <= 1e-22 * scale * scale); });
            if (inBad)
                BAD("report", "stop test is given wrong norms");
            if (ret != stopped)
                BAD("flag", "returns %d, criterion met: %d", int(ret), int(stopped));
            int done = ret ? nc - 1 : nc;
            if (!ret && nc != split[ic])
                BAD("flag", "%d iterations instead of %d", nc, split[ic]);
            if (!conv)
            {
                for (int i = 0; i < done; i++)
                    refStep();
                total += done;
                if (!(VX(x - rx).norm() <= 1e-8 * scale))
                    BAD("iterate", "after %d iterations x=%s, expected %s", total, str(x.transpose()).c_str(), str(rx.transpose()).c_str());
                if (total >= n && !((b - A * VX(x)).norm() <= 1e-8 * scale))
                    BAD("solve", "residual %g after %d iterations", (b - A * VX(x)).norm(), total);
            }
            conv = conv || ret;
            if (conv && !((b - A * VX(x)).norm() <= 1e-8 * scale))
                BAD("solve", "converged iteration lost the solution");
            ctx.state(vh::Hash().add(float(x(0))).add(float(x(n - 1))).add(total).h);
        }
        ctx.nTraces++;
    }
    template <class F>
    void words(int n, int base, F &&f)
    {
        std::vector<int> w(n, 0);
        while (true)
        {
            f(w);
            int i = 0;
            for (; i < n; i++)
            {
                if (++w[i] < base)
                    break;
                w[i] = 0;
            }
            if (i == n)
                return;
        }
    }
    void body(vh::Ctx &ctx)
    {
        bool T = ctx.thorough;
        auto vecs = [&](int n, std::vector<double> al)
        {
            std::vector<VX> r;
            words(n, al.size(), [&](std::vector<int> &w)
                  { VX v(n); for (int i = 0; i < n; i++) v(i) = al[w[i]]; r.push_back(v); });
            return r;
        };
        auto prec = [&](int n, int k)
        {
            MX M = MX::Identity(n, n);
            if (k == 1)
                for (int i = 0; i < n; i++)
                    M(i, i) = (i % 2 ? .5 : 2.);
            if (k == 2)
                for (int i = 0; i < n; i++)
                    for (int j = 0; j < i; j++)
                        M(i, j) = .5;
            return M;
        };
        // 1x1, 2x2 complete
        for (int n = 1; n <= 2; n++)
        {
            std::vector<double> al{0, 1, -1, 2, -3};
            words(n * n, al.size(), [&](std::vector<int> &w)
                  {
                MX A(n, n);
                for (int i = 0; i < n * n; i++)
                    A(i / n, i % n) = al[w[i]];
                if (std::abs(A.determinant()) < 1e-9)
                    return;
                if (!ctx.take("GMRES all b, x0, subspaces; A=%s", str(A).c_str()))
                    return;
                for (auto &b : vecs(n, {0, 1, -2}))
                    for (auto &x0 : vecs(n, {0, 1}))
                        for (int k = 1; k <= n + 2; k++)
                            for (int nr = 0; nr <= 3; nr++)
                                for (int p = 0; p < 3; p++)
                                    gmres(ctx, A, prec(n, p), b, x0, k, nr);
                for (auto &b : vecs(n, {0, 1, -2}))
                    gmres(ctx, A, prec(n, 0), b, A.fullPivLu().solve(b), n, 2);
                for (auto &b : vecs(n, {1, -2}))
                    gmresReuse(ctx, {A, MX::Identity(n, n), A * A, A}, b); });
        }
        // 3x3 over {0,1,-1}: complete
        {
            int n = 3;
            std::vector<double> al{0, 1, -1};
            words(n * n, 3, [&](std::vector<int> &w)
                  {
                MX A(n, n);
                for (int i = 0; i < n * n; i++)
                    A(i / n, i % n) = al[w[i]];
                if (std::abs(A.determinant()) < 1e-9)
                    return;
                if (!ctx.take("GMRES A=%s", str(A).c_str()))
                    return;
                for (auto &b : vecs(n, T ? std::vector<double>{0, 1, -2} : std::vector<double>{0, 1}))
                    for (int k : {1, 2, 3, 5})
                        for (int p = 0; p < (T ? 3 : 2); p++)
                            gmres(ctx, A, prec(n, p), b, k % 2 ? VX(VX::Zero(n)) : VX(VX::Ones(n)), k, 2);
                });
        }
        // 4x4: all permutations times signs plus an optional rank-one part: long stagnation and breakdown patterns
        {
            int n = 4;
            std::vector<int> pm{0, 1, 2, 3};
            do
                for (int sg = 0; sg < 16; sg++)
                    for (int ex = 0; ex < 3; ex++)
                    {
                        MX A = MX::Zero(n, n);
                        for (int i = 0; i < n; i++)
                            A(i, pm[i]) = (sg >> i & 1) ? -1 : 1 + (ex == 1 ? i : 0);
                        if (ex == 2)
                            A.row(0) += .5 * A.row(3);
                        if (!ctx.take("GMRES A=%s", str(A).c_str()))
                            continue;
                        for (auto &b : vecs(n, {0, 1}))
                            for (int k : {1, 2, 3, 4, 6})
                                gmres(ctx, A, prec(n, 0), b, VX::Zero(n), k, 3);
                    }
            while (std::next_permutation(pm.begin(), pm.end()));
        }
        // PCG: A = B^T B + d I over all B in {0,1,-1}
        std::set<std::string> seen;
        for (int n = 1; n <= 3; n++)
            words(n * n, 3, [&](std::vector<int> &w)
                  {
                double al[] = {0, 1, -1};
                MX B(n, n);
                for (int i = 0; i < n * n; i++)
                    B(i / n, i % n) = al[w[i]];
                MX A = B.transpose() * B + .5 * MX::Identity(n, n);
                if (!seen.insert(str(A)).second)
                    return;
                if (!ctx.take("PCG A=%s", str(A).c_str()))
                    return;
                for (int p = 0; p < 3; p++)
                {
                    MX M = MX::Identity(n, n);
                    if (p == 1) M = A.diagonal().asDiagonal();
                    if (p == 2)
                        for (int i = 0; i < n; i++)
                            for (int j = 0; j < n; j++)
                                M(i, j) += std::pow(.5, 1 + std::abs(i - j));
                    for (auto &b : vecs(n, {0, 1, -2}))
                        for (int xx = 0; xx < 3; xx++)
                        {
                            VX x0 = xx == 0 ? VX(VX::Zero(n)) : xx == 1 ? VX(VX::Constant(n, 1.5))
                                                                         : VX(A.ldlt().solve(b));
                            std::vector<std::vector<int>> splits{{n + 1}, {1, n}, {n, 1, 1}, {0, n + 1}};
                            if (n == 3)
                                splits.push_back({1, 1, 1, 1}), splits.push_back({2, 2});
                            for (auto &s : splits)
                            {
                                pcg(ctx, A, M, b, x0, s, false);
                                if (s.size() > 1 && s[0])
                                    pcg(ctx, A, M, b, x0, s, true);
                            }
                        }
                } });
    }
}
int main(int argc, char **argv)
{
    return vh::run(argc, argv, [&](vh::Ctx &ctx)
                   { DNDS::vf::body(ctx); });
}
