// C22: time integrators. The test equations are the polynomial systems attached to all rooted trees up to order 4
// (every leaf either a variable y'=1 or the explicit time): an integrator has order p exactly if it reproduces the
// solution t^|tree|/gamma(tree) for every tree of order <= p, for every sequence of step sizes.
#include "DNDS/HardEigen.hpp"
#include "Solver/ODE.hpp"
#include "vh.hpp"
namespace DNDS::vf
{
    using VX = Eigen::VectorXd;
    using MX = Eigen::MatrixXd;
    struct DTau : public VX
    {
    };
    struct Dat : public VX
    {
        using VX::VX;
        using VX::operator=;
        void addTo(const Dat &R, double r) { *this += R * r; }
        void operator*=(double r) { VX &t = *this; t = t * r; }
        void operator*=(const DTau &r) { VX &t = *this; t = t.cwiseProduct(r); }
    };
    struct Tree
    {
        std::vector<int> ch; // children: -1 = explicit time
        int order;
        double gamma;
    };
    std::vector<Tree> trees;
    void gen(int maxOrder)
    {
        trees.clear();
        trees.push_back({{}, 1, 1.});
        for (int o = 2; o <= maxOrder; o++)
        {
            int n = trees.size();
            std::function<void(int, int, std::vector<int>)> rec = [&](int left, int minIdx, std::vector<int> ch)
            {
                if (left == 0)
                {
                    Tree t{ch, o, double(o)};
                    for (int c : ch)
                        if (c >= 0)
                            t.gamma *= trees[c].gamma;
                    trees.push_back(t);
                    return;
                }
                for (int c = minIdx; c < n; c++)
                {
                    int oc = c < 0 ? 1 : trees[c].order;
                    if (oc <= left)
                    {
                        auto c2 = ch;
                        c2.push_back(c);
                        rec(left - oc, c, c2);
                    }
                }
            };
            rec(o - 1, -1, {});
        }
    }
    VX exact(double t)
    {
        VX y(trees.size());
        for (size_t i = 0; i < trees.size(); i++)
            y(i) = std::pow(t, trees[i].order) / trees[i].gamma;
        return y;
    }
    VX F(const VX &y, double t)
    {
        VX f(trees.size());
        for (size_t i = 0; i < trees.size(); i++)
        {
            f(i) = 1;
            for (int c : trees[i].ch)
                f(i) *= c < 0 ? t : y(c);
        }
        return f;
    }
    MX J(const VX &y, double t)
    {
        MX j = MX::Zero(trees.size(), trees.size());
        for (size_t i = 0; i < trees.size(); i++)
            for (size_t k = 0; k < trees[i].ch.size(); k++)
                if (trees[i].ch[k] >= 0)
                {
                    double p = 1;
                    for (size_t l = 0; l < trees[i].ch.size(); l++)
                        if (l != k)
                            p *= trees[i].ch[l] < 0 ? t : y(trees[i].ch[l]);
                    j(i, trees[i].ch[k]) += p;
                }
        return j;
    }
    using Base = ODE::ImplicitDualTimeStep<Dat, DTau>;
    using BDF = ODE::ImplicitBDFDualTimeStep<Dat, DTau>;
    using VBDF = ODE::ImplicitVBDFDualTimeStep<Dat, DTau>;

    struct Scheme
    {
        std::string name;
        int order;     // order of the method once started
        int kind;      // 0 one-step; 1 multistep k (reference needed); 2 StepPP multistep
        int k = 0;
        bool equalDt = false;
        bool checkOther = true;
        double tol = 1e-10;
        std::function<std::unique_ptr<Base>()> make;
    };
#define BAD(key, ...)               \
    do                              \
    {                               \
        ctx.fail(key, __VA_ARGS__); \
        return;                     \
    } while (0)

    // textbook BDF of order k on arbitrary points: sum_j l_j'(t_n) y_j = f(t_n, y_n)
    VX bdfRef(const std::vector<double> &t, const std::vector<VX> &y, int k, double tn)
    {
        std::vector<double> p{tn};
        for (int i = 0; i < k; i++)
            p.push_back(t[t.size() - 1 - i]);
        std::vector<double> d(k + 1, 0.);
        for (int j = 0; j <= k; j++)
        {
            if (j == 0)
            {
                for (int m = 1; m <= k; m++)
                    d[0] += 1 / (p[0] - p[m]);
                continue;
            }
            double v = 1 / (p[j] - p[0]);
            for (int m = 1; m <= k; m++)
                if (m != j)
                    v *= (p[0] - p[m]) / (p[j] - p[m]);
            d[j] = v;
        }
        VX r = VX::Zero(trees.size());
        for (int j = 1; j <= k; j++)
            r -= d[j] * y[y.size() - j];
        VX x = VX::Zero(trees.size());
        for (size_t i = 0; i < trees.size(); i++) // triangular: the right-hand side only has smaller trees
            x(i) = (r(i) + F(x, tn)(i)) / d[0];
        return x;
    }

    void history(vh::Ctx &ctx, const Scheme &sc, const std::vector<double> &dts, unsigned restartMask, double tStart)
    {
        {
            std::string s;
            for (size_t i = 0; i < dts.size(); i++)
                s += vh::fmts("%s%g ", (restartMask >> i & 1) ? "new " : "", dts[i]);
            ctx.note("t0=" + vh::fmts("%g", tStart) + " steps " + s);
        }
        int n = trees.size();
        std::unique_ptr<Base> ode;
        Dat x, xinc;
        x = exact(tStart);
        xinc.resize(n);
        xinc.setConstant(99);
        double t = tStart;
        std::vector<double> rt;
        std::vector<VX> ry;
        for (size_t is = 0; is < dts.size(); is++)
        {
            double dt = dts[is];
            if (!ode || (restartMask >> is & 1))
            {
                ode = sc.make();
                rt = {t};
                ry = {VX(x)};
            }
            std::vector<VX> seen;
            bool bad = false, badDt = false;
            auto frhs = [&](Dat &r, Dat &u, DTau &, int, real ct, int)
            {
                VX f = F(u, t + ct * dt);
                r = f;
                seen.push_back(f);
                ctx.nTrans++;
            };
            auto fdt = [&](Dat &, DTau &d, real, int)
            { static_cast<VX &>(d) = VX::Constant(n, dt); };
            auto fsolve = [&](Dat &u, Dat &res, Dat &other, DTau &, real dtS, real alpha, Dat &inc, int iter, real ct, int)
            {
                if (dtS != dt)
                    badDt = true;
                double tt = t + ct * dt;
                VX chk = VX(other) - VX(u) / dt + alpha * F(u, tt) - VX(res);
                if (sc.checkOther || iter > 3)
                    if (!(chk.cwiseAbs().maxCoeff() <= 1e-9 * (1 + VX(res).cwiseAbs().maxCoeff() + VX(u).cwiseAbs().maxCoeff() / dt)))
                        bad = true;
                MX m = MX::Identity(n, n) / dt - alpha * J(u, tt);
                VX s = m.triangularView<Eigen::Lower>().solve(VX(res));
                inc = s;
            };
            auto finc = [&](Dat &u, Dat &inc, real a, int)
            { u += inc * a; };
            const int NIT = 14;
            double lastRes = 0;
            auto fstop = [&](int iter, Dat &res, int) -> bool
            {
                lastRes = VX(res).cwiseAbs().maxCoeff();
                return iter >= NIT;
            };
            if (sc.kind == 2)
            {
                auto lim = [](Dat &, int) {};
                // no limiting: the callback may ask for the increment part, whose meaning is resInc == x - base
                auto inc = [](Dat &, Dat &, Dat &, Dat &, const std::function<void()> &renew, real, int)
                { renew(); };
                if (auto *b = dynamic_cast<BDF *>(ode.get()))
                    b->StepPP(x, xinc, frhs, fdt, fsolve, NIT + 3, fstop, finc, dt, lim, inc);
                else if (auto *v = dynamic_cast<VBDF *>(ode.get()))
                    v->StepPP(x, xinc, frhs, fdt, fsolve, NIT + 3, fstop, finc, dt, lim, inc);
            }
            else
                ode->Step(x, xinc, frhs, fdt, fsolve, NIT + 3, fstop, finc, dt);
            if (badDt)
                BAD("dt", "solver called with another time step");
            if (bad)
                BAD("other", "residual passed to the solver is not (other - x/dt + alpha*rhs) in step %zu", is);
            t += dt;
            VX want = exact(t);
            double sc4 = std::pow(std::max(1., std::abs(t)), 4);
            int ord = sc.order;
            if (sc.kind)
            {
                int k = std::min<int>(sc.k, ry.size());
                want = bdfRef(rt, ry, k, t);
                rt.push_back(t);
                ry.push_back(want);
                ord = 4;
            }
            for (int i = 0; i < n; i++)
                if (trees[i].order <= ord)
                    if (!(std::abs(x(i) - want(i)) <= sc.tol * sc4))
                    {
                        std::string ch;
                        for (int c : trees[i].ch)
                            ch += c < 0 ? "t " : vh::fmts("y%d ", c);
                        BAD("order", "step %zu to t=%g: y%d (order %d, y'=%s) is %.15g, expected %.15g", is, t, i, trees[i].order, ch.c_str(), x(i), want(i));
                    }
            // the reported latest right-hand side is one that was evaluated
            VX lr = ode->getLatestRHS();
            bool found = false;
            for (auto &s : seen)
                found = found || (s - lr).cwiseAbs().maxCoeff() <= 1e-12 * sc4;
            if (!found)
                BAD("latest", "latest right-hand side after step %zu is not a right-hand side of the step", is);
            vh::Hash h;
            for (int i = 0; i < n; i++)
                h.add(float(x(i)));
            ctx.state(h.add(sc.name).h);
        }
        ctx.nTraces++;
    }
    // VBDF2 step limiter: the extrapolated part -B(dt)(x - xPrev) must not exceed the allowed fraction
    void limitDt(vh::Ctx &ctx, double dt0, double wish, double frac, double maxInc)
    {
        ctx.note(vh::fmts("previous dt %g wished %g allowed fraction %g max increase %g", dt0, wish, frac, maxInc));
        int n = trees.size();
        VBDF v(
            n, [&](Dat &d)
            { d = VX::Zero(n); },
            [&](DTau &d)
            { static_cast<VX &>(d) = VX::Zero(n); },
            2);
        Dat x, xinc;
        x = exact(0.), xinc = VX::Zero(n);
        VX xPrev = x;
        int calls = 0;
        bool bad = false;
        double out = wish;
        v.LimitDt_StepPPV2(
            x, [&](Dat &, Dat &)
            { calls++; return frac; },
            out, maxInc);
        if (calls || out != wish)
            BAD("limit", "limits the first step");
        v.Step(
            x, xinc, [&](Dat &r, Dat &u, DTau &, int, real ct, int)
            { r = F(u, ct * dt0); },
            [](Dat &, DTau &, real, int) {}, [&](Dat &, Dat &res, Dat &, DTau &, real dt, real, Dat &inc, int, real, int)
            { inc = VX(res) * dt; },
            8, [](int, Dat &, int)
            { return false; },
            [](Dat &u, Dat &inc, real a, int)
            { u += inc * a; },
            dt0);
        VX xN = x;
        auto B = [&](double dt)
        { double Rt = dt / dt0, phi = dt / (dt + dt0); return Rt * phi / (1 + phi); };
        v.LimitDt_StepPPV2(
            x, [&](Dat &u, Dat &inc)
            {
                calls++;
                if ((VX(u) - xN).norm() > 0 || (VX(inc) - B(wish) * (xN - xPrev)).norm() > 1e-12 * (1 + xN.norm() * B(wish))) bad = true;
                return frac; },
            out, maxInc);
        ctx.nTrans += 2;
        if (calls != 1 || bad)
            BAD("limit", "limiter is asked about a wrong increment");
        if ((VX(x) - xN).norm() != 0)
            BAD("limit", "state changed");
        if (!(out > 0) || out > wish)
            BAD("limit", "returns %g", out);
        if (frac >= 1 ? out != wish : (B(out) > frac * B(wish) * (1 + 1e-12) || out > maxInc * dt0 * (1 + 1e-12)))
            BAD("limit", "step %g: extrapolation %g exceeds the allowed %g", out, B(out), frac * B(wish));
        ctx.state(vh::Hash().add(float(out / dt0)).h);
        ctx.nTraces++;
    }
    void body(vh::Ctx &ctx)
    {
        gen(4);
        int n = trees.size();
        auto fin = [n](Dat &d)
        { d.resize(n); d.setConstant(-77.25); };
        auto find = [n](DTau &d)
        { d.resize(n); d.setConstant(1); };
        std::vector<Scheme> S;
        auto add = [&](Scheme s)
        { S.push_back(s); };
        add({"Euler", 1, 0, 0, false, true, 1e-10, [=]
             { return std::make_unique<ODE::ImplicitEulerDualTimeStep<Dat, DTau>>(n, fin, find); }});
        for (int c = 0; c < 2; c++)
            add({c ? "ESDIRK4" : "SDIRK4", 4, 0, 0, false, true, c ? 1e-7 : 1e-9, [=]
                 { return std::make_unique<ODE::ImplicitSDIRK4DualTimeStep<Dat, DTau>>(n, fin, find, c); }});
        for (int k = 1; k <= 4; k++)
            for (int pp = 0; pp < 2; pp++)
                add({vh::fmts("BDF%d%s", k, pp ? "PP" : ""), k, 1 + pp, k, true, true, 1e-10, [=]
                     { return std::make_unique<BDF>(n, fin, find, k); }});
        for (int k = 1; k <= 2; k++)
            for (int pp = 0; pp < 2; pp++)
                add({vh::fmts("VBDF%d%s", k, pp ? "PP" : ""), k, 1 + pp, k, false, true, 1e-9, [=]
                     { return std::make_unique<VBDF>(n, fin, find, k); }});
        for (int loc = 0; loc < 2; loc++)
            add({loc ? "SSPRK3 local dt" : "SSPRK3", 3, 0, 0, false, true, 1e-11, [=]
                 { return std::make_unique<ODE::ExplicitSSPRK3TimeStepAsImplicitDualTimeStep<Dat, DTau>>(n, fin, find, bool(loc)); }});
        for (int mask = 0; mask < 3; mask++)
            for (double al : {0.5, 0.55, 0.25, 0.8})
                for (double th : {0.9146, 0.5})
                    for (int ns : {0, 3})
                        add({vh::fmts("Hermite3 mask %d alpha %g theta %g start %d", mask, al, th, ns), mask == 0 && al == .5 ? 4 : 3, 0, 0, false, false, 1e-9, [=]
                             { return std::make_unique<ODE::ImplicitHermite3SimpleJacobianDualStep<Dat, DTau>>(n, fin, find, al, 0, ns, th, mask); }});
        int depth = ctx.thorough ? 5 : 4;
        for (auto &sc : S)
            for (double t0 : {0., 1.5})
                for (int len = 1; len <= (sc.equalDt ? depth + 3 : depth); len++)
                {
                    std::vector<double> al = sc.equalDt ? std::vector<double>{.5} : std::vector<double>{.5, .25, 1.};
                    if (!sc.equalDt && len <= 3)
                        al.push_back(.004), al.push_back(1.6);
                    int nd = sc.equalDt ? 1 : std::pow(al.size(), len) + .5;
                    if (!ctx.take("%s from t=%g, all histories of %d steps", sc.name.c_str(), t0, len))
                        continue;
                    for (int c = 0; c < nd; c++)
                        for (unsigned rm = 0; rm < (1u << len); rm += 2)
                        {
                            std::vector<double> d;
                            int v = c;
                            for (int i = 0; i < len; i++)
                                d.push_back(al[v % al.size()]), v /= al.size();
                            // a scheme with equal steps may take another step size after a restart
                            if (sc.equalDt)
                                for (int i = 1; i < len; i++)
                                    d[i] = (rm >> i & 1) ? (d[i - 1] == .5 ? .25 : .5) : d[i - 1];
                            history(ctx, sc, d, rm, t0);
                            ctx.beat();
                            if (ctx.nfail)
                                break;
                        }
                }
        for (double d0 : {.5, 1., .01})
            for (double w : {.25, 1., 3., 40.})
                for (double fr : {0.1, .5, .9, 1., 2., 1e-3})
                    for (double mi : {1., 2., 8.})
                        if (ctx.take("VBDF2 step limit"))
                            limitDt(ctx, d0, w * d0, fr, mi);
    }
}
int main(int argc, char **argv)
{
    return vh::run(argc, argv, [&](vh::Ctx &ctx)
                   { DNDS::vf::body(ctx); });
}
