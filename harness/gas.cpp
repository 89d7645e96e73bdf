// C23: ideal gas relations and Riemann fluxes. All pairs of states of a grid x flux types x directions x grid velocities.
#include "DNDS/HardEigen.hpp"
#include "Euler/Gas.hpp"
#include "vh.hpp"
namespace DNDS::vf
{
    using namespace DNDS::Euler::Gas;
    typedef long double ld;
    const std::vector<std::pair<RiemannSolverType, const char *>> RS{
        {Roe, "Roe"}, {HLLC, "HLLC"}, {HLLEP, "HLLEP"}, {HLLEP_V1, "HLLEP_V1"}, {Roe_M1, "Roe_M1"}, {Roe_M2, "Roe_M2"}, {Roe_M3, "Roe_M3"}, {Roe_M4, "Roe_M4"}, {Roe_M5, "Roe_M5"}};
    template <int dim>
    using VU = Eigen::Vector<double, dim + 2>;
    template <int dim>
    using VV = Eigen::Vector<double, dim>;
    template <int dim>
    using VL = Eigen::Vector<ld, dim + 2>;

    // definitions in extended precision
    template <int dim>
    struct St
    {
        ld rho, p, E, a, H;
        Eigen::Vector<ld, dim> v;
        template <class T>
        St(const T &U, ld g)
        {
            rho = U(0);
            E = U(dim + 1);
            ld q = 0;
            for (int i = 0; i < dim; i++)
                v(i) = U(1 + i) / rho, q += v(i) * v(i);
            p = (g - 1) * (E - rho * q / 2);
            a = std::sqrt(g * p / rho);
            H = (E + p) / rho;
        }
    };
    template <int dim>
    VL<dim> flux(const Eigen::Vector<ld, -1> &U, const Eigen::Vector<ld, dim> &vg, const Eigen::Vector<ld, dim> &n, ld g)
    {
        St<dim> s(U, g);
        ld vr = (s.v - vg).dot(n), vn = s.v.dot(n);
        VL<dim> F;
        F(0) = s.rho * vr;
        for (int i = 0; i < dim; i++)
            F(1 + i) = s.rho * s.v(i) * vr + s.p * n(i);
        F(dim + 1) = s.E * vr + s.p * vn;
        return F;
    }
    template <int dim>
    VU<dim> fluxD(const VU<dim> &U, const VV<dim> &vg, const VV<dim> &n, double g)
    {
        return flux<dim>(Eigen::Vector<ld, -1>(U.template cast<ld>()), vg.template cast<ld>(), n.template cast<ld>(), g).template cast<double>();
    }
    template <int dim>
    VU<dim> cons(double rho, const VV<dim> &v, double p, double g)
    {
        VU<dim> U;
        U(0) = rho;
        for (int i = 0; i < dim; i++)
            U(1 + i) = rho * v(i);
        U(dim + 1) = p / (g - 1) + .5 * rho * v.squaredNorm();
        return U;
    }
    template <int dim>
    std::vector<VV<dim>> normals()
    {
        std::vector<VV<dim>> r;
        VV<dim> n;
        n.setZero();
        n(0) = 1;
        r.push_back(n);
        n.setZero();
        n(dim - 1) = -1;
        r.push_back(n);
        n.setZero();
        n(0) = .6, n(1) = -.8;
        r.push_back(n);
        for (int i = 0; i < dim; i++)
            n(i) = dim == 2 ? (i ? 12. / 13 : 5. / 13) : (i == 0 ? -2. / 7 : i == 1 ? 3. / 7
                                                                                    : 6. / 7);
        r.push_back(n);
        return r;
    }
    template <int dim>
    Eigen::Matrix<double, dim, dim> rot(int k)
    {
        Eigen::Matrix<double, dim, dim> Q;
        if constexpr (dim == 2)
        {
            if (k == 0)
                Q << .6, .8, -.8, .6;
            else if (k == 1)
                Q << 0, 1, 1, 0; // reflection
            else
                Q << -1, 0, 0, 1;
        }
        else
        {
            if (k == 0)
                Q << 2. / 3, -1. / 3, 2. / 3, 2. / 3, 2. / 3, -1. / 3, -1. / 3, 2. / 3, 2. / 3;
            else if (k == 1)
                Q << 0, 1, 0, 1, 0, 0, 0, 0, 1; // reflection
            else
                Q << 0, 0, 1, -1, 0, 0, 0, 1, 0;
        }
        return Q;
    }
    // orthonormal frame whose first vector is n
    template <int dim>
    Eigen::Matrix<double, dim, dim> frame(const VV<dim> &n)
    {
        Eigen::Matrix<double, dim, dim> B;
        B.col(0) = n;
        if constexpr (dim == 2)
            B.col(1) << -n(1), n(0);
        else
        {
            VV<3> t = std::abs(n(0)) < .6 ? VV<3>(1, 0, 0) : VV<3>(0, 1, 0);
            t -= n * n.dot(t);
            t.normalize();
            B.col(1) = t;
            B.col(2) = n.cross(t);
        }
        return B;
    }
    template <int dim>
    VU<dim> rotU(const Eigen::Matrix<double, dim, dim> &Q, const VU<dim> &U)
    {
        VU<dim> r = U;
        r.template segment<dim>(1) = Q * U.template segment<dim>(1);
        return r;
    }
    template <int dim>
    struct G
    {
        std::vector<VV<dim>> vels;
        std::vector<double> rhos, ps;
        G(bool big)
        {
            rhos = {1, .2};
            ps = {1, .3};
            if (big)
                rhos.push_back(6), ps.push_back(20);
            std::vector<double> un = big ? std::vector<double>{0, .3, -.3, 1.2, -1.2, 4, -4} : std::vector<double>{0, .4, -.4, 1.1, -3.5};
            for (double u : un)
                for (int t = 0; t < 2; t++)
                {
                    VV<dim> v;
                    v.setConstant(t ? .7 : 0);
                    if (dim == 3 && t)
                        v(2) = -.2;
                    v(0) = u;
                    vels.push_back(v);
                }
        }
    };
    inline std::string str(const Eigen::VectorXd &v)
    {
        std::string s;
        for (int i = 0; i < v.size(); i++)
            s += vh::fmts(i ? ",%.10g" : "(%.10g", v(i));
        return s + ")";
    }
#define BAD(key, ...)               \
    do                              \
    {                               \
        ctx.fail(key, __VA_ARGS__); \
        return;                     \
    } while (0)

    template <int dim>
    VU<dim> callF(RiemannSolverType t, const VU<dim> &UL, const VU<dim> &UR, const VU<dim> &ULm, const VU<dim> &URm, const VV<dim> &vg, const VV<dim> &n, double g, double dl, double *lam)
    {
        VU<dim> F;
        F.setConstant(777);
        double l0 = -1, l1 = -1, l4 = -1;
        InviscidFlux_IdealGas_Dispatcher<dim>(t, UL, UR, ULm, URm, vg, n, g, F, dl, [&]() {}, l0, l1, l4);
        if (lam)
            lam[0] = l0, lam[1] = l1, lam[2] = l4;
        return F;
    }
    template <int dim>
    double fscale(const VU<dim> &UL, const VU<dim> &UR, const VV<dim> &vg, double g)
    {
        St<dim> l(UL, g), r(UR, g);
        double sp = std::max(l.v.norm() + l.a, r.v.norm() + r.a) + vg.norm();
        return std::max(UL.norm(), UR.norm()) * sp * std::max(1., sp);
    }

    template <int dim>
    void fluxCase(vh::Ctx &ctx, int it, const VU<dim> &UL, const VU<dim> &UR, const VV<dim> &n, const VV<dim> &vg, double g, double dl)
    {
        auto [t, name] = RS[it];
        double lam[3], lamM[3], lamR[3];
        VU<dim> F = callF<dim>(t, UL, UR, UL, UR, vg, n, g, dl, lam);
        ctx.nTrans++;
        ctx.nTraces++;
        double sc = fscale<dim>(UL, UR, vg, g), tol = 2e-11 * sc;
        ctx.state(vh::fnv(F.data(), sizeof(double) * (dim + 2)));
        std::string d = vh::fmts("%s dim %d UL %s UR %s n %s vg %s gamma %g", name, dim, str(UL).c_str(), str(UR).c_str(), str(n).c_str(), str(vg).c_str(), g);
        if (!F.allFinite())
            BAD(vh::fmts("nan:%s", name), "flux not finite: %s", d.c_str());
        VU<dim> FL = fluxD<dim>(UL, vg, n, g), FR = fluxD<dim>(UR, vg, n, g);
        if (UL == UR && !((F - FL).norm() <= tol))
            BAD(vh::fmts("consistency:%s", name), "flux of equal states %s, exact %s: %s", str(F).c_str(), str(FL).c_str(), d.c_str());
        // exchange and flip
        VU<dim> Fm = callF<dim>(t, UR, UL, UR, UL, vg, -n, g, dl, lamM);
        if (!((F + Fm).norm() <= tol))
            BAD(vh::fmts("mirror:%s", name), "flux %s, flipped %s: %s", str(F).c_str(), str(Fm).c_str(), d.c_str());
        for (int k = 0; k < 3; k++)
        {
            auto Q = rot<dim>(k);
            VU<dim> Fr = callF<dim>(t, rotU<dim>(Q, UL), rotU<dim>(Q, UR), rotU<dim>(Q, UL), rotU<dim>(Q, UR), Q * vg, Q * n, g, dl, lamR);
            if (!((Fr - rotU<dim>(Q, F)).norm() <= tol))
                BAD(vh::fmts("rotation:%s", name), "flux %s, in the rotated frame %s: %s", str(rotU<dim>(Q, F)).c_str(), str(Fr).c_str(), d.c_str());
        }
        ctx.nTrans += 4;
        // a moving frame: galilean shift of states and grid leaves mass flux and transforms momentum flux
        {
            VV<dim> w = .37 * n;
            w(dim - 1) += .21;
            auto shift = [&](const VU<dim> &U)
            {
                VU<dim> r = U;
                r.template segment<dim>(1) += U(0) * w;
                r(dim + 1) += U.template segment<dim>(1).dot(w) + .5 * U(0) * w.squaredNorm();
                return r;
            };
            VU<dim> SL = shift(UL), SR = shift(UR);
            double hy = t == Roe ? 1 : 0; // the entropy fix of Roe depends on the absolute velocity
            VU<dim> Fs = callF<dim>(t, SL, SR, SL, SR, vg + w, n, g, dl, nullptr), Fe = shift(F);
            ctx.nTrans++;
            bool fixed = false;
            if (hy)
            {
                double l2[3];
                callF<dim>(t, SL, SR, SL, SR, vg + w, n, g, dl, l2);
                for (int i = 0; i < 3; i++)
                    if (std::abs(l2[i] - lam[i]) > 1e-12 * sc)
                        fixed = true;
            }
            if (!fixed && !((Fs - Fe).norm() <= 10 * tol))
                BAD(vh::fmts("galilean:%s", name), "flux seen from a moving frame %s, expected %s: %s", str(Fs).c_str(), str(Fe).c_str(), d.c_str());
        }
        St<dim> l(UL, g), r(UR, g);
        ld sl = std::sqrt(l.rho), sr = std::sqrt(r.rho);
        Eigen::Vector<ld, dim> vr = (sl * l.v + sr * r.v) / (sl + sr);
        ld Hr = (sl * l.H + sr * r.H) / (sl + sr), a2 = (g - 1) * (Hr - vr.squaredNorm() / 2);
        ld ar = std::sqrt(a2);
        Eigen::Vector<ld, dim> nl = n.template cast<ld>(), vgl = vg.template cast<ld>();
        ld un = (vr - vgl).dot(nl), uL = (l.v - vgl).dot(nl), uR = (r.v - vgl).dot(nl);
        // upwinding: every wave of both states and their average travels the same way
        bool sup = uL >= 1.5 * l.a && uR >= 1.5 * r.a && un >= 1.5 * ar, sub = uL <= -1.5 * l.a && uR <= -1.5 * r.a && un <= -1.5 * ar;
        bool upw = t == Roe || t == Roe_M3 || t == Roe_M4 || t == HLLC || t == HLLEP || t == HLLEP_V1;
        if (t == HLLC)
        {
            // shock estimate may widen the fan
            ld pS = (l.p + r.p) / 2 - (uL - uR) * std::sqrt(l.rho * r.rho) * ar / 2;
            auto q = [&](ld p)
            { return pS <= p ? (ld)1 : std::sqrt(1 + (g + 1) / 2 / g * (pS / p - 1)); };
            if (!(sup ? uL - l.a * q(l.p) >= .01 : uR + r.a * q(r.p) <= -.01))
                upw = false;
        }
        if (t == Roe && std::min(std::abs(un - ar), std::abs(un + ar)) < std::max<ld>(.1 * (vr.norm() + ar), dl))
            upw = false;
        if (upw && (sup || sub) && !((F - (sup ? FL : FR)).norm() <= tol))
            BAD(vh::fmts("upwind:%s", name), "supersonic flux %s, upwind flux %s: %s", str(F).c_str(), str(sup ? FL : FR).c_str(), d.c_str());
        // an isolated contact / shear discontinuity is carried exactly by the contact resolving fluxes
        if (std::abs(l.p - r.p) < 1e-13 && std::abs(uL - uR) < 1e-13 && (t == Roe || t == Roe_M3 || t == Roe_M5 || t == HLLC))
        {
            VU<dim> Fc = uL > 1e-12 ? FL : uL < -1e-12 ? FR
                                                       : (VU<dim>)((FL + FR) / 2);
            if (!((F - Fc).norm() <= tol))
                BAD(vh::fmts("contact:%s", name), "flux of a contact %s, expected %s: %s", str(F).c_str(), str(Fc).c_str(), d.c_str());
        }
        if (t == HLLC)
            return;
        // wave form
        bool wave = t != HLLEP;
        if (wave)
        {
            for (int i = 0; i < 3; i++)
                if (!std::isfinite(lam[i]) || (t != HLLEP_V1 && lam[i] < 0))
                    BAD(vh::fmts("speed:%s", name), "wave speeds %g %g %g: %s", lam[0], lam[1], lam[2], d.c_str());
            if (!(std::abs(lam[0] - lamM[2]) + std::abs(lam[1] - lamM[1]) + std::abs(lam[2] - lamM[0]) <= 1e-12 * sc))
                BAD(vh::fmts("speed:%s", name), "wave speeds %g %g %g, flipped %g %g %g: %s", lam[0], lam[1], lam[2], lamM[0], lamM[1], lamM[2], d.c_str());
            // dissipation = R |lam| L dU; R, L from the definition of the eigenvectors (independent frame)
            Eigen::Matrix<ld, dim, dim> B = frame<dim>(n).template cast<ld>();
            Eigen::Matrix<ld, dim + 2, dim + 2> R;
            R.setZero();
            auto col = [&](int c, ld rho, const Eigen::Vector<ld, dim> &m, ld e)
            {
                R(0, c) = rho;
                for (int i = 0; i < dim; i++)
                    R(1 + i, c) = m(i);
                R(dim + 1, c) = e;
            };
            ld vn = vr.dot(nl);
            col(0, 1, vr - ar * nl, Hr - vn * ar);
            col(1, 1, vr, vr.squaredNorm() / 2);
            col(dim + 1, 1, vr + ar * nl, Hr + vn * ar);
            for (int k = 1; k < dim; k++)
                col(1 + k, 0, B.col(k), vr.dot(B.col(k)));
            Eigen::Vector<ld, dim + 2> dU = (UR - UL).template cast<ld>(), w = R.fullPivLu().solve(dU);
            for (int i = 0; i < dim + 2; i++)
                w(i) *= i == 0 ? lam[0] : i == dim + 1 ? lam[2]
                                                       : lam[1];
            VU<dim> Fe = (FL + FR) / 2 - (R * w).template cast<double>() / 2;
            if (!((F - Fe).norm() <= 5 * tol))
                BAD(vh::fmts("dissipation:%s", name), "flux %s, mean flux minus half the upwind dissipation with the reported speeds %s: %s", str(F).c_str(), str(Fe).c_str(), d.c_str());
            // reported speeds: the eigenvalues, at least where no fix is active
            ld e0 = std::abs(un - ar), e1 = std::abs(un), e4 = std::abs(un + ar), x0, x1, x4;
            bool ok = true;
            ld st = 1e-12L * sc;
            if (t == Roe)
            {
                ok = lam[0] >= e0 - st && std::abs(lam[1] - e1) <= st && lam[2] >= e4 - st;
                ld th = std::max<ld>(.2 * (vr.norm() + ar), dl);
                if (e0 >= th)
                    ok = ok && std::abs(lam[0] - e0) <= st;
                if (e4 >= th)
                    ok = ok && std::abs(lam[2] - e4) <= st;
                ok = ok && lam[0] <= std::max(e0, th) + st && lam[2] <= std::max(e4, th) + st;
            }
            else if ((t == Roe_M3 || t == Roe_M4) && e1 >= .3 * ar)
                ok = std::abs(lam[0] - e0) <= st && std::abs(lam[1] - e1) <= st && std::abs(lam[2] - e4) <= st;
            else if (t == Roe_M2)
            {
                x0 = std::max(std::abs(uL) + l.a, std::abs(uR) + r.a);
                ok = std::abs(lam[0] - x0) <= st && std::abs(lam[1] - x0) <= st && std::abs(lam[2] - x0) <= st;
            }
            else if ((t == Roe_M1 || t == Roe_M5) && std::abs(uL) >= .3 * l.a && std::abs(uR) >= .3 * r.a)
            {
                x0 = std::max(std::abs(uL - l.a), std::abs(uR - r.a));
                x1 = std::max(std::abs(uL), std::abs(uR));
                x4 = std::max(std::abs(uL + l.a), std::abs(uR + r.a));
                ok = std::abs(lam[0] - x0) <= st && std::abs(lam[1] - x1) <= st && std::abs(lam[2] - x4) <= st;
            }
            if (!ok)
                BAD(vh::fmts("speed:%s", name), "wave speeds %g %g %g, average %Lg +- %Lg, left %Lg +- %Lg, right %Lg +- %Lg: %s", lam[0], lam[1], lam[2], un, ar, uL, l.a, uR, r.a, d.c_str());
        }
        // equal states with different mean states are still consistent
        VU<dim> Fc = callF<dim>(t, UL, UL, UL, UR, vg, n, g, dl, nullptr);
        VU<dim> Fd = callF<dim>(t, UL, UL, UR, UL, vg, n, g, dl, nullptr);
        ctx.nTrans += 2;
        if (!((Fc - FL).norm() <= tol && (Fd - FL).norm() <= tol))
            BAD(vh::fmts("consistencyM:%s", name), "equal states with different mean states: %s / %s, exact %s: %s", str(Fc).c_str(), str(Fd).c_str(), str(FL).c_str(), d.c_str());
    }

    template <int dim>
    void batchCase(vh::Ctx &ctx, int it, const std::vector<VU<dim>> &S, int iL, int iR, const VV<dim> &n, const VV<dim> &vg, double g, double dl, int nB)
    {
        auto [t, name] = RS[it];
        using MB = Eigen::Matrix<double, dim + 2, -1, Eigen::ColMajor, dim + 2, MaxBatch>;
        using MV = Eigen::Matrix<double, dim, -1, Eigen::ColMajor, dim, MaxBatch>;
        MB UL(dim + 2, nB), UR(dim + 2, nB), F(dim + 2, nB), Fe(dim + 2, nB);
        MV N(dim, nB), VG(dim, nB);
        VU<dim> Lm = S[iL], Rm = S[iR];
        for (int k = 0; k < nB; k++)
        {
            UL.col(k) = S[(iL + k * 7) % S.size()];
            UR.col(k) = S[(iR + k * 5) % S.size()];
            N.col(k) = n;
            VG.col(k) = vg;
            if (k == 1)
                UR.col(k) = UL.col(k);
        }
        double l[3], ls[3];
        auto dump = []() {};
        auto run = [&](const MB &UL, const MB &UR, const VU<dim> &Lm, const VU<dim> &Rm, const MV &VG, const VV<dim> &vgm, const MV &N, const VV<dim> &nm)
        {
            MB F(dim + 2, UL.cols());
            F.setConstant(777);
            InviscidFlux_IdealGas_Batch_Dispatcher<dim>(t, UL, UR, Lm, Rm, VG, vgm, N, nm, g, F, dl, dump, l[0], l[1], l[2]);
            return F;
        };
        F = run(UL, UR, Lm, Rm, VG, vg, N, n);
        ctx.nTrans++;
        ctx.nTraces++;
        std::string d = vh::fmts("%s batch of %d, dim %d, states %d %d n %s vg %s gamma %g", name, nB, dim, iL, iR, str(n).c_str(), str(vg).c_str(), g);
        double sc = 1e-300;
        for (int k = 0; k < nB; k++)
            sc = std::max(sc, fscale<dim>(UL.col(k), UR.col(k), vg, g));
        sc = std::max(sc, fscale<dim>(Lm, Rm, vg, g));
        double tol = 4e-11 * sc;
        if (!F.allFinite())
            BAD(vh::fmts("nan:%s", name), "flux not finite: %s", d.c_str());
        if (t != Roe_M1)
            for (int k = 0; k < nB; k++)
            {
                VU<dim> f = callF<dim>(t, UL.col(k), UR.col(k), Lm, Rm, vg, n, g, dl, ls);
                ctx.nTrans++;
                if (!((f - F.col(k)).norm() <= tol))
                    BAD(vh::fmts("batch:%s", name), "column %d: %s, single %s: %s", k, str(F.col(k)).c_str(), str(f).c_str(), d.c_str());
                if (!(std::abs(l[0] - ls[0]) + std::abs(l[1] - ls[1]) + std::abs(l[2] - ls[2]) <= 1e-12 * sc))
                    BAD(vh::fmts("batchspeed:%s", name), "wave speeds %g %g %g, single %g %g %g: %s", l[0], l[1], l[2], ls[0], ls[1], ls[2], d.c_str());
            }
        // curved face: normals differ from the mean one
        auto ns = normals<dim>();
        for (int k = 0; k < nB; k++)
        {
            VV<dim> x = n + .3 * ns[k % ns.size()];
            N.col(k) = x / x.norm();
            VG.col(k) = vg * (1 + .1 * k);
        }
        MB F1 = run(UL, UR, Lm, Rm, VG, vg, N, n), F2 = run(UR, UL, Rm, Lm, VG, vg, -N, -n), F3 = run(UL, UL, Lm, Rm, VG, vg, N, n);
        ctx.nTrans += 3;
        if (!((F1 + F2).norm() <= tol))
            BAD(vh::fmts("batchmirror:%s", name), "flipping changes the flux by %g: %s", (F1 + F2).norm(), d.c_str());
        for (int k = 0; k < nB; k++)
        {
            VU<dim> e = fluxD<dim>(UL.col(k), VG.col(k), N.col(k), g);
            if (!((F3.col(k) - e).norm() <= tol))
                BAD(vh::fmts("batchconsistency:%s", name), "column %d of equal states: %s, exact %s: %s", k, str(F3.col(k)).c_str(), str(e).c_str(), d.c_str());
        }
        for (int q = 0; q < 3; q++)
        {
            auto Q = rot<dim>(q);
            MB RL = UL, RR = UR;
            RL.template middleRows<dim>(1) = Q * UL.template middleRows<dim>(1);
            RR.template middleRows<dim>(1) = Q * UR.template middleRows<dim>(1);
            MB Fr = run(RL, RR, rotU<dim>(Q, Lm), rotU<dim>(Q, Rm), Q * VG, Q * vg, Q * N, Q * n);
            MB FQ = F1;
            FQ.template middleRows<dim>(1) = Q * F1.template middleRows<dim>(1);
            ctx.nTrans++;
            if (!((Fr - FQ).norm() <= tol))
                BAD(vh::fmts("batchrotation:%s", name), "rotating changes the flux by %g: %s", (Fr - FQ).norm(), d.c_str());
        }
        if (t == Roe_M1)
        { // its own batch: mean flux minus dissipation with the largest speeds of the two mean states
            St<dim> a(Lm, g), b(Rm, g);
            double ul = (double)(a.v - vg.template cast<ld>()).dot(n.template cast<ld>()), ur = (double)(b.v - vg.template cast<ld>()).dot(n.template cast<ld>());
            if (std::abs(ul) >= .3 * a.a && std::abs(ur) >= .3 * b.a)
                for (int k = 0; k < nB; k++)
                {
                    VU<dim> f = callF<dim>(t, UL.col(k), UR.col(k), Lm, Rm, vg, n, g, dl, ls);
                    if (!((f - F.col(k)).norm() <= tol))
                        BAD(vh::fmts("batch:%s", name), "column %d: %s, single %s: %s", k, str(F.col(k)).c_str(), str(f).c_str(), d.c_str());
                }
        }
    }

    template <int dim>
    void relations(vh::Ctx &ctx, const VU<dim> &U, double rho, const VV<dim> &v, double p, double g)
    {
        auto d = vh::fmts("dim %d rho %g v %s p %g gamma %g", dim, rho, str(v).c_str(), p, g);
        ctx.nTraces++;
        double su = U.norm();
        // conversions, with 0..2 additional variables
        for (int ex = 0; ex < 3; ex++)
        {
            Eigen::VectorXd W(dim + 2 + ex), P(dim + 2 + ex), W2(dim + 2 + ex), P2(dim + 2 + ex);
            W.head(dim + 2) = U;
            for (int i = 0; i < ex; i++)
                W(dim + 2 + i) = rho * (.3 + i);
            IdealGasThermalConservative2Primitive<dim>(W, P, g);
            Eigen::VectorXd Pe(dim + 2 + ex);
            Pe(0) = rho;
            Pe.segment(1, dim) = v;
            Pe(dim + 1) = p;
            for (int i = 0; i < ex; i++)
                Pe(dim + 2 + i) = .3 + i;
            double tp = 1e-12 * (1 + g * su + v.norm());
            if (!((P - Pe).norm() <= tp))
                BAD("cons2prim", "primitive %s, expected %s: %s", str(P).c_str(), str(Pe).c_str(), d.c_str());
            IdealGasThermalPrimitive2Conservative<dim>(P, W2, g);
            if (!((W2 - W).norm() <= 1e-12 * (1 + W.norm())))
                BAD("inverse", "conservative -> primitive -> conservative %s, start %s: %s", str(W2).c_str(), str(W).c_str(), d.c_str());
            IdealGasThermalPrimitive2Conservative<dim>(Pe, W2, g);
            IdealGasThermalConservative2Primitive<dim>(W2, P2, g);
            if (!((P2 - Pe).norm() <= tp))
                BAD("inverse", "primitive -> conservative -> primitive %s, start %s: %s", str(P2).c_str(), str(Pe).c_str(), d.c_str());
            ctx.nTrans += 4;
            if (ex == 0)
            {
                auto [p0, T0] = IdealGasThermalPrimitiveGetP0T0<dim>(Pe, g, .7);
                ld M2 = (ld)v.squaredNorm() * rho / (g * p);
                ld T = (ld)p / (rho * .7L) * (1 + (g - 1) / 2.L * M2), pe = p * std::pow(1 + (g - 1) / 2.L * M2, g / (g - 1.L));
                if (!(std::abs(p0 - pe) <= 1e-11 * pe && std::abs(T0 - T) <= 1e-11 * T))
                    BAD("stagnation", "p0 %g T0 %g, expected %Lg %Lg: %s", p0, T0, pe, T, d.c_str());
            }
        }
        // thermal
        {
            double pp, as, H;
            IdealGasThermal(U(dim + 1), U(0), v.squaredNorm(), g, pp, as, H);
            if (!(std::abs(pp - p) <= 1e-12 * (1 + g * su) && std::abs(as - g * p / rho) <= 1e-11 * (1 + g * su / rho) && std::abs(H - (U(dim + 1) + p) / rho) <= 1e-12 * (1 + g * su / rho)))
                BAD("thermal", "p %g a2 %g H %g: %s", pp, as, H, d.c_str());
        }
        // eigenvectors: numerical Jacobian of the x flux in extended precision
        auto Jac = [&](const VV<dim> &n, const VV<dim> &vg)
        {
            Eigen::Matrix<ld, dim + 2, dim + 2> J;
            for (int j = 0; j < dim + 2; j++)
            {
                ld h = 1e-3L * (1 + std::abs((ld)U(j))) * std::min<ld>(1, p) * std::min<ld>(1, rho);
                auto D = [&](ld h)
                {
                    Eigen::Vector<ld, -1> a = U.template cast<ld>(), b = a;
                    a(j) += h, b(j) -= h;
                    return VL<dim>((flux<dim>(a, vg.template cast<ld>(), n.template cast<ld>(), g) - flux<dim>(b, vg.template cast<ld>(), n.template cast<ld>(), g)) / (2 * h));
                };
                h /= 16;
                VL<dim> d1 = D(h), d2 = D(h / 2), d3 = D(h / 4), d4 = D(h / 8);
                VL<dim> e1 = (4 * d2 - d1) / 3, e2 = (4 * d3 - d2) / 3, e3 = (4 * d4 - d3) / 3;
                VL<dim> f1 = (16 * e2 - e1) / 15, f2 = (16 * e3 - e2) / 15;
                J.col(j) = (64 * f2 - f1) / 63;
            }
            return Eigen::Matrix<double, dim + 2, dim + 2>(J.template cast<double>());
        };
        VV<dim> e0;
        e0.setZero();
        e0(0) = 1;
        VV<dim> z;
        z.setZero();
        auto R = IdealGas_EulerGasRightEigenVector<dim>(U, g);
        auto L = IdealGas_EulerGasLeftEigenVector<dim>(U, g);
        ctx.nTrans += 2;
        double a = std::sqrt(g * p / rho);
        VU<dim> lam;
        lam.setConstant(v(0));
        lam(0) -= a;
        lam(dim + 1) += a;
        double sr = R.norm() * L.norm();
        Eigen::Matrix<double, dim + 2, dim + 2> I;
        I.setIdentity();
        if (!((L * R - I).norm() <= 1e-12 * sr && (R * L - I).norm() <= 1e-12 * sr))
            BAD("eigen-inverse", "left and right eigenvectors are not inverse: %g %g: %s", (L * R - I).norm(), (R * L - I).norm(), d.c_str());
        auto J0 = Jac(e0, z);
        if (!((R * lam.asDiagonal() * L - J0).norm() <= 1e-8 * (1 + J0.norm()) + 1e-12 * sr * lam.norm()))
            BAD("eigen-jacobian", "eigenvectors do not diagonalise the flux Jacobian: %g: %s", (R * lam.asDiagonal() * L - J0).norm(), d.c_str());
        // flux functions and increments
        for (auto &n : normals<dim>())
            for (int g3 = 0; g3 < 2; g3++)
            {
                VV<dim> vg = g3 * (.3 * n + VV<dim>::Constant(.2));
                VU<dim> F = VU<dim>::Constant(777), Fx = F, Fe = fluxD<dim>(U, vg, n, g);
                GasInviscidFlux_XY<dim>(U, v, vg, n, p, F);
                GasInviscidFlux<dim>(U, v, vg, p, Fx);
                double tf = 1e-12 * fscale<dim>(U, U, vg, g);
                if (!((F - Fe).norm() <= tf))
                    BAD("flux", "flux %s, exact %s: %s", str(F).c_str(), str(Fe).c_str(), d.c_str());
                if (!((Fx - fluxD<dim>(U, vg, e0, g)).norm() <= tf))
                    BAD("fluxx", "x flux %s: %s", str(Fx).c_str(), d.c_str());
                // batch forms
                for (int nB = 1; nB <= 3; nB++)
                {
                    Eigen::Matrix<double, dim + 2, -1> UB(dim + 2, nB), FB(dim + 2, nB), FX(dim + 2, nB);
                    Eigen::Matrix<double, dim, -1> vB(dim, nB), gB(dim, nB), NB(dim, nB);
                    Eigen::RowVectorXd pB(nB);
                    for (int k = 0; k < nB; k++)
                    {
                        VV<dim> vk = v * (1 + k) + VV<dim>::Constant(.1 * k);
                        UB.col(k) = cons<dim>(rho + k, vk, p + k, g);
                        vB.col(k) = vk;
                        pB(k) = p + k;
                        gB.col(k) = vg * (1 - .5 * k);
                        NB.col(k) = k == 1 ? e0 : n;
                    }
                    GasInviscidFlux_XY_Batch<dim>(UB, vB, gB, NB, pB, FB);
                    GasInviscidFlux_Batch<dim>(UB, vB, gB, pB, FX);
                    for (int k = 0; k < nB; k++)
                    {
                        VU<dim> e = fluxD<dim>(UB.col(k), gB.col(k), NB.col(k), g), ex = fluxD<dim>(UB.col(k), gB.col(k), e0, g);
                        double tk = 1e-12 * fscale<dim>(UB.col(k), UB.col(k), vg, g);
                        if (!((FB.col(k) - e).norm() <= tk && (FX.col(k) - ex).norm() <= tk))
                            BAD("fluxbatch", "batch flux column %d of %d: %s, exact %s: %s", k, nB, str(FB.col(k)).c_str(), str(e).c_str(), d.c_str());
                    }
                    ctx.nTrans += 2;
                }
                auto J = Jac(n, vg);
                for (int j = 0; j < dim + 3; j++)
                {
                    VU<dim> dU;
                    dU.setZero();
                    if (j < dim + 2)
                        dU(j) = 1;
                    else
                        for (int i = 0; i < dim + 2; i++)
                            dU(i) = .3 - .17 * i;
                    VV<dim> dv;
                    double dp;
                    IdealGasUIncrement<dim>(U, dU, v, g, dv, dp);
                    VV<dim> dve = (dU.template segment<dim>(1) - v * dU(0)) / rho;
                    double dpe = (g - 1) * (dU(dim + 1) - v.dot(dU.template segment<dim>(1)) + .5 * v.squaredNorm() * dU(0));
                    double ti = 1e-12 * (1 + v.squaredNorm()) * (1 + 1 / rho);
                    if (!((dv - dve).norm() <= ti && std::abs(dp - dpe) <= ti))
                        BAD("increment", "velocity/pressure increment %s %g, expected %s %g: %s", str(dv).c_str(), dp, str(dve).c_str(), dpe, d.c_str());
                    VU<dim> dF = VU<dim>::Constant(777);
                    GasInviscidFluxFacialIncrement<dim>(U, dU, n, v, dv, vg, dp, p, dF);
                    if (!((dF - J * dU).norm() <= 1e-8 * (1 + J.norm()) * (1 + dU.norm())))
                        BAD("fluxincrement", "flux increment %s, Jacobian times increment %s: %s", str(dF).c_str(), str(J * dU).c_str(), d.c_str());
                    ctx.nTrans += 2;
                }
            }
        // gradients
        for (int ex = 0; ex < 3; ex++)
        {
            Eigen::VectorXd W(dim + 2 + ex);
            W.head(dim + 2) = U;
            for (int i = 0; i < ex; i++)
                W(dim + 2 + i) = rho * (.3 + i);
            Eigen::Matrix<double, dim, -1> GU(dim, dim + 2 + ex), GP(dim, dim + 2 + ex), GE(dim, dim + 2 + ex);
            for (int i = 0; i < dim; i++)
                for (int j = 0; j < dim + 2 + ex; j++)
                    GU(i, j) = std::sin(1 + 3 * i + 7 * j) * 2;
            GradientCons2Prim_IdealGas<dim>(W, GU, GP, g);
            for (int i = 0; i < dim; i++)
            {
                VU<dim> dU = GU.row(i).head(dim + 2).transpose();
                GE(i, 0) = dU(0);
                GE.row(i).segment(1, dim) = ((dU.template segment<dim>(1) - v * dU(0)) / rho).transpose();
                GE(i, dim + 1) = (g - 1) * (dU(dim + 1) - v.dot(dU.template segment<dim>(1)) + .5 * v.squaredNorm() * dU(0));
                for (int k = 0; k < ex; k++)
                    GE(i, dim + 2 + k) = (GU(i, dim + 2 + k) - (.3 + k) * dU(0)) / rho;
            }
            double tg = 1e-11 * (1 + GE.norm()) * (1 + v.squaredNorm()) * (1 + 1 / rho);
            if (!((GP - GE).norm() <= tg))
                BAD("gradient", "gradient of primitive variables differs by %g: %s", (GP - GE).norm(), d.c_str());
            Eigen::Matrix<double, dim, dim> gv = GetGradVelo<dim>(W, GU);
            if (!((gv - GE.middleCols(1, dim)).norm() <= tg))
                BAD("gradvelo", "velocity gradient differs by %g: %s", (gv - GE.middleCols(1, dim)).norm(), d.c_str());
            ctx.nTrans += 2;
            if (ex)
                continue;
            // viscous flux
            for (auto &n : normals<dim>())
                for (int f = 0; f < 4; f++)
                {
                    bool adi = f & 1, qcr = f & 2;
                    double mu = .37, k = .9, Cp = 1.3, mt = .6;
                    VU<dim> F = VU<dim>::Constant(777);
                    ViscousFlux_IdealGas<dim>(U, GE, n, adi, g, mu, mt, qcr, k, Cp, F);
                    Eigen::Matrix<double, dim, dim> D = GE.middleCols(1, dim), T = mu * (D + D.transpose());
                    for (int i = 0; i < dim; i++)
                        T(i, i) -= 2. / 3 * mu * D.trace();
                    if (qcr)
                    {
                        Eigen::Matrix<double, dim, dim> O = (D.transpose() - D) / D.norm(), X;
                        for (int i = 0; i < dim; i++)
                            for (int j = 0; j < dim; j++)
                            {
                                X(i, j) = 0;
                                for (int q = 0; q < dim; q++)
                                    X(i, j) += O(i, q) * T(j, q) + O(j, q) * T(i, q);
                            }
                        T -= .3 * mt * X;
                    }
                    // T = p / (rho Rg), Rg = Cp (g-1)/g
                    VV<dim> gT = g / ((g - 1) * Cp) * (GE.col(dim + 1) / rho - GE.col(0) * p / (rho * rho));
                    VU<dim> E;
                    E(0) = 0;
                    E.template segment<dim>(1) = T * n;
                    E(dim + 1) = n.dot(T * v) + (adi ? 0 : k * gT.dot(n));
                    if (!((F - E).norm() <= 1e-11 * (1 + E.norm() + T.norm() * (1 + v.norm()) + gT.norm())))
                        BAD("viscous", "viscous flux %s, expected %s (adiabatic %d, quadratic relation %d): %s", str(F).c_str(), str(E).c_str(), adi, qcr, d.c_str());
                    ctx.nTrans++;
                }
        }
    }

    template <int dim>
    void roeAvg(vh::Ctx &ctx, const VU<dim> &UL, const VU<dim> &UR, double g)
    {
        VV<dim> vr;
        double vs, a, as, H;
        GetRoeAverage<dim>(UL, UR, g, vr, vs, a, as, H);
        ctx.nTrans++;
        ctx.nTraces++;
        auto d = vh::fmts("dim %d UL %s UR %s gamma %g", dim, str(UL).c_str(), str(UR).c_str(), g);
        double sc = 1e-11 * fscale<dim>(UL, UR, VV<dim>::Zero(), g);
        if (!(std::abs(vs - vr.squaredNorm()) <= 1e-12 * (1 + vs) && std::abs(a * a - as) <= 1e-12 * as && std::abs(as - (g - 1) * (H - vs / 2)) <= 1e-12 * (1 + H * g)))
            BAD("roeavg", "Roe average inconsistent: %s", d.c_str());
        VU<dim> dU = UR - UL;
        for (auto &n : normals<dim>())
        {
            VV<dim> z = VV<dim>::Zero();
            VU<dim> dF = fluxD<dim>(UR, z, n, g) - fluxD<dim>(UL, z, n, g);
            double un = vr.dot(n);
            VU<dim> r = VU<dim>::Zero();
            RoeFluxIncFDiff<dim>(dU, n, vr, vs, a, as, H, un - a, un, un + a, g, r); // signed speeds: A (UR - UL)
            if (!((r - dF).norm() <= sc))
                BAD("roeproperty", "Roe matrix times jump %s, flux jump %s: %s", str(r).c_str(), str(dF).c_str(), d.c_str());
            VU<dim> o = VU<dim>::Constant(2.5); // accumulates
            RoeFluxIncFDiff<dim>(dU, n, vr, vs, a, as, H, 1, 1, 1, g, o);
            if (!((o - VU<dim>::Constant(2.5) - dU).norm() <= sc))
                BAD("roeidentity", "unit speeds do not reproduce the jump: %s, %s: %s", str(o).c_str(), str(dU).c_str(), d.c_str());
            // speeds seen separately
            for (int w = 0; w < 3; w++)
            {
                VU<dim> x = VU<dim>::Zero(), y = x;
                RoeFluxIncFDiff<dim>(dU, n, vr, vs, a, as, H, w == 0, w == 1, w == 2, g, x);
                RoeFluxIncFDiff<dim>(x, n, vr, vs, a, as, H, w == 0, w == 1, w == 2, g, y);
                if (!((x - y).norm() <= 10 * sc * (1 + 1 / a)))
                    BAD("roeprojection", "wave family %d is not a projection: %s", w, d.c_str());
                ctx.nTrans += 2;
            }
        }
    }

    template <int dim, int scheme, int nv>
    void compress(vh::Ctx &ctx, const VU<dim> &U, const Eigen::VectorXd &inc, double target, const std::string &d)
    {
        Eigen::Vector<double, nv> u, du;
        u.setZero(), du.setZero();
        u.head(dim + 2) = U;
        du.head(dim + 2) = inc;
        for (int i = dim + 2; i < nv; i++)
            u(i) = .3, du(i) = -.7;
        double al = IdealGasGetCompressionRatioPressure<dim, scheme, nv>(u, du, target);
        ctx.nTrans++;
        ctx.nTraces++;
        auto e = [&](ld al)
        {
            ld r = (ld)u(0) + al * du(0), q = 0;
            for (int i = 1; i <= dim; i++)
                q += ((ld)u(i) + al * du(i)) * ((ld)u(i) + al * du(i));
            return (ld)u(dim + 1) + al * du(dim + 1) - q / r / 2;
        };
        ld tgt = std::max<ld>(target, 0);
        if (!(al >= 0 && al <= 1))
            BAD("ratio-range", "ratio %g outside [0,1]: %s", al, d.c_str());
        if (!(e(al) >= tgt - 1e-13L * ((ld)u(dim + 1))))
            BAD("ratio-positivity", "internal energy %Lg with ratio %g is below the bound %g (start %Lg, full increment %Lg): %s", e(al), al, target, e(0), e(1), d.c_str());
        if (!(u(0) + al * du(0) > 0))
            BAD("ratio-density", "density %g: %s", u(0) + al * du(0), d.c_str());
        if (e(1) >= tgt)
            return; // an admissible increment may be shortened
        if (scheme == 0)
        { // not far below the largest admissible ratio
            ld lo = 0, hi = 1;
            if (e(1) < tgt)
            {
                for (int k = 0; k < 100; k++)
                {
                    ld m = (lo + hi) / 2;
                    (e(m) >= tgt ? lo : hi) = m;
                }
            }
            else
                lo = 1;
            if (!(al >= .97L * lo - 1e-9L))
                BAD("ratio-needless", "ratio %g although %Lg is admissible: %s", al, lo, d.c_str());
        }
        else
        { // secant estimate: the internal energy is concave along the increment
            ld est = e(1) >= e(0) ? 1 : std::min<ld>(1, (e(0) - tgt) / (e(0) - e(1)));
            if (!(al >= .97L * est - 1e-9L))
                BAD("ratio-needless", "ratio %g although %Lg is admissible: %s", al, est, d.c_str());
        }
    }

    template <int dim>
    void all(vh::Ctx &ctx)
    {
        for (double g : {1.4, 5. / 3})
        {
            G<dim> gr(true);
            for (double rho : {1., .02, 6., 1e3})
                for (double p : {1., 1e-2, 30., 1e5})
                    if (ctx.take("relations dim %d gamma %g rho %g p %g", dim, g, rho, p))
                        for (auto &v0 : gr.vels)
                            for (auto &n : normals<dim>())
                            {
                                VV<dim> v = frame<dim>(n) * v0;
                                relations<dim>(ctx, cons<dim>(rho, v, p, g), rho, v, p, g);
                            }
        }
        for (double g : {1.4, 5. / 3})
        {
            if (g > 1.5 && !ctx.thorough)
                continue;
            G<dim> gr(true);
            std::vector<VU<dim>> S0;
            for (double r : gr.rhos)
                for (double p : gr.ps)
                    for (auto &v : gr.vels)
                        S0.push_back(cons<dim>(r, v, p, g));
            int N = S0.size();
            for (int i = 0; i < N; i++)
                if (ctx.take("roe averages dim %d gamma %g left state %d", dim, g, i))
                    for (int j = 0; j < N; j++)
                        roeAvg<dim>(ctx, S0[i], S0[j], g);
            auto ns = normals<dim>();
            for (int in = 0; in < (int)ns.size(); in++)
            {
                auto B = frame<dim>(ns[in]);
                std::vector<VU<dim>> S;
                for (auto &u : S0)
                    S.push_back(rotU<dim>(B, u));
                for (int ig = 0; ig < 3; ig++)
                {
                    VV<dim> vg = VV<dim>::Zero();
                    if (ig == 1)
                        vg = .8 * ns[in];
                    if (ig == 2)
                        vg = -1.7 * ns[in] + .4 * B.col(1);
                    for (double dl : {0., .5})
                        for (int it = 0; it < (int)RS.size(); it++)
                        {
                            if (dl != 0 && RS[it].first != Roe)
                                continue;
                            for (int i = 0; i < N; i++)
                                if (ctx.take("flux %s dim %d gamma %g direction %d grid velocity %d left state %d dLambda %g", RS[it].second, dim, g, in, ig, i, dl))
                                    for (int j = 0; j < N; j++)
                                        fluxCase<dim>(ctx, it, S[i], S[j], ns[in], vg, g, dl);
                            if (RS[it].first == HLLC || RS[it].first == HLLEP || RS[it].first == HLLEP_V1)
                                continue;
                            for (int i = 0; i < N; i++)
                                if (ctx.take("batch flux %s dim %d gamma %g direction %d grid velocity %d left mean state %d dLambda %g", RS[it].second, dim, g, in, ig, i, dl))
                                    for (int j = 0; j < N; j++)
                                        batchCase<dim>(ctx, it, S, i, j, ns[in], vg, g, dl, 1 + (i + j) % 4);
                        }
                }
            }
        }
        // positivity
        std::vector<double> C{0, 1, -1, .3, -.3, 5, -5};
        std::vector<double> CR{0, -.5, -.99, 3, .1};
        for (double rho : {1., .02, 1e3})
            for (double p : {1., 1e-4, 1e4})
                for (double m : {0., .5, 10.})
                {
                    VV<dim> v = VV<dim>::Constant(.3 * m);
                    v(0) = m;
                    VU<dim> U = cons<dim>(rho, v, p, 1.4);
                    double e = p / .4, a = std::sqrt(1.4 * p / rho);
                    for (double tf : {0., 1e-6, .3, .9})
                        if (ctx.take("increment ratio dim %d rho %g p %g v %g bound %g", dim, rho, p, m, tf * e))
                            for (double cr : CR)
                                for (double c1 : C)
                                    for (double c2 : C)
                                        for (double ce : C)
                                            for (double s : {1., 1e-6})
                                            {
                                                if (s != 1 && tf < .9)
                                                    continue;
                                                VU<dim> du = VU<dim>::Zero();
                                                du(0) = cr * rho;
                                                du(1) = c1 * rho * (a + m);
                                                du(dim) += c2 * rho * (a + m);
                                                du(dim + 1) = ce * U(dim + 1);
                                                du *= s;
                                                double rn = U(0) + du(0);
                                                double en = U(dim + 1) + du(dim + 1) - .5 * (U + du).template segment<dim>(1).squaredNorm() / rn;
                                                double tgt = tf * e;
                                                if (!(en < 2 * tgt || en < 1e-300)) // only called on violation
                                                    continue;
                                                if (tf == 0 && !(en < 0))
                                                    continue;
                                                std::string d = vh::fmts("u %s increment %s bound %g", str(U).c_str(), str(du).c_str(), tgt);
                                                compress<dim, 0, dim + 2>(ctx, U, du, tgt, d);
                                                compress<dim, 1, dim + 2>(ctx, U, du, tgt, d);
                                                compress<dim, 0, dim + 3>(ctx, U, du, tgt, d);
                                                compress<dim, 1, dim + 4>(ctx, U, du, tgt, d);
                                            }
                }
    }
#ifdef GAS_DIM3
    void gas3(vh::Ctx &ctx) { all<3>(ctx); }
}
#else
    void gas3(vh::Ctx &ctx);
    void body(vh::Ctx &ctx)
    {
        all<2>(ctx);
        gas3(ctx);
    }
}
int main(int argc, char **argv)
{
    return vh::run(argc, argv, DNDS::vf::body);
}
#endif
