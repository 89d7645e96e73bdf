// C26..: the flow evaluator on all assignments of cells to ranks of small meshes, executed by the real code in the
// simulated MPI world, against an independent cell-wise evaluation and against its serial run.
#include "eulerfix.hpp"
namespace DNDS::vf
{
    static std::string kindOf(int zone)
    {
        switch (zone)
        {
        case cFarDef:
        case cFar: return "far";
        case cWallDef:
        case cWall: return "wall";
        case cSlipDef:
        case cSlip: return "slip";
        case cSym: return "sym";
        case cOut: return "out";
        case cOutP: return "outp";
        case cIn: return "in";
        case cStag: return "stag";
        }
        return "?";
    }
    struct Rot
    {
        bool on = false;
        V3 om = V3::Zero(), c = V3::Zero();
        VD vg(const V3 &p) const
        {
            V3 v = on ? V3(om.cross(p - c)) : V3(V3::Zero());
            return v.head<DIM>();
        }
    };
    static double sound(const VX &w) { return std::sqrt(GAM * w[I4] / w[0]); }
    // the state behind a boundary
    static VX beyond(const VX &UL, int zone, const VD &n, const V3 &p, const Rot &rot, const VX &farDefault)
    {
        std::string k = kindOf(zone);
        VX w = cons2prim(UL);
        if (k == "far" || k == "outp")
        {
            VX f = cons2prim(zone == cFarDef ? farDefault : prim2cons(bcPrim(zone == cFar ? 0 : 2)));
            double un = 0, a = sound(w);
            for (int d = 0; d < DIM; d++)
                un += (w[1 + d] - rot.vg(p)[d]) * n[d];
            if (un > a)
                return UL;
            if (un > 0)
            {
                w[I4] = f[I4];
                return prim2cons(w);
            }
            if (un > -a)
            {
                f[I4] = w[I4];
                return prim2cons(f);
            }
            return prim2cons(f);
        }
        if (k == "slip" || k == "sym")
        {
            double un = 0;
            for (int d = 0; d < DIM; d++)
                un += (w[1 + d] - rot.vg(p)[d]) * n[d];
            // mirrored in the frame of the wall; the mean normal of a warped face is shorter than one and must not change the internal energy there
            VX r = UL;
            r.segment(1, DIM) -= 2 * un * w[0] * n;
            r[I4] -= 2 * un * w[0] * rot.vg(p).dot(n);
            return r;
        }
        if (k == "wall")
        {
            // a wall at rest in the rotating frame unless it is marked as standing still in the fixed frame
            VD wv = zone == cWall ? VD(VD::Zero()) : rot.vg(p);
            for (int d = 0; d < DIM; d++)
                w[1 + d] = 2 * wv[d] - w[1 + d];
            return prim2cons(w);
        }
        if (k == "out")
            return UL;
        if (k == "in")
            return prim2cons(bcPrim(3));
        if (k == "stag")
        {
            VX s = stagValue();
            double Cp = GAM / (GAM - 1), q = 0;
            for (int d = 0; d < DIM; d++)
                q += w[1 + d] * w[1 + d];
            q = std::min(q, 2 * Cp * s[1] * 0.95);
            double T = s[1] - q / (2 * Cp), pp = s[0] * std::pow(T / s[1], GAM / (GAM - 1));
            VX r = s;
            r[0] = pp / T, r[I4] = pp;
            VD d = s.segment(2, DIM);
            r.segment(1, DIM) = d / d.norm() * std::sqrt(q);
            return prim2cons(r);
        }
        DNDS_assert(false);
        return UL;
    }
    struct SharedE
    {
        std::vector<VX> rhs, dt; // serial results by cell
        std::vector<double> dtMin;
        bool have = false;
        MX A, A0; // implicit operator: now, serial
    };
    struct Res : Fix
    {
        SharedE &sh;
        Rot rot;
        VX farDef;
        Res(vh::Ctx &c, const SMesh &m, const Spec &s, int r, SharedE &sh) : Fix{c, m, s, r}, sh(sh) {}

        // rotation that brings data of the neighbour o across face f next to cell i
        double angle(index i, index o, index f)
        {
            if (!m.rot)
                return 0;
            V3 b = vfv->GetCellBary(o), t = vfv->GetOtherCellBaryFromCell(i, o, f);
            for (double a : {0., m.rot, -m.rot})
            {
                V3 rc(m.rc[0], m.rc[1], m.rc[2]), q = b - rc;
                q = Eigen::AngleAxisd(a, V3(0, 0, 1)) * q;
                if ((q + rc - t).template head<2>().norm() < 1e-9) // translations turn nothing
                    return a;
            }
            bad("angle", "cell %d: its neighbour is turned by an unknown angle", id(i));
            return 0;
        }
        static MD rmat(double a)
        {
            MD R = MD::Identity();
            R(0, 0) = R(1, 1) = std::cos(a), R(1, 0) = std::sin(a), R(0, 1) = -std::sin(a);
            return R;
        }
        static VX turn(VX u, double a)
        {
            if (a)
                u.segment(1, DIM) = (rmat(a) * u.segment(1, DIM)).eval();
            return u;
        }
        static MX turnG(MX g, double a)
        {
            if (a)
            {
                MD R = rmat(a);
                g = (R * g).eval();
                g.middleCols(1, DIM) = (g.middleCols(1, DIM) * R.transpose()).eval();
            }
            return g;
        }
        bool direct() { return sp.flags & Eval::RHS_Direct_2nd_Rec; } // linear reconstruction with limited gradients
        VX trace(index i, index f, int g, Euler::ArrayRECV<NVF> &rec)
        {
            if (direct())
            {
                V3 d = vfv->GetFaceQuadraturePPhysFromCell(f, i, -1, -1) - vfv->GetCellQuadraturePPhys(i, -1);
                return VX(u[i]) + VX(ev->uGradBuf[i].transpose() * d.template head<GD>());
            }
            RowVectorXR D = vfv->GetIntPointDiffBaseValue(i, f, -1, g, std::array<int, 1>{0}, 1);
            return VX(u[i]) + VX((D * rec[i]).transpose());
        }
        MX grad(index i, index f, int g, Euler::ArrayRECV<NVF> &rec)
        {
            MX G = MX::Zero(DIM, NV);
            if (direct())
            {
                G.topRows(GD) = ev->uGradBuf[i];
                return G;
            }
            MatrixXR D = vfv->GetIntPointDiffBaseValue(i, f, -1, g, Eigen::seq(Eigen::fix<1>, Eigen::fix<GD>), GD + 1);
            G.topRows(GD) = D * rec[i];
            return G;
        }
        static MX gradPrim(const VX &U, const MX &G) // of (rho, v, p, phi...)
        {
            MX P = G;
            VX w = cons2prim(U);
            for (int d = 0; d < DIM; d++)
                P.col(1 + d) = (G.col(1 + d) - w[1 + d] * G.col(0)) / U[0];
            P.col(I4) = G.col(I4);
            for (int d = 0; d < DIM; d++)
                P.col(I4) += -w[1 + d] * G.col(1 + d) + 0.5 * w[1 + d] * w[1 + d] * G.col(0);
            P.col(I4) *= GAM - 1;
            for (int k = I4 + 1; k < NV; k++)
                P.col(k) = (G.col(k) - w[k] * G.col(0)) / U[0];
            return P;
        }
        double mu(const VX &U)
        {
            VX w = cons2prim(U);
            auto &g = ev->settings.idealGasProperty;
            double T = w[I4] / w[0];
            if (g.muModel == 0)
                return g.muGas;
            if (g.muModel == 1)
                return g.muGas * std::pow(T / g.TRef, 1.5) * (g.TRef + g.CSutherland) / (T + g.CSutherland);
            return g.muGas * U[0];
        }
        // flux through a face in direction n, at all its points; L is the cell the face belongs to
        void fluxes(index f, const MX &UL, const MX &UR, const VX &ULm, const VX &URm, const std::vector<MX> &GP, const MX &N, const MX &VG, const VD &nC, const VD &vgC, double dLam, int zone, MX &F, bool vis)
        {
            auto &s = ev->settings;
            int nB = UL.cols();
            F.resize(NV, nB);
            using TB = Eval::TU_Batch;
            auto rs = s.rsType;
            if (s.rsTypeWall != Euler::Gas::UnknownRS && kindOf(zone) == "wall")
                rs = s.rsTypeWall;
            auto along = [&](Euler::Gas::RiemannSolverType rs, const MX &Nn, const VD &nc, MX &out, VX &lam)
            {
                out.resize(NV, nB);
                lam.resize(nB);
                auto dump = []() {};
                if (s.rsMeanValueEig && rs >= Euler::Gas::Roe_M1 && rs <= Euler::Gas::Roe_M5)
                {
                    TB a = UL, b = UR, o = out;
                    Eval::TVec_Batch vg = VG, nn = Nn;
                    Eval::TU am = ULm, bm = URm;
                    Eval::TVec vc = vgC, nC2 = nc;
                    double l0, l1, l4;
                    Euler::Gas::InviscidFlux_IdealGas_Batch_Dispatcher<DIM>(rs, a, b, am, bm, vg, vc, nn, nC2, GAM, o, dLam, dump, l0, l1, l4);
                    out = o, lam.setConstant(l1);
                }
                else
                    for (int k = 0; k < nB; k++)
                    {
                        Eval::TU a = UL.col(k), b = UR.col(k), am = ULm, bm = URm, o = a;
                        Eval::TVec vg = VG.col(k), nn = Nn.col(k);
                        double l0, l1, l4;
                        Euler::Gas::InviscidFlux_IdealGas_Dispatcher<DIM>(rs, a, b, am, bm, vg, nn, GAM, o, dLam, dump, l0, l1, l4);
                        out.col(k) = o, lam[k] = l1;
                    }
            };
            VX lam;
            VD dv = URm.segment(1, DIM) / URm[0] - ULm.segment(1, DIM) / ULm[0];
            if (!s.rsRotateScheme || dv.norm() < 1e-8)
                along(rs, N, nC, F, lam);
            else
            {
                VD d = dv / dv.norm();
                MX N1(DIM, nB), N2 = N, F1, F2;
                VX a1(nB), a2(nB), l1, l2;
                for (int k = 0; k < nB; k++)
                {
                    VD n1 = d.dot(N.col(k)) < 0 ? VD(-d) : d; // each part is weighed with a positive factor
                    N1.col(k) = n1, a1[k] = n1.dot(N.col(k));
                    VD n2 = N.col(k) - a1[k] * n1;
                    a2[k] = n2.norm();
                    N2.col(k) = n2 / std::max(a2[k], 1e-9);
                }
                VD c1 = d.dot(nC) < 0 ? VD(-d) : d, c2 = nC - c1.dot(nC) * c1;
                auto aux = s.rsTypeAux == Euler::Gas::UnknownRS ? rs : s.rsTypeAux;
                along(aux, N1, c1, F1, l1);
                along(rs, N2, c2 / std::max(c2.norm(), 1e-9), F2, l2);
                F = F1 * a1.asDiagonal();
                F += F2 * a2.asDiagonal();
                lam = (a1.cwiseProduct(l1) + a2.cwiseProduct(l2)).cwiseQuotient(a1 + a2);
            }
            for (int k = 0; k < nB; k++)
            {
                VD n = N.col(k), vg = VG.col(k);
                VX U = 0.5 * (UL.col(k) + UR.col(k));
                double vL = (UL.col(k).segment(1, DIM) / UL(0, k) - vg).dot(n), vR = (UR.col(k).segment(1, DIM) / UR(0, k) - vg).dot(n);
                for (int q = I4 + 1; q < NV; q++)
                    F(q, k) = 0.5 * (vL * UL(q, k) + vR * UR(q, k) - lam[k] * (UR(q, k) - UL(q, k)));
                if (NV == I4 + 3) // turbulent pressure
                {
                    double pt = 2. / 3 * U[I4 + 1];
                    F.col(k).segment(1, DIM) += pt * n;
                    F(I4, k) += pt * U.segment(1, DIM).dot(n) / U[0];
                }
                if (!vis)
                    continue;
                MX G = GP[k];
                VX w = cons2prim(U);
                double m0 = mu(U), mt = 0;
                if (NV == I4 + 2)
                {
                    double chi = U[I4 + 1] * s.idealGasProperty.muGas / m0;
                    if (chi < 10)
                        chi = 0.05 * std::log(1 + std::exp(20 * chi));
                    mt = m0 * chi * std::pow(chi, 3) / (std::pow(chi, 3) + std::pow(7.1, 3));
                }
                if (NV == I4 + 3)
                {
                    Eval::TU Ut = U;
                    Eval::TDiffU Gt = lastGC[k];
                    mt = ev->getMuTur(Ut, Gt, s.idealGasProperty.muGas, m0, f);
                }
                double mm = m0 + mt, Cp = GAM / (GAM - 1) * s.idealGasProperty.Rgas, kc = Cp * (m0 / s.idealGasProperty.prGas + mt / 0.9);
                MD S = G.middleCols(1, DIM), tau = mm * (S + S.transpose());
                tau.diagonal().array() -= mm * 2. / 3 * S.trace();
                VD tn = tau * n;
                VD gT = (G.col(I4) - w[I4] / w[0] * G.col(0)) / w[0] / s.idealGasProperty.Rgas;
                F.col(k).segment(1, DIM) -= tn;
                F(I4, k) -= tn.dot(w.segment(1, DIM)) + kc * gT.dot(n) * (kindOf(zone) == "wall" ? 1 - n.squaredNorm() : 1); // no heat through walls: the part along the normal is removed
                if (NV == I4 + 2)
                {
                    double fn = 1, chi = U[I4 + 1] * s.idealGasProperty.muGas / m0;
                    if (U[I4 + 1] < 0)
                        fn = (16 + chi * chi * chi) / (16 - chi * chi * chi);
                    F(I4 + 1, k) -= G.col(I4 + 1).dot(n) * (m0 + U[I4 + 1] * s.idealGasProperty.muGas * fn) * 1.5;
                }
            }
        }
        std::vector<MX> lastGC;
        struct FaceSum
        {
            VX flux;     // integral of the flux out of the cell
            VD tang = VD::Zero(); // integral of the tangential force
            double area = 0;
        };
        FaceSum faceOf(index i, int k)
        {
            auto &s = ev->settings;
            bool vis = !(sp.flags & Eval::RHS_Ignore_Viscosity);
            index f = mesh->cell2face(i, k), o = vfv->CellFaceOther(i, f);
            bool back = vfv->CellIsFaceBack(i, f);
            double sg = back ? 1 : -1, A = vfv->GetFaceArea(f);
            int zone = mesh->GetFaceZone(f);
            auto q = vfv->GetFaceQuad(f);
            int nB = direct() ? 1 : q.GetNumPoints();
            double ang = o == UnInitIndex ? 0 : angle(i, o, f);
            MX UI(NV, nB), UJ(NV, nB), N(DIM, nB), VG(DIM, nB);
            std::vector<MX> GP(nB);
            lastGC.resize(nB);
            std::string kind = o == UnInitIndex ? kindOf(zone) : "inside";
            VD nC = (vfv->GetFaceNormFromCell(f, i, -1, -1) * sg).template head<DIM>();
            VX Im = u[i], Jm;
            V3 pC = vfv->GetFaceQuadraturePPhysFromCell(f, i, -1, -1);
            if (o != UnInitIndex)
                Jm = turn(u[o], ang);
            else
                Jm = bnd(Im, Im, zone, nC, pC, i, false);
            // largest jump of the wave speeds between the cells
            double dLam = 0;
            if (o != UnInitIndex)
            {
                VX a = cons2prim(Im), b = cons2prim(Jm);
                dLam = std::abs((b.segment(1, DIM) - a.segment(1, DIM)).dot(nC)) + 0.7071 * std::sqrt(std::abs(GAM * b[I4] / b[0] - GAM * a[I4] / a[0]));
            }
            double vol = vfv->GetCellVol(i);
            if (o != UnInitIndex)
                vol = std::min(vol, vfv->GetCellVol(o));
            double dist = 2 * vol / A;
            bool noJump = kind == "slip" || kind == "sym" || (kind == "wall" && s.noGRPOnWall);
            bool noVis = kind == "slip" || kind == "sym" || kind == "far" || kind == "out";
            for (int g = 0; g < nB; g++)
            {
                int gq = direct() ? -1 : g;
                V3 p = vfv->GetFaceQuadraturePPhysFromCell(f, i, -1, gq);
                VD n = (vfv->GetFaceNormFromCell(f, i, -1, gq) * sg).template head<DIM>();
                N.col(g) = n;
                VG.col(g) = rot.vg(p);
                VX a = trace(i, f, g, lim()), b, aU = trace(i, f, g, uRec), bU;
                MX ga = grad(i, f, g, uRec), gb = ga;
                if (o != UnInitIndex)
                {
                    b = turn(trace(o, f, g, lim()), ang), bU = turn(trace(o, f, g, uRec), ang);
                    gb = turnG(grad(o, f, g, uRec), ang);
                }
                else
                {
                    b = bnd(a, Im, zone, n, p, i, true);
                    if (!sp.limited)
                        aU = a; // a wall may have fixed the inner trace
                    bU = b;
                }
                VX m0 = 0.5 * (a + b);
                MX gm = 0.5 * (ga + gb);
                if (!noJump)
                    gm += n * (bU - aU).transpose() / dist;
                MX gp;
                if (s.usePrimGradInVisFlux)
                {
                    gp = 0.5 * (gradPrim(a, ga) + gradPrim(b, gb));
                    if (!noJump)
                        gp += n * (cons2prim(b) - cons2prim(a)).transpose() / dist;
                }
                else
                    gp = gradPrim(m0, gm);
                if (noVis)
                    gm.setZero(), gp.setZero();
                if (kind == "wall" && s.noRsOnWall)
                {
                    VX w = cons2prim(a);
                    w.segment(1, DIM).setZero();
                    a = b = prim2cons(w);
                }
                UI.col(g) = a, UJ.col(g) = b, GP[g] = gp, lastGC[g] = gm;
            }
            MX F;
            if (back)
                fluxes(f, UI, UJ, Im, Jm, GP, N, VG, nC, rot.vg(pC), dLam, zone, F, vis);
            else
            {
                fluxes(f, UJ, UI, Jm, Im, GP, -N, VG, -nC, rot.vg(pC), dLam, zone, F, vis);
                F = -F;
            }
            FaceSum r;
            r.flux = VX::Zero(NV);
            if (direct())
                r.flux = F.col(0) * A;
            else
            {
                q.IntegrationSimple(r.flux, [&](VX &inc, int g) { inc = F.col(g) * vfv->GetFaceJacobiDet(f, g); });
                q.IntegrationSimple(r.tang, [&](VD &inc, int g) { VD n = N.col(g), m = F.col(g).segment(1, DIM); inc = (m - m.dot(n) * n) * vfv->GetFaceJacobiDet(f, g); });
            }
            r.area = A;
            return r;
        }
        VX bnd(VX &a, const VX &mean, int zone, const VD &n, const V3 &p, index i, bool fix)
        {
            VX b = beyond(a, zone, n, p, rot, farDef);
            if (kindOf(zone) == "wall")
            {
                for (int k = I4 + 1; k < NV; k++)
                    b[k] = -a[k];
                if (NV == I4 + 2 && fix)
                    a[I4 + 1] = b[I4 + 1] = 0;
                if (NV == I4 + 3)
                {
                    double d1 = ev->dWall[i].mean(), nu = mu(mean);
                    if (ev->settings.ransModel == Euler::RANS_RKE)
                        b[I4 + 2] = 2 * (2 * nu / mean[0] * mean[I4 + 1] / mean[0] / (d1 * d1)) * a[0] - a[I4 + 2];
                    else
                        b[I4 + 2] = 2 * nu / (d1 * d1) * 800 - a[I4 + 2];
                }
            }
            return b;
        }
        void frame()
        {
            auto &s = ev->settings;
            farDef = s.farFieldStaticValue;
            if (s.frameConstRotation.enabled)
            {
                rot.on = true;
                V3 ax(setJson["frameConstRotation"]["axis"][0], setJson["frameConstRotation"]["axis"][1], setJson["frameConstRotation"]["axis"][2]);
                rot.om = ax / ax.norm() * (double)setJson["frameConstRotation"]["rpm"] * 2 * std::acos(-1.) / 60;
                rot.c = V3(setJson["frameConstRotation"]["center"][0], setJson["frameConstRotation"]["center"][1], setJson["frameConstRotation"]["center"][2]);
            }
        }
        void run(const IV &part)
        {
            build(part);
            fill();
            frame();
            real dtMin = 0;
            ev->EvaluateDt(dTau, u, uRec, 0.7, dtMin, 1e10, true);
            checkDt(dtMin);
            if (all(failed))
                return;
            rhs.setConstant(77.0);
            ev->EvaluateRHS(rhs, JSource, u, uRec, lim(), beta, alpha, false, sp.t, sp.flags);
            ctx.nTrans++;
            compare();
        }
        // wave speed of a face for the time step and the implicit operator
        double lamOf(index i, int k)
        {
            auto &g = ev->settings.idealGasProperty;
            index f = mesh->cell2face(i, k), o = vfv->CellFaceOther(i, f);
            VD n = (vfv->GetFaceNormFromCell(f, i, -1, -1)).template head<DIM>();
            V3 p = vfv->GetFaceQuadraturePPhysFromCell(f, i, -1, -1);
            double A = vfv->GetFaceArea(f), vg = rot.vg(p).dot(n);
            VX a = u[i], b = o == UnInitIndex ? a : turn(u[o], angle(i, o, f)), wa = cons2prim(a), wb = cons2prim(b);
            double la = sound(wa) + std::abs(wa.segment(1, DIM).dot(n) - vg), lb = sound(wb) + std::abs(wb.segment(1, DIM).dot(n) - vg);
            VX um = 0.5 * (a + b);
            double pm = 0.5 * (wa[I4] + wb[I4]), T = pm / um[0];
            double muf = g.muModel == 0 ? g.muGas : g.muModel == 1 ? g.muGas * std::pow(T / g.TRef, 1.5) * (g.TRef + g.CSutherland) / (T + g.CSutherland) : g.muGas * um[0];
            if (NV > I4 + 1)
            {
                MX gr = grad(i, f, -1, uRec);
                if (o != UnInitIndex)
                    gr = 0.5 * (gr + turnG(grad(o, f, -1, uRec), angle(i, o, f)));
                Eval::TU ut = um;
                Eval::TDiffU gt = gr;
                muf += ev->getMuTur(ut, gt, g.muGas, muf, f);
            }
            double nu = muf / um[0] * std::max(4. / 3, GAM / g.prGas);
            double vi = vfv->GetCellVol(i), vo = o == UnInitIndex ? vi : vfv->GetCellVol(o);
            return std::max(la, lb) + nu * A * (1 / vi + 1 / vo);
        }
        void checkDt(double dtMin)
        {
            double mine = 1e300;
            auto &g = ev->settings.idealGasProperty;
            for (index i = 0; i < nOwn; i++)
            {
                double s = 0;
                for (int k = 0; k < mesh->cell2face.RowSize(i); k++)
                {
                    s += lamOf(i, k) * vfv->GetFaceArea(mesh->cell2face(i, k));
                }
                double want = 0.7 * vfv->GetCellVol(i) * vfv->GetCellSmoothScaleRatio(i) / s;
                if (!(std::abs(dTau[i](0) - want) <= 1e-10 * want))
                    return bad("dt", "cell %d: local time step %.12g instead of %.12g", id(i), dTau[i](0), want);
                mine = std::min(mine, want);
            }
            double g0 = -all(-mine);
            if (!(std::abs(dtMin - g0) <= 1e-10 * g0))
                bad("dtmin", "smallest time step %.12g instead of %.12g", dtMin, g0);
        }
        void compare()
        {
            auto &s = ev->settings;
            std::vector<VX> ref(nOwn);
            std::map<int, VX> integ;
            std::map<int, double> divs;
            VX wall = VX::Zero(NV);
            bool turb2 = NV == I4 + 3;
            int nCmp = turb2 || NV == I4 + 2 ? I4 + 1 : NV; // the sources of turbulence models are not recomputed
            bool plain = true;
            // a rotated scheme clamps its projections at 1e-9: it is not exact beyond that
            const double T = s.rsRotateScheme ? 1e-7 : 1e-9;
            VX bsum = VX::Zero(NV);
            for (index i = 0; i < nOwn && plain; i++)
            {
                VX r = VX::Zero(NV);
                for (int k = 0; k < mesh->cell2face.RowSize(i); k++)
                {
                    FaceSum fs = faceOf(i, k);
                    r -= fs.flux;
                    index f = mesh->cell2face(i, k);
                    int zone = mesh->GetFaceZone(f);
                    if (vfv->CellFaceOther(i, f) == UnInitIndex)
                    {
                        bsum -= fs.flux;
                        std::string kd = kindOf(zone);
                        if (kd == "wall" || (kd == "slip" && s.idealGasProperty.muGas < 1e-99))
                            wall += fs.flux;
                        if (sp.flags == 0)
                        {
                            index ib = mesh->face2bnd.at(f);
                            VX got = ev->fluxBnd.at(ib);
                            if (!((got * fs.area + fs.flux).head(nCmp).cwiseAbs().maxCoeff() <= T * (1 + fs.flux.norm())))
                                return bad("fluxbnd", "boundary of cell %d (%s): recorded flux differs from that of the residual", id(i), kd.c_str());
                            if (!((VD(ev->fluxBndForceT.at(ib)) * fs.area + fs.tang).cwiseAbs().maxCoeff() <= T * (1 + fs.flux.norm())))
                                return bad("tangential", "boundary of cell %d (%s): recorded tangential force differs from that of the residual", id(i), kd.c_str());
                            int opt = bc->GetFlagFromIDSoft(zone, "integrationOpt");
                            if (zone >= cFar && opt == 1)
                            {
                                if (!integ.count(zone))
                                    integ[zone] = VX::Zero(NV);
                                integ[zone] += fs.flux, divs[zone] += fs.area;
                            }
                            if (zone >= cFar && opt == 2)
                            {
                                VX w = cons2prim(u[i]), v(NV + 2);
                                v.head(NV) = VX(u[i]);
                                v[0] = 1;
                                double q = w.segment(1, DIM).squaredNorm(), M2 = q / (GAM * w[I4] / w[0]), ft = 1 + 0.5 * (GAM - 1) * M2;
                                v[NV] = w[I4] * std::pow(ft, GAM / (GAM - 1)), v[NV + 1] = w[I4] / w[0] * ft;
                                if (!integ.count(zone))
                                    integ[zone] = VX::Zero(NV + 2);
                                integ[zone] -= v * fs.flux[0], divs[zone] -= fs.flux[0];
                            }
                        }
                    }
                }
                r /= vfv->GetCellVol(i);
                // forces
                VX src = VX::Zero(NV);
                auto cq = vfv->GetCellQuad(i);
                if (!s.ignoreSourceTerm)
                    cq.IntegrationSimple(src, [&](VX &inc, int g)
                                         {
                        RowVectorXR D = vfv->GetIntPointDiffBaseValue(i, -1, -1, g, std::array<int, 1>{0}, 1);
                        VX U = VX(u[i]);
                        if (!direct())
                            U += VX((D * lim()[i]).transpose());
                        inc = VX::Zero(NV);
                        VD force = s.constMassForce.template head<DIM>();
                        inc.segment(1, DIM) = force * U[0];
                        inc[I4] = force.dot(U.segment(1, DIM));
                        if (rot.on)
                        {
                            V3 mo = V3::Zero();
                            mo.template head<DIM>() = U.segment(1, DIM);
                            inc.segment(1, DIM) -= rot.om.cross(mo).template head<DIM>();
                        }
                        inc *= vfv->GetCellJacobiDet(i, g); });
                r += src / vfv->GetCellVol(i);
                double scale = 1;
                for (int k = 0; k < mesh->cell2face.RowSize(i); k++)
                    scale += vfv->GetFaceArea(mesh->cell2face(i, k)) / vfv->GetCellVol(i) * 10;
                for (int v = 0; v < nCmp; v++)
                    if (!(std::abs(rhs[i](v) - r[v]) <= 0.1 * T * scale))
                        return bad("rhs", "cell %d variable %d: residual %.12g, the fluxes of its faces give %.12g", id(i), v, rhs[i](v), r[v]);
            }
            if (plain && sp.flags == 0)
            {
                for (int z = cFar; z < cEnd; z++)
                {
                    int opt = bc->GetFlagFromIDSoft(z, "integrationOpt");
                    VX v = VX::Zero(opt == 2 ? NV + 2 : NV);
                    if (integ.count(z))
                        v = integ[z];
                    double dv = sum(divs.count(z) ? divs[z] : 0);
                    for (int k = 0; k < v.size(); k++)
                        v[k] = sum(v[k]);
                    if (!opt)
                        continue;
                    auto it = ev->bndIntegrations.find(z);
                    if (it == ev->bndIntegrations.end())
                        return bad("integ-missing", "no integral recorded on boundary %d", z);
                    VX got = it->second.v;
                    int nc = opt == 2 ? NV + 2 : nCmp;
                    if (!((got - v).head(nc).cwiseAbs().maxCoeff() <= T * (1 + v.norm())) || !(std::abs(it->second.div - dv) <= T * (1 + std::abs(dv))))
                        return bad("integ", "boundary %d (%s): recorded integral differs from that of the fluxes (%g)", z, kindOf(z).c_str(), (got - v).cwiseAbs().maxCoeff());
                }
                for (int k = 0; k < NV; k++)
                    wall[k] = sum(wall[k]);
                if (!((VX(ev->fluxWallSum) - wall).head(nCmp).cwiseAbs().maxCoeff() <= T * (1 + wall.norm())))
                    return bad("wallsum", "force on the walls differs from the sum of the fluxes (%g)", (VX(ev->fluxWallSum) - wall).cwiseAbs().maxCoeff());
                // conservation: only boundaries and sources change the content
                if (s.ignoreSourceTerm && !m.rot)
                {
                    VX t = VX::Zero(NV);
                    for (index i = 0; i < nOwn; i++)
                        t += VX(rhs[i]) * vfv->GetCellVol(i);
                    for (int k = 0; k < NV; k++)
                    {
                        double a = sum(t[k]), b = sum(bsum[k]);
                        if (k < nCmp && !(std::abs(a - b) <= T * (1 + std::abs(b))))
                            return bad("conserve", "variable %d: the residuals sum to %.12g, the boundary fluxes to %.12g", k, a, b);
                    }
                }
                if (sp.state == 9 && !rot.on)
                    for (index i = 0; i < nOwn; i++)
                        for (int v = 0; v < nCmp; v++)
                            if (!(std::abs(rhs[i](v)) <= 1e-10 * (1 + std::pow(vfv->GetCellVol(i), -1. / GD))))
                                return bad("freestream", "cell %d variable %d: uniform flow changes at rate %g", id(i), v, rhs[i](v));
            }
            // the serial run
            if (!sh.have)
            {
                for (index i = 0; i < nOwn; i++)
                    sh.rhs[id(i)] = rhs[i];
                vh::Hash h;
                for (auto &r : sh.rhs)
                    for (int v = 0; v < r.size(); v++)
                        h.add((int64_t)(r[v] * 1e6));
                ctx.state(h.h);
                sh.have = true;
            }
            else
                for (index i = 0; i < nOwn; i++)
                {
                    VX a = rhs[i], b = sh.rhs[id(i)];
                    for (int v = 0; v < NV; v++)
                        if (!(std::abs(a[v] - b[v]) <= 1e-9 * (1 + std::abs(b[v]) + b.norm())))
                            return bad("partition", "cell %d variable %d: residual %.12g, in the serial run %.12g", id(i), v, a[v], b[v]);
                }
        }
    };
    // the implicit operator and its smoothers
    struct Impl : Res
    {
        using Res::Res;
        const double dt = 0.37, al = 0.8;
        Euler::ArrayDOFV<NVF> x, y, b, t;
        MX fluxJac(const VX &U, const VD &n, double vgn)
        {
            MX J(NV, NV);
            VX w = cons2prim(U);
            VD v = w.segment(1, DIM);
            double vn = v.dot(n), p = w[I4];
            for (int c = 0; c < NV; c++)
            {
                VX d = VX::Unit(NV, c);
                VD dm = d.segment(1, DIM);
                double dvn = (dm.dot(n) - vn * d[0]) / U[0], dp = (GAM - 1) * (d[I4] - v.dot(dm) + 0.5 * v.squaredNorm() * d[0]);
                VX F = VX::Zero(NV);
                F[0] = dm.dot(n);
                F.segment(1, DIM) = dm * vn + U.segment(1, DIM) * dvn + dp * n;
                F[I4] = (d[I4] + dp) * vn + (U[I4] + p) * dvn;
                for (int k = I4 + 1; k < NV; k++)
                    F[k] = d[k] * vn + U[k] * dvn;
                J.col(c) = F - vgn * d;
            }
            return J;
        }
        // dissipation of the Roe average with given wave speeds: projectors on the eigenspaces of the flux Jacobian there
        MX roeDiss(const VX &L, const VX &R, const VD &n, double l0, double l1, double l4)
        {
            VX a = cons2prim(L), c = cons2prim(R);
            double sl = std::sqrt(a[0]), sr = std::sqrt(c[0]);
            VD v = (sl * a.segment(1, DIM) + sr * c.segment(1, DIM)) / (sl + sr);
            double H = (sl * (L[I4] + a[I4]) / a[0] + sr * (R[I4] + c[I4]) / c[0]) / (sl + sr), as = std::sqrt((GAM - 1) * (H - 0.5 * v.squaredNorm()));
            VX w = a; // any density: the Jacobian depends on velocity and enthalpy only
            w[0] = 1, w.segment(1, DIM) = v, w[I4] = as * as / GAM;
            int q = I4 + 1;
            MX A = fluxJac(prim2cons(w), n, 0).topLeftCorner(q, q), I = MX::Identity(q, q);
            double vn = v.dot(n);
            MX P0 = (A - vn * I) * (A - (vn + as) * I) / (2 * as * as), P4 = (A - vn * I) * (A - (vn - as) * I) / (2 * as * as);
            return l0 * P0 + l4 * P4 + l1 * (I - P0 - P4);
        }
        void rows()
        {
            int N = m.c.size() * NV;
            if (rank == 0)
                sh.A = MX::Zero(N, N);
            MPI_Barrier(MPI_COMM_WORLD);
            for (int c = 0; c < N; c++)
            {
                for (index i = 0; i < nOwn; i++)
                {
                    x[i].setZero();
                    if (id(i) == c / NV)
                        x[i](c % NV) = 1;
                }
                pull(x);
                ev->LUSGSMatrixVec(al, u, x, JD, y);
                for (index i = 0; i < nOwn; i++)
                    sh.A.block(id(i) * NV, c, NV, 1) = VX(y[i]);
            }
            MPI_Barrier(MPI_COMM_WORLD);
        }
        double rnd0(index i, int v, int k) { return rnd(id(i), 40 + v, k) * (v == I4 ? 2 : 1); }
        void set(Euler::ArrayDOFV<NVF> &z, int k)
        {
            for (index i = 0; i < nOwn; i++)
                for (int v = 0; v < NV; v++)
                    z[i](v) = rnd0(i, v, k);
            pull(z);
        }
        VX dense(int k)
        {
            VX r(m.c.size() * NV);
            for (size_t c = 0; c < m.c.size(); c++)
                for (int v = 0; v < NV; v++)
                    r[c * NV + v] = rnd((int)c, 40 + v, k) * (v == I4 ? 2 : 1);
            return r;
        }
        bool near(Euler::ArrayDOFV<NVF> &z, const VX &want, const char *key)
        {
            for (index i = 0; i < nOwn; i++)
                for (int v = 0; v < NV; v++)
                    if (!(std::abs(z[i](v) - want[id(i) * NV + v]) <= 1e-8 * (1 + want.segment(id(i) * NV, NV).norm())))
                    {
                        bad(key, "cell %d variable %d: %.12g instead of %.12g", id(i), v, z[i](v), want[id(i) * NV + v]);
                        return false;
                    }
            return true;
        }
        void nearSum(const VX &got, VX want, const char *key)
        {
            for (int v = 0; v < NV; v++)
            {
                double s = sum(want[v]);
                if (!(std::abs(got[v] - s) <= 1e-8 * (1 + s)))
                    bad(key, "variable %d: change of %.12g reported instead of %.12g", v, got[v], s);
            }
        }
        void run(const IV &part)
        {
            build(part);
            fill();
            frame();
            vfv->BuildUDof(x, NV), vfv->BuildUDof(y, NV), vfv->BuildUDof(b, NV), vfv->BuildUDof(t, NV);
            auto &s = ev->settings;
            real dtMin = 0;
            ev->EvaluateDt(dTau, u, uRec, 0.7, dtMin, 1e10, true);
            ev->EvaluateRHS(rhs, JSource, u, uRec, lim(), beta, alpha, false, sp.t, 0);
            ev->LUSGSMatrixInit(JD, JSource, dTau, dt, al, u, uRec, 0, sp.t);
            rows();
            // against the linearised flux
            bool exact = !s.useRoeJacobian || GD == 2; // the dissipation wants unit normals: those of warped faces are not
            for (index i = 0; i < nOwn && exact; i++)
            {
                int q = I4 + 1, r0 = id(i) * NV;
                MX row = MX::Zero(NV, sh.A.cols()), D = MX::Identity(NV, NV) * (1 / dTau[i](0) + 1 / dt);
                for (int k = 0; k < mesh->cell2face.RowSize(i); k++)
                {
                    index f = mesh->cell2face(i, k), o = vfv->CellFaceOther(i, f);
                    bool back = vfv->CellIsFaceBack(i, f);
                    VD n = (vfv->GetFaceNormFromCell(f, i, -1, -1) * (back ? 1 : -1)).template head<DIM>();
                    double c = 0.5 * al * vfv->GetFaceArea(f) / vfv->GetCellVol(i), vgn = rot.vg(vfv->GetFaceQuadraturePPhysFromCell(f, i, -1, -1)).dot(n);
                    double lam = s.useRoeJacobian ? ev->lambdaFace[f] : lamOf(i, k);
                    double a = o == UnInitIndex ? 0 : angle(i, o, f);
                    VX uo = o == UnInitIndex ? VX(u[i]) : turn(u[o], a);
                    MX S = MX::Identity(NV, NV) * lam;
                    if (s.useRoeJacobian)
                    {
                        double l0 = back ? ev->lambdaFace0[f] : ev->lambdaFace4[f], l4 = back ? ev->lambdaFace4[f] : ev->lambdaFace0[f];
                        S.topLeftCorner(q, q) = roeDiss(u[i], uo, n, l0, ev->lambdaFace123[f], l4) + MX::Identity(q, q) * ev->lambdaFaceVis[f];
                    }
                    D += c * S;
                    if (o != UnInitIndex)
                    {
                        MX J = fluxJac(uo, n, vgn) - S, T = MX::Identity(NV, NV);
                        T.block(1, 1, DIM, DIM) = rmat(a);
                        row.middleCols(id(o) * NV, NV) += c * J * T;
                    }
                }
                if (!s.ignoreSourceTerm)
                    D += al * (JSource.isBlock() ? MX(JSource.getBlock(i)) : MX(VX(JSource.getDiag(i)).asDiagonal()));
                MX got = JD.getValue(i);
                double sc = D.cwiseAbs().maxCoeff();
                if (!((got - D).cwiseAbs().maxCoeff() <= 1e-9 * sc))
                    return bad("diagonal", "cell %d: diagonal block differs from the linearised residual by %g", id(i), (got - D).cwiseAbs().maxCoeff());
                row.middleCols(r0, NV) += D;
                if (!((sh.A.middleRows(r0, NV) - row).cwiseAbs().maxCoeff() <= 1e-9 * sc))
                    return bad("operator", "cell %d: the operator differs from the linearised residual by %g", id(i), (sh.A.middleRows(r0, NV) - row).cwiseAbs().maxCoeff());
            }
            if (!sh.have && mpi.size == 1)
            {
                sh.A0 = sh.A, sh.have = true;
                vh::Hash h;
                for (int k = 0; k < sh.A.size(); k++)
                    h.add((int64_t)(sh.A.data()[k] * 1e6));
                ctx.state(h.h);
            }
            for (index i = 0; i < nOwn; i++)
                if (!((sh.A - sh.A0).middleRows(id(i) * NV, NV).cwiseAbs().maxCoeff() <= 1e-9 * sh.A0.middleRows(id(i) * NV, NV).cwiseAbs().maxCoeff()))
                    return bad("partition", "cell %d: the operator differs from that of the serial run", id(i));
            std::vector<MX> Di(nOwn);
            for (index i = 0; i < nOwn; i++)
                Di[i] = MX(JD.getValue(i)).inverse();
            set(b, 1);
            VX B = dense(1), X0 = dense(2), T0 = dense(3);
            std::vector<char> own(m.c.size(), 0);
            for (index i = 0; i < nOwn; i++)
                own[id(i)] = 1;
            auto rowTimes = [&](index i, const VX &z, auto &&use)
            {
                VX r = VX::Zero(NV);
                for (int c = 0; c < (int)m.c.size(); c++)
                    if (c != id(i) && use(c))
                        r += sh.A.block(id(i) * NV, c * NV, NV, NV) * z.segment(c * NV, NV);
                return r;
            };
            std::map<int, index> loc;
            for (index i = 0; i < nOwn; i++)
                loc[id(i)] = i;
            auto any = [](int) { return true; };
            for (int jac = 0; jac < 2; jac++)
                for (int fw = 0; fw < 2; fw++)
                {
                    set(x, 2), set(t, 3);
                    VX Y = X0, ch = VX::Zero(NV);
                    Eval::TU sg(NV);
                    ev->UpdateSGS(al, b, u, x, jac ? t : x, JD, fw, sg);
                    for (index k = 0; k < nOwn; k++)
                    {
                        index i = fw ? k : nOwn - 1 - k;
                        VX v = Di[i] * (B.segment(id(i) * NV, NV) - rowTimes(i, jac ? X0 : Y, any)), old = jac ? T0.segment(id(i) * NV, NV) : X0.segment(id(i) * NV, NV);
                        Y.segment(id(i) * NV, NV) = v;
                        ch += (v - old).cwiseAbs();
                    }
                    near(jac ? t : x, Y, jac ? "jacobi" : "gauss-seidel");
                    nearSum(sg, ch, jac ? "jacobi-sum" : "gauss-seidel-sum");
                    if (all(failed))
                        return;
                    ctx.nTrans++;
                }
            for (int fw = 0; fw < 2; fw++) // with increments of the reconstruction
            {
                set(x, 2);
                VX Y = X0, ch = VX::Zero(NV);
                Eval::TU sg(NV);
                ev->UpdateSGSWithRec(al, b, u, uRec, x, uRecLim, JD, fw, sg);
                for (index k = 0; k < nOwn; k++)
                {
                    index i = fw ? k : nOwn - 1 - k;
                    VX v = B.segment(id(i) * NV, NV) - rowTimes(i, Y, any);
                    for (int q = 0; q < mesh->cell2face.RowSize(i); q++)
                    {
                        index f = mesh->cell2face(i, q), o = vfv->CellFaceOther(i, f);
                        if (o == UnInitIndex)
                            continue;
                        VD n = (vfv->GetFaceNormFromCell(f, i, -1, -1) * (vfv->CellIsFaceBack(i, f) ? 1 : -1)).template head<DIM>();
                        double c = 0.5 * al * vfv->GetFaceArea(f) / vfv->GetCellVol(i), vgn = rot.vg(vfv->GetFaceQuadraturePPhysFromCell(f, i, -1, -1)).dot(n), a = angle(i, o, f);
                        VX sL = trace(i, f, -1, uRecLim) - VX(u[i]), sR = turn(trace(o, f, -1, uRecLim) - VX(u[o]), a);
                        v -= c * (fluxJac(u[i], n, vgn) * sL + fluxJac(turn(u[o], a), n, vgn) * sR + ev->lambdaFaceC[f] * (sL - sR));
                    }
                    v = (Di[i] * v).eval();
                    Y.segment(id(i) * NV, NV) = v;
                    ch += (v - X0.segment(id(i) * NV, NV)).cwiseAbs();
                }
                near(x, Y, "gauss-seidel-rec");
                nearSum(sg, ch, "gauss-seidel-rec-sum");
                if (all(failed))
                    return;
            }
            {
                set(x, 2);
                VX Y = X0;
                ev->UpdateLUSGSForward(al, b, u, x, JD, x);
                for (index i = 0; i < nOwn; i++)
                    Y.segment(id(i) * NV, NV) = Di[i] * (B.segment(id(i) * NV, NV) - rowTimes(i, Y, [&](int c) { return own[c] && loc[c] < i; }));
                near(x, Y, "lusgs-forward");
                pull(x);
                // what the others found
                if (rank == 0)
                    sh.rhs[0] = VX::Zero(m.c.size() * NV);
                MPI_Barrier(MPI_COMM_WORLD);
                for (index i = 0; i < nOwn; i++)
                    sh.rhs[0].segment(id(i) * NV, NV) = Y.segment(id(i) * NV, NV);
                MPI_Barrier(MPI_COMM_WORLD);
                VX Z = sh.rhs[0];
                ev->UpdateLUSGSBackward(al, b, u, x, JD, x);
                for (index i = nOwn - 1; i >= 0; i--)
                    Z.segment(id(i) * NV, NV) -= (Di[i] * rowTimes(i, Z, [&](int c) { return !own[c] || loc[c] > i; })).eval();
                near(x, Z, "lusgs-backward");
                MPI_Barrier(MPI_COMM_WORLD);
                if (all(failed))
                    return;
            }
            // complete factorisation of the part of each rank
            VX rhsL(nOwn * NV);
            MX AL(nOwn * NV, nOwn * NV);
            for (index i = 0; i < nOwn; i++)
            {
                rhsL.segment(i * NV, NV) = B.segment(id(i) * NV, NV) - rowTimes(i, X0, [&](int c) { return !own[c]; });
                for (index j = 0; j < nOwn; j++)
                    AL.block(i * NV, j * NV, NV, NV) = sh.A.block(id(i) * NV, id(j) * NV, NV, NV);
            }
            VX sol = nOwn ? VX(AL.fullPivLu().solve(rhsL)) : VX(0), Y = X0, ch = VX::Zero(NV);
            for (index i = 0; i < nOwn; i++)
            {
                Y.segment(id(i) * NV, NV) = sol.segment(i * NV, NV);
                ch += (sol.segment(i * NV, NV) - X0.segment(id(i) * NV, NV)).cwiseAbs();
            }
            for (int ord : {2, 0, 1, 4, -1})
            {
                Direct::DirectPrecControl ctl;
                ctl.useDirectPrec = true, ctl.iluCode = -1, ctl.orderingCode = ord;
                DNDS_MAKE_SSP(ev->symLU, mpi, nOwn);
                mesh->ObtainLocalFactFillOrdering(*ev->symLU, ctl);
                mesh->ObtainSymmetricSymbolicFactorization(*ev->symLU, ctl);
                Euler::JacobianLocalLU<NVF> LU(ev->symLU, NV);
                for (int rep = 0; rep < 2; rep++) // a second factorisation replaces the first
                {
                    ev->LUSGSMatrixToJacobianLU(al, u, JD, LU);
                    set(x, 2);
                    Eval::TU sg(NV);
                    ev->LUSGSMatrixSolveJacobianLU(al, b, u, x, y, t, JD, LU, sg);
                    near(y, Y, "direct");
                    nearSum(sg, ch, "direct-sum");
                    if (all(failed))
                        return;
                    ctx.nTrans++;
                }
            }
        }
    };
    static bool implicit = false;
    static void one(vh::Ctx &ctx, const SMesh &m, const IV &part, int R, const Spec &sp, SharedE &sh, const sim::Config &cfg)
    {
        auto s = sim::run(R, cfg, nullptr, [&](int r)
                          {
            if (implicit)
                Impl(ctx, m, sp, r, sh).run(part);
            else
                Res(ctx, m, sp, r, sh).run(part); });
        addStats(ctx, s);
        ctx.nTraces++;
    }
    static std::vector<Spec> specs()
    {
        std::vector<Spec> v;
        auto add = [&](const char *n, json e, std::function<void(Spec &)> f = [](Spec &) {})
        {
            Spec s;
            s.name = n, s.edit = e;
            f(s);
            if (NV > I4 + 1)
                s.edit["ignoreSourceTerm"] = false;
            v.push_back(s);
        };
        add("default", {{"ignoreSourceTerm", true}});
        add("super", {{"ignoreSourceTerm", true}}, [](Spec &s) { s.state = 1; });
        add("superback", {{"ignoreSourceTerm", true}}, [](Spec &s) { s.state = 2; });
        add("back", {{"ignoreSourceTerm", true}}, [](Spec &s) { s.state = 3; });
        add("o1", {{"ignoreSourceTerm", true}}, [](Spec &s) { s.order = 1; });
        add("o3", {{"ignoreSourceTerm", true}, {"idealGasProperty", {{"muModel", 0}}}}, [](Spec &s) { s.order = 3; });
        add("limited", {{"ignoreSourceTerm", true}, {"idealGasProperty", {{"muModel", 2}}}}, [](Spec &s) { s.limited = true; });
        add("novis", {{"ignoreSourceTerm", true}}, [](Spec &s) { s.flags = Eval::RHS_Ignore_Viscosity; });
        if (NV == I4 + 1)
            add("inviscid", {{"ignoreSourceTerm", true}, {"idealGasProperty", {{"muModel", 0}, {"muGas", 0.0}}}});
        add("prim", {{"ignoreSourceTerm", true}, {"usePrimGradInVisFlux", 1}});
        add("nors", {{"ignoreSourceTerm", true}, {"noRsOnWall", true}, {"noGRPOnWall", true}});
        add("force", {{"constMassForce", {0.3, -0.2, 0.5}}});
        for (const char *rs : {"Roe_M1", "Roe_M2", "Roe_M3", "Roe_M4", "Roe_M5", "HLLC", "HLLEP"})
        {
            add((std::string("rs-") + rs).c_str(), {{"ignoreSourceTerm", true}, {"riemannSolverType", rs}});
            if (std::string(rs).rfind("Roe_M", 0) == 0)
                add((std::string("rsb-") + rs).c_str(), {{"ignoreSourceTerm", true}, {"riemannSolverType", rs}, {"rsMeanValueEig", 1}});
        }
        add("rswall", {{"ignoreSourceTerm", true}, {"riemannSolverType", "Roe_M2"}, {"riemannSolverTypeWall", "HLLC"}});
        add("rotated", {{"ignoreSourceTerm", true}, {"riemannSolverType", "Roe"}, {"rsRotateScheme", 1}});
        add("rotated2", {{"ignoreSourceTerm", true}, {"riemannSolverType", "Roe"}, {"riemannSolverTypeAux", "HLLEP"}, {"rsRotateScheme", 1}});
        add("rotated3", {{"ignoreSourceTerm", true}, {"riemannSolverType", "Roe_M2"}, {"riemannSolverTypeAux", "Roe_M4"}, {"rsRotateScheme", 1}, {"rsMeanValueEig", 1}});
        json fr = {{"enabled", true}, {"axis", {0, 0, 2}}, {"center", {0, 0, 0}}, {"rpm", 3.0}};
        add("frame", {{"frameConstRotation", fr}}, [](Spec &s) { s.bcs = "rot"; });
        add("calm", {{"ignoreSourceTerm", true}}, [](Spec &s) { s.state = 9, s.bcs = "calm"; });
        add("roejac", {{"ignoreSourceTerm", true}, {"useRoeJacobian", true}, {"useScalarJacobian", false}});
        add("direct2", {{"ignoreSourceTerm", true}, {"direct2ndRecMethod", 11}}, [](Spec &s) { s.flags = Eval::RHS_Direct_2nd_Rec | Eval::RHS_Dont_Update_Integration | Eval::RHS_Dont_Record_Bud_Flux; });
        add("direct2f", {{"constMassForce", {0.3, -0.2, 0.5}}, {"direct2ndRecMethod", 1}}, [](Spec &s) { s.flags = Eval::RHS_Direct_2nd_Rec | Eval::RHS_Dont_Update_Integration | Eval::RHS_Dont_Record_Bud_Flux; });
        if (NV == I4 + 2)
        {
            add("rans2nd", {{"ransSource2nd", 1}, {"useSourceGradFixGG", 1}, {"ransEigScheme", 1}});
        }
        if (NV == I4 + 3)
        {
            add("sst", {{"ransModel", "RANS_KOSST"}});
            add("rke", {{"ransModel", "RANS_RKE"}, {"useSourceGradFixGG", 1}});
        }
        return v;
    }
    static std::vector<Spec> specsImplicit()
    {
        std::vector<Spec> v;
        json fr = {{"enabled", true}, {"axis", {0, 0, 2}}, {"center", {0, 0, 0}}, {"rpm", 3.0}};
        for (int k = 0; k < 7; k++)
        {
            Spec s;
            s.edit["useScalarJacobian"] = k % 2 == 0;
            s.edit["ignoreSourceTerm"] = NV == I4 + 1;
            s.name = vh::fmts("implicit%d", k);
            if (k == 3 || k == 5)
                s.edit["useRoeJacobian"] = true;
            if (k == 4 || k == 5)
                s.edit["frameConstRotation"] = fr, s.edit["ignoreSourceTerm"] = false, s.bcs = "rot";
            if (k == 6)
                s.edit["constMassForce"] = {0.3, -0.2, 0.5}, s.edit["ignoreSourceTerm"] = false;
            if (k == 2 || k == 3)
                s.state = 1;
            v.push_back(s);
        }
        return v;
    }
    static std::vector<SMesh> meshes(bool thorough)
    {
        std::vector<SMesh> v;
        auto perm = [](SMesh m, int k) { permuteCells(m, k); return m; };
        if (GD == 2)
        {
            v = {grid2(2, 2, 'q'), perm(grid2(2, 1, 't'), 5), perm(grid2(3, 1, 'm'), 7), fan(4), elevated(grid2(2, 1, 'q')), elevated(grid2(1, 1, 't')), grid2(2, 2, 'q', 3), perm(grid2(2, 1, 't', 1), 5), perm(grid2(3, 2, 'q', 1), 5), sector(1, 3, M_PI / 2), perm(sector(2, 2, 1.1), 3)};
        }
        else
        {
            v = {grid3(2, 1, 1, 'h'), perm(grid3(1, 1, 1, 'T'), 5), grid3(1, 1, 1, 'p'), zoo3(), perm(grid3(2, 2, 1, 'h', 3), 5), elevated(grid3(1, 1, 1, 'p')), perm(sector(1, 2, 0.9, 2), 3)};
        }
        return v;
    }
    static void mainRhs(vh::Ctx &ctx)
    {
        auto S = implicit ? specsImplicit() : specs();
        auto M = meshes(ctx.thorough);
        auto fits = [](const SMesh &m, const Spec &sp)
        {
            // a rotating frame has no translational periodicity, and a constant force no rotational one
            if (sp.edit.contains("frameConstRotation") && m.perDirs && !m.rot)
                return false;
            return !((sp.edit.contains("constMassForce") || sp.state == 9) && m.rot);
        };
        // all settings with boundary conditions in many places: serial run against the independent evaluation and two distributions
        for (auto &m0 : M)
            for (auto &sp : S)
            {
                if (!fits(m0, sp))
                    continue;
                int nOff = sp.bcs == "cycle" || sp.bcs == "rot" ? 11 : 1;
                for (int off = 0; off < nOff; off++)
                {
                    SMesh m = withBC(m0, sp.bcs, off);
                    int n = m.c.size();
                    if (!ctx.take("%s,%s,bc%d", m.name.c_str(), sp.name.c_str(), off))
                        continue;
                    SharedE sh;
                    sh.rhs.resize(n);
                    one(ctx, m, IV(n, 0), 1, sp, sh, sim::Config{});
                    IV p(n);
                    for (int R = 2; R <= 3 && !ctx.nfail; R++)
                    {
                        for (int k = 0; k < n; k++)
                            p[k] = (k * 2 + k / 3 + off) % R;
                        one(ctx, m, p, R, sp, sh, sim::Config{});
                    }
                }
            }
        // all distributions of the cells
        int at = 0;
        for (auto &m0 : M)
            for (auto &sp : S)
                for (int R = 2; R <= 5; R++)
                {
                    int n = m0.c.size();
                    at++;
                    double cap = sp.name == "default" || sp.name == "frame" ? 700 : 70;
                    if (GD == 3)
                        cap *= 0.3;
                    if (ctx.thorough)
                        cap *= 20;
                    if (!fits(m0, sp) || std::pow(R, n) > cap)
                        continue;
                    SMesh m = withBC(m0, sp.bcs, at % 11);
                    if (!ctx.take("%s,%s,bc%d,all distributions to %d", m.name.c_str(), sp.name.c_str(), at % 11, R))
                        continue;
                    SharedE sh;
                    sh.rhs.resize(n);
                    one(ctx, m, IV(n, 0), 1, sp, sh, sim::Config{});
                    allParts(n, R, [&](const IV &p)
                             {
                        if (ctx.nfail)
                            return;
                        ctx.beat();
                        ctx.note("distribution " + pstr(p));
                        one(ctx, m, p, R, sp, sh, sim::Config{}); });
                }
        // deliveries
        int nc = 0;
        for (auto &cfg : sim::allConfigs(3, ctx.thorough))
        {
            nc++;
            for (auto &m0 : M)
            {
                auto &sp = S[nc % S.size()];
                if (!fits(m0, sp))
                    continue;
                SMesh m = withBC(m0, sp.bcs, nc % 11);
                int n = m.c.size();
                if (!ctx.take("%s,%s,delivery %d", m.name.c_str(), sp.name.c_str(), nc))
                    continue;
                SharedE sh;
                sh.rhs.resize(n);
                one(ctx, m, IV(n, 0), 1, sp, sh, sim::Config{});
                IV p(n);
                for (int k = 0; k < n; k++)
                    p[k] = (k + nc) % 3;
                one(ctx, m, p, 3, sp, sh, cfg);
            }
        }
    }
}
int main(int argc, char **argv)
{
    return vh::run(argc, argv, [](vh::Ctx &ctx)
                   {
        simAttach(ctx);
        DNDS::vf::quiet();
        DNDS::vf::implicit = ctx.opts["mode"] == "impl";
        DNDS::vf::mainRhs(ctx); });
}
