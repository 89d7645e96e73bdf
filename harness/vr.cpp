// C25: metrics and variational reconstruction on all assignments of cells to ranks of small meshes, executed by the
// real mesh and reconstruction code in the simulated MPI world.
#include "geo.hpp"
#include "CFV/VariationalReconstruction.hpp"
namespace DNDS::vf
{
    // ------------------------------------------------------------ settings
    using VS = CFV::VRSettings;
    static const int nSettings = 16;
    static std::string applySettings(VS &s, int k, int order)
    {
        auto &f = s.functionalSettings;
        using F = VS::FunctionalSettings;
        switch (k)
        {
        case 0: return "default";
        case 1: s.cacheDiffBase = true; return "cache";
        case 2: s.cacheDiffBase = true, s.cacheDiffBaseSize = 255; return "cache-all";
        case 3: s.SORInstead = false; return "jacobi";
        case 4: s.intOrderVR = order == 3 ? 6 : 3; return "intVR";
        case 5: s.intOrderVR = 6, s.intOrder = 3; return "int3VR6";
        case 6: s.baseSettings.localOrientation = true; return "local";
        case 7: s.baseSettings.localOrientation = true, s.baseSettings.anisotropicLengths = true, s.cacheDiffBase = true; return "local-aniso-cache";
        case 8: s.baseSettings.anisotropicLengths = true; return "aniso";
        case 9: f.scaleType = F::MeanAACBB, f.dirWeightScheme = F::HQM_OPT, f.geomWeightScheme = F::HQM_SD, f.geomWeightBias = 0.5; return "hqm";
        case 10: f.useAnisotropicFunctional = true, f.anisotropicType = F::InertiaCoordBB, f.inertiaWeightPower = 0; return "afun";
        case 11: f.greenGauss1Weight = 1, f.greenGaussSpacial = 1, f.greenGauss1Penalty = 0.5, f.greenGauss1Bias = 0.5; return "gg";
        case 12: f.dirWeightScheme = F::TEST_OPT, f.geomWeightScheme = F::SD_Power, f.geomWeightPower1 = 0.5, f.geomWeightPower2 = -0.5; return "testopt";
        case 13: f.dirWeightScheme = F::ManualDirWeight, s.bcWeight = 2, s.jacobiRelax = 0.8; return "manual-relax";
        case 14: f.greenGauss1Weight = 0.7, f.greenGaussSpacial = 1, f.greenGauss1Bias = 0.3, s.intOrderVR = 4, s.SORInstead = false, s.jacobiRelax = 0.9; return "gg-intVR4-jacobi";
        case 15: s.svdTolerance = 1e-12, f.scaleMultiplier = 0.5, s.intOrder = 6; return "svd";
        }
        return "?";
    }
    // ------------------------------------------------------------ what all ranks agree on
    static const int nSlot = 9 + 20;
    struct Shared
    {
        Geo g;
        bool serial = true;
        // reference values from the serial run, by cell
        std::vector<Eigen::MatrixXd> rec[nSlot];
        std::vector<double> smooth, si, si1;
        bool have = false;
        std::map<std::vector<int64_t>, int> faceN;
        std::vector<Eigen::MatrixXd> now[nSlot];
        std::vector<double> nowSm, nowSi, nowSi1;
    };
    template <int dim>
    struct Run
    {
        static constexpr int nV = dim == 2 ? 4 : 5;
        using VR = CFV::VariationalReconstruction<dim>;
        using VecV = Eigen::Vector<real, nV>;
        vh::Ctx &ctx;
        const SMesh &m;
        Shared &sh;
        int rank, order, set;
        MPIInfo mpi;
        ssp<UnstructuredMesh> mesh;
        ssp<VR> vr;
        std::vector<Poly> P;
        bool failed = false;
        index nOwn = 0, nAll = 0;

        template <class... A>
        void bad(const char *key, const char *fmt, A... a)
        {
            if (!failed)
                ctx.fail(key, fmt, a...);
            failed = true;
        }
        int id(index iCell) { return mesh->cellElemInfo(iCell, 0).zone - 1000; }
        real scalePeriod(int faceID, int v) // jump of variable v from the main to the donor side
        {
            int d = Geom::FaceIDIsPeriodicMain(faceID) ? -faceID - 1 : -faceID - 4;
            if (m.rot && d == 0)
                return 0;
            V3 L{0, 0, 0};
            L[d] = m.per[d];
            return P[v].at(P[v].o + L) - P[v].at(P[v].o);
        }
        void trans(Eigen::Ref<MatrixXR> u, t_index fid, int sgn)
        {
            int d = Geom::FaceIDIsPeriodicMain(fid) ? -fid - 1 : -fid - 4;
            if (m.rot && d == 0)
            {
                double c = std::cos(m.rot), s = sgn * std::sin(m.rot);
                for (index i = 0; i < u.rows(); i++)
                {
                    double a = u(i, 1), b = u(i, 2);
                    u(i, 1) = c * a - s * b, u(i, 2) = s * a + c * b;
                }
                return;
            }
            if (u.rows() == 1 && usePolys)
                for (int v = 0; v < nV; v++)
                    u(0, v) += sgn * scalePeriod(fid, v);
        }
        bool usePolys = true; // data are the polynomials, which jump across a period by a constant
        double tol() const { return sh.g.rational ? 3e-2 : 1e-10; }

        void metrics()
        {
            if (std::abs(vr->GetGlobalVol() - sh.g.vol) > tol() * sh.g.vol)
                bad("total", "total volume %.15g instead of %.15g", vr->GetGlobalVol(), sh.g.vol);
            for (index i = 0; i < nAll; i++)
            {
                int z = id(i);
                auto &c = sh.g.c.at(z);
                double h = std::pow(c.vol, 1. / dim);
                if (!(std::abs(vr->GetCellVol(i) - c.vol) <= tol() * c.vol))
                    return bad("vol", "cell %d (%s): volume %.15g instead of %.15g", z, i < nOwn ? "own" : "ghost", vr->GetCellVol(i), c.vol);
                if (!((V3(vr->GetCellBary(i)) - c.bary).norm() <= tol() * h * 10))
                    return bad("bary", "cell %d (%s): barycentre %g %g %g instead of %g %g %g", z, i < nOwn ? "own" : "ghost", vr->GetCellBary(i)[0], vr->GetCellBary(i)[1], vr->GetCellBary(i)[2], c.bary[0], c.bary[1], c.bary[2]);
                double s = 0;
                V3 b = V3::Zero(), bb;
                auto q = vr->GetCellQuad(i);
                q.IntegrationSimple(s, [&](real &inc, int iG) { inc = vr->GetCellJacobiDet(i, iG); });
                bb.setZero();
                q.IntegrationSimple(bb, [&](V3 &inc, int iG) { inc = vr->GetCellQuadraturePPhys(i, iG) * vr->GetCellJacobiDet(i, iG); });
                if (!(std::abs(s - c.vol) <= tol() * c.vol) || !((bb / s - c.bary).norm() <= 10 * tol() * h))
                    return bad("cellquad", "cell %d: the quadrature points of the cell give volume %.15g (is %.15g) or another barycentre", z, s, c.vol);
            }
            // faces, seen from every cell that has them here
            for (index i = 0; i < nOwn; i++)
            {
                int z = id(i);
                auto &c = sh.g.c[z];
                V3 close = V3::Zero();
                double div = 0;
                for (int k = 0; k < mesh->cell2face.RowSize(i); k++)
                {
                    index f = mesh->cell2face(i, k);
                    bool back = vr->CellIsFaceBack(i, f);
                    // (a cell that is its own neighbour sees the face from both sides)
                    bool self = mesh->face2cell(f, 0) == mesh->face2cell(f, 1);
                    double A = vr->GetFaceArea(f);
                    bool curved = dim == 3 && Element{m.c[z].t}.ObtainFace(k).GetNumVertices() == 4; // then the area element is no polynomial
                    if (!(std::abs(A - c.area[k]) <= (curved ? 1e-3 : tol()) * c.area[k]))
                        return bad("area", "cell %d face %d: area %.15g instead of %.15g", z, k, A, c.area[k]);
                    if (self)
                        continue;
                    double sg = back ? 1 : -1;
                    V3 n = vr->GetFaceNormFromCell(f, i, -1, -1) * sg * A;
                    if (!((n - c.nA[k]).norm() <= tol() * c.area[k] * 10))
                        return bad("norm", "cell %d face %d: outward area vector %g %g %g instead of %g %g %g", z, k, n[0], n[1], n[2], c.nA[k][0], c.nA[k][1], c.nA[k][2]);
                    close += n;
                    auto q = vr->GetFaceQuad(f);
                    V3 nn, fb;
                    double s = 0, dv = 0, worst = 0;
                    nn.setZero(), fb.setZero();
                    q.IntegrationSimple(s, [&](real &inc, int iG) { inc = vr->GetFaceJacobiDet(f, iG); });
                    q.IntegrationSimple(nn, [&](V3 &inc, int iG)
                                        { V3 u = vr->GetFaceNormFromCell(f, i, -1, iG); worst = std::max(worst, std::abs(u.norm() - 1)); inc = u * sg * vr->GetFaceJacobiDet(f, iG); });
                    q.IntegrationSimple(fb, [&](V3 &inc, int iG) { inc = vr->GetFaceQuadraturePPhysFromCell(f, i, -1, iG) * vr->GetFaceJacobiDet(f, iG); });
                    q.IntegrationSimple(dv, [&](real &inc, int iG)
                                        { inc = vr->GetFaceQuadraturePPhysFromCell(f, i, -1, iG).dot(vr->GetFaceNormFromCell(f, i, -1, iG)) * sg * vr->GetFaceJacobiDet(f, iG); });
                    div += dv;
                    if (worst > 1e-12)
                        return bad("unit", "cell %d face %d: a normal is not of unit length (%g)", z, k, worst);
                    if (!(std::abs(s - A) <= 1e-11 * A) || !((nn - c.nA[k]).norm() <= 1e-10 * A) || !((fb / s - c.fb[k]).norm() <= (curved ? 1e-2 : 1e-10) * std::sqrt(A)))
                        return bad("facequad", "cell %d face %d: its quadrature points disagree with the geometry of the face", z, k);
                    // the centre of the face, seen from the cell, is on the face
                    if (!((vr->GetFaceQuadraturePPhysFromCell(f, i, -1, -1) - c.fb[k]).norm() <= 0.2 * (dim == 2 ? A : std::sqrt(A))))
                        return bad("facecent", "cell %d face %d: face centre is elsewhere", z, k);
                    index o = vr->CellFaceOther(i, f);
                    if (o != UnInitIndex)
                    {
                        // the neighbour seen from here lies on the other side of the face
                        V3 ob = vr->GetOtherCellBaryFromCell(i, o, f);
                        if (!((ob - c.bary).dot(c.nA[k]) > 0))
                            return bad("otherbary", "cell %d face %d: the neighbour is not on the other side", z, k);
                        // neighbour data seen from here are rotated consistently
                        V3 back2 = vr->GetOtherCellPointFromCell(i, o, f, vr->GetCellBary(o));
                        if (!((back2 - ob).norm() <= 1e-12 * (1 + ob.norm())))
                            return bad("otherpoint", "cell %d face %d: barycentre and point of the neighbour are moved differently", z, k);
                    }
                }
                bool anySelf = false;
                for (int k = 0; k < mesh->cell2face.RowSize(i); k++)
                    anySelf |= mesh->face2cell(mesh->cell2face(i, k), 0) == mesh->face2cell(mesh->cell2face(i, k), 1);
                if (!anySelf)
                {
                    if (!(close.norm() <= 1e-10 * std::pow(c.vol, (dim - 1.) / dim)))
                        return bad("closed", "cell %d: its faces do not close (%g)", z, close.norm());
                    if (!(std::abs(div / dim - c.vol) <= tol() * c.vol * 10))
                        return bad("gauss", "cell %d: Gauss' theorem gives volume %.15g, not %.15g", z, div / dim, c.vol);
                }
            }
        }
        double meanOf(int z, const Poly &p)
        {
            double s = 0;
            for (auto &q : sh.g.c[z].q)
                s += q.w * p.at(q.x);
            return s / sh.g.c[z].vol;
        }
        CFV::tUDof<nV> u;
        CFV::tURec<nV> ex, a, b, c2;
        bool scalePulled = true;
        void pull(CFV::tURec<nV> &x)
        {
            x.trans.startPersistentPull();
            x.trans.waitPersistentPull();
        }
        static double rel(const Eigen::MatrixXd &x, const Eigen::MatrixXd &y) { return (x - y).cwiseAbs().maxCoeff(); }

        // the exact coefficients of the polynomials in every cell
        bool exact()
        {
            using namespace Geom::Base;
            int nd = GetNDof<dim>(order);
            for (index i = 0; i < nAll; i++)
            {
                int z = id(i);
                auto &q = sh.g.c[z].q;
                for (int v = 0; v < nV; v++)
                    u[i](v) = meanOf(z, P[v]);
                Eigen::MatrixXd B(q.size(), nd - 1), F(q.size(), nV);
                for (size_t k = 0; k < q.size(); k++)
                {
                    Eigen::RowVectorXd D(nd);
                    vr->FDiffBaseValue(D, q[k].x, i, -1, -2, 0);
                    B.row(k) = D.tail(nd - 1);
                    for (int v = 0; v < nV; v++)
                        F(k, v) = P[v].at(q[k].x) - u[i](v);
                }
                Eigen::RowVectorXd mom = Eigen::RowVectorXd::Zero(nd - 1);
                for (size_t k = 0; k < q.size(); k++)
                    mom += q[k].w * B.row(k);
                if (!(mom.cwiseAbs().maxCoeff() <= 1e-10 * sh.g.c[z].vol))
                    return bad("zeromean", "cell %d: a base function has mean %g", z, mom.cwiseAbs().maxCoeff() / sh.g.c[z].vol), false;
                Eigen::MatrixXd X = B.colPivHouseholderQr().solve(F);
                if (!(rel(B * X, F) <= 1e-10))
                    return bad("complete", "cell %d: the base does not contain the polynomials (error %g)", z, rel(B * X, F)), false;
                ex[i] = X;
                // derivatives of the base
                for (size_t k = 0; k < q.size(); k += 37)
                {
                    MatrixXR D(nd, nd);
                    D.setZero();
                    vr->FDiffBaseValue(D, q[k].x, i, -1, -2, 0);
                    for (int r = 0; r < nd; r++)
                    {
                        std::array<int, 3> o = dim == 2 ? diffOperatorOrderList2D[r] : diffOperatorOrderList[r];
                        for (int v = 0; v < nV; v++)
                        {
                            double got = (D.row(r).tail(nd - 1) * X.col(v))(0) + (r ? 0 : u[i](v)), want = P[v].at(q[k].x, o[0], o[1], o[2]);
                            if (!(std::abs(got - want) <= 1e-7 * (1 + std::abs(want))))
                                return bad("derivative", "cell %d variable %d: derivative %d%d%d of the base is %g instead of %g", z, v, o[0], o[1], o[2], got, want), false;
                        }
                    }
                }
                // the stored values at quadrature points of the cell
                auto cq = vr->GetCellQuad(i);
                for (int g = -1; g < cq.GetNumPoints(); g++)
                {
                    RowVectorXR D = vr->GetIntPointDiffBaseValue(i, -1, -1, g, std::array<int, 1>{0}, 1);
                    for (int v = 0; v < nV; v++)
                        if (!(std::abs((D * X.col(v))(0) + u[i](v) - P[v].at(vr->GetCellQuadraturePPhys(i, g))) <= 1e-9))
                            return bad("cellvalue", "cell %d: base values at its quadrature point %d are of another point", z, g), false;
                    MatrixXR D1 = vr->GetIntPointDiffBaseValue(i, -1, -1, g, Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>), dim + 1);
                    for (int d = 0; d < dim; d++)
                        if (!(std::abs((D1.row(d) * X.col(0))(0) - P[0].at(vr->GetCellQuadraturePPhys(i, g), d == 0, d == 1, d == 2)) <= 1e-8))
                            return bad("cellgrad", "cell %d: base gradients at its quadrature point %d are of another point", z, g), false;
                }
                if (i < nOwn)
                    for (int k = 0; k < mesh->cell2face.RowSize(i); k++)
                    {
                        index f = mesh->cell2face(i, k);
                        auto fq = vr->GetFaceQuad(f);
                        for (int g = -1; g < fq.GetNumPoints(); g++)
                        {
                            V3 p = vr->GetFaceQuadraturePPhysFromCell(f, i, -1, g);
                            RowVectorXR D = vr->GetIntPointDiffBaseValue(i, f, -1, g, std::array<int, 1>{0}, 1);
                            for (int v = 0; v < nV; v++)
                                if (!(std::abs((D * X.col(v))(0) + u[i](v) - P[v].at(p)) <= 1e-9))
                                    return bad("facevalue", "cell %d: base values at quadrature point %d of its face %d are of another point", z, g, k), false;
                            MatrixXR D1 = vr->GetIntPointDiffBaseValue(i, f, -1, g, Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>), dim + 1);
                            for (int d = 0; d < dim; d++)
                                if (!(std::abs((D1.row(d) * X.col(0))(0) - P[0].at(p, d == 0, d == 1, d == 2)) <= 1e-8))
                                    return bad("facegrad", "cell %d: base gradients at quadrature point %d of its face %d are of another point", z, g, k), false;
                        }
                    }
            }
            return true;
        }
        // boundary values: the polynomial at the point handed over
        VecV bndPoly(const VecV &ul, const VecV &um, index iCell, index iFace, int iG, const tPoint &n, const tPoint &p, t_index fid)
        {
            int z = id(iCell), k = -1;
            for (int q = 0; q < mesh->cell2face.RowSize(iCell); q++)
                if (mesh->cell2face(iCell, q) == iFace)
                    k = q;
            if (k < 0)
                bad("bnd-face", "cell %d: boundary value asked for a face it does not have", z);
            else if (!(std::abs(n.norm() - 1) <= (iG == -1 ? 0.2 : 1e-10)) || !(n.dot(sh.g.c[z].nA[k]) > 0.5 * sh.g.c[z].area[k]))
                bad("bnd-norm", "cell %d face %d: boundary value asked for with normal %g %g %g (point %d)", z, k, n[0], n[1], n[2], iG);
            else if (!((V3(p) - sh.g.c[z].fb[k]).dot(sh.g.c[z].nA[k]) <= 0.2 * std::pow(sh.g.c[z].area[k], 1. / (dim - 1)) * sh.g.c[z].area[k]))
                bad("bnd-point", "cell %d face %d: boundary value asked for at another place", z, k);
            if ((um - u[iCell]).norm() > 0)
                bad("bnd-mean", "cell %d: boundary value asked for with another mean", z);
            VecV r;
            for (int v = 0; v < nV; v++)
            {
                r[v] = P[v].at(p);
                if (atExact && !(std::abs(r[v] - ul[v]) <= 1e-8))
                    bad("bnd-trace", "cell %d face %d: boundary value asked for with interior value %g; the reconstruction has %g there", z, k, ul[v], r[v]);
            }
            return r + 0.5 * bndMix * (ul - r); // depends on the interior value, and agrees with the polynomial
        }
        bool atExact = false;
        double bndMix = 0;
        double away(CFV::tURec<nV> &x, index n)
        {
            double s = 0;
            for (index i = 0; i < n; i++)
            {
                double e = rel(x[i], ex[i]);
                s = std::isfinite(e) ? std::max(s, e) : 1e300;
            }
            return s;
        }
        void copy(CFV::tURec<nV> &to, CFV::tURec<nV> &from)
        {
            for (index i = 0; i < nAll; i++)
                to[i] = from[i];
        }
        double all(double x)
        {
            double r = x;
            MPI_Allreduce(&x, &r, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
            return r;
        }
        bool go(const IV &part)
        {
            mpi.setWorld();
            auto R = distribute(m, part, mpi);
            mesh = R.mesh;
            mesh->BuildGhostPrimary();
            mesh->AdjGlobal2LocalPrimary();
            mesh->InterpolateFace();
            mesh->AssertOnFaces();
            nOwn = mesh->NumCell(), nAll = mesh->NumCellProc();
            P = polys<dim>(m, order, nV);
            DNDS_MAKE_SSP(vr, mpi, mesh);
            vr->settings.maxOrder = order;
            applySettings(vr->settings, set, order);
            vr->SetPeriodicTransformations(
                [this](Eigen::Ref<MatrixXR> u, t_index fid) { trans(u, fid, 1); },
                [this](Eigen::Ref<MatrixXR> u, t_index fid) { trans(u, fid, -1); });
            vr->ConstructMetrics();
            metrics();
            if (all(failed))
                return false;
            vr->ConstructBaseAndWeight([](t_index fid, int iOrder) -> real
                                       { return Geom::FaceIDIsPeriodic(fid) ? 1. : iOrder ? 0. : fid % 3 == 2 ? 0. : 1.; });
            vr->ConstructRecCoeff();
            vr->BuildUDof(u, nV);
            vr->BuildURec(ex, nV);
            vr->BuildURec(a, nV);
            vr->BuildURec(b, nV);
            vr->BuildURec(c2, nV);
            if (sh.g.rational)
                return parallel(), !all(failed);
            bool ok = exact();
            if (all(!ok))
                return false;
            typename VR::template TFBoundary<nV> FB = [this](const VecV &a1, const VecV &a2, index i, index f, int g, const tPoint &n, const tPoint &p, t_index t)
            { return bndPoly(a1, a2, i, f, g, n, p, t); };
            // the polynomial is a fixed point of the iteration, in all its forms
            bndMix = atExact = 1;
            for (int form = 0; form < 3; form++)
            {
                copy(a, ex);
                for (index i = 0; i < nAll; i++)
                    b[i].setConstant(form == 2 ? 7 : -3);
                vr->template DoReconstructionIter<nV>(a, b, u, FB, form > 0, form == 2);
                auto &res = form == 0 ? a : b;
                double e = 0;
                for (index i = 0; i < nOwn; i++)
                    e = std::max(e, form == 2 ? (std::isfinite(res[i].norm()) ? res[i].cwiseAbs().maxCoeff() : 1e300) : rel(res[i], ex[i]));
                if (!(e <= 1e-8))
                    bad("fixed", "the reconstruction of a polynomial moves it by %g (%s)", e, form == 0 ? "in place" : form == 1 ? "into the new array" : "increment");
            }
            if (all(failed))
                return false;
            // ... and attracts
            atExact = 0, bndMix = 0;
            for (index i = 0; i < nAll; i++)
                a[i].setZero(), b[i].setZero();
            double e0 = all(away(a, nOwn)), e1 = 0;
            int nIt = 0;
            for (; nIt < 1500; nIt++)
            {
                vr->template DoReconstructionIter<nV>(a, b, u, FB, false);
                pull(a);
                e1 = all(away(a, nAll));
                if (e1 <= 1e-3 * e0 || !(e1 < 1e100))
                    break;
            }
            ctx.nTrans += nIt;
            if (rank == 0)
                ctx.extra["sweeps"] += nIt;
            if (!(e1 <= 0.5 * e0))
                bad("converge", "after %d sweeps the distance to the polynomial is %g (was %g)", nIt, e1, e0);
            if (all(failed))
                return false;
            secondOrder();
            if (all(failed))
                return false;
            if (!m.rot)
                limitPoly();
            if (all(failed))
                return false;
            parallel();
            return !all(failed);
        }
        // explicit second-order gradients are exact on linear data; boundary values are those of the mirrored cell
        void secondOrder()
        {
            auto P0 = P;
            P = polys<dim>(m, 1, nV);
            bool affine3 = dim == 2 || sh.g.affineFaces;
            for (index i = 0; i < nAll; i++)
                for (int v = 0; v < nV; v++)
                    u[i](v) = meanOf(id(i), P[v]);
            for (int method : {11, 2, 1})
            {
                if (!affine3 && method != 2)
                    continue;
                if (method == 2 && m.perDirs)
                    continue; // not made for periodic meshes
                if (method == 1 && !sh.g.boxes)
                    continue; // interpolates along the line of the centres
                typename VR::template TFBoundary<nV> FB = [&](const VecV &ul, const VecV &um, index i, index f, int g, const tPoint &n, const tPoint &p, t_index t)
                {
                    V3 b = sh.g.c[id(i)].bary, o = 2 * V3(p) - b;
                    if (method == 2)
                        o = b + 2 * (V3(p) - b).dot(V3(n)) * V3(n);
                    VecV r;
                    for (int v = 0; v < nV; v++)
                        r[v] = P[v].at(o);
                    if ((ul - u[i]).norm() > 0 || (um - u[i]).norm() > 0)
                        bad("bnd2-mean", "cell %d: boundary value asked for with another mean", id(i));
                    return r;
                };
                for (int msk = 0; msk < 2; msk++)
                {
                    for (index i = 0; i < nAll; i++)
                        a[i].setConstant(3);
                    vr->template DoReconstruction2nd<nV>(a, u, FB, method, msk ? std::vector<int>{0, 2} : std::vector<int>());
                    for (index i = 0; i < nOwn; i++)
                    {
                        MatrixXR D1 = vr->GetIntPointDiffBaseValue(i, -1, -1, -1, Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>), dim + 1);
                        for (int v = 0; v < nV; v++)
                        {
                            if (msk && v != 0 && v != 2)
                            {
                                if ((a[i].col(v).array() != 3).any())
                                    return bad("mask", "cell %d variable %d: changed though not among those asked for", id(i), v);
                                continue;
                            }
                            if (a[i].rows() > dim && a[i].col(v).tail(a[i].rows() - dim).cwiseAbs().maxCoeff() != 0)
                                return bad("2nd-high", "cell %d variable %d: second order reconstruction has higher terms", id(i), v);
                            for (int d = 0; d < dim; d++)
                            {
                                double got = (D1.row(d) * a[i].col(v))(0), want = P[v].at(sh.g.c[id(i)].bary, d == 0, d == 1, d == 2);
                                if (!(std::abs(got - want) <= 1e-8))
                                    return bad("2nd", "method %d, cell %d variable %d: derivative %d of a linear function is %g instead of %g", method, id(i), v, d, got, want);
                            }
                        }
                    }
                }
            }
            P = P0;
            for (index i = 0; i < nAll; i++)
                for (int v = 0; v < nV; v++)
                    u[i](v) = meanOf(id(i), P[v]);
        }
        // characteristic transformations for the limiters; insensitive to swapping the sides, but they check what they get
        using Batch = typename VR::template tLimitBatch<nV>;
        Eigen::Matrix<real, nV, nV> eig(const VecV &uL, const VecV &uR, const tPoint &n)
        {
            int zl = -1, zr = -1;
            for (index i = 0; i < nAll; i++)
            {
                if ((VecV(u[i]) - uL).norm() == 0)
                    zl = id(i);
                if ((VecV(u[i]) - uR).norm() == 0)
                    zr = id(i);
            }
            if (zl < 0 || zr < 0)
                bad("eig-mean", "limiter: means that no cell has");
            else if (!m.perDirs && zl != zr && uniqueMeans)
            {
                bool found = false;
                for (size_t k = 0; k < sh.g.c[zl].nA.size(); k++)
                    for (size_t q = 0; q < sh.g.c[zr].nA.size(); q++)
                        if ((sh.g.c[zl].fb[k] - sh.g.c[zr].fb[q]).norm() < 1e-9 && (sh.g.c[zl].nA[k] / sh.g.c[zl].area[k] - V3(n)).norm() < 0.2)
                            found = true;
                if (!found)
                    bad("eig-norm", "limiter: normal %g %g %g does not point from cell %d to cell %d", n[0], n[1], n[2], zl, zr);
            }
            VecV w = 0.5 * (uL + uR);
            Eigen::Matrix<real, nV, nV> M = Eigen::Matrix<real, nV, nV>::Identity();
            for (int v = 0; v < nV; v++)
                for (int q = 0; q < nV; q++)
                    M(v, q) += 0.05 * (std::sin(w[v] + q) + n[v % dim] * n[q % dim]);
            return M;
        }
        bool uniqueMeans = false;
        void limit(int which, int alter, bool norm, bool ifAll, CFV::tURec<nV> &x, CFV::tURec<nV> &xn, CFV::tURec<nV> &buf, CFV::tScalarPair &si, bool into)
        {
            typename VR::template tFMEig<nV> FM = [&](const VecV &uL, const VecV &uR, const tPoint &n, const Eigen::Ref<Batch> &d) -> Batch
            { return d * eig(uL, uR, n).transpose(); };
            typename VR::template tFMEig<nV> FMI = [&](const VecV &uL, const VecV &uR, const tPoint &n, const Eigen::Ref<Batch> &d) -> Batch
            { return d * eig(uL, uR, n).inverse().transpose(); };
            vr->settings.limiterBiwayAlter = alter;
            vr->settings.normWBAP = norm;
            if (which == 0)
                vr->template DoLimiterWBAP_C<nV>(u, x, xn, buf, si, ifAll, FM, FMI, into);
            else
                vr->template DoLimiterWBAP_3<nV>(u, x, xn, buf, si, ifAll, FM, FMI, into);
        }
        static constexpr int nAlter = 5;
        void limitPoly()
        {
            CFV::tScalarPair si;
            vr->BuildScalar(si);
            for (int which = 0; which < 2; which++)
                for (int alter = 0; alter < nAlter; alter++)
                {
                    copy(a, ex);
                    for (index i = 0; i < nAll; i++)
                        b[i].setConstant(9), c2[i].setConstant(-9);
                    bool into = alter % 2;
                    limit(which, alter, dim == 2 && alter == 2, true, a, b, c2, si, into);
                    auto &res = into ? b : a;
                    for (index i = 0; i < nAll; i++)
                        if (!(rel(res[i], ex[i]) <= 1e-7))
                            bad("limit-poly", "limiter %d/%d changes the reconstruction of a polynomial in cell %d by %g", which, alter, id(i), rel(res[i], ex[i]));
                }
            if (m.perDirs)
                return;
            copy(a, ex);
            for (int v1 = 0; v1 < 2; v1++)
            {
                indicator(si, a, v1);
                for (index i = 0; i < nOwn; i++)
                    if (!(std::abs(si(i, 0)) <= 1e-4))
                        bad("indicator-poly", "cell %d: indicator %d of a polynomial is %g", id(i), v1, si(i, 0));
            }
        }
        void indicator(CFV::tScalarPair &si, CFV::tURec<nV> &x, bool v1)
        {
            if (!v1)
                return vr->template DoCalculateSmoothIndicator<nV, 2>(si, x, u, std::array<int, 2>{0, 2});
            VecV see;
            see.setOnes();
            vr->template DoCalculateSmoothIndicatorV1<nV>(si, x, u, see, [](Eigen::Matrix<real, 1, nV> &r) { r(0) += 0.1 * r(1) * r(1); });
        }
        // comparison with the serial run on data that are no polynomial
        static double noise(int z, int v, int k)
        {
            unsigned h = z * 7919 + v * 104729 + k * 1299709 + 17;
            h ^= h >> 7, h *= 2246822519u, h ^= h >> 13, h *= 3266489917u, h ^= h >> 16;
            return (h % 2001) / 1000. - 1;
        }
        void record(int slot, CFV::tURec<nV> &x, bool ghosts, const char *what)
        {
            for (index i = 0; i < nOwn; i++)
                sh.now[slot].at(id(i)) = x[i];
            sync();
            for (index i = nOwn; ghosts && i < nAll; i++)
                if (!(rel(x[i], sh.now[slot][id(i)]) == 0))
                    bad("ghost", "%s: the ghost of cell %d differs from its owner by %g", what, id(i), rel(x[i], sh.now[slot][id(i)]));
            if (sh.have && rank == 0)
                for (size_t z = 0; z < m.c.size(); z++)
                {
                    double s = 1 + sh.rec[slot][z].cwiseAbs().maxCoeff(), e = rel(sh.now[slot][z], sh.rec[slot][z]);
                    if (!(e <= 1e-8 * s))
                        bad("serial", "%s: cell %zu differs by %g from the serial run", what, z, e);
                }
            sync();
        }
        void parallel()
        {
            usePolys = false;
            typename VR::template TFBoundary<nV> FB = [this](const VecV &ul, const VecV &um, index i, index f, int g, const tPoint &n, const tPoint &p, t_index t) -> VecV
            {
                VecV r = 0.5 * ul;
                for (int v = 0; v < nV; v++)
                    r[v] += 0.2 * std::sin(p[0] + 2 * p[1] + 3 * p[2] + v) + 0.1 * n[v % dim];
                return r;
            };
            typename VR::template TFBoundaryDiff<nV> FBD = [this](const VecV &, const VecV &du, const VecV &, index, index, int, const tPoint &, const tPoint &, t_index) -> VecV
            { return 0.5 * du; };
            for (index i = 0; i < nAll; i++)
                for (int v = 0; v < nV; v++)
                    u[i](v) = 2 + noise(id(i), v, 1);
            bool sor = vr->settings.SORInstead;
            for (index i = 0; i < nAll; i++)
                a[i].setZero(), b[i].setZero();
            vr->settings.SORInstead = false;
            for (int it = 0; it < 3; it++)
            {
                vr->template DoReconstructionIter<nV>(a, b, u, FB, false);
                pull(a);
            }
            record(0, a, true, "three Jacobi sweeps");
            vr->settings.SORInstead = sor;
            // increments and their derivative
            auto fill = [&](CFV::tURec<nV> &x, int k)
            {
                for (index i = 0; i < nAll; i++)
                    for (int r = 0; r < x[i].rows(); r++)
                        for (int v = 0; v < nV; v++)
                            x[i](r, v) = noise(id(i), v, 10 * k + r + 3);
            };
            fill(a, 1);
            copy(ex, a);
            vr->template DoReconstructionIter<nV>(a, b, u, FB, true, true);
            for (index i = 0; i < nAll; i++)
                if (rel(a[i], ex[i]) != 0)
                    bad("inc-touch", "recording the increment changed the reconstruction");
            pull(b);
            record(1, b, true, "increment");
            fill(c2, 2); // direction
            vr->template DoReconstructionIterDiff<nV>(a, c2, ex, u, FBD); // ex = J c2
            pull(ex);
            record(2, ex, true, "derivative of the increment");
            for (index i = 0; i < nAll; i++)
                a[i] += c2[i], a[i].eval();
            CFV::tURec<nV> r2;
            vr->BuildURec(r2, nV);
            vr->template DoReconstructionIter<nV>(a, r2, u, FB, true, true);
            for (index i = 0; i < nOwn; i++)
            {
                double e = rel(r2[i] - b[i], ex[i]);
                if (!(e <= 1e-8 * (1 + ex[i].cwiseAbs().maxCoeff())))
                    bad("jacobian", "cell %d: the derivative of the increment is wrong by %g", id(i), e);
            }
            // a solution of the linear system is a fixed point of its SOR sweeps
            {
                for (bool rev : {false, true})
                {
                    copy(r2, c2);
                    vr->template DoReconstructionIterSOR<nV>(a, ex, r2, u, FBD, rev);
                    for (index i = 0; i < nOwn; i++)
                        if (!(rel(r2[i], c2[i]) <= 1e-8 * (1 + ex[i].cwiseAbs().maxCoeff())))
                            bad("sor", "cell %d: a %s sweep moves the solution by %g", id(i), rev ? "backward" : "forward", rel(r2[i], c2[i]));
                }
            }
            for (index i = 0; i < nOwn; i++)
                sh.nowSm[id(i)] = vr->GetCellSmoothScaleRatio(i);
            sync();
            for (index i = 0; i < nAll; i++)
                if (vr->GetCellSmoothScaleRatio(i) != sh.nowSm[id(i)])
                    bad("ghost-scale", "smooth scale of ghost %d differs from its owner", id(i));
            if (sh.have && rank == 0)
                for (size_t z = 0; z < m.c.size(); z++)
                    if (!(std::abs(sh.nowSm[z] - sh.smooth[z]) <= 1e-10))
                        bad("serial-scale", "smooth scale of cell %zu is %g, serially %g", z, sh.nowSm[z], sh.smooth[z]);
            // multiplication with the matrix of every cell, ghosts included
            vr->template MatrixAMult<nV>(c2, r2);
            record(3, r2, true, "matrix product");
            // explicit second-order gradients
            for (int method : {1, 2, 11})
                if (!(method == 2 && m.perDirs))
                {
                    vr->template DoReconstruction2nd<nV>(a, u, FB, method, {});
                    record(method == 1 ? 4 : method == 2 ? 5 : 6, a, false, "second order gradients");
                }
            // indicators and limiters
            if (!m.rot)
            {
                CFV::tScalarPair si;
                vr->BuildScalar(si);
                uniqueMeans = true;
                for (int v1 = 0; v1 < 2; v1++)
                {
                    fill(a, 3);
                    indicator(si, a, v1);
                    for (index i = 0; i < nAll; i++)
                        b[i].setConstant(i < nOwn ? si(i, 0) : 0);
                    record(7 + v1, b, false, "smoothness indicator");
                }
                // some cells are smooth
                for (index i = 0; i < nAll; i++)
                    si(i, 0) = id(i) % 2;
                vr->settings.smoothThreshold = 0.5;
                for (int which = 0; which < 2; which++)
                    for (int alter = 0; alter < nAlter; alter++)
                        for (int ifAll = 0; ifAll < 2; ifAll++)
                        {
                            fill(a, 3);
                            for (index i = 0; i < nAll; i++)
                                b[i].setConstant(9), c2[i].setConstant(-9), ex[i] = a[i];
                            bool into = (alter + ifAll) % 2;
                            limit(which, alter, dim == 2 && alter == 3, ifAll, a, b, c2, si, into);
                            auto &res = into ? b : a;
                            for (index i = 0; i < nOwn; i++)
                                if (!ifAll && id(i) % 2 == 0 && rel(res[i], ex[i]) != 0)
                                    bad("limit-smooth", "limiter %d/%d changed the smooth cell %d", which, alter, id(i));
                            for (index i = 0; into && i < nAll; i++)
                                if (rel(a[i], ex[i]) != 0)
                                    bad("limit-into", "limiter %d/%d changed its input in cell %d", which, alter, id(i));
                            record(9 + (which * nAlter + alter) * 2 + ifAll, res, true, "limiter");
                        }
            }
            if (rank == 0 && !sh.have)
            {
                for (int k = 0; k < nSlot; k++)
                    sh.rec[k] = sh.now[k];
                sh.smooth = sh.nowSm;
            }
            sync();
        }
    };
    static void runVR(vh::Ctx &ctx, const SMesh &m, const IV &part, int R, int order, int set, const sim::Config &cfg)
    {
        // the serial run is the same for all partitions
        static std::map<std::string, Shared> cache;
        auto key = vh::fmts("%s/%d/%d", m.name.c_str(), order, set);
        if (cache.size() > 60)
            cache.clear();
        auto &sh = cache[key];
        if (!sh.have)
            sh.g = geometry(m);
        for (int pass = 0; pass < 2; pass++)
        {
            bool serial = pass == 0;
            if (!serial && R == 1)
                break;
            if (serial && sh.have)
                continue;
            for (auto &v : sh.now)
                v.assign(m.c.size(), {});
            sh.nowSm.assign(m.c.size(), 0);
            IV p = serial ? IV(m.c.size(), 0) : part;
            int before = ctx.nfail;
            auto s = sim::run(serial ? 1 : R, serial ? sim::Config() : cfg, nullptr, [&](int r)
                              {
                if (m.dim == 2)
                    Run<2>{ctx, m, sh, r, order, set}.go(p);
                else
                    Run<3>{ctx, m, sh, r, order, set}.go(p); });
            addStats(ctx, s);
            ctx.beat();
            if (ctx.nfail != before)
            {
                cache.clear();
                return;
            }
            sh.have = true;
        }
        vh::Hash h;
        for (auto &x : sh.now[0])
            for (int i = 0; i < x.size(); i++)
                h.add(x.data()[i]);
        ctx.state(h.h);
        ctx.nTraces++;
    }
    void body(vh::Ctx &ctx)
    {
        simAttach(ctx);
        quiet();
        omp_set_num_threads(1);
        sim::Config base;
        std::vector<SMesh> M2{grid2(1, 1, 'q'), grid2(2, 2, 'q'), grid2(2, 1, 't'), grid2(3, 1, 'm'), fan(4), flat(grid2(2, 2, 'q')), elevated(grid2(2, 1, 'm')),
                              grid2(3, 1, 'q', 1), grid2(2, 2, 'q', 3), grid2(2, 2, 'm', 1), sector(1, 3, M_PI / 2), sector(2, 2, 1.1)};
        std::vector<SMesh> M3{grid3(2, 1, 1, 'h'), grid3(1, 1, 1, 'p'), grid3(2, 1, 1, 'p'), flat(grid3(1, 1, 1, 'y')), grid3(1, 1, 1, 'T'), grid3(2, 1, 1, 'h', 1), grid3(1, 1, 3, 'h', 4), sector(1, 2, 0.9, 2), zoo3(), elevated(grid3(1, 1, 1, 'p'))};
        M2.push_back(flat(grid2(3, 2, 'q', 1)));
        M3.push_back(flat(grid3(2, 2, 1, 'h')));
        auto one = [&](const SMesh &m, const IV &p, int R, int order, int set, const sim::Config &cfg, const char *what = "")
        {
            VS s(m.dim);
            auto nm = applySettings(s, set, order);
            if (!ctx.take("%s ranks %d part %s order %d %s%s", m.name.c_str(), R, pstr(p).c_str(), order, nm.c_str(), what))
                return;
            runVR(ctx, m, p, R, order, set, cfg);
        };
        auto MA = M2;
        MA.insert(MA.end(), M3.begin(), M3.end());
        // all settings and orders, one partition each
        for (auto &m : MA)
            for (int set = 0; set < nSettings; set++)
                for (int order = 1; order <= 3; order++)
                {
                    if (m.dim == 3 && order == 3 && !ctx.thorough && set)
                        continue;
                    IV p;
                    for (size_t i = 0; i < m.c.size(); i++)
                        p.push_back((i * 2 + set + order) % 3 % 2);
                    one(m, p, 2, order, set, base);
                }
        // all partitions
        for (auto &m : MA)
            for (int R = 1; R <= 4; R++)
            {
                if (std::pow(R, m.c.size()) > (ctx.thorough ? 5000 : m.dim == 2 ? 300 : 90))
                    continue;
                allParts(m.c.size(), R, [&](const IV &p)
                         {
                    int k = 0;
                    for (int x : p) k = k * R + x;
                    if (ctx.thorough)
                        for (int order = 1; order <= (m.dim == 2 ? 3 : 2); order++)
                            for (int set : {0, 3, 7, 14})
                                one(m, p, R, order, set, base);
                    else
                        one(m, p, R, 1 + k % (m.dim == 2 ? 3 : 2), k % 4 == 3 ? 7 : 0, base); });
            }
        // deliveries
        int nc = 0;
        for (auto &cfg : sim::allConfigs(3, ctx.thorough))
        {
            nc++;
            for (auto &m : {M2[1], M2[3], M2[8], M3[2]})
            {
                IV p;
                for (size_t i = 0; i < m.c.size(); i++)
                    p.push_back((i + nc) % 3);
                one(m, p, 3, 2, 0, cfg, vh::fmts(" delivery %d", nc).c_str());
            }
        }
    }
}
int main(int argc, char **argv) { return vh::run(argc, argv, DNDS::vf::body); }
