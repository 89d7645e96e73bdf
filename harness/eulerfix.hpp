#pragma once
// An evaluator of the flow solver on a distributed small mesh, set up the way the solver sets it up.
#include "meshrun.hpp"
#include "Euler/EulerEvaluator.hpp"
#ifndef EMODEL
#define EMODEL NS_2D
#endif
namespace DNDS::vf
{
    static constexpr Euler::EulerModel MODEL = Euler::EMODEL;
    using Eval = Euler::EulerEvaluator<MODEL>;
    static constexpr int DIM = Eval::dim, GD = Eval::gDim, I4 = DIM + 1, NVF = Eval::nVarsFixed;
    static const int NV = Euler::getNVars(MODEL);
    using json = nlohmann::ordered_json;
    using VX = Eigen::VectorXd;
    using V3 = Eigen::Vector3d;
    using MX = Eigen::MatrixXd;
    using VD = Eigen::Matrix<double, DIM, 1>;
    using MD = Eigen::Matrix<double, DIM, DIM>;

    struct Spec
    {
        std::string name = "default";
        std::string bcs = "cycle"; // how boundaries are assigned
        int order = 2, state = 0, intOrder = 5;
        json edit = json::object(); // merged into the settings of the evaluator
        bool limited = false;       // limited and unlimited reconstruction differ
        uint64_t flags = 0;
        double t = 0.3;
    };
    // deterministic numbers in [-1,1]
    static double rnd(int a, int b, int c = 0)
    {
        uint64_t z = 0x9E3779B97F4A7C15ull * (uint64_t)(a + 1) + 0xBF58476D1CE4E5B9ull * (uint64_t)(b + 1) + 0x94D049BB133111EBull * (uint64_t)(c + 1);
        z ^= z >> 31, z *= 0xD6E8FEB86659FD93ull, z ^= z >> 29, z *= 0xD6E8FEB86659FD93ull, z ^= z >> 32;
        return (double)(z % 20001) / 10000. - 1;
    }
    static const double GAM = 1.4;
    static VX prim2cons(const VX &w)
    {
        VX u = w;
        double q = 0;
        for (int d = 1; d <= DIM; d++)
            u[d] = w[0] * w[d], q += w[d] * w[d];
        u[I4] = w[I4] / (GAM - 1) + 0.5 * w[0] * q;
        for (int k = I4 + 1; k < w.size(); k++)
            u[k] = w[0] * w[k];
        return u;
    }
    static VX cons2prim(const VX &u)
    {
        VX w = u;
        double q = 0;
        for (int d = 1; d <= DIM; d++)
            w[d] = u[d] / u[0], q += w[d] * w[d];
        w[I4] = (GAM - 1) * (u[I4] - 0.5 * u[0] * q);
        for (int k = I4 + 1; k < u.size(); k++)
            w[k] = u[k] / u[0];
        return w;
    }
    static VX primState(int kind, int cell)
    {
        VX w = VX::Zero(NV);
        w[0] = 1 + 0.2 * rnd(cell, 1);
        double v[3] = {0.4, 0.25, -0.3};
        if (kind == 1)
            v[0] = 2.4, v[1] = 1.9, v[2] = -2.2;
        if (kind == 2)
            v[0] = -2.4, v[1] = -1.9, v[2] = 2.2;
        if (kind == 3)
            v[0] = -0.4, v[1] = -0.25, v[2] = 0.3;
        for (int d = 0; d < DIM; d++)
            w[1 + d] = v[d] + 0.15 * rnd(cell, 2 + d);
        w[I4] = 1 + 0.15 * rnd(cell, 7);
        for (int k = I4 + 1; k < NV; k++)
            w[k] = (k == I4 + 1 ? 0.02 : 1.5) * (1 + 0.2 * rnd(cell, 8 + k));
        if (kind == 9) // uniform
        {
            w.setZero();
            w[0] = 1.1, w[1] = 0.3, w[2] = -0.4, w[I4] = 0.9;
            for (int k = I4 + 1; k < NV; k++)
                w[k] = k == I4 + 1 ? 0.02 : 1.5;
            if (DIM == 3)
                w[3] = 0.2;
        }
        return w;
    }
    // boundary conditions with their values; identifiers from 20 on
    static VX bcPrim(int which)
    {
        VX w = VX::Zero(NV);
        w[0] = 1.05 + 0.05 * which, w[1] = 0.35, w[2] = -0.2, w[I4] = 0.9 + 0.1 * which;
        if (DIM == 3)
            w[3] = 0.15;
        for (int k = I4 + 1; k < NV; k++)
            w[k] = k == I4 + 1 ? 0.03 : 1.2;
        return w;
    }
    static json vec(const VX &v) { return json(std::vector<double>(v.data(), v.data() + v.size())); }
    enum Cond
    {
        cFarDef = Geom::BC_ID_DEFAULT_FAR,
        cWallDef = Geom::BC_ID_DEFAULT_WALL,
        cSlipDef = Geom::BC_ID_DEFAULT_WALL_INVIS,
        cFar = Geom::BC_ID_DEFAULT_MAX,
        cWall,
        cSlip,
        cOut,
        cOutP,
        cIn,
        cStag,
        cSym,
        cEnd
    };
    static VX stagValue()
    {
        VX v = VX::Zero(NV);
        v[0] = 1.6, v[1] = 1.3;
        VX d(3);
        d << 0.6, 0.7, -0.3;
        for (int k = 0; k < DIM; k++)
            v[2 + k] = d[k];
        for (int k = I4 + 1; k < NV; k++)
            v[k] = k == I4 + 1 ? 0.04 : 1.1;
        return v;
    }
    static json bcJson(bool integrate, int anchor)
    {
        json j = json::array();
        int i = integrate;
        j.push_back({{"type", "BCFar"}, {"name", "far"}, {"value", vec(prim2cons(bcPrim(0)))}, {"integrationOption", i}, {"frameOption", 0}});
        j.push_back({{"type", "BCWall"}, {"name", "wall"}, {"integrationOption", i}, {"frameOption", 1}});
        j.push_back({{"type", "BCWallInvis"}, {"name", "slip"}, {"integrationOption", i}});
        j.push_back({{"type", "BCOut"}, {"name", "out"}, {"value", vec(prim2cons(bcPrim(1)))}, {"integrationOption", i}});
        j.push_back({{"type", "BCOutP"}, {"name", "outp"}, {"value", vec(prim2cons(bcPrim(2)))}, {"integrationOption", 2 * i}, {"anchorOption", anchor}, {"valueExtra", std::vector<double>{0.3, 0.2, 0.1}}});
        j.push_back({{"type", "BCIn"}, {"name", "in"}, {"value", vec(prim2cons(bcPrim(3)))}, {"integrationOption", i}});
        j.push_back({{"type", "BCInPsTs"}, {"name", "stag"}, {"value", vec(stagValue())}, {"integrationOption", 2 * i}});
        j.push_back({{"type", "BCSym"}, {"name", "sym"}, {"integrationOption", i}});
        return j;
    }
    static const std::vector<int> &allConds()
    {
        static const std::vector<int> v{cFarDef, cWallDef, cSlipDef, cFar, cWall, cSlip, cOut, cOutP, cIn, cStag, cSym};
        return v;
    }
    static SMesh withBC(SMesh m, const std::string &how, int off)
    {
        auto &L = allConds();
        int k = 0;
        for (auto &b : m.b)
            if (b.zone > 0)
            {
                if (how == "cycle")
                    b.zone = L[(k * 4 + off) % L.size()]; // 4 and 11 are coprime: neighbours differ in kind
                else if (how == "far")
                    b.zone = cFarDef;
                else if (how == "wall")
                    b.zone = cWallDef;
                else if (how == "slip")
                    b.zone = k % 2 ? cSlipDef : cSym;
                else if (how == "calm") // those for which a uniform flow is undisturbed when the value matches
                    b.zone = k % 2 ? cFarDef : cOut;
                else if (how == "rot") // in a rotating frame: conditions that carry a frame option
                {
                    static const int R[] = {cFar, cWall, cSlip, cOut, cIn, cSym, cSlipDef, cStag, cOutP, cFarDef, cWallDef};
                    b.zone = R[(k * 4 + off) % 11];
                }
                else
                    DNDS_assert(false);
                k++;
            }
        return m;
    }
    struct Fix
    {
        vh::Ctx &ctx;
        const SMesh &m;
        const Spec &sp;
        int rank;
        MPIInfo mpi;
        ssp<UnstructuredMesh> mesh;
        ssp<Eval::TVFV> vfv;
        ssp<Euler::BoundaryHandler<MODEL>> bc;
        std::unique_ptr<Eval> ev;
        Euler::ArrayDOFV<NVF> u, rhs;
        Euler::ArrayRECV<NVF> uRec, uRecLim;
        Euler::ArrayDOFV<1> dTau, beta, alpha;
        Euler::JacobianDiagBlock<NVF> JD, JSource;
        index nOwn = 0, nAll = 0;
        bool failed = false;
        json setJson;
        std::string ps;

        template <class... A>
        void bad(const char *key, const char *fmt, A... a)
        {
            if (!failed)
                ctx.fail(key, "%s [cells to ranks: %s]", vh::fmts(fmt, a...).c_str(), ps.c_str());
            failed = true;
        }
        double all(double x)
        {
            double r = x;
            MPI_Allreduce(&x, &r, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
            return r;
        }
        double sum(double x)
        {
            double r = x;
            MPI_Allreduce(&x, &r, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
            return r;
        }
        int id(index iCell) { return mesh->cellElemInfo(iCell, 0).zone - 1000; }
        void build(const IV &part)
        {
            ps = pstr(part);
            mpi.setWorld();
            auto R = distribute(m, part, mpi);
            mesh = R.mesh;
            mesh->BuildGhostPrimary();
            mesh->AdjGlobal2LocalPrimary();
            mesh->InterpolateFace();
            mesh->AssertOnFaces();
            nOwn = mesh->NumCell(), nAll = mesh->NumCellProc();
            DNDS_MAKE_SSP(vfv, mpi, mesh);
            static const auto Seq123 = Eigen::seq(Eigen::fix<1>, Eigen::fix<DIM>);
            vfv->SetPeriodicTransformations(
                [ms = mesh](auto u, Geom::t_index id)
                { u(Eigen::all, Seq123) = ms->periodicInfo.template TransVector<DIM, Eigen::Dynamic>(u(Eigen::all, Seq123).transpose(), id).transpose(); },
                [ms = mesh](auto u, Geom::t_index id)
                { u(Eigen::all, Seq123) = ms->periodicInfo.template TransVectorBack<DIM, Eigen::Dynamic>(u(Eigen::all, Seq123).transpose(), id).transpose(); });
            vfv->settings.maxOrder = sp.order;
            vfv->settings.intOrder = sp.intOrder;
            vfv->ConstructMetrics();
            DNDS_MAKE_SSP(bc, NV);
            json bj = bcJson(sp.flags == 0, sp.edit.value("__anchor", 0));
            from_json(bj, *bc);
            vfv->ConstructBaseAndWeight([&](t_index fid, int iOrder) -> real
                                        {
                auto t = bc->GetTypeFromID(fid);
                if (t == Euler::BCSpecial || t == Euler::BCOut) return 0;
                if (Geom::FaceIDIsPeriodic(fid)) return 1.;
                return iOrder ? 0. : 1.; });
            vfv->ConstructRecCoeff();
            vfv->BuildUDof(u, NV);
            vfv->BuildUDof(rhs, NV);
            vfv->BuildURec(uRec, NV);
            vfv->BuildURec(uRecLim, NV);
            vfv->BuildUDof(dTau, 1);
            vfv->BuildUDof(beta, 1);
            vfv->BuildUDof(alpha, 1);
            beta.setConstant(1.0), alpha.setConstant(1.0);
            Euler::EulerEvaluatorSettings<MODEL> s;
            json j;
            s.farFieldStaticValue = prim2cons(sp.state == 9 ? primState(9, 0) : bcPrim(4));
            s.idealGasProperty.muGas = 0.02;
            s.idealGasProperty.TRef = 0.8;
            s.idealGasProperty.CSutherland = 0.4;
            s.ReadWriteJSON(j, NV, false);
            for (auto &[k, v] : sp.edit.items())
                if (k[0] != '_')
                {
                    if (v.is_object())
                        for (auto &[k2, v2] : v.items())
                            j[k][k2] = v2;
                    else
                        j[k] = v;
                }
            if (m.rot) // the frame turns about the axis of the periodicity
                j["frameConstRotation"]["center"] = std::vector<double>{m.rc[0], m.rc[1], m.rc[2]};
            setJson = j;
            ev = std::make_unique<Eval>(mesh, vfv, bc, j);
            JD.SetModeAndInit(ev->settings.useScalarJacobian ? 0 : 1, NV, u);
            JSource.SetModeAndInit(ev->settings.useScalarJacobian ? 0 : 1, NV, u);
        }
        void pull(Euler::ArrayDOFV<NVF> &x)
        {
            x.trans.startPersistentPull();
            x.trans.waitPersistentPull();
        }
        void pull(Euler::ArrayDOFV<1> &x)
        {
            x.trans.startPersistentPull();
            x.trans.waitPersistentPull();
        }
        void pull(Euler::ArrayRECV<NVF> &x)
        {
            x.trans.startPersistentPull();
            x.trans.waitPersistentPull();
        }
        void fill(double recSize = 0.02)
        {
            for (index i = 0; i < nOwn; i++)
            {
                int z = id(i);
                u[i] = prim2cons(primState(sp.state, z));
                for (int r = 0; r < uRec[i].rows(); r++)
                    for (int v = 0; v < NV; v++)
                    {
                        double a = sp.state == 9 ? 0 : recSize * (v > I4 ? 0.01 : 1) * rnd(z, 20 + r, v);
                        uRec[i](r, v) = a;
                        uRecLim[i](r, v) = sp.limited ? a * (0.5 + 0.5 * rnd(z, 3, v)) : a;
                    }
            }
            pull(u), pull(uRec), pull(uRecLim);
        }
        auto &lim() { return sp.limited ? uRecLim : uRec; }
    };
}
