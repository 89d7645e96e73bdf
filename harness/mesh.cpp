// C10-C14: distribution, adjacency, halo, faces, periodicity and renumbering of meshes; all assignments of
// cells to ranks of a catalogue of small meshes, executed by the real mesh code in the simulated MPI world.
#include "meshrun.hpp"
namespace DNDS::vf
{
    // ---------------------------------------------------------------- C10
    static void bodyPart(vh::Ctx &ctx, const SMesh &m, const IV &partIn, int rank, Stages &st, int mRank)
    {
        MPIInfo mpi;
        mpi.setWorld();
        UnstructuredMeshSerialRW::PartitionOptions po;
        bool metis = mRank >= 100;
        IV part = partIn;
        if (metis)
        {
            po.metisType = mRank & 1 ? "RB" : "KWAY";
            po.metisNcuts = 2;
            po.edgeWeightMethod = mRank >> 1 & 1;
            mRank = 0;
            part.clear();
        }
        auto R = distribute(m, part, mpi, mRank, metis ? &po : nullptr);
        auto &mesh = *R.mesh;
        if (metis && rank == 0)
        {
            if (R.rw->cellPartition.size() != m.c.size())
                return ctx.fail("metis-size", "partition of %zu cells has %zu entries", m.c.size(), R.rw->cellPartition.size());
            for (auto p : R.rw->cellPartition)
            {
                if (p < 0 || p >= mpi.size)
                    return ctx.fail("metis-range", "cell assigned to rank %d of %d", (int)p, mpi.size);
                part.push_back(p);
            }
        }
        if (!stage(st, rank, snap(mesh, false), [&]
                   { Cmp c(ctx, m, st.w, "distributed"); 
                     ctx.state(hashWorld(st.w));
                     return c.primary(part) && (m.o2 || c.cell2cell()) && c.bnd2cellPeriodic(false); }))
            return;
        // gather for serial output and compare again
        R.rw->BuildSerialOut();
        auto &rw = *R.rw;
        if (rank != mRank)
        {
            if (rw.coordSerial->Size() || rw.cell2nodeSerial->Size() || rw.cellElemInfoSerial->Size())
                ctx.fail("serial-out-other", "rank %d holds %ld gathered cells", rank, (long)rw.cell2nodeSerial->Size());
            return;
        }
        Cmp c(ctx, m, st.w, "gathered");
        if (!c.primary(part))
            return;
        if (rw.cell2nodeSerial->Size() != (index)m.c.size() || rw.cellElemInfoSerial->Size() != (index)m.c.size() || rw.coordSerial->Size() != (index)c.nodeM.size())
        {
            ctx.fail("serial-out-size", "gathered %ld cells %ld nodes", (long)rw.cell2nodeSerial->Size(), (long)rw.coordSerial->Size());
            return;
        }
        for (index i = 0; i < rw.cell2nodeSerial->Size(); i++)
        {
            int z = c.cellM[i];
            auto e = (*rw.cellElemInfoSerial)(i, 0);
            bool ok = e.zone == m.c[z].zone && (int)e.type == (int)m.c[z].t && rw.cell2nodeSerial->RowSize(i) == (int)m.c[z].n.size();
            for (int j = 0; ok && j < rw.cell2nodeSerial->RowSize(i); j++)
            {
                index g = (*rw.cell2nodeSerial)(i, j);
                ok = g >= 0 && g < rw.coordSerial->Size();
                if (!ok)
                    break;
                tPoint x = (*rw.coordSerial)[g];
                if (mesh.isPeriodic)
                    x = mesh.periodicInfo.GetCoordByBits(x, (*rw.cell2nodePbiSerial)(i, j));
                for (int d = 0; d < 3; d++)
                    ok = ok && std::abs(x[d] - m.X[m.c[z].n[j]][d]) < 1e-12;
            }
            if (!ok)
                return ctx.fail("serial-out-cell", "gathered cell %ld differs from serial cell %d", (long)i, z);
        }
        // what was built for output is not part of the mesh
        ctx.nTraces++;
    }

    // ---------------------------------------------------------------- C11
    static void bodyHalo(vh::Ctx &ctx, const SMesh &m, const IV &part, int rank, Stages &st, int route)
    {
        MPIInfo mpi;
        mpi.setWorld();
        auto R = distribute(m, part, mpi);
        auto &mesh = *R.mesh;
        auto all = [&](const char *name, bool gh, bool n2cb, bool n2cbGhost, bool recovered)
        {
            Snap s = snap(mesh, gh);
            if (n2cb)
                snapN2CB(mesh, s, n2cbGhost);
            return stage(st, rank, std::move(s), [&]
                         {
                             Cmp c(ctx, m, st.w, name);
                             ctx.state(hashWorld(st.w));
                             if (!c.primary(part) || !c.cell2cell() || !c.bnd2cellPeriodic(recovered))
                                 return false;
                             if (gh && !c.halo())
                                 return false;
                             return !n2cb || c.node2(); });
        };
        bool recov = false;
        if (route == 0)
        {
            mesh.RecoverNode2CellAndNode2Bnd();
            if (!all("node relations", false, true, false, false))
                return;
            mesh.RecoverCell2CellAndBnd2Cell();
            recov = true;
            if (!all("recovered", false, true, false, true))
                return;
            mesh.BuildGhostPrimary();
            if (!all("ghosts global", true, true, false, true))
                return;
            mesh.AdjGlobal2LocalPrimary();
            if (!all("ghosts local", true, true, false, true))
                return;
        }
        else
        {
            mesh.BuildGhostPrimary();
            mesh.AdjGlobal2LocalPrimary();
            if (!all("ghosts local", true, false, false, false))
                return;
            mesh.AdjLocal2GlobalPrimary();
            mesh.RecoverNode2CellAndNode2Bnd();
            mesh.AdjGlobal2LocalPrimary();
            if (!all("node relations late", true, true, false, false))
                return;
        }
        mesh.BuildGhostN2CB();
        if (!all("node ghosts global", true, true, true, recov))
            return;
        mesh.AdjGlobal2LocalN2CB();
        if (!all("node ghosts local", true, true, true, recov))
            return;
        mesh.AssertOnN2CB();
        // conversions are exact inverses
        auto raw = [&]
        { Snap s = snap(mesh, true); snapN2CB(mesh, s, true); return s; };
        auto same = [](const Snap &a, const Snap &b)
        { return a.c2n == b.c2n && a.c2c == b.c2c && a.b2n == b.b2n && a.b2c == b.b2c && a.n2c == b.n2c && a.n2b == b.n2b && a.X == b.X && a.ci == b.ci; };
        Snap l0 = raw();
        mesh.AdjLocal2GlobalN2CB();
        mesh.AdjLocal2GlobalPrimary();
        if (!all("back to global", true, true, true, recov))
            return;
        Snap g0 = raw();
        mesh.AdjGlobal2LocalPrimary();
        mesh.AdjGlobal2LocalN2CB();
        if (!same(raw(), l0))
            ctx.fail("roundtrip-local", "rank %d: local -> global -> local changes the mesh", rank);
        mesh.AdjLocal2GlobalPrimary();
        mesh.AdjLocal2GlobalN2CB();
        if (!same(raw(), g0))
            ctx.fail("roundtrip-global", "rank %d: global -> local -> global changes the mesh", rank);
        if (rank == 0)
            ctx.nTraces++;
    }

    // ---------------------------------------------------------------- C12
    static void bodyFace(vh::Ctx &ctx, const SMesh &m, const IV &part, int rank, Stages &st, int route)
    {
        MPIInfo mpi;
        mpi.setWorld();
        auto R = distribute(m, part, mpi);
        auto &mesh = *R.mesh;
        if (route == 0)
        {
            mesh.RecoverNode2CellAndNode2Bnd();
            mesh.RecoverCell2CellAndBnd2Cell();
        }
        mesh.BuildGhostPrimary();
        mesh.AdjGlobal2LocalPrimary();
        mesh.InterpolateFace();
        mesh.AssertOnFaces();
        if (!stage(st, rank, full(mesh, false), [&]
                   { Cmp c(ctx, m, st.w, "interpolated"); ctx.state(hashWorld(st.w));
                     return c.primary(part) && c.halo() && c.faces(); }))
            return;
        index nf = mesh.NumFaceGlobal();
        Snap l0 = full(mesh, false);
        mesh.AdjLocal2GlobalFacial();
        mesh.AdjLocal2GlobalC2F();
        if (!stage(st, rank, full(mesh, false), [&]
                   { Cmp c(ctx, m, st.w, "faces global"); return c.primary(part) && c.faces(); }))
            return;
        mesh.AdjGlobal2LocalFacial();
        mesh.AdjGlobal2LocalC2F();
        Snap l1 = full(mesh, false);
        if (l1.f2n != l0.f2n || l1.f2c != l0.f2c || l1.c2f != l0.c2f || l1.fi != l0.fi)
            ctx.fail("roundtrip", "rank %d: faces local -> global -> local changed", rank);
        if (rank == 0)
        {
            index sum = 0;
            for (auto &s : st.w)
                sum += s.nFace;
            if (nf != sum)
                ctx.fail("face-global-count", "NumFaceGlobal %ld, sum of owned faces %ld", (long)nf, (long)sum);
            ctx.nTraces++;
        }
        sync();
    }

    // ---------------------------------------------------------------- output connectivity
    // want: model nodes of each local cell of the written mesh; all: every model node must be written
    static bool outCheck(vh::Ctx &ctx, const SMesh &m, Cmp &c, UnstructuredMesh &mesh, const MPIInfo &mpi, const std::vector<IV> &want, const char *tag, bool all)
    {
        static std::vector<std::vector<P3>> X;
        static std::vector<GV> conn, offs;
        static std::vector<std::vector<IV>> W;
        static std::vector<std::array<index, 6>> num;
        static bool good;
        int rank = mpi.rank;
        if (rank == 0)
        {
            X.assign(mpi.size, {}), conn.assign(mpi.size, {}), offs.assign(mpi.size, {}), W.assign(mpi.size, {}), num.assign(mpi.size, {});
            good = true;
        }
        sync();
        auto co = mesh.isPeriodic ? mesh.coordsPeriodicRecreated.father : mesh.coords.father;
        for (index i = 0; i < co->Size(); i++)
            X[rank].push_back({(*co)[i][0], (*co)[i][1], (*co)[i][2]});
        conn[rank] = mesh.vtkCell2node, offs[rank] = mesh.vtkCell2nodeOffsets, W[rank] = want;
        num[rank] = {mesh.vtkNodeOffset, mesh.vtkCellOffset, mesh.vtkCell2NodeGlobalSiz, mesh.vtkNCellGlobal, mesh.vtkNNodeGlobal, (index)mesh.vtkCellType.size()};
        sync();
        if (rank == 0)
            [&]
            {
                auto bad = [&](const char *key, const std::string &msg)
                { good = false; ctx.fail(key, "%s: %s", tag, msg.c_str()); };
                std::vector<P3> XA;
                GV CA;
                index nc = 0;
                for (int r = 0; r < mpi.size; r++)
                {
                    if (num[r][0] != (index)XA.size())
                        return bad("out-node-offset", vh::fmts("rank %d node offset %ld instead of %zu", r, (long)num[r][0], XA.size()));
                    if (num[r][1] != nc)
                        return bad("out-cell-offset", vh::fmts("rank %d cell offset %ld instead of %ld", r, (long)num[r][1], (long)nc));
                    if (num[r][5] != (index)W[r].size() || offs[r].size() != W[r].size() + 1)
                        return bad("out-cells", vh::fmts("rank %d writes %ld cell types and %zu offsets for %zu cells", r, (long)num[r][5], offs[r].size(), W[r].size()));
                    if (offs[r][0] != (index)CA.size() || offs[r].back() != (index)(CA.size() + conn[r].size()))
                        return bad("out-offsets", vh::fmts("rank %d connectivity offsets %ld..%ld for entries %zu..%zu", r, (long)offs[r][0], (long)offs[r].back(), CA.size(), CA.size() + conn[r].size()));
                    nc += W[r].size();
                    XA.insert(XA.end(), X[r].begin(), X[r].end());
                    CA.insert(CA.end(), conn[r].begin(), conn[r].end());
                }
                for (int r = 0; r < mpi.size; r++)
                    if (num[r][2] != (index)CA.size() || num[r][3] != nc || num[r][4] != (index)XA.size())
                        return bad("out-sizes", vh::fmts("rank %d announces sizes %ld %ld %ld", r, (long)num[r][2], (long)num[r][3], (long)num[r][4]));
                std::set<int> uniq;
                for (auto &x : XA)
                {
                    int v = c.find(x);
                    if (v < 0)
                        return bad("out-node", vh::fmts("written node at (%g %g %g) is not in the original mesh", x[0], x[1], x[2]));
                    if (!uniq.insert(v).second)
                        return bad("out-node-twice", vh::fmts("written node at (%g %g %g) exists twice", x[0], x[1], x[2]));
                }
                std::set<int> used;
                for (auto &w : W)
                    for (auto &cc : w)
                        used.insert(cc.begin(), cc.end());
                for (int v : used)
                    if (!uniq.count(v))
                        return bad("out-node-lost", vh::fmts("node %d is not written", v));
                if (all && uniq.size() != used.size())
                    return bad("out-node-count", vh::fmts("%zu written nodes, original mesh has %zu", uniq.size(), used.size()));
                for (int r = 0; r < mpi.size; r++)
                    for (size_t i = 0; i < W[r].size(); i++)
                    {
                        std::set<int> got, ws(W[r][i].begin(), W[r][i].end());
                        for (index k = offs[r][i]; k < offs[r][i + 1]; k++)
                        {
                            if (CA[k] < 0 || CA[k] >= (index)XA.size())
                                return bad("out-index", vh::fmts("rank %d cell %zu: connectivity entry %ld", r, i, (long)CA[k]));
                            got.insert(c.find(XA[CA[k]]));
                        }
                        bool sub = true;
                        for (int v : got)
                            sub = sub && ws.count(v);
                        if (!sub || got.size() != (size_t)(offs[r][i + 1] - offs[r][i]) || (got.size() != ws.size() && !m.o2))
                            return bad("out-cell", vh::fmts("rank %d cell %zu written with %zu of its %zu nodes", r, i, got.size(), ws.size()));
                    }
            }();
        sync();
        return good;
    }

    // ---------------------------------------------------------------- C13 periodic output, C12 bnd mesh
    static void bodyPeri(vh::Ctx &ctx, const SMesh &m, const IV &part, int rank, Stages &st, int route)
    {
        MPIInfo mpi;
        mpi.setWorld();
        auto R = distribute(m, part, mpi);
        auto &mesh = *R.mesh;
        if (mesh.isPeriodic != (m.perDirs != 0))
            return ctx.fail("is-periodic", "rank %d: isPeriodic %d", rank, (int)mesh.isPeriodic);
        if (route == 0)
        {
            mesh.RecoverNode2CellAndNode2Bnd();
            mesh.RecoverCell2CellAndBnd2Cell();
        }
        mesh.BuildGhostPrimary();
        mesh.AdjGlobal2LocalPrimary();
        mesh.InterpolateFace();
        mesh.AssertOnFaces();
        if (!stage(st, rank, full(mesh, false), [&]
                   { return checkFull(ctx, m, st.w, part, "periodic", route == 0); }))
            return;
        // geometry through the mesh's own accessors
        Cmp c(ctx, m, st.w, "accessors");
        if (!c.primary(part))
            return;
        auto &s = st.w[rank];
        for (index i = 0; i < mesh.NumCellProc(); i++)
        {
            int z = c.cm(s.cell(i));
            tSmallCoords cs;
            mesh.GetCoordsOnCell(i, cs);
            for (size_t j = 0; j < m.c[z].n.size(); j++)
            {
                tPoint p = mesh.GetCoordNodeOnCell(i, j);
                for (int d = 0; d < 3; d++)
                    if (std::abs(cs(d, j) - m.X[m.c[z].n[j]][d]) > 1e-12 || std::abs(p[d] - cs(d, j)) > 1e-14)
                        return ctx.fail("cell-coords", "rank %d cell %d node %zu seen at %g instead of %g", rank, z, j, cs(d, j), m.X[m.c[z].n[j]][d]);
            }
        }
        for (index f = 0; f < mesh.NumFaceProc(); f++)
        {
            int z = c.cm(s.cell(mesh.face2cell(f, 0)));
            tSmallCoords cs;
            mesh.GetCoordsOnFace(f, cs);
            // the local face of the first cell
            int lf = -1;
            for (int k = 0; k < Element{m.c[z].t}.GetNumFaces(); k++)
            {
                auto fn = faceNodes(m.c[z], k);
                if ((index)fn.size() != cs.cols())
                    continue;
                bool eq = true;
                for (size_t j = 0; j < fn.size(); j++)
                    for (int d = 0; d < 3; d++)
                        eq = eq && std::abs(cs(d, j) - m.X[fn[j]][d]) < 1e-12;
                if (eq)
                    lf = k;
            }
            if (lf < 0)
                return ctx.fail("face-coords", "rank %d face %ld is not seen where its first cell %d has a face", rank, (long)f, z);
            index i1 = mesh.face2cell(f, 1);
            if (i1 == UnInitIndex)
                continue;
            // from the second cell the same nodes are seen displaced by the shift of the face's zone
            int z1 = c.cm(s.cell(i1));
            auto zone = mesh.GetFaceZone(f);
            auto fn = faceNodes(m.c[z], lf);
            int sign = 0;
            mesh.CellOtherCellPeriodicHandle(f, 1, [&] { sign = 1; }, [&] { sign = -1; });
            if ((sign != 0) != (zone < 0))
                return ctx.fail("handle", "rank %d face %ld zone %d: periodic handler says %d", rank, (long)f, (int)zone, sign);
            for (size_t j = 0; j < fn.size(); j++)
            {
                tPoint p = cs.col(j);
                // sign 1: the second cell sits on the donor side: main -> donor is the forward shift
                tPoint q = sign == 0 ? p : sign > 0 ? mesh.periodicInfo.TransCoord(p, zone)
                                                   : mesh.periodicInfo.TransCoordBack(p, zone);
                tPoint back = sign == 0 ? q : sign > 0 ? mesh.periodicInfo.TransCoordBack(q, zone)
                                                      : mesh.periodicInfo.TransCoord(q, zone);
                if ((back - p).norm() > 1e-13)
                    return ctx.fail("shift-inverse", "shift forth and back moves a point by %g", (back - p).norm());
                bool found = false;
                for (int v : m.c[z1].n)
                    found = found || (std::abs(m.X[v][0] - q[0]) < 1e-12 && std::abs(m.X[v][1] - q[1]) < 1e-12 && std::abs(m.X[v][2] - q[2]) < 1e-12);
                if (!found)
                    return ctx.fail("face-shift", "rank %d face %ld (zone %d) between cells %d and %d: node %zu shifted to the second cell is none of its nodes", rank, (long)f, (int)zone, z, z1, j);
            }
        }
        // expansion for output restores the original cells
        if (mesh.isPeriodic)
            mesh.RecreatePeriodicNodes();
        std::vector<IV> want;
        for (index i = 0; i < mesh.NumCell(); i++)
            want.push_back(m.c[c.cm(s.cell(i))].n);
        for (int rep = 0; rep < 2; rep++)
        {
            mesh.BuildVTKConnectivity();
            if (!outCheck(ctx, m, c, mesh, mpi, want, rep ? "output, second call" : "output", true))
                return;
        }

        // the boundary mesh has one cell per non-periodic boundary element, at its place
        ssp<UnstructuredMesh> pb;
        DNDS_MAKE_SSP(pb, mpi, m.dim - 1);
        auto &bm = *pb;
        mesh.ConstructBndMesh(bm);
        std::vector<IV> wantB;
        {
            std::vector<index> ids;
            for (index i = 0; i < s.nBnd; i++)
                if (m.b[c.bm(s.bndOff + i)].zone > 0)
                    ids.push_back(i), wantB.push_back(m.b[c.bm(s.bndOff + i)].n);
            bool ok = bm.cell2node.father->Size() == (index)ids.size() && bm.cellElemInfo.father->Size() == (index)ids.size() && bm.cell2parentCell.size() == ids.size();
            for (size_t i = 0; ok && i < ids.size(); i++)
            {
                auto &b = m.b[c.bm(s.bndOff + bm.cell2parentCell[i])];
                wantB[i] = b.n;
                ok = b.zone > 0 && bm.cellElemInfo(i, 0).zone == b.zone && (int)bm.cellElemInfo(i, 0).type == (int)b.t && bm.cell2node.RowSize(i) == (int)b.n.size();
                std::set<int> A, B(b.n.begin(), b.n.end());
                for (int j = 0; ok && j < bm.cell2node.RowSize(i); j++)
                {
                    index v = bm.cell2node(i, j);
                    ok = v >= 0 && v < bm.coords.Size();
                    if (!ok)
                        break;
                    tPoint x = bm.coords[v];
                    tPoint y = mesh.coords[bm.node2parentNode.at(v)];
                    if ((x - y).norm() > 0)
                        ok = false;
                    if (bm.isPeriodic)
                        x = mesh.periodicInfo.GetCoordByBits(x, bm.cell2nodePbi(i, j));
                    A.insert(c.find({x[0], x[1], x[2]}));
                }
                ok = ok && A == B;
            }
            std::set<index> par(bm.cell2parentCell.begin(), bm.cell2parentCell.end());
            ok = ok && par.size() == ids.size();
            if (!ok)
                ctx.fail("bnd-mesh", "rank %d: the boundary mesh differs from the boundary elements", rank);
        }
        sync();
        if (ctx.nfail)
            return;
        GV l0;
        for (index i = 0; i < bm.cell2node.father->Size(); i++)
            for (auto v : bm.cell2node[i])
                l0.push_back(v);
        bm.AdjLocal2GlobalPrimaryForBnd();
        bm.AdjGlobal2LocalPrimaryForBnd();
        GV l1;
        for (index i = 0; i < bm.cell2node.father->Size(); i++)
            for (auto v : bm.cell2node[i])
                l1.push_back(v);
        if (l0 != l1)
            ctx.fail("bnd-mesh-roundtrip", "rank %d: boundary mesh local -> global -> local changed", rank);
        bm.RecreatePeriodicNodes();
        bm.BuildVTKConnectivity();
        if (!outCheck(ctx, m, c, bm, mpi, wantB, "boundary output", !m.perDirs))
            return;
        if (rank == 0)
            ctx.nTraces++;
    }

    // neighbours inside the rank and the orderings for the factorization
    static bool localGraph(vh::Ctx &ctx, const SMesh &m, World &w, UnstructuredMesh &mesh, const MPIInfo &mpi, bool exact)
    {
        int rank = mpi.rank;
        Cmp c(ctx, m, w, "local graph");
        auto &s = w[rank];
        gatherOffsets(w);
        IV z;
        for (index i = 0; i < s.nCell; i++)
            z.push_back(s.ci[i][1] - 1000);
        auto g = mesh.GetCell2CellFaceVLocal();
        bool good = g.size() == z.size();
        std::vector<std::set<index>> ref(z.size());
        for (size_t i = 0; good && i < z.size(); i++)
        {
            for (size_t j = 0; j < z.size(); j++)
                for (int f = 0; f < Element{m.c[z[i]].t}.GetNumFaces(); f++)
                    for (int h = 0; h < Element{m.c[z[j]].t}.GetNumFaces(); h++)
                        if (i != j && faceKey(m, m.c[z[i]], f) == faceKey(m, m.c[z[j]], h))
                            ref[i].insert(j);
            std::set<index> got(g[i].begin(), g[i].end());
            good = got.size() == g[i].size() && (exact ? got == ref[i] : std::includes(got.begin(), got.end(), ref[i].begin(), ref[i].end()));
        }
        if (!good)
            ctx.fail("local-graph", "rank %d: the face neighbours inside the rank are wrong", rank);
        // is the local graph connected?
        IV seen(z.size(), 0), todo;
        if (!z.empty())
            todo.push_back(0), seen[0] = 1;
        while (!todo.empty())
        {
            int v = todo.back();
            todo.pop_back();
            for (auto u : ref[v])
                if (!seen[u])
                    seen[u] = 1, todo.push_back(u);
        }
        static bool conn;
        sync();
        if (rank == 0)
            conn = true;
        sync();
        if (std::count(seen.begin(), seen.end(), 0))
            conn = false;
        sync();
        for (int code = -1; code <= 4; code++)
        {
            if (code == 3 && !conn)
                continue; // the underlying library numbers one component only
            Direct::DirectPrecControl ctl;
            ctl.useDirectPrec = true;
            ctl.iluCode = code % 3 - 1;
            ctl.orderingCode = code;
            Direct::SerialSymLUStructure lu(mpi, mesh.NumCell());
            mesh.ObtainLocalFactFillOrdering(lu, ctl);
            auto &a = lu.localFillOrderingNew2Old, &b = lu.localFillOrderingOld2New;
            bool ok = code == 0 ? a.empty() && b.empty() : a.size() == z.size() && b.size() == z.size();
            for (size_t i = 0; ok && i < a.size(); i++)
                ok = a[i] >= 0 && a[i] < (index)b.size() && b[a[i]] == (index)i;
            if (!ok)
                ctx.fail("fill-order", "rank %d: ordering %d is no permutation with its inverse", rank, code);
            mesh.ObtainSymmetricSymbolicFactorization(lu, ctl);
        }
        sync();
        return good;
    }

    // ---------------------------------------------------------------- C14
    static void bodyReorder(vh::Ctx &ctx, const SMesh &m, const IV &part, int rank, Stages &st, int route)
    {
        MPIInfo mpi;
        mpi.setWorld();
        auto R = distribute(m, part, mpi);
        auto &mesh = *R.mesh;
        bool n2cb = route & 1, faces = route & 2, recov = route & 4;
        if (recov || n2cb)
            mesh.RecoverNode2CellAndNode2Bnd();
        if (recov)
            mesh.RecoverCell2CellAndBnd2Cell();
        mesh.BuildGhostPrimary();
        mesh.AdjGlobal2LocalPrimary();
        if (n2cb)
        {
            mesh.BuildGhostN2CB();
            mesh.AdjGlobal2LocalN2CB();
        }
        else
            mesh.adjN2CBState = Adj_Unknown, mesh.node2cell = decltype(mesh.node2cell){}, mesh.node2bnd = decltype(mesh.node2bnd){};
        if (faces)
            mesh.InterpolateFace();
        auto take = [&]
        {
            Snap s = snap(mesh, true);
            if (faces)
                snapFaces(mesh, s);
            if (n2cb)
                snapN2CB(mesh, s, true);
            return s;
        };
        static World before;
        if (!stage(st, rank, take(), [&]
                   { bool ok = checkFull(ctx, m, st.w, part, "before", recov); before = st.w; return ok; }))
            return;
        for (int rep = 0; rep < 2; rep++)
        {
            mesh.ReorderLocalCells();
            if (!stage(st, rank, take(), [&]
                       {
                           if (!checkFull(ctx, m, st.w, part, rep ? "reordered twice" : "reordered", recov))
                               return false;
                           for (size_t r = 0; r < st.w.size(); r++)
                           {
                               auto &a = before[r], &b = st.w[r];
                               // nodes, boundary elements and faces keep their numbers
                               if (a.X != b.X || a.b2n != b.b2n || a.bi != b.bi || a.f2n != b.f2n || a.fi != b.fi || a.gNode != b.gNode || a.gFace != b.gFace || a.bnd2face != b.bnd2face)
                                   return ctx.fail("others", "rank %zu: nodes, boundary elements or faces changed", r), false;
                               auto ga = a.gCell.size(), gb = b.gCell.size();
                               if (a.nCell != b.nCell || ga != gb)
                                   return ctx.fail("counts", "rank %zu: cell counts changed", r), false;
                           }
                           return true; }))
                return;
        }
        if (!localGraph(ctx, m, st.w, mesh, mpi, faces || (recov && !m.o2)))
            return;
        // the renumbered mesh keeps working
        if (!faces)
        {
            mesh.InterpolateFace();
            mesh.AssertOnFaces();
            if (!stage(st, rank, full(mesh, false), [&]
                       { return checkFull(ctx, m, st.w, part, "faces after reordering", recov); }))
                return;
        }
        else
            mesh.AssertOnFaces();
        if (rank == 0)
            ctx.nTraces++;
    }

    // ---------------------------------------------------------------- C13 transforms
    static void transforms(vh::Ctx &ctx)
    {
        using V = tPoint;
        std::vector<tGPoint> rots;
        rots.push_back(tGPoint::Identity());
        for (double a : {M_PI / 2, 0.7, -1.9})
            for (auto ax : {V{0, 0, 1}, V{1, 0, 0}, V{1, 2, -2}})
                rots.push_back(Eigen::AngleAxis<double>(a, ax.normalized()).toRotationMatrix());
        std::vector<V> tr{{0, 0, 0}, {1, 0, 0}, {0.5, -2, 0.25}};
        std::vector<V> pts;
        for (int i = 0; i < 27; i++)
            pts.push_back(V{i % 3 - 0.75, i / 3 % 3 * 0.5, i / 9 - 1.25});
        for (size_t ir = 0; ir < rots.size(); ir++)
            for (size_t it = 0; it < tr.size(); it++)
                for (size_t ic = 0; ic < tr.size(); ic++)
                {
                    if (!ctx.take("transform rotation %zu translation %zu centre %zu", ir, it, ic))
                        continue;
                    for (int d = 1; d <= 3; d++)
                    {
                        Periodicity P;
                        for (int k = 1; k <= 3; k++)
                            P.translation[k] = V{k == 1 ? 3. : 0., k == 2 ? 5. : 0., k == 3 ? 7. : 0.};
                        P.rotation[d] = rots[ir], P.translation[d] = tr[it], P.rotationCenter[d] = tr[ic];
                        auto ref = [&](const V &x, int k) -> V
                        { return P.rotation[k] * (x - P.rotationCenter[k]) + P.rotationCenter[k] + P.translation[k]; };
                        bool planar = std::abs(rots[ir](2, 2) - 1) < 1e-12;
                        for (auto &x : pts)
                        {
                            for (int k = 1; k <= 3; k++)
                                for (int id : {-k, -k - 3})
                                {
                                    V y = P.TransCoord(x, id), r = ref(x, k);
                                    if ((y - r).norm() > 1e-13)
                                        return ctx.fail("trans", "direction %d id %d: point moved to a wrong place", k, id);
                                    if ((P.TransCoordBack(y, id) - x).norm() > 1e-13 || (P.TransCoord(P.TransCoordBack(x, id), id) - x).norm() > 1e-13)
                                        return ctx.fail("trans-back", "direction %d id %d: forth and back is not the identity", k, id);
                                    V o{0.3, -0.2, 0.9};
                                    V v3 = P.TransVector<3, 1>(x, id);
                                    if ((v3 - (ref(V(o + x), k) - ref(o, k))).norm() > 1e-13 || (P.TransVectorBack<3, 1>(v3, id) - x).norm() > 1e-13)
                                        return ctx.fail("trans-vec", "direction %d id %d: vectors transform differently from point differences", k, id);
                                    tGPoint M;
                                    M << x[0], 2, -1, x[1], x[2], 0.5, 3, -x[0], 1;
                                    tGPoint N = P.TransMat<3>(M, id);
                                    if ((N * P.TransVector<3, 1>(o, id) - P.TransVector<3, 1>(V(M * o), id)).norm() > 1e-12 || (P.TransMatBack<3>(N, id) - M).norm() > 1e-12)
                                        return ctx.fail("trans-mat", "direction %d id %d: matrices transform differently from vectors", k, id);
                                    if (planar || k != d)
                                    {
                                        Eigen::Vector2d a{x[0], x[1]}, b = P.TransVector<2, 1>(a, id);
                                        V c3 = P.TransVector<3, 1>(V{x[0], x[1], 0}, id);
                                        Eigen::Matrix2d m2, n2;
                                        m2 << 1, x[0], x[1], -2;
                                        n2 = P.TransMat<2>(m2, id);
                                        if ((b - c3.head<2>()).norm() > 1e-13 || (P.TransVectorBack<2, 1>(b, id) - a).norm() > 1e-13 ||
                                            (n2 * b - P.TransVector<2, 1>(Eigen::Vector2d(m2 * a), id)).norm() > 1e-12 || (P.TransMatBack<2>(n2, id) - m2).norm() > 1e-12)
                                            return ctx.fail("trans-2d", "direction %d id %d: two-dimensional transforms disagree", k, id);
                                    }
                                    ctx.nTrans += 6;
                                }
                            for (unsigned bits = 0; bits < 8; bits++)
                            {
                                NodePeriodicBits b{uint8_t(bits)};
                                V y = P.GetCoordByBits(x, b), r = x;
                                for (int k = 3; k >= 1; k--)
                                    if (bits >> (k - 1) & 1)
                                        r = ref(r, k);
                                if ((y - r).norm() > 1e-13 || (P.GetCoordBackByBits(y, b) - x).norm() > 1e-13)
                                    return ctx.fail("trans-bits", "tags %u: point moved to a wrong place or not back", bits);
                                V o{0.3, -0.2, 0.9};
                                V v = P.GetVectorByBits<3, 1>(x, b);
                                if ((v - (P.GetCoordByBits(V(o + x), b) - P.GetCoordByBits(o, b))).norm() > 1e-13 || (P.GetVectorBackByBits<3, 1>(v, b) - x).norm() > 1e-13)
                                    return ctx.fail("trans-bits-vec", "tags %u: vectors transform differently from point differences", bits);
                                ctx.nTrans += 4;
                            }
                        }
                    }
                    ctx.nTraces++;
                }
    }
    void body(vh::Ctx &ctx)
    {
        simAttach(ctx);
        quiet();
        omp_set_num_threads(1);
        auto mode = ctx.opts["mode"];
        Body b = mode == "part" ? bodyPart : mode == "halo" ? bodyHalo : mode == "face" ? bodyFace : mode == "peri" ? bodyPeri : bodyReorder;
        int nVar = mode == "reorder" ? 8 : 2;
        auto jobs = catalogue(ctx.thorough, false, true, ctx.thorough ? (mode == "reorder" ? 5000 : 20000) : (mode == "reorder" ? 300 : 1100));
        if (mode == "peri")
            transforms(ctx);
        sim::Config base;
        std::map<std::string, bool> rec, conn;
        for (auto &J : jobs)
            if (!rec.count(J.m.name))
                rec[J.m.name] = distinctSets(J.m), conn[J.m.name] = connected(J.m);
        for (auto &J : jobs)
            allParts(J.m.c.size(), J.R, [&](const IV &p)
                     {
                for (int v = 0; v < nVar + (mode == "part" ? 4 : 0); v++)
                {
                    int var = v;
                    if (mode == "part" && v == 1)
                    {
                        var = J.R - 1;
                        if (var == 0) continue;
                    }
                    if (mode == "part" && v >= 2)
                    {
                        // the partitioner does not depend on the assignment being enumerated
                        if (std::count(p.begin(), p.end(), 0) != (long)p.size() || !conn[J.m.name])
                            continue;
                        var = 98 + v;
                    }
                    if (!rec[J.m.name] && (mode == "reorder" ? v >= 4 : mode != "part" && v == 0))
                        continue;
                    if (!ctx.take("%s ranks %d part %s variant %d", J.m.name.c_str(), J.R, pstr(p).c_str(), var))
                        continue;
                    runCase(ctx, J.m, p, J.R, b, var, base);
                } });
        // delivery configurations of the simulated world on a few meshes
        for (auto &cfg : sim::allConfigs(3, ctx.thorough))
            for (int k = 0; k < 3; k++)
            {
                SMesh m = k == 0 ? grid2(2, 2, 'm') : k == 1 ? grid2(3, 1, 'q', 1) : zoo3();
                for (int s = 0; s < 4; s++)
                {
                    IV p;
                    for (size_t i = 0; i < m.c.size(); i++)
                        p.push_back((i * (s + 1) + s) % 3 - (s == 3 && (i * 4) % 3 ? 0 : 0));
                    if (!ctx.take("%s ranks 3 part %s cfg %s", m.name.c_str(), pstr(p).c_str(), cfg.str().c_str()))
                        continue;
                    runCase(ctx, m, p, 3, b, mode == "part" ? 0 : mode == "reorder" ? 3 : 0, cfg);
                }
            }
    }
}
int main(int argc, char **argv) { return vh::run(argc, argv, DNDS::vf::body); }
