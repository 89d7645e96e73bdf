// C15, C16: order elevation, bisection and saving of distributed meshes; all assignments of cells to ranks of a
// catalogue of small meshes, executed by the real mesh code in the simulated MPI world.
#include "meshrun.hpp"
#include "DNDS/SerializerFactory.hpp"
namespace fakeh5
{
    void reset();
    size_t handles();
}
namespace DNDS::vf
{
    // ---------------------------------------------------------------- C15
    static bool sameCycle(const IV &a, const IV &b)
    {
        size_t n = a.size();
        if (b.size() != n)
            return false;
        for (size_t s = 0; s < n; s++)
            for (int dir : {1, -1})
            {
                bool eq = true;
                for (size_t i = 0; i < n; i++)
                    eq = eq && a[i] == b[(s + n + (dir > 0 ? i : n - i)) % n];
                if (eq)
                    return true;
            }
        return false;
    }
    // boundary elements: the nodes run around the face, and nodes in the middle are those of their spans
    static bool bndOrder(vh::Ctx &ctx, const SMesh &m, Cmp &c, World &w)
    {
        for (size_t r = 0; r < w.size(); r++)
            for (index i = 0; i < w[r].nBnd; i++)
            {
                auto &b = m.b[c.bm(w[r].bndOff + i)];
                IV got, want;
                for (auto v : w[r].b2n[i])
                    got.push_back(c.nm(c.N(w[r], v)));
                for (int v : b.n)
                    want.push_back(m.cls[v]);
                int nv = nVerts(b.t);
                if (!sameCycle(IV(got.begin(), got.begin() + nv), IV(want.begin(), want.begin() + nv)))
                    return c.bad("bnd-cycle", "boundary element of cell %d: its vertices do not run around the face", b.cell);
                if (!m.o2)
                    continue;
                Element e1 = Element{b.t}.ObtainO1Elem();
                for (int k = 0; k < e1.GetNumElev_O1O2(); k++)
                {
                    int ns = e1.ObtainElevNodeSpan(k).GetNumNodes();
                    IV sg(ns), sw(ns);
                    e1.ExtractElevNodeSpanNodes(k, got, sg);
                    std::set<int> key(sg.begin(), sg.end());
                    int mid = -1;
                    for (int q = 0; q < e1.GetNumElev_O1O2(); q++)
                    {
                        IV x(e1.ObtainElevNodeSpan(q).GetNumNodes());
                        e1.ExtractElevNodeSpanNodes(q, want, x);
                        if (std::set<int>(x.begin(), x.end()) == key)
                            mid = want[nv + q];
                    }
                    if (mid != got[nv + k])
                        return c.bad("bnd-mid", "boundary element of cell %d: middle node %d does not belong to its vertices", b.cell, k);
                }
            }
        return true;
    }
    static double volume(const SMesh &m, const SCell &c)
    {
        double V = 0;
        Element e{c.t};
        for (int f = 0; f < e.GetNumFaces(); f++)
        {
            auto fn = faceNodes(c, f);
            int nv = nVerts(e.ObtainFace(f).type);
            auto X = [&](int i) { return Eigen::Vector3d(m.X[fn[i]][0], m.X[fn[i]][1], m.X[fn[i]][2]); };
            auto tri = [&](int a, int b, int d) { return X(a).dot(X(b).cross(X(d))) / 6; };
            if (nv == 2)
                V += (X(0)[0] * X(1)[1] - X(1)[0] * X(0)[1]) / 2;
            else if (nv == 3)
                V += tri(0, 1, 2);
            else
                V += (tri(0, 1, 2) + tri(0, 2, 3) + tri(0, 1, 3) + tri(1, 2, 3)) / 2;
        }
        return V;
    }
    // check the gathered bisected mesh against the raised mesh it comes from; make a model of it
    static bool bisected(vh::Ctx &ctx, const SMesh &o2, const std::vector<int> &nodeM, Stages &st, SMesh &B, IV &part)
    {
        auto &w = st.w;
        Cmp c(ctx, o2, w, "bisected");
        c.nodeM = nodeM;
        for (size_t r = 0; r < w.size(); r++)
            c.nodeRank.insert(c.nodeRank.end(), w[r].nNode, (int)r);
        B = o2;
        B.o2 = false;
        B.name += "_b";
        B.c.clear();
        part.clear();
        std::vector<double> vol(o2.c.size(), 0);
        std::vector<int> cnt(o2.c.size(), 0);
        std::vector<int> parent;
        for (size_t r = 0; r < w.size(); r++)
            for (index i = 0; i < w[r].nCell; i++)
            {
                int z = w[r].ci[i][1] - 1000;
                if (z < 0 || z >= (int)o2.c.size())
                    return c.bad("sub-zone", "rank %zu sub-cell %ld has zone %d of no cell", r, (long)i, w[r].ci[i][1]);
                SCell s;
                s.t = (ElemType)w[r].ci[i][0];
                Element e{s.t};
                if (e.GetOrder() != 1 || e.GetDim() != o2.dim || e.GetNumNodes() != (int)w[r].c2n[i].size())
                    return c.bad("sub-type", "sub-cell of cell %d has type %d and %zu nodes", z, (int)s.t, w[r].c2n[i].size());
                for (size_t j = 0; j < w[r].c2n[i].size(); j++)
                {
                    index g = w[r].c2n[i][j];
                    if (c.nm(g) < 0)
                        return c.bad("sub-node", "sub-cell of cell %d has node %ld", z, (long)g);
                    P3 x = c.ownerX(g);
                    if (w[r].peri)
                        x = c.shift(x, w[r].pbi[i][j]);
                    int id = c.find(x);
                    if (id < 0 || std::count(o2.c[z].n.begin(), o2.c[z].n.end(), id) != 1)
                        return c.bad("sub-node", "sub-cell of cell %d: node %zu is not one of the nodes of the cell", z, j);
                    s.n.push_back(id);
                }
                double v = volume(o2, s);
                if (v <= 0)
                    return c.bad("sub-volume", "sub-cell %d of cell %d has volume %g", cnt[z], z, v);
                vol[z] += v;
                cnt[z]++;
                parent.push_back(z);
                B.c.push_back(s);
                part.push_back(r);
            }
        for (size_t z = 0; z < o2.c.size(); z++)
        {
            SCell p = o2.c[z];
            p.t = Element{p.t}.ObtainO1Elem().type;
            p.n.resize(Element{p.t}.GetNumNodes());
            double V = volume(o2, p);
            int want = o2.dim == 2 ? 4 : p.t == Elem::Pyramid5 ? 10 : 8;
            // pyramids: four at the base, one at the apex, one upside down (or split), four tetrahedra
            if (p.t != Elem::Pyramid5 ? cnt[z] != want : cnt[z] < 10)
                return c.bad("sub-count", "cell %zu has %d sub-cells", z, cnt[z]);
            if (std::abs(V - vol[z]) > 1e-12 * (1 + V))
                return c.bad("sub-sum", "sub-cells of cell %zu have volume %.15g, the cell %.15g", z, vol[z], V);
        }
        // faces of sub-cells inside a cell come in pairs; the others lie on faces of the cell
        std::map<std::vector<int64_t>, std::vector<std::pair<int, int>>> fm;
        for (size_t i = 0; i < B.c.size(); i++)
            for (int f = 0; f < Element{B.c[i].t}.GetNumFaces(); f++)
                fm[faceKey(B, B.c[i], f)].push_back({(int)i, f});
        auto onParentFace = [&](const SCell &s, int f, const SCell &p, int q)
        {
            auto fn = faceNodes(s, f), pn = faceNodes(p, q);
            for (int v : fn)
                if (!std::count(pn.begin(), pn.end(), v))
                    return false;
            return true;
        };
        for (auto &kv : fm)
        {
            auto &l = kv.second;
            if (l.size() > 2)
                return c.bad("sub-face", "%zu sub-cells meet at one face", l.size());
            std::vector<int> pf;
            for (auto &x : l)
            {
                auto &p = o2.c[parent[x.first]];
                int q = -1;
                for (int k = 0; k < Element{p.t}.GetNumFaces(); k++)
                    if (onParentFace(B.c[x.first], x.second, p, k))
                        q = k;
                pf.push_back(q);
            }
            if (l.size() == 2)
            {
                bool same = parent[l[0].first] == parent[l[1].first];
                if (pf[0] < 0 || pf[1] < 0)
                {
                    if (!same || pf[0] != pf[1])
                        return c.bad("sub-face", "inner faces of cells %d and %d meet", parent[l[0].first], parent[l[1].first]);
                }
                else if (!(o2.perDirs && same) && faceKey(o2, o2.c[parent[l[0].first]], pf[0]) != faceKey(o2, o2.c[parent[l[1].first]], pf[1]))
                    return c.bad("sub-face", "sub-faces of cells %d and %d meet outside their common face", parent[l[0].first], parent[l[1].first]);
                auto a = faceNodes(B.c[l[0].first], l[0].second), b = faceNodes(B.c[l[1].first], l[1].second);
                for (auto *s : {&a, &b})
                    for (int &v : *s)
                        v = o2.cls[v];
                if (!sameCycle(a, b))
                    return c.bad("sub-face", "neighbouring sub-cells of cells %d and %d have different nodes on their common face", parent[l[0].first], parent[l[1].first]);
            }
            else
            {
                // a boundary: the parent's face must be one
                int z = parent[l[0].first];
                bool isB = false;
                for (auto &b : o2.b)
                    isB = isB || (b.cell == z && b.lf == pf[0]);
                if (pf[0] < 0 || !isB)
                    return c.bad("sub-open", "sub-cell of cell %d has a face without neighbour", z);
            }
        }
        finish(B);
        // boundary elements
        std::vector<int> seen(B.b.size(), 0);
        st.zb.assign(w.size(), {});
        st.zc.assign(w.size(), {});
        for (size_t r = 0, k = 0; r < w.size(); r++)
            for (index i = 0; i < w[r].nCell; i++)
                st.zc[r].push_back(B.c[k++].zone);
        for (size_t r = 0; r < w.size(); r++)
            for (index i = 0; i < w[r].nBnd; i++)
            {
                IV got;
                for (auto v : w[r].b2n[i])
                    got.push_back(c.nm(v));
                int found = -1;
                for (size_t k = 0; k < B.b.size(); k++)
                {
                    IV want;
                    for (int v : B.b[k].n)
                        want.push_back(B.cls[v]);
                    if ((B.b[k].zone < 0 || w[r].bi[i][1] < 0) && B.b[k].zone != w[r].bi[i][1])
                        continue;
                    if (sameCycle(got, want))
                        found = k;
                }
                if (found < 0)
                    return c.bad("sub-bnd", "rank %zu boundary sub-element %ld (zone %d) is no face of the bisected mesh", r, (long)i, w[r].bi[i][1]);
                if (seen[found]++)
                    return c.bad("sub-bnd-twice", "boundary sub-element %d exists twice", found);
                auto &b = B.b[found];
                if (w[r].bi[i][0] != (int)b.t)
                    return c.bad("sub-bnd-type", "boundary sub-element of type %d instead of %d", w[r].bi[i][0], (int)b.t);
                int z = parent[b.cell];
                int zone = 0;
                for (auto &pb : o2.b)
                    if (pb.cell == z && onParentFace(B.c[b.cell], b.lf, o2.c[z], pb.lf))
                        zone = pb.zone;
                if (zone != w[r].bi[i][1])
                    return c.bad("sub-bnd-zone", "boundary sub-element of cell %d has zone %d instead of %d", z, w[r].bi[i][1], zone);
                if (part[b.cell] != (int)r)
                    return c.bad("sub-bnd-rank", "boundary sub-element of cell %d is on rank %zu", z, r);
                st.zb[r].push_back(b.zone);
            }
        for (size_t k = 0; k < seen.size(); k++)
            if (!seen[k])
                return c.bad("sub-bnd-lost", "boundary face of sub-cell %d has no boundary element", B.b[k].cell);
        return true;
    }
    static void solverFaces(UnstructuredMesh &mesh)
    {
        mesh.InterpolateFace();
        mesh.AssertOnFaces();
    }
    static ssp<UnstructuredMesh> elevate(vh::Ctx &ctx, const SMesh &o2, const IV &part, Stages &st, int rank, const MPIInfo &mpi, UnstructuredMesh &mesh, std::vector<int> &nodeM)
    {
        ssp<UnstructuredMesh> O2;
        DNDS_MAKE_SSP(O2, mpi, o2.dim);
        O2->BuildO2FromO1Elevation(mesh);
        if (!stage(st, rank, snap(*O2, false), [&]
                   {
                       Cmp c(ctx, o2, st.w, "elevated");
                       ctx.state(hashWorld(st.w));
                       if (!c.primary(part, false) || !c.cell2cell() || !bndOrder(ctx, o2, c, st.w))
                           return false;
                       nodeM = c.nodeM;
                       return true; }))
            return nullptr;
        return O2;
    }
    static void bodyElev(vh::Ctx &ctx, const SMesh &m, const IV &part, int rank, Stages &st, int variant)
    {
        MPIInfo mpi;
        mpi.setWorld();
        auto R = distribute(m, part, mpi);
        auto mesh = R.mesh;
        bool recov = false;
        if (variant == 1)
        {
            mesh->RecoverNode2CellAndNode2Bnd();
            mesh->RecoverCell2CellAndBnd2Cell();
            recov = true;
        }
        mesh->BuildGhostPrimary();
        mesh->AdjGlobal2LocalPrimary();
        if (rank == 0)
            st.aux.push_back(elevated(m));
        sync();
        SMesh o2 = st.aux[0];
        sync();
        std::vector<int> nodeM;
        auto O2 = elevate(ctx, o2, part, st, rank, mpi, *mesh, nodeM);
        if (!O2)
            return;
        // the first-order mesh is still there
        if (!stage(st, rank, snap(*mesh, true), [&]
                   { return checkFull(ctx, m, st.w, part, "after elevation", recov); }))
            return;
        if (variant < 2)
        {
            O2->BuildGhostPrimary();
            O2->AdjGlobal2LocalPrimary();
            solverFaces(*O2);
            if (!stage(st, rank, full(*O2, false), [&]
                       { return checkFull(ctx, o2, st.w, part, "elevated with faces", recov); }))
                return;
            if (rank == 0)
                ctx.nTraces++;
            return;
        }
        auto curPart = part;
        for (int it = 0; it < variant - 1; it++)
        {
            if (it > 0)
            {
                if (rank == 0)
                    st.aux.push_back(elevated(st.aux.back()));
                sync();
                o2 = st.aux.back();
                sync();
                O2 = elevate(ctx, o2, curPart, st, rank, mpi, *mesh, nodeM);
                if (!O2)
                    return;
            }
            O2->BuildGhostPrimary();
            ssp<UnstructuredMesh> B;
            DNDS_MAKE_SSP(B, mpi, m.dim);
            B->BuildBisectO1FormO2(*O2);
            B->bnd2cell.father->Resize(B->bnd2node.father->Size()); // not filled by the bisection; only for the copy below
            for (index i = 0; i < B->bnd2node.father->Size(); i++)
                B->bnd2cell(i, 0) = B->bnd2cell(i, 1) = UnInitIndex;
            auto keep = B->cell2cell.father;
            B->cell2cell.father.reset();
            static std::map<Stages *, IV> parts;
            if (!stage(st, rank, snap(*B, false), [&]
                       {
                           st.aux.emplace_back();
                           return bisected(ctx, o2, nodeM, st, st.aux.back(), parts[&st]); }))
            {
                sync();
                if (rank == 0)
                    parts.erase(&st);
                return;
            }
            B->cell2cell.father = keep;
            B->bnd2cell.father->Resize(0);
            curPart = parts[&st];
            SMesh bm = st.aux.back();
            for (index i = 0; i < B->cellElemInfo.father->Size(); i++)
                B->cellElemInfo(i, 0).zone = st.zc[rank][i];
            for (index i = 0; i < B->bndElemInfo.father->Size(); i++)
                B->bndElemInfo(i, 0).zone = st.zb[rank][i];
            sync();
            if (rank == 0)
                parts.erase(&st);
            mesh = B;
            mesh->RecoverNode2CellAndNode2Bnd();
            mesh->RecoverCell2CellAndBnd2Cell();
            mesh->BuildGhostPrimary();
            mesh->AdjGlobal2LocalPrimary();
            mesh->AdjGlobal2LocalN2CB();
            auto take = [&]
            {
                Snap s = snap(*mesh, true);
                snapN2CB(*mesh, s, false);
                return s;
            };
            if (!stage(st, rank, take(), [&]
                       { return checkFull(ctx, bm, st.w, curPart, "bisected mesh", true); }))
                return;
            if (it == variant - 2)
            {
                solverFaces(*mesh);
                if (!stage(st, rank, full(*mesh, false), [&]
                           { return checkFull(ctx, bm, st.w, curPart, "bisected with faces", true); }))
                    return;
            }
        }
        if (rank == 0)
            ctx.nTraces++;
    }
    // disjoint elements of either order: all ranks agree on the order of the mesh
    static void bodyOrder(vh::Ctx &ctx, const SMesh &, const IV &part, int rank, Stages &st, int kinds)
    {
        MPIInfo mpi;
        mpi.setWorld();
        ElemType t1[3] = {Elem::Quad4, Elem::Tri3, Elem::Quad4}, t2[3] = {Elem::Quad9, Elem::Tri6, Elem::Quad9};
        UnstructuredMesh mesh(mpi, 2);
        DNDS_MAKE_SSP(mesh.cellElemInfo.father, ElemInfo::CommType(), ElemInfo::CommMult(), mpi);
        DNDS_MAKE_SSP(mesh.cellElemInfo.son, ElemInfo::CommType(), ElemInfo::CommMult(), mpi);
        index n = std::count(part.begin(), part.end(), rank), k = 0;
        mesh.cellElemInfo.father->Resize(n);
        for (size_t i = 0; i < part.size(); i++)
            if (part[i] == rank)
            {
                mesh.cellElemInfo(k, 0).zone = 0;
                mesh.cellElemInfo(k++, 0).setElemType(kinds >> i & 1 ? t2[i % 3] : t1[i % 3]);
            }
        bool o1 = mesh.IsO1(), o2 = mesh.IsO2();
        bool w1 = kinds == 0, w2 = kinds == (1 << part.size()) - 1;
        if (o1 != w1 || o2 != w2)
            ctx.fail("order", "rank %d of %d: first order %d (expected %d), second order %d (expected %d)", rank, mpi.size, o1, w1, o2, w2);
        sync();
        if (rank == 0)
            ctx.nTraces++;
    }

    // ---------------------------------------------------------------- C16
    static bool same(const Snap &a, const Snap &b, std::string &what)
    {
#define VF_EQ(f)       \
    if (a.f != b.f)    \
    {                  \
        what = #f;     \
        return false;  \
    }
        VF_EQ(glob) VF_EQ(peri) VF_EQ(nNode) VF_EQ(nCell) VF_EQ(nBnd) VF_EQ(X) VF_EQ(c2n) VF_EQ(c2c) VF_EQ(b2n) VF_EQ(b2c) VF_EQ(ci) VF_EQ(bi) VF_EQ(pbi) VF_EQ(gNode) VF_EQ(gCell)
        VF_EQ(nFace) VF_EQ(c2f) VF_EQ(f2n) VF_EQ(f2c) VF_EQ(fi) VF_EQ(fpbi) VF_EQ(gFace) VF_EQ(bnd2face) VF_EQ(face2bnd) VF_EQ(n2c) VF_EQ(n2b)
#undef VF_EQ
        return true;
    }
    static void bodySave(vh::Ctx &ctx, const SMesh &m, const IV &part, int rank, Stages &st, int variant)
    {
        MPIInfo mpi;
        mpi.setWorld();
        auto R = distribute(m, part, mpi);
        auto &mesh = *R.mesh;
        bool recov = variant & 1;
        if (recov)
        {
            mesh.RecoverNode2CellAndNode2Bnd();
            mesh.RecoverCell2CellAndBnd2Cell();
        }
        mesh.BuildGhostPrimary();
        mesh.AdjGlobal2LocalPrimary();
        if (recov)
            mesh.AdjGlobal2LocalN2CB();
        if (variant & 4)
            mesh.ReorderLocalCells();
        auto mk = [&]
        {
            Serializer::SerializerFactory f(variant & 8 ? "H5" : "JSON");
            f.jsonUseCodecOnUInt8 = variant & 2;
            f.hdfChunkSize = variant & 2 ? 4 : 0, f.hdfDeflateLevel = variant & 2 ? 1 : 0;
            f.hdfCollOnMeta = !(variant & 4), f.hdfCollOnData = variant & 16;
            return f.BuildSerializer(mpi);
        };
        std::string f = variant & 8 ? "mesh.h5" : vh::fmts("%s/m%d_%d.json", ctx.scratch.c_str(), ctx.shard, rank);
        if (rank == 0)
            fakeh5::reset();
        Snap before = snap(mesh, true);
        auto s = mk();
        s->OpenFile(f, false);
        mesh.WriteSerialize(s, "meshPart");
        s->CloseFile();
        {
            std::string what;
            Snap keep = snap(mesh, true);
            if (!same(before, keep, what))
                return ctx.fail("save-changes", "rank %d: saving changed %s", rank, what.c_str());
        }
        UnstructuredMesh back(mpi, m.dim);
        s = mk();
        s->OpenFile(f, true);
        back.ReadSerialize(s, "meshPart");
        s->CloseFile();
        s.reset();
        auto diff = [&](const Snap &a, const Snap &b, const char *when)
        {
            std::string what;
            if (same(a, b, what))
                return false;
            ctx.fail("restored", "rank %d: %s differs %s", rank, what.c_str(), when);
            return true;
        };
        Snap got = snap(back, true);
        bool badRank = diff(before, got, "after reading");
        if (back.isPeriodic != mesh.isPeriodic || back.dim != mesh.dim)
            ctx.fail("restored", "rank %d: periodicity or dimension differs", rank), badRank = true;
        if (mesh.isPeriodic)
            for (int d = 1; d <= 3; d++)
                if (mesh.periodicInfo.rotation[d] != back.periodicInfo.rotation[d] || mesh.periodicInfo.translation[d] != back.periodicInfo.translation[d] || mesh.periodicInfo.rotationCenter[d] != back.periodicInfo.rotationCenter[d])
                    ctx.fail("restored-periodic", "rank %d: periodic transform %d differs", rank, d), badRank = true;
        st.zc.resize(0);
        int bad = badRank, anyBad = 0;
        MPI_Allreduce(&bad, &anyBad, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
        if (anyBad)
            return;
        // everything derived afterwards is the same
        auto derive = [&](UnstructuredMesh &M)
        {
            M.InterpolateFace();
            M.AssertOnFaces();
            M.AdjLocal2GlobalPrimary();
            M.RecoverNode2CellAndNode2Bnd();
            M.AdjGlobal2LocalPrimary();
            M.BuildGhostN2CB();
            M.AdjGlobal2LocalN2CB();
            return full(M, true);
        };
        Snap a = derive(mesh);
        Snap b = derive(back);
        if (diff(a, b, "in data derived after reading"))
            badRank = true;
        // ghost exchange works on the restored arrays: overwrite the ghosts and pull them again
        for (index i = back.coords.father->Size(); i < back.coords.Size(); i++)
            back.coords[i].setConstant(-7);
        back.coords.trans.pullOnce();
        for (index i = back.cellElemInfo.father->Size(); i < back.cellElemInfo.Size(); i++)
            back.cellElemInfo(i, 0).zone = -7;
        back.cellElemInfo.trans.pullOnce();
        Snap c = full(back, true);
        if (diff(a, c, "after exchanging ghosts of the restored mesh"))
            badRank = true;
        if (!stage(st, rank, std::move(b), [&]
                   { return checkFull(ctx, m, st.w, part, "restored", recov); }))
            return;
        if (rank == 0)
            ctx.nTraces++;
    }

    static std::vector<Job> elevJobs(bool thorough, double cap, bool bis)
    {
        std::vector<Job> j;
        auto add = [&](SMesh m)
        {
            for (int R = 1; R <= 4; R++)
                if (std::pow(R, m.c.size()) <= cap)
                    j.push_back({m, R});
        };
        auto perm = [](SMesh m, int k)
        { permuteCells(m, k); return m; };
        add(grid2(1, 1, 'q'));
        add(grid2(2, 1, 'q'));
        add(grid2(1, 1, 't'));
        add(perm(grid2(3, 1, 'm'), 7));
        add(grid2(2, 2, 'm'));
        add(perm(grid2(3, 2, 'q'), 5));
        add(fan(4));
        add(perm(fan(6), 5));
        add(loose());
        add(grid3(1, 1, 1, 'h'));
        add(perm(grid3(2, 1, 1, 'h'), 5));
        add(perm(grid3(2, 2, 1, 'h'), 5));
        add(grid3(1, 1, 1, 'p'));
        add(perm(grid3(2, 1, 1, 'p'), 5));
        add(perm(grid3(1, 1, 1, 'T'), 5));
        add(grid3(1, 1, 1, 'y'));
        add(zoo3());
        add(grid3(2, 1, 1, 'm'));
        add(perm(grid2(3, 1, 'q', 1), 5));
        add(grid2(3, 1, 't', 1));
        add(grid2(3, 3, 'q', 3));
        add(grid3(3, 1, 1, 'h', 1));
        add(grid3(1, 3, 1, 'p', 2));
        add(sector(1, 3, M_PI / 2));
        add(perm(sector(2, 3, 1.1), 5));
        add(sector(1, 3, 0.9, 3));
        if (thorough)
        {
            add(perm(grid2(3, 3, 'm'), 7));
            add(grid2(4, 3, 'q', 3));
            add(grid3(1, 3, 1, 'T', 2));
            add(perm(grid3(2, 2, 2, 'h'), 5));
        }
        return j;
    }
    void body(vh::Ctx &ctx)
    {
        simAttach(ctx);
        quiet();
        omp_set_num_threads(1);
        auto mode = ctx.opts["mode"];
        sim::Config base;
        if (mode == "save")
        {
            auto jobs = catalogue(ctx.thorough, false, true, ctx.thorough ? 5000 : 130);
            std::map<std::string, bool> rec;
            for (auto &J : jobs)
                if (!rec.count(J.m.name))
                    rec[J.m.name] = distinctSets(J.m);
            for (auto &J : jobs)
                allParts(J.m.c.size(), J.R, [&](const IV &p)
                         {
                    for (int v : {0, 1, 2, 3, 4, 5, 8, 9, 10 + 16, 11, 12 + 16})
                        if (((v & 1) == 0 || rec[J.m.name]) && ctx.take("%s ranks %d part %s variant %d", J.m.name.c_str(), J.R, pstr(p).c_str(), v))
                            runCase(ctx, J.m, p, J.R, bodySave, v, base); });
            for (auto &cfg : sim::allConfigs(3, ctx.thorough))
            {
                SMesh m = grid2(3, 1, 'q', 1);
                IV p{2, 0, 2};
                if (ctx.take("%s ranks 3 part %s cfg %s", m.name.c_str(), pstr(p).c_str(), cfg.str().c_str()))
                    runCase(ctx, m, p, 3, bodySave, 1, cfg);
                if (ctx.take("%s ranks 3 part %s HDF5 cfg %s", m.name.c_str(), pstr(p).c_str(), cfg.str().c_str()))
                    runCase(ctx, m, p, 3, bodySave, 9, cfg);
            }
            return;
        }
        for (int R = 1; R <= 4; R++)
            for (int n = 1; n <= 3; n++)
                for (int k = 0; k < 1 << n; k++)
                    allParts(n, R, [&](const IV &p)
                             {
                        if (ctx.take("order of %d elements kinds %d ranks %d part %s", n, k, R, pstr(p).c_str()))
                            runCase(ctx, SMesh(), p, R, bodyOrder, k, base); });
        auto jobs = elevJobs(ctx.thorough, ctx.thorough ? 20000 : 1100, false);
        std::map<std::string, bool> rec;
        for (auto &J : jobs)
            if (!rec.count(J.m.name))
                rec[J.m.name] = distinctSets(J.m) && distinctSets(elevated(J.m));
        for (auto &J : jobs)
        {
            if (!rec[J.m.name])
                continue;
            allParts(J.m.c.size(), J.R, [&](const IV &p)
                     {
                for (int v = 0; v < 4; v++)
                {
                    double n = std::pow(J.R, J.m.c.size());
                    if ((v == 2 && n > (ctx.thorough ? 5000 : 300)) || (v == 3 && n > (ctx.thorough ? 300 : J.m.dim == 3 ? 16 : 64)))
                        continue;
                    if (ctx.take("%s ranks %d part %s variant %d", J.m.name.c_str(), J.R, pstr(p).c_str(), v))
                        runCase(ctx, J.m, p, J.R, bodyElev, v, base);
                } });
        }
        for (auto &cfg : sim::allConfigs(3, ctx.thorough))
            for (int k = 0; k < 3; k++)
            {
                SMesh m = k == 0 ? grid2(2, 2, 'm') : k == 1 ? grid2(3, 1, 'q', 1) : zoo3();
                IV p;
                for (size_t i = 0; i < m.c.size(); i++)
                    p.push_back((i * 2 + 1) % 3);
                if (ctx.take("%s ranks 3 part %s cfg %s", m.name.c_str(), pstr(p).c_str(), cfg.str().c_str()))
                    runCase(ctx, m, p, 3, bodyElev, 2, cfg);
            }
    }
}
int main(int argc, char **argv) { return vh::run(argc, argv, DNDS::vf::body); }
