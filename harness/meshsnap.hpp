#pragma once
// Plain copies of a distributed mesh (all ranks) and their comparison with the serial model.
#include "meshmodel.hpp"
namespace DNDS::vf
{
    using GV = std::vector<index>;
    struct Snap // one rank
    {
        bool glob = true, fglob = false, c2fglob = false, nglob = true, ghosts = false, has_c2c = false, has_n2cb = false, has_n2cbGhost = false, has_face = false, peri = false;
        index nodeOff = 0, cellOff = 0, bndOff = 0, faceOff = 0;
        index nNode = 0, nCell = 0, nBnd = 0, nFace = 0;
        std::vector<P3> X;
        std::vector<GV> c2n, c2c, b2n, n2c, n2b, c2f, f2n;
        std::vector<std::array<index, 2>> b2c, f2c;
        std::vector<std::array<int, 2>> ci, bi, fi;
        std::vector<std::vector<uint8_t>> pbi, fpbi;
        GV gNode, gCell, gFace;
        GV bnd2face;
        std::map<index, index> face2bnd;
        index node(index i) const { return l2g(i, nNode, nodeOff, gNode); }
        index cell(index i) const { return l2g(i, nCell, cellOff, gCell); }
        index face(index i) const { return l2g(i, nFace, faceOff, gFace); }
        static index l2g(index i, index n, index off, const GV &g)
        {
            if (i == UnInitIndex)
                return i;
            if (i < 0)
                return -1 - i;
            if (i < n)
                return off + i;
            return i - n < (index)g.size() ? g[i - n] : -777;
        }
    };
    using World = std::vector<Snap>;

    template <class TPair>
    std::vector<GV> rowsOf(TPair &p, bool son)
    {
        std::vector<GV> r;
        index n = p.father->Size() + (son && p.son ? p.son->Size() : 0);
        for (index i = 0; i < n; i++)
        {
            GV v;
            for (rowsize j = 0; j < p.RowSize(i); j++)
                v.push_back(p(i, j));
            r.push_back(v);
        }
        return r;
    }
    template <class TPair>
    std::vector<std::array<index, 2>> rows2(TPair &p, bool son)
    {
        std::vector<std::array<index, 2>> r;
        index n = p.father->Size() + (son && p.son ? p.son->Size() : 0);
        for (index i = 0; i < n; i++)
            r.push_back({p(i, 0), p(i, 1)});
        return r;
    }
    template <class TPair>
    std::vector<std::array<int, 2>> infos(TPair &p, bool son)
    {
        std::vector<std::array<int, 2>> r;
        index n = p.father->Size() + (son && p.son ? p.son->Size() : 0);
        for (index i = 0; i < n; i++)
            r.push_back({(int)p(i, 0).type, (int)p(i, 0).zone});
        return r;
    }
    template <class TPair>
    std::vector<std::vector<uint8_t>> bitsOf(TPair &p, bool son)
    {
        std::vector<std::vector<uint8_t>> r;
        index n = p.father->Size() + (son && p.son ? p.son->Size() : 0);
        for (index i = 0; i < n; i++)
        {
            std::vector<uint8_t> v;
            for (rowsize j = 0; j < p.RowSize(i); j++)
                v.push_back(uint8_t(p(i, j)));
            r.push_back(v);
        }
        return r;
    }
    // offsets are computed by the harness itself from the sizes of all ranks: see gatherOffsets
    inline Snap snap(UnstructuredMesh &m, bool ghosts)
    {
        Snap s;
        s.ghosts = ghosts;
        s.peri = m.isPeriodic;
        s.glob = m.adjPrimaryState == Adj_PointToGlobal;
        s.nNode = m.coords.father->Size(), s.nCell = m.cell2node.father->Size(), s.nBnd = m.bnd2node.father->Size();
        index nx = s.nNode + (ghosts ? m.coords.son->Size() : 0);
        for (index i = 0; i < nx; i++)
        {
            auto x = m.coords[i];
            s.X.push_back({x[0], x[1], x[2]});
        }
        s.c2n = rowsOf(m.cell2node, ghosts);
        s.has_c2c = (bool)m.cell2cell.father;
        if (s.has_c2c)
            s.c2c = rowsOf(m.cell2cell, ghosts);
        s.b2n = rowsOf(m.bnd2node, false);
        s.b2c = rows2(m.bnd2cell, false);
        s.ci = infos(m.cellElemInfo, ghosts);
        s.bi = infos(m.bndElemInfo, false);
        if (s.peri)
            s.pbi = bitsOf(m.cell2nodePbi, ghosts);
        if (ghosts)
        {
            s.gNode = m.coords.trans.pLGhostMapping->ghostIndex;
            s.gCell = m.cell2node.trans.pLGhostMapping->ghostIndex;
        }
        return s;
    }
    inline void snapN2CB(UnstructuredMesh &m, Snap &s, bool ghosts)
    {
        s.has_n2cb = true;
        s.has_n2cbGhost = ghosts;
        s.nglob = m.adjN2CBState == Adj_PointToGlobal;
        s.n2c = rowsOf(m.node2cell, ghosts);
        s.n2b = rowsOf(m.node2bnd, ghosts);
    }
    inline void snapFaces(UnstructuredMesh &m, Snap &s)
    {
        s.has_face = true;
        s.fglob = m.adjFacialState == Adj_PointToGlobal;
        s.c2fglob = m.adjC2FState == Adj_PointToGlobal;
        s.nFace = m.face2node.father->Size();
        s.f2n = rowsOf(m.face2node, true);
        s.f2c = rows2(m.face2cell, true);
        s.c2f = rowsOf(m.cell2face, true);
        s.fi = infos(m.faceElemInfo, true);
        if (s.peri)
            s.fpbi = bitsOf(m.face2nodePbi, true);
        s.gFace = m.face2node.trans.pLGhostMapping->ghostIndex;
        s.bnd2face = m.bnd2face;
        for (auto &p : m.face2bnd)
            s.face2bnd[p.first] = p.second;
    }
    inline void gatherOffsets(World &w)
    {
        index a = 0, b = 0, c = 0, d = 0;
        for (auto &s : w)
        {
            s.nodeOff = a, s.cellOff = b, s.bndOff = c, s.faceOff = d;
            a += s.nNode, b += s.nCell, c += s.nBnd, d += s.nFace;
        }
    }

    // comparison with the model
    struct Cmp
    {
        vh::Ctx &ctx;
        const SMesh &m;
        World &w;
        std::string stage;
        bool ok = true;
        std::vector<int> nodeM, cellM, bndM; // global index -> model entity (node: class)
        std::vector<int> cellRank, nodeRank;
        std::map<std::vector<int64_t>, int> nodeOf; // exact position -> model node
        Cmp(vh::Ctx &c, const SMesh &mm, World &ww, const std::string &st) : ctx(c), m(mm), w(ww), stage(st)
        {
            gatherOffsets(w);
            for (size_t i = 0; i < m.X.size(); i++)
                nodeOf[rawKey(m.X[i])] = i;
        }
        static std::vector<int64_t> rawKey(const P3 &x)
        {
            return {(int64_t)std::llround(x[0] * 1e7 + 0.2718), (int64_t)std::llround(x[1] * 1e7 + 0.2718), (int64_t)std::llround(x[2] * 1e7 + 0.2718)};
        }
        // model node at a position (-1: none), up to rounding
        int find(const P3 &x) const
        {
            auto it = nodeOf.find(rawKey(x));
            if (it != nodeOf.end())
                return it->second;
            for (size_t i = 0; i < m.X.size(); i++)
                if (std::abs(m.X[i][0] - x[0]) < 1e-12 && std::abs(m.X[i][1] - x[1]) < 1e-12 && std::abs(m.X[i][2] - x[2]) < 1e-12)
                    return i;
            return -1;
        }
        template <class... A>
        bool bad(const char *key, const char *f, A... a)
        {
            std::string s = vh::fmts(f, a...);
            ctx.fail(key, "%s: %s", stage.c_str(), s.c_str());
            ok = false;
            return false;
        }
        index N(const Snap &s, index i) const { return s.glob ? i : s.node(i); }
        index C(const Snap &s, index i) const { return s.glob ? i : s.cell(i); }
        int nm(index g) const { return g >= 0 && g < (index)nodeM.size() ? nodeM[g] : -5; }
        int cm(index g) const { return g >= 0 && g < (index)cellM.size() ? cellM[g] : -5; }
        int bm(index g) const { return g >= 0 && g < (index)bndM.size() ? bndM[g] : -5; }
        // position of a model node seen from a cell
        P3 shift(P3 x, uint8_t b) const
        {
            for (int d = 0; d < 3; d++)
                if (b >> d & 1)
                    x = m.image(x, d);
            return x;
        }

        // C10: every entity exactly once, with the data of the model; part: assigned rank of each cell (empty: any)
        bool primary(const IV &part, bool orderOfBndNodes = true)
        {
            int nr = w.size();
            nodeM.clear(), cellM.clear(), bndM.clear();
            // nodes
            std::map<int, int> seenN;
            for (int r = 0; r < nr; r++)
                for (index i = 0; i < w[r].nNode; i++)
                {
                    auto it = nodeOf.find(rawKey(w[r].X[i]));
                    if (it == nodeOf.end())
                        return bad("node-coord", "rank %d node %ld at (%g %g %g): no such node in the serial mesh", r, (long)i, w[r].X[i][0], w[r].X[i][1], w[r].X[i][2]);
                    for (int d = 0; d < 3; d++)
                        if (std::abs(w[r].X[i][d] - m.X[it->second][d]) > 1e-13)
                            return bad("node-coord", "rank %d node %ld: coordinate %d is off by %g", r, (long)i, d, w[r].X[i][d] - m.X[it->second][d]);
                    int c = m.cls[it->second];
                    if (seenN[c]++)
                        return bad("node-twice", "node %d of the serial mesh is owned twice (again by rank %d)", c, r);
                    nodeM.push_back(c);
                    nodeRank.push_back(r);
                }
            std::set<int> used;
            for (auto &c : m.c)
                for (int v : c.n)
                    used.insert(m.cls[v]);
            for (int v : used)
                if (!seenN.count(v))
                    return bad("node-lost", "node %d of the serial mesh is owned by no rank", v);
            if (seenN.size() != used.size())
                return bad("node-extra", "%zu distinct nodes, the serial mesh has %zu", seenN.size(), used.size());
            // cells
            std::vector<int> seenC(m.c.size(), 0);
            for (int r = 0; r < nr; r++)
            {
                if ((index)w[r].ci.size() < w[r].nCell)
                    return bad("cell-info", "rank %d: %zu element records for %ld cells", r, w[r].ci.size(), (long)w[r].nCell);
                for (index i = 0; i < w[r].nCell; i++)
                {
                    int z = w[r].ci[i][1] - 1000;
                    if (z < 0 || z >= (int)m.c.size())
                        return bad("cell-zone", "rank %d cell %ld has zone %d", r, (long)i, w[r].ci[i][1]);
                    if (seenC[z]++)
                        return bad("cell-twice", "cell %d of the serial mesh is owned twice (again by rank %d)", z, r);
                    if (!part.empty() && part[z] != r)
                        return bad("cell-rank", "cell %d assigned to rank %d is owned by rank %d", z, part[z], r);
                    cellM.push_back(z);
                    cellRank.push_back(r);
                }
            }
            for (size_t i = 0; i < m.c.size(); i++)
                if (!seenC[i])
                    return bad("cell-lost", "cell %zu of the serial mesh is owned by no rank", i);
            for (int r = 0; r < nr; r++)
                for (index i = 0; i < w[r].nCell; i++)
                    if (!cellData(r, i, cellM[w[r].cellOff + i], "owned"))
                        return false;
            // boundary elements
            std::vector<int> seenB(m.b.size(), 0);
            for (int r = 0; r < nr; r++)
                for (index i = 0; i < w[r].nBnd; i++)
                {
                    auto &s = w[r];
                    int z = s.bi[i][1];
                    index g = C(s, s.b2c[i][0]);
                    int pc = cm(g);
                    std::set<int> ns;
                    for (auto v : s.b2n[i])
                        ns.insert(nm(N(s, v)));
                    int found = -1;
                    for (size_t k = 0; k < m.b.size(); k++)
                    {
                        if (m.b[k].zone != z)
                            continue;
                        if (z < 0)
                        {
                            std::set<int> ms;
                            for (int v : m.b[k].n)
                                ms.insert(m.cls[v]);
                            if (ms != ns || m.b[k].cell != pc)
                                continue;
                        }
                        found = k;
                        if (!seenB[k])
                            break;
                    }
                    if (found < 0)
                        return bad("bnd-unknown", "rank %d boundary element %ld (zone %d, cell %d) is not in the serial mesh", r, (long)i, z, pc);
                    if (seenB[found]++)
                        return bad("bnd-twice", "boundary element %d is held twice", found);
                    bndM.push_back(found);
                    auto &b = m.b[found];
                    if (pc != b.cell)
                        return bad("bnd-cell", "boundary element %d: linked to cell %d, belongs to cell %d", found, pc, b.cell);
                    if (cellRank[g] != r)
                        return bad("bnd-rank", "boundary element %d is on rank %d, its cell on rank %d", found, r, cellRank[g]);
                    if (s.bi[i][0] != (int)b.t)
                        return bad("bnd-type", "boundary element %d has type %d instead of %d", found, s.bi[i][0], (int)b.t);
                    if (s.b2n[i].size() != b.n.size())
                        return bad("bnd-nodes", "boundary element %d has %zu nodes instead of %zu", found, s.b2n[i].size(), b.n.size());
                    std::multiset<int> A, B;
                    for (size_t j = 0; j < b.n.size(); j++)
                    {
                        int x = nm(N(s, s.b2n[i][j]));
                        A.insert(x), B.insert(m.cls[b.n[j]]);
                        if (orderOfBndNodes && x != m.cls[b.n[j]])
                            return bad("bnd-nodes", "boundary element %d node %zu is serial node %d instead of %d", found, j, x, m.cls[b.n[j]]);
                    }
                    if (A != B)
                        return bad("bnd-nodes", "boundary element %d has other nodes than in the serial mesh", found);
                }
            for (size_t i = 0; i < m.b.size(); i++)
                if (!seenB[i])
                    return bad("bnd-lost", "boundary element %zu (zone %d) is on no rank", i, m.b[i].zone);
            return true;
        }
        // node list, type and geometry of row i of rank r must be those of model cell z
        bool cellData(int r, index i, int z, const char *what)
        {
            auto &s = w[r];
            auto &c = m.c[z];
            if (s.ci[i][0] != (int)c.t)
                return bad("cell-type", "%s cell %d on rank %d has element type %d instead of %d", what, z, r, s.ci[i][0], (int)c.t);
            if (s.ci[i][1] != c.zone)
                return bad("cell-zone", "%s cell %d on rank %d has zone %d instead of %d", what, z, r, s.ci[i][1], c.zone);
            if (s.c2n[i].size() != c.n.size())
                return bad("cell-nodes", "%s cell %d on rank %d has %zu nodes instead of %zu", what, z, r, s.c2n[i].size(), c.n.size());
            for (size_t j = 0; j < c.n.size(); j++)
            {
                index g = N(s, s.c2n[i][j]);
                if (nm(g) != m.cls[c.n[j]])
                    return bad("cell-nodes", "%s cell %d on rank %d: node %zu is serial node %d instead of %d", what, z, r, j, nm(g), m.cls[c.n[j]]);
            }
            if (s.peri)
            {
                if (s.pbi[i].size() != c.n.size())
                    return bad("cell-bits", "%s cell %d on rank %d has %zu periodic tags for %zu nodes", what, z, r, s.pbi[i].size(), c.n.size());
                for (size_t j = 0; j < c.n.size(); j++)
                {
                    index g = N(s, s.c2n[i][j]);
                    P3 x = ownerX(g);
                    P3 y = shift(x, s.pbi[i][j]);
                    for (int d = 0; d < 3; d++)
                        if (std::abs(y[d] - m.X[c.n[j]][d]) > 1e-12)
                            return bad("cell-geometry", "%s cell %d on rank %d: node %zu is seen at %g instead of %g in direction %d (tag %d)", what, z, r, j, y[d], m.X[c.n[j]][d], d, (int)s.pbi[i][j]);
                }
            }
            return true;
        }
        P3 ownerX(index g)
        {
            int r = nodeRank[g];
            return w[r].X[g - w[r].nodeOff];
        }
        // model relations
        std::map<int, std::set<int>> n2cM() const
        {
            std::map<int, std::set<int>> o;
            for (size_t i = 0; i < m.c.size(); i++)
                for (int v : m.c[i].n)
                    o[m.cls[v]].insert(i);
            return o;
        }
        std::map<int, std::set<int>> n2bM() const
        {
            std::map<int, std::set<int>> o;
            for (size_t i = 0; i < m.b.size(); i++)
                for (int v : m.b[i].n)
                    o[m.cls[v]].insert(i);
            return o;
        }
        std::vector<std::set<int>> c2cM() const
        {
            auto n2c = n2cM();
            std::vector<std::set<int>> o(m.c.size());
            for (size_t i = 0; i < m.c.size(); i++)
            {
                for (int v : m.c[i].n)
                    for (int c : n2c[m.cls[v]])
                        o[i].insert(c);
                o[i].erase(i);
            }
            return o;
        }
        // C11
        bool cell2cell()
        {
            auto ref = c2cM();
            for (size_t r = 0; r < w.size(); r++)
                for (index i = 0; i < (index)w[r].c2c.size(); i++)
                {
                    auto &s = w[r];
                    int z = cm(s.cell(i));
                    if (z < 0)
                        return bad("c2c-owner", "rank %zu row %ld", r, (long)i);
                    std::set<int> got;
                    for (auto v : s.c2c[i])
                    {
                        index g = C(s, v);
                        if (cm(g) < 0)
                            return bad("c2c-index", "rank %zu cell %d: neighbour index %ld is no cell", r, z, (long)v);
                        if (!s.glob && i < s.nCell && v < 0)
                            return bad("c2c-unfound", "rank %zu own cell %d: neighbour %d not found locally", r, z, cm(g));
                        if (!got.insert(cm(g)).second)
                            return bad("c2c-twice", "rank %zu cell %d: neighbour %d listed twice", r, z, cm(g));
                    }
                    for (int k : ref[z])
                        if (!got.count(k))
                            return bad("c2c-missing", "rank %zu cell %d: neighbour %d missing", r, z, k);
                    if (got.size() != ref[z].size())
                        return bad("c2c-extra", "rank %zu cell %d: %zu neighbours, %zu share a node", r, z, got.size(), ref[z].size());
                }
            return true;
        }
        bool halo()
        {
            auto ref = c2cM();
            for (size_t r = 0; r < w.size(); r++)
            {
                auto &s = w[r];
                std::set<int> want, got;
                std::set<int> wantN, gotN;
                std::set<int> own;
                for (index i = 0; i < s.nCell; i++)
                    own.insert(cm(s.cellOff + i));
                for (int z : own)
                    for (int k : ref[z])
                        if (!own.count(k))
                            want.insert(k);
                for (auto g : s.gCell)
                {
                    if (cm(g) < 0 || cellRank[g] == (int)r)
                        return bad("halo-index", "rank %zu: ghost cell with global index %ld", r, (long)g);
                    if (!got.insert(cm(g)).second)
                        return bad("halo-twice", "rank %zu: ghost cell %d twice", r, cm(g));
                }
                if (got != want)
                    return bad("halo-cells", "rank %zu: %zu ghost cells, %zu neighbours of own cells are elsewhere", r, got.size(), want.size());
                if (s.c2n.size() != s.nCell + s.gCell.size() || s.ci.size() != s.c2n.size() || (s.has_c2c && s.c2c.size() != s.c2n.size()))
                    return bad("halo-size", "rank %zu: ghost relations have %zu/%zu/%zu rows for %zu cells", r, s.c2n.size(), s.ci.size(), s.c2c.size(), s.nCell + s.gCell.size());
                for (int z : own)
                    for (int v : m.c[z].n)
                        wantN.insert(m.cls[v]);
                for (int z : want)
                    for (int v : m.c[z].n)
                        wantN.insert(m.cls[v]);
                for (index i = 0; i < s.nNode; i++)
                    gotN.insert(nm(s.nodeOff + i));
                for (auto g : s.gNode)
                {
                    if (nm(g) < 0 || nodeRank[g] == (int)r)
                        return bad("halo-node-index", "rank %zu: ghost node with global index %ld", r, (long)g);
                    if (!gotN.insert(nm(g)).second)
                        return bad("halo-node-twice", "rank %zu: ghost node %d twice", r, nm(g));
                    if (!wantN.count(nm(g)))
                        return bad("halo-node-extra", "rank %zu: ghost node %d belongs to none of its cells", r, nm(g));
                }
                for (int v : wantN)
                    if (!gotN.count(v))
                        return bad("halo-node-missing", "rank %zu: node %d of its cells is missing", r, v);
                if (s.X.size() != s.nNode + s.gNode.size())
                    return bad("halo-node-size", "rank %zu: %zu coordinates for %zu nodes", r, s.X.size(), s.nNode + s.gNode.size());
                for (size_t k = 0; k < s.gNode.size(); k++)
                    if (s.X[s.nNode + k] != ownerX(s.gNode[k]))
                        return bad("halo-node-coord", "rank %zu: ghost node %d has other coordinates than its owner", r, nm(s.gNode[k]));
                for (size_t k = 0; k < s.gCell.size(); k++)
                {
                    if (!cellData(r, s.nCell + k, cm(s.gCell[k]), "ghost"))
                        return false;
                    auto &o = w[cellRank[s.gCell[k]]];
                    index io = s.gCell[k] - o.cellOff;
                    if (s.peri && s.pbi[s.nCell + k] != o.pbi[io])
                        return bad("halo-bits", "rank %zu: ghost cell %d has other periodic tags than its owner", r, cm(s.gCell[k]));
                }
                if (!s.glob)
                    for (size_t i = 0; i < s.c2n.size(); i++)
                        for (auto v : s.c2n[i])
                            if (v < 0 || v >= (index)s.X.size())
                                return bad("halo-local", "rank %zu: cell row %zu has local node index %ld of %zu", r, i, (long)v, s.X.size());
            }
            return true;
        }
        bool bnd2cellPeriodic(bool recovered)
        {
            // second entry: the cell on the other side, for periodic boundaries after recovery; otherwise none
            std::map<std::vector<int64_t>, std::vector<int>> fk;
            for (auto &b : m.b)
                fk[faceKey(m, m.c[b.cell], b.lf)].push_back(b.cell);
            for (size_t r = 0; r < w.size(); r++)
                for (index i = 0; i < w[r].nBnd; i++)
                {
                    auto &s = w[r];
                    auto &b = m.b[bm(s.bndOff + i)];
                    index v = s.b2c[i][1];
                    if (b.zone > 0 || !recovered)
                    {
                        if (v != UnInitIndex)
                            return bad("bnd-second", "rank %zu boundary element of cell %d: second cell index %ld", r, b.cell, (long)v);
                        continue;
                    }
                    auto &p = fk[faceKey(m, m.c[b.cell], b.lf)];
                    int other = p[0] == b.cell ? p[1] : p[0];
                    if (cm(C(s, v)) != other)
                        return bad("bnd-second", "rank %zu periodic boundary element of cell %d: other side is cell %d instead of %d", r, b.cell, cm(C(s, v)), other);
                }
            return true;
        }
        bool node2()
        {
            auto nc = n2cM();
            auto nb = n2bM();
            for (size_t r = 0; r < w.size(); r++)
            {
                auto &s = w[r];
                size_t want = s.nNode + (s.has_n2cbGhost ? s.gNode.size() : 0);
                if (s.n2c.size() != want || s.n2b.size() != want)
                    return bad("n2-size", "rank %zu: node relations have %zu/%zu rows for %zu nodes", r, s.n2c.size(), s.n2b.size(), want);
                for (size_t i = 0; i < want; i++)
                {
                    int z = nm(s.node(i));
                    std::set<int> a, b;
                    for (auto v : s.n2c[i])
                    {
                        index g = s.nglob ? v : s.cell(v);
                        if (cm(g) < 0 || !a.insert(cm(g)).second)
                            return bad("n2c-entry", "rank %zu node %d: cell entry %ld invalid or repeated", r, z, (long)v);
                        if (!s.nglob && (index)i < s.nNode && v < 0)
                            return bad("n2c-unfound", "rank %zu own node %d: cell %d not found locally", r, z, cm(g));
                    }
                    for (auto v : s.n2b[i])
                    {
                        index g = s.nglob ? v : (v < 0 ? -1 - v : (v < s.nBnd ? s.bndOff + v : -777));
                        if (bm(g) < 0 || !b.insert(bm(g)).second)
                            return bad("n2b-entry", "rank %zu node %d: boundary entry %ld invalid or repeated", r, z, (long)v);
                        if (!s.nglob && v < 0 && g >= s.bndOff && g < s.bndOff + s.nBnd)
                            return bad("n2b-local", "rank %zu node %d: own boundary element %d marked as not found", r, z, bm(g));
                    }
                    if (a != nc[z])
                        return bad("n2c-set", "rank %zu node %d: %zu cells listed, %zu contain it", r, z, a.size(), nc[z].size());
                    if (b != nb[z])
                        return bad("n2b-set", "rank %zu node %d: %zu boundary elements listed, %zu contain it", r, z, b.size(), nb[z].size());
                }
            }
            return true;
        }
        // C12: faces
        bool faces()
        {
            struct MF
            {
                std::vector<std::pair<int, int>> side; // (cell, local face)
                int bnd = -1;
            };
            std::map<std::vector<int64_t>, MF> mf;
            for (size_t i = 0; i < m.c.size(); i++)
                for (int f = 0; f < Element{m.c[i].t}.GetNumFaces(); f++)
                    mf[faceKey(m, m.c[i], f)].side.push_back({(int)i, f});
            std::map<std::pair<int, int>, int> bndAt; // (cell, local face) -> boundary element
            for (size_t k = 0; k < m.b.size(); k++)
                bndAt[{m.b[k].cell, m.b[k].lf}] = k;
            std::map<std::vector<int64_t>, int> seen; // face key -> global face index
            std::vector<std::vector<int64_t>> keyOf;  // global face -> key
            auto F = [&](const Snap &s, index i) { return s.fglob ? i : s.node(i); };
            auto FC = [&](const Snap &s, index i) { return i == UnInitIndex ? i : s.fglob ? i : s.cell(i); };
            for (size_t r = 0; r < w.size(); r++)
            {
                auto &s = w[r];
                if (s.f2n.size() != s.nFace + s.gFace.size() || s.f2c.size() != s.f2n.size() || s.fi.size() != s.f2n.size())
                    return bad("face-size", "rank %zu: face relations have %zu/%zu/%zu rows for %zu faces", r, s.f2n.size(), s.f2c.size(), s.fi.size(), s.nFace + s.gFace.size());
                if (s.c2f.size() != s.c2n.size())
                    return bad("c2f-size", "rank %zu: cell2face has %zu rows for %zu cells", r, s.c2f.size(), s.c2n.size());
                for (index i = 0; i < s.nFace; i++)
                {
                    int c0 = cm(FC(s, s.f2c[i][0]));
                    if (c0 < 0)
                        return bad("face-cell", "rank %zu face %ld: first cell index %ld", r, (long)i, (long)s.f2c[i][0]);
                    if (cellRank[FC(s, s.f2c[i][0])] != (int)r)
                        return bad("face-first", "rank %zu face %ld: first cell %d is not its own", r, (long)i, c0);
                    int c1 = s.f2c[i][1] == UnInitIndex ? -1 : cm(FC(s, s.f2c[i][1]));
                    if (c1 < -1)
                        return bad("face-cell", "rank %zu face %ld: second cell index %ld", r, (long)i, (long)s.f2c[i][1]);
                    // which local face of c0
                    int lf = -1;
                    for (int f = 0; f < Element{m.c[c0].t}.GetNumFaces(); f++)
                    {
                        auto fn = faceNodes(m.c[c0], f);
                        if (fn.size() != s.f2n[i].size())
                            continue;
                        bool eq = true;
                        for (size_t j = 0; j < fn.size(); j++)
                            eq = eq && nm(F(s, s.f2n[i][j])) == m.cls[fn[j]];
                        if (eq && s.peri)
                            for (size_t j = 0; j < fn.size(); j++)
                            {
                                P3 y = shift(ownerX(F(s, s.f2n[i][j])), s.fpbi[i][j]);
                                for (int d = 0; d < 3; d++)
                                    eq = eq && std::abs(y[d] - m.X[fn[j]][d]) < 1e-12;
                            }
                        if (eq && lf >= 0)
                            return bad("model", "cell %d has two equal faces", c0);
                        if (eq)
                            lf = f;
                    }
                    if (lf < 0)
                        return bad("face-nodes", "rank %zu face %ld: its node list is no local face of its first cell %d", r, (long)i, c0);
                    auto key = faceKey(m, m.c[c0], lf);
                    auto &M = mf[key];
                    if (M.side.empty() || M.side.size() > 2)
                        return bad("model", "face with %zu sides", M.side.size());
                    if (seen.count(key))
                        return bad("face-twice", "rank %zu face %ld between cells %d and %d exists twice", r, (long)i, c0, c1);
                    seen[key] = s.faceOff + i;
                    keyOf.push_back(key);
                    int other = -1;
                    for (auto &p : M.side)
                        if (!(p.first == c0 && p.second == lf))
                            other = p.first;
                    if (c1 != other)
                        return bad("face-second", "rank %zu face %ld of cell %d: second cell %d instead of %d", r, (long)i, c0, c1, other);
                    ElemType ft = Element{m.c[c0].t}.ObtainFace(lf).type;
                    if (s.fi[i][0] != (int)ft)
                        return bad("face-type", "rank %zu face of cell %d: type %d instead of %d", r, c0, s.fi[i][0], (int)ft);
                    auto ib = bndAt.find({c0, lf});
                    int zone = ib == bndAt.end() ? 0 : m.b[ib->second].zone;
                    if (s.fi[i][1] != zone)
                        return bad("face-zone", "rank %zu face of cell %d: zone %d instead of %d", r, c0, s.fi[i][1], zone);
                    // boundary links
                    if (zone != 0)
                    {
                        index iBnd = -1;
                        for (index k = 0; k < s.nBnd; k++)
                            if (bm(s.bndOff + k) == ib->second)
                                iBnd = k;
                        if (iBnd < 0 || (index)s.bnd2face.size() <= iBnd || s.bnd2face[iBnd] != i)
                            return bad("bnd2face", "rank %zu: boundary element %d does not point to its face %ld", r, ib->second, (long)i);
                        auto fb = s.face2bnd.find(i);
                        if (fb == s.face2bnd.end() || fb->second != iBnd)
                            return bad("face2bnd", "rank %zu: face %ld does not point to its boundary element", r, (long)i);
                    }
                    else if (s.face2bnd.count(i))
                        return bad("face2bnd", "rank %zu: inner face %ld points to a boundary element", r, (long)i);
                }
            }
            for (auto &kv : mf)
                if (!seen.count(kv.first))
                    return bad("face-lost", "face of cell %d (local %d) exists on no rank", kv.second.side[0].first, kv.second.side[0].second);
            // ghosts equal owners; each rank has all faces of its cells
            std::vector<int> faceRank;
            for (size_t r = 0; r < w.size(); r++)
                for (index i = 0; i < w[r].nFace; i++)
                    faceRank.push_back(r);
            for (size_t r = 0; r < w.size(); r++)
            {
                auto &s = w[r];
                std::set<index> gs;
                for (size_t k = 0; k < s.gFace.size(); k++)
                {
                    index g = s.gFace[k];
                    if (g < 0 || g >= (index)faceRank.size() || faceRank[g] == (int)r || !gs.insert(g).second)
                        return bad("face-ghost-index", "rank %zu: ghost face with global index %ld", r, (long)g);
                    auto &o = w[faceRank[g]];
                    index io = g - o.faceOff, il = s.nFace + k;
                    if (s.fi[il] != o.fi[io] || s.f2n[il].size() != o.f2n[io].size() || (s.peri && s.fpbi[il] != o.fpbi[io]))
                        return bad("face-ghost-data", "rank %zu: ghost face %ld differs from its owner's", r, (long)g);
                    for (size_t j = 0; j < s.f2n[il].size(); j++)
                        if (F(s, s.f2n[il][j]) != F(o, o.f2n[io][j]))
                            return bad("face-ghost-nodes", "rank %zu: ghost face %ld has other nodes than its owner's", r, (long)g);
                    for (int j = 0; j < 2; j++)
                        if (FC(s, s.f2c[il][j]) != FC(o, o.f2c[io][j]))
                            return bad("face-ghost-cells", "rank %zu: ghost face %ld links other cells than its owner's", r, (long)g);
                }
                for (size_t i = 0; i < s.c2f.size(); i++)
                {
                    int z = cm(s.cell(i));
                    auto &c = m.c[z];
                    int nf = Element{c.t}.GetNumFaces();
                    if ((int)s.c2f[i].size() != nf)
                        return bad("c2f-count", "rank %zu cell %d: %zu faces instead of %d", r, z, s.c2f[i].size(), nf);
                    for (int f = 0; f < nf; f++)
                    {
                        index v = s.c2f[i][f];
                        bool own = (index)i < s.nCell;
                        if (own && !s.c2fglob && (v < 0 || v >= (index)s.f2n.size()))
                            return bad("c2f-local", "rank %zu own cell %d face %d: local index %ld", r, z, f, (long)v);
                        index g = s.c2fglob ? v : s.face(v);
                        auto it = seen.find(faceKey(m, c, f));
                        if (it == seen.end() || it->second != g)
                            return bad("c2f-face", "rank %zu %s cell %d: local face %d points to global face %ld instead of %d", r, own ? "own" : "ghost", z, f, (long)g, it == seen.end() ? -1 : it->second);
                    }
                }
                // boundary elements without a face: only periodic ones
                for (index k = 0; k < s.nBnd; k++)
                    if ((index)s.bnd2face.size() <= k || (s.bnd2face[k] < 0 && m.b[bm(s.bndOff + k)].zone > 0))
                        return bad("bnd2face", "rank %zu: boundary element %ld has no face", r, (long)k);
            }
            return true;
        }
    };
}
