#pragma once
// Serial mesh models (what a mesh is, independent of the code under test) and the driver that hands them
// to the real mesh code under the simulated MPI world.
#include "simctx.hpp"
#include "Geom/Mesh.hpp"
#include <map>
#include <set>
#include <iostream>
namespace DNDS::vf
{
    using namespace DNDS::Geom;
    using Elem::Element;
    using Elem::ElemType;
    using P3 = std::array<double, 3>;
    using IV = std::vector<int>;

    struct SCell
    {
        ElemType t;
        IV n;
        int zone;
    };
    struct SBnd
    {
        ElemType t;
        IV n;
        int zone, cell, lf; // lf: which local face of the cell
    };
    inline P3 rotz(P3 x, const P3 &c, double a)
    {
        double dx = x[0] - c[0], dy = x[1] - c[1];
        x[0] = c[0] + std::cos(a) * dx - std::sin(a) * dy;
        x[1] = c[1] + std::sin(a) * dx + std::cos(a) * dy;
        return x;
    }
    struct SMesh
    {
        std::string name;
        int dim = 2;
        std::vector<P3> X;
        std::vector<SCell> c;
        std::vector<SBnd> b;
        int perDirs = 0;    // bit d: periodic in direction d
        P3 per{0, 0, 0};    // period
        double rot = 0;     // if not 0: direction 0 is the rotation by this angle about rc
        P3 rc{0, 0, 0};
        P3 image(P3 x, int d) const // main -> donor
        {
            if (d == 0 && rot)
                return rotz(x, rc, rot);
            x[d] += per[d];
            return x;
        }
        double theta(const P3 &x) const { return std::atan2(x[1] - rc[1], x[0] - rc[0]); }
        bool o2 = false;
        // derived
        std::vector<int> cls; // node -> class of periodic images (smallest node of the class)
    };
    inline IV faceNodes(const SCell &c, int f)
    {
        Element e{c.t};
        IV fn(e.ObtainFace(f).GetNumNodes());
        e.ExtractFaceNodes(f, c.n, fn);
        return fn;
    }
    inline int nVerts(ElemType t) { return Element{t}.GetNumVertices(); }
    // centre of the vertices of a local face, modulo the periods: identifies a geometric face
    inline std::vector<int64_t> pointKey(const SMesh &m, P3 x)
    {
        std::vector<int64_t> k(3);
        if (m.rot && (m.perDirs & 1) && m.theta(x) > m.rot - 1e-7)
            x = rotz(x, m.rc, -m.rot);
        for (int d = 0; d < 3; d++)
        {
            double v = x[d];
            if ((m.perDirs >> d & 1) && !(d == 0 && m.rot))
                while (v >= m.per[d] - 1e-7)
                    v -= m.per[d];
            k[d] = (int64_t)std::llround(v * 1e6 + 0.2718); // off the values meshes are made of
        }
        return k;
    }
    inline std::vector<int64_t> faceKey(const SMesh &m, const SCell &c, int f)
    {
        auto fn = faceNodes(c, f);
        int nv = nVerts(Element{c.t}.ObtainFace(f).type);
        P3 x{0, 0, 0};
        for (int i = 0; i < nv; i++)
            for (int d = 0; d < 3; d++)
                x[d] += m.X[fn[i]][d] / nv;
        return pointKey(m, x);
    }
    // classes of periodic images
    inline void classes(SMesh &m)
    {
        std::map<std::vector<int64_t>, int> first;
        m.cls.resize(m.X.size());
        for (size_t i = 0; i < m.X.size(); i++)
            m.cls[i] = first.insert({pointKey(m, m.X[i]), (int)i}).first->second;
    }
    // boundary elements: local faces that no other cell has (before periodic identification)
    inline void addBnds(SMesh &m)
    {
        std::map<std::set<int>, std::vector<std::pair<int, int>>> fm;
        for (size_t i = 0; i < m.c.size(); i++)
            for (int f = 0; f < Element{m.c[i].t}.GetNumFaces(); f++)
            {
                auto fn = faceNodes(m.c[i], f);
                int nv = nVerts(Element{m.c[i].t}.ObtainFace(f).type);
                fm[std::set<int>(fn.begin(), fn.begin() + nv)].push_back({(int)i, f});
            }
        m.b.clear();
        for (auto &kv : fm)
            if (kv.second.size() == 1)
            {
                auto [ic, f] = kv.second[0];
                SBnd b;
                b.t = Element{m.c[ic].t}.ObtainFace(f).type;
                b.n = faceNodes(m.c[ic], f);
                b.cell = ic, b.lf = f;
                b.zone = 0;
                for (int d = 0; d < 3 && !b.zone; d++)
                    if (m.perDirs >> d & 1)
                    {
                        bool lo = true, hi = true;
                        for (int v : b.n)
                        {
                            bool rt = d == 0 && m.rot;
                            if (std::abs(rt ? m.theta(m.X[v]) : m.X[v][d]) > 1e-9)
                                lo = false;
                            if (std::abs(rt ? m.theta(m.X[v]) - m.rot : m.X[v][d] - m.per[d]) > 1e-9)
                                hi = false;
                        }
                        if (lo)
                            b.zone = -1 - d;
                        if (hi)
                            b.zone = -4 - d;
                    }
                // a boundary element may start at any of its vertices and run either way
                if (!m.o2)
                {
                    std::rotate(b.n.begin(), b.n.begin() + ic % b.n.size(), b.n.end());
                    if (f % 2)
                        std::reverse(b.n.begin(), b.n.end());
                }
                m.b.push_back(b);
            }
        // an order unrelated to the cell order
        std::stable_sort(m.b.begin(), m.b.end(), [](const SBnd &a, const SBnd &b)
                         { return (a.cell * 7 + a.lf * 5) % 11 < (b.cell * 7 + b.lf * 5) % 11; });
        int k = 100;
        for (auto &b : m.b)
            if (b.zone == 0)
                b.zone = k++;
    }
    // the periodic images of a cell must be told apart by their node sets for relations to be recovered from nodes
    inline bool distinctSets(const SMesh &m)
    {
        for (size_t i = 0; i < m.c.size(); i++)
            for (int f = 0; f < Element{m.c[i].t}.GetNumFaces(); f++)
            {
                auto fn = faceNodes(m.c[i], f);
                std::set<int> fs;
                for (int v : fn)
                    fs.insert(m.cls[v]);
                if (fs.size() != fn.size())
                    return false;
                int n = 0;
                for (size_t k = 0; k < m.c.size(); k++)
                {
                    std::set<int> cs;
                    for (int v : m.c[k].n)
                        cs.insert(m.cls[v]);
                    n += std::includes(cs.begin(), cs.end(), fs.begin(), fs.end());
                }
                int want = 0;
                auto key = faceKey(m, m.c[i], f);
                for (size_t k = 0; k < m.c.size(); k++)
                    for (int g = 0; g < Element{m.c[k].t}.GetNumFaces(); g++)
                        want += faceKey(m, m.c[k], g) == key;
                if (n != want)
                    return false;
            }
        return true;
    }
    inline bool connected(const SMesh &m)
    {
        std::map<std::vector<int64_t>, std::vector<int>> f2c;
        for (size_t i = 0; i < m.c.size(); i++)
            for (int f = 0; f < Element{m.c[i].t}.GetNumFaces(); f++)
                f2c[faceKey(m, m.c[i], f)].push_back(i);
        IV grp(m.c.size());
        for (size_t i = 0; i < grp.size(); i++)
            grp[i] = i;
        for (size_t rep = 0; rep < m.c.size(); rep++)
            for (auto &kv : f2c)
                for (int c : kv.second)
                    grp[c] = grp[kv.second[0]] = std::min(grp[c], grp[kv.second[0]]);
        for (int g : grp)
            if (g)
                return false;
        return true;
    }
    inline void finish(SMesh &m)
    {
        int z = 1000;
        for (auto &c : m.c)
            c.zone = z++;
        addBnds(m);
        classes(m);
    }
    // raise to second order: one node per distinct elevation span (edge, quadrilateral face, hexahedron)
    inline SMesh elevated(const SMesh &m)
    {
        SMesh o = m;
        o.o2 = true;
        o.name += "_o2";
        std::map<std::set<int>, int> mid;
        for (auto &c : o.c)
        {
            Element e{c.t};
            IV nn = c.n;
            for (int k = 0; k < e.GetNumElev_O1O2(); k++)
            {
                auto es = e.ObtainElevNodeSpan(k);
                IV sp(es.GetNumNodes());
                e.ExtractElevNodeSpanNodes(k, c.n, sp);
                std::set<int> key(sp.begin(), sp.end());
                auto it = mid.find(key);
                if (it == mid.end())
                {
                    P3 x{0, 0, 0};
                    for (int v : sp)
                        for (int d = 0; d < 3; d++)
                            x[d] += m.X[v][d] / (double)sp.size();
                    it = mid.insert({key, (int)o.X.size()}).first;
                    o.X.push_back(x);
                }
                nn.push_back(it->second);
            }
            c.n = nn;
            c.t = e.ObtainElevatedElem().type;
        }
        finish(o);
        return o;
    }
    inline void permuteCells(SMesh &m, int mul)
    {
        int n = m.c.size();
        std::vector<std::pair<int, int>> k;
        for (int i = 0; i < n; i++)
            k.push_back({(i * mul + mul / 2) % 13, i});
        std::stable_sort(k.begin(), k.end());
        std::vector<SCell> nc;
        for (auto &p : k)
            nc.push_back(m.c[p.second]);
        m.c = nc;
        finish(m);
        m.name += "_p" + std::to_string(mul);
    }
    inline double jig(int i, int j, int k, int s)
    {
        unsigned h = (unsigned)(i * 73 + j * 151 + k * 283 + s * 37 + 11);
        h ^= h >> 3;
        h *= 2654435761u;
        return ((int)(h >> 24) % 17 - 8) / 128.0;
    }
    // 2D grid; pat: q quads, t triangles, m mixed
    inline SMesh grid2(int nx, int ny, char pat, int per = 0)
    {
        SMesh m;
        m.dim = 2;
        m.name = vh::fmts("g%dx%d%c%s", nx, ny, pat, per ? vh::fmts("per%d", per).c_str() : "");
        m.perDirs = per;
        m.per = {(double)nx, (double)ny, 0};
        auto id = [&](int i, int j) { return j * (nx + 1) + i; };
        for (int j = 0; j <= ny; j++)
            for (int i = 0; i <= nx; i++)
            {
                int ii = per & 1 ? i % nx : i, jj = per & 2 ? j % ny : j;
                double dx = jig(ii, jj, 0, 0), dy = jig(ii, jj, 0, 1);
                if ((per & 1) && ii == 0)
                    dx = 0;
                if ((per & 2) && jj == 0)
                    dy = 0;
                m.X.push_back({i + dx, j + dy, 0});
            }
        for (int j = 0; j < ny; j++)
            for (int i = 0; i < nx; i++)
            {
                int a = id(i, j), b = id(i + 1, j), c = id(i + 1, j + 1), d = id(i, j + 1);
                bool q = pat == 'q' || (pat == 'm' && (i + j) % 2 == 0);
                if (q)
                    m.c.push_back({Elem::Quad4, {a, b, c, d}});
                else if ((i + 2 * j) % 2)
                    m.c.push_back({Elem::Tri3, {a, b, c}}), m.c.push_back({Elem::Tri3, {c, d, a}});
                else
                    m.c.push_back({Elem::Tri3, {b, d, a}}), m.c.push_back({Elem::Tri3, {c, d, b}});
            }
        finish(m);
        return m;
    }
    // n triangles around a point
    inline SMesh fan(int n)
    {
        SMesh m;
        m.dim = 2;
        m.name = vh::fmts("fan%d", n);
        m.X.push_back({0.125, 0.0625, 0});
        for (int i = 0; i < n; i++)
            m.X.push_back({std::round(std::cos(2 * M_PI * i / n) * 1024) / 1024, std::round(std::sin(2 * M_PI * i / n) * 1024) / 1024, 0});
        for (int i = 0; i < n; i++)
            m.c.push_back({Elem::Tri3, {0, 1 + i, 1 + (i + 1) % n}});
        finish(m);
        return m;
    }
    // two triangles sharing a vertex only, plus a separate quad
    inline SMesh loose()
    {
        SMesh m;
        m.dim = 2;
        m.name = "loose";
        m.X = {{0, 0, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}, {-1, -1, 0}, {3, 0, 0}, {4, 0, 0}, {4, 1, 0}, {3, 1, 0}};
        m.c = {{Elem::Tri3, {0, 1, 2}}, {Elem::Quad4, {5, 6, 7, 8}}, {Elem::Tri3, {0, 3, 4}}};
        finish(m);
        return m;
    }
    // 3D grid; pat: h hexes, p prisms, T tets (6 per box), y pyramids (6 per box), m: boxes alternate h / y
    inline SMesh grid3(int nx, int ny, int nz, char pat, int per = 0)
    {
        SMesh m;
        m.dim = 3;
        m.name = vh::fmts("g%dx%dx%d%c%s", nx, ny, nz, pat, per ? vh::fmts("per%d", per).c_str() : "");
        m.perDirs = per;
        m.per = {(double)nx, (double)ny, (double)nz};
        auto id = [&](int i, int j, int k) { return (k * (ny + 1) + j) * (nx + 1) + i; };
        for (int k = 0; k <= nz; k++)
            for (int j = 0; j <= ny; j++)
                for (int i = 0; i <= nx; i++)
                {
                    int ii = per & 1 ? i % nx : i, jj = per & 2 ? j % ny : j, kk = per & 4 ? k % nz : k;
                    double d[3] = {jig(ii, jj, kk, 0), jig(ii, jj, kk, 1), jig(ii, jj, kk, 2)};
                    if ((per & 1) && ii == 0)
                        d[0] = 0;
                    if ((per & 2) && jj == 0)
                        d[1] = 0;
                    if ((per & 4) && kk == 0)
                        d[2] = 0;
                    m.X.push_back({i + d[0], j + d[1], k + d[2]});
                }
        for (int k = 0; k < nz; k++)
            for (int j = 0; j < ny; j++)
                for (int i = 0; i < nx; i++)
                {
                    int v[8] = {id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k),
                                id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)};
                    char p = pat;
                    if (pat == 'm')
                        p = (i + j + k) % 2 ? 'y' : 'h';
                    if (p == 'h')
                        m.c.push_back({Elem::Hex8, IV(v, v + 8)});
                    else if (p == 'p')
                    {
                        m.c.push_back({Elem::Prism6, {v[0], v[1], v[2], v[4], v[5], v[6]}});
                        m.c.push_back({Elem::Prism6, {v[0], v[2], v[3], v[4], v[6], v[7]}});
                    }
                    else if (p == 'T')
                    {
                        // Kuhn: paths from v0 to v6
                        int pa[6][4] = {{0, 1, 2, 6}, {0, 2, 3, 6}, {0, 3, 7, 6}, {0, 7, 4, 6}, {0, 4, 5, 6}, {0, 5, 1, 6}};
                        for (auto &q : pa)
                            m.c.push_back({Elem::Tet4, {v[q[0]], v[q[1]], v[q[2]], v[q[3]]}});
                    }
                    else if (p == 'y')
                    {
                        P3 x{0, 0, 0};
                        for (int q : v)
                            for (int d = 0; d < 3; d++)
                                x[d] += m.X[q][d] / 8;
                        int ce = m.X.size();
                        m.X.push_back(x);
                        int fb[6][4] = {{0, 1, 2, 3}, {4, 7, 6, 5}, {0, 4, 5, 1}, {1, 5, 6, 2}, {2, 6, 7, 3}, {3, 7, 4, 0}};
                        for (auto &q : fb)
                            m.c.push_back({Elem::Pyramid5, {v[q[0]], v[q[1]], v[q[2]], v[q[3]], ce}});
                    }
                }
        finish(m);
        return m;
    }
    // sector of an annulus, periodic by rotation; nz > 0: extruded and periodic in z as well
    inline SMesh sector(int nr, int nt, double angle, int nz = 0)
    {
        SMesh m;
        m.dim = nz ? 3 : 2;
        m.name = vh::fmts("sector%dx%dx%d", nr, nt, nz);
        m.perDirs = 1 | (nz ? 4 : 0);
        m.rot = angle;
        m.rc = {0.25, -0.5, 0};
        m.per = {0, 0, nz ? nz * 0.75 : 0.};
        auto id = [&](int i, int j, int k) { return (k * (nt + 1) + j) * (nr + 1) + i; };
        for (int k = 0; k <= nz; k++)
            for (int j = 0; j <= nt; j++)
                for (int i = 0; i <= nr; i++)
                {
                    double r = 1.03 + 0.37 * i + jig(i, j % nt, nz ? k % nz : 0, 5) * 0.5;
                    P3 x{m.rc[0] + r, m.rc[1], 0.75 * k};
                    m.X.push_back(rotz(x, m.rc, angle * j / nt));
                }
        for (int k = 0; k < std::max(nz, 1); k++)
            for (int j = 0; j < nt; j++)
                for (int i = 0; i < nr; i++)
                    if (nz)
                        m.c.push_back({Elem::Hex8, {id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k), id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)}});
                    else
                        m.c.push_back({Elem::Quad4, {id(i, j, 0), id(i + 1, j, 0), id(i + 1, j + 1, 0), id(i, j + 1, 0)}});
        finish(m);
        return m;
    }
    // hexahedron, prism on one side, pyramid on top, tetrahedra on the pyramid
    inline SMesh zoo3()
    {
        SMesh m;
        m.dim = 3;
        m.name = "zoo3";
        m.X = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0.125}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1.0625}, {1.75, 0.5, 0}, {1.75, 0.5, 1}, {0.5, 0.5, 1.75}, {1.5, 0.5, 1.75}};
        m.c = {{Elem::Hex8, {0, 1, 2, 3, 4, 5, 6, 7}},
               {Elem::Prism6, {1, 8, 2, 5, 9, 6}},
               {Elem::Pyramid5, {4, 5, 6, 7, 10}},
               {Elem::Tet4, {5, 6, 10, 11}},
               {Elem::Tet4, {5, 9, 6, 11}}};
        finish(m);
        return m;
    }

    inline void quiet()
    {
        static std::ofstream null("/dev/null");
        setLogStream(&null);
        std::cout.rdbuf(null.rdbuf());
        static auto *e = std::cerr.rdbuf();
        (void)e;
    }

    // hand the model to the real reader object, as the CGNS reader leaves it
    struct Reader
    {
        ssp<UnstructuredMesh> mesh;
        ssp<UnstructuredMeshSerialRW> rw;
    };
    inline void fillSerial(const SMesh &m, UnstructuredMeshSerialRW &rw, const MPIInfo &mpi)
    {
        DNDS_MAKE_SSP(rw.coordSerial, mpi);
        DNDS_MAKE_SSP(rw.cell2nodeSerial, mpi);
        DNDS_MAKE_SSP(rw.bnd2nodeSerial, mpi);
        DNDS_MAKE_SSP(rw.bnd2cellSerial, mpi);
        DNDS_MAKE_SSP(rw.cellElemInfoSerial, ElemInfo::CommType(), ElemInfo::CommMult(), mpi);
        DNDS_MAKE_SSP(rw.bndElemInfoSerial, ElemInfo::CommType(), ElemInfo::CommMult(), mpi);
        rw.dataIsSerialIn = true;
        rw.mode = SerialReadAndDistribute;
        if (mpi.rank == rw.mRank)
        {
            rw.coordSerial->Resize(m.X.size());
            for (size_t i = 0; i < m.X.size(); i++)
                (*rw.coordSerial)[i] = tPoint{m.X[i][0], m.X[i][1], m.X[i][2]};
            rw.cell2nodeSerial->Resize(m.c.size());
            rw.cellElemInfoSerial->Resize(m.c.size());
            for (size_t i = 0; i < m.c.size(); i++)
            {
                rw.cell2nodeSerial->ResizeRow(i, m.c[i].n.size());
                for (size_t j = 0; j < m.c[i].n.size(); j++)
                    (*rw.cell2nodeSerial)(i, j) = m.c[i].n[j];
                (*rw.cellElemInfoSerial)(i, 0).setElemType(m.c[i].t);
                (*rw.cellElemInfoSerial)(i, 0).zone = m.c[i].zone;
            }
            rw.bnd2nodeSerial->Resize(m.b.size());
            rw.bnd2cellSerial->Resize(m.b.size());
            rw.bndElemInfoSerial->Resize(m.b.size());
            for (size_t i = 0; i < m.b.size(); i++)
            {
                rw.bnd2nodeSerial->ResizeRow(i, m.b[i].n.size());
                for (size_t j = 0; j < m.b[i].n.size(); j++)
                    (*rw.bnd2nodeSerial)(i, j) = m.b[i].n[j];
                (*rw.bnd2cellSerial)(i, 0) = m.b[i].cell;
                (*rw.bnd2cellSerial)(i, 1) = UnInitIndex;
                (*rw.bndElemInfoSerial)(i, 0).setElemType(m.b[i].t);
                (*rw.bndElemInfoSerial)(i, 0).zone = m.b[i].zone;
            }
        }
        rw.cell2nodeSerial->Compress();
        rw.bnd2nodeSerial->Compress();
    }
    inline Reader distribute(const SMesh &m, const IV &part, const MPIInfo &mpi, int mRank = 0, const UnstructuredMeshSerialRW::PartitionOptions *metis = nullptr)
    {
        Reader R;
        DNDS_MAKE_SSP(R.mesh, mpi, m.dim);
        for (int d = 0; d < 3; d++)
        {
            R.mesh->periodicInfo.translation[1 + d].setZero();
            R.mesh->periodicInfo.translation[1 + d][d] = m.per[d];
        }
        if (m.rot)
        {
            R.mesh->periodicInfo.translation[1].setZero();
            R.mesh->periodicInfo.rotationCenter[1] = tPoint{m.rc[0], m.rc[1], m.rc[2]};
            R.mesh->periodicInfo.rotation[1] << std::cos(m.rot), -std::sin(m.rot), 0, std::sin(m.rot), std::cos(m.rot), 0, 0, 0, 1;
        }
        R.mesh->mRank = mRank;
        DNDS_MAKE_SSP(R.rw, R.mesh, mRank);
        fillSerial(m, *R.rw, mpi);
        R.rw->Deduplicate1to1Periodic();
        R.rw->BuildCell2Cell();
        R.rw->cnPart = mpi.size;
        if (metis)
            R.rw->MeshPartitionCell2Cell(*metis);
        else if (mpi.rank == mRank)
            R.rw->cellPartition.assign(part.begin(), part.end());
        R.rw->PartitionReorderToMeshCell2Cell();
        return R;
    }
}
