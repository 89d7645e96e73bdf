// C17: element tables and shape functions, exhaustively over all element types, all listed entities
// and all points of a lattice on each reference element.
#include "Geom/Elements.hpp"
#include "vh.hpp"

namespace DNDS::vf
{
    using namespace DNDS::Geom;
    using namespace DNDS::Geom::Elem;
    using V3 = Eigen::Vector3d;
    const std::vector<ElemType> ALL = {Line2, Line3, Tri3, Tri6, Quad4, Quad9, Tet4, Tet10, Hex8, Hex27, Prism6, Prism18, Pyramid5, Pyramid14};
    const char *NAME[] = {"?", "Line2", "Tri3", "Quad4", "Tet4", "Hex8", "Prism6", "Pyramid5", "Line3", "Tri6", "Quad9", "Tet10", "Hex27", "Prism18", "Pyramid14"};

    // ---- independent description of the elements (CGNS SIDS) -----------------------------------
    struct Ref
    {
        ParamSpace ps;
        int dim, order, nv;
        double vol;
        std::vector<V3> x;
    };
    Ref ref(ElemType t)
    {
        Ref r;
        std::vector<std::vector<int>> mids;
        auto sp = [&](ParamSpace ps, int d, double vol, std::vector<V3> v, std::vector<std::vector<int>> m, bool o2)
        {
            r.ps = ps, r.dim = d, r.vol = vol, r.x = v, r.nv = v.size(), r.order = o2 ? 2 : 1;
            if (o2)
                for (auto &s : m)
                {
                    V3 c = V3::Zero();
                    for (int i : s)
                        c += v[i];
                    r.x.push_back(c / s.size());
                }
        };
        switch (t)
        {
        case Line2:
        case Line3:
            sp(LineSpace, 1, 2, {{-1, 0, 0}, {1, 0, 0}}, {{0, 1}}, t == Line3);
            break;
        case Tri3:
        case Tri6:
            sp(TriSpace, 2, .5, {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}, {{0, 1}, {1, 2}, {2, 0}}, t == Tri6);
            break;
        case Quad4:
        case Quad9:
            sp(QuadSpace, 2, 4, {{-1, -1, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}}, {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 1, 2, 3}}, t == Quad9);
            break;
        case Tet4:
        case Tet10:
            sp(TetSpace, 3, 1. / 6, {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}}, t == Tet10);
            break;
        case Hex8:
        case Hex27:
            sp(HexSpace, 3, 8, {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}}, {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 4}, {1, 5}, {2, 6}, {3, 7}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 1, 2, 3}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}, {4, 5, 6, 7}, {0, 1, 2, 3, 4, 5, 6, 7}}, t == Hex27);
            break;
        case Prism6:
        case Prism18:
            sp(PrismSpace, 3, 1, {{0, 0, -1}, {1, 0, -1}, {0, 1, -1}, {0, 0, 1}, {1, 0, 1}, {0, 1, 1}}, {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 4}, {2, 5}, {3, 4}, {4, 5}, {5, 3}, {0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}}, t == Prism18);
            break;
        case Pyramid5:
        case Pyramid14:
            sp(PyramidSpace, 3, 4. / 3, {{-1, -1, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}, {0, 0, 1}}, {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 4}, {1, 4}, {2, 4}, {3, 4}, {0, 1, 2, 3}}, t == Pyramid14);
            break;
        default:
            abort();
        }
        return r;
    }
    // exponents of the monomial space of the non-rational elements
    std::vector<std::array<int, 3>> space(const Ref &r)
    {
        std::vector<std::array<int, 3>> s;
        int k = r.order;
        for (int a = 0; a <= k; a++)
            for (int b = 0; b <= (r.dim >= 2 ? k : 0); b++)
                for (int c = 0; c <= (r.dim >= 3 ? k : 0); c++)
                {
                    bool in = true;
                    if (r.ps == TriSpace)
                        in = a + b <= k;
                    if (r.ps == TetSpace)
                        in = a + b + c <= k;
                    if (r.ps == PrismSpace)
                        in = a + b <= k;
                    if (in)
                        s.push_back({a, b, c});
                }
        return s;
    }
    double dmono(const std::array<int, 3> &e, const V3 &p, const std::array<int, 3> &d)
    {
        double v = 1;
        for (int i = 0; i < 3; i++)
        {
            if (d[i] > e[i])
                return 0;
            for (int k = 0; k < d[i]; k++)
                v *= e[i] - k;
            for (int k = 0; k < e[i] - d[i]; k++)
                v *= p[i];
        }
        return v;
    }
    // rational pyramid functions: Lagrange product on each level z = const of the collapsed cube
    double lag(const std::vector<double> &x, int i, double t)
    {
        double v = 1;
        for (size_t j = 0; j < x.size(); j++)
            if ((int)j != i)
                v *= (t - x[j]) / (x[i] - x[j]);
        return v;
    }
    double pyr(const Ref &r, int j, const V3 &p)
    {
        double s = 1 - p[2];
        if (s < 1e-12)
            return j == 4 ? 1 : 0;
        double a = p[0] / s, b = p[1] / s;
        auto pick = [](const std::vector<double> &x, double v)
        {
            for (size_t i = 0; i < x.size(); i++)
                if (std::abs(x[i] - v) < 1e-12)
                    return int(i);
            abort();
        };
        std::vector<double> zl = r.order == 1 ? std::vector<double>{0, 1} : std::vector<double>{0, .5, 1};
        V3 q = r.x[j];
        int iz = pick(zl, q[2]);
        double v = lag(zl, iz, p[2]);
        if (j == 4)
            return v;
        std::vector<double> al = (r.order == 2 && iz == 0) ? std::vector<double>{-1, 0, 1} : std::vector<double>{-1, 1};
        double sc = 1 - q[2];
        return v * lag(al, pick(al, q[0] / sc), a) * lag(al, pick(al, q[1] / sc), b);
    }
    std::vector<V3> lattice(const Ref &r, int n)
    {
        std::vector<V3> out;
        auto lin = [&](int i)
        { return -1 + 2. * i / n; };
        for (int i = 0; i <= n; i++)
            for (int j = 0; j <= (r.dim >= 2 ? n : 0); j++)
                for (int k = 0; k <= (r.dim >= 3 ? n : 0); k++)
                    switch (r.ps)
                    {
                    case LineSpace:
                        out.push_back({lin(i), 0, 0});
                        break;
                    case TriSpace:
                        if (i + j <= n)
                            out.push_back({double(i) / n, double(j) / n, 0});
                        break;
                    case QuadSpace:
                        out.push_back({lin(i), lin(j), 0});
                        break;
                    case TetSpace:
                        if (i + j + k <= n)
                            out.push_back({double(i) / n, double(j) / n, double(k) / n});
                        break;
                    case HexSpace:
                        out.push_back({lin(i), lin(j), lin(k)});
                        break;
                    case PrismSpace:
                        if (i + j <= n)
                            out.push_back({double(i) / n, double(j) / n, lin(k)});
                        break;
                    case PyramidSpace:
                    {
                        double z = double(k) / n;
                        out.push_back({lin(i) * (1 - z), lin(j) * (1 - z), z});
                    }
                    break;
                    default:
                        break;
                    }
        return out;
    }
    const std::vector<std::array<int, 3>> &ops(int dim)
    {
        // rows of the derivative tables, as documented in BaseFunction.hpp
        static const std::vector<std::array<int, 3>> o1{{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {3, 0, 0}};
        static const std::vector<std::array<int, 3>> o2{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {2, 0, 0}, {1, 1, 0}, {0, 2, 0}, {3, 0, 0}, {2, 1, 0}, {1, 2, 0}, {0, 3, 0}};
        static const std::vector<std::array<int, 3>> o3{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}, {1, 1, 0}, {0, 1, 1}, {1, 0, 1}, {3, 0, 0}, {0, 3, 0}, {0, 0, 3}, {2, 1, 0}, {1, 2, 0}, {0, 2, 1}, {0, 1, 2}, {1, 0, 2}, {2, 0, 1}, {1, 1, 1}};
        return dim == 1 ? o1 : dim == 2 ? o2
                                        : o3;
    }
    int nrows(int dim, int order)
    {
        int n = 0;
        for (auto &o : ops(dim))
            if (o[0] + o[1] + o[2] <= order)
                n++;
        return n;
    }

#define BAD(key, ...)                  \
    do                                 \
    {                                  \
        ctx.fail(key, __VA_ARGS__);    \
        return;                        \
    } while (0)

    void shapes(vh::Ctx &ctx, ElemType t, const V3 &p)
    {
        Ref r = ref(t);
        Element e{t};
        int nn = r.x.size();
        bool rational = r.ps == PyramidSpace;
        std::vector<tDiNj> D(4);
        for (int o = 0; o <= 3; o++)
        {
            D[o].setConstant(2, 2, 77.);
            e.GetDiNj(p, D[o], o);
            ctx.nTrans++;
            if (D[o].rows() != nrows(r.dim, o) || D[o].cols() != nn)
                BAD("shape", "GetDiNj order %d has shape %dx%d", o, int(D[o].rows()), int(D[o].cols()));
        }
        tNj N;
        e.GetNj(p, N);
        tD1Nj D1;
        e.GetD1Nj(p, D1);
        tD01Nj D01;
        e.GetD01Nj(p, D01);
        ctx.nTrans += 3;
        auto close = [](double a, double b, double tol)
        { return std::abs(a - b) <= tol * (1 + std::abs(b)); };
        bool nearApex = rational && p[2] > 0.8;
        for (int o = 1; o <= 3; o++)
            for (int i = 0; i < D[o - 1].rows(); i++)
                for (int j = 0; j < nn; j++)
                    if (!nearApex && !close(D[o](i, j), D[o - 1](i, j), 1e-13))
                        BAD("prefix", "row %d col %d of GetDiNj differs between max order %d and %d", i, j, o - 1, o);
        for (int j = 0; j < nn; j++)
        {
            if (!close(N(0, j), D[0](0, j), 1e-13) || !close(D01(0, j), N(0, j), 1e-13))
                BAD("nj", "GetNj/GetD01Nj disagree with GetDiNj at node %d", j);
            if (!nearApex)
                for (int d = 0; d < 3; d++)
                {
                    double w = d < r.dim ? D[1](1 + d, j) : 0;
                    if (!close(D1(d, j), w, 1e-13) || !close(D01(1 + d, j), w, 1e-13))
                        BAD("d1nj", "GetD1Nj/GetD01Nj disagree with GetDiNj at node %d dir %d", j, d);
                }
        }
        // values
        if (rational)
        {
            for (int j = 0; j < nn; j++)
                if (!close(N(0, j), pyr(r, j, p), 1e-11))
                    BAD("value", "N%d = %.15g, expected %.15g", j, N(0, j), pyr(r, j, p));
            if (!nearApex)
            {
                // each derivative row against a 9-point difference of a row of one order less
                static const double w9[4] = {4. / 5, -1. / 5, 4. / 105, -1. / 280};
                double h = 0.01;
                auto &O = ops(3);
                for (int dir = 0; dir < 3; dir++)
                {
                    tDiNj FD = tDiNj::Zero(nrows(3, 2), nn), tmp;
                    for (int s = 1; s <= 4; s++)
                        for (int sg = -1; sg <= 1; sg += 2)
                        {
                            V3 q = p;
                            q[dir] += sg * s * h;
                            e.GetDiNj(q, tmp, 2);
                            ctx.nTrans++;
                            FD += tmp * (sg * w9[s - 1] / h);
                        }
                    for (int i = 0; i < nrows(3, 2); i++)
                    {
                        auto o = O[i];
                        o[dir]++;
                        int k = std::find(O.begin(), O.end(), o) - O.begin();
                        double sc = 1;
                        for (int j = 0; j < nn; j++)
                            sc = std::max(sc, std::abs(FD(i, j)));
                        for (int j = 0; j < nn; j++)
                            if (std::abs(D[3](k, j) - FD(i, j)) > 2e-6 * sc)
                                BAD("deriv", "d(%d%d%d) N%d = %.12g, derivative of the lower order row is %.12g", o[0], o[1], o[2], j, D[3](k, j), FD(i, j));
                    }
                }
            }
        }
        else
        {
            auto S = space(r);
            if ((int)S.size() != nn)
                BAD("space", "oracle space has wrong size");
            Eigen::MatrixXd A(nn, nn);
            for (int i = 0; i < nn; i++)
                for (int j = 0; j < nn; j++)
                    A(i, j) = dmono(S[j], r.x[i], {0, 0, 0});
            Eigen::MatrixXd C = A.fullPivLu().inverse(); // columns: coefficients of N_j
            for (size_t k = 0; k < ops(r.dim).size(); k++)
            {
                auto o = ops(r.dim)[k];
                Eigen::RowVectorXd m(nn);
                for (int i = 0; i < nn; i++)
                    m[i] = dmono(S[i], p, o);
                Eigen::RowVectorXd w = m * C;
                for (int j = 0; j < nn; j++)
                    if (std::abs(D[3](k, j) - w[j]) > 1e-10 * (1 + w.cwiseAbs().maxCoeff()))
                        BAD(o == std::array<int, 3>{0, 0, 0} ? "value" : "deriv", "d(%d%d%d) N%d = %.12g, expected %.12g", o[0], o[1], o[2], j, D[3](k, j), w[j]);
            }
        }
        // partition of unity, linear completeness, Jacobian and position helpers on an affine image
        double sum = N.sum();
        if (std::abs(sum - 1) > 1e-12)
            BAD("unity", "sum of shape functions is %.16g", sum);
        Eigen::Matrix3d M;
        M << 1.5, .25, -.5, -.75, 2, .125, .5, -.25, 1.75;
        if (r.dim < 3)
            M(2, 0) = M(2, 1) = 0;
        V3 b(3, -2, r.dim == 3 ? 5 : 0);
        tSmallCoords cs(3, nn);
        for (int j = 0; j < nn; j++)
            cs.col(j) = M * r.x[j] + b;
        V3 x = PPhysicsCoordD01Nj(cs, D01);
        if ((x - (M * p + b)).norm() > 1e-11)
            BAD("position", "PPhysicsCoord maps the point wrongly");
        if (!nearApex)
        {
            tJacobi J = ShapeJacobianCoordD01Nj(cs, D01);
            for (int d = 0; d < 3; d++)
                if ((J.col(d) - (d < r.dim ? V3(M.col(d)) : V3::Zero())).norm() > 1e-10)
                    BAD("jacobian", "ShapeJacobian column %d wrong", d);
            if (r.dim == 1)
            {
                V3 n = FacialJacobianToNormVec<2>(J);
                if ((n - V3(M(1, 0), -M(0, 0), 0)).norm() > 1e-10 || std::abs(JacobiDetFace<2>(J) - n.norm()) > 1e-10)
                    BAD("normal", "2D face normal/measure wrong");
            }
            if (r.dim == 2)
            {
                V3 n = FacialJacobianToNormVec<3>(J);
                V3 c0 = M.col(0), c1 = M.col(1);
                if ((n - c0.cross(c1)).norm() > 1e-10 || std::abs(JacobiDetFace<3>(J) - n.norm()) > 1e-10)
                    BAD("normal", "3D face normal/measure wrong");
            }
        }
        vh::Hash h;
        h.add(int(t));
        for (int i = 0; i < D[3].size(); i++)
            h.add(D[3](i));
        ctx.state(h.h);
        ctx.nTraces++;
    }

    void tables(vh::Ctx &ctx, ElemType t)
    {
        Ref r = ref(t);
        Element e{t};
        if (e.GetDim() != r.dim || e.GetOrder() != r.order || e.GetNumVertices() != r.nv || e.GetNumNodes() != (int)r.x.size() || e.GetParamSpace() != r.ps)
            BAD("counts", "dim/order/counts/param space wrong");
        if (std::abs(ParamSpaceVol(r.ps) - r.vol) > 1e-15)
            BAD("vol", "ParamSpaceVol wrong");
        auto sc = GetStandardCoord(t);
        if (sc.cols() != (int)r.x.size())
            BAD("stdcoord", "GetStandardCoord has %d columns", int(sc.cols()));
        for (size_t i = 0; i < r.x.size(); i++)
            if ((sc.col(i) - r.x[i]).norm() > 1e-15)
                BAD("stdcoord", "standard coordinate of node %d wrong", int(i));
        Element o1 = e.ObtainO1Elem();
        Ref r1 = ref(o1.type);
        if (r1.ps != r.ps || r1.order != 1)
            BAD("o1", "ObtainO1Elem wrong");
        ctx.nTrans += 4;
    }

    V3 areaVec(const std::vector<V3> &v) // planar polygon, ordered
    {
        V3 a = V3::Zero();
        for (size_t i = 1; i + 1 < v.size(); i++)
            a += .5 * (v[i] - v[0]).cross(v[i + 1] - v[0]);
        return a;
    }

    void faces(vh::Ctx &ctx, ElemType t)
    {
        Ref r = ref(t);
        Element e{t};
        static const std::map<ParamSpace, int> NF{{LineSpace, 0}, {TriSpace, 3}, {QuadSpace, 4}, {TetSpace, 4}, {HexSpace, 6}, {PrismSpace, 5}, {PyramidSpace, 5}};
        if (e.GetNumFaces() != NF.at(r.ps))
            BAD("nfaces", "wrong number of faces");
        if (r.dim == 1)
            return;
        V3 cc = V3::Zero();
        for (int i = 0; i < r.nv; i++)
            cc += r.x[i] / r.nv;
        std::vector<int> ids(r.x.size());
        for (size_t i = 0; i < ids.size(); i++)
            ids[i] = i;
        std::map<std::pair<int, int>, int> dirEdge;
        std::map<int, int> starts, ends;
        double vol = 0;
        V3 closed = V3::Zero();
        std::set<int> seen;
        for (int f = 0; f < e.GetNumFaces(); f++)
        {
            Element fe = e.ObtainFace(f);
            Ref fr = ref(fe.type);
            if (fr.dim != r.dim - 1 || fr.order != r.order)
                BAD("facetype", "face %d has type %s", f, NAME[fe.type]);
            std::vector<int> fn(fr.x.size(), -1);
            e.ExtractFaceNodes(f, ids, fn);
            ctx.nTrans++;
            std::set<int> s(fn.begin(), fn.end());
            if (s.size() != fn.size() || *s.begin() < 0 || *s.rbegin() >= (int)r.x.size())
                BAD("facenodes", "face %d lists repeated or foreign nodes", f);
            for (size_t i = 0; i < fn.size(); i++)
                if ((int(i) < fr.nv) != (fn[i] < r.nv))
                    BAD("facenodes", "face %d mixes vertices and mid nodes", f);
            seen.insert(s.begin(), s.end());
            // node i of the face sits where node i of the face element sits under the first order map
            std::vector<V3> fv;
            for (int i = 0; i < fr.nv; i++)
                fv.push_back(r.x[fn[i]]);
            V3 fc = V3::Zero();
            for (auto &v : fv)
                fc += v / fv.size();
            Eigen::MatrixXd A(fr.nv, fr.nv);
            auto S1 = space(ref(Element{fe.type}.ObtainO1Elem().type));
            for (int i = 0; i < fr.nv; i++)
                for (int j = 0; j < fr.nv; j++)
                    A(i, j) = dmono(S1[j], fr.x[i], {0, 0, 0});
            Eigen::MatrixXd C = A.fullPivLu().inverse();
            for (size_t i = fr.nv; i < fn.size(); i++)
            {
                V3 x = V3::Zero();
                for (int k = 0; k < fr.nv; k++)
                {
                    double w = 0;
                    for (int m = 0; m < fr.nv; m++)
                        w += dmono(S1[m], fr.x[i], {0, 0, 0}) * C(m, k);
                    x += w * fv[k];
                }
                if ((x - r.x[fn[i]]).norm() > 1e-13)
                    BAD("facenodes", "face %d: node %d of the face is not at the place of node %d of %s", f, fn[i], int(i), NAME[fe.type]);
            }
            if (r.dim == 2)
            {
                starts[fn[0]]++, ends[fn[1]]++;
                V3 d = fv[1] - fv[0], n(d[1], -d[0], 0);
                if (n.dot(fc - cc) <= 0)
                    BAD("orient", "face %d is not outward", f);
                closed += n;
                vol += n.dot(fc) / 2;
            }
            else
            {
                for (int i = 0; i < fr.nv; i++)
                    dirEdge[{fn[i], fn[(i + 1) % fr.nv]}]++;
                V3 n = areaVec(fv);
                for (auto &v : fv)
                    if (std::abs(n.dot(v - fv[0])) > 1e-13)
                        BAD("facenodes", "face %d is not planar on the reference element", f);
                if (n.dot(fc - cc) <= 0)
                    BAD("orient", "face %d is not outward", f);
                closed += n;
                vol += n.dot(fv[0]) / 3;
            }
            // the code's own normal on the face
            SmallCoordsAsVector cs, fcs;
            cs.resize(3, r.x.size());
            for (size_t i = 0; i < r.x.size(); i++)
                cs.col(i) = r.x[i];
            fcs.resize(3, fn.size());
            for (size_t i = 0; i < fn.size(); i++)
                fcs.col(i) = r.x[fn[i]];
            for (auto &p : lattice(fr, 3))
            {
                tD01Nj D01;
                fe.GetD01Nj(p, D01);
                tJacobi J = ShapeJacobianCoordD01Nj((const tSmallCoords &)fcs, D01);
                V3 n = r.dim == 2 ? FacialJacobianToNormVec<2>(J) : FacialJacobianToNormVec<3>(J);
                if (n.dot(fc - cc) <= 0)
                    BAD("orient", "face %d: computed normal is not outward", f);
                // trace: cell functions on the face are the face's functions (polynomial elements and linear/quad pyramid faces)
                V3 x = PPhysicsCoordD01Nj((const tSmallCoords &)fcs, D01);
                if (t == Pyramid14 && fr.ps == TriSpace)
                    continue;
                if (r.ps == PyramidSpace && x[2] > .999)
                    continue;
                tNj N;
                e.GetNj(x, N);
                ctx.nTrans += 2;
                std::vector<double> w(r.x.size(), 0);
                for (size_t i = 0; i < fn.size(); i++)
                    w[fn[i]] = D01(0, i);
                for (size_t i = 0; i < w.size(); i++)
                    if (std::abs(w[i] - N(0, i)) > 1e-11)
                        BAD("trace", "face %d: N%d of the cell is %.12g on the face, the face's is %.12g", f, int(i), N(0, i), w[i]);
            }
        }
        for (int i = 0; i < r.nv; i++)
            if (!seen.count(i))
                BAD("facenodes", "vertex %d on no face", i);
        if (r.dim == 2)
            for (int i = 0; i < r.nv; i++)
                if (starts[i] != 1 || ends[i] != 1)
                    BAD("loop", "edges do not form a loop at vertex %d", i);
        for (auto &[ed, c] : dirEdge)
            if (c != 1 || !dirEdge.count({ed.second, ed.first}))
                BAD("edges", "edge %d-%d is not shared by two faces in opposite directions", ed.first, ed.second);
        if (closed.norm() > 1e-13 || std::abs(vol - r.vol) > 1e-13)
            BAD("closed", "faces do not enclose the reference volume (%.15g)", vol);
        ctx.nTraces++;
    }

    void elevation(vh::Ctx &ctx, ElemType t)
    {
        Ref r = ref(t);
        Element e{t};
        if (r.order == 2)
        {
            if (e.GetNumElev_O1O2() >= 0)
                BAD("elev", "second order element claims elevation nodes");
            return;
        }
        Element e2 = e.ObtainElevatedElem();
        Ref r2 = ref(e2.type);
        if (r2.ps != r.ps || r2.order != 2)
            BAD("elev", "ObtainElevatedElem wrong");
        if (e.GetNumElev_O1O2() + r.nv != (int)r2.x.size())
            BAD("elev", "number of elevation nodes wrong");
        std::vector<int> ids(r.nv);
        for (int i = 0; i < r.nv; i++)
            ids[i] = i;
        std::set<std::set<int>> spans;
        for (int i = 0; i < e.GetNumElev_O1O2(); i++)
        {
            Element s = e.ObtainElevNodeSpan(i);
            Ref sr = ref(s.type);
            if (sr.order != 1)
                BAD("elev", "span type of node %d not first order", i);
            std::vector<int> sn(sr.nv, -1);
            e.ExtractElevNodeSpanNodes(i, ids, sn);
            ctx.nTrans++;
            std::set<int> ss(sn.begin(), sn.end());
            if (ss.size() != sn.size() || *ss.begin() < 0 || *ss.rbegin() >= r.nv)
                BAD("elev", "span of node %d lists repeated or foreign nodes", i);
            if (!spans.insert(ss).second)
                BAD("elev", "span of node %d repeats another one", i);
            V3 c = V3::Zero();
            for (int k : sn)
                c += r.x[k] / sn.size();
            if ((c - r2.x[r.nv + i]).norm() > 1e-14)
                BAD("elev", "elevated node %d is not the centre of its span", r.nv + i);
            // a quad span is listed around its boundary
            if (s.type == Quad4)
            {
                std::vector<V3> v;
                for (int k : sn)
                    v.push_back(r.x[k]);
                V3 a = (v[1] - v[0]).cross(v[2] - v[1]), b = (v[3] - v[2]).cross(v[0] - v[3]);
                if (a.norm() < 1e-12 || a.dot(b) < 1e-12)
                    BAD("elev", "quad span of node %d is not listed around its boundary", i);
            }
        }
        ctx.nTraces++;
    }

    // measure through the surface (exact for planar faces); orientation from an independent face table
    double measure(ElemType t, const std::vector<V3> &v)
    {
        if (t == Line2)
            return (v[1] - v[0])[0];
        if (t == Tri3 || t == Quad4)
            return areaVec(v)[2];
        static const std::map<ElemType, std::vector<std::vector<int>>> F{
            {Tet4, {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}}},
            {Pyramid5, {{0, 3, 2, 1}, {0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}},
            {Prism6, {{0, 2, 1}, {3, 4, 5}, {0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}}},
            {Hex8, {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}}}};
        double s = 0;
        for (auto &f : F.at(t))
        {
            std::vector<V3> w;
            for (int i : f)
                w.push_back(v[i]);
            s += areaVec(w).dot(w[0]) / 3;
        }
        return s;
    }
    std::vector<std::set<int>> subFaces(ElemType t, const std::vector<int> &n)
    {
        static const std::map<ElemType, std::vector<std::vector<int>>> F{
            {Line2, {{0}, {1}}},
            {Tri3, {{0, 1}, {1, 2}, {2, 0}}},
            {Quad4, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}},
            {Tet4, {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}}},
            {Pyramid5, {{0, 3, 2, 1}, {0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}},
            {Prism6, {{0, 2, 1}, {3, 4, 5}, {0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}}},
            {Hex8, {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}}}};
        std::vector<std::set<int>> out;
        for (auto &f : F.at(t))
        {
            std::set<int> s;
            for (int i : f)
                s.insert(n[i]);
            out.push_back(s);
        }
        return out;
    }
    int nVariants(ElemType t) { return t == Tet10 ? 3 : t == Pyramid14 ? 2
                                                                       : 1; }
    void bisect(vh::Ctx &ctx, ElemType t, int var)
    {
        Ref r = ref(t);
        Element e{t};
        if (r.order == 1)
        {
            if (e.GetO2NumBisect() != 0)
                BAD("bisect", "first order element claims sub elements");
            return;
        }
        std::vector<int> ids(r.x.size());
        for (size_t i = 0; i < ids.size(); i++)
            ids[i] = i;
        double tot = 0;
        std::map<std::set<int>, int> fc;
        std::set<int> used;
        for (int i = 0; i < e.GetO2NumBisect(); i++)
        {
            Element s = e.ObtainO2BisectElem(i);
            Ref sr = ref(s.type);
            if (sr.order != 1 || sr.dim != r.dim)
                BAD("bisect", "sub element %d has type %s", i, NAME[s.type]);
            std::vector<int> sn(sr.nv, -1);
            e.ExtractO2BisectElemNodes(i, var, ids, sn);
            ctx.nTrans++;
            std::set<int> ss(sn.begin(), sn.end());
            if (ss.size() != sn.size() || *ss.begin() < 0 || *ss.rbegin() >= (int)r.x.size())
                BAD("bisect", "sub element %d lists repeated or foreign nodes", i);
            used.insert(ss.begin(), ss.end());
            std::vector<V3> v;
            for (int k : sn)
                v.push_back(r.x[k]);
            double m = measure(s.type, v);
            if (m <= 1e-12)
                BAD("bisect", "sub element %d of variant %d has volume %g", i, var, m);
            // the shape map itself is regular at all vertices' lattice
            for (auto &p : lattice(sr, 2))
            {
                if (sr.ps == PyramidSpace && p[2] > .9)
                    continue;
                tD01Nj D;
                s.GetD01Nj(p, D);
                tSmallCoords cs(3, sr.nv);
                for (int k = 0; k < sr.nv; k++)
                    cs.col(k) = v[k];
                tJacobi J = ShapeJacobianCoordD01Nj(cs, D);
                double det = r.dim == 1 ? J(0, 0) : r.dim == 2 ? J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0)
                                                               : J.determinant();
                if (det <= 1e-12)
                    BAD("bisect", "sub element %d of variant %d is inverted", i, var);
            }
            tot += m;
            for (auto &f : subFaces(s.type, sn))
                fc[f]++;
        }
        if (used.size() != r.x.size())
            BAD("bisect", "not all nodes are used by the sub elements");
        if (std::abs(tot - r.vol) > 1e-12)
            BAD("bisect", "sub elements cover volume %.15g of %.15g", tot, r.vol);
        // outer faces: exactly the bisection of the element's faces
        std::set<std::set<int>> outer, expect;
        for (auto &[f, c] : fc)
            if (c == 1)
                outer.insert(f);
            else if (c != 2)
                BAD("bisect", "a sub face belongs to %d sub elements", c);
        if (r.dim > 1)
        {
            for (int f = 0; f < e.GetNumFaces(); f++)
            {
                Element fe = e.ObtainFace(f);
                std::vector<int> fn(ref(fe.type).x.size(), -1);
                e.ExtractFaceNodes(f, ids, fn);
                for (int i = 0; i < fe.GetO2NumBisect(); i++)
                {
                    Element se = fe.ObtainO2BisectElem(i);
                    std::vector<int> sn(ref(se.type).nv, -1);
                    fe.ExtractO2BisectElemNodes(i, 0, fn, sn);
                    expect.insert(std::set<int>(sn.begin(), sn.end()));
                }
            }
            if (outer != expect)
                BAD("bisect", "outer faces of the sub elements of variant %d are not the bisected faces of the element", var);
        }
        ctx.nTraces++;
    }
    // the bisection variant uses the shortest inner diagonal
    void variant(vh::Ctx &ctx, ElemType t, int code)
    {
        Ref r = ref(t);
        Element e{t};
        std::vector<std::pair<int, int>> diag;
        if (t == Tet10)
            diag = {{4, 9}, {5, 7}, {6, 8}};
        else if (t == Pyramid14)
            diag = {{9, 11}, {10, 12}};
        tSmallCoords cs(3, r.x.size());
        double sc[3] = {1 + .5 * (code % 4), 1 + .5 * (code / 4 % 4), 1 + .5 * (code / 16 % 4)};
        double sh[3] = {.3 * (code / 64 % 3 - 1), .3 * (code / 192 % 3 - 1), .3 * (code / 576 % 3 - 1)};
        for (size_t i = 0; i < r.x.size(); i++)
        {
            V3 x = r.x[i];
            cs.col(i) = V3(sc[0] * x[0] + sh[0] * x[1] + .01 * x[2], sc[1] * x[1] + sh[1] * x[2] + .003 * x[0], sc[2] * x[2] + sh[2] * x[0]);
        }
        int v = GetO2ElemBisectVariant(e, cs);
        ctx.nTrans++;
        if (v < 0 || v >= nVariants(t))
            BAD("variant", "variant %d out of range", v);
        if (diag.empty())
            return;
        int best = 0;
        double bl = 1e300;
        for (size_t i = 0; i < diag.size(); i++)
        {
            double l = (cs.col(diag[i].first) - cs.col(diag[i].second)).norm();
            if (l < bl)
                bl = l, best = i;
        }
        std::vector<int> ids(r.x.size());
        for (size_t i = 0; i < ids.size(); i++)
            ids[i] = i;
        // which diagonal is an edge of the sub elements (through >= 2 of them)?
        double used = 1e300;
        for (size_t d = 0; d < diag.size(); d++)
        {
            int c = 0;
            for (int i = 0; i < e.GetO2NumBisect(); i++)
            {
                std::vector<int> sn(ref(e.ObtainO2BisectElem(i).type).nv, -1);
                e.ExtractO2BisectElemNodes(i, v, ids, sn);
                bool a = std::count(sn.begin(), sn.end(), diag[d].first), b = std::count(sn.begin(), sn.end(), diag[d].second);
                c += a && b;
            }
            if (c >= 4)
                used = (cs.col(diag[d].first) - cs.col(diag[d].second)).norm();
        }
        if (used > bl * (1 + 1e-12))
            BAD("variant", "variant %d does not split along the shortest diagonal %d", v, best);
        ctx.nTraces++;
    }

    void vtk(vh::Ctx &ctx, ElemType t)
    {
        Ref r = ref(t);
        Element e{t};
        std::vector<index> ids(r.x.size());
        for (size_t i = 0; i < ids.size(); i++)
            ids[i] = 1000 + 7 * index(i);
        auto out = ToVTKVertsAndData(e, ids);
        ctx.nTrans++;
        // VTK's own node positions: vertices, then centres of the listed vertex pairs
        using E = std::vector<std::pair<int, int>>;
        static const std::map<int, std::tuple<ParamSpace, int, E>> T{
            {3, {LineSpace, 2, {}}},
            {21, {LineSpace, 2, {{0, 1}}}},
            {5, {TriSpace, 3, {}}},
            {22, {TriSpace, 3, {{0, 1}, {1, 2}, {2, 0}}}},
            {9, {QuadSpace, 4, {}}},
            {23, {QuadSpace, 4, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}}},
            {10, {TetSpace, 4, {}}},
            {24, {TetSpace, 4, {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}}}},
            {12, {HexSpace, 8, {}}},
            {25, {HexSpace, 8, {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 4}, {1, 5}, {2, 6}, {3, 7}}}},
            {13, {PrismSpace, 6, {}}},
            {26, {PrismSpace, 6, {{0, 1}, {1, 2}, {2, 0}, {3, 4}, {4, 5}, {5, 3}, {0, 3}, {1, 4}, {2, 5}}}},
            {14, {PyramidSpace, 5, {}}},
            {27, {PyramidSpace, 5, {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 4}, {1, 4}, {2, 4}, {3, 4}}}}};
        std::vector<V3> want;
        if (out.first == 4) // poly line
        {
            if (r.ps != LineSpace || out.second.size() < 2)
                BAD("vtk", "poly line for %s", NAME[t]);
            for (size_t i = 0; i < out.second.size(); i++)
                want.push_back(V3(-1 + 2. * i / (out.second.size() - 1), 0, 0));
        }
        else
        {
            auto it = T.find(out.first);
            if (it == T.end() || std::get<0>(it->second) != r.ps)
                BAD("vtk", "VTK type %d for %s", out.first, NAME[t]);
            auto &[ps, nv, ed] = it->second;
            for (int i = 0; i < nv; i++)
                want.push_back(r.x[i]);
            for (auto &[a, b] : ed)
                want.push_back((r.x[a] + r.x[b]) / 2);
        }
        if (want.size() != out.second.size())
            BAD("vtk", "%d nodes exported as VTK type %d", int(out.second.size()), out.first);
        for (size_t i = 0; i < want.size(); i++)
        {
            auto it = std::find(ids.begin(), ids.end(), out.second[i]);
            if (it == ids.end() || (r.x[it - ids.begin()] - want[i]).norm() > 1e-13)
                BAD("vtk", "exported node %d is not the node VTK type %d expects there", int(i), out.first);
        }
        ctx.nTraces++;
    }

    // cellsAreFaceConnected: enumerate, for every pair of types, every way B can contain a vertex subset of A's face
    void connected(vh::Ctx &ctx, ElemType ta, ElemType tb)
    {
        Ref a = ref(ta), b = ref(tb);
        if (a.dim != b.dim || a.dim < 2)
            return;
        Element ea{ta}, eb{tb};
        std::vector<index> na(a.x.size());
        for (size_t i = 0; i < na.size(); i++)
            na[i] = 50 - 2 * index(i);
        std::vector<int> ids(a.x.size());
        for (size_t i = 0; i < ids.size(); i++)
            ids[i] = i;
        std::vector<std::set<index>> fv;
        for (int f = 0; f < ea.GetNumFaces(); f++)
        {
            auto fe = ea.ObtainFace(f);
            std::vector<int> fn(ref(fe.type).x.size());
            ea.ExtractFaceNodes(f, ids, fn);
            std::set<index> s;
            for (int i = 0; i < ref(fe.type).nv; i++)
                s.insert(na[fn[i]]);
            fv.push_back(s);
        }
        for (int m = 0; m < (1 << a.nv); m++)
        {
            std::vector<index> sh;
            for (int i = 0; i < a.nv; i++)
                if (m >> i & 1)
                    sh.push_back(na[i]);
            if ((int)sh.size() > b.nv)
                continue;
            bool want = false;
            for (auto &s : fv)
                want = want || std::includes(sh.rbegin(), sh.rend(), s.begin(), s.end());
            std::vector<index> nb(b.x.size());
            for (size_t i = 0; i < nb.size(); i++)
                nb[i] = 1000 + i;
            for (size_t i = 0; i < sh.size(); i++)
                nb[(i * 5 + 1) % b.nv == 0 && b.nv == 5 ? i : (b.nv == 5 ? i : (i * 5 + 1) % b.nv)] = sh[i];
            ctx.nTrans++;
            if (cellsAreFaceConnected(na, nb, ea, eb) != want)
                BAD("connected", "%s/%s sharing vertex mask %d: expected %d", NAME[ta], NAME[tb], m, want);
        }
        ctx.nTraces++;
    }

    void body(vh::Ctx &ctx)
    {
        int n = ctx.thorough ? 10 : 4;
        for (auto t : ALL)
        {
            if (ctx.take("%s tables", NAME[t]))
                tables(ctx, t);
            if (ctx.take("%s faces", NAME[t]))
                faces(ctx, t);
            if (ctx.take("%s elevation", NAME[t]))
                elevation(ctx, t);
            for (int v = 0; v < nVariants(t); v++)
                if (ctx.take("%s bisection variant %d", NAME[t], v))
                    bisect(ctx, t, v);
            if (ref(t).order == 2)
                for (int c = 0; c < (ref(t).dim == 3 ? 1728 : 1); c++)
                    if (ctx.take("%s variant choice code %d", NAME[t], c))
                        variant(ctx, t, c);
            if (ctx.take("%s VTK export", NAME[t]))
                vtk(ctx, t);
            for (auto tb : ALL)
                if (ctx.take("%s-%s face connection", NAME[t], NAME[tb]))
                    connected(ctx, t, tb);
            Ref r = ref(t);
            auto L = lattice(r, n);
            L.insert(L.end(), r.x.begin(), r.x.end());
            for (auto &p : L)
                if (ctx.take("%s shape functions at (%g,%g,%g)", NAME[t], p[0], p[1], p[2]))
                    shapes(ctx, t, p);
        }
    }
}
int main(int argc, char **argv)
{
    return vh::run(argc, argv, [&](vh::Ctx &ctx)
                   { DNDS::vf::body(ctx); });
}
