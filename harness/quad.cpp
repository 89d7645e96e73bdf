// C18: quadrature rules. All parameter spaces / element types x all supported orders x all monomials.
#include "Geom/Quadrature.hpp"
#include "vh.hpp"
namespace DNDS::vf
{
    using namespace DNDS::Geom;
    using namespace DNDS::Geom::Elem;
    using V3 = Eigen::Vector3d;
    const char *PN[] = {"?", "Line", "Tri", "Quad", "Tet", "Hex", "Prism", "Pyramid"};
    const char *NAME[] = {"?", "Line2", "Tri3", "Quad4", "Tet4", "Hex8", "Prism6", "Pyramid5", "Line3", "Tri6", "Quad9", "Tet10", "Hex27", "Prism18", "Pyramid14"};
    double fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
    double seg(int a) { return a % 2 ? 0 : 2. / (a + 1); }
    double exact(int ps, int a, int b, int c)
    {
        switch (ps)
        {
        case LineSpace:
            return seg(a);
        case TriSpace:
            return fact(a) * fact(b) / fact(a + b + 2);
        case QuadSpace:
            return seg(a) * seg(b);
        case TetSpace:
            return fact(a) * fact(b) * fact(c) / fact(a + b + c + 3);
        case HexSpace:
            return seg(a) * seg(b) * seg(c);
        case PrismSpace:
            return fact(a) * fact(b) / fact(a + b + 2) * seg(c);
        case PyramidSpace: // x=(1-z)s: int (1-z)^(a+b+2) z^c dz
            return seg(a) * seg(b) * fact(a + b + 2) * fact(c) / fact(a + b + c + 3);
        }
        abort();
    }
    int dimOf(int ps) { return ps == LineSpace ? 1 : ps <= QuadSpace ? 2
                                                                     : 3; }
    bool inside(int ps, const V3 &p)
    {
        double e = 1e-12;
        auto seg1 = [&](double v)
        { return std::abs(v) <= 1 + e; };
        for (int d = dimOf(ps); d < 3; d++)
            if (p[d] != 0)
                return false;
        switch (ps)
        {
        case LineSpace:
            return seg1(p[0]);
        case TriSpace:
            return p[0] >= -e && p[1] >= -e && p[0] + p[1] <= 1 + e;
        case QuadSpace:
            return seg1(p[0]) && seg1(p[1]);
        case TetSpace:
            return p[0] >= -e && p[1] >= -e && p[2] >= -e && p.sum() <= 1 + e;
        case HexSpace:
            return seg1(p[0]) && seg1(p[1]) && seg1(p[2]);
        case PrismSpace:
            return p[0] >= -e && p[1] >= -e && p[0] + p[1] <= 1 + e && seg1(p[2]);
        case PyramidSpace:
            return p[2] >= -e && p[2] <= 1 + e && std::abs(p[0]) <= 1 - p[2] + e && std::abs(p[1]) <= 1 - p[2] + e;
        }
        return false;
    }
#define BAD(key, ...)               \
    do                              \
    {                               \
        ctx.fail(key, __VA_ARGS__); \
        return;                     \
    } while (0)

    void rule(vh::Ctx &ctx, int ps, int order, int a, int b, int c)
    {
        int n = GetQuadratureScheme(ParamSpace(ps), order);
        if (n <= 0)
            BAD("scheme", "no scheme");
        double s = 0, v = 0;
        std::vector<V3> pts;
        vh::Hash h;
        for (int i = 0; i < n; i++)
        {
            V3 p(0, 0, 0);
            double w = NAN;
            GetQuadraturePoint(ParamSpace(ps), n, i, p, w);
            ctx.nTrans++;
            if (!inside(ps, p))
                BAD("inside", "point %d (%g,%g,%g) is outside", i, p[0], p[1], p[2]);
            if (!(w > 0))
                BAD("positive", "weight %d is %g", i, w);
            for (auto &q : pts)
                if ((q - p).norm() < 1e-8)
                    BAD("distinct", "point %d is repeated", i);
            pts.push_back(p);
            s += w * std::pow(p[0], a) * std::pow(p[1], b) * std::pow(p[2], c);
            v += w;
            h.add(w).add(p[0]).add(p[1]).add(p[2]);
        }
        h.add(s);
        ctx.state(h.h);
        if (std::abs(v - ParamSpaceVol(ParamSpace(ps))) > 1e-11 || std::abs(v - exact(ps, 0, 0, 0)) > 1e-11)
            BAD("volume", "weights sum to %.15g", v);
        if (std::abs(s - exact(ps, a, b, c)) > 2e-12)
            BAD("exact", "integral of x^%d y^%d z^%d is %.15g, exact %.15g", a, b, c, s, exact(ps, a, b, c));
        ctx.nTraces++;
    }
    void integrate(vh::Ctx &ctx, int t, int order)
    {
        Element e{ElemType(t)};
        Quadrature q(e, order);
        int n = q.GetNumPoints();
        if (n != GetQuadratureScheme(e.GetParamSpace(), order))
            BAD("npoints", "GetNumPoints %d", n);
        std::vector<V3> P(n);
        std::vector<double> W(n);
        for (int i = 0; i < n; i++)
        {
            P[i].setZero();
            GetQuadraturePoint(e.GetParamSpace(), n, i, P[i], W[i]);
            auto [p, w] = q.GetQuadraturePointInfo(i);
            if ((p - P[i]).norm() != 0 || w != W[i])
                BAD("info", "GetQuadraturePointInfo(%d) differs", i);
        }
        // Integration: every point once, own parameters, own shape functions, own weight
        std::vector<int> cnt(n, 0);
        bool bad = false;
        Eigen::VectorXd acc = Eigen::VectorXd::Constant(n, 0.25);
        using VX = Eigen::VectorXd;
        q.Integration(acc, [&](VX &inc, int iG, const tPoint &p, const tD01Nj &D)
                      {
            ctx.nTrans++;
            inc = VX::Zero(n);
            if (iG < 0 || iG >= n) { bad = true; return; }
            cnt[iG]++;
            inc[iG] = 1;
            tD01Nj W01;
            e.GetD01Nj(P[iG], W01);
            if ((p - P[iG]).norm() != 0 || D.rows() != 4 || D.cols() != W01.cols() || (D - W01).cwiseAbs().maxCoeff() > 1e-12) bad = true; });
        if (bad)
            BAD("callback", "Integration passes wrong arguments");
        for (int i = 0; i < n; i++)
            if (cnt[i] != 1 || std::abs(acc[i] - .25 - W[i]) > 1e-14)
                BAD("visit", "Integration visits point %d %d times with weight %g", i, cnt[i], acc[i] - .25);
        for (int form = 0; form < 2; form++)
        {
            std::fill(cnt.begin(), cnt.end(), 0);
            acc.setConstant(-.5);
            if (form == 0)
                q.IntegrationSimple(acc, [&](VX &inc, int iG)
                                    { inc = VX::Zero(n); inc[iG] = 1; cnt[iG]++; ctx.nTrans++; });
            else
                q.IntegrationSimple(acc, [&](VX &inc, int iG, real w)
                                    { inc = VX::Zero(n); inc[iG] = 1; cnt[iG]++; ctx.nTrans++; if (w != W[iG]) bad = true; });
            for (int i = 0; i < n; i++)
                if (bad || cnt[i] != 1 || std::abs(acc[i] + .5 - W[i]) > 1e-14)
                    BAD("visit", "IntegrationSimple visits point %d %d times with weight %g", i, cnt[i], acc[i] + .5);
        }
        double sc = 0;
        q.Integration(sc, [&](double &inc, int, const tPoint &, const tD01Nj &)
                      { inc = 1; });
        if (std::abs(sc - ParamSpaceVol(e.GetParamSpace())) > 1e-11)
            BAD("volume", "integral of one is %.15g", sc);
        ctx.nTraces++;
    }
    // triangulation of a face through its nodes and quadrature points
    void patches(vh::Ctx &ctx, int t, int order)
    {
        Element e{ElemType(t)};
        Quadrature q(e, order);
        auto pt = GetQuadPatches(q);
        ctx.nTrans++;
        auto sc = GetStandardCoord(e.type);
        auto at = [&](int i) -> V3
        {
            if (i > 0)
                return sc.col(i - 1);
            return std::get<0>(q.GetQuadraturePointInfo(-i - 1));
        };
        double tot = 0;
        for (auto &tr : pt)
        {
            for (int k = 0; k < (e.GetDim() == 1 ? 2 : 3); k++)
                if (tr[k] == 0 || tr[k] > e.GetNumNodes() || -tr[k] > q.GetNumPoints())
                    BAD("patch", "patch refers to %d", tr[k]);
            double m;
            if (e.GetDim() == 1)
                m = (at(tr[1]) - at(tr[0]))[0];
            else
                m = (at(tr[1]) - at(tr[0])).cross(at(tr[2]) - at(tr[0]))[2] / 2;
            tot += std::abs(m);
        }
        if (std::abs(tot - ParamSpaceVol(e.GetParamSpace())) > 1e-9)
            BAD("patch", "patches cover %.15g of %.15g", tot, ParamSpaceVol(e.GetParamSpace()));
        ctx.nTraces++;
    }
    void body(vh::Ctx &ctx)
    {
        for (int ps = 1; ps < ParamSpace_NUM; ps++)
            for (int o = 0; o <= INT_ORDER_MAX; o++)
                for (int a = 0; a <= o; a++)
                    for (int b = 0; b <= (dimOf(ps) > 1 ? o - a : 0); b++)
                        for (int c = 0; c <= (dimOf(ps) > 2 ? o - a - b : 0); c++)
                            if (ctx.take("%s order %d monomial x^%d y^%d z^%d", PN[ps], o, a, b, c))
                                rule(ctx, ps, o, a, b, c);
        // tensor rules: the requested degree in each variable of the product
        for (int ps : {QuadSpace, HexSpace, PrismSpace})
            for (int o = 0; o <= INT_ORDER_MAX; o++)
                for (int a = 0; a <= o; a++)
                    for (int b = 0; b <= (ps == PrismSpace ? o - a : o); b++)
                        for (int c = 0; c <= (ps == QuadSpace ? 0 : o); c++)
                            if (ctx.take("%s order %d product monomial x^%d y^%d z^%d", PN[ps], o, a, b, c))
                                rule(ctx, ps, o, a, b, c);
        for (int t = 1; t < ElemType_NUM; t++)
            for (int o = 0; o <= INT_ORDER_MAX; o++)
                if (ctx.take("%s order %d integration", NAME[t], o))
                    integrate(ctx, t, o);
        for (int t : {Line2, Line3, Tri3, Tri6, Quad4, Quad9})
            for (int o = 0; o <= INT_ORDER_MAX; o++)
                if (ctx.take("%s order %d patches", NAME[t], o))
                    patches(ctx, t, o);
    }
}
int main(int argc, char **argv)
{
    return vh::run(argc, argv, [&](vh::Ctx &ctx)
                   { DNDS::vf::body(ctx); });
}
