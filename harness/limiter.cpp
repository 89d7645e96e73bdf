// C24: slope limiters. All argument tuples over a grid of magnitudes and signs, all limiters, all shapes.
#include "DNDS/HardEigen.hpp"
#include "CFV/Limiters.hpp"
#include "vh.hpp"
namespace DNDS::vf
{
    using A = Eigen::ArrayXXd;
    using namespace DNDS::CFV;
#define BAD(key, ...)               \
    do                              \
    {                               \
        ctx.fail(key, __VA_ARGS__); \
        return;                     \
    } while (0)
    const std::vector<double> G{0, 1, -1, 2, -2, .5, -.5, 1e-3, -1e-3, 1e3, -1e3, 1e-9, 1.0000001, -1e9};
    const char *BN[] = {"WBAP", "WBAP-cut", "minmod", "van Leer"};
    typedef long double ld;
    // definitions
    double biway(int f, double a, double b, double n)
    {
        if (b == 0 || (f != 0 && a * b <= 0))
            return 0;
        ld a4 = (ld)a * a * a * a, b4 = (ld)b * b * b * b;
        switch (f)
        {
        case 0:
        case 1: // weights 1/a^4 (n-fold) and 1/b^4
            return (n * a * b4 + b * a4) / (n * b4 + a4);
        case 2:
            return a > 0 ? std::min(a, b) : std::max(a, b);
        default:
            return 2 * (ld)a * b / ((ld)a + b);
        }
    }
    template <class TA>
    void callBiway(int f, const TA &a, const TA &b, TA &o, double n)
    {
        switch (f)
        {
        case 0:
            return FWBAP_L2_Biway(a, b, o, n);
        case 1:
            return FWBAP_L2_Cut_Biway(a, b, o, n);
        case 2:
            return FMINMOD_Biway(a, b, o, n);
        case 3:
            return FVanLeer_Biway(a, b, o, n);
        }
    }
    bool near(double x, double y, double s) { return std::abs(x - y) <= 1e-11 * s; }
    template <class TA>
    void pairs(vh::Ctx &ctx, int f, int rows, int cols, double n)
    {
        int N = G.size();
        // every ordered pair appears at every position of the array
        for (int off = 0; off < N * N; off++)
        {
            TA a(rows, cols), b(rows, cols), o, os, o2, om;
            for (int i = 0; i < rows * cols; i++)
            {
                int k = (off + i * 37) % (N * N);
                a(i % rows, i / rows) = G[k / N];
                b(i % rows, i / rows) = G[k % N];
            }
            TA a0 = a, b0 = b;
            callBiway(f, a, b, o, n);
            callBiway(f, b, a, os, n);
            TA a2 = a * 4., b2 = b * 4., am = -a, bm = -b;
            callBiway(f, a2, b2, o2, n);
            callBiway(f, am, bm, om, n);
            ctx.nTrans += 4;
            if ((a != a0).any() || (b != b0).any())
                BAD("input", "arguments changed");
            if (o.rows() != rows || o.cols() != cols)
                BAD("shape", "result has another shape");
            for (int i = 0; i < rows; i++)
                for (int j = 0; j < cols; j++)
                {
                    double x = a(i, j), y = b(i, j), v = o(i, j), w = biway(f, x, y, n), s = std::abs(x) + std::abs(y);
                    ctx.state(vh::Hash().add(f).add(x).add(y).add(n).add(float(v)).h);
                    ctx.nTraces++;
                    if (!std::isfinite(v))
                        BAD("finite", "f(%g,%g)=%g", x, y, v);
                    if (x == y && !near(v, x, s))
                        BAD("agree", "f(%g,%g)=%.15g", x, y, v);
                    if (v < std::min({x, y}) - 1e-12 * s || v > std::max({x, y}) + 1e-12 * s)
                        if (!(y == 0 && v == 0))
                            BAD("bound", "f(%g,%g)=%.15g is not between its arguments", x, y, v);
                    if (f != 0 && x * y < 0 && v != 0)
                        BAD("sign", "f(%g,%g)=%.15g at a sign change", x, y, v);
                    if (!near(v, w, s))
                        BAD("value", "f(%g,%g)=%.15g, defined as %.15g", x, y, v, w);
                    if ((n == 1 || f >= 2) && x != 0 && y != 0 && !near(v, os(i, j), s))
                        BAD("swap", "f(%g,%g)=%.15g but f(%g,%g)=%.15g", x, y, v, y, x, os(i, j));
                    if (!near(o2(i, j), 4 * v, 4 * s) || !near(om(i, j), -v, s))
                        BAD("scale", "f(%g,%g)=%.15g, scaled by 4: %.15g, by -1: %.15g", x, y, v, o2(i, j), om(i, j));
                }
        }
    }
    void multi(vh::Ctx &ctx, int m, double n1)
    {
        // all m-tuples over a smaller grid, in blocks of rows x cols
        std::vector<double> g{0, 1, -1, 2, -.5, 1e-3};
        long tot = std::pow(g.size(), m) + .5;
        int rows = 2, cols = 3;
        for (long c = 0; c < tot; c++)
        {
            std::vector<A> u(m, A(rows, cols)), ur, u4;
            for (int e = 0; e < rows * cols; e++)
            {
                long v = (c + e * (tot / 6 + 1)) % tot;
                for (int k = 0; k < m; k++)
                    u[k](e % rows, e / rows) = g[v % g.size()], v /= g.size();
            }
            A o, orv, o4;
            FWBAP_L2_Multiway(u, m, o, n1);
            ur = u;
            std::reverse(ur.begin() + 1, ur.end());
            FWBAP_L2_Multiway(ur, m, orv, n1);
            for (auto &i : u)
                u4.push_back(i * -8.);
            FWBAP_L2_Multiway(u4, m, o4, n1);
            ctx.nTrans += 3;
            for (int e = 0; e < rows * cols; e++)
            {
                int i = e % rows, j = e / rows;
                double lo = 1e300, hi = -1e300, s = 0;
                bool zero = false, same = true;
                ld up = 0, dn = 0;
                std::string d;
                for (int k = 0; k < m; k++)
                {
                    double x = u[k](i, j);
                    lo = std::min(lo, x), hi = std::max(hi, x), s = std::max(s, std::abs(x));
                    d += vh::fmts("%g ", x);
                    same = same && x == u[0](i, j);
                    if (x == 0)
                        zero = true;
                    else
                    {
                        ld w = (k ? 1 : n1) / ((ld)x * x * x * x);
                        up += w * x, dn += w;
                    }
                }
                double v = o(i, j), w = zero ? 0 : double(up / dn);
                ctx.nTraces++;
                ctx.state(vh::Hash().add(m).add(n1).add(float(v)).h);
                if (!std::isfinite(v))
                    BAD("finite", "multiway(%s)=%g", d.c_str(), v);
                if (same && !near(v, u[0](i, j), s))
                    BAD("agree", "multiway(%s)=%g", d.c_str(), v);
                if (v < lo - 1e-12 * s || v > hi + 1e-12 * s)
                    BAD("bound", "multiway(%s)=%g", d.c_str(), v);
                if (!near(v, w, s))
                    BAD("value", "multiway(%s)=%.15g, defined as %.15g", d.c_str(), v, w);
                if (!near(v, orv(i, j), s) || !near(o4(i, j), -8 * v, 8 * s))
                    BAD("scale", "multiway(%s)=%.15g, other order %.15g, scaled by -8 %.15g", d.c_str(), v, orv(i, j), o4(i, j));
            }
        }
    }
    // squared norm of a homogeneous polynomial given by its monomial coefficients: Frobenius norm of the symmetric tensor
    double norm2(const Eigen::ArrayXd &c, int dim)
    {
        int n = c.size();
        static const double W2[] = {1, 1}, W3[] = {1, .5, 1}, W4[] = {1, 1. / 3, 1. / 3, 1};
        static const double V3[] = {1, 1, 1}, V6[] = {1, 1, 1, .5, .5, .5}, V10[] = {1, 1, 1, 1. / 3, 1. / 3, 1. / 3, 1. / 3, 1. / 3, 1. / 3, 1. / 6};
        const double *w = dim == 2 ? (n == 2 ? W2 : n == 3 ? W3
                                                           : W4)
                          : dim == 3 ? (n == 3 ? V3 : n == 6 ? V6
                                                             : V10)
                                     : nullptr;
        double s = 0;
        for (int i = 0; i < n; i++)
            s += (w ? w[i] : 1.) * c(i) * c(i);
        return s;
    }
    // the polynomial in a rotated frame (2-D): p(c x - s y, s x + c y)
    Eigen::ArrayXd rot2(const Eigen::ArrayXd &c, double th)
    {
        int d = c.size() - 1;
        double co = std::cos(th), si = std::sin(th);
        Eigen::ArrayXd r = Eigen::ArrayXd::Zero(d + 1);
        for (int k = 0; k <= d; k++) // x^(d-k) y^k
        {
            std::vector<double> p{1.};
            auto mul = [&](double a, double b) // times (a x + b y); p indexed by power of y
            { std::vector<double> q(p.size() + 1, 0.); for (size_t i = 0; i < p.size(); i++) q[i] += a * p[i], q[i + 1] += b * p[i]; p = q; };
            for (int i = 0; i < d - k; i++)
                mul(co, -si);
            for (int i = 0; i < k; i++)
                mul(si, co);
            for (int i = 0; i <= d; i++)
                r(i) += c(k) * p[i];
        }
        return r;
    }
    const char *PN[] = {"WBAP norm biway", "MEMM biway", "WBAP orth biway", "WBAP norm multiway", "MEMM multiway", "WBAP orth multiway"};
    template <int dim, int nv>
    void callPoly(int f, const std::vector<A> &u, A &o, double n)
    {
        Eigen::Array<real, Eigen::Dynamic, nv> a = u[0], b = u[1], oo;
        switch (f)
        {
        case 0:
            FWBAP_L2_Biway_PolynomialNorm<dim, nv>(a, b, oo, n);
            o = oo;
            break;
        case 1:
            FMEMM_Biway_PolynomialNorm<dim, nv>(a, b, oo, n);
            o = oo;
            break;
        case 2:
            FWBAP_L2_Biway_PolynomialOrth(u[0], u[1], o, n);
            break;
        case 3:
            FWBAP_L2_Multiway_Polynomial2D(u, u.size(), o, n);
            break;
        case 4:
        {
            std::vector<A> v(u.begin() + 1, u.end());
            FMEMM_Multiway_Polynomial2D(u[0], v, v.size(), o, n);
            break;
        }
        case 5:
            FWBAP_L2_Multiway_PolynomialOrth(u, u.size(), o, n);
            break;
        }
    }
    template <int dim, int nv>
    void poly(vh::Ctx &ctx, int f, int rows, int cols, int m, double n)
    {
        int nd = (f == 2 || f == 5) ? 0 : dim; // orthogonal variants use the plain norm
        // vectors: axis vectors and two mixed ones, times magnitudes
        std::vector<Eigen::ArrayXd> vs;
        vs.push_back(Eigen::ArrayXd::Zero(rows));
        for (int i = 0; i < rows; i++)
        {
            Eigen::ArrayXd v = Eigen::ArrayXd::Zero(rows);
            v(i) = i % 2 ? -1.5 : 1;
            vs.push_back(v);
        }
        Eigen::ArrayXd mx(rows), my(rows);
        for (int i = 0; i < rows; i++)
            mx(i) = .3 * (i + 1) - 1.1, my(i) = .2 * (rows - i);
        vs.push_back(mx), vs.push_back(my), vs.push_back(1e-3 * mx), vs.push_back(-my), vs.push_back(1e4 * my);
        int N = vs.size();
        long tot = std::pow(N, m) + .5;
        for (long c = 0; c < tot; c++)
        {
            std::vector<A> u(m, A(rows, cols));
            for (int j = 0; j < cols; j++)
            {
                long v = (c + j * (tot / 7 + 1)) % tot;
                for (int k = 0; k < m; k++)
                    u[k].col(j) = vs[v % N], v /= N;
            }
            A o, o8, orv, orot;
            callPoly<dim, nv>(f, u, o, n);
            auto u8 = u;
            for (auto &i : u8)
                i *= -8.;
            callPoly<dim, nv>(f, u8, o8, n);
            auto ur = u;
            std::reverse(ur.begin() + (n == 1 ? 0 : 1), ur.end());
            callPoly<dim, nv>(f, ur, orv, n);
            bool doRot = dim == 2 && nd == 2;
            if (doRot)
            {
                auto ut = u;
                for (auto &i : ut)
                    for (int j = 0; j < cols; j++)
                        i.col(j) = rot2(i.col(j), .7);
                callPoly<dim, nv>(f, ut, orot, n);
            }
            ctx.nTrans += 3 + doRot;
            if (o.rows() != rows || o.cols() != cols)
                BAD("shape", "result is %dx%d", int(o.rows()), int(o.cols()));
            for (int j = 0; j < cols; j++)
            {
                double s = 0, mn = 1e300;
                std::vector<double> nn;
                bool same = true;
                for (int k = 0; k < m; k++)
                {
                    nn.push_back(norm2(u[k].col(j), nd));
                    s = std::max(s, u[k].col(j).abs().maxCoeff()), mn = std::min(mn, nn.back());
                    same = same && (u[k].col(j) == u[0].col(j)).all();
                }
                if (s == 0)
                    s = 1e-12;
                std::string d;
                for (int k = 0; k < m; k++)
                {
                    d += "(";
                    for (int i = 0; i < rows; i++)
                        d += vh::fmts("%g ", u[k](i, j));
                    d += ")";
                }
                Eigen::ArrayXd v = o.col(j), w = Eigen::ArrayXd::Zero(rows);
                ctx.nTraces++;
                ctx.state(vh::Hash().add(f).add(dim).add(rows).add(float(v(0))).add(float(v(rows - 1))).h);
                if (!v.isFinite().all())
                    BAD("finite", "%s is not finite", d.c_str());
                if (same && (v - u[0].col(j)).abs().maxCoeff() > 1e-10 * s)
                    BAD("agree", "%s: not the common value", d.c_str());
                bool tie = false;
                if (f == 1 || f == 4)
                {
                    // the argument of smallest norm
                    int cnt = 0;
                    for (int k = 0; k < m; k++)
                        if (nn[k] <= mn * (1 + 1e-9))
                            w = u[k].col(j), cnt++;
                    tie = cnt > 1;
                    if (f == 4) // arguments of equal norm are averaged on the way
                        for (int k = 0; k < m; k++)
                            for (int l = 0; l < k; l++)
                                tie = tie || std::abs(nn[k] - nn[l]) <= 1e-9 * nn[k];
                    if (tie)
                    {
                        if (norm2(v, nd) > mn * (1 + 1e-9) + 1e-300)
                            BAD("bound", "%s: result is larger than the smallest argument", d.c_str());
                    }
                }
                else if (mn > 0)
                {
                    ld dn = 0;
                    Eigen::Array<ld, -1, 1> up = Eigen::Array<ld, -1, 1>::Zero(rows);
                    for (int k = 0; k < m; k++)
                    {
                        ld wt = (k ? 1 : n) / ((ld)nn[k] * nn[k]);
                        dn += wt;
                        for (int i = 0; i < rows; i++)
                            up(i) += wt * u[k](i, j);
                    }
                    for (int i = 0; i < rows; i++)
                        w(i) = double(up(i) / dn);
                }
                if (!tie)
                    if ((v - w).abs().maxCoeff() > 1e-9 * s)
                        BAD("value", "%s: result (%g %g ..), defined as (%g %g ..)", d.c_str(), v(0), v(1), w(0), w(1));
                if ((o8.col(j) + 8. * v).abs().maxCoeff() > 1e-9 * s)
                    BAD("scale", "%s: result does not scale", d.c_str());
                if (!tie && (orv.col(j) - v).abs().maxCoeff() > 1e-9 * s)
                    BAD("swap", "%s: result depends on the order of the arguments", d.c_str());
                if (doRot && !tie && (orot.col(j) - rot2(v, .7)).abs().maxCoeff() > 1e-8 * s)
                    BAD("rotate", "%s: result depends on the orientation of the frame", d.c_str());
            }
        }
    }
    void body(vh::Ctx &ctx)
    {
        for (int f = 0; f < 4; f++)
            for (int r : {1, 2, 3, 6})
                for (int c : {1, 4, 5})
                    for (double n : {1., 10., .5})
                        if (ctx.take("%s of %dx%d arrays, centre weight %g", BN[f], r, c, n))
                        {
                            pairs<A>(ctx, f, r, c, n);
                            if (c == 5)
                                pairs<Eigen::Array<real, -1, 5>>(ctx, f, r, c, n);
                        }
        for (int m = 1; m <= (ctx.thorough ? 6 : 5); m++)
            for (double n1 : {1., 10., .25})
                if (ctx.take("WBAP multiway of %d arguments, centre weight %g", m, n1))
                    multi(ctx, m, n1);
        for (int f = 0; f < 6; f++)
            for (int m = 2; m <= (f < 3 ? 2 : 3); m++)
                for (int cols : {1, 5})
                    for (double n : {1., 4.})
                    {
                        if ((f == 1 || f == 4) && n != 1)
                            continue; // no weights
                        for (int rows : {2, 3, 4})
                            if (ctx.take("%s 2-D %dx%d, %d arguments, weight %g", PN[f], rows, cols, m, n))
                            {
                                poly<2, -1>(ctx, f, rows, cols, m, n);
                                if (cols == 5)
                                    poly<2, 5>(ctx, f, rows, cols, m, n);
                            }
                        if (f == 3 || f == 4)
                            continue; // two-dimensional only
                        for (int rows : {3, 6, 10})
                            if (ctx.take("%s 3-D %dx%d, %d arguments, weight %g", PN[f], rows, cols, m, n))
                                poly<3, -1>(ctx, f, rows, cols, m, n);
                    }
    }
}
int main(int argc, char **argv)
{
    return vh::run(argc, argv, [&](vh::Ctx &ctx)
                   { DNDS::vf::body(ctx); });
}
