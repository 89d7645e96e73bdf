#pragma once
// polynomials and independent geometry of the model meshes
#include "meshrun.hpp"
namespace DNDS::vf
{
    using V3 = Eigen::Vector3d;
    // ------------------------------------------------------------ polynomials
    struct Poly
    {
        std::vector<std::array<int, 3>> e;
        std::vector<double> c;
        V3 o{0, 0, 0}; // origin
        double at(const V3 &x, int dx = 0, int dy = 0, int dz = 0) const
        {
            double s = 0;
            for (size_t i = 0; i < c.size(); i++)
            {
                double v = c[i];
                int d[3] = {dx, dy, dz};
                for (int k = 0; k < 3; k++)
                {
                    int p = e[i][k];
                    for (int q = 0; q < d[k]; q++)
                        v *= p - q;
                    v *= p >= d[k] ? std::pow(x[k] - o[k], p - d[k]) : 0;
                }
                s += v;
            }
            return s;
        }
    };
    // one polynomial per variable; degree at most deg
    template <int dim>
    static std::vector<Poly> polys(const SMesh &m, int deg, int nV)
    {
        std::vector<Poly> P(nV);
        V3 rc{m.rc[0], m.rc[1], m.rc[2]};
        auto term = [](Poly &p, int i, int j, int k, double c)
        { p.e.push_back({i, j, k}), p.c.push_back(c); };
        for (int v = 0; v < nV; v++)
        {
            auto &p = P[v];
            p.o = V3{0.3, -0.2, dim == 3 ? 0.1 : 0.};
            if (m.rot)
            {
                p.o = rc;
                if (v == 0 || v == 3)
                {
                    term(p, 0, 0, 0, 0.7 + v);
                    if (deg >= 2 && v == 0)
                        term(p, 2, 0, 0, -0.4), term(p, 0, 2, 0, -0.4);
                }
                if (v == 1)
                    term(p, 1, 0, 0, 0.6), term(p, 0, 1, 0, -0.35);
                if (v == 2)
                    term(p, 1, 0, 0, 0.35), term(p, 0, 1, 0, 0.6);
                if (v == 4)
                    term(p, 0, 0, 0, 0.3), term(p, 0, 0, 1, 0.8);
                if (dim == 3 && v == 3)
                    term(p, 0, 0, 1, 0.45);
                continue;
            }
            int dg = m.perDirs ? 1 : v == 1 ? 1 : v == 3 ? 0 : deg;
            for (int i = 0; i <= dg; i++)
                for (int j = 0; i + j <= dg; j++)
                    for (int k = 0; i + j + k <= (dim == 3 ? dg : i + j); k++)
                    {
                        unsigned h = i * 7 + j * 31 + k * 101 + v * 57 + 5;
                        h = (h * 2654435761u) >> 20;
                        term(p, i, j, k, (h % 41 - 20.5) / 20. / (1 + i + j + k));
                    }
        }
        return P;
    }
    // ------------------------------------------------------------ own integration over elements
    static void gl(int n, std::vector<double> &x, std::vector<double> &w) // on [0,1]
    {
        x.resize(n), w.resize(n);
        for (int i = 0; i < n; i++)
        {
            double t = std::cos(M_PI * (i + 0.75) / (n + 0.5)), d = 1;
            for (int it = 0; it < 60; it++)
            {
                double p0 = 1, p1 = t;
                for (int k = 2; k <= n; k++)
                {
                    double p2 = ((2 * k - 1) * t * p1 - (k - 1) * p0) / k;
                    p0 = p1, p1 = p2;
                }
                d = n * (t * p1 - p0) / (t * t - 1);
                t -= p1 / d;
            }
            x[i] = 0.5 * (1 - t), w[i] = 1 / ((1 - t * t) * d * d);
        }
    }
    struct QP
    {
        V3 p, x, n; // parametric and physical point; n: normal times area element (faces)
        double w;   // weight times volume element
    };
    // reference elements: line [-1,1], triangle, square [-1,1]^2, tetrahedron, cube, prism (triangle x [-1,1]), pyramid
    static std::vector<QP> quad(ElemType t, const std::vector<V3> &X)
    {
        Element e{t};
        std::vector<double> g, w;
        gl(6, g, w);
        std::vector<std::pair<V3, double>> q;
        int d = e.GetDim();
        auto nv = e.GetNumVertices();
        for (size_t a = 0; a < g.size(); a++)
            for (size_t b = 0; b < (d > 1 ? g.size() : 1); b++)
                for (size_t c = 0; c < (d > 2 ? g.size() : 1); c++)
                {
                    double A = g[a], B = g[b], C = g[c], W = w[a] * (d > 1 ? w[b] : 1) * (d > 2 ? w[c] : 1);
                    if (d == 1)
                        q.push_back({V3{2 * A - 1, 0, 0}, 2 * W});
                    else if (d == 2 && nv == 3)
                        q.push_back({V3{A, B * (1 - A), 0}, W * (1 - A)});
                    else if (d == 2)
                        q.push_back({V3{2 * A - 1, 2 * B - 1, 0}, 4 * W});
                    else if (nv == 4)
                        q.push_back({V3{A, B * (1 - A), C * (1 - A) * (1 - B)}, W * (1 - A) * (1 - A) * (1 - B)});
                    else if (nv == 8)
                        q.push_back({V3{2 * A - 1, 2 * B - 1, 2 * C - 1}, 8 * W});
                    else if (nv == 6)
                        q.push_back({V3{A, B * (1 - A), 2 * C - 1}, 2 * W * (1 - A)});
                    else
                        q.push_back({V3{(2 * A - 1) * (1 - C), (2 * B - 1) * (1 - C), C}, 4 * W * (1 - C) * (1 - C)});
                }
        std::vector<QP> r;
        for (auto &[p, W] : q)
        {
            Elem::tD01Nj D;
            e.GetD01Nj(p, D);
            QP o;
            o.p = p, o.x.setZero(), o.n.setZero();
            Eigen::Matrix3d J = Eigen::Matrix3d::Zero();
            for (size_t i = 0; i < X.size(); i++)
            {
                o.x += D(0, i) * X[i];
                for (int k = 0; k < d; k++)
                    J.col(k) += D(1 + k, i) * X[i];
            }
            if (d == 3)
                o.w = W * J.determinant();
            else if (d == 2)
                o.n = J.col(0).cross(J.col(1)) * W, o.w = o.n.norm();
            else
                o.n = V3{J(1, 0), -J(0, 0), 0} * W, o.w = o.n.norm();
            r.push_back(o);
        }
        return r;
    }
    static std::vector<V3> coords(const SMesh &m, const IV &n)
    {
        std::vector<V3> X;
        for (int v : n)
            X.push_back(V3{m.X[v][0], m.X[v][1], m.X[v][2]});
        return X;
    }
    struct Geo // geometry of the model
    {
        struct C
        {
            double vol;
            V3 bary;
            std::vector<QP> q;
            std::vector<double> area;
            std::vector<V3> nA; // integral of the outward normal per local face
            std::vector<V3> fb; // face barycentre
        };
        std::vector<C> c;
        double vol = 0;
        bool affineFaces = true, boxes = true; // faces are parallelograms or triangles; cells are axis-parallel boxes
        bool rational = false; // pyramids whose map is not affine
    };
    static Geo geometry(const SMesh &m)
    {
        Geo g;
        for (auto &c : m.c)
        {
            Geo::C o;
            auto X = coords(m, c.n);
            o.q = quad(c.t, X);
            o.vol = 0, o.bary.setZero();
            for (auto &q : o.q)
                o.vol += q.w, o.bary += q.w * q.x;
            o.bary /= o.vol;
            Element e{c.t};
            if (e.GetNumVertices() == 5 && e.GetDim() == 3)
                if ((X[0] - X[1] + X[2] - X[3]).norm() > 1e-12)
                    g.rational = true;
            g.boxes &= e.GetNumVertices() == (m.dim == 2 ? 4 : 8);
            for (int d = 0; d < m.dim; d++)
            {
                double lo = 1e300, hi = -1e300;
                for (auto &x : X)
                    lo = std::min(lo, x[d]), hi = std::max(hi, x[d]);
                for (auto &x : X)
                    g.boxes &= std::abs(x[d] - lo) < 1e-12 || std::abs(x[d] - hi) < 1e-12;
            }
            for (int f = 0; f < e.GetNumFaces(); f++)
            {
                auto fn = coords(m, faceNodes(c, f));
                if (m.dim == 3 && e.ObtainFace(f).GetNumVertices() == 4 && (fn[0] - fn[1] + fn[2] - fn[3]).norm() > 1e-12)
                    g.affineFaces = false;
                auto fq = quad(e.ObtainFace(f).type, coords(m, faceNodes(c, f)));
                double A = 0;
                V3 n = V3::Zero(), b = V3::Zero();
                for (auto &q : fq)
                    A += q.w, n += q.n, b += q.w * q.x;
                o.area.push_back(A), o.nA.push_back(n), o.fb.push_back(b / A);
            }
            g.vol += o.vol;
            g.c.push_back(o);
        }
        return g;
    }
    static SMesh flat(SMesh m) // undo the distortion: boxes
    {
        for (auto &x : m.X)
            for (int d = 0; d < 3; d++)
                x[d] = std::round(x[d] * 2) / 2;
        for (auto &x : m.X)
            if (!(m.perDirs & 1))
                x[0] = x[0] * (1 + 0.1 * x[0]);
        m.name += "_flat";
        finish(m);
        return m;
    }
}
