// Uniform access to the derived array types: sizing, writing and checking rows of given shapes
#pragma once
#include "vh.hpp"
#include "DNDS/ArrayTransformer.hpp"
#include "DNDS/ArrayPair.hpp"
#include "DNDS/ArrayDerived/ArrayAdjacency.hpp"
#include "DNDS/ArrayDerived/ArrayEigenVector.hpp"
#include "DNDS/ArrayDerived/ArrayEigenMatirx.hpp"
#include "DNDS/ArrayDerived/ArrayEigenMatrixBatch.hpp"
#include "DNDS/ArrayDerived/ArrayEigenUniMatrixBatch.hpp"

namespace DNDS::vf
{
    using Shape = std::vector<std::pair<int, int>>; // list of matrices (r,c) of a row; vectors are one (len,1)
    static std::string s2s(const Shape &s)
    {
        std::string r = "{";
        for (auto &p : s)
            r += vh::fmts("%dx%d ", p.first, p.second);
        return r + "}";
    }
    static real val(int tag, int k, int r, int c) { return tag * 1000.0 + k * 100 + r * 10 + c + 0.5; }
    static index ival(int tag, int k, int r, int c) { return (index(tag) << 34) + k * 100 + r * 10 + c; }
    struct Caps
    {
        bool uniform = false;  // all rows have the same shape, given at array sizing
        std::vector<Shape> alphabet;
        bool csr = false;      // can be compressed; sizing needs decompression
        bool resizable = true; // single rows can be resized
    };

    // ---------------- adapters
    template <rowsize rs, rowsize rm>
    struct AdjA
    {
        using Arr = ArrayAdjacency<rs, rm>;
        static constexpr DataLayout L = Arr::_dataLayout;
        static Caps caps()
        {
            Caps c;
            c.csr = L == CSR;
            c.uniform = c.uniform || isTABLE_Fixed(L);
            c.resizable = !isTABLE_Fixed(L);
            if (rs >= 0)
                c.alphabet = {{{(int)rs, 1}}};
            else
                c.alphabet = {{{0, 1}}, {{1, 1}}, {{2, 1}}};
            return c;
        }
        static void size(Arr &a, index n, const std::vector<Shape> &sh)
        {
            if (L == CSR)
                a.Resize(n);
            else if (isTABLE_Fixed(L))
                a.Resize(n, rs >= 0 ? rs : (sh.empty() ? 2 : sh[0][0].first));
            else
                a.Resize(n, rm >= 0 ? rm : 2);
        }
        static void sizeRow(Arr &a, index i, const Shape &s)
        {
            if (!isTABLE_Fixed(L))
                a.ResizeRow(i, s[0].first);
        }
        static void write(Arr &a, index i, const Shape &s, int tag, int how)
        {
            std::vector<index> v;
            for (int j = 0; j < s[0].first; j++)
                v.push_back(ival(tag, 0, j, 0));
            if (how == 0)
                a[i] = v;
            else if (how == 1)
                for (int j = 0; j < s[0].first; j++)
                    a(i, j) = v[j];
            else if (how == 2)
            {
                auto r = a[i];
                int j = 0;
                for (auto &x : r)
                    x = v[j++];
            }
            else
                for (int j = 0; j < s[0].first; j++)
                    a.rowPtr(i)[j] = v[j];
        }
        template <class TA>
        static bool ok(TA &a, index i, const Shape &s, int tag)
        {
            if (a.RowSize(i) != s[0].first)
                return false;
            auto r = a[i];
            std::vector<index> v = r;
            if (r.size() != s[0].first || (int)v.size() != s[0].first || r.end() - r.begin() != s[0].first)
                return false;
            for (int j = 0; j < s[0].first; j++)
                if (a(i, j) != ival(tag, 0, j, 0) || r[j] != ival(tag, 0, j, 0) || v[j] != ival(tag, 0, j, 0) || r.begin()[j] != v[j])
                    return false;
            return true;
        }
        static constexpr int nHow = 4;
    };
    struct IdxA
    {
        using Arr = ArrayIndex;
        static constexpr DataLayout L = TABLE_StaticFixed;
        static Caps caps()
        {
            Caps c;
            c.uniform = true, c.resizable = false;
            c.alphabet = {{{1, 1}}};
            return c;
        }
        static void size(Arr &a, index n, const std::vector<Shape> &) { a.Resize(n); }
        static void sizeRow(Arr &, index, const Shape &) {}
        static void write(Arr &a, index i, const Shape &, int tag, int how)
        {
            if (how == 0)
                a[i] = ival(tag, 0, 0, 0);
            else
                *a.rowPtr(i) = ival(tag, 0, 0, 0);
        }
        template <class TA>
        static bool ok(TA &a, index i, const Shape &, int tag) { return a[i] == ival(tag, 0, 0, 0); }
        static constexpr int nHow = 2;
    };
    template <rowsize rs, rowsize rm>
    struct VecA
    {
        using Arr = ArrayEigenVector<rs, rm>;
        static constexpr DataLayout L = Arr::_dataLayout;
        static Caps caps() { return AdjA<rs, rm>::caps(); }
        static void size(Arr &a, index n, const std::vector<Shape> &sh)
        {
            if (L == CSR)
                a.Resize(n);
            else if (isTABLE_Fixed(L))
                a.Resize(n, rs >= 0 ? rs : (sh.empty() ? 2 : sh[0][0].first));
            else
                a.Resize(n, rm >= 0 ? rm : 2);
        }
        static void sizeRow(Arr &a, index i, const Shape &s)
        {
            if (!isTABLE_Fixed(L))
                a.ResizeRow(i, s[0].first);
        }
        static void write(Arr &a, index i, const Shape &s, int tag, int how)
        {
            Eigen::VectorXd v(s[0].first);
            for (int j = 0; j < s[0].first; j++)
                v[j] = val(tag, 0, j, 0);
            if (how == 0)
                a[i] = v;
            else
                for (int j = 0; j < s[0].first; j++)
                    how == 1 ? (a(i, j) = v[j]) : (a[i](j) = v[j]);
        }
        template <class TA>
        static bool ok(TA &a, index i, const Shape &s, int tag)
        {
            if (a.RowSize(i) != s[0].first || a[i].size() != s[0].first)
                return false;
            for (int j = 0; j < s[0].first; j++)
                if (a(i, j) != val(tag, 0, j, 0) || a[i](j) != val(tag, 0, j, 0))
                    return false;
            return true;
        }
        static constexpr int nHow = 3;
    };
    template <rowsize ni, rowsize nj, rowsize nim = ni, rowsize njm = nj>
    struct MatA
    {
        using Arr = ArrayEigenMatrix<ni, nj, nim, njm>;
        static constexpr DataLayout L = Arr::_dataLayout;
        static constexpr bool nonU = ni == NonUniformSize || nj == NonUniformSize;
        static Caps caps()
        {
            Caps c;
            c.csr = L == CSR;
            c.uniform = !nonU;
            c.resizable = nonU;
            for (int r = 1; r <= 3; r++)
                for (int q = 0; q <= 2; q++)
                    if ((ni < 0 || ni == r) && (nj < 0 || nj == q) && !(r == 3 && q == 1 && ni < 0) &&
                        (ni != DynamicSize || !nonU || r == 2)) // per-row sizes with a common dynamic row count
                        c.alphabet.push_back({{r, q}});
            return c;
        }
        static void size(Arr &a, index n, const std::vector<Shape> &sh)
        {
            int r = ni >= 0 ? ni : (nonU ? (nim >= 0 ? nim : (ni == DynamicSize ? 2 : 3)) : (sh.empty() ? 2 : sh[0][0].first));
            int q = nj >= 0 ? nj : (nonU ? (njm >= 0 ? njm : 2) : (sh.empty() ? 2 : sh[0][0].second));
            a.Resize(n, r, q);
        }
        static void sizeRow(Arr &a, index i, const Shape &s)
        {
            if constexpr (nonU)
                a.ResizeMat(i, s[0].first, s[0].second);
        }
        static void write(Arr &a, index i, const Shape &s, int tag, int how)
        {
            MatrixXR m(s[0].first, s[0].second);
            for (int r = 0; r < m.rows(); r++)
                for (int c = 0; c < m.cols(); c++)
                    m(r, c) = val(tag, 0, r, c);
            if (how == 0)
                a[i] = m;
            else
                for (int c = 0; c < m.cols(); c++)
                    a[i].col(c) = m.col(c);
        }
        template <class TA>
        static bool ok(TA &a, index i, const Shape &s, int tag)
        {
            auto m = a[i];
            if (m.rows() != s[0].first || m.cols() != s[0].second)
                return false;
            for (int r = 0; r < m.rows(); r++)
                for (int c = 0; c < m.cols(); c++)
                    if (m(r, c) != val(tag, 0, r, c))
                        return false;
            if constexpr (std::is_same_v<TA, Arr>)
            {
                if (a.MatRowSize(i) != s[0].first || a.MatColSize(i) != s[0].second)
                    return false;
                const Arr &ca = a;
                auto cm = ca[i];
                if (cm.rows() != m.rows() || cm.cols() != m.cols() || (cm.size() && cm != m))
                    return false;
            }
            return true;
        }
        static constexpr int nHow = 2;
    };
    struct BatA
    {
        using Arr = ArrayEigenMatrixBatch;
        static constexpr DataLayout L = CSR;
        static Caps caps()
        {
            Caps c;
            c.csr = true;
            c.alphabet = {{}, {{1, 1}}, {{2, 3}}, {{1, 2}, {2, 1}}, {{0, 0}, {1, 1}}, {{2, 2}, {1, 0}, {1, 3}}};
            return c;
        }
        static void size(Arr &a, index n, const std::vector<Shape> &) { a.Resize(n); }
        static void sizeRow(Arr &a, index i, const Shape &s) { a.InitializeWriteRow(i, mats(s, 999)); }
        static std::vector<MatrixXR> mats(const Shape &s, int tag)
        {
            std::vector<MatrixXR> v;
            for (size_t k = 0; k < s.size(); k++)
            {
                MatrixXR m(s[k].first, s[k].second);
                for (int r = 0; r < m.rows(); r++)
                    for (int c = 0; c < m.cols(); c++)
                        m(r, c) = val(tag, (int)k, r, c);
                v.push_back(m);
            }
            return v;
        }
        static void write(Arr &a, index i, const Shape &s, int tag, int how)
        {
            auto v = mats(s, tag);
            if (how == 0)
                for (size_t k = 0; k < v.size(); k++)
                    a(i, k) = v[k];
            else
                for (int k = (int)v.size() - 1; k >= 0; k--)
                    a[i][k] = v[k];
        }
        template <class TA>
        static bool ok(TA &a, index i, const Shape &s, int tag)
        {
            auto v = mats(s, tag);
            if (a[i].Size() != v.size())
                return false;
            for (size_t k = 0; k < v.size(); k++)
            {
                auto m = a(i, k);
                if (m.rows() != v[k].rows() || m.cols() != v[k].cols() || (m.size() && m != v[k]))
                    return false;
                if (a[i][k].size() && a[i][k] != v[k])
                    return false;
            }
            return true;
        }
        static constexpr int nHow = 2;
    };
    template <int nr, int nc, int R, int C>
    struct UniA
    {
        using Arr = ArrayEigenUniMatrixBatch<nr, nc>;
        static constexpr DataLayout L = CSR;
        static Caps caps()
        {
            Caps c;
            c.csr = true;
            c.alphabet = {{}, {{R, C}}, {{R, C}, {R, C}}, {{R, C}, {R, C}, {R, C}}};
            return c;
        }
        static void size(Arr &a, index n, const std::vector<Shape> &)
        {
            a.Decompress();
            a.Resize(n, R, C);
        }
        static void sizeRow(Arr &a, index i, const Shape &s)
        {
            if (i % 2)
                a.ResizeBatch(i, s.size());
            else
                a.ResizeRow(i, s.size());
        }
        static void write(Arr &a, index i, const Shape &s, int tag, int how)
        {
            auto v = BatA::mats(s, tag);
            if (how == 0)
                for (size_t k = 0; k < v.size(); k++)
                    a(i, k) = v[k];
            else
                for (size_t k = 0; k < v.size(); k++)
                    a[i].at(k) = v[k];
        }
        template <class TA>
        static bool ok(TA &a, index i, const Shape &s, int tag)
        {
            auto v = BatA::mats(s, tag);
            if (a.RowSize(i) != (rowsize)v.size() || a[i].size() != v.size())
                return false;
            if constexpr (std::is_same_v<TA, Arr>)
                if (a.BatchSize(i) != (rowsize)v.size() || a.Rows() != R || a.Cols() != C || a.MSize() != R * C)
                    return false;
            for (size_t k = 0; k < v.size(); k++)
            {
                auto m = a(i, k);
                if (m.rows() != R || m.cols() != C || m != v[k] || a[i][k] != v[k])
                    return false;
                if constexpr (std::is_same_v<TA, Arr>)
                {
                    const Arr &ca = a;
                    if (ca(i, k) != v[k])
                        return false;
                }
            }
            return true;
        }
        static constexpr int nHow = 2;
    };
}
