// C01: histories of the row container on all layouts.  C09: histories of the object pool.
#include "vh.hpp"
#include "DNDS/Array.hpp"
#include "DNDS/ObjectPool.hpp"

namespace DNDS::vf
{
    // ------------------------------------------------------------------------------------ C01
    template <class T>
    struct El;
    template <>
    struct El<real>
    {
        static real mk(int t) { return 1.5 * t + 0.25; }
        static bool eq(const real &a, int t) { return a == mk(t); }
    };
    template <>
    struct El<index>
    {
        static index mk(int t) { return (index(t) << 33) + t; }
        static bool eq(const index &a, int t) { return a == mk(t); }
    };
    struct B3
    {
        unsigned char c[3];
    };
    template <>
    struct El<B3>
    {
        static B3 mk(int t) { return B3{{(unsigned char)t, (unsigned char)(t * 7 + 1), (unsigned char)(t >> 8)}}; }
        static bool eq(const B3 &a, int t)
        {
            B3 b = mk(t);
            return !memcmp(a.c, b.c, 3);
        }
    };
    using M21 = Eigen::Matrix<real, 2, 1>;
    template <>
    struct El<M21>
    {
        static M21 mk(int t) { return M21(t, -3 * t + 1); }
        static bool eq(const M21 &a, int t) { return a == mk(t); }
    };

    struct MArr // the model: a list of rows of tags, -1: value not determined
    {
        std::vector<std::vector<int>> rows;
        int width = 0;   // fixed width or maximum width where dynamic
        bool comp = false;
        bool sized = false;
        bool operator==(const MArr &o) const { return rows == o.rows && comp == o.comp; }
        int total() const
        {
            int s = 0;
            for (auto &r : rows)
                s += (int)r.size();
            return s;
        }
    };

    struct OpD
    {
        char k;
        int a, b;
    };
    static std::string ops2s(const std::vector<OpD> &ops, const std::vector<int> &seq)
    {
        std::string s;
        for (int i : seq)
            s += vh::fmts("%c%d%d ", ops[i].k, ops[i].a, ops[i].b);
        return s;
    }

    template <class T, rowsize rs, rowsize rm>
    struct Hist
    {
        using A_t = Array<T, rs, rm>;
        static constexpr DataLayout L = A_t::_dataLayout;
        static constexpr bool fixed = isTABLE_Fixed(L), maxl = isTABLE_Max(L), csr = L == CSR;
        static constexpr int W0 = 2; // static width
        vh::Ctx &ctx;
        std::vector<OpD> ops;
        explicit Hist(vh::Ctx &c) : ctx(c)
        {
            // slot toggle and whole-array operations
            ops = {{'W', 0, 0}, {'p', 0, 0}, {'T', 0, 0}, {'X', 0, 0}, {'K', 0, 0}, {'S', 0, 0}};
            if (csr)
            {
                for (int n : {0, 1, 3})
                    ops.push_back({'R', n, 0});
                for (int p : {0, 1, 2})
                    ops.push_back({'F', p, 0});
                ops.push_back({'r', 0, 2}), ops.push_back({'r', 1, 1}), ops.push_back({'r', 0, 0});
                ops.push_back({'C', 0, 0}), ops.push_back({'D', 0, 0}), ops.push_back({'v', 0, 4});
            }
            else if (maxl)
            {
                for (int n : {0, 1, 3})
                    ops.push_back({'R', n, rm >= 0 ? (int)rm : 2});
                if (rm < 0)
                    ops.push_back({'R', 2, 3}), ops.push_back({'R', 2, 0});
                else
                    ops.push_back({'n', 2, 0});
                ops.push_back({'r', 0, 2}), ops.push_back({'r', 1, 1}), ops.push_back({'r', 0, 0}), ops.push_back({'r', 2, 2});
            }
            else
            {
                for (int n : {0, 1, 3})
                    ops.push_back({'R', n, rs >= 0 ? (int)rs : 2});
                if (rs < 0)
                    ops.push_back({'R', 2, 3}), ops.push_back({'R', 2, 0}), ops.push_back({'R', 4, 1});
                else
                    ops.push_back({'n', 2, 0});
            }
        }
        static const std::vector<int> &pat(int p)
        {
            static const std::vector<int> P[3] = {{1, 0, 2}, {}, {2, 1, 0}};
            return P[p];
        }
        bool legal(const OpD &o, const MArr *m) const // m[0]: current, m[1]: other
        {
            const MArr &c = m[0];
            switch (o.k)
            {
            case 'R':
            case 'n':
                return !csr || !c.comp;
            case 'r':
                return c.sized && o.a < (int)c.rows.size() && (csr ? !c.comp : o.b <= c.width);
            case 'v':
                return o.a < (int)c.rows.size() && !c.comp;
            case 'p':
                return c.sized && c.total() > 0;
            case 'S':
                if (!c.sized || !m[1].sized || c.rows.size() != m[1].rows.size())
                    return false;
                if (csr)
                    return c.comp == m[1].comp && (!c.comp || c.total() == m[1].total());
                return c.width == m[1].width;
            default:
                return true;
            }
        }
        void applyModel(const OpD &o, MArr *m, int &tag) const
        {
            MArr &c = m[0];
            switch (o.k)
            {
            case 'R':
            case 'n':
            {
                int w = o.k == 'n' ? (rm >= 0 && maxl ? (int)rm : (int)rs) : o.b;
                if (csr)
                    c.rows.resize(o.a);
                else if (fixed)
                {
                    if (w != c.width)
                        c.rows.clear();
                    c.rows.resize(o.a, std::vector<int>(w, -1));
                    c.width = w;
                }
                else
                {
                    c.rows.assign(o.a, {});
                    c.width = w;
                }
                if (csr && o.a == 0)
                    c.comp = false;
                c.sized = true;
                break;
            }
            case 'F':
                c.rows.clear();
                for (int w : pat(o.a))
                    c.rows.emplace_back(w, -1);
                c.comp = !c.rows.empty();
                c.sized = true;
                break;
            case 'r':
                c.rows[o.a].resize(o.b, -1);
                break;
            case 'C':
                c.comp = !c.rows.empty();
                break;
            case 'D':
                c.comp = false;
                break;
            case 'W':
                for (auto &r : c.rows)
                    for (auto &e : r)
                        e = tag++;
                break;
            case 'p':
                for (auto &r : c.rows)
                    if (!r.empty())
                    {
                        r.back() = tag++;
                        break;
                    }
                break;
            case 'T':
                std::swap(m[0], m[1]);
                break;
            case 'X':
            case 'K':
                m[1] = m[0];
                break;
            case 'S':
                std::swap(m[0].rows, m[1].rows);
                break;
            default:
                break;
            }
        }
        void applyReal(const OpD &o, A_t *&a, A_t *&b, int &tag) const
        {
            switch (o.k)
            {
            case 'R':
                if (csr)
                    a->Resize(o.a);
                else
                    a->Resize(o.a, (rowsize)o.b);
                break;
            case 'n':
                if constexpr (isTABLE_Static(L))
                    a->Resize(o.a);
                break;
            case 'F':
                if constexpr (csr)
                {
                    auto &p = pat(o.a);
                    a->Resize(p.size(), [&](index i)
                              { return rowsize(p.at(i)); });
                }
                break;
            case 'r':
                a->ResizeRow(o.a, o.b);
                break;
            case 'v':
                a->ReserveRow(o.a, o.b);
                break;
            case 'C':
                a->Compress();
                break;
            case 'D':
                a->Decompress();
                break;
            case 'W':
                for (index i = 0; i < a->Size(); i++)
                    for (rowsize j = 0; j < a->RowSize(i); j++)
                        (*a)(i, j) = El<T>::mk(tag++);
                break;
            case 'p':
                for (index i = 0; i < a->Size(); i++)
                    if (a->RowSize(i) > 0)
                    {
                        (*a)[i][a->RowSize(i) - 1] = El<T>::mk(tag++);
                        break;
                    }
                break;
            case 'T':
                std::swap(a, b);
                break;
            case 'X':
                b->CopyData(*a);
                break;
            case 'K':
            {
                A_t c(*a);
                *b = c;
                break;
            }
            case 'S':
                a->SwapData(*b);
                break;
            }
        }
        bool check(const A_t &a, const MArr &m, const char *w, const std::vector<int> &seq)
        {
            auto F = [&](const char *what, long i, long j, long got, long exp)
            {
                ctx.fail("rows", "%s after [%s]: %s row %ld col %ld: got %ld expected %ld", w, ops2s(ops, seq).c_str(), what, i, j, got, exp);
                return false;
            };
            if (!m.sized && m.rows.empty())
            {
                if (a.Size() != 0)
                    return F("Size of fresh array", 0, 0, a.Size(), 0);
                return true;
            }
            if (a.Size() != (index)m.rows.size())
                return F("Size", 0, 0, a.Size(), m.rows.size());
            if (csr && a.IfCompressed() != (m.comp && !m.rows.empty()))
                return F("IfCompressed", 0, 0, a.IfCompressed(), m.comp);
            if constexpr (fixed)
                if (a.RowSize() != m.width)
                    return F("RowSize()", 0, 0, a.RowSize(), m.width);
            if constexpr (maxl)
                if (a.RowSizeMax() != m.width)
                    return F("RowSizeMax()", 0, 0, a.RowSizeMax(), m.width);
            for (size_t i = 0; i < m.rows.size(); i++)
            {
                if (a.RowSize(i) != (rowsize)m.rows[i].size())
                    return F("RowSize", i, 0, a.RowSize(i), m.rows[i].size());
                for (size_t j = 0; j < m.rows[i].size(); j++)
                    if (m.rows[i][j] >= 0)
                    {
                        if (!El<T>::eq(a(i, j), m.rows[i][j]))
                            return F("element()", i, j, -1, m.rows[i][j]);
                        if (!El<T>::eq(a[i][j], m.rows[i][j]))
                            return F("element[]", i, j, -1, m.rows[i][j]);
                    }
            }
            if (!csr || m.comp)
            {
                auto &nc = const_cast<A_t &>(a);
                size_t exp = csr ? m.total() : m.rows.size() * m.width;
                if (nc.DataSize() != exp)
                    return F("DataSize", 0, 0, nc.DataSize(), exp);
                if (m.rows.size() && nc[(index)m.rows.size()] - nc[0] != (ptrdiff_t)exp)
                    return F("row span", 0, 0, nc[(index)m.rows.size()] - nc[0], exp);
            }
            return true;
        }
        // runs one sequence; checks only after the last operation (shorter prefixes are sequences of their own)
        bool runSeq(const std::vector<int> &seq, MArr *mOut = nullptr)
        {
            A_t A, B;
            A_t *a = &A, *b = &B;
            MArr m[2];
            if (rs >= 0)
                m[0].width = m[1].width = (int)rs;
            if (maxl && rm >= 0)
                m[0].width = m[1].width = (int)rm;
            int tag = 1, tagM = 1;
            for (size_t k = 0; k < seq.size(); k++)
            {
                auto &o = ops[seq[k]];
                if (!legal(o, m))
                    return false;
                applyModel(o, m, tagM);
                applyReal(o, a, b, tag);
            }
            ctx.nTrans += seq.size();
            ctx.nEvals++;
            bool ok = check(*a, m[0], "current", seq) && check(*b, m[1], "other", seq);
            vh::Hash h;
            h.add(L).add((int)sizeof(T));
            for (int s = 0; s < 2; s++)
            {
                h.add(m[s].comp).add(m[s].width).add(m[s].rows.size());
                std::map<int, int> canon;
                for (auto &r : m[s].rows)
                    for (auto e : (h.add(r.size()), r))
                        h.add(e < 0 ? -1 : (m[1 - s].rows == m[s].rows ? 1 : 2));
            }
            ctx.state(h.h);
            return ok;
        }
        void dfs(std::vector<int> &seq, int depth)
        {
            ctx.beat();
            for (size_t i = 0; i < ops.size(); i++)
            {
                seq.push_back((int)i);
                if (runSeq(seq) && (int)seq.size() < depth)
                    dfs(seq, depth);
                seq.pop_back();
                if (ctx.nfail)
                    return;
            }
        }
        void go(const char *name, int depth)
        {
            std::vector<int> s;
            for (size_t i = 0; i < ops.size(); i++)
                for (size_t j = 0; j < ops.size(); j++)
                {
                    s = {(int)i, (int)j};
                    if (!ctx.take("%s histories starting with [%s] up to length %d", name, ops2s(ops, s).c_str(), depth))
                        continue;
                    int f0 = ctx.nfail;
                    ctx.nfail = 0;
                    std::vector<int> s1 = {(int)i};
                    if (runSeq(s1) && runSeq(s))
                        dfs(s, depth);
                    ctx.nTraces = ctx.nEvals;
                    ctx.nfail += f0;
                }
        }
    };
    template <class T>
    static void allLayouts(vh::Ctx &ctx, const char *tn, int depth)
    {
        auto nm = [&](const char *l)
        { return std::string(tn) + "/" + l; };
        Hist<T, 2, 2>(ctx).go(nm("StaticFixed").c_str(), depth);
        Hist<T, DynamicSize, DynamicSize>(ctx).go(nm("Fixed").c_str(), depth);
        Hist<T, NonUniformSize, DynamicSize>(ctx).go(nm("Max").c_str(), depth);
        Hist<T, NonUniformSize, 2>(ctx).go(nm("StaticMax").c_str(), depth);
        Hist<T, NonUniformSize, NonUniformSize>(ctx).go(nm("CSR").c_str(), depth);
    }
    static void bodyArr(vh::Ctx &ctx)
    {
        int d = ctx.thorough ? 7 : 6;
        allLayouts<real>(ctx, "real", d);
        allLayouts<index>(ctx, "index", d - 1);
        allLayouts<B3>(ctx, "byte3", d - 1);
        allLayouts<M21>(ctx, "vec2", d - 1);
    }

    // ------------------------------------------------------------------------------------ C09
    struct Obj
    {
        static inline std::map<int, int> live; // id -> destructions so far is checked: erase once
        static inline int nextId = 0, errors = 0, created = 0, destroyed = 0;
        int id, arg, init = 0;
        explicit Obj(int a = 0) : id(nextId++), arg(a) { live[id] = 1, created++; }
        Obj(const Obj &) = delete;
        ~Obj()
        {
            if (live.erase(id) != 1)
                errors++;
            destroyed++;
        }
    };
    // model: pool = set of free ids; handles: slot -> id or -1 (empty handle) or -2 (no handle)
    struct PoolHist
    {
        vh::Ctx &ctx;
        using Pool = ObjectPool<Obj>;
        using Hd = Pool::ObjectPoolAllocated;
        static constexpr int NS = 3;
        struct O
        {
            char k;
            int a, b;
        };
        std::vector<O> ops;
        explicit PoolHist(vh::Ctx &c) : ctx(c)
        {
            for (int i = 0; i < NS; i++)
            {
                ops.push_back({'g', i, 0}), ops.push_back({'a', i, 0}), ops.push_back({'i', i, 0}), ops.push_back({'d', i, 0});
            }
            for (int i = 0; i < NS; i++)
                for (int j = 0; j < NS; j++)
                    if (i != j)
                        ops.push_back({'m', i, j});
            for (int i = 0; i < NS; i++)
                for (int j = 0; j < NS; j++)
                    if (i != j && (i + j) % 2 == 1)
                        ops.push_back({'=', i, j});
            ops.push_back({'s', 0, 0}), ops.push_back({'s', 2, 0}), ops.push_back({'I', 1, 0}), ops.push_back({'n', 0, 0});
        }
        std::string str(const std::vector<int> &q)
        {
            std::string s;
            for (int i : q)
                s += vh::fmts("%c%d%d ", ops[i].k, ops[i].a, ops[i].b);
            return s;
        }
        int runSeq(const std::vector<int> &seq) // -1 illegal, 0 fail, 1 ok
        {
            Obj::live.clear();
            Obj::nextId = Obj::errors = Obj::created = Obj::destroyed = 0;
            std::unique_ptr<Pool> P = std::make_unique<Pool>();
            std::vector<std::unique_ptr<Hd>> hs(NS);
            // model
            std::set<int> freeIds;
            int gen = 0;
            std::vector<std::pair<int, int>> mh(NS, {-2, 0}); // id, pool generation
            std::set<int> lost;                               // ids legitimately destroyed
            auto bad = [&](const char *w, long a, long b)
            {
                ctx.fail("pool", "after [%s]: %s: %ld, expected %ld", str(seq).c_str(), w, a, b);
                return 0;
            };
            auto give = [&](int s, bool alloc, bool init) -> int
            {
                Hd h = init ? P->getAllocInit([](Obj &o)
                                              { o.init = 77; },
                                              5)
                            : (alloc ? P->getAlloc(5) : P->get());
                if (bool(h) != (alloc || init || !freeIds.empty()))
                    return bad("handle validity", bool(h), 0);
                int id = -1;
                if (h)
                {
                    id = (*h).id;
                    if (h->id != id)
                        return bad("-> and * disagree", 0, 0);
                    if (!freeIds.empty())
                    {
                        if (!freeIds.count(id))
                            return bad("object lent is not a free object of the pool", id, -1);
                        freeIds.erase(id);
                    }
                    else
                    {
                        for (auto &x : mh)
                            if (x.first == id)
                                return bad("object lent twice", id, -1);
                        if ((*h).arg != 5 || (*h).init != (init ? 77 : 0))
                            return bad("new object construction", (*h).arg, 5);
                    }
                }
                // old content of the slot goes back first (handle destruction)
                hs[s] = std::make_unique<Hd>(std::move(h));
                if (h)
                    return bad("moved-from handle still holds an object", 1, 0);
                mh[s] = {id, gen};
                return 1;
            };
            auto drop = [&](int s)
            {
                if (mh[s].first >= 0)
                {
                    if (mh[s].second == gen)
                        freeIds.insert(mh[s].first);
                    else
                        lost.insert(mh[s].first);
                }
                mh[s] = {-2, 0};
            };
            for (int k : seq)
            {
                auto &o = ops[k];
                switch (o.k)
                {
                case 'g':
                case 'a':
                case 'i':
                    if (mh[o.a].first != -2)
                        return -1;
                    if (!give(o.a, o.k == 'a', o.k == 'i'))
                        return 0;
                    break;
                case 'd':
                    if (mh[o.a].first == -2)
                        return -1;
                    drop(o.a);
                    hs[o.a].reset();
                    break;
                case 'm': // move construct slot b from slot a
                    if (mh[o.a].first == -2 || mh[o.b].first != -2)
                        return -1;
                    hs[o.b] = std::make_unique<Hd>(std::move(*hs[o.a]));
                    mh[o.b] = mh[o.a];
                    mh[o.a].first = -1;
                    break;
                case '=': // move assign slot b from slot a
                    if (mh[o.a].first == -2 || mh[o.b].first == -2)
                        return -1;
                    *hs[o.b] = std::move(*hs[o.a]);
                    drop(o.b);
                    mh[o.b] = mh[o.a];
                    mh[o.a].first = -1;
                    break;
                case 's':
                    for (int i : freeIds)
                        lost.insert(i);
                    P->resize(o.a, 9);
                    freeIds.clear();
                    for (int i = 0; i < o.a; i++)
                        freeIds.insert(Obj::nextId - 1 - i);
                    break;
                case 'I':
                    for (int i : freeIds)
                        lost.insert(i);
                    P->resizeInit(o.a, [](Obj &x)
                                  { x.init = 33; },
                                  9);
                    freeIds.clear();
                    for (int i = 0; i < o.a; i++)
                        freeIds.insert(Obj::nextId - 1 - i);
                    break;
                case 'n':
                    for (int i : freeIds)
                        lost.insert(i);
                    P = std::make_unique<Pool>();
                    freeIds.clear();
                    gen++;
                    break;
                }
            }
            ctx.nTrans += seq.size();
            ctx.nEvals++;
            if (P->size() != freeIds.size())
                return bad("free objects", P->size(), freeIds.size());
            if (Obj::errors)
                return bad("objects destroyed twice", Obj::errors, 0);
            for (int i = 0; i < Obj::nextId; i++)
                if (bool(Obj::live.count(i)) != !lost.count(i))
                    return bad(lost.count(i) ? "object not destroyed when its pool was resized or dropped" : "object destroyed while pooled or lent", i, 0);
            for (int s = 0; s < NS; s++)
            {
                if (mh[s].first == -2)
                    continue;
                if (bool(*hs[s]) != (mh[s].first >= 0))
                    return bad("handle state", bool(*hs[s]), mh[s].first >= 0);
                if (mh[s].first >= 0 && (**hs[s]).id != mh[s].first)
                    return bad("handle object", (**hs[s]).id, mh[s].first);
            }
            vh::Hash h;
            h.add(freeIds.size());
            for (auto &x : mh)
                h.add(x.first < 0 ? x.first : (x.second == gen ? 1 : 0));
            h.add(lost.size());
            ctx.state(h.h);
            hs.clear();
            P.reset();
            if (!Obj::live.empty() || Obj::created != Obj::destroyed)
                return bad("objects alive after pool and handles are gone", Obj::live.size(), 0);
            return 1;
        }
        void dfs(std::vector<int> &seq, int depth)
        {
            ctx.beat();
            for (size_t i = 0; i < ops.size(); i++)
            {
                seq.push_back((int)i);
                if (runSeq(seq) == 1 && (int)seq.size() < depth)
                    dfs(seq, depth);
                seq.pop_back();
                if (ctx.nfail)
                    return;
            }
        }
        void go(int depth)
        {
            for (size_t i = 0; i < ops.size(); i++)
                for (size_t j = 0; j < ops.size(); j++)
                {
                    std::vector<int> s = {(int)i, (int)j}, s1 = {(int)i};
                    if (!ctx.take("pool histories starting with [%s] up to length %d", str(s).c_str(), depth))
                        continue;
                    int f0 = ctx.nfail;
                    ctx.nfail = 0;
                    if (runSeq(s1) == 1 && runSeq(s) == 1)
                        dfs(s, depth);
                    ctx.nTraces = ctx.nEvals;
                    ctx.nfail += f0;
                }
        }
    };
    static void bodyPool(vh::Ctx &ctx)
    {
        PoolHist(ctx).go(ctx.thorough ? 8 : 6);
    }
}
int main(int argc, char **argv)
{
    return vh::run(argc, argv, [&](vh::Ctx &ctx)
                   {
        if (ctx.opts["mode"] == "pool") DNDS::vf::bodyPool(ctx);
        else DNDS::vf::bodyArr(ctx); });
}
