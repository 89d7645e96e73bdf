// C07 / C08: what is written to a file is what is read back.
// mode=h5   : SerializerH5 on a simulated MPI world and an in-memory stand-in for parallel HDF5
// mode=json : SerializerJSON, per-rank files
// SER_REAL  : the conformance build; the same programs on the real MPI and HDF5 libraries
#include "vh.hpp"
#include "adapters.hpp"
#include "DNDS/SerializerFactory.hpp"
#ifndef SER_REAL
#include "simctx.hpp"
namespace fakeh5
{
    void reset();
    size_t handles();
}
#endif
#include <cfloat>
#include <climits>

namespace DNDS::vf
{
    using namespace DNDS::Serializer;
    struct Settings
    {
        int chunk = 0, defl = 0;
        bool cm = true, cd = false;   // writer
        bool cmr = true, cdr = false; // reader
        bool codec = true;
        int jdefl = 5;
        std::string str(bool h5) const
        {
            return h5 ? vh::fmts("chunk %d deflate %d write(coll meta %d data %d) read(%d %d)", chunk, defl, cm, cd, cmr, cdr)
                      : vh::fmts("codec %d level %d", codec, jdefl);
        }
    };
    struct Env
    {
        MPIInfo mpi;
        bool h5 = true;
        std::string dir;
        std::function<void(const std::string &, const std::string &)> failF;
        uint64_t hash = 0;
        template <class... A>
        void fail(const std::string &key, const char *f, A... a)
        {
            failF(key, vh::fmts("rank %d: ", mpi.rank) + vh::fmts(f, a...));
        }
        SerializerBaseSSP make(const Settings &s, bool read) const
        {
            SerializerFactory f(h5 ? "H5" : "JSON");
            f.hdfChunkSize = s.chunk, f.hdfDeflateLevel = s.defl;
            f.hdfCollOnMeta = read ? s.cmr : s.cm, f.hdfCollOnData = read ? s.cdr : s.cd;
            f.jsonBinaryDeflateLevel = s.jdefl, f.jsonUseCodecOnUInt8 = s.codec;
            return f.BuildSerializer(mpi);
        }
        std::string file(const char *t) const
        {
            return h5 ? dir + "/" + t + ".h5" : dir + "/" + t + vh::fmts(".%d.json", mpi.rank);
        }
    };
    using Fn = std::function<void(Env &)>;
    using Sink = std::function<void(const std::string &desc, int R, bool conf, const Fn &f)>;

    static index iv(int r, int k, int i) { return (index(1) << 40) * (k + 1) + r * 1000 + i - (k % 2 ? (index(1) << 50) : 0); }
    static rowsize rv(int r, int k, int i) { return (k % 2 ? -1 : 1) * (1000000 * (k + 1) + r * 1000 + i); }
    static real realSpecial(int i, bool finite)
    {
        static const real a[] = {0.0, -0.0, 1.0 / 3.0, 5e-324, -DBL_MAX, DBL_MIN, 1e22, 123456789.123456789, -1e-5, 0.1};
        static const real b[] = {NAN, -NAN, INFINITY, -INFINITY};
        return finite || i % 14 < 10 ? a[i % 14 % 10] : b[i % 14 - 10];
    }
    static real xv(int r, int k, int i, bool finite) { return (r + k + i) % 3 == 0 ? realSpecial(r * 5 + k * 3 + i, finite) : r * 100 + k * 10 + i + 0.1; }
    static uint8_t uv(int r, int k, int i) { return uint8_t(i * 7 + k * 31 + r * 101 + (i >> 8)); }
    template <class T>
    static bool same(const T *a, const T *b, size_t n) { return n == 0 || std::memcmp(a, b, n * sizeof(T)) == 0; }
    static ArrayGlobalOffset offs(const MPIInfo &mpi, const std::vector<int> &sz, int mode)
    {
        index tot = 0, off = 0;
        for (size_t r = 0; r < sz.size(); r++)
            off += (int)r < mpi.rank ? sz[r] : 0, tot += sz[r];
        return mode == 0 ? ArrayGlobalOffset_Parts : mode == 1 ? ArrayGlobalOffset{tot, off} : ArrayGlobalOffset_One;
    }

    // ------------------------------------------------------------------ one vector of any kind
    struct VecOp
    {
        int type; // 0 index 1 rowsize 2 real 3 uint8 4 shared index 5 shared rowsize
        std::vector<int> sz;
        int mode; // 0 parts 1 dist 2 one
    };
    static void writeVec(Env &e, SerializerBaseSSP s, const std::string &name, int k, const VecOp &o)
    {
        int n = o.sz[e.mpi.rank], R = o.mode == 2 ? 0 : e.mpi.rank;
        auto of = offs(e.mpi, o.sz, o.mode);
        std::vector<index> I;
        std::vector<rowsize> W;
        std::vector<real> X;
        std::vector<uint8_t> U;
        for (int i = 0; i < n; i++)
            I.push_back(iv(R, k, i)), W.push_back(rv(R, k, i)), X.push_back(xv(R, k, i, !e.h5)), U.push_back(uv(R, k, i));
        if (o.type == 0)
            s->WriteIndexVector(name, I, of);
        else if (o.type == 1)
            s->WriteRowsizeVector(name, W, of);
        else if (o.type == 2)
            s->WriteRealVector(name, X, of);
        else if (o.type == 3)
            s->WriteUint8Array(name, U.data(), n, of);
        else if (o.type == 4)
            s->WriteSharedIndexVector(name, std::make_shared<std::vector<index>>(I), of);
        else
            s->WriteSharedRowsizeVector(name, std::make_shared<std::vector<rowsize>>(W), of);
    }
    static void readVec(Env &e, SerializerBaseSSP s, const std::string &name, int k, const VecOp &o)
    {
        int n = o.sz[e.mpi.rank], R = o.mode == 2 ? 0 : e.mpi.rank;
        auto of = o.mode == 2 ? ArrayGlobalOffset_One : ArrayGlobalOffset_Unknown;
        std::vector<index> I;
        std::vector<rowsize> W;
        std::vector<real> X;
        std::vector<uint8_t> U;
        for (int i = 0; i < n; i++)
            I.push_back(iv(R, k, i)), W.push_back(rv(R, k, i)), X.push_back(xv(R, k, i, !e.h5)), U.push_back(uv(R, k, i));
        std::vector<index> I1(7, 5);
        std::vector<rowsize> W1(7, 5);
        std::vector<real> X1(7, 5);
        std::vector<uint8_t> U1;
        size_t got = 0;
        bool ok = true;
        if (o.type == 0)
            s->ReadIndexVector(name, I1, of), got = I1.size(), ok = I1 == I;
        else if (o.type == 1)
            s->ReadRowsizeVector(name, W1, of), got = W1.size(), ok = W1 == W;
        else if (o.type == 2)
            s->ReadRealVector(name, X1, of), got = X1.size(), ok = got == X.size() && same(X.data(), X1.data(), n);
        else if (o.type == 3)
        {
            index c = -1;
            s->ReadUint8Array(name, nullptr, c, of);
            U1.resize(c);
            s->ReadUint8Array(name, U1.data(), c, of);
            got = c, ok = U1 == U;
        }
        else if (o.type == 4)
        {
            ssp<std::vector<index>> p;
            s->ReadSharedIndexVector(name, p, of);
            got = p->size(), ok = *p == I;
        }
        else
        {
            ssp<std::vector<rowsize>> p;
            s->ReadSharedRowsizeVector(name, p, of);
            got = p->size(), ok = *p == W;
        }
        if ((int)got != n)
            e.fail("vector size", "%s: wrote %d entries, read %zu", name.c_str(), n, got);
        else if (!ok)
            e.fail("vector data", "%s: the %d entries read are not those written", name.c_str(), n);
        if (e.h5 && o.mode != 2 && !(o.type >= 4 && of == ArrayGlobalOffset_Unknown) && !(of == offs(e.mpi, o.sz, 1)))
            e.fail("vector offset", "%s: read back as %s, written as %s", name.c_str(), std::string(of).c_str(), std::string(offs(e.mpi, o.sz, 1)).c_str());
        vh::Hash h;
        h.add(e.hash).add(got).add(of.offset());
        e.hash = h.h;
    }
    static Fn vecProg(Settings st, std::vector<VecOp> ops)
    {
        return [=](Env &e)
        {
            {
                auto s = e.make(st, false);
                s->OpenFile(e.file("v"), false);
                s->CreatePath("main");
                s->GoToPath("main");
                for (size_t k = 0; k < ops.size(); k++)
                    writeVec(e, s, vh::fmts("x%zu", k), k, ops[k]);
                s->CloseFile();
            }
            auto s = e.make(st, true);
            s->OpenFile(e.file("v"), true);
            s->GoToPath("/main");
            for (size_t k = ops.size(); k-- > 0;)
                readVec(e, s, vh::fmts("x%zu", k), k, ops[k]);
            readVec(e, s, "x0", 0, ops[0]); // and again
            s->CloseFile();
        };
    }
    // ------------------------------------------------------------------ scalars and strings
    static const std::vector<std::string> &strs()
    {
        static std::vector<std::string> v = {"", "a", "TABLE_Fixed__24_3_3_1", "two words / and \"quotes\" \\ ~0", std::string(300, 'x'), "line\nline\ttab ", " ", "\xc3\xa4\xe2\x82\xac"};
        return v;
    }
    static Fn scalProg(Settings st, int a, int b)
    {
        return [=](Env &e)
        {
            static const int ints[] = {0, -1, INT_MAX, INT_MIN, 7};
            static const index idx[] = {0, -1, (index(1) << 53) + 1, INT64_MAX, INT64_MIN, 4294967296ll};
            auto rd = [&](int k) { return realSpecial(k, !e.h5); };
            {
                auto s = e.make(st, false);
                s->OpenFile(e.file("s"), false);
                for (int k = 0; k < 3; k++)
                {
                    if (k)
                        s->CreatePath("sub"), s->GoToPath("sub");
                    s->WriteInt("i", ints[(a + k) % 5]);
                    s->WriteIndex("n", idx[(b + k) % 6]);
                    s->WriteReal("x", rd(a * 3 + b + k));
                    s->WriteString("s", strs()[(a + k) % 8]);
                    s->WriteString("a name::with colons", strs()[(b + k) % 8]);
                }
                s->CloseFile();
            }
            auto s = e.make(st, true);
            s->OpenFile(e.file("s"), true);
            for (int k = 0; k < 3; k++)
            {
                if (k)
                    s->GoToPath("sub");
                int i = 42;
                index n = 42;
                real x = 42;
                std::string s1 = "old", s2 = "old and long enough to live on the heap somewhere";
                s->ReadString("a name::with colons", s2);
                s->ReadString("s", s1);
                s->ReadReal("x", x);
                s->ReadIndex("n", n);
                s->ReadInt("i", i);
                real want = rd(a * 3 + b + k);
                if (i != ints[(a + k) % 5])
                    e.fail("int", "level %d: wrote %d, read %d", k, ints[(a + k) % 5], i);
                if (n != idx[(b + k) % 6])
                    e.fail("index", "level %d: wrote %ld, read %ld", k, (long)idx[(b + k) % 6], (long)n);
                if (!same(&x, &want, 1))
                    e.fail("real", "level %d: wrote %.17g, read %.17g", k, want, x);
                if (s1 != strs()[(a + k) % 8])
                    e.fail("string", "level %d: wrote [%s], read [%s]", k, strs()[(a + k) % 8].c_str(), s1.c_str());
                if (s2 != strs()[(b + k) % 8])
                    e.fail("string", "level %d: wrote [%s], read [%s]", k, strs()[(b + k) % 8].c_str(), s2.c_str());
            }
            s->CloseFile();
        };
    }
    // ------------------------------------------------------------------ navigation
    static const char *navA[] = {"a", "b", "/", "/a", "/b/c", "a/b", "", "//a//b/", "<back>"};
    static std::vector<std::string> comps(const std::string &p)
    {
        std::vector<std::string> v;
        std::string c;
        for (char ch : p + "/")
            if (ch == '/')
            {
                if (!c.empty())
                    v.push_back(c);
                c.clear();
            }
            else
                c += ch;
        return v;
    }
    static std::string joinp(const std::vector<std::string> &v)
    {
        std::string r;
        for (auto &c : v)
            r += "/" + c;
        return r;
    }
    static Fn navProg(Settings st, std::vector<int> w)
    {
        return [=](Env &e)
        {
            std::map<std::string, int> val; // path -> value of entry "v"
            std::set<std::string> exists = {""};
            std::vector<std::string> tour;
            {
                auto s = e.make(st, false);
                s->OpenFile(e.file("n"), false);
                std::string cur, prev;
                int t = 1;
                auto put = [&]
                {
                    if (!val.count(cur))
                    {
                        val[cur] = t * 11;
                        s->WriteIndex("v", t * 11);
                        s->WriteIndexVector("vec", std::vector<index>(2, t * 11), ArrayGlobalOffset_Parts);
                    }
                    tour.push_back(cur);
                    t++;
                };
                put();
                for (int a : w)
                {
                    std::string arg = navA[a], saved = cur;
                    if (a == 8)
                        arg = prev; // as the array code returns to the path it asked for before
                    auto c = comps(arg);
                    bool abs = arg.empty() || arg[0] == '/';
                    auto full = abs ? std::vector<std::string>() : comps(cur);
                    full.insert(full.end(), c.begin(), c.end());
                    std::string target = joinp(full);
                    if (!exists.count(target))
                    {
                        s->CreatePath(arg);
                        for (size_t i = 1; i <= full.size(); i++)
                            exists.insert(joinp(std::vector<std::string>(full.begin(), full.begin() + i)));
                    }
                    prev = s->GetCurrentPath();
                    s->GoToPath(arg);
                    cur = target;
                    if (s->GetCurrentPath() != cur)
                        e.fail("current path", "after %s: at [%s], expected [%s]", arg.c_str(), s->GetCurrentPath().c_str(), cur.c_str());
                    put();
                }
                s->CloseFile();
            }
            auto s = e.make(st, true);
            s->OpenFile(e.file("n"), true);
            auto look = [&](const std::string &p)
            {
                if (!val.count(p))
                    return;
                index v = -1;
                s->ReadIndex("v", v);
                std::vector<index> vv;
                auto of = ArrayGlobalOffset_Unknown;
                s->ReadIndexVector("vec", vv, of);
                if (v != val[p] || vv != std::vector<index>(2, val[p]))
                    e.fail("entry of another path", "[%s]: wrote %d, read %ld", p.c_str(), val[p], (long)v);
            };
            for (auto it = val.rbegin(); it != val.rend(); ++it)
                s->GoToPath(it->first), look(it->first);
            s->GoToPath("/");
            for (auto &p : exists) // relative, from the root, in one go
                s->GoToPath("/"), p.empty() ? (void)0 : s->GoToPath(p.substr(1)), look(p);
            s->CloseFile();
        };
    }
    // ------------------------------------------------------------------ shared vectors
    // pat[r][k]: which vector rank r writes as entry k (restricted growth); sessions: entries are split over files
    struct ShareProg
    {
        std::vector<std::vector<int>> pat;
        int type;         // 0 index 1 rowsize 2 alternating by vector
        bool freeEarly;   // the writer drops each vector after its last use
        int readMode;     // 0 keep 1 drop each before the next is read 2 reverse order, keep 3 changes what it got
        int nfile;        // 1: one file; 2: all entries again into a second file with the same serializer object
        int sizeOf;       // entries per vector
    };
    template <class T>
    static void shareRun(Env &e, Settings st, const ShareProg &p)
    {
        int n = p.pat[0].size(), r = e.mpi.rank;
        auto &w = p.pat[r];
        auto content = [&](int id, int f)
        {
            std::vector<T> v;
            for (int i = 0; i < p.sizeOf; i++)
                v.push_back(T(10000 * (f + 1) + r * 1000 + id * 10 + i));
            return v;
        };
        auto pathOf = [&](int k) { return k % 2 ? std::string("/sub") : std::string("/"); };
        auto wr = [&](SerializerBaseSSP s, const std::string &nm, const ssp<std::vector<T>> &v)
        {
            if constexpr (std::is_same_v<T, index>)
                s->WriteSharedIndexVector(nm, v, ArrayGlobalOffset_Parts);
            else
                s->WriteSharedRowsizeVector(nm, v, ArrayGlobalOffset_Parts);
        };
        auto s = e.make(st, false);
        for (int f = 0; f < p.nfile; f++)
        {
            std::map<int, ssp<std::vector<T>>> vec;
            s->OpenFile(e.file(f ? "sh1" : "sh0"), false);
            s->CreatePath("sub");
            for (int k = 0; k < n; k++)
            {
                s->GoToPath(pathOf(k));
                if (!vec.count(w[k]))
                    vec[w[k]] = std::make_shared<std::vector<T>>(content(w[k], f));
                wr(s, vh::fmts("e%d", k), vec[w[k]]);
                if (p.freeEarly && std::find(w.begin() + k + 1, w.end(), w[k]) == w.end())
                    vec[w[k]].reset();
            }
            s->CloseFile();
        }
        auto s2 = p.readMode % 2 ? s : e.make(st, true);
        for (int f = p.nfile - 1; f >= 0; f--)
        {
            s2->OpenFile(e.file(f ? "sh1" : "sh0"), true);
            std::vector<ssp<std::vector<T>>> got(n);
            for (int q = 0; q < n; q++)
            {
                int k = p.readMode == 2 ? n - 1 - q : q;
                s2->GoToPath(pathOf(k));
                auto of = ArrayGlobalOffset_Unknown;
                ssp<std::vector<T>> v;
                auto &dst = p.readMode == 1 ? v : got[k];
                if constexpr (std::is_same_v<T, index>)
                    s2->ReadSharedIndexVector(vh::fmts("e%d", k), dst, of);
                else
                    s2->ReadSharedRowsizeVector(vh::fmts("e%d", k), dst, of);
                if (!dst)
                    return e.fail("shared vector", "entry %d of file %d: nothing read", k, f);
                bool seen = false; // already read under another name: then it may have been changed by its owner
                for (int j = 0; j < q; j++)
                    seen = seen || w[j] == w[k];
                auto want = content(w[k], f);
                if (p.readMode == 3 && seen && got[k].use_count() > 1)
                    ; // checked through the sharing relation below
                else if (*dst != want && !(p.readMode == 3 && seen))
                    e.fail("shared vector", "entry %d of file %d: read %zu entries starting with %ld, wrote %zu starting with %ld", k, f, dst->size(),
                           (long)(dst->empty() ? -1 : dst->front()), want.size(), (long)(want.empty() ? -1 : want.front()));
                if (p.readMode == 3)
                {
                    // the caller replaces the pointer it was given, keeping the vector elsewhere
                    auto keep = got[k];
                    got[k].reset();
                    got[k] = std::make_shared<std::vector<T>>(3, T(-7));
                    got[k] = keep;
                }
            }
            if (p.readMode != 1)
            {
                bool uniformPat = true;
                for (auto &x : p.pat)
                    uniformPat = uniformPat && x == p.pat[0];
                for (int i = 0; i < n; i++)
                    for (int j = 0; j < i; j++)
                    {
                        if (got[i] == got[j] && w[i] != w[j])
                            e.fail("falsely shared", "entries %d and %d are one vector after reading, but were two", j, i);
                        if (got[i] != got[j] && w[i] == w[j] && (uniformPat || !e.h5))
                            e.fail("sharing lost", "entries %d and %d were one vector, and are two after reading", j, i);
                    }
            }
            s2->CloseFile();
        }
    }
    // ------------------------------------------------------------------ arrays
    // raw arrays of element types that are stored as bytes
    using B3 = std::array<uint8_t, 3>;
    using X2 = std::array<real, 2>;
    template <class T>
    static T tv(int tag, int j)
    {
        T t;
        std::memset((void *)&t, 0, sizeof t);
        if constexpr (std::is_same_v<T, real>)
            t = j % 2 ? realSpecial(tag + j, false) : tag * 10 + j + 0.25;
        else if constexpr (std::is_same_v<T, B3>)
            t = {uint8_t(tag), uint8_t(255 - j), uint8_t(tag * 16 + j)};
        else if constexpr (std::is_same_v<T, X2>)
            t = {tag + 0.5, realSpecial(tag + j, false)};
        else
            t = T(tag * 10 + j) - T(tag % 2 ? 100 : 0);
        return t;
    }
    template <class T, rowsize rs, rowsize rm>
    struct RawA
    {
        using Arr = ParArray<T, rs, rm>;
        static constexpr DataLayout L = Arr::_dataLayout;
        static Caps caps() { return AdjA<rs, rm>::caps(); }
        static void size(Arr &a, index n, const std::vector<Shape> &sh)
        {
            if (L == CSR)
                a.Resize(n);
            else if (isTABLE_Fixed(L))
                a.Resize(n, rs >= 0 ? rs : (sh.empty() ? 2 : sh[0][0].first));
            else
                a.Resize(n, rm >= 0 ? rm : 2);
        }
        static void sizeRow(Arr &a, index i, const Shape &s)
        {
            if (!isTABLE_Fixed(L))
                a.ResizeRow(i, s[0].first);
        }
        static void write(Arr &a, index i, const Shape &s, int tag, int)
        {
            for (int j = 0; j < s[0].first; j++)
                a(i, j) = tv<T>(tag, j);
        }
        template <class TA>
        static bool ok(TA &a, index i, const Shape &s, int tag)
        {
            if (a.RowSize(i) != s[0].first)
                return false;
            for (int j = 0; j < s[0].first; j++)
            {
                T w = tv<T>(tag, j), g = a(i, j);
                if (!same(&w, &g, 1))
                    return false;
            }
            return true;
        }
        static constexpr int nHow = 1;
    };
    template <class Base>
    struct Wide2 : Base
    {
        static Caps caps()
        {
            auto c = Base::caps();
            std::vector<Shape> a;
            for (auto &s : c.alphabet)
                if (s[0].first == 2)
                    a.push_back(s);
            c.alphabet = a;
            return c;
        }
    };
    // route 0: array alone, parts; 1: pair without ghost list; 2: pair with ghost list; 3: two pairs sharing one row table
    template <class AdW, class AdR>
    static Fn arrProg(Settings st, std::vector<int> sz, int q, int route, int ghostPat)
    {
        return [=](Env &e)
        {
            using W = typename AdW::Arr;
            using Rd = typename AdR::Arr;
            auto caps = AdW::caps();
            size_t A = caps.alphabet.size();
            int n = sz[e.mpi.rank], off = 0, tot = 0;
            for (int r = 0; r < e.mpi.size; r++)
                off += r < e.mpi.rank ? sz[r] : 0, tot += sz[r];
            auto shape = [&](int g) { return caps.alphabet[caps.uniform ? q % A : (q + g * (1 + q / A)) % A]; };
            std::vector<Shape> shU = caps.uniform ? std::vector<Shape>(1, caps.alphabet[q % A]) : std::vector<Shape>();
            std::vector<index> pull;
            for (int g = 0; g < tot; g++)
                if (ghostPat == 1 ? (g < off || g >= off + n) : ghostPat == 2 ? e.mpi.rank == 0 : ghostPat == 3 && (g + e.mpi.rank) % 2)
                    pull.push_back(g);
            auto build = [&](ArrayPair<W> &P)
            {
                P.father = std::make_shared<W>(e.mpi);
                P.son = std::make_shared<W>(e.mpi);
                AdW::size(*P.father, n, shU);
                AdW::size(*P.son, 0, shU);
                for (int i = 0; i < n; i++)
                    AdW::sizeRow(*P.father, i, shape(off + i)), AdW::write(*P.father, i, shape(off + i), off + i + 1, 0);
                if (route >= 2)
                {
                    P.father->Compress();
                    P.TransAttach();
                    P.trans.createFatherGlobalMapping();
                    auto pl = pull;
                    P.trans.createGhostMapping(pl);
                    P.trans.createMPITypes();
                    P.trans.pullOnce();
                }
            };
            {
                ArrayPair<W> P;
                build(P);
                auto s = e.make(st, false);
                s->OpenFile(e.file("a"), false);
                s->CreatePath("grp");
                s->GoToPath("grp");
                if (route == 0)
                    P.father->WriteSerializer(s, "arr", ArrayGlobalOffset_Parts);
                else
                    P.WriteSerialize(s, "arr", route >= 2);
                s->WriteIndex("after", 17);
                if (route == 3)
                {
                    auto f2 = std::make_shared<W>(*P.father); // shares the row table
                    f2->WriteSerializer(s, "arr2", ArrayGlobalOffset_Parts);
                }
                s->CloseFile();
                for (int i = 0; i < n; i++)
                    if (!AdW::ok(*P.father, i, shape(off + i), off + i + 1))
                        e.fail("writer disturbed", "row %d after writing", i);
            }
            auto s = e.make(st, true);
            s->OpenFile(e.file("a"), true);
            s->GoToPath("/grp");
            ArrayPair<Rd> P;
            P.father = std::make_shared<Rd>(e.mpi);
            P.son = std::make_shared<Rd>(e.mpi);
            auto of = ArrayGlobalOffset_Unknown;
            if (route == 0)
                P.father->ReadSerializer(s, "arr", of);
            else
                P.ReadSerialize(s, "arr", route >= 2);
            index after = 0;
            s->ReadIndex("after", after);
            if (after != 17)
                e.fail("path after array", "entry next to the array not found");
            auto check = [&](auto &a, const char *what)
            {
                if (a.Size() != n)
                    return e.fail("array size", "%s: wrote %d rows, read %ld", what, n, (long)a.Size());
                for (int i = 0; i < n; i++)
                    if (!AdR::ok(a, i, shape(off + i), off + i + 1))
                        return e.fail("array data", "%s: row %d is not what was written", what, i);
            };
            check(*P.father, "array");
            if (route == 3)
            {
                auto f2 = std::make_shared<Rd>(e.mpi);
                auto of2 = ArrayGlobalOffset_Unknown;
                f2->ReadSerializer(s, "arr2", of2);
                check(*f2, "second array");
            }
            s->CloseFile();
            if (route == 1 && P.son->Size() != 0)
                e.fail("array size", "ghost part has %ld rows, had none", (long)P.son->Size());
            if (route >= 2)
            {
                if (P.son->Size() != (index)pull.size())
                    return e.fail("array size", "ghost part: wrote %zu rows, read %ld", pull.size(), (long)P.son->Size());
                for (size_t k = 0; k < pull.size(); k++)
                    if (!AdR::ok(*P.son, k, shape(pull[k]), pull[k] + 1))
                        e.fail("array data", "ghost row %zu is not what was written", k);
                if (P.trans.pLGhostMapping->ghostIndex != pull)
                    e.fail("ghost list", "the restored ghost list differs");
                P.trans.createMPITypes();
                for (int i = 0; i < n; i++)
                    AdR::write(*P.father, i, shape(off + i), off + i + 40, 0);
                P.trans.pullOnce();
                for (size_t k = 0; k < pull.size(); k++)
                    if (!AdR::ok(*P.son, k, shape(pull[k]), pull[k] + 40))
                        e.fail("exchange after reading", "ghost row %zu does not follow its owner", k);
            }
        };
    }

    // ------------------------------------------------------------------ enumeration
    static std::string vs(const std::vector<int> &v)
    {
        std::string s;
        for (int x : v)
            s += vh::fmts("%d,", x);
        return s;
    }
    static void sizesOf(int R, const std::vector<int> &alpha, const std::function<void(const std::vector<int> &)> &f)
    {
        std::vector<int> s(R);
        std::function<void(int)> rec = [&](int r)
        {
            if (r == R)
                return f(s);
            for (int a : alpha)
                s[r] = a, rec(r + 1);
        };
        rec(0);
    }
    static void rgs(int n, const std::function<void(const std::vector<int> &)> &f)
    {
        std::vector<int> w(n);
        std::function<void(int, int)> rec = [&](int i, int mx)
        {
            if (i == n)
                return f(w);
            for (int a = 0; a <= mx; a++)
                w[i] = a, rec(i + 1, std::max(mx, a + 1));
        };
        rec(0, 0);
    }
    static std::vector<Settings> settings(bool h5, bool full)
    {
        std::vector<Settings> v;
        if (!h5)
        {
            for (bool c : {true, false})
                for (int l : {0, 1, 5, 9})
                {
                    Settings s;
                    s.codec = c, s.jdefl = l;
                    if (c || l == 0)
                        v.push_back(s);
                }
            return v;
        }
        const int cd[][2] = {{0, 0}, {1, 0}, {4, 0}, {1, 1}, {4, 5}, {100, 1}};
        for (auto &c : cd)
            for (int b = 0; b < 16; b++)
            {
                Settings s;
                s.chunk = c[0], s.defl = c[1];
                s.cm = b & 1, s.cd = b >> 1 & 1, s.cmr = b >> 2 & 1, s.cdr = b >> 3 & 1;
                if (full || b == 1 + 4 || b == 15 || (b == 0 && c[0] == 4) || (b == 1 + 2 + 4 && c[0] == 0))
                    v.push_back(s);
            }
        return v;
    }
    template <class AdW, class AdR = AdW>
    static void arrCases(const Sink &sink, bool h5, bool thorough, const char *name, int maxR, int &num, int nRoute = 4)
    {
        auto sets = settings(h5, false);
        auto caps = AdW::caps();
        int A = caps.alphabet.size(), nq = caps.uniform ? A : std::min(2 * A, 8);
        for (int R = 1; R <= maxR; R++)
            sizesOf(R, R < 3 ? std::vector<int>{0, 1, 2} : std::vector<int>{0, 2}, [&](const std::vector<int> &sz)
                    {
                for (int q = 0; q < nq; q++)
                    for (int route = 0; route < nRoute; route++)
                        for (int gp = 0; gp < (route >= 2 ? (R == 1 ? 1 : 4) : 1); gp++)
                        {
                            for (size_t k = 0; k < sets.size(); k++)
                                if (thorough || k == 0 || (num + (int)k) % 4 == 0)
                                    sink(vh::fmts("%s rows %s shapes #%d route %d ghosts %d %s", name, vs(sz).c_str(), q, route, gp, sets[k].str(h5).c_str()), R,
                                         num % 97 == 0, arrProg<AdW, AdR>(sets[k], sz, q, route, gp));
                            num++;
                        } });
    }
    static void enumerate(const Sink &sink, bool h5, bool thorough)
    {
        int num = 0;
        const int maxR = h5 ? 3 : 2;
        auto all = settings(h5, true), few = settings(h5, false);
        // vectors
        for (int R = 1; R <= maxR; R++)
            for (int mode = 0; mode < 3; mode++)
                for (int type = 0; type < (mode == 2 ? 4 : 6); type++)
                    sizesOf(R, {0, 1, 3}, [&](const std::vector<int> &sz)
                            {
                        if (mode == 2 && std::count(sz.begin(), sz.end(), sz[0]) != R)
                            return;
                        std::vector<int> rev(sz.rbegin(), sz.rend());
                        for (auto &st : all)
                        {
                            if (type >= 4 && R == 3 && !(st.cm && st.cmr))
                                continue;
                            sink(vh::fmts("vector type %d sizes %s mode %d %s", type, vs(sz).c_str(), mode, st.str(h5).c_str()), R, num % 41 == 0 || (R == 2 && mode == 2 && num % 7 == 0),
                                 vecProg(st, {{type, sz, mode}, {0, rev, mode == 2 ? 0 : mode}, {type == 3 ? 2 : 3, rev, 0}}));
                            num++;
                        } });
        // every byte value, larger than a compression block
        for (auto &st : few)
            for (int n : {256, 1000, 70001})
                sink(vh::fmts("bytes %d %s", n, st.str(h5).c_str()), 1, true, vecProg(st, {{3, {n}, 0}, {2, {n}, 0}}));
        // scalars
        for (int R = 1; R <= 2; R++)
            for (int a = 0; a < 8; a++)
                for (int b = 0; b < 8; b++)
                    for (auto &st : few)
                        sink(vh::fmts("scalars %d %d %s", a, b, st.str(h5).c_str()), R, num++ % 29 == 0, scalProg(st, a, b));
        // navigation
        const int L = thorough ? 5 : 4;
        for (int len = 1; len <= L; len++)
        {
            int tot = 1;
            for (int i = 0; i < len; i++)
                tot *= 9;
            for (int k = 0; k < tot; k++)
            {
                std::vector<int> w;
                std::string d;
                for (int i = 0, kk = k; i < len; i++, kk /= 9)
                    w.push_back(kk % 9), d += std::string("[") + navA[kk % 9] + "]";
                for (int R = 1; R <= (len < 4 ? 2 : 1); R++)
                    sink("paths " + d, R, num++ % 401 == 0, navProg(few[num % few.size()], w));
            }
        }
        // shared vectors
        for (int R = 1; R <= maxR; R++)
            for (int n = 2; n <= (R == 1 ? 5 : R == 2 ? 4 : 3); n++)
            {
                std::vector<std::vector<int>> pats;
                rgs(n, [&](const std::vector<int> &w) { pats.push_back(w); });
                std::vector<int> ids;
                for (size_t i = 0; i < pats.size(); i++)
                    ids.push_back(i);
                sizesOf(R, ids, [&](const std::vector<int> &c)
                        {
                    for (int type = 0; type < 2; type++)
                        for (int fe = 0; fe < 2; fe++)
                            for (int rm = 0; rm < 4; rm++)
                                for (int nf = 1; nf <= 2; nf++)
                                    for (int size : {0, 3})
                                    {
                                        ShareProg p;
                                        for (int r = 0; r < R; r++)
                                            p.pat.push_back(pats[c[r]]);
                                        p.type = type, p.freeEarly = fe, p.readMode = rm, p.nfile = nf, p.sizeOf = size;
                                        auto st = few[num % few.size()];
                                        std::string d;
                                        for (auto &x : p.pat)
                                            d += vs(x) + " ";
                                        sink(vh::fmts("shared vectors %sof type %d size %d dropped early %d read mode %d files %d %s", d.c_str(), type, size, fe, rm, nf, st.str(h5).c_str()), R,
                                             num % 499 == 0, [=](Env &e)
                                             { type ? shareRun<rowsize>(e, st, p) : shareRun<index>(e, st, p); });
                                        num++;
                                    } });
            }
        // arrays
        constexpr rowsize D = DynamicSize, N = NonUniformSize;
        constexpr int ED = Eigen::Dynamic;
        auto rawT = [&](auto t, const char *nm)
        {
            using T = decltype(t);
            auto s = std::string("array<") + nm;
            arrCases<RawA<T, 3, 3>>(sink, h5, thorough, (s + ",3>").c_str(), maxR, num);
            arrCases<RawA<T, D, D>>(sink, h5, thorough, (s + ",Dyn>").c_str(), 2, num);
            arrCases<RawA<T, N, 2>>(sink, h5, thorough, (s + ",Non,2>").c_str(), 2, num);
            arrCases<RawA<T, N, D>>(sink, h5, thorough, (s + ",Non,Dyn>").c_str(), 2, num);
            arrCases<RawA<T, N, N>>(sink, h5, thorough, (s + ",Non>").c_str(), maxR, num);
        };
        rawT(index(), "index");
        rawT(real(), "real");
        rawT(B3(), "3 bytes");
        rawT(X2(), "16 bytes");
        rawT(rowsize(), "rowsize");
        arrCases<AdjA<2, 2>>(sink, h5, thorough, "Adjacency<2>", 2, num);
        arrCases<AdjA<N, N>>(sink, h5, thorough, "Adjacency<Non>", maxR, num);
        arrCases<IdxA>(sink, h5, thorough, "Index", 2, num);
        arrCases<VecA<2, 2>>(sink, h5, thorough, "Vector<2>", 2, num);
        arrCases<VecA<D, D>>(sink, h5, thorough, "Vector<Dyn>", 2, num);
        arrCases<VecA<N, N>>(sink, h5, thorough, "Vector<Non>", 2, num);
        arrCases<MatA<2, 2>>(sink, h5, thorough, "Matrix<2,2>", 2, num);
        arrCases<MatA<3, 1>>(sink, h5, thorough, "Matrix<3,1>", 2, num);
        arrCases<MatA<2, D>>(sink, h5, thorough, "Matrix<2,Dyn>", 2, num);
        arrCases<MatA<D, 2>>(sink, h5, thorough, "Matrix<Dyn,2>", 2, num);
        arrCases<MatA<D, D>>(sink, h5, thorough, "Matrix<Dyn,Dyn>", 2, num);
        // (ghost copies of matrices of different shapes are not supported)
        arrCases<MatA<N, N>>(sink, h5, thorough, "Matrix<Non,Non>", 2, num, 2);
        arrCases<MatA<N, 2>>(sink, h5, thorough, "Matrix<Non,2>", 2, num, 2);
        arrCases<MatA<2, N>>(sink, h5, thorough, "Matrix<2,Non>", 2, num, 2);
        arrCases<MatA<D, N>>(sink, h5, thorough, "Matrix<Dyn,Non>", 2, num, 2);
        arrCases<MatA<N, N, D, D>>(sink, h5, thorough, "Matrix<Non,Non,Dyn,Dyn>", 2, num, 2);
        arrCases<MatA<N, N, 3, 2>>(sink, h5, thorough, "Matrix<Non,Non,3,2>", 2, num, 2);
        // a static width is read by a dynamic type and back
        arrCases<VecA<2, 2>, VecA<D, D>>(sink, h5, thorough, "Vector<2> read as Vector<Dyn>", 2, num);
        arrCases<Wide2<VecA<D, D>>, VecA<2, 2>>(sink, h5, thorough, "Vector<Dyn> read as Vector<2>", 2, num);
        arrCases<AdjA<2, 2>, AdjA<D, D>>(sink, h5, thorough, "Adjacency<2> read as Adjacency<Dyn>", 2, num);
        arrCases<AdjA<N, 2>, AdjA<N, D>>(sink, h5, thorough, "Adjacency<Non,2> read as Adjacency<Non,Dyn>", 2, num);
        arrCases<MatA<3, 1>, MatA<D, 1>>(sink, h5, thorough, "Matrix<3,1> read as Matrix<Dyn,1>", 2, num);
        arrCases<MatA<2, 2>, MatA<D, D>>(sink, h5, thorough, "Matrix<2,2> read as Matrix<Dyn,Dyn>", 2, num);
        arrCases<MatA<2, 2>, MatA<D, 2>>(sink, h5, thorough, "Matrix<2,2> read as Matrix<Dyn,2>", 2, num);
        arrCases<Wide2<MatA<D, 2>>, MatA<2, 2>>(sink, h5, thorough, "Matrix<Dyn,2> read as Matrix<2,2>", 2, num);
        arrCases<BatA>(sink, h5, thorough, "MatrixBatch", 2, num);
        arrCases<UniA<2, 1, 2, 1>>(sink, h5, thorough, "UniBatch<2,1>", 2, num);
        arrCases<UniA<ED, ED, 2, 3>>(sink, h5, thorough, "UniBatch<Dyn,Dyn>", 2, num);
    }
#ifndef SER_REAL
    static void body(vh::Ctx &ctx)
    {
        simAttach(ctx);
        bool h5 = ctx.opts["mode"] != "json";
        std::string dir = ctx.scratch + vh::fmts("/w%ld", (long)ctx.shard);
        mkdir(dir.c_str(), 0700);
        std::vector<std::vector<sim::Config>> cfgs;
        for (int R = 0; R <= 3; R++)
            cfgs.push_back(R ? sim::allConfigs(R, false) : std::vector<sim::Config>());
        long n = 0;
        enumerate([&](const std::string &desc, int R, bool, const Fn &f)
                  {
            n++;
            if (!ctx.take("%d ranks: %s", R, desc.c_str()))
                return;
            auto &cfg = cfgs[R][n % cfgs[R].size()];
            ctx.note(cfg.str());
            fakeh5::reset();
            std::vector<uint64_t> hs(R);
            auto st = sim::run(R, cfg, nullptr, [&](int r)
                               {
                Env e;
                e.mpi.setWorld();
                e.h5 = h5, e.dir = dir;
                e.failF = [&](const std::string &k, const std::string &m) { ctx.fail(k, "%s", m.c_str()); };
                f(e);
                hs[r] = e.hash; });
            if (fakeh5::handles())
                ctx.fail("open handles", "%zu HDF5 objects are still open after all files were closed", fakeh5::handles());
            addStats(ctx, st);
            ctx.nTraces++;
            vh::Hash h;
            h.add(desc).add(R).addv(hs);
            ctx.state(h.h); },
                  h5, ctx.thorough);
    }
#endif
}
#ifndef SER_REAL
int main(int argc, char **argv)
{
    return vh::run(argc, argv, [&](vh::Ctx &ctx)
                   { DNDS::vf::body(ctx); });
}
#else
#include "ser_real.hpp"
#endif
