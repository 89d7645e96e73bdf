// A small stand-in for the parallel HDF5 library: files live in memory, every call HDF5 defines as collective is
// a collective of the simulated MPI world and its arguments have to agree on all ranks, transfers move real bytes.
// Errors are reported the way HDF5 does (negative values).
#include <hdf5.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#undef H5Acreate2
#undef H5Dcreate2
#undef H5Dopen2
#undef H5Gcreate2
#undef H5Gopen2
namespace fakeh5
{
    struct Type
    {
        int kind = 0; // 0 signed int, 1 unsigned int, 2 float, 3 string
        size_t size = 0;
        bool operator==(const Type &o) const { return kind == o.kind && size == o.size; }
    };
    struct Obj;
    using ObjP = std::shared_ptr<Obj>;
    struct Obj
    {
        int kind = 0; // 0 group, 1 dataset, 2 attribute
        uint64_t born = 0;
        std::map<std::string, ObjP> kids, attrs;
        Type type;
        std::vector<hsize_t> dims, maxdims;
        bool filter = false;
        std::vector<uint8_t> data;
    };
    struct File
    {
        ObjP root;
        uint64_t stamp = 0;
        int open = 0;     // handles of all ranks
        bool broken = false;
    };
    using FileP = std::shared_ptr<File>;
    struct Open // one open of one file by one rank
    {
        FileP f;
        MPI_Comm comm = MPI_COMM_NULL;
        bool collMeta = false, ro = false;
        uint64_t seq = 0;
        int objs = 0;
        bool closed = false;
    };
    using OpenP = std::shared_ptr<Open>;
    struct Handle
    {
        char kind = 0; // F file, G group, D dataset, A attribute, S space, T type, P property list
        OpenP o;
        ObjP obj;
        Type type;
        std::vector<hsize_t> dims, maxdims, off, cnt;
        bool scalar = false, sel = false;
        // property list
        hid_t cls = 0;
        MPI_Comm comm = MPI_COMM_NULL;
        bool collMeta = false, collXfer = false, deflate = false;
        std::vector<hsize_t> chunk;
    };
    static std::map<hid_t, std::shared_ptr<Handle>> H;
    static hid_t nextH = 1000;
    static std::map<std::string, FileP> disk;
    static uint64_t clockNow = 0;
    void reset()
    {
        H.clear();
        disk.clear();
    }
    size_t handles() { return H.size(); }
    static hid_t put(Handle h)
    {
        hid_t id = nextH++;
        H[id] = std::make_shared<Handle>(std::move(h));
        if (H[id]->o && H[id]->kind != 'F')
            H[id]->o->objs++;
        return id;
    }
    static Handle *get(hid_t id, const char *kinds)
    {
        auto it = H.find(id);
        if (it == H.end() || !strchr(kinds, it->second->kind))
            return nullptr;
        return it->second.get();
    }
    static herr_t drop(hid_t id, char kind)
    {
        auto *h = get(id, std::string(1, kind).c_str());
        if (!h)
            return -1;
        if (h->o && kind != 'F')
            h->o->objs--;
        H.erase(id);
        return 0;
    }
    struct Sig
    {
        uint64_t h = 1469598103934665603ull;
        Sig &add(const void *p, size_t n)
        {
            for (size_t i = 0; i < n; i++)
                h = (h ^ ((const uint8_t *)p)[i]) * 1099511628211ull;
            return *this;
        }
        Sig &str(const std::string &s) { return add(s.c_str(), s.size() + 1); }
        Sig &num(uint64_t v) { return add(&v, sizeof v); }
    };
    // a call HDF5 requires from all ranks of the file, with the same arguments
    static void collective(Open &o, const char *what, const Sig &s)
    {
        long long v = (long long)(s.h >> 2), mm[2] = {v, -v}, r[2];
        MPI_Allreduce(mm, r, 2, MPI_LONG_LONG, MPI_MAX, o.comm);
        o.seq++;
        if (r[0] != v || r[1] != -v)
        {
            fprintf(stderr, "assertion failed: collective HDF5 call %s differs between ranks\n", what);
            abort();
        }
    }
    static uint64_t stampOf(const Open &o) { return o.f->stamp * 1000003ull + o.seq; }
    static ObjP walk(ObjP base, ObjP root, const std::string &path, bool parent, std::string *last = nullptr)
    {
        ObjP cur = !path.empty() && path[0] == '/' ? root : base;
        std::vector<std::string> parts;
        std::string s;
        for (char c : path + "/")
            if (c == '/')
            {
                if (!s.empty() && s != ".")
                    parts.push_back(s);
                s.clear();
            }
            else
                s += c;
        if (parent)
        {
            if (parts.empty())
                return nullptr;
            *last = parts.back();
            parts.pop_back();
        }
        for (auto &p : parts)
        {
            if (!cur || cur->kind != 0 || !cur->kids.count(p))
                return nullptr;
            cur = cur->kids[p];
        }
        return cur;
    }
    static bool collAcc(hid_t pl)
    {
        auto *p = get(pl, "P");
        return p && p->collMeta;
    }
}
using namespace fakeh5;
extern "C"
{
#define CLS(n) hid_t n
    hid_t H5P_CLS_ATTRIBUTE_ACCESS_ID_g = 11, H5P_CLS_DATASET_ACCESS_ID_g = 12, H5P_CLS_DATASET_CREATE_ID_g = 13, H5P_CLS_DATASET_XFER_ID_g = 14,
          H5P_CLS_FILE_ACCESS_ID_g = 15, H5P_CLS_GROUP_ACCESS_ID_g = 16, H5P_CLS_LINK_ACCESS_ID_g = 17, H5P_CLS_GROUP_CREATE_ID_g = 18,
          H5P_CLS_FILE_CREATE_ID_g = 19, H5P_CLS_LINK_CREATE_ID_g = 20, H5P_CLS_ATTRIBUTE_CREATE_ID_g = 21;
    hid_t H5T_NATIVE_DOUBLE_g = 31, H5T_NATIVE_INT32_g = 32, H5T_NATIVE_INT64_g = 33, H5T_NATIVE_INT_g = 34, H5T_NATIVE_UINT8_g = 35, H5T_C_S1_g = 36,
          H5T_NATIVE_UINT64_g = 37, H5T_NATIVE_UCHAR_g = 38, H5T_NATIVE_LLONG_g = 39, H5T_NATIVE_LONG_g = 40;
    static bool typeOf(hid_t id, Type &t)
    {
        switch (id)
        {
        case 31: t = {2, 8}; return true;
        case 32: case 34: t = {0, 4}; return true;
        case 33: case 39: case 40: t = {0, 8}; return true;
        case 35: case 38: t = {1, 1}; return true;
        case 36: t = {3, 1}; return true;
        case 37: t = {1, 8}; return true;
        }
        auto *h = get(id, "T");
        if (!h)
            return false;
        t = h->type;
        return true;
    }
    herr_t H5open() { return 0; }
    herr_t H5check_version(unsigned, unsigned, unsigned) { return 0; }
    herr_t H5free_memory(void *p) { free(p); return 0; }
    // ---- property lists
    hid_t H5Pcreate(hid_t cls)
    {
        if (cls < 11 || cls > 21)
            return -1;
        Handle h;
        h.kind = 'P', h.cls = cls;
        return put(h);
    }
    herr_t H5Pclose(hid_t id) { return id == H5P_DEFAULT ? 0 : drop(id, 'P'); }
    herr_t H5Pset_all_coll_metadata_ops(hid_t id, hbool_t v)
    {
        auto *p = get(id, "P");
        if (!p || !(p->cls == 11 || p->cls == 12 || p->cls == 15 || p->cls == 16 || p->cls == 17))
            return -1;
        p->collMeta = v;
        return 0;
    }
    herr_t H5Pset_coll_metadata_write(hid_t id, hbool_t)
    {
        auto *p = get(id, "P");
        return p && p->cls == 15 ? 0 : -1;
    }
    herr_t H5Pset_fapl_mpio(hid_t id, MPI_Comm c, MPI_Info)
    {
        auto *p = get(id, "P");
        if (!p || p->cls != 15)
            return -1;
        p->comm = c;
        return 0;
    }
    herr_t H5Pset_dxpl_mpio(hid_t id, H5FD_mpio_xfer_t m)
    {
        auto *p = get(id, "P");
        if (!p || p->cls != 14)
            return -1;
        p->collXfer = m == H5FD_MPIO_COLLECTIVE;
        return 0;
    }
    herr_t H5Pset_chunk(hid_t id, int nd, const hsize_t *d)
    {
        auto *p = get(id, "P");
        if (!p || p->cls != 13 || nd < 1)
            return -1;
        for (int i = 0; i < nd; i++)
            if (d[i] == 0)
                return -1;
        p->chunk.assign(d, d + nd);
        return 0;
    }
    herr_t H5Pset_deflate(hid_t id, unsigned l)
    {
        auto *p = get(id, "P");
        if (!p || p->cls != 13 || l > 9)
            return -1;
        p->deflate = true;
        return 0;
    }
    // ---- types
    hid_t H5Tcreate(H5T_class_t c, size_t n)
    {
        if (c != H5T_STRING || n == 0)
            return -1;
        Handle h;
        h.kind = 'T', h.type = {3, n};
        return put(h);
    }
    hid_t H5Tcopy(hid_t id)
    {
        Type t;
        if (!typeOf(id, t))
            return -1;
        Handle h;
        h.kind = 'T', h.type = t;
        return put(h);
    }
    herr_t H5Tset_size(hid_t id, size_t n)
    {
        auto *h = get(id, "T");
        if (!h || n == 0)
            return -1;
        h->type.size = n;
        return 0;
    }
    herr_t H5Tset_strpad(hid_t id, H5T_str_t) { return get(id, "T") && get(id, "T")->type.kind == 3 ? 0 : -1; }
    htri_t H5Tis_variable_str(hid_t id) { return get(id, "T") ? 0 : -1; }
    size_t H5Tget_size(hid_t id)
    {
        Type t;
        return typeOf(id, t) ? t.size : 0;
    }
    herr_t H5Tclose(hid_t id) { return drop(id, 'T'); }
    // ---- spaces
    hid_t H5Screate(H5S_class_t c)
    {
        if (c != H5S_SCALAR)
            return -1;
        Handle h;
        h.kind = 'S', h.scalar = true;
        return put(h);
    }
    hid_t H5Screate_simple(int n, const hsize_t *d, const hsize_t *mx)
    {
        if (n < 1)
            return -1;
        Handle h;
        h.kind = 'S';
        h.dims.assign(d, d + n);
        if (mx)
            h.maxdims.assign(mx, mx + n);
        else
            h.maxdims = h.dims;
        for (int i = 0; i < n; i++)
            if (h.maxdims[i] != H5S_UNLIMITED && h.maxdims[i] < h.dims[i])
                return -1;
        return put(h);
    }
    herr_t H5Sclose(hid_t id) { return drop(id, 'S'); }
    int H5Sget_simple_extent_ndims(hid_t id)
    {
        auto *h = get(id, "S");
        return h ? (int)h->dims.size() : -1;
    }
    int H5Sget_simple_extent_dims(hid_t id, hsize_t *d, hsize_t *mx)
    {
        auto *h = get(id, "S");
        if (!h)
            return -1;
        for (size_t i = 0; i < h->dims.size(); i++)
        {
            if (d)
                d[i] = h->dims[i];
            if (mx)
                mx[i] = h->maxdims[i];
        }
        return h->dims.size();
    }
    hssize_t H5Sget_simple_extent_npoints(hid_t id)
    {
        auto *h = get(id, "S");
        if (!h)
            return -1;
        hssize_t n = 1;
        for (auto d : h->dims)
            n *= d;
        return n;
    }
    herr_t H5Sselect_none(hid_t id)
    {
        auto *h = get(id, "S");
        if (!h)
            return -1;
        h->sel = true;
        h->off.assign(h->dims.size(), 0), h->cnt.assign(h->dims.size(), 0);
        return 0;
    }
    herr_t H5Sselect_hyperslab(hid_t id, H5S_seloper_t op, const hsize_t *st, const hsize_t *stride, const hsize_t *cnt, const hsize_t *blk)
    {
        auto *h = get(id, "S");
        if (!h || h->scalar || op != H5S_SELECT_SET || stride || blk)
            return -1;
        h->sel = true;
        h->off.assign(st, st + h->dims.size());
        h->cnt.assign(cnt, cnt + h->dims.size());
        return 0;
    }
    static bool region(const Handle &s, size_t &off, size_t &n, size_t &tot)
    {
        // rows of one or two dimensions; a selection spans whole rows
        size_t w = s.dims.size() == 2 ? s.dims[1] : 1;
        tot = s.dims[0] * w;
        if (!s.sel)
        {
            off = 0, n = tot;
            return true;
        }
        n = s.cnt[0] * (s.dims.size() == 2 ? s.cnt[1] : 1);
        off = s.off[0] * w;
        if (n == 0)
            return true;
        if (s.dims.size() == 2 && (s.off[1] != 0 || s.cnt[1] != s.dims[1]))
            return false;
        return s.off[0] + s.cnt[0] <= s.dims[0];
    }
    // ---- files
    static hid_t openFile(const char *name, bool create, bool ro, hid_t fapl)
    {
        auto *p = get(fapl, "P");
        if (!p || p->cls != 15 || p->comm == MPI_COMM_NULL)
            return -1;
        auto o = std::make_shared<Open>();
        MPI_Comm_dup(p->comm, &o->comm);
        o->collMeta = p->collMeta;
        o->ro = ro;
        collective(*o, create ? "H5Fcreate" : "H5Fopen", Sig().str(name).num(create).num(ro));
        int r;
        MPI_Comm_rank(o->comm, &r);
        bool bad = false;
        if (r == 0)
        {
            if (create)
            {
                if (disk.count(name) && disk[name]->open > 0)
                    bad = true;
                else
                {
                    disk[name] = std::make_shared<File>();
                    disk[name]->root = std::make_shared<Obj>();
                    disk[name]->stamp = ++clockNow;
                    disk[name]->broken = true; // until closed
                }
            }
            else
                bad = !disk.count(name) || disk[name]->broken;
        }
        long long b = bad, ball;
        MPI_Allreduce(&b, &ball, 1, MPI_LONG_LONG, MPI_MAX, o->comm);
        if (ball)
        {
            MPI_Comm_free(&o->comm);
            return -1;
        }
        o->f = disk[name];
        o->f->open++;
        Handle h;
        h.kind = 'F', h.o = o, h.obj = o->f->root;
        return put(h);
    }
    hid_t H5Fcreate(const char *n, unsigned, hid_t, hid_t fapl) { return openFile(n, true, false, fapl); }
    hid_t H5Fopen(const char *n, unsigned fl, hid_t fapl) { return openFile(n, false, !(fl & H5F_ACC_RDWR), fapl); }
    herr_t H5Fclose(hid_t id)
    {
        auto *h = get(id, "F");
        if (!h)
            return -1;
        auto o = h->o;
        collective(*o, "H5Fclose", Sig().num(o->f->stamp));
        long long n = o->objs, nn;
        MPI_Allreduce(&n, &nn, 1, MPI_LONG_LONG, MPI_MAX, o->comm);
        if (nn) // files opened through MPI do not close while objects in them are open
            return -1;
        o->f->open--;
        if (!o->ro)
            o->f->broken = false;
        drop(id, 'F');
        MPI_Comm_free(&o->comm);
        return 0;
    }
    // ---- groups and links
    hid_t H5Gcreate2(hid_t loc, const char *name, hid_t, hid_t, hid_t)
    {
        auto *h = get(loc, "FG");
        if (!h || h->o->ro)
            return -1;
        collective(*h->o, "H5Gcreate", Sig().str(name));
        std::string last;
        auto par = walk(h->obj, h->o->f->root, name, true, &last);
        if (!par || par->kind != 0)
            return -1;
        auto &k = par->kids[last];
        if (k && k->born != stampOf(*h->o))
            return -1;
        if (!k)
            k = std::make_shared<Obj>(), k->born = stampOf(*h->o);
        Handle g;
        g.kind = 'G', g.o = h->o, g.obj = k;
        return put(g);
    }
    hid_t H5Gopen2(hid_t loc, const char *name, hid_t pl)
    {
        auto *h = get(loc, "FG");
        if (!h)
            return -1;
        if (h->o->collMeta || collAcc(pl))
            collective(*h->o, "H5Gopen", Sig().str(name));
        auto x = walk(h->obj, h->o->f->root, name, false);
        if (!x || x->kind != 0)
            return -1;
        Handle g;
        g.kind = 'G', g.o = h->o, g.obj = x;
        return put(g);
    }
    herr_t H5Gclose(hid_t id) { return drop(id, 'G'); }
    htri_t H5Lexists(hid_t loc, const char *name, hid_t pl)
    {
        auto *h = get(loc, "FG");
        if (!h)
            return -1;
        if (h->o->collMeta || collAcc(pl))
            collective(*h->o, "H5Lexists", Sig().str(name));
        std::string last;
        auto par = walk(h->obj, h->o->f->root, name, true, &last);
        if (!par || par->kind != 0)
            return -1;
        return par->kids.count(last) ? 1 : 0;
    }
    // ---- attributes
    hid_t H5Acreate2(hid_t loc, const char *name, hid_t type, hid_t space, hid_t, hid_t)
    {
        auto *h = get(loc, "FGD");
        auto *s = get(space, "S");
        Type t;
        if (!h || !s || !typeOf(type, t) || h->o->ro)
            return -1;
        collective(*h->o, "H5Acreate", Sig().str(name).num(t.kind).num(t.size));
        auto &a = h->obj->attrs[name];
        if (a && a->born != stampOf(*h->o))
            return -1;
        if (!a)
        {
            a = std::make_shared<Obj>();
            a->kind = 2, a->born = stampOf(*h->o), a->type = t, a->dims = s->dims;
            size_t n = 1;
            for (auto d : s->dims)
                n *= d;
            a->data.assign(n * t.size, 0);
        }
        Handle g;
        g.kind = 'A', g.o = h->o, g.obj = a;
        return put(g);
    }
    hid_t H5Aopen(hid_t loc, const char *name, hid_t pl)
    {
        auto *h = get(loc, "FGD");
        if (!h)
            return -1;
        if (h->o->collMeta || collAcc(pl))
            collective(*h->o, "H5Aopen", Sig().str(name));
        if (!h->obj->attrs.count(name))
            return -1;
        Handle g;
        g.kind = 'A', g.o = h->o, g.obj = h->obj->attrs[name];
        return put(g);
    }
    htri_t H5Aexists(hid_t loc, const char *name)
    {
        auto *h = get(loc, "FGD");
        if (!h)
            return -1;
        if (h->o->collMeta)
            collective(*h->o, "H5Aexists", Sig().str(name));
        return h->obj->attrs.count(name) ? 1 : 0;
    }
    hid_t H5Aget_space(hid_t id)
    {
        auto *h = get(id, "A");
        if (!h)
            return -1;
        Handle s;
        s.kind = 'S', s.scalar = h->obj->dims.empty(), s.dims = s.maxdims = h->obj->dims;
        return put(s);
    }
    hid_t H5Aget_type(hid_t id)
    {
        auto *h = get(id, "A");
        if (!h)
            return -1;
        Handle s;
        s.kind = 'T', s.type = h->obj->type;
        return put(s);
    }
    herr_t H5Awrite(hid_t id, hid_t type, const void *buf)
    {
        auto *h = get(id, "A");
        Type t;
        if (!h || !typeOf(type, t) || !(t == h->obj->type))
            return -1;
        collective(*h->o, "H5Awrite", Sig().add(buf, h->obj->data.size()));
        memcpy(h->obj->data.data(), buf, h->obj->data.size());
        return 0;
    }
    herr_t H5Aread(hid_t id, hid_t type, void *buf)
    {
        auto *h = get(id, "A");
        Type t;
        if (!h || !typeOf(type, t) || !(t == h->obj->type))
            return -1;
        memcpy(buf, h->obj->data.data(), h->obj->data.size());
        return 0;
    }
    herr_t H5Aclose(hid_t id) { return drop(id, 'A'); }
    // ---- datasets
    hid_t H5Dcreate2(hid_t loc, const char *name, hid_t type, hid_t space, hid_t, hid_t dcpl, hid_t)
    {
        auto *h = get(loc, "FG");
        auto *s = get(space, "S");
        auto *c = get(dcpl, "P");
        Type t;
        if (!h || !s || s->scalar || !typeOf(type, t) || h->o->ro)
            return -1;
        Sig g;
        g.str(name).num(t.kind).num(t.size);
        for (auto d : s->dims)
            g.num(d);
        for (auto d : s->maxdims)
            g.num(d);
        if (c)
            for (auto d : c->chunk)
                g.num(d);
        g.num(c && c->deflate);
        collective(*h->o, "H5Dcreate", g);
        bool chunked = c && !c->chunk.empty(), unl = false;
        for (size_t i = 0; i < s->dims.size(); i++)
        {
            unl = unl || s->maxdims[i] != s->dims[i];
            if (chunked && c->chunk.size() == s->dims.size() && s->maxdims[i] != H5S_UNLIMITED && c->chunk[i] > s->maxdims[i])
                return -1;
        }
        if ((chunked && c->chunk.size() != s->dims.size()) || (unl && !chunked) || (c && c->deflate && !chunked))
            return -1;
        std::string last;
        auto par = walk(h->obj, h->o->f->root, name, true, &last);
        if (!par || par->kind != 0)
            return -1;
        auto &k = par->kids[last];
        if (k && k->born != stampOf(*h->o))
            return -1;
        if (!k)
        {
            k = std::make_shared<Obj>();
            k->kind = 1, k->born = stampOf(*h->o), k->type = t, k->dims = s->dims, k->maxdims = s->maxdims, k->filter = c && c->deflate;
            size_t n = t.size;
            for (auto d : s->dims)
                n *= d;
            k->data.assign(n, 0);
        }
        Handle d;
        d.kind = 'D', d.o = h->o, d.obj = k;
        return put(d);
    }
    hid_t H5Dopen2(hid_t loc, const char *name, hid_t pl)
    {
        auto *h = get(loc, "FG");
        if (!h)
            return -1;
        if (h->o->collMeta || collAcc(pl))
            collective(*h->o, "H5Dopen", Sig().str(name));
        auto x = walk(h->obj, h->o->f->root, name, false);
        if (!x || x->kind != 1)
            return -1;
        Handle d;
        d.kind = 'D', d.o = h->o, d.obj = x;
        return put(d);
    }
    hid_t H5Dget_space(hid_t id)
    {
        auto *h = get(id, "D");
        if (!h)
            return -1;
        Handle s;
        s.kind = 'S', s.dims = h->obj->dims, s.maxdims = h->obj->maxdims;
        return put(s);
    }
    static herr_t xfer(hid_t id, hid_t mt, hid_t ms, hid_t fs, hid_t pl, void *buf, bool write)
    {
        auto *h = get(id, "D");
        auto *p = get(pl, "P");
        Type t;
        if (!h || !typeOf(mt, t))
            return -1;
        bool coll = p && p->collXfer;
        if (coll)
            collective(*h->o, write ? "H5Dwrite" : "H5Dread", Sig().num(h->obj->born));
        if (write && (h->o->ro || (h->obj->filter && !coll)))
            return -1; // filtered datasets can only be written collectively
        if (!(t == h->obj->type))
            return -1;
        size_t mo = 0, mn = 0, mtot = 0, fo = 0, fn = 0, ft = 0;
        auto *S = get(ms, "S"), *F = get(fs, "S");
        if (!S || !F || !region(*S, mo, mn, mtot) || !region(*F, fo, fn, ft) || mn != fn)
            return -1;
        if (coll && h->obj->filter && ft == 0)
            return -1; // as HDF5 1.10: the chunk index of an empty filtered dataset cannot be loaded
        if (fn && !buf)
            return -1;
        if (fn && write)
            memcpy(h->obj->data.data() + fo * t.size, (const uint8_t *)buf + mo * t.size, fn * t.size);
        else if (fn)
            memcpy((uint8_t *)buf + mo * t.size, h->obj->data.data() + fo * t.size, fn * t.size);
        return 0;
    }
    herr_t H5Dwrite(hid_t id, hid_t mt, hid_t ms, hid_t fs, hid_t pl, const void *buf) { return xfer(id, mt, ms, fs, pl, (void *)buf, true); }
    herr_t H5Dread(hid_t id, hid_t mt, hid_t ms, hid_t fs, hid_t pl, void *buf) { return xfer(id, mt, ms, fs, pl, buf, false); }
    herr_t H5Dclose(hid_t id) { return drop(id, 'D'); }
}
