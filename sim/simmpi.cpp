#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include "simmpi.hpp"
#include <ucontext.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <deque>
#include <memory>
#include <set>
#include <algorithm>
#include <time.h>

// ---------------------------------------------------------------- handles
enum Basic
{
    B_NULL, B_BYTE, B_I8, B_U8, B_I16, B_U16, B_I32, B_U32, B_I64, B_U64, B_F32, B_F64, B_LD, B_BOOL, B_OTHER
};
struct ompi_datatype_t
{
    Basic basic = B_NULL;
    size_t bsize = 0;
    bool predefined = true, committed = true;
    int refs = 1;
    MPI_Aint extent = 0;
    std::vector<std::pair<MPI_Aint, size_t>> blocks; // byte offset, byte length; only for derived types
    size_t packed = 0;                               // bytes of payload
    bool freed = false;
};
struct ompi_predefined_datatype_t
{
    ompi_datatype_t dt;
    ompi_predefined_datatype_t(Basic b, size_t s)
    {
        dt.basic = b, dt.bsize = s, dt.extent = s, dt.packed = s;
    }
};
enum OpK
{
    O_NULL, O_SUM, O_MAX, O_MIN, O_PROD, O_LAND, O_LOR, O_BAND, O_BOR, O_LXOR, O_BXOR, O_OTHER
};
struct ompi_op_t
{
    OpK k;
};
struct ompi_predefined_op_t
{
    ompi_op_t op;
};
struct Coll;
struct ompi_communicator_t
{
    int id;
    bool null, self, dup = false, freed = false;
};
struct ompi_predefined_communicator_t
{
    ompi_communicator_t c;
};
enum ReqK
{
    R_NULL, R_SEND, R_SSEND, R_RECV, R_COLL
};
struct ompi_request_t
{
    ReqK k = R_NULL;
    bool persistent = false, active = false, freed = false;
    int owner = -1, peer = -1, tag = 0;
    void *buf = nullptr;
    int count = 0;
    MPI_Datatype type = nullptr;
    MPI_Comm comm = nullptr;
    std::vector<char> snap; // send: packed data at start; recv: saved buffer contents
    ompi_request_t *match = nullptr;
    bool eagerDone = false;   // send completed locally
    bool transferred = false; // data delivered
    std::shared_ptr<std::vector<char>> msg; // delivered payload of eager message
    std::shared_ptr<Coll> coll;
    uint64_t id = 0;
};
struct ompi_predefined_request_t
{
    ompi_request_t r;
};
#define DT(n, b, s) ompi_predefined_datatype_t n(b, s);
extern "C"
{
    DT(ompi_mpi_datatype_null, B_NULL, 0) DT(ompi_mpi_byte, B_BYTE, 1) DT(ompi_mpi_char, B_I8, 1) DT(ompi_mpi_signed_char, B_I8, 1)
    DT(ompi_mpi_unsigned_char, B_U8, 1) DT(ompi_mpi_int8_t, B_I8, 1) DT(ompi_mpi_uint8_t, B_U8, 1)
    DT(ompi_mpi_int16_t, B_I16, 2) DT(ompi_mpi_uint16_t, B_U16, 2) DT(ompi_mpi_short, B_I16, 2) DT(ompi_mpi_unsigned_short, B_U16, 2)
    DT(ompi_mpi_int, B_I32, 4) DT(ompi_mpi_int32_t, B_I32, 4) DT(ompi_mpi_uint32_t, B_U32, 4) DT(ompi_mpi_unsigned, B_U32, 4)
    DT(ompi_mpi_long, B_I64, 8) DT(ompi_mpi_int64_t, B_I64, 8) DT(ompi_mpi_uint64_t, B_U64, 8) DT(ompi_mpi_unsigned_long, B_U64, 8)
    DT(ompi_mpi_long_long_int, B_I64, 8) DT(ompi_mpi_unsigned_long_long, B_U64, 8) DT(ompi_mpi_aint, B_I64, 8)
    DT(ompi_mpi_float, B_F32, 4) DT(ompi_mpi_real4, B_F32, 4) DT(ompi_mpi_double, B_F64, 8) DT(ompi_mpi_real8, B_F64, 8)
    DT(ompi_mpi_real, B_F32, 4) DT(ompi_mpi_long_double, B_LD, sizeof(long double)) DT(ompi_mpi_c_bool, B_BOOL, 1) DT(ompi_mpi_cxx_bool, B_BOOL, 1)
    DT(ompi_mpi_packed, B_BYTE, 1)
    ompi_predefined_op_t ompi_mpi_op_null{{O_NULL}}, ompi_mpi_op_sum{{O_SUM}}, ompi_mpi_op_max{{O_MAX}}, ompi_mpi_op_min{{O_MIN}},
        ompi_mpi_op_prod{{O_PROD}}, ompi_mpi_op_land{{O_LAND}}, ompi_mpi_op_lor{{O_LOR}}, ompi_mpi_op_band{{O_BAND}}, ompi_mpi_op_bor{{O_BOR}},
        ompi_mpi_op_lxor{{O_LXOR}}, ompi_mpi_op_bxor{{O_BXOR}}, ompi_mpi_op_maxloc{{O_OTHER}}, ompi_mpi_op_minloc{{O_OTHER}};
    ompi_predefined_communicator_t ompi_mpi_comm_world{{0, false, false}}, ompi_mpi_comm_null{{-1, true, false}}, ompi_mpi_comm_self{{1, false, true}};
    ompi_predefined_request_t ompi_request_null{};
    struct ompi_predefined_info_t { int x; };
    ompi_predefined_info_t ompi_mpi_info_null{0};
}
// no real sleeping inside the simulation
extern "C" int nanosleep(const struct timespec *, struct timespec *) { return 0; }

namespace sim
{
    std::function<void(const std::string &)> fatal = [](const std::string &m)
    { fprintf(stderr, "SIM FATAL: %s\n", m.c_str()); _exit(86); };
    bool checkLeaks = true;
    bool checkSendBuffers = true;
}
using sim::fatal;

// ---------------------------------------------------------------- collectives
enum CollK
{
    C_BARRIER, C_BCAST, C_ALLREDUCE, C_SCAN, C_ALLGATHER, C_ALLTOALL, C_ALLTOALLV, C_DUP, C_GATHER
};
static const char *collName[] = {"Barrier", "Bcast", "Allreduce", "Scan", "Allgather", "Alltoall", "Alltoallv", "Comm_dup", "Gather"};
struct CollArg
{
    bool here = false, done = false;
    const void *send = nullptr;
    void *recv = nullptr;
    int scount = 0, rcount = 0;
    MPI_Datatype st = nullptr, rt = nullptr;
    std::vector<int> sc, sd, rc, rd;
    std::vector<char> in; // snapshot of the input
};
struct Coll
{
    CollK k;
    bool nb;
    int root;
    OpK op;
    MPI_Comm comm;
    std::vector<CollArg> a;
    int arrived = 0;
    bool checked = false;
    MPI_Comm newComm = nullptr;
};

// ---------------------------------------------------------------- world
struct Fiber
{
    ucontext_t ctx;
    char *stack = nullptr;
    bool started = false, done = false;
    std::function<bool()> pred; // empty: runnable
    std::string what;
    bool testFailed = false;
};
struct World
{
    int n = 0;
    sim::Config cfg;
    sim::Chooser *ch = nullptr;
    std::vector<Fiber> f;
    ucontext_t mainCtx;
    int cur = -1;
    sim::Stats st;
    std::map<std::pair<int, std::vector<int>>, std::deque<ompi_request_t *>> sendQ, recvQ; // key: comm id, (dst, src, tag)
    std::map<int, std::vector<size_t>> collSeq;                                            // comm -> per rank counter
    std::map<int, std::deque<std::shared_ptr<Coll>>> colls;
    std::map<int, size_t> collBase;
    std::set<ompi_request_t *> reqs;
    std::set<ompi_datatype_t *> types;
    std::set<ompi_communicator_t *> comms;
    uint64_t idc = 0;
    const std::function<void(int)> *body = nullptr;
    std::string err;
};
static World *W = nullptr;
static std::vector<char *> stackPool;
static const size_t STK = 8u << 20;

bool sim::inWorld() { return W && W->cur >= 0; }
int sim::rank() { return W ? W->cur : 0; }
int sim::size() { return W ? W->n : 1; }

static void die(const std::string &m)
{
    fatal("rank " + std::to_string(W ? W->cur : -1) + ": " + m);
    _exit(86);
}

static void fiberMain()
{
    int r = W->cur;
    try
    {
        (*W->body)(r);
    }
    catch (std::exception &e)
    {
        die(std::string("uncaught exception: ") + e.what());
    }
    catch (...)
    {
        die("uncaught exception");
    }
    W->f[r].done = true;
    swapcontext(&W->f[r].ctx, &W->mainCtx);
}
static void yieldTo()
{
    auto &f = W->f[W->cur];
    swapcontext(&f.ctx, &W->mainCtx);
}
// a scheduling point: any runnable rank may proceed
static void point()
{
    if (!sim::inWorld())
        return;
    W->st.mpiCalls++;
    yieldTo();
}
static void blockUntil(std::function<bool()> p, const std::string &what)
{
    if (p())
        return;
    if (!sim::inWorld())
        die("blocking call outside world would never complete: " + what);
    auto &f = W->f[W->cur];
    f.pred = std::move(p);
    f.what = what;
    yieldTo();
    f.pred = nullptr;
}

static int mySize(MPI_Comm c) { return (c->self || !sim::inWorld()) ? 1 : W->n; }
static int myRank(MPI_Comm c) { return (c->self || !sim::inWorld()) ? 0 : W->cur; }

// ---------------------------------------------------------------- data movement
static size_t tsize(MPI_Datatype t)
{
    if (!t || t->basic == B_NULL)
        die("null datatype used");
    if (t->freed)
        die("datatype used after MPI_Type_free");
    return t->packed;
}
static void pack(const void *buf, size_t count, MPI_Datatype t, std::vector<char> &o)
{
    size_t s = tsize(t);
    o.resize(s * count);
    char *p = o.data();
    if (t->predefined)
    {
        if (s * count)
            memcpy(p, buf, s * count);
        return;
    }
    for (size_t i = 0; i < count; i++)
        for (auto &b : t->blocks)
        {
            memcpy(p, (const char *)buf + i * t->extent + b.first, b.second);
            p += b.second;
        }
}
// unpack n bytes
static void unpack(void *buf, size_t count, MPI_Datatype t, const char *d, size_t n)
{
    size_t s = tsize(t);
    if (t->predefined)
    {
        if (n)
            memcpy(buf, d, std::min(n, s * count));
        return;
    }
    for (size_t i = 0; i < count && n; i++)
        for (auto &b : t->blocks)
        {
            size_t m = std::min(n, b.second);
            memcpy((char *)buf + i * t->extent + b.first, d, m);
            d += m, n -= m;
            if (!n)
                break;
        }
}

// ---------------------------------------------------------------- p2p
static auto key(MPI_Comm c, int dst, int src, int tag)
{
    return std::make_pair(c->id, std::vector<int>{dst, src, tag});
}
static std::string rdesc(ompi_request_t *r)
{
    const char *nm = r->k == R_RECV ? "recv" : r->k == R_SEND ? "send" : r->k == R_SSEND ? "ssend" : r->k == R_COLL ? "coll" : "null";
    return std::string(nm) + "(peer " + std::to_string(r->peer) + " tag " + std::to_string(r->tag) + " bytes " +
           std::to_string(r->type ? (long)r->type->packed * r->count : 0) + ")";
}
static void deliver(ompi_request_t *rcv, const std::vector<char> &d)
{
    size_t cap = tsize(rcv->type) * rcv->count;
    if (d.size() > cap)
        die("message truncated: " + std::to_string(d.size()) + " bytes arrive for a receive of " + std::to_string(cap) + " bytes, peer " + std::to_string(rcv->peer));
    // restore what the message does not cover, then the message
    unpack(rcv->buf, rcv->count, rcv->type, rcv->snap.data(), rcv->snap.size());
    unpack(rcv->buf, rcv->count, rcv->type, d.data(), d.size());
    rcv->transferred = true;
}
static void transfer(ompi_request_t *s, ompi_request_t *r)
{
    if (r->transferred)
        return;
    std::vector<char> d;
    pack(s->buf, s->count, s->type, d);
    deliver(r, d);
    s->transferred = true;
}
static void tryMatch(decltype(key(nullptr, 0, 0, 0)) k)
{
    auto &sq = W->sendQ[k];
    auto &rq = W->recvQ[k];
    while (!sq.empty() && !rq.empty())
    {
        auto *s = sq.front(), *r = rq.front();
        sq.pop_front(), rq.pop_front();
        W->st.messages++;
        if (s->owner == -2) // eager message object: payload only
        {
            r->msg = s->msg;
            r->match = r;
            delete s;
            if (!W->cfg.late)
                deliver(r, *r->msg);
            continue;
        }
        s->match = r, r->match = s;
        if (!W->cfg.late)
            transfer(s, r);
    }
}
static void startReq(ompi_request_t *r)
{
    if (r->active)
        die("MPI_Start on an already active request: " + rdesc(r));
    r->active = true;
    r->match = nullptr, r->msg.reset(), r->transferred = r->eagerDone = false;
    if (r->peer < 0 || r->peer >= mySize(r->comm))
        die("invalid peer rank " + std::to_string(r->peer));
    int me = myRank(r->comm);
    if (r->k == R_RECV)
    {
        pack(r->buf, r->count, r->type, r->snap);
        std::vector<char> poison(r->snap.size(), (char)0xA5);
        unpack(r->buf, r->count, r->type, poison.data(), poison.size()); // contents undefined until completion
        auto k = key(r->comm, me, r->peer, r->tag);
        W->recvQ[k].push_back(r);
        tryMatch(k);
    }
    else
    {
        pack(r->buf, r->count, r->type, r->snap);
        auto k = key(r->comm, r->peer, me, r->tag);
        if (r->k == R_SEND && W->cfg.eager)
        {
            auto *m = new ompi_request_t;
            m->owner = -2;
            m->msg = std::make_shared<std::vector<char>>(r->snap);
            m->k = R_SEND, m->peer = r->peer, m->tag = r->tag;
            W->sendQ[k].push_back(m);
            r->eagerDone = true;
        }
        else
            W->sendQ[k].push_back(r);
        tryMatch(k);
    }
}
static bool collDone(ompi_request_t *r);
// may this active request complete now?
static bool ready(ompi_request_t *r)
{
    if (r->k == R_NULL || !r->active)
        return true;
    if (r->k == R_COLL)
        return collDone(r);
    if (r->eagerDone)
        return true;
    if (!r->match)
        return false;
    if (r->transferred)
        return true;
    if (r->k == R_RECV)
    {
        if (r->msg)
            deliver(r, *r->msg);
        else
            transfer(r->match, r);
    }
    else
        transfer(r, r->match);
    return true;
}
static void collFinish(ompi_request_t *r);
static void freeReq(ompi_request_t *r)
{
    if (r->type && !r->type->predefined)
        if (--r->type->refs == 0)
            delete r->type;
    W->reqs.erase(r);
    delete r;
}
static void complete(MPI_Request *h)
{
    auto *r = *h;
    if (r->k == R_NULL || !r->active)
        return;
    if (r->k == R_COLL)
        collFinish(r);
    if (r->k == R_SEND || r->k == R_SSEND)
        if (sim::checkSendBuffers)
        {
            std::vector<char> now;
            pack(r->buf, r->count, r->type, now);
            if (now != r->snap)
                die("send buffer was modified while the send was in flight: " + rdesc(r));
        }
    r->active = false;
    if (r->match && r->match != r && r->match->match == r)
        r->match->match = r->match, r->match = nullptr; // decouple; both sides are transferred
    r->snap.clear();
    if (!r->persistent)
    {
        freeReq(r);
        *h = MPI_REQUEST_NULL;
    }
}
static ompi_request_t *mk(ReqK k, void *buf, int count, MPI_Datatype t, int peer, int tag, MPI_Comm c, bool pers)
{
    if (!sim::inWorld())
        die("point-to-point outside world");
    if (c->null)
        die("null communicator");
    if (!t->committed)
        die("uncommitted datatype");
    if (count < 0)
        die("negative count");
    tsize(t);
    auto *r = new ompi_request_t;
    r->k = k, r->buf = buf, r->count = count, r->type = t, r->peer = peer, r->tag = tag, r->comm = c, r->persistent = pers;
    r->owner = W->cur, r->id = W->idc++;
    if (!t->predefined)
        t->refs++;
    W->reqs.insert(r);
    return r;
}

// ---------------------------------------------------------------- collective engine
template <class T>
static void redT(OpK op, const char *a, char *b, size_t n)
{
    for (size_t i = 0; i < n; i++)
    {
        T x, y;
        memcpy(&x, a + i * sizeof(T), sizeof(T));
        memcpy(&y, b + i * sizeof(T), sizeof(T));
        switch (op)
        {
        case O_SUM: y = x + y; break;
        case O_PROD: y = x * y; break;
        case O_MAX: y = x > y ? x : y; break;
        case O_MIN: y = x < y ? x : y; break;
        case O_LAND: y = (x && y); break;
        case O_LOR: y = (x || y); break;
        default:
            if constexpr (std::is_integral_v<T>)
            {
                if (op == O_BAND) { y = x & y; break; }
                if (op == O_BOR) { y = x | y; break; }
                if (op == O_BXOR) { y = x ^ y; break; }
            }
            die("reduction not supported");
        }
        memcpy(b + i * sizeof(T), &y, sizeof(T));
    }
}
static void reduce(OpK op, MPI_Datatype t, const char *a, char *b, size_t n)
{
    switch (t->basic)
    {
    case B_I8: redT<int8_t>(op, a, b, n); break;
    case B_U8: case B_BYTE: redT<uint8_t>(op, a, b, n); break;
    case B_I16: redT<int16_t>(op, a, b, n); break;
    case B_U16: redT<uint16_t>(op, a, b, n); break;
    case B_I32: redT<int32_t>(op, a, b, n); break;
    case B_U32: redT<uint32_t>(op, a, b, n); break;
    case B_I64: redT<int64_t>(op, a, b, n); break;
    case B_U64: redT<uint64_t>(op, a, b, n); break;
    case B_F32: redT<float>(op, a, b, n); break;
    case B_F64: redT<double>(op, a, b, n); break;
    case B_LD: redT<long double>(op, a, b, n); break;
    case B_BOOL: redT<bool>(op == O_SUM ? O_LOR : op, a, b, n); break;
    default: die("reduction on unsupported datatype");
    }
}
static std::shared_ptr<Coll> enter(CollK k, bool nb, int root, OpK op, MPI_Comm c, CollArg &&arg)
{
    if (c->null)
        die(std::string(collName[k]) + " on MPI_COMM_NULL");
    if (c->freed)
        die("communicator used after free");
    int n = mySize(c), me = myRank(c);
    if (c->self || !sim::inWorld())
    {
        auto s = std::make_shared<Coll>();
        s->k = k, s->nb = nb, s->root = root, s->op = op, s->comm = c;
        s->a.resize(1);
        s->a[0] = std::move(arg);
        s->a[0].here = true;
        s->arrived = 1;
        return s;
    }
    auto &seq = W->collSeq[c->id];
    seq.resize(n, 0);
    auto &q = W->colls[c->id];
    auto &base = W->collBase[c->id];
    size_t idx = seq[me]++;
    if (idx < base)
        die("internal: collective base");
    while (q.size() <= idx - base)
        q.push_back(nullptr);
    auto &s = q[idx - base];
    if (!s)
    {
        s = std::make_shared<Coll>();
        s->k = k, s->nb = nb, s->root = root, s->op = op, s->comm = c;
        s->a.resize(n);
        W->st.collectives++;
    }
    else if (s->k != k || s->nb != nb || s->root != root || s->op != op)
        die(std::string("collective mismatch: this rank calls ") + (nb ? "I-" : "") + collName[k] + " (root " + std::to_string(root) + ") while another rank is in " +
            (s->nb ? "I-" : "") + collName[s->k] + " (root " + std::to_string(s->root) + ")");
    s->a[me] = std::move(arg);
    s->a[me].here = true;
    s->arrived++;
    auto keep = s;
    while (!q.empty() && q.front() && q.front()->arrived == n)
        q.pop_front(), base++;
    return keep;
}
static bool collReady(Coll &s, int me)
{
    int n = (int)s.a.size();
    if (s.arrived == n)
        return true;
    if (s.k == C_BCAST)
    {
        if (W->cfg.bcastSync)
            return false;
        return s.a[s.root].here; // root leaves early, others need the root
    }
    if (s.k == C_SCAN && !W->cfg.bcastSync)
    {
        for (int i = 0; i <= me; i++)
            if (!s.a[i].here)
                return false;
        return true;
    }
    return false;
}
static void collOut(Coll &s, int me)
{
    auto &a = s.a[me];
    if (a.done)
        return;
    a.done = true;
    int n = (int)s.a.size();
    auto bytes = [](int c, MPI_Datatype t)
    { return (size_t)c * tsize(t); };
    switch (s.k)
    {
    case C_BARRIER: break;
    case C_DUP: break;
    case C_BCAST:
    {
        auto &r = s.a[s.root];
        if (r.in.size() != bytes(a.scount, a.st))
            die("Bcast size mismatch between root and this rank");
        if (me != s.root)
            unpack(a.recv, a.scount, a.st, r.in.data(), r.in.size());
        break;
    }
    case C_ALLREDUCE:
    case C_SCAN:
    {
        int last = s.k == C_SCAN ? me : n - 1;
        for (int i = 0; i <= last; i++)
            if (s.a[i].scount != a.scount || s.a[i].st->basic != a.st->basic)
                die(std::string(collName[s.k]) + ": count/type differ between ranks");
        std::vector<char> acc = s.a[0].in;
        for (int i = 1; i <= last; i++)
        {
            // acc = acc op a[i]
            std::vector<char> t = s.a[i].in;
            reduce(s.op, a.st, acc.data(), t.data(), a.scount);
            acc = t;
        }
        unpack(a.recv, a.scount, a.st, acc.data(), acc.size());
        break;
    }
    case C_ALLGATHER:
    {
        size_t b = bytes(a.rcount, a.rt);
        for (int i = 0; i < n; i++)
        {
            if (s.a[i].in.size() != b)
                die("Allgather: rank " + std::to_string(i) + " contributes " + std::to_string(s.a[i].in.size()) + " bytes, this rank expects " + std::to_string(b));
            unpack((char *)a.recv + (size_t)i * a.rcount * a.rt->extent, a.rcount, a.rt, s.a[i].in.data(), b);
        }
        break;
    }
    case C_ALLTOALL:
    {
        size_t b = bytes(a.rcount, a.rt);
        for (int i = 0; i < n; i++)
        {
            if (s.a[i].in.size() != b * n)
                die("Alltoall size mismatch");
            unpack((char *)a.recv + (size_t)i * a.rcount * a.rt->extent, a.rcount, a.rt, s.a[i].in.data() + me * b, b);
        }
        break;
    }
    case C_ALLTOALLV:
        for (int i = 0; i < n; i++)
        {
            auto &o = s.a[i];
            size_t want = bytes(a.rc[i], a.rt), have = bytes(o.sc[me], o.st);
            if (want != have)
                die("Alltoallv: rank " + std::to_string(i) + " sends " + std::to_string(have) + " bytes, this rank expects " + std::to_string(want));
            if (!want)
                continue;
            size_t off = 0;
            for (int j = 0; j < me; j++)
                off += bytes(o.sc[j], o.st);
            unpack((char *)a.recv + (MPI_Aint)a.rd[i] * a.rt->extent, a.rc[i], a.rt, o.in.data() + off, want);
        }
        break;
    default: die("collective not implemented");
    }
}
static bool collDone(ompi_request_t *r) { return collReady(*r->coll, r->tag); }
static void collFinish(ompi_request_t *r) { collOut(*r->coll, r->tag); }

static int runColl(CollK k, int root, OpK op, MPI_Comm c, CollArg &&a)
{
    point();
    auto s = enter(k, false, root, op, c, std::move(a));
    int me = myRank(c);
    blockUntil([s, me]
               { return collReady(*s, me); },
               std::string(collName[k]));
    collOut(*s, me);
    return MPI_SUCCESS;
}
static int runIColl(CollK k, int root, OpK op, MPI_Comm c, CollArg &&a, MPI_Request *req)
{
    point();
    auto s = enter(k, true, root, op, c, std::move(a));
    if (!sim::inWorld())
    {
        collOut(*s, 0);
        *req = MPI_REQUEST_NULL;
        return MPI_SUCCESS;
    }
    auto *r = new ompi_request_t;
    r->k = R_COLL, r->coll = s, r->tag = myRank(c), r->owner = W->cur, r->active = true, r->comm = c;
    W->reqs.insert(r);
    *req = r;
    return MPI_SUCCESS;
}
static CollArg argReduce(const void *s, void *r, int n, MPI_Datatype t)
{
    CollArg a;
    a.scount = n, a.st = t, a.recv = r;
    if (s == MPI_IN_PLACE)
        s = r;
    else if (s == r && n > 0)
        die("reduction with aliased send/receive buffers");
    pack(s, n, t, a.in);
    return a;
}
static CollArg argBcast(void *b, int n, MPI_Datatype t, bool root)
{
    CollArg a;
    a.scount = n, a.st = t, a.recv = b;
    if (root)
        pack(b, n, t, a.in);
    return a;
}
static CollArg argAllgather(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c)
{
    CollArg a;
    a.scount = sc, a.st = st, a.rcount = rc, a.rt = rt, a.recv = r;
    if (s == MPI_IN_PLACE)
        s = (char *)r + (size_t)myRank(c) * rc * rt->extent, a.st = st = rt, sc = rc;
    pack(s, sc, st, a.in);
    return a;
}
static CollArg argAlltoall(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c)
{
    CollArg a;
    a.scount = sc, a.st = st, a.rcount = rc, a.rt = rt, a.recv = r;
    pack(s, (size_t)sc * mySize(c), st, a.in);
    return a;
}
static CollArg argAlltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c)
{
    CollArg a;
    int n = mySize(c);
    a.st = st, a.rt = rt, a.recv = r;
    a.sc.assign(sc, sc + n), a.sd.assign(sd, sd + n), a.rc.assign(rc, rc + n), a.rd.assign(rd, rd + n);
    for (int i = 0; i < n; i++)
    {
        if (sc[i] < 0 || rc[i] < 0)
            die("Alltoallv: negative count");
        std::vector<char> b;
        if (sc[i])
            pack((const char *)s + (MPI_Aint)sd[i] * st->extent, sc[i], st, b);
        a.in.insert(a.in.end(), b.begin(), b.end());
    }
    return a;
}

// ---------------------------------------------------------------- MPI API
extern "C"
{
    static int g_init = 1;
    int MPI_Init(int *, char ***) { return 0; }
    int MPI_Init_thread(int *, char ***, int req, int *prov) { *prov = req; return 0; }
    int MPI_Initialized(int *f) { *f = g_init; return 0; }
    int MPI_Finalized(int *f) { *f = 0; return 0; }
    int MPI_Finalize() { return 0; }
    int MPI_Query_thread(int *p) { *p = MPI_THREAD_SINGLE; return 0; }
    int MPI_Abort(MPI_Comm, int e) { die("MPI_Abort(" + std::to_string(e) + ")"); return 0; }
    double MPI_Wtime(void) { static double t = 0; return t += 1e-6; }
    int MPI_Comm_rank(MPI_Comm c, int *r) { if (c->null) die("Comm_rank on null"); *r = myRank(c); return 0; }
    int MPI_Comm_size(MPI_Comm c, int *r) { if (c->null) die("Comm_size on null"); *r = mySize(c); return 0; }
    int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o)
    {
        point();
        auto s = enter(C_DUP, false, 0, O_NULL, c, CollArg{});
        int me = myRank(c);
        blockUntil([s, me] { return collReady(*s, me); }, "Comm_dup");
        if (!s->newComm)
        {
            static int ids = 10;
            s->newComm = new ompi_communicator_t{ids++, false, c->self};
            s->newComm->dup = true;
            if (W) W->comms.insert(s->newComm);
        }
        *o = s->newComm;
        return 0;
    }
    int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
    int MPI_Barrier(MPI_Comm c) { return runColl(C_BARRIER, 0, O_NULL, c, CollArg{}); }
    int MPI_Ibarrier(MPI_Comm c, MPI_Request *r) { return runIColl(C_BARRIER, 0, O_NULL, c, CollArg{}, r); }
    int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { return runColl(C_BCAST, root, O_NULL, c, argBcast(b, n, t, root == myRank(c))); }
    int MPI_Ibcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request *r) { return runIColl(C_BCAST, root, O_NULL, c, argBcast(b, n, t, root == myRank(c)), r); }
    int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return runColl(C_ALLREDUCE, 0, op->k, c, argReduce(s, r, n, t)); }
    int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *q) { return runIColl(C_ALLREDUCE, 0, op->k, c, argReduce(s, r, n, t), q); }
    int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return runColl(C_SCAN, 0, op->k, c, argReduce(s, r, n, t)); }
    int MPI_Allgather(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c) { return runColl(C_ALLGATHER, 0, O_NULL, c, argAllgather(s, sc, st, r, rc, rt, c)); }
    int MPI_Iallgather(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c, MPI_Request *q) { return runIColl(C_ALLGATHER, 0, O_NULL, c, argAllgather(s, sc, st, r, rc, rt, c), q); }
    int MPI_Alltoall(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c) { return runColl(C_ALLTOALL, 0, O_NULL, c, argAlltoall(s, sc, st, r, rc, rt, c)); }
    int MPI_Ialltoall(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c, MPI_Request *q) { return runIColl(C_ALLTOALL, 0, O_NULL, c, argAlltoall(s, sc, st, r, rc, rt, c), q); }
    int MPI_Alltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c)
    {
        return runColl(C_ALLTOALLV, 0, O_NULL, c, argAlltoallv(s, sc, sd, st, r, rc, rd, rt, c));
    }
    int MPI_Ialltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *q)
    {
        return runIColl(C_ALLTOALLV, 0, O_NULL, c, argAlltoallv(s, sc, sd, st, r, rc, rd, rt, c), q);
    }

    int MPI_Type_create_hindexed(int n, const int *bl, const MPI_Aint *dp, MPI_Datatype o, MPI_Datatype *nt)
    {
        if (!o->predefined)
            die("nested derived types unsupported");
        auto *t = new ompi_datatype_t;
        t->basic = o->basic, t->bsize = o->bsize, t->predefined = false, t->committed = false;
        MPI_Aint hi = 0, lo = 0;
        for (int i = 0; i < n; i++)
        {
            if (bl[i] < 0)
                die("negative block length");
            if (!bl[i])
                continue;
            t->blocks.push_back({dp[i], bl[i] * o->packed});
            t->packed += bl[i] * o->packed;
            hi = std::max<MPI_Aint>(hi, dp[i] + bl[i] * o->packed);
            lo = std::min<MPI_Aint>(lo, dp[i]);
        }
        t->extent = hi - lo;
        *nt = t;
        if (W)
            W->types.insert(t);
        return 0;
    }
    int MPI_Type_create_hindexed_block(int n, int bl, const MPI_Aint *dp, MPI_Datatype o, MPI_Datatype *nt)
    {
        std::vector<int> b(n, bl);
        return MPI_Type_create_hindexed(n, b.data(), dp, o, nt);
    }
    int MPI_Type_indexed(int n, const int *bl, const int *dp, MPI_Datatype o, MPI_Datatype *nt)
    {
        std::vector<MPI_Aint> d(n);
        for (int i = 0; i < n; i++) d[i] = (MPI_Aint)dp[i] * o->extent;
        return MPI_Type_create_hindexed(n, bl, d.data(), o, nt);
    }
    int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype *nt)
    {
        MPI_Aint z = 0;
        return MPI_Type_create_hindexed(1, &n, &z, o, nt);
    }
    int MPI_Type_commit(MPI_Datatype *t) { (*t)->committed = true; return 0; }
    int MPI_Type_free(MPI_Datatype *t)
    {
        auto *d = *t;
        if (d->predefined)
            die("MPI_Type_free on predefined type");
        if (W)
            if (!W->types.erase(d))
                die("MPI_Type_free on a type that is not live (double free?)");
        if (--d->refs == 0)
            delete d;
        *t = MPI_DATATYPE_NULL;
        return 0;
    }
    int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *ex) { *lb = 0, *ex = t->extent; return 0; }
    int MPI_Type_size(MPI_Datatype t, int *s) { *s = (int)tsize(t); return 0; }
    int MPI_Pack_external_size(const char *, int n, MPI_Datatype t, MPI_Aint *s) { *s = n * tsize(t); return 0; }

    int MPI_Send_init(const void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request *r) { *r = mk(R_SEND, (void *)b, n, t, p, tag, c, true); return 0; }
    int MPI_Ssend_init(const void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request *r) { *r = mk(R_SSEND, (void *)b, n, t, p, tag, c, true); return 0; }
    int MPI_Bsend_init(const void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request *r) { *r = mk(R_SEND, (void *)b, n, t, p, tag, c, true); return 0; }
    int MPI_Recv_init(void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request *r) { *r = mk(R_RECV, b, n, t, p, tag, c, true); return 0; }
    int MPI_Isend(const void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request *r) { point(); *r = mk(R_SEND, (void *)b, n, t, p, tag, c, false); startReq(*r); return 0; }
    int MPI_Issend(const void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request *r) { point(); *r = mk(R_SSEND, (void *)b, n, t, p, tag, c, false); startReq(*r); return 0; }
    int MPI_Irecv(void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request *r) { point(); *r = mk(R_RECV, b, n, t, p, tag, c, false); startReq(*r); return 0; }
    int MPI_Wait(MPI_Request *h, MPI_Status *s);
    int MPI_Send(const void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c) { MPI_Request r; MPI_Isend(b, n, t, p, tag, c, &r); return MPI_Wait(&r, MPI_STATUS_IGNORE); }
    int MPI_Ssend(const void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c) { MPI_Request r; MPI_Issend(b, n, t, p, tag, c, &r); return MPI_Wait(&r, MPI_STATUS_IGNORE); }
    int MPI_Recv(void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Status *s) { MPI_Request r; MPI_Irecv(b, n, t, p, tag, c, &r); return MPI_Wait(&r, s); }
    static void chk(MPI_Request r)
    {
        if (r->k != R_NULL && W && !W->reqs.count(r))
            die("use of a request that is not live");
    }
    int MPI_Start(MPI_Request *r)
    {
        point();
        chk(*r);
        if (!(*r)->persistent)
            die("MPI_Start on a non-persistent request");
        startReq(*r);
        return 0;
    }
    int MPI_Startall(int n, MPI_Request *r)
    {
        for (int i = 0; i < n; i++)
            MPI_Start(r + i);
        return 0;
    }
    static void setStatus(MPI_Status *s)
    {
        if (s)
            memset(s, 0, sizeof *s);
    }
    int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st)
    {
        point();
        for (int i = 0; i < n; i++)
            chk(r[i]);
        auto all = [n, r]
        {
            bool ok = true;
            for (int i = 0; i < n; i++)
                if (!ready(r[i]))
                    ok = false;
            return ok;
        };
        std::string what = "Waitall";
        if (sim::inWorld() && !all())
            for (int i = 0; i < n; i++)
                if (!ready(r[i]))
                    what += " " + rdesc(r[i]);
        blockUntil(all, what);
        for (int i = 0; i < n; i++)
        {
            complete(r + i);
            if (st)
                setStatus(st + i);
        }
        if (sim::inWorld())
            W->f[W->cur].testFailed = false;
        return 0;
    }
    int MPI_Wait(MPI_Request *h, MPI_Status *s) { return MPI_Waitall(1, h, s); }
    int MPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *st)
    {
        point();
        for (int i = 0; i < n; i++)
            chk(r[i]);
        auto all = [n, r]
        {
            bool ok = true;
            for (int i = 0; i < n; i++)
                if (!ready(r[i]))
                    ok = false;
            return ok;
        };
        if (!all())
        {
            // an unsuccessful test has no effect: the first one returns, a repeated one is only
            // rescheduled once it can succeed (stutter reduction)
            auto &f = W->f[W->cur];
            if (!f.testFailed)
            {
                f.testFailed = true;
                *flag = 0;
                return 0;
            }
            blockUntil(all, "Testall loop");
        }
        for (int i = 0; i < n; i++)
        {
            complete(r + i);
            if (st)
                setStatus(st + i);
        }
        *flag = 1;
        if (sim::inWorld())
            W->f[W->cur].testFailed = false;
        return 0;
    }
    int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st) { return MPI_Testall(1, r, flag, st); }
    int MPI_Request_free(MPI_Request *r)
    {
        chk(*r);
        if ((*r)->active)
            die("request freed while the operation is in flight: " + rdesc(*r));
        freeReq(*r);
        *r = MPI_REQUEST_NULL;
        return 0;
    }
    int MPI_Buffer_attach(void *, int) { return 0; }
    int MPI_Buffer_detach(void *p, int *s) { *(void **)p = nullptr; *s = 0; return 0; }
}

// ---------------------------------------------------------------- scheduler
std::string sim::Config::str() const
{
    std::string s = std::string(eager ? "eager" : "rdv") + (late ? "/late" : "/early") + (bcastSync ? "/bsync" : "") + (base ? "/rr" : "/run") + "/p";
    for (auto i : prio)
        s += std::to_string(i);
    return s;
}

sim::Stats sim::run(int n, const Config &cfg, Chooser *ch, const std::function<void(int)> &body)
{
    World w;
    w.n = n, w.cfg = cfg, w.ch = ch, w.body = &body;
    if (w.cfg.prio.empty())
        for (int i = 0; i < n; i++)
            w.cfg.prio.push_back(i);
    w.f.resize(n);
    W = &w;
    for (int i = 0; i < n; i++)
    {
        if (stackPool.empty())
        {
            char *p = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            stackPool.push_back(p);
        }
        w.f[i].stack = stackPool.back();
        stackPool.pop_back();
        getcontext(&w.f[i].ctx);
        w.f[i].ctx.uc_stack.ss_sp = w.f[i].stack;
        w.f[i].ctx.uc_stack.ss_size = STK;
        w.f[i].ctx.uc_link = &w.mainCtx;
        makecontext(&w.f[i].ctx, (void (*)())fiberMain, 0);
    }
    int last = -1;
    std::vector<int> pos(n);
    for (int i = 0; i < n; i++)
        pos[w.cfg.prio[i]] = i;
    while (true)
    {
        std::vector<int> run;
        bool anyAlive = false;
        // candidate order
        std::vector<int> order;
        if (w.cfg.base == 0)
        {
            if (last >= 0)
                order.push_back(last);
            for (int r : w.cfg.prio)
                if (r != last)
                    order.push_back(r);
        }
        else
        {
            int s = last < 0 ? 0 : pos[last] + 1;
            for (int i = 0; i < n; i++)
                order.push_back(w.cfg.prio[(s + i) % n]);
        }
        for (int r : order)
        {
            auto &f = w.f[r];
            if (f.done)
                continue;
            anyAlive = true;
            bool ok;
            if (f.pred)
            {
                w.cur = r; // predicate is evaluated on behalf of r
                ok = f.pred();
                w.cur = -1;
            }
            else
                ok = true;
            if (ok)
                run.push_back(r);
        }
        if (!anyAlive)
            break;
        if (run.empty())
        {
            std::string m = "DEADLOCK:";
            for (int r = 0; r < n; r++)
                m += " [rank " + std::to_string(r) + (w.f[r].done ? " finished" : " in " + w.f[r].what) + "]";
            w.cur = -1;
            die(m);
        }
        int c = 0;
        if (run.size() > 1)
        {
            w.st.choices++;
            if (ch)
                c = ch->choose((int)run.size());
        }
        int r = run[c];
        if (r != last)
            w.st.switches++;
        last = r;
        w.cur = r;
        w.f[r].pred = nullptr;
        swapcontext(&w.mainCtx, &w.f[r].ctx);
        w.cur = -1;
    }
    // end-of-world checks
    if (checkLeaks)
    {
        for (auto &q : w.sendQ)
            if (!q.second.empty())
                die("message from rank " + std::to_string(q.first.second[1]) + " to rank " + std::to_string(q.first.second[0]) + " tag " + std::to_string(q.first.second[2]) + " was never received");
        for (auto &q : w.recvQ)
            if (!q.second.empty())
                die("receive on rank " + std::to_string(q.first.second[0]) + " from rank " + std::to_string(q.first.second[1]) + " was never matched");
        if (!w.reqs.empty())
            die("MPI request leaked: " + rdesc(*w.reqs.begin()) + " owner " + std::to_string((*w.reqs.begin())->owner) + " (" + std::to_string(w.reqs.size()) + " in total)");
        if (!w.types.empty())
            die("MPI datatype leaked (" + std::to_string(w.types.size()) + ")");
        for (auto &q : w.colls)
            if (!q.second.empty())
                die(std::string("collective ") + collName[q.second.front() ? q.second.front()->k : 0] + " was not entered by all ranks");
    }
    else
    {
        for (auto *r : w.reqs)
            delete r;
        for (auto *t : w.types)
            delete t;
        for (auto &q : w.sendQ)
            for (auto *r : q.second)
                if (r->owner == -2)
                    delete r;
    }
    for (auto *c : w.comms)
        delete c;
    for (auto &f : w.f)
        stackPool.push_back(f.stack);
    W = nullptr;
    return w.st;
}

namespace
{
    struct SeqChooser : sim::Chooser
    {
        const std::vector<int> &prefix;
        std::vector<std::pair<int, int>> taken; // n, chosen
        SeqChooser(const std::vector<int> &p) : prefix(p) {}
        int choose(int n) override
        {
            int c = taken.size() < prefix.size() ? prefix[taken.size()] : 0;
            if (c >= n)
                c = n - 1; // cannot happen for a deterministic program
            taken.push_back({n, c});
            return c;
        }
    };
}
sim::ExploreResult sim::explore(int n, const Config &cfg, int K, uint64_t maxExec, const std::function<void(int)> &f,
                                const std::function<void(const std::string &)> &before, const std::function<void()> &after)
{
    ExploreResult res;
    struct Item
    {
        std::vector<int> p;
        int dev;
    };
    std::vector<Item> stack{{{}, 0}};
    while (!stack.empty())
    {
        if (res.executions >= maxExec)
        {
            res.truncated = true;
            break;
        }
        Item it = stack.back();
        stack.pop_back();
        if (before)
        {
            std::string s = cfg.str() + " sched:";
            int z = 0;
            for (size_t i = 0; i < it.p.size(); i++)
                if (it.p[i])
                    s += " " + std::to_string(i) + "->" + std::to_string(it.p[i]), z++;
            before(s);
        }
        SeqChooser ch(it.p);
        auto st = run(n, cfg, &ch, f);
        res.executions++;
        res.total.mpiCalls += st.mpiCalls, res.total.switches += st.switches, res.total.choices += st.choices;
        res.total.messages += st.messages, res.total.collectives += st.collectives;
        if (after)
            after();
        if (it.dev < K)
            for (size_t i = it.p.size(); i < ch.taken.size(); i++)
                for (int c = 1; c < ch.taken[i].first; c++)
                {
                    Item nx;
                    nx.p.resize(i + 1, 0);
                    for (size_t j = 0; j < it.p.size(); j++)
                        nx.p[j] = it.p[j];
                    nx.p[i] = c;
                    nx.dev = it.dev + 1;
                    stack.push_back(std::move(nx));
                }
    }
    return res;
}
std::vector<sim::Config> sim::allConfigs(int n, bool full)
{
    std::vector<Config> out;
    std::vector<int> p;
    for (int i = 0; i < n; i++)
        p.push_back(i);
    std::vector<std::vector<int>> perms;
    do
        perms.push_back(p);
    while (std::next_permutation(p.begin(), p.end()));
    if (!full)
    {
        std::vector<std::vector<int>> q{perms.front()};
        if (perms.size() > 1)
            q.push_back(perms.back());
        perms = q;
    }
    for (int eager = 0; eager < 2; eager++)
        for (int late = 0; late < 2; late++)
            for (int bs = 0; bs < 2; bs++)
                for (int base = 0; base < 2; base++)
                    for (auto &q : perms)
                    {
                        if (!full && bs == eager)
                            continue;
                        Config c;
                        c.eager = eager, c.late = late, c.bcastSync = bs, c.base = base, c.prio = q;
                        out.push_back(c);
                    }
    return out;
}
