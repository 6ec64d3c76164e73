// C32: pools as a whole (files, root objects, handles, durability calls, settings) and per-session state.
#define POOL_RULE "mode pool: random sequences over three pool files (create in every form, open, check, close, root objects of growing size, stores followed by every form of persist, settings, pool lookup, wrong layouts, sizes and handles, damaged and missing files), over sessions that end in a close, an exit or a power failure, against a reference model of the files, sizes, errors and of the values every byte may have; mode volatile: per-session members and states of objects: one construction per session, the same object for everybody, destruction at commit or at close of that pool only, for threads under generated schedules; non-trivial: a pool was used in two sessions, or an object was asked for twice"
#include <libpmemobj/atomic_base.h>
// ---- pools ----
constexpr unsigned NF = 3, RMAX = 2048, HMAX = 6;
struct Blob { unsigned char x[104]; };
template <size_t N> struct RT
{
    nv::p<uint64_t> q;
    nv::persistent_ptr<char> pp;
    nv::p<Blob> big;
    unsigned char b[N - 128];
};
constexpr size_t rsize[] = {192, 1000, 2048};
static_assert(sizeof(RT<192>) == 192 && sizeof(RT<1000>) == 1000 && sizeof(RT<2048>) == 2048, "");
enum Kind { F_NONE, F_ZERO, F_POOL, F_BAD };
const char *lays[] = {"alpha", "beta", "", "gamma-with-a-name"};
struct FileM
{
    Kind kind;
    unsigned lay, mode, rs, uses;
    uint64_t size;
    bool unknown; // contents must be read first
    uint8_t cur[RMAX], hist[RMAX][HMAX], nh[RMAX];
    void known(unsigned a, unsigned n) { for (unsigned i = a; i < a + n; ++i) { hist[i][0] = cur[i]; nh[i] = 1; } }
};
struct PoolShm { FileM f[NF]; };
PoolShm *psh;
struct POp { unsigned k, f, a, b, c, how; uint64_t x; };
enum { O_CREATE, O_OPEN, O_CHECK, O_CLOSE, O_ROOT, O_WRITE, O_CTL, O_BY, O_DAMAGE, O_TRUNC, O_UNLINK, O_OBJ, NOP };
const char *oname[] = {"create", "open", "check", "close", "root", "write", "ctl", "pool_by", "damage", "zero file", "unlink", "object"};
template <class E, class F> bool throws(F f, string *what = nullptr)
{
    try { f(); }
    catch (E &e) { if (what) *what = e.what(); return true; }
    catch (...) { eng::fail("wrong-exception", "another exception than the documented one"); }
    return false;
}
struct Session
{
    string dir;
    bool is_open[NF] = {};
    nv::pool<RT<192>> h[NF];
    int ctl[NF] = {};
    string path(unsigned f) { return dir + "/f" + std::to_string(f); }
    unsigned char *root(unsigned f, unsigned r, unsigned how)
    {
        switch (r)
        {
        case 0: return (unsigned char *)(how & 1 ? h[f].root() : h[f].get_root()).get();
        case 1: { nv::pool_base pb = h[f]; nv::pool<RT<1000>> p(pb); return (unsigned char *)p.root().get(); }
        default: { nv::pool<RT<2048>> p(nv::pool_base(h[f].handle())); return (unsigned char *)p.root().get(); }
        }
    }
    void verify(unsigned f, const unsigned char *r)
    {
        auto &m = psh->f[f];
        for (unsigned i = 0; i < m.rs; ++i)
            if (m.unknown)
            {
                bool ok = false;
                for (unsigned k = 0; k < m.nh[i]; ++k) ok |= m.hist[i][k] == r[i];
                if (!ok) eng::fail("contents", "file %u, byte %u of the root object is %u in the next session; the last value known to be durable is %u, the last stored %u", f, i, r[i], m.hist[i][0], m.cur[i]);
                m.cur[i] = r[i];
                m.known(i, 1);
            }
            else if (m.cur[i] != r[i]) eng::fail("contents", "file %u, byte %u of the root object is %u, expected %u", f, i, r[i], m.cur[i]);
        m.unknown = false;
    }
    // the root object with at least size class r
    unsigned char *get_root(unsigned f, unsigned r, unsigned how)
    {
        auto &m = psh->f[f];
        auto *p = root(f, r, how);
        if (!p) eng::fail("root", "no root object in file %u", f);
        if (rsize[r] > m.rs)
        {
            for (unsigned i = m.rs; i < rsize[r]; ++i) { m.cur[i] = 0; m.known(i, 1); }
            m.rs = rsize[r];
        }
        if (pmemobj_root_size(h[f].handle()) < m.rs) eng::fail("root", "the root object of file %u has %zu bytes, expected %u", f, pmemobj_root_size(h[f].handle()), m.rs);
        verify(f, p);
        if (root(f, 0, how >> 1) != p) eng::fail("root", "the root object of file %u moves without need", f);
        return p;
    }
    void stored(unsigned f, const unsigned char *r, unsigned a, unsigned n)
    {
        auto &m = psh->f[f];
        bool full = false;
        for (unsigned i = a; i < a + n; ++i) full |= m.nh[i] == HMAX;
        if (full)
        {
            pmemobj_persist(h[f].handle(), r, m.rs);
            for (unsigned i = 0; i < m.rs; ++i) m.cur[i] = r[i];
            m.known(0, m.rs);
            return;
        }
        for (unsigned i = a; i < a + n; ++i) { m.cur[i] = r[i]; m.hist[i][m.nh[i]++] = r[i]; }
    }
    void step(const POp &o);
};
void Session::step(const POp &o)
{
    unsigned f = o.f;
    auto &m = psh->f[f];
    string p = path(f);
    switch (o.k)
    {
    case O_CREATE:
    {
        static const unsigned modes[] = {0600, 0640, 0644, 0660};
        static const uint64_t sizes[] = {PMEMOBJ_MIN_POOL, PMEMOBJ_MIN_POOL + 4096 * 1000, 2 * PMEMOBJ_MIN_POOL, PMEMOBJ_MIN_POOL / 2, 4096};
        unsigned mode = modes[o.a % 4];
        uint64_t size = sizes[o.b % 5];
        unsigned forms = o.how % 4; // 0: all arguments, 1: without mode, 2: without size, 3: in place (size 0)
        string lay = lays[o.c % 4];
        bool longl = o.x % 16 == 0;
        if (longl) lay = string(1100, 'x');
        if (forms == 1) mode = 0600;
        if (forms == 2) { mode = 0600; size = PMEMOBJ_MIN_POOL; }
        bool in_place = forms == 3;
        bool ok = !longl && (in_place ? m.kind == F_ZERO && m.size >= PMEMOBJ_MIN_POOL : m.kind == F_NONE && size >= PMEMOBJ_MIN_POOL);
        if (m.kind == F_BAD || is_open[f]) return;
        string what;
        bool threw = throws<pmem::pool_error>([&] {
            if (o.x & 16) { nv::pool_base b = in_place ? nv::pool_base::create(p, lay, 0, mode) : forms == 2 ? nv::pool_base::create(p, lay) : forms == 1 ? nv::pool_base::create(p, lay, size) : nv::pool_base::create(p, lay, size, mode); h[f] = nv::pool<RT<192>>(std::move(b)); }
            else h[f] = in_place ? nv::pool<RT<192>>::create(p, lay, 0, mode) : forms == 2 ? nv::pool<RT<192>>::create(p, lay) : forms == 1 ? nv::pool<RT<192>>::create(p, lay, size) : nv::pool<RT<192>>::create(p, lay, size, mode);
        }, &what);
        if (threw == ok) eng::fail("create", "creation of file %u (size %" PRIu64 ", form %u, layout of %zu bytes) %s", f, in_place ? 0 : size, forms, lay.size(), threw ? what.c_str() : "succeeds, expected pool_error");
        if (threw)
        {
            if (what.empty()) eng::fail("message", "an error without a message");
            if (m.kind == F_NONE) unlink(p.c_str());
            return;
        }
        struct stat st;
        if (stat(p.c_str(), &st)) eng::fail("create", "no file after creation");
        if (!in_place && (uint64_t)st.st_size != size) eng::fail("create", "file %u has %ld bytes, expected %" PRIu64, f, (long)st.st_size, size);
        if (!in_place && (st.st_mode & 0777) != mode) eng::fail("create", "file %u has mode %o, expected %o", f, st.st_mode & 0777, mode);
        m = FileM{};
        m.kind = F_POOL; m.lay = o.c % 4; m.size = st.st_size; m.mode = mode; m.uses = 1;
        is_open[f] = true;
        ctl[f] = 0;
        if (!h[f].handle()) eng::fail("create", "no handle");
        if (pmemobj_root_size(h[f].handle())) eng::fail("create", "a new pool has a root object");
        break;
    }
    case O_OPEN:
    {
        bool right = o.a % 4 != 0;
        unsigned lay = right ? m.lay : (m.lay + 1 + o.c % 3) % 4;
        bool any = lay == 2 && o.how % 2 && false;
        bool ok = m.kind == F_POOL && (right || any) && !is_open[f];
        nv::pool<RT<192>> q;
        string what;
        pm::lock_tries = is_open[f] ? 0 : 40;
        bool threw = throws<pmem::pool_error>([&] {
            if (o.x & 1) q = nv::pool<RT<192>>::open(p, lays[lay]);
            else { auto b = nv::pool_base::open(p, lays[lay]); q = nv::pool<RT<192>>(b); }
        }, &what);
        if (threw == ok) eng::fail("open", "opening file %u (%s) with layout \"%s\" (it is \"%s\") %s", f, is_open[f] ? "open" : "closed", lays[lay], lays[m.lay], threw ? what.c_str() : "succeeds, expected pool_error");
        if (threw) { if (what.empty()) eng::fail("message", "an error without a message"); return; }
        h[f] = q;
        is_open[f] = true;
        ctl[f] = 0;
        if (m.uses++) eng::mark_nontrivial();
        if (m.rs) get_root(f, o.b % 3, o.how);
        else if (pmemobj_root_size(h[f].handle())) eng::fail("open", "file %u has a root object that nobody asked for", f);
        break;
    }
    case O_CHECK:
    {
        bool right = o.a % 4 != 0;
        unsigned lay = right ? m.lay : (m.lay + 1 + o.c % 3) % 4;
        if (is_open[f]) return;
        int r = o.x & 1 ? nv::pool_base::check(p, lays[lay]) : nv::pool<RT<1000>>::check(p, lays[lay]);
        bool ok = m.kind == F_POOL && right;
        if ((r == 1) != ok || r < -1 || r > 1) eng::fail("check", "check of file %u (kind %d) with layout \"%s\" (it is \"%s\") gives %d", f, m.kind, lays[lay], lays[m.lay], r);
        if (m.kind == F_NONE && r != -1) eng::fail("check", "check of a missing file gives %d", r);
        break;
    }
    case O_CLOSE:
    {
        if (is_open[f] && m.rs && !m.unknown) { auto *r = get_root(f, 0, 0); (void)r; }
        bool threw = throws<std::logic_error>([&] { h[f].close(); });
        if (threw == is_open[f]) eng::fail("close", threw ? "an open pool cannot be closed" : "a closed pool can be closed again");
        if (!threw && !throws<std::logic_error>([&] { h[f].close(); })) eng::fail("close", "a pool can be closed twice");
        if (!throws<pmem::pool_error>([&] { h[f].root(); })) eng::fail("root", "a closed pool has a root object");
        if (h[f].handle()) eng::fail("close", "the handle is not empty after close");
        if (is_open[f]) { is_open[f] = false; if (m.rs) m.known(0, m.rs); }
        nv::pool<RT<1000>> none;
        if (!throws<pmem::pool_error>([&] { none.root(); }) || !throws<std::logic_error>([&] { none.close(); })) eng::fail("root", "a handle without a pool can be used");
        break;
    }
    case O_ROOT:
        if (is_open[f]) get_root(f, o.a % 3, o.how);
        break;
    case O_WRITE:
    {
        if (!is_open[f]) return;
        unsigned rs = o.a % 3;
        auto *r = get_root(f, rs, o.how);
        nv::pool_base pb = h[f];
        unsigned how = o.how % 11, pos = o.b % m.rs, len = 1 + o.c % std::min<unsigned>(m.rs - pos, o.x & 1 ? 80 : 700);
        auto *t = (RT<192> *)r;
        auto fill = [&](unsigned a, unsigned n) { for (unsigned i = 0; i < n; ++i) r[a + i] = (unsigned char)(o.x >> 8) + i * 7 + 1; stored(f, r, a, n); };
        switch (how)
        {
        case 0: fill(pos, len); return; // a store and nothing else
        case 1: fill(pos, len); pb.persist(r + pos, len); break;
        case 2: fill(pos, len); h[f].flush(r + pos, len); h[f].drain(); break;
        case 3:
        {
            vector<unsigned char> src(len);
            for (auto &c : src) c = (unsigned char)(&c - src.data()) * 3 + (o.x >> 8);
            if (pb.memcpy_persist(r + pos, src.data(), len) != r + pos) eng::fail("result", "memcpy_persist does not return the destination");
            if (memcmp(r + pos, src.data(), len)) eng::fail("contents", "memcpy_persist does not copy the bytes");
            stored(f, r, pos, len);
            break;
        }
        case 4:
            if (pb.memset_persist(r + pos, (int)(o.x >> 8 & 255), len) != r + pos) eng::fail("result", "memset_persist does not return the destination");
            for (unsigned i = 0; i < len; ++i) if (r[pos + i] != (unsigned char)(o.x >> 8)) eng::fail("contents", "memset_persist does not fill the bytes");
            stored(f, r, pos, len);
            break;
        case 5: case 6: t->q = o.x * 0x9e3779b97f4a7c15; pos = 0; len = 8; stored(f, r, pos, len); if (how == 5) pb.persist(t->q); else { pb.flush(t->q); pb.drain(); } break;
        case 7: case 8: t->pp = nv::persistent_ptr<char>(PMEMoid{o.x | 1, o.x >> 3 | 64}); pos = 8; len = 16; stored(f, r, pos, len); if (how == 7) h[f].persist(t->pp); else { pb.flush(t->pp); pb.drain(); } break;
        default: for (unsigned i = 0; i < 104; ++i) t->big.get_rw().x[i] = (unsigned char)(o.x >> (i & 7)) + i; pos = 24; len = 104; stored(f, r, pos, len); if (how == 9) pb.persist(t->big); else { pb.flush(t->big); pb.drain(); } break;
        }
        m.known(pos, len);
        eng::label("persisted store");
        break;
    }
    case O_CTL:
    {
        if (!is_open[f]) return;
        const char *n = "tx.debug.skip_expensive_checks";
        switch (o.how % 6)
        {
        case 0: case 1: if (h[f].template ctl_get<int>(n) != ctl[f]) eng::fail("ctl", "setting of pool %u: %d, expected %d", f, h[f].template ctl_get<int>(n), ctl[f]); break;
        case 2: case 3: { int v = o.x & 1; if (h[f].template ctl_set<int>(n, v) != v) eng::fail("ctl", "ctl_set does not return its argument"); ctl[f] = v; break; }
        case 4:
        {
            bool a = throws<pmem::ctl_error>([&] { h[f].template ctl_get<int>("no.such.entry"); }), b = throws<pmem::ctl_error>([&] { h[f].template ctl_set<int>("no.such.entry", 1); }), c = throws<pmem::ctl_error>([&] { h[f].template ctl_exec<int>("no.such.entry", 1); });
            bool d = throws<pmem::ctl_error>([&] { nv::ctl_get<int>("no.such.entry"); }), e = throws<pmem::ctl_error>([&] { nv::ctl_set<int>("no.such.entry", 1); }), g = throws<pmem::ctl_error>([&] { nv::ctl_exec<int>("no.such.entry", 1); });
            if (!a || !b || !c || !d || !e || !g) eng::fail("ctl", "an entry that does not exist is accepted");
            break;
        }
        case 5:
        {
            int v = o.x & 1;
            if (nv::ctl_set<int>("prefault.at_create", v) != v || nv::ctl_get<int>("prefault.at_create") != v) eng::fail("ctl", "the global setting is not the one that was made");
            nv::ctl_set<int>("prefault.at_create", 0);
            // settings whose argument comes back changed
            pobj_alloc_class_desc d{};
            d.header_type = POBJ_HEADER_NONE; d.unit_size = 128 * (1 + o.x % 50); d.units_per_block = 1000; d.alignment = 0;
            auto e = h[f].template ctl_set<pobj_alloc_class_desc>("heap.alloc_class.new.desc", d);
            if (e.unit_size != d.unit_size) eng::fail("ctl", "ctl_set changes the size of an allocation class");
            auto g = h[f].template ctl_get<pobj_alloc_class_desc>("heap.alloc_class." + std::to_string(e.class_id) + ".desc");
            if (g.unit_size != d.unit_size || g.class_id != e.class_id) eng::fail("ctl", "the allocation class %u that was made has units of %zu bytes, expected %zu", e.class_id, g.unit_size, d.unit_size);
            break;
        }
        }
        for (unsigned i = 0; i < NF; ++i) if (is_open[i] && h[i].template ctl_get<int>(n) != ctl[i]) eng::fail("ctl", "setting of pool %u: %d, expected %d", i, h[i].template ctl_get<int>(n), ctl[i]);
        break;
    }
    case O_BY:
    {
        int local;
        if (!throws<pmem::pool_error>([&] { nv::pool_by_vptr(&local); })) eng::fail("pool_by", "an object on the stack belongs to a pool");
        if (!throws<pmem::pool_error>([&] { nv::pool_by_pptr(nv::persistent_ptr<int>()); })) eng::fail("pool_by", "a null pointer belongs to a pool");
        if (!throws<pmem::pool_error>([&] { nv::pool_by_pptr(nv::persistent_ptr<int>(PMEMoid{o.x | 1, 4096})); })) eng::fail("pool_by", "a pointer of no pool belongs to one");
        if (!is_open[f]) return;
        auto *r = get_root(f, o.a % 3, o.how);
        unsigned pos = o.b % m.rs;
        if (nv::pool_by_vptr((char *)r + pos).handle() != h[f].handle()) eng::fail("pool_by", "an object of file %u is found in another pool", f);
        nv::persistent_ptr<char> pp(pmemobj_oid(r));
        if (nv::pool_by_pptr(pp + pos).handle() != h[f].handle()) eng::fail("pool_by", "a pointer into file %u is found in another pool", f);
        if ((pp + pos).get() != (char *)r + pos) eng::fail("pool_by", "the pointer leads elsewhere");
        break;
    }
    case O_DAMAGE:
        if (is_open[f] || m.kind != F_POOL) return;
        {
            FILE *g = fopen(p.c_str(), "r+");
            vector<char> junk(4096, (char)(o.x | 1));
            fseek(g, 0, SEEK_SET); fwrite(junk.data(), 1, junk.size(), g); fclose(g);
            m = FileM{};
            m.kind = F_BAD; m.lay = o.a % 4;
        }
        break;
    case O_TRUNC:
        if (is_open[f]) return;
        unlink(p.c_str());
        {
            static const uint64_t sizes[] = {PMEMOBJ_MIN_POOL, 2 * PMEMOBJ_MIN_POOL, PMEMOBJ_MIN_POOL / 2, 4096, PMEMOBJ_MIN_POOL + 4096 * 3}; // the system library itself fails on files of less than a page
            FILE *g = fopen(p.c_str(), "w");
            m = FileM{};
            m.kind = F_ZERO; m.size = sizes[o.a % 5];
            if (ftruncate(fileno(g), m.size)) eng::fail("harness", "ftruncate");
            fclose(g);
        }
        break;
    case O_UNLINK:
        if (is_open[f]) return;
        unlink(p.c_str());
        m = FileM{};
        break;
    case O_OBJ: // something else in the pool
        if (!is_open[f]) return;
        nv::transaction::run(h[f], [&] { auto q = nv::make_persistent<Blob>(); if (nv::pool_by_pptr(q).handle() != h[f].handle()) eng::fail("pool_by", "a new object is in another pool"); if (o.x & 1) nv::delete_persistent<Blob>(q); });
        break;
    }
}
void pool_case(Src &s)
{
    pm::durable = true;
    if (!psh) psh = (PoolShm *)eng::shared_alloc(sizeof(PoolShm));
    memset((void *)psh, 0, sizeof *psh);
    string dir = eng::fresh_dir();
    unsigned ns = 1 + s.below(4);
    for (unsigned i = 0; i < ns; ++i)
    {
        Span sp(s);
        vector<POp> ops;
        unsigned n = 1 + s.below(14);
        eng::desc("%s session %u:", i ? " |" : "", i);
        for (unsigned k = 0; k < n; ++k)
        {
            Span sp(s);
            POp o{};
            o.k = s.weighted({5, 5, 2, 4, 3, 10, 2, 2, 1, 1, 1, 1});
            o.f = s.weighted({6, 3, 1}); o.a = s.below(60); o.b = s.below(2048); o.c = s.below(700); o.how = s.below(132); o.x = s.bits64();
            if (k == 0 && s.chance(3, 4)) { o.k = i ? O_OPEN : O_CREATE; o.f = 0; o.a = 1 + o.a % 3; o.b %= 3; o.how = o.how & 3 ? 0 : 1; o.x &= ~15ull; o.x |= i ? 0 : 1; }
            ops.push_back(o);
            eng::desc(" %s(%u)", oname[o.k], o.f);
        }
        int end = s.below(3), pol = s.below(5);
        uint64_t seed = s.bits64();
        eng::desc(end == 0 ? "; closed" : end == 1 ? "; power failure" : "; some closed, power failure");
        eng::in_child("session", [&] {
            session_start();
            Session se;
            se.dir = dir;
            for (auto &m : psh->f) m.unknown = m.kind == F_POOL && m.rs; // what the last session left
            for (auto &o : ops) se.step(o);
            for (unsigned f = 0; f < NF; ++f) if (se.is_open[f] && (end == 0 || (end == 2 && f == 0))) { POp o{}; o.k = O_CLOSE; o.f = f; se.step(o); }
            if (end) { pm::power_failure(pol, seed); pm::crash_exit(); }
            pm::sync_all();
        });
    }
    // every pool that is left can be opened and has its contents
    eng::in_child("last session", [&] {
        session_start();
        Session se;
        se.dir = dir;
        for (auto &m : psh->f) m.unknown = m.kind == F_POOL && m.rs;
        for (unsigned f = 0; f < NF; ++f)
        {
            POp o{};
            o.f = f; o.a = 1; o.k = O_CHECK; se.step(o);
            o.k = O_OPEN; se.step(o);
            if (se.is_open[f]) { o.k = O_CLOSE; se.step(o); }
        }
    });
    eng::remove_tree(dir);
}
// ---- per-session members and states ----
struct VT
{
    int a = -1; uint64_t b = 7; int *made;
    static int ctors, dtors;
    VT() : made(&ctors) { ++ctors; }
    VT(int a, uint64_t b) : a(a), b(b), made(&ctors) { ++ctors; }
    VT(const VT &) = default;
    VT &operator=(const VT &) = default;
    ~VT() { ++dtors; }
};
int VT::ctors, VT::dtors;
constexpr unsigned NV = 4, NO = 5, VP = 2;
struct VRoot
{
    nv::experimental::v<VT> x[NV];
    nv::experimental::v<int> i[NV];
    nv::experimental::v<short> sh;
    nv::persistent_ptr<uint64_t> o[NO];
};
string g_vtmpl[VP];
void vtemplates()
{
    if (g_vtmpl[0].size()) return;
    string dir = eng::fresh_dir();
    eng::in_child("creation of the pools", [&] {
        pm::durable = true;
        session_start();
        for (unsigned i = 0; i < VP; ++i)
        {
            auto pop = nv::pool<VRoot>::create(dir + "/v" + std::to_string(i), "v", PMEMOBJ_MIN_POOL, 0600);
            auto r = pop.root();
            nv::transaction::run(pop, [&] { for (auto &o : r->o) o = nv::make_persistent<uint64_t>(1); });
            pop.close();
        }
    });
    for (unsigned i = 0; i < VP; ++i) { g_vtmpl[i] = dir + "/v" + std::to_string(i); pm::shrink_lanes(g_vtmpl[i], 64); }
}
// the state that belongs to an object
struct ST
{
    static std::atomic<int> live, made;
    std::atomic<uint64_t> word{0};
    uint64_t pad[3];
    ST() { ++made; ++live; for (auto &p : pad) p = 0x51a7e; }
    ~ST() { --live; for (auto &p : pad) p = 0xdead; }
    bool fine() const { return pad[0] == 0x51a7e && pad[1] == 0x51a7e && pad[2] == 0x51a7e; }
};
std::atomic<int> ST::live, ST::made;
using VS = pmem::detail::volatile_state;
struct VOp { unsigned k, a, b, how; int x; };
void v_members(Src &s)
{
    unsigned ns = 1 + s.below(4);
    string dir = eng::fresh_dir(), f = dir + "/p";
    pm::durable = true;
    pm::copy_sparse(g_vtmpl[0], f);
    for (unsigned i = 0; i < ns; ++i)
    {
        Span sp(s);
        unsigned n = 1 + s.below(16), end = s.below(3);
        vector<VOp> ops;
        eng::desc("%s members, session %u:", i ? " |" : "", i);
        static const char *nm[] = {"get", "get(args)", "=", "= v", "swap", "int", "int = short", "int = v", "std::swap", "unsafe_get", "in transaction"};
        for (unsigned k = 0; k < n; ++k)
        {
            Span sp(s);
            ops.push_back({(unsigned)s.below(11), (unsigned)s.below(NV), (unsigned)s.below(NV), (unsigned)s.below(2), (int)s.below(1000)});
            eng::desc(" %s(%u)", nm[ops.back().k], ops.back().a);
        }
        int pol = s.below(5); uint64_t seed = s.bits64();
        if (n > 1) eng::mark_nontrivial();
        eng::in_child("session", [&] {
            session_start();
            for (unsigned round = 0; round < (end == 2 ? 2u : 1u); ++round)
            {
            auto pop = nv::pool<VRoot>::open(f, "v");
            auto r = pop.root();
            struct M { bool on; int a; uint64_t b; } mv[NV] = {}; struct MI { bool on; int x; } mi[NV] = {}, ms = {};
            VT::ctors = VT::dtors = 0;
            int ctors = 0;
            auto use = [&](unsigned k) { if (!mv[k].on) { mv[k] = {true, -1, 7}; ++ctors; } };
            auto usei = [&](unsigned k) { if (!mi[k].on) mi[k] = {true, 0}; };
            for (auto &o : ops)
            {
                auto &x = r->x[o.a]; auto &y = r->x[o.b];
                auto &p = r->i[o.a]; auto &q = r->i[o.b];
                switch (o.k)
                {
                case 0: { use(o.a); VT &t = x.get(); if (&t != &x.get(o.x, 5u) || &t != &(VT &)x) eng::fail("v-same", "get returns another object the second time"); break; }
                case 1: { if (!mv[o.a].on) { mv[o.a] = {true, o.x, (uint64_t)o.x * 3}; ++ctors; } x.get(o.x, (uint64_t)o.x * 3); break; }
                case 2: { use(o.a); int d = VT::ctors; VT t(o.x, o.x + 1); VT::ctors = d; x = t; d = VT::dtors; mv[o.a].a = o.x; mv[o.a].b = o.x + 1; break; }
                case 3: if (o.a != o.b) { use(o.b); use(o.a); x = y; mv[o.a].a = mv[o.b].a; mv[o.a].b = mv[o.b].b; } break;
                case 4: use(o.a); use(o.b); x.swap(y); std::swap(mv[o.a].a, mv[o.b].a); std::swap(mv[o.a].b, mv[o.b].b); break;
                case 5: if (!mi[o.a].on) mi[o.a] = {true, o.how ? o.x : 0}; if (o.how) p.get(o.x); else (void)(int &)p; break;
                case 6: if (!ms.on) ms = {true, o.x % 100}; r->sh.get((short)(o.x % 100)); usei(o.a); p = r->sh; mi[o.a].x = ms.x; break;
                case 7: usei(o.b); usei(o.a); p = q; mi[o.a].x = mi[o.b].x; break;
                case 8: usei(o.a); usei(o.b); { using nv::experimental::swap; swap(p, q); } std::swap(mi[o.a].x, mi[o.b].x); break;
                case 9: usei(o.a); p.get() += o.x; mi[o.a].x += o.x; if (p.unsafe_get() != mi[o.a].x || &p.unsafe_get() != &p.get()) eng::fail("v-same", "unsafe_get gives something else than get"); break;
                case 10:
                    try { nv::transaction::run(pop, [&] { use(o.a); x.get(); if (o.how) throw 5; }); } catch (int) {} catch (pmem::manual_tx_abort &) {}
                    break;
                }
                for (unsigned k = 0; k < NV; ++k)
                {
                    if (mv[k].on && (r->x[k].unsafe_get().a != mv[k].a || r->x[k].unsafe_get().b != mv[k].b)) eng::fail("v-value", "member %u is (%d,%" PRIu64 "), expected (%d,%" PRIu64 ")", k, r->x[k].unsafe_get().a, r->x[k].unsafe_get().b, mv[k].a, mv[k].b);
                    if (mi[k].on && r->i[k].unsafe_get() != mi[k].x) eng::fail("v-value", "int member %u is %d, expected %d", k, r->i[k].unsafe_get(), mi[k].x);
                }
                if (VT::ctors != ctors) eng::fail("v-once", "%d constructions in this session, expected %d", VT::ctors, ctors);
            }
            int d = VT::dtors;
            if (end == 1) { pm::power_failure(pol, seed); pm::crash_exit(); }
            pop.close();
            if (VT::dtors != d) eng::fail("v-dtor", "the destructor of a member runs when the pool is closed");
            }
            pm::sync_all();
        });
    }
    eng::remove_tree(dir);
}
void v_states(Src &s)
{
    string dir = eng::fresh_dir();
    pm::durable = true;
    unsigned np = 1 + s.below(VP), nt = 1 + s.below(3), rounds = 1 + s.below(3);
    for (unsigned i = 0; i < np; ++i) pm::copy_sparse(g_vtmpl[i], dir + "/p" + std::to_string(i));
    struct R { vector<vector<VOp>> par; vector<VOp> seq; unsigned close; vrt::Cfg c; };
    vector<R> rs(rounds);
    static const char *nm[] = {"get", "get_if_exists", "get in transaction", "destroy", "destroy in transaction", "destroy, aborted", "write"};
    for (auto &r : rs)
    {
        Span sp(s);
        r.par.resize(nt);
        for (unsigned t = 0; t < nt; ++t)
        {
            unsigned n = 1 + s.below(5);
            eng::desc("%s[%u]", t ? " " : "| states: ", t);
            for (unsigned k = 0; k < n; ++k) { Span sp(s); r.par[t].push_back({(unsigned)s.weighted({5, 2, 1}), (unsigned)s.below(np), (unsigned)s.below(NO), 0, 0}); eng::desc(" %s(%u.%u)", nm[r.par[t].back().k], r.par[t].back().a, r.par[t].back().b); }
        }
        eng::desc("; then");
        unsigned n = s.below(8);
        for (unsigned k = 0; k < n; ++k) { Span sp(s); r.seq.push_back({(unsigned)s.below(7), (unsigned)s.below(np), (unsigned)s.below(NO), 0, 0}); eng::desc(" %s(%u.%u)", nm[r.seq.back().k], r.seq.back().a, r.seq.back().b); }
        r.close = s.below(4);
        eng::desc("; closed: %u", r.close);
        r.c = gen_cfg(s, nt);
        r.c.tick = 0; r.c.real_threads = true; // transactions are per thread
    }
    eng::in_child("states", [&] {
        session_start();
        nv::pool<VRoot> pop[VP];
        PMEMoid oid[VP][NO];
        ST *st[VP][NO] = {};
        uint64_t word[VP][NO] = {};
        auto op = [&](unsigned i) { pop[i] = nv::pool<VRoot>::open(dir + "/p" + std::to_string(i), "v"); auto r = pop[i].root(); for (unsigned k = 0; k < NO; ++k) { oid[i][k] = r->o[k].raw(); st[i][k] = nullptr; } };
        for (unsigned i = 0; i < np; ++i) op(i);
        auto count = [&] { int n = 0; for (auto &a : st) for (auto *p : a) n += !!p; return n; };
        auto same = [&](unsigned a, unsigned b, ST *p, const char *by) {
            for (unsigned i = 0; i < np; ++i) for (unsigned k = 0; k < NO; ++k) if (st[i][k] == p && p && (i != a || k != b)) eng::fail_exit("state-shared", "%s: the objects %u.%u and %u.%u have the same state", by, a, b, i, k);
            if (st[a][b] && st[a][b] != p) eng::fail_exit("state-same", "%s gives another state for object %u.%u than before", by, a, b);
            if (p && !p->fine()) eng::fail_exit("state-made", "%s: the state of object %u.%u is not constructed", by, a, b);
            st[a][b] = p;
        };
        for (auto &r : rs)
        {
            vector<std::function<void()>> b;
            for (unsigned t = 0; t < nt; ++t)
                b.push_back([&, t] {
                    for (auto &o : r.par[t])
                    {
                        bool before = st[o.a][o.b];
                        if (o.k == 0) same(o.a, o.b, VS::get<ST>(oid[o.a][o.b]), "get");
                        else if (o.k == 1)
                        {
                            ST *p = VS::get_if_exists<ST>(oid[o.a][o.b]);
                            if (!p && before) eng::fail_exit("state-lost", "get_if_exists finds no state for object %u.%u, which has one", o.a, o.b);
                            if (p) same(o.a, o.b, p, "get_if_exists");
                        }
                        else
                        {
                            // first use in a transaction is refused
                            bool got = false, refused = false;
                            ST *p = nullptr;
                            try { nv::transaction::run(pop[o.a], [&] { try { p = VS::get<ST>(oid[o.a][o.b]); got = true; } catch (pmem::transaction_scope_error &) { refused = true; } }); } catch (...) { eng::fail_exit("state-tx", "get in a transaction throws something else"); }
                            if (refused && before) eng::fail_exit("state-tx", "get of an existing state is refused in a transaction");
                            if (got) same(o.a, o.b, p, "get in a transaction");
                        }
                    }
                });
            auto res = vrt::run(r.c, b, s);
            verdict(res);
            if (res.switches >= 3) eng::mark_nontrivial();
            if (ST::live != count()) eng::fail("state-count", "%d states are alive, expected %d", (int)ST::live, count());
            for (auto &o : r.seq)
            {
                auto id = oid[o.a][o.b];
                auto *&p = st[o.a][o.b];
                bool ab = false;
                switch (o.k)
                {
                case 0: { bool nw = !p; same(o.a, o.b, VS::get<ST>(id), "get"); if (nw && st[o.a][o.b]->word) eng::fail("state-made", "a new state has old contents"); if (nw) word[o.a][o.b] = 0; break; }
                case 1: if (VS::get_if_exists<ST>(id) != p) eng::fail("state-same", "get_if_exists of object %u.%u is %p, expected %p", o.a, o.b, (void *)VS::get_if_exists<ST>(id), (void *)p); break;
                case 2:
                {
                    bool refused = false;
                    nv::transaction::run(pop[o.a], [&] { try { if (VS::get<ST>(id) != p) eng::fail("state-tx", "get in a transaction gives another state"); } catch (pmem::transaction_scope_error &) { refused = true; } });
                    if (refused == !!p) eng::fail("state-tx", "get in a transaction is %s, and the state %s", refused ? "refused" : "accepted", p ? "exists" : "does not exist");
                    break;
                }
                case 3: VS::destroy(id); p = nullptr; break;
                case 4:
                    nv::transaction::run(pop[o.a], [&] { VS::destroy(id); if (VS::get_if_exists<ST>(id) != p) eng::fail("state-destroy", "a state is gone before the transaction that destroys it commits"); });
                    p = nullptr;
                    break;
                case 5:
                    try { nv::transaction::run(pop[o.a], [&] { VS::destroy(id); nv::transaction::abort(7); }); } catch (pmem::manual_tx_abort &) { ab = true; }
                    if (!ab) eng::fail("state-destroy", "no abort");
                    break;
                case 6: if (p) { p->word += 5; word[o.a][o.b] = p->word; } break;
                }
                if (ST::live != count()) eng::fail("state-count", "after %s: %d states are alive, expected %d", nm[o.k], (int)ST::live, count());
            }
            for (unsigned i = 0; i < np; ++i) for (unsigned k = 0; k < NO; ++k)
                if (VS::get_if_exists<ST>(oid[i][k]) != st[i][k]) eng::fail("state-same", "get_if_exists of object %u.%u is not its state", i, k);
            for (unsigned i = 0; i < np; ++i)
                if (r.close >> i & 1)
                {
                    pop[i].close();
                    for (auto &p : st[i]) p = nullptr;
                    if (ST::live != count()) eng::fail("state-close", "%d states are alive after pool %u is closed, expected %d", (int)ST::live, i, count());
                    for (unsigned k = 0; k < NO; ++k) if (VS::get_if_exists<ST>(oid[i][k])) eng::fail("state-close", "object %u.%u has a state after its pool was closed", i, k);
                    op(i);
                }
            for (unsigned i = 0; i < np; ++i) for (unsigned k = 0; k < NO; ++k) if (st[i][k] && !st[i][k]->fine()) eng::fail("state-made", "the state of object %u.%u was destroyed", i, k);
        }
        for (unsigned i = 0; i < np; ++i) pop[i].close();
        if (ST::live != 0) eng::fail("state-close", "%d states are alive after all pools are closed", (int)ST::live);
        _exit(0);
    });
    eng::remove_tree(dir);
}
void volatile_case(Src &s)
{
    vtemplates();
    if (s.below(3) == 0) v_members(s); else v_states(s);
}
