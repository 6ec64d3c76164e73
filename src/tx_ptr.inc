// Pointer arithmetic, comparison and conversion (property C27), part of h_tx.cpp.
struct B1 { int a; };
struct B2 { long b; int c; };
struct D : B1, B2 { int d; };
constexpr int PN = 8, PQ = 3;
struct PT
{
    nv::persistent_ptr<D[]> arr;
    nv::persistent_ptr<D[6]> fx;
    nv::persistent_ptr<D> q[PQ];
    nv::persistent_ptr<B2> b[PQ];
    nv::persistent_ptr<const D> c[PQ];
    nv::persistent_ptr<void> v[PQ];
    nv::p<int> dummy;
};
enum PK { PSET, PINC, PADD, PDIFF, PCMP, PCONV, PDEREF, PSWAP, PNULL, PVOID, PTO, PITER, PNK };
const char *pkname[] = {"set", "inc", "add", "diff", "compare", "convert", "deref", "swap", "null", "void", "pointer_to", "iterator"};
struct POp { int k, how, i, j, n; };
struct PtrSys
{
    using Op = POp;
    static Op gen(eng::Src &s)
    {
        Op o{};
        o.k = s.below(PNK);
        o.how = s.below(12);
        o.i = s.below(PQ);
        o.j = s.below(PQ);
        o.n = s.below(PN + 1);
        return o;
    }
    static std::string name(const Op &o) { char b[80]; snprintf(b, sizeof b, "%s/%d(%d,%d,%d)", pkname[o.k], o.how, o.i, o.j, o.n); return b; }
    static PT *t() { return obj<PT>(0); }
    void create()
    {
        nv::transaction::run(pop, [&] {
            auto p = nv::make_persistent<PT>();
            p->arr = nv::make_persistent<D[]>(PN);
            p->fx = nv::make_persistent<D[6]>();
            for (int i = 0; i < PN; ++i) { p->arr[i].a = i; p->arr[i].b = 100 + i; p->arr[i].c = 200 + i; p->arr[i].d = 300 + i; }
            for (int i = 0; i < 6; ++i) { p->fx[i].a = 50 + i; p->fx[i].d = 60 + i; }
            pop.root()->slot[0] = nv::persistent_ptr<char>(p.raw());
        });
    }
    void attach() {}
    void settle(bool) {}
    void finish() {}
    std::string extra() { return ""; }
    static std::string pos(const PMEMoid &o, ptrdiff_t shift)
    {
        if (!o.off && !o.pool_uuid_lo) return "null";
        if (o.pool_uuid_lo != t()->arr.raw().pool_uuid_lo) { char b[60]; snprintf(b, sizeof b, "uuid %" PRIx64 " off %" PRIx64, o.pool_uuid_lo, o.off); return b; }
        ptrdiff_t d = (ptrdiff_t)(o.off - t()->arr.raw().off) - shift;
        if (d < 0 || d % (ptrdiff_t)sizeof(D) || d / (ptrdiff_t)sizeof(D) > PN) return "bad " + std::to_string(d);
        return std::to_string(d / sizeof(D));
    }
    static ptrdiff_t b2shift() { D d; return (char *)static_cast<B2 *>(&d) - (char *)&d; }
    static State read_all()
    {
        State s(1);
        PT *p = t();
        for (auto &x : p->q) s[0].push_back(pos(x.raw(), 0));
        for (auto &x : p->b) s[0].push_back(pos(x.raw(), b2shift()));
        for (auto &x : p->c) s[0].push_back(pos(x.raw(), 0));
        for (auto &x : p->v) s[0].push_back(pos(x.raw(), 0));
        return s;
    }
    State read()
    {
        PT *p = t();
        State s = read_all();
        for (int i = 0; i < PN; ++i) if (p->arr[i].a != i || p->arr[i].b != 100 + i || p->arr[i].c != 200 + i || p->arr[i].d != 300 + i) eng::fail("array", "element %d of the array: %d %ld %d %d", i, p->arr[i].a, p->arr[i].b, p->arr[i].c, p->arr[i].d);
        for (int i = 0; i < 6; ++i) if (p->fx[i].a != 50 + i || p->fx.get()[i].d != 60 + i) eng::fail("array", "element %d of the fixed array", i);
        for (int i = 0; i < PQ; ++i)
        {
            const std::string *e = &s[0][0];
            if ((p->q[i].get() == nullptr) != (e[i] == "null") || (e[i] != "null" && p->q[i].get() != p->arr.get() + atoi(e[i].c_str()))) eng::fail("get", "get() of pointer %d does not give element %s", i, e[i].c_str());
            e += PQ;
            if ((p->b[i].get() == nullptr) != (e[i] == "null") || (e[i] != "null" && p->b[i].get() != static_cast<B2 *>(p->arr.get() + atoi(e[i].c_str())))) eng::fail("get", "get() of base pointer %d does not give element %s", i, e[i].c_str());
            e += PQ;
            if ((p->c[i].get() == nullptr) != (e[i] == "null") || (e[i] != "null" && p->c[i].get() != p->arr.get() + atoi(e[i].c_str()))) eng::fail("get", "get() of const pointer %d does not give element %s", i, e[i].c_str());
            e += PQ;
            if ((p->v[i].get() == nullptr) != (e[i] == "null") || (e[i] != "null" && p->v[i].get() != (void *)(p->arr.get() + atoi(e[i].c_str())))) eng::fail("get", "get() of void pointer %d does not give element %s", i, e[i].c_str());
        }
        return s;
    }
    static int num(const std::string &s) { return s == "null" ? -1 : atoi(s.c_str()); }
    static std::string str(int i) { return i < 0 ? "null" : std::to_string(i); }
    static int step(const Op &o, int cur) { int k = o.n % 4; return o.how & 1 ? std::min(k, PN - cur) : -std::min(k, cur); }
    std::string model(State &st, const Op &o)
    {
        int q[PQ], b[PQ], c[PQ], v[PQ];
        for (int i = 0; i < PQ; ++i) { q[i] = num(st[0][i]); b[i] = num(st[0][PQ + i]); c[i] = num(st[0][2 * PQ + i]); v[i] = num(st[0][3 * PQ + i]); }
        std::string out;
        int &x = q[o.i], &y = q[o.j];
        switch (o.k)
        {
        case PSET: x = o.n; break;
        case PINC: if (x >= 0) { if (o.how & 1) { if (x < PN) ++x; } else if (x > 0) --x; } break;
        case PADD: if (x >= 0) { int s = step(o, x); if (o.how % 4 < 2) x += s; else y = x + s; } break;
        case PDIFF: if (x >= 0 && y >= 0) out = std::to_string(x - y); break;
        case PCMP: if ((x < 0) == (y < 0)) out = std::string() + (x == y ? "=" : "!") + (x < y ? "<" : "") + (x > y ? ">" : "") + (x <= y ? "l" : "") + (x >= y ? "g" : ""); else out = x == y ? "=" : "!"; out += x < 0 ? "n" : "p"; break;
        case PCONV: switch (o.how % 6) { case 0: b[o.j] = x; break; case 1: c[o.j] = x; break; case 2: v[o.j] = x; break; case 3: x = v[o.j]; break; case 4: c[o.j] = v[o.i]; break; default: out = x < 0 ? "=" : "=" ; break; } break;
        case PDEREF: if (x >= 0 && x < PN) { char z[60]; snprintf(z, sizeof z, "%d %d %d", x, 100 + x, 300 + x); out = z; } if (b[o.j] >= 0 && b[o.j] < PN) out += " " + std::to_string(200 + b[o.j]); if (c[o.j] >= 0 && c[o.j] < PN) out += " c" + std::to_string(300 + c[o.j]); break;
        case PSWAP: switch (o.how % 3) { case 0: std::swap(x, y); break; case 1: std::swap(b[o.i], b[o.j]); break; default: std::swap(v[o.i], v[o.j]); } break;
        case PNULL: x = -1; if (o.how & 1) c[o.j] = -1; break;
        case PVOID: out = std::string(v[o.i] < 0 ? "n" : "p") + (v[o.i] == v[o.j] ? "=" : "!"); break;
        case PTO: x = std::min(o.n, PN - 1); break;
        case PITER: { int lo = std::min(o.n, PN - 1); out = std::to_string(PN - lo) + " " + std::to_string(300 + PN - 1); break; }
        }
        for (int i = 0; i < PQ; ++i) { st[0][i] = str(q[i]); st[0][PQ + i] = str(b[i]); st[0][2 * PQ + i] = str(c[i]); st[0][3 * PQ + i] = str(v[i]); }
        return out;
    }
    std::string apply(const Op &o)
    {
        std::string out;
        nv::transaction::run(pop, [&] { out = go(o); });
        return out;
    }
    static std::string go(const Op &o)
    {
        PT *p = t();
        auto &x = p->q[o.i], &y = p->q[o.j];
        nv::persistent_ptr<D> base(p->arr.raw());
        std::string out;
        int cur = x == nullptr ? -1 : (int)(x - base);
        switch (o.k)
        {
        case PSET:
            switch (o.how % 6)
            {
            case 0: x = base + o.n; break;
            case 1: x = nv::persistent_ptr<D>(p->arr.get() + o.n); break;
            case 2: x = base - -o.n; break;
            case 3: { auto z = base; z += o.n; x = z; break; }
            case 4: { auto z = base; for (int i = 0; i < o.n; ++i) z++; x = std::move(z); break; }
            default: { nv::persistent_ptr<D> z(base + PN); while (z - base > o.n) --z; x = z; }
            }
            break;
        case PINC:
            if (cur < 0) break;
            if (o.how & 1) { if (cur < PN) { if (o.how & 2) { auto r = ++x; if (r != x) out = "pre"; } else { auto r = x++; if (r != x - 1) out = "post"; } } }
            else if (cur > 0) { if (o.how & 2) { auto r = --x; if (r != x) out = "pre"; } else { auto r = x--; if (r != x + 1) out = "post"; } }
            break;
        case PADD:
            if (cur >= 0)
            {
                int s = step(o, cur);
                switch (o.how % 4) { case 0: x -= -s; break; case 1: x += s; break; case 2: y = x - -s; break; default: y = x + s; break; }
            }
            break;
        case PDIFF: if (x && y) { out = std::to_string(x - y); const auto cy = nv::persistent_ptr<const D>(y); if (x - cy != x - y) out = "const"; } break;
        case PCMP:
            if (bool(x) == bool(y)) out = std::string() + (x == y ? "=" : "!") + (x < y ? "<" : "") + (x > y ? ">" : "") + (x <= y ? "l" : "") + (x >= y ? "g" : "");
            else out = x == y ? "=" : "!";
            if ((x == y) == (x != y)) out += " ==/!=";
            if (x && ((x == nullptr) || (nullptr == x) || !(x != nullptr) || !(nullptr != x) || x < nullptr || !(x > nullptr) || !(nullptr < x) || x <= nullptr || !(nullptr <= x) || nullptr >= x || !(x >= nullptr))) out += " null";
            if (!x && (x != nullptr || nullptr != x || x < nullptr || nullptr < x || !(x <= nullptr) || !(x >= nullptr) || x > nullptr)) out += " null";
            out += x ? "p" : "n";
            break;
        case PCONV:
            switch (o.how % 6)
            {
            case 0: p->b[o.j] = x; break;
            case 1: p->c[o.j] = x; break;
            case 2: p->v[o.j] = x; break;
            case 3: x = nv::persistent_ptr<D>(p->v[o.j]); break;
            case 4: p->c[o.j] = nv::persistent_ptr<const D>(p->v[o.i]); break;
            default: { nv::persistent_ptr<B2> z(x); nv::persistent_ptr<B1> z1(x); nv::persistent_ptr<const B2> z2(x); nv::persistent_ptr<B2> n; D *raw = x.get();
                    out = z.get() == static_cast<B2 *>(raw) && z1.get() == static_cast<B1 *>(raw) && z2.get() == static_cast<B2 *>(raw) && (raw || z == n) && z2 == z ? "=" : "!"; }
            }
            break;
        case PDEREF:
            if (cur >= 0 && cur < PN) { char z[60]; snprintf(z, sizeof z, "%d %ld %d", o.how & 1 ? x->a : (*x).a, o.how & 2 ? x->b : x[0].b, base[cur].d); out = z; }
            { auto &b = p->b[o.j]; if (b && b.get() != static_cast<B2 *>(p->arr.get() + PN)) out += " " + std::to_string(b->c); }
            { auto &c = p->c[o.j]; if (c && c.get() != p->arr.get() + PN) out += " c" + std::to_string(c->d); }
            break;
        case PSWAP: switch (o.how % 3) { case 0: if (o.how & 1) swap(x, y); else x.swap(y); break; case 1: p->b[o.i].swap(p->b[o.j]); break; default: p->v[o.i].swap(p->v[o.j]); } break;
        case PNULL: if (o.how & 2) x = nullptr; else x = nv::persistent_ptr<D>(); if (o.how & 1) p->c[o.j] = nullptr; break;
        case PVOID: out = std::string(p->v[o.i] ? "p" : "n") + (p->v[o.i] == p->v[o.j] ? "=" : "!"); break;
        case PTO: { D &r = p->arr[std::min(o.n, PN - 1)]; x = nv::persistent_ptr<D>::pointer_to(r); D on_stack; auto z = nv::persistent_ptr<D>::pointer_to(on_stack); if (z.get() != &on_stack) out = "stack"; break; }
        case PITER:
        {
            auto a = base + std::min(o.n, PN - 1), e = base + PN;
            int n = std::distance(a, e), last = 0;
            for (auto it = a; it != e; ++it) last = it->d;
            auto w = a; std::advance(w, n); if (w != e) out = "advance ";
            out += std::to_string(n) + " " + std::to_string(last);
            break;
        }
        }
        return out;
    }
};
void ptr_case(eng::Src &s)
{
    Plan pl;
    pl.wraps = {PLAIN, PLAIN, COMMIT, THROW, MANUAL_COMMIT, MANUAL_ABORT, AUTO, NESTED, NESTED_THROW, CAUGHT_INNER};
    pl.max_units = 8; pl.crash_num = 1; pl.crash_den = 4;
    run_case<PtrSys>(s, pl);
}
