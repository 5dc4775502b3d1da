// C21: typed allocators, all histories to a depth with single faults
#include "mc.hpp"
#include "backing.hpp"
#include <c4/allocator.hpp>
#include <list>
#include <vector>
#include <deque>
#include <map>
#include <new>
#include <algorithm>
#include <memory>
typedef std::string Str;
static unsigned char pat(unsigned tag, size_t i) { return (unsigned char)(tag * 29 + i * 7 + 1); }

/// type-erased allocator under test
struct Any
{
    virtual ~Any() {}
    virtual char *alloc(size_t n, size_t al) = 0;      // al==0: default
    virtual char *realloc(char *p, size_t o, size_t n, size_t al) = 0;
    virtual void dealloc(char *p, size_t n, size_t al) = 0;
    virtual void reassign(Backing *bk) = 0;            // assign a fresh allocator of the same resource
    virtual size_t osize() const = 0;                  // object size
    virtual c4::MemoryResource *res() = 0;
    size_t sz, dal; size_t nlocal; Str name;
};
template<class A> struct mk { static A *make(void *m, Backing *bk) { return new (m) A(bk); } };
template<class T, size_t N, size_t NL, class A> struct Typed : Any
{
    alignas(A) char mem[sizeof(A)]; A *a; Backing *bk; bool global;
    Typed(Backing *b, Str nm, size_t defal, bool global_) : bk(b), global(global_)
    {
        sz = sizeof(T); dal = defal; nlocal = NL; name = nm;
        memset(mem, 0xAA, sizeof mem);
        if(global) c4::set_memory_resource(bk);
        a = new (mem) A(bk);
    }
    ~Typed() override { a->~A(); if(global) c4::set_memory_resource(c4::get_memory_resource_malloc()); }
    char *alloc(size_t n, size_t al) override { return (char*)(al ? a->allocate(n, al) : a->allocate(n)); }
    char *realloc(char *p, size_t o, size_t n, size_t al) override { return (char*)(al ? a->reallocate((T*)p, o, n, al) : a->reallocate((T*)p, o, n)); }
    void dealloc(char *p, size_t n, size_t al) override { if(al) a->deallocate((T*)p, n, al); else a->deallocate((T*)p, n); }
    void reassign(Backing *b) override { A x(b); *a = x; A y(b); *a = std::move(y); }
    size_t osize() const override { return sizeof(A); }
    c4::MemoryResource *res() override { return a->resource(); }
};
struct S12 { int a, b, c; }; struct alignas(16) S48 { char c[48]; };
enum { NKIND = 16 };
static Any *make(int kind, Backing *bk)
{
    #define ALLOCATOR(T, P, g) return new Typed<T, 0, 0, c4::Allocator<T, P>>(bk, "Allocator<" #T "," #P ">", alignof(T), g)
    #define SMALL(T, N, AL, P, g) return new Typed<T, N, N, c4::SmallAllocator<T, N, AL, P>>(bk, "SmallAllocator<" #T "," #N "," #AL "," #P ">", AL, g)
    switch(kind)
    {
    case 0: ALLOCATOR(int, c4::MemRes, false);
    case 1: ALLOCATOR(char, c4::MemResGlobal, true);
    case 2: ALLOCATOR(S48, c4::MemRes, false);
    case 3: ALLOCATOR(S12, c4::MemResGlobal, true);
    case 4: SMALL(int, 4, 4, c4::MemRes, false);
    case 5: SMALL(char, 6, 1, c4::MemRes, false);
    case 6: SMALL(char, 24, 8, c4::MemRes, false);
    case 7: SMALL(S48, 2, 16, c4::MemRes, false);
    case 8: SMALL(S12, 3, 4, c4::MemResGlobal, true);
    case 9: SMALL(int, 1, 4, c4::MemRes, false);
    case 10: SMALL(double, 4, 32, c4::MemRes, false);
    case 11: SMALL(int, 16, 4, c4::MemRes, false);
    case 12: SMALL(char, 1, 1, c4::MemResGlobal, true);
    case 13: SMALL(short, 5, 2, c4::MemRes, false);
    case 14: SMALL(int, 6, 16, c4::MemResGlobal, true);
    default: SMALL(char, 64, 64, c4::MemRes, false);
    }
}
struct Op { enum K { ALLOC, REALLOC, DEALLOC, ASSIGN } k; size_t n, al; int blk; };
static Str show(Op const& o)
{
    switch(o.k)
    {
    case Op::ALLOC: return o.al ? mc::fmt("allocate(%zu,align %zu)", o.n, o.al) : mc::fmt("allocate(%zu)", o.n);
    case Op::REALLOC: return mc::fmt("reallocate(block %d,%zu)", o.blk, o.n);
    case Op::DEALLOC: return mc::fmt("deallocate(block %d)", o.blk);
    default: return "assign";
    }
}
struct Blk { char *p; size_t n, al; unsigned tag; bool live; };
struct Hist
{
    int kind; int failat; std::vector<size_t> ns; std::vector<size_t> aligns; size_t depth; int freeorder;
    std::vector<Op> h; std::vector<int> idx; Str name; bool sharded;
    Str desc() const { Str r = name; if(failat >= 0) r += mc::fmt(" (resource call %d fails)", failat); r += ":"; for(auto &o : h) r += " " + show(o); return r + (freeorder ? ", then free all, newest first" : ", then free all"); }
    void one()
    {
        mc::Buf buf(4096);
        Backing bk(buf.p, buf.n); bk.failat = failat;
        std::unique_ptr<Any> holder(make(kind, &bk)); Any &a = *holder;
        const size_t SZ = a.sz;
        MC_CHECK(a.res() == &bk, "resource()");
        std::vector<Blk> b; unsigned tags = 0;
        auto intact = [&](Blk const& x, size_t nb) { for(size_t i = 0; i < nb; ++i) if((unsigned char)x.p[i] != pat(x.tag, i)) return false; return true; };
        auto islocal = [&](const void *p) { return nlocalobj(a, p); };
        for(size_t step = 0; step < h.size(); ++step)
        {
            Op const& o = h[step]; const bool last = step + 1 == h.size();
            void *volatile got = nullptr; bool err = false; bk.failed = false; Blk nb{};
            bool localbusy = false; for(auto &x : b) if(x.live && islocal(x.p)) localbusy = true;
            switch(o.k)
            {
            case Op::ALLOC: err = mc::errors_in([&]{ got = a.alloc(o.n, o.al); }); nb = {(char*)got, o.n, o.al, ++tags, true}; break;
            case Op::REALLOC: { Blk old = b[(size_t)o.blk]; err = mc::errors_in([&]{ got = a.realloc(old.p, old.n, o.n, old.al); }); nb = {(char*)got, o.n, old.al, old.tag, true}; break; }
            case Op::DEALLOC: { Blk &old = b[(size_t)o.blk]; a.dealloc(old.p, old.n, old.al); old.live = false; break; }
            case Op::ASSIGN: a.reassign(&bk); MC_CHECK(a.res() == &bk, "assignment changed the resource"); break;
            }
            mc::T();
            if(last) { MC_CHECK(err == bk.failed, "%s", err ? "an error was raised although the resource did not fail" : "the resource failed but no error was raised"); MC_CHECK(bk.bad.empty(), "the resource saw: %s", bk.bad.c_str()); }
            if(!bk.bad.empty()) return;
            if(!err && (o.k == Op::ALLOC || o.k == Op::REALLOC))
            {
                const size_t al = nb.al ? nb.al : a.dal;
                if(last)
                {
                    MC_CHECK(nb.p != nullptr && ((uintptr_t)nb.p & (al - 1)) == 0, "the block is not aligned to %zu (address modulo 64: %zu)", al, (size_t)((uintptr_t)nb.p % 64));
                    for(size_t i = 0; i < b.size(); ++i) if(b[i].live && !(o.k == Op::REALLOC && (int)i == o.blk) && nb.n && b[i].n)
                        MC_CHECK(nb.p + nb.n * SZ <= b[i].p || b[i].p + b[i].n * SZ <= nb.p, "the block overlaps live block %zu", i);
                    bool inres = false; for(auto &x : bk.live) if(x.p == nb.p) { inres = true; MC_CHECK(x.sz == nb.n * SZ && x.al == al, "the resource gave %zu bytes aligned %zu for %zu objects of %zu bytes aligned %zu", x.sz, x.al, nb.n, SZ, al); }
                    bool loc = islocal(nb.p);
                    MC_CHECK(inres || loc, "the block is neither from the resource nor local");
                    if(loc && !inres) MC_CHECK(nb.p + nb.n * SZ <= (char*)&a + full(a), "the block extends beyond the allocator object");
                    if(o.k == Op::ALLOC && !localbusy && o.n <= a.nlocal && o.n > 0 && (!o.al || o.al <= a.dal)) MC_CHECK(loc, "a request that fits the unused local buffer was passed to the resource");
                }
                if(!nb.p) return;
                if(o.k == Op::REALLOC)
                {
                    Blk &old = b[(size_t)o.blk]; size_t keep = std::min(o.n, old.n) * SZ;
                    if(last) MC_CHECK(intact(nb, keep), "reallocation from %zu to %zu objects lost contents", old.n, o.n);
                    old.live = false; nb.tag = ++tags;
                }
                for(size_t i = 0; i < nb.n * SZ; ++i) nb.p[i] = (char)pat(nb.tag, i);
                b.push_back(nb);
            }
            if(last)
            {
                for(size_t i = 0; i < b.size(); ++i) if(b[i].live) MC_CHECK(intact(b[i], b[i].n * SZ), "live block %zu lost its contents", i);
                size_t inr = 0; for(auto &x : b) if(x.live && bk.mine(x.p)) ++inr;
                MC_CHECK(bk.live.size() == inr, "%zu blocks are taken from the resource, %zu are live", bk.live.size(), inr);
            }
        }
        idx.clear(); for(size_t k = 0; k < b.size(); ++k) if(b[k].live) idx.push_back((int)k);
        for(size_t k = 0; k < b.size(); ++k) { Blk &x = b[freeorder ? b.size() - 1 - k : k]; if(x.live) { a.dealloc(x.p, x.n, x.al); mc::T(); } }
        MC_CHECK(bk.live.empty() && bk.bad.empty(), "after freeing everything, %zu blocks are not returned; %s", bk.live.size(), bk.bad.c_str());
        mc::V();
    }
    static size_t full(Any &a) { return (size_t)1 << 14; (void)a; }
    static bool nlocalobj(Any &a, const void *p) { return (const char*)p >= (const char*)&a && (const char*)p < (const char*)&a + a.osize() + sizeof(Any) + 128; }
    void run()
    {
        bool ok = false; mc::S();
        if(name.empty()) { char c[8]; Backing bk(c, 8); std::unique_ptr<Any> a(make(kind, &bk)); name = a->name; }
        MC_CASE(desc(), { one(); ok = true; });
        if(!ok) { c4::set_memory_resource(c4::get_memory_resource_malloc()); return; }
        if(h.size() == depth) return;
        std::vector<Op> nx; std::vector<int> li = idx;
        for(size_t al : aligns) for(size_t n : ns) nx.push_back({Op::ALLOC, n, al, 0});
        for(int i : li) { for(size_t n : ns) nx.push_back({Op::REALLOC, n, 0, i}); nx.push_back({Op::DEALLOC, 0, 0, i}); }
        nx.push_back({Op::ASSIGN, 0, 0, 0});
        for(auto &o : nx) { if(h.size() == 1 && !mc::mine()) continue; h.push_back(o); run(); h.pop_back(); }
    }
};
SECTION(histories, 8)
{
    const size_t D = 4 + (mc::thorough() ? 1 : 0);
    mc::bound(mc::fmt("16 allocators (general and small-buffer; element sizes 1-48, local capacities 1-64, alignments 1-64, own and current resource): all histories of %zu operations: allocate {0,1,2,4,7} objects (default alignment and 64), reallocate, deallocate any block, assign; then everything freed", D));
    for(int k = 0; k < NKIND; ++k) { Hist x{k, -1, {1, 2, 4, 7}, {0, 64}, D - 1, 0}; x.run(); Hist y{k, -1, {0, 1, 3}, {0}, D, 1}; y.run(); }
}
SECTION(histories_deep, 8)
{
    const size_t D = 6 + (mc::thorough() ? 1 : 0);
    mc::bound(mc::fmt("small-buffer allocators: all histories of %zu operations: allocate {1,2}, reallocate {1,2}, deallocate any block, assign", D));
    for(int k : {4, 5, 9, 0}) { Hist x{k, -1, {1, 2}, {0}, D, 0}; x.run(); }
}
SECTION(faults, 8)
{
    const size_t D = 4 + (mc::thorough() ? 1 : 0);
    mc::bound(mc::fmt("every allocator: all histories of %zu operations over {1,7} objects, the resource failing at its k-th call, k=0..%zu", D, D - 1));
    for(int k = 0; k < NKIND; ++k) for(int f = 0; f < (int)D; ++f) { Hist x{k, f, {1, 7}, {0}, D, 0}; x.run(); }
}
SECTION(huge, 1)
{
    mc::bound("object counts whose size in bytes is not representable (SIZE_MAX/size+1 to +40, SIZE_MAX-0..40, powers of two): an error, nothing is taken");
    for(int k = 0; k < NKIND; ++k)
    {
        std::vector<size_t> v; char cc[8]; Backing b0(cc, 8); std::unique_ptr<Any> a0(make(k, &b0)); size_t SZ = a0->sz; Str nm = a0->name; a0.reset();
        for(size_t i = 0; i <= 40; ++i) { if(SZ > 1) v.push_back(SIZE_MAX / SZ + 1 + i); v.push_back(SIZE_MAX - i); }
        for(int e = 40; e < 64; ++e) v.push_back((size_t)1 << e);
        for(size_t n : v) for(int re = 0; re < 2; ++re)
        {
            mc::S();
            MC_CASE(mc::fmt("%s: %s(%zu)", nm.c_str(), re ? "reallocate" : "allocate", n), {
                mc::Buf buf(512); Backing bk(buf.p, buf.n);
                std::unique_ptr<Any> a(make(k, &bk));
                char *p = a->alloc(1, 0); memset(p, 0x77, SZ); size_t lv = bk.live.size();
                bool err = mc::errors_in([&]{ if(re) a->realloc(p, 1, n, 0); else a->alloc(n, 0); }); mc::T(2);
                MC_CHECK(err, "granted");
                if(err) { for(size_t i = 0; i < SZ; ++i) if(p[i] != 0x77) { mc::violation("the live block changed"); break; } MC_CHECK(bk.live.size() == lv, "blocks taken"); a->dealloc(p, 1, 0); MC_CHECK(bk.live.empty() && bk.bad.empty(), "at the end"); }
                mc::V();
            });
            c4::set_memory_resource(c4::get_memory_resource_malloc());
        }
    }
}
// ---------------------------------------------------------------- copies and rebinds
template<class A> static void copies(const char *nm, Backing *r1, bool global)
{
    mc::S();
    MC_CASE(Str(nm) + ": copies and rebinds", {
        if(global) c4::set_memory_resource(r1);
        A a(r1);
        A b(a); A c(std::move(b)); A d(r1); d = a; d = std::move(c); A e = a.select_on_container_copy_construct();
        typename A::template rebind<double>::other f(a); auto g = a.template rebound<char>(); typename A::template rebind<int>::other hh(g);
        mc::T(9);
        MC_CHECK(a.resource() == r1 && b.resource() == r1 && c.resource() == r1 && d.resource() == r1 && e.resource() == r1 && f.resource() == r1 && g.resource() == r1 && hh.resource() == r1, "a copy uses another resource");
        double *p = f.allocate(40); char *q = g.allocate(300); int *i = hh.allocate(100); mc::T(3);
        MC_CHECK(r1->mine(p) && r1->mine(q) && r1->mine(i) && r1->live.size() == 3, "blocks of rebound allocators");
        f.deallocate(p, 40); g.deallocate(q, 300); hh.deallocate(i, 100); mc::T(3);
        MC_CHECK(r1->live.empty() && r1->bad.empty(), "not returned: %s", r1->bad.c_str());
        mc::V();
    });
    c4::set_memory_resource(c4::get_memory_resource_malloc());
}
SECTION(copies_rebinds, 1)
{
    mc::bound("copy, move, assignment, selection, rebinding and rebinding back of 8 allocator types; equality of all pairs of general allocators over two resources");
    mc::Buf m1(4096), m2(64); Backing r1(m1.p, m1.n), r2(m2.p, m2.n);
    copies<c4::allocator_mr<int>>("allocator_mr<int>", &r1, false); copies<c4::allocator<int>>("allocator<int>", &r1, true);
    copies<c4::allocator_mr<S48>>("allocator_mr<S48>", &r1, false); copies<c4::allocator<char>>("allocator<char>", &r1, true);
    copies<c4::small_allocator_mr<int>>("small_allocator_mr<int>", &r1, false); copies<c4::small_allocator<int>>("small_allocator<int>", &r1, true);
    copies<c4::small_allocator_mr<S48, 2>>("small_allocator_mr<S48,2>", &r1, false); copies<c4::small_allocator<char, 3, 8>>("small_allocator<char,3,8>", &r1, true);
    for(int x = 0; x < 2; ++x) for(int y = 0; y < 2; ++y)
    {
        mc::S();
        MC_CASE(mc::fmt("== of allocators over resources %d and %d", x, y), {
            c4::allocator_mr<int> a(x ? &r1 : &r2), b(y ? &r1 : &r2); c4::allocator_mr<char> c(b);
            MC_CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a == c) == (x == y) && (c != a) == (x != y), "equality"); mc::T(4);
            c4::set_memory_resource(x ? &r1 : &r2); c4::allocator<int> g; MC_CHECK((g == b) == (x == y) && (b != g) == (x != y), "equality with the global one"); mc::T(2);
            c4::allocator_mr<int> dflt; c4::allocator_mr<int> nul(nullptr); MC_CHECK(dflt.resource() == (x ? (c4::MemoryResource*)&r1 : &r2) && nul.resource() == dflt.resource(), "default resource");
            c4::set_memory_resource(y ? &r1 : &r2); MC_CHECK(dflt.resource() == (x ? (c4::MemoryResource*)&r1 : &r2) && g.resource() == (y ? (c4::MemoryResource*)&r1 : &r2), "after the current resource changed");
            mc::V();
        });
        c4::set_memory_resource(c4::get_memory_resource_malloc());
    }
}
SECTION(small_equality, 1)
{
    mc::bound("all pairs of four small-buffer allocators over two resources, with and without a block in the local buffer: two different objects never compare equal (memory of one cannot be returned to the other)");
    mc::Buf m1(4096), m2(4096); Backing r1(m1.p, m1.n), r2(m2.p, m2.n);
    for(int used = 0; used < 16; ++used)
    {
        c4::small_allocator_mr<int, 4> a0(&r1), a1(&r1), a2(&r2); c4::small_allocator_mr<int, 4> a3(&r2);
        c4::small_allocator_mr<int, 4> *v[4] = {&a0, &a1, &a2, &a3}; int *blk[4];
        for(int i = 0; i < 4; ++i) blk[i] = used >> i & 1 ? v[i]->allocate(2) : nullptr;
        for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j)
        {
            mc::S();
            MC_CASE(mc::fmt("small allocators %d and %d, local buffers in use: %d", i, j, used), {
                mc::T(2); bool e = *v[i] == *v[j]; bool n = *v[i] != *v[j];
                MC_CHECK(e != n, "== and != agree");
                if(i != j) MC_CHECK(!e, "two different objects compare equal");
                mc::V();
            });
        }
        for(int i = 0; i < 4; ++i) if(blk[i]) v[i]->deallocate(blk[i], 2);
    }
}
// ---------------------------------------------------------------- construction through the allocator
static int g_ctor, g_dtor;
struct Plain { int a, b; c4::MemoryResource *r; Plain(int x = 1, int y = 2) : a(x), b(y), r(nullptr) { ++g_ctor; } Plain(Plain const& o) : a(o.a), b(o.b), r(o.r) { ++g_ctor; } ~Plain() { ++g_dtor; } };
struct Lead { using allocator_type = c4::MemoryResource*; int a, b; c4::MemoryResource *r; Lead(std::allocator_arg_t, c4::MemoryResource *m, int x = 1, int y = 2) : a(x), b(y), r(m) { ++g_ctor; } ~Lead() { ++g_dtor; } };
struct Trail { using allocator_type = c4::MemoryResource*; int a, b; c4::MemoryResource *r; Trail(c4::MemoryResource *m) : a(1), b(2), r(m) { ++g_ctor; } Trail(int x, c4::MemoryResource *m) : a(x), b(2), r(m) { ++g_ctor; } Trail(int x, int y, c4::MemoryResource *m) : a(x), b(y), r(m) { ++g_ctor; } ~Trail() { ++g_dtor; } };
template<class U> static void constr(const char *nm, bool uses)
{
    for(int nargs = 0; nargs < 3; ++nargs) for(int n = 0; n <= 5; ++n) for(int kind = 0; kind < 3; ++kind)
    {
        mc::S();
        MC_CASE(mc::fmt("%s: construct %d objects with %d arguments, kind %d", nm, n, nargs, kind), {
            mc::Buf buf(2048); Backing bk(buf.p, buf.n);
            c4::ScopedMemoryResource sc(&bk);
            alignas(16) char mem[sizeof(U) * 8]; memset(mem, 0x3C, sizeof mem);
            U *p = (U*)(mem + sizeof(U)); g_ctor = g_dtor = 0;
            auto go = [&](auto &a) {
                if(n == 1) { if(nargs == 0) a.construct(p); else if(nargs == 1) a.construct(p, 7); else a.construct(p, 7, 8); }
                else { if(nargs == 0) a.construct_n(p, n); else if(nargs == 1) a.construct_n(p, n, 7); else a.construct_n(p, (size_t)n, 7, 8); }
                mc::T();
                MC_CHECK(g_ctor == n, "%d objects were constructed", g_ctor);
                for(int i = 0; i < n; ++i) MC_CHECK(p[i].a == (nargs ? 7 : 1) && p[i].b == (nargs > 1 ? 8 : 2) && p[i].r == (uses ? (c4::MemoryResource*)&bk : nullptr), "object %d is {%d,%d,%s}", i, p[i].a, p[i].b, p[i].r == &bk ? "resource" : "other");
                for(size_t i = 0; i < sizeof(U); ++i) { if(mem[i] != 0x3C) { mc::violation("written before"); break; } if(((char*)(p + n))[i] != 0x3C) { mc::violation("written behind"); break; } }
                if(n == 1) a.destroy(p); else a.destroy_n(p, n);
                mc::T();
                MC_CHECK(g_dtor == n, "%d objects were destroyed", g_dtor);
            };
            if(kind == 0) { c4::allocator_mr<U> a(&bk); go(a); } else if(kind == 1) { c4::allocator<U> a; go(a); } else { c4::small_allocator_mr<U, 2> a(&bk); go(a); }
            mc::V();
        });
        c4::set_memory_resource(c4::get_memory_resource_malloc());
    }
}
SECTION(construction, 1)
{
    mc::bound("construct/construct_n/destroy of 0-5 objects with 0-2 arguments for types without resource and types taking it first or last");
    constr<Plain>("plain type", false); constr<Lead>("type taking (allocator_arg, resource, ...)", true); constr<Trail>("type taking (..., resource)", true);
}
// ---------------------------------------------------------------- standard containers
template<class C, class A> static void containers(const char *nm, size_t D, u_int64_t NOP = 6)
{
    // operations: push back x2, erase front, erase back, insert in the middle, copy-construct and drop, clear
    u_int64_t total = 1; for(size_t i = 0; i < D; ++i) total *= NOP;
    for(u_int64_t code = 0; code < total; ++code)
    {
        if(!mc::mine()) continue;
        mc::S();
        MC_CASE(mc::fmt("%s history %llu (base %d digits, first operation first)", nm, (unsigned long long)code, (int)NOP), {
            mc::Buf buf(8192); Backing bk(buf.p, buf.n);
            {
                A al(&bk);
                C c(al); std::vector<int> m; int v = 0; u_int64_t x = code;
                for(size_t s = 0; s < D; ++s, x /= NOP)
                {
                    switch(x % NOP)
                    {
                    case 0: c.push_back(++v); m.push_back(v); break;
                    case 1: for(int i = 0; i < 3; ++i) { c.push_back(++v); m.push_back(v); } break;
                    case 2: if(!m.empty()) { c.erase(c.begin()); m.erase(m.begin()); } break;
                    case 3: if(!m.empty()) { c.pop_back(); m.pop_back(); } break;
                    case 4: { auto it = c.begin(); std::advance(it, (long)m.size() / 2); c.insert(it, ++v); m.insert(m.begin() + (long)m.size() / 2, v); break; }
                    case 5: { C c2(al); c2 = c; c.clear(); for(int i : c2) c.push_back(i); break; }
                    }
                    mc::T();
                    MC_CHECK(std::vector<int>(c.begin(), c.end()) == m, "the container does not hold its elements after operation %zu", s);
                    MC_CHECK(bk.bad.empty(), "the resource saw: %s", bk.bad.c_str());
                }
            }
            MC_CHECK(bk.live.empty() && bk.bad.empty(), "%zu blocks not returned: %s", bk.live.size(), bk.bad.c_str());
            mc::V();
        });
    }
}
SECTION(std_containers, 6)
{
    const size_t D = 5 + (mc::thorough() ? 2 : 0);
    mc::bound(mc::fmt("std::vector, std::list and std::deque of int with general and small-buffer allocators: all histories of %zu operations {push, push 3, erase front, pop back, insert in the middle, copy-assign and refill}", D));
    containers<std::vector<int, c4::allocator_mr<int>>, c4::allocator_mr<int>>("vector/allocator", D);
    containers<std::list<int, c4::allocator_mr<int>>, c4::allocator_mr<int>>("list/allocator", D);
    containers<std::vector<int, c4::small_allocator_mr<int, 4>>, c4::small_allocator_mr<int, 4>>("vector/small", D);
    containers<std::list<int, c4::small_allocator_mr<int, 4>>, c4::small_allocator_mr<int, 4>>("list/small", D, 5);
    containers<std::deque<int, c4::allocator_mr<int>>, c4::allocator_mr<int>>("deque/allocator", D - 1);
}
// ---------------------------------------------------------------- assignment between allocators of different resources
template<class A> static void assign_pairs(const char *ty, bool small)
{
    for(int used_to = 0; used_to < 3; ++used_to) for(int used_from = 0; used_from < 3; ++used_from) for(int how = 0; how < 4; ++how)
    {
        if(!mc::mine()) continue;
        mc::S();
        static const char *H[] = {"copy assignment", "move assignment", "copy construction", "move construction"}; static const char *U[] = {"unused", "with a block of 1", "with a block of 40"};
        MC_CASE(mc::fmt("%s: %s of an allocator (%s) from one of another resource (%s)", ty, H[how], U[used_to], U[used_from]), {
            mc::Buf bx(4096), by(4096); Backing x(bx.p, 4096); Backing y(by.p, 4096); const size_t nn[] = {0, 1, 40}; (void)small;
            {
                A a(&x); A b(&y);
                int *pa = used_to ? (int*)a.allocate(nn[used_to]) : nullptr; int *pb = used_from ? (int*)b.allocate(nn[used_from]) : nullptr; mc::T(2);
                c4::MemoryResource *ra = a.resource(); c4::MemoryResource *rb = b.resource();
                MC_CHECK(ra == &x && rb == &y, "resource() after construction");
                if(pa) a.deallocate(pa, nn[used_to]);
                if(pb && how != 1 && how != 3) { b.deallocate(pb, nn[used_from]); pb = nullptr; }
                if(pb) { b.deallocate(pb, nn[used_from]); }
                if(how == 0) { a = b; MC_CHECK(a.resource() == &y && b.resource() == &y, "resource() after copy assignment"); }
                else if(how == 1) { a = std::move(b); MC_CHECK(a.resource() == &y, "resource() after move assignment"); }
                else { A c(how == 2 ? A(b) : A(std::move(b))); MC_CHECK(c.resource() == &y, "resource() after construction from another"); int *q = (int*)c.allocate(50); bool fromy = y.live.size() == 1; c.deallocate(q, 50); MC_CHECK(fromy && y.live.empty(), "the block came from another resource"); }
                mc::T(2);
                if(how < 2) { int *q = (int*)a.allocate(50); bool fromy = y.live.size() == 1; a.deallocate(q, 50); MC_CHECK(fromy && y.live.empty() && x.live.empty(), "after assignment the block came from another resource"); mc::T(2); }
            }
            MC_CHECK(x.bad.empty() && y.bad.empty() && x.live.empty() && y.live.empty(), "the resources saw: %s %s", x.bad.c_str(), y.bad.c_str());
            mc::V();
        });
    }
}
// assignment while a block is still held: the resource that serves later requests is the source's
template<class A> static void assign_held(const char *ty, size_t n)
{
    for(int how = 0; how < 2; ++how)
    {
        if(!mc::mine()) continue;
        mc::S();
        MC_CASE(mc::fmt("%s: %s assignment from an allocator of another resource while a block of %zu is held", ty, how ? "move" : "copy", n), {
            mc::Buf bx(4096), by(4096); Backing x(bx.p, 4096); Backing y(by.p, 4096);
            {
                A a(&x); A b(&y);
                int *pa = (int*)a.allocate(n); bool local = x.live.empty();
                if(how) a = std::move(b); else a = b;
                mc::T(2);
                MC_CHECK(a.resource() == &y, "resource() after assignment");
                int *q = (int*)a.allocate(50); bool fromy = y.live.size() == 1; if(fromy) a.deallocate(q, 50);
                MC_CHECK(fromy, "after assignment the block came from another resource");
                if(local) a.deallocate(pa, n); // a block of the allocator's own buffer is given back to the allocator
                else x.do_deallocate(pa, n * sizeof(int), alignof(int));
                mc::T(2);
            }
            MC_CHECK(x.bad.empty() && y.bad.empty() && x.live.empty() && y.live.empty(), "the resources saw: %s %s", x.bad.c_str(), y.bad.c_str());
            mc::V();
        });
    }
}
SECTION(rebinding, 1)
{
    mc::bound("Allocator and SmallAllocator (3 sizes): copy/move construction and assignment from an allocator of another resource, either side unused, used before, or holding a block: the source's resource serves from then on");
    assign_pairs<c4::Allocator<int, c4::MemRes>>("Allocator", false);
    typedef c4::SmallAllocator<int, 4, 4, c4::MemRes> S4; assign_pairs<S4>("SmallAllocator<4>", true);
    typedef c4::SmallAllocator<int, 1, 4, c4::MemRes> S1; assign_pairs<S1>("SmallAllocator<1>", true);
    typedef c4::SmallAllocator<int, 16, 16, c4::MemRes> S16; assign_pairs<S16>("SmallAllocator<16,16>", true);
    typedef c4::Allocator<int, c4::MemRes> PA;
    for(size_t n : {1, 4, 16}) { assign_held<PA>("Allocator", n); assign_held<S4>("SmallAllocator<4>", n); assign_held<S1>("SmallAllocator<1>", n); }
}
// many local blocks and large local buffers
template<class T, size_t N> static void many(const char *name)
{
    struct Count : c4::MemoryResource { std::map<char*, size_t> live; Str bad;
        void *do_allocate(size_t sz, size_t al, void*) override { char *p = (char*)aligned_alloc(al < 16 ? 16 : al, (sz + 63) / 64 * 64 + 64); live[p] = sz; return p; }
        void *do_reallocate(void *p, size_t o, size_t n, size_t al) override { void *q = do_allocate(n, al, nullptr); memcpy(q, p, o < n ? o : n); do_deallocate(p, o, al); return q; }
        void do_deallocate(void *p, size_t sz, size_t) override { auto it = live.find((char*)p); if(it == live.end() || it->second != sz) { bad = "a block comes back that is not live or with another size"; return; } live.erase(it); free(p); } };
    // sizes of the blocks, in objects; then the order of release
    std::vector<std::vector<size_t>> plans = {std::vector<size_t>(N + 3, 1), std::vector<size_t>(N / 2 + 2, 2), {N}, {N - 1, 1, 1}, {1, N - 1, 1}, {N / 2, N / 2, N / 2}, {N + 1, N}, {N - 2, 3, 2, 1}};
    std::vector<size_t> mix; for(size_t i = 0, t = 0; t < N + 20; ++i) { size_t n = i % 5 == 4 ? 17 : i % 3 + 1; mix.push_back(n); t += n; } plans.push_back(mix);
    for(size_t pi = 0; pi < plans.size(); ++pi) for(int order = 0; order < 5; ++order)
    {
        mc::S();
        MC_CASE(mc::fmt("SmallAllocator<%s,%zu>: %zu blocks of %zu.. objects, release order %d", name, N, plans[pi].size(), plans[pi][0], order), {
            Count bk; typedef c4::SmallAllocator<T, N, alignof(T), c4::MemRes> A; std::unique_ptr<A> a(new A(&bk));
            struct B { T *p; size_t n; unsigned tag; bool live; }; std::vector<B> bs; unsigned tag = 0;
            auto fill = [&](B &b) { char *c = (char*)b.p; for(size_t i = 0; i < b.n * sizeof(T); ++i) c[i] = (char)pat(b.tag, i); };
            auto good = [&](B const& b) { char *c = (char*)b.p; for(size_t i = 0; i < b.n * sizeof(T); ++i) if(c[i] != (char)pat(b.tag, i)) return false; return true; };
            for(int round = 0; round < 3; ++round)
            {
                bs.clear();
                for(size_t n : plans[pi]) { B b{a->allocate(n), n, ++tag, true}; mc::T(); if((uintptr_t)b.p % alignof(T)) { mc::violation("not aligned"); break; } fill(b); bs.push_back(b); }
                std::vector<std::pair<char*, char*>> r; for(auto &b : bs) r.push_back({(char*)b.p, (char*)(b.p + b.n)}); std::sort(r.begin(), r.end());
                for(size_t i = 1; i < r.size(); ++i) if(r[i].first < r[i - 1].second) { mc::violation("round %d: two blocks overlap", round); break; }
                bool ok = true; for(auto &b : bs) ok = ok && good(b); MC_CHECK(ok, "round %d: the contents of a block changed", round);
                auto drop = [&](size_t i) { if(!bs[i].live) return; if(!good(bs[i])) { mc::violation("round %d: the contents of block %zu changed", round, i); } a->deallocate(bs[i].p, bs[i].n); bs[i].live = false; mc::T(); };
                size_t k = bs.size();
                if(order == 0) for(size_t i = 0; i < k; ++i) drop(i);
                else if(order == 1) for(size_t i = k; i-- > 0;) drop(i);
                else if(order == 2) { for(size_t i = 0; i < k; i += 2) drop(i); for(size_t i = 1; i < k; i += 2) drop(i); }
                else if(order == 3) { for(size_t i = k; i-- > k / 2;) drop(i); for(size_t i = 0; i < k / 2; ++i) drop(i); }
                else
                {
                    // all but the first; new blocks must keep away from it; then reallocation
                    for(size_t i = 1; i < k; ++i) drop(i);
                    std::vector<B> more; for(size_t j = 0; j < 300; ++j) { B b{a->allocate(1 + j % 3), 1 + j % 3, ++tag, true}; fill(b); more.push_back(b); mc::T(); }
                    MC_CHECK(good(bs[0]), "round %d: a new block is where a live one is", round);
                    for(auto &b : more) { T *q = a->reallocate(b.p, b.n, b.n + 2); mc::T(); b.p = q; if(!good(b)) { mc::violation("round %d: reallocation lost the contents", round); break; } b.n += 2; fill(b); }
                    for(auto &b : more) { if(!good(b)) { mc::violation("round %d: the contents changed", round); break; } a->deallocate(b.p, b.n); mc::T(); }
                    drop(0);
                }
                MC_CHECK(bk.live.empty(), "round %d: %zu blocks were not given back", round, bk.live.size());
            }
            MC_CHECK(bk.bad.empty(), "%s", bk.bad.c_str()); for(auto &x : bk.live) free(x.first);
            mc::V();
        });
    }
}
SECTION(many_local, 1) { mc::bound("local buffers of 130, 260, 300 and 520 objects: nine lists of block sizes (up to one block per object), five orders of release, three rounds"); many<char, 130>("char"); many<char, 260>("char"); many<int, 300>("int"); many<double, 520>("double"); }
SECTION(large_local, 1) { mc::bound("local buffers of 66000 characters and 33000 integers, likewise"); many<char, 66000>("char"); many<int, 33000>("int"); }
MC_MAIN
// ---------------------------------------------------------------- large alignments and sizes: what reaches the resource
struct Recorder : c4::MemoryResource
{
    struct B { void *p; size_t sz, al; }; std::vector<B> live; Str bad;
    ~Recorder() override { for(auto &b : live) ::free(b.p); }
    void *get(size_t sz, size_t al) { void *p = nullptr; if(posix_memalign(&p, al < sizeof(void*) ? sizeof(void*) : al, sz ? sz : 1)) p = nullptr; live.push_back({p, sz, al}); return p; }
    void drop(void *p, size_t sz, size_t al, const char *w)
    {
        for(size_t i = 0; i < live.size(); ++i) if(live[i].p == p)
        {
            if(live[i].sz != sz || live[i].al != al) bad += mc::fmt("%s with size %zu and alignment %zu, the block has %zu and %zu; ", w, sz, al, live[i].sz, live[i].al);
            ::free(p); live.erase(live.begin() + (long)i); return;
        }
        bad += mc::fmt("%s of an unknown block; ", w);
    }
    void *do_allocate(size_t sz, size_t al, void*) override { return get(sz, al); }
    void *do_reallocate(void *p, size_t o, size_t n, size_t al) override { void *q = get(n, al); memcpy(q, p, o < n ? o : n); drop(p, o, al, "reallocate"); return q; }
    void do_deallocate(void *p, size_t sz, size_t al) override { drop(p, sz, al, "deallocate"); }
};
template<class T, class A> static void big_align(const char *nm, size_t al, size_t n1, size_t n2)
{
    mc::S();
    MC_CASE(mc::fmt("%s: allocate(%zu), reallocate(%zu), alignment %zu", nm, n1, n2, al), {
        Recorder r; A a(&r);
        T *p = a.allocate(n1, al); mc::T();
        MC_CHECK((uintptr_t)p % al == 0 && r.live.size() == 1 && r.live[0].sz == n1 * sizeof(T) && r.live[0].al == al, "allocate: the resource was asked for something else");
        if(r.live.size() == 1 && r.live[0].sz >= n1 * sizeof(T))
        {
            for(size_t i = 0; i < n1 * sizeof(T); ++i) ((unsigned char*)p)[i] = (unsigned char)(i % 251);
            T *q = a.reallocate(p, n1, n2, al); mc::T();
            MC_CHECK((uintptr_t)q % al == 0 && r.bad.empty() && r.live.size() == 1 && r.live[0].sz == n2 * sizeof(T) && r.live[0].al == al, "reallocate: the resource was asked for something else: %s", r.bad.c_str());
            if(r.live.size() == 1 && r.live[0].sz >= n2 * sizeof(T)) for(size_t i = 0; i < (n1 < n2 ? n1 : n2) * sizeof(T); ++i) if(((unsigned char*)q)[i] != i % 251) { mc::violation("byte %zu changed", i); break; }
            a.deallocate(q, n2, al); mc::T();
            MC_CHECK(r.bad.empty() && r.live.empty(), "at the end: %s%zu blocks live", r.bad.c_str(), r.live.size());
        }
        mc::V();
    });
}
SECTION(large_alignments, 2)
{
    mc::bound("alignments of every power of two from 64 to 2^21, pairs of object counts in {9,255,256,257,65535,65536,65537}: size and alignment that reach the resource");
    for(size_t al = 64; al <= ((size_t)1 << 21); al *= 2) for(size_t n1 : {9, 255, 256, 257, 65535, 65536, 65537}) for(size_t n2 : {9, 256, 257, 65535, 65536, 65537})
    {
        if(!mc::mine()) continue;
        big_align<char, c4::Allocator<char, c4::MemRes>>("Allocator<char>", al, n1, n2); big_align<S12, c4::Allocator<S12, c4::MemRes>>("Allocator<S12>", al, n1, n2);
        big_align<char, c4::SmallAllocator<char, 4, 1, c4::MemRes>>("SmallAllocator<char,4>", al, n1, n2); big_align<S12, c4::SmallAllocator<S12, 4, 4, c4::MemRes>>("SmallAllocator<S12,4>", al, n1, n2);
    }
}
