// C19: linear (arena) memory resources: every history of allocations,
// reallocations, deallocations and clears up to a depth, replayed on the real
// resource, monitored block by block.
#include "mc.hpp"
#include <c4/memory_resource.hpp>
#include <memory>
#include <sys/mman.h>
#include <new>
typedef std::string Str;
using c4::MemoryResourceLinear;

struct Op { enum K { ALLOC, REALLOC, DEALLOC, CLEAR } k; size_t sz; size_t al; int blk; };
struct Blk { char *p; size_t sz, al; unsigned char tag; bool live; };
static Str show(Op const& o)
{
    switch(o.k)
    {
    case Op::ALLOC: return mc::fmt("allocate(%zu,align %zu)", o.sz, o.al);
    case Op::REALLOC: return mc::fmt("reallocate(block %d,%zu)", o.blk, o.sz);
    case Op::DEALLOC: return mc::fmt("deallocate(block %d)", o.blk);
    default: return "clear()";
    }
}
static unsigned char pat(unsigned char tag, size_t i) { return (unsigned char)(tag * 29 + i * 7 + 1); }

/// the arena under test and the monitor's view of it
struct World
{
    MemoryResourceLinear *r; char *lo; size_t cap;
    std::vector<Blk> b; unsigned char tags = 0;
    bool sparse = false; // blocks of gigabytes: only the first and last bytes are written and compared
    void fill(Blk const& k)
    {
        if(sparse) { for(size_t i = 0; i < k.sz && i < 4; ++i) k.p[i] = (char)pat(k.tag, i); for(size_t i = k.sz < 4 ? 0 : k.sz - 4; i < k.sz; ++i) k.p[i] = (char)pat(k.tag, i); return; }
        for(size_t i = 0; i < k.sz; ++i) k.p[i] = (char)pat(k.tag, i);
    }
    // the first n of the bytes that were written when the block had `was` bytes
    bool intact(Blk const& k, size_t n, size_t was) const
    {
        if(sparse)
        {
            for(size_t i = 0; i < n && i < 4; ++i) if((unsigned char)k.p[i] != pat(k.tag, i)) return false;
            for(size_t i = was < 4 ? 0 : was - 4; i < n; ++i) if((unsigned char)k.p[i] != pat(k.tag, i)) return false;
            return true;
        }
        for(size_t i = 0; i < n; ++i) if((unsigned char)k.p[i] != pat(k.tag, i)) return false;
        return true;
    }
    // where a bump allocation would have to start, or -1
    bool fits(size_t pos, size_t sz, size_t al, size_t *at) const
    {
        uintptr_t a = (uintptr_t)lo + pos, up = (a + (al - 1)) & ~(uintptr_t)(al - 1);
        if(up < a || up > (uintptr_t)lo + cap) return false;
        *at = (size_t)(up - (uintptr_t)lo);
        return sz <= cap - *at;
    }
    void placed(Blk const& k, int self, const char *what)
    {
        bool in = k.p >= lo && k.p <= lo + cap && k.sz <= (size_t)(lo + cap - k.p);
        MC_CHECK(in, "%s: the block is outside the arena (offset %ld)", what, (long)(k.p - lo));
        MC_CHECK(((uintptr_t)k.p & (k.al - 1)) == 0, "%s: the block at offset %ld is not aligned to %zu", what, (long)(k.p - lo), k.al);
        for(size_t i = 0; i < b.size(); ++i)
            if((int)i != self && b[i].live)
                MC_CHECK(k.p + k.sz <= b[i].p || b[i].p + b[i].sz <= k.p, "%s: the block [%ld,%ld) overlaps live block %zu [%ld,%ld)", what, (long)(k.p - lo), (long)(k.p - lo + (long)k.sz), i, (long)(b[i].p - lo), (long)(b[i].p - lo + (long)b[i].sz));
    }
    // apply one operation and check everything (check=false: already checked as a shorter history)
    void apply(Op const& o, bool check)
    {
        const size_t pos = r->size();
        switch(o.k)
        {
        case Op::ALLOC:
        {
            size_t at = 0;
            bool room = fits(pos, o.sz, o.al, &at);
            void *volatile got = nullptr;
            bool err = mc::errors_in([&]{ got = r->allocate(o.sz, o.al); });
            mc::T();
            if(o.sz == 0) { if(check) MC_CHECK(r->size() <= r->capacity(), "size()"); if(!err && check) MC_CHECK((char*)got >= lo && (char*)got <= lo + cap, "allocate(0) outside the arena"); break; }
            if(check)
            {
                if(room) MC_CHECK(!err, "refused although the arena has %zu bytes left of %zu", cap - pos, cap);
                else MC_CHECK(err, "granted although the arena has only %zu bytes left of %zu", cap - pos, cap);
            }
            if(err) { if(check) MC_CHECK(r->size() == pos, "a refused request changed size() from %zu to %zu", pos, r->size()); break; }
            if(!room) return;
            Blk k{(char*)got, o.sz, o.al, ++tags, true};
            if(check) { placed(k, -1, "allocate"); MC_CHECK(k.p == lo + at && r->size() == at + o.sz, "size() is %zu after a block at [%ld,%ld)", r->size(), (long)(k.p - lo), (long)(k.p - lo + (long)o.sz)); }
            if(k.p < lo || k.p + k.sz > lo + cap) return;
            fill(k); b.push_back(k);
            break;
        }
        case Op::REALLOC:
        {
            Blk old = b[(size_t)o.blk];
            bool last = old.p + old.sz == lo + pos;
            size_t at = 0;
            bool room = o.sz <= old.sz || (last && o.sz - old.sz <= cap - pos) || fits(pos, o.sz, old.al, &at);
            void *volatile got = nullptr;
            bool err = mc::errors_in([&]{ got = r->reallocate(old.p, old.sz, o.sz, old.al); });
            mc::T();
            if(check)
            {
                if(room) MC_CHECK(!err, "reallocation refused although there is room (%zu bytes left)", cap - pos);
                else MC_CHECK(err, "reallocation granted although there are only %zu bytes left", cap - pos);
            }
            if(err) { if(check) MC_CHECK(r->size() == pos, "a refused reallocation changed size()"); break; }
            if(!room) return;
            Blk k{(char*)got, o.sz, old.al, old.tag, true};
            size_t keep = o.sz < old.sz ? o.sz : old.sz;
            if(check)
            {
                placed(k, o.blk, "reallocate");
                MC_CHECK(intact(k, keep, old.sz), "reallocation from %zu to %zu lost contents", old.sz, o.sz);
                MC_CHECK(r->size() <= cap && (size_t)(k.p + k.sz - lo) <= r->size(), "size() is %zu but the block ends at %ld", r->size(), (long)(k.p + (long)k.sz - lo));
                if(o.sz <= old.sz || last) MC_CHECK(k.p == old.p || o.sz > old.sz, "shrinking moved the block");
            }
            if(k.p < lo || k.p + k.sz > lo + cap) return;
            b[(size_t)o.blk] = k; k.tag = ++tags; b[(size_t)o.blk].tag = k.tag;
            fill(k);
            if(k.sz == 0) b[(size_t)o.blk].live = false;
            break;
        }
        case Op::DEALLOC:
            r->deallocate(b[(size_t)o.blk].p, b[(size_t)o.blk].sz, b[(size_t)o.blk].al);
            mc::T();
            b[(size_t)o.blk].live = false;
            break;
        case Op::CLEAR:
            r->clear(); mc::T();
            for(auto &k : b) k.live = false;
            if(check) MC_CHECK(r->size() == 0 && r->slack() == cap, "clear() leaves size() %zu slack() %zu", r->size(), r->slack());
            break;
        }
        if(!check) return;
        MC_CHECK(r->capacity() == cap && r->mem() == lo && r->size() <= cap && r->slack() == cap - r->size(), "capacity()/mem()/size()/slack()");
        for(size_t i = 0; i < b.size(); ++i) if(b[i].live) MC_CHECK(intact(b[i], b[i].sz, b[i].sz), "live block %zu lost its contents", i);
        for(size_t i = 0; i < b.size(); ++i) if(b[i].live) MC_CHECK((size_t)(b[i].p + b[i].sz - lo) <= r->size(), "live block %zu ends behind size()", i);
        mc::V();
    }
};

/// an instrumented backing resource: every block is recorded and must come back once, as it was given
struct Backing : c4::MemoryResource
{
    struct B { char *p; size_t sz, al; bool live; };
    std::vector<B> b; size_t top = 0; char *buf; size_t n; int failat = -1; int calls = 0; Str bad;
    Backing(char *p, size_t sz) : buf(p), n(sz) {}
    void *do_allocate(size_t sz, size_t al, void*) override
    {
        if(calls++ == failat) return nullptr;
        uintptr_t a = ((uintptr_t)buf + top + al - 1) & ~(uintptr_t)(al - 1);
        size_t at = a - (uintptr_t)buf;
        if(at + sz > n) return nullptr;
        top = at + sz + 8;
        b.push_back({buf + at, sz, al, true});
        return buf + at;
    }
    void *do_reallocate(void*, size_t, size_t, size_t) override { bad = "unexpected reallocation"; return nullptr; }
    void do_deallocate(void *p, size_t sz, size_t al) override
    {
        for(auto &k : b) if(k.p == p && k.live) { if(k.sz != sz || k.al != al) bad = mc::fmt("block of %zu bytes aligned %zu returned as %zu aligned %zu", k.sz, k.al, sz, al); k.live = false; return; }
        bad = "returned a block that is not live";
    }
    size_t nlive() const { size_t c = 0; for(auto &k : b) c += k.live; return c; }
};

struct Alpha { std::vector<size_t> sizes, aligns; bool clear; };

/// kind: 0 borrowed, 1 owned, 2 array<24>, 3 owned from the current resource, 4 and 5: borrowed and owned arenas of gigabytes (address space only)
struct Setup { int kind; size_t cap; size_t off; };
static Str show(Setup const& s) { static const char *k[] = {"borrowed", "owned", "array", "owned(current)", "borrowed", "owned"}; return mc::fmt("%s arena of %zu bytes at address 64k+%zu", k[s.kind], s.cap, s.off); }

template<class F> static void with_world(Setup const& s, F &&f)
{
    enum { CAP2 = 24 };
    if(s.kind == 0)
    {
        #if MC_ASAN
        const size_t tail = 0;
        #else
        const size_t tail = (64 - (s.cap + s.off) % 64) % 64; // the buffer ends at a page boundary
        #endif
        mc::Buf b(s.cap + s.off + tail);
        char *lo = b.p + s.off;
        MemoryResourceLinear r(lo, s.cap);
        World w; w.r = &r; w.lo = lo; w.cap = s.cap;
        f(w);
        for(size_t i = 0; i < s.off; ++i) MC_CHECK((unsigned char)b.p[i] == 0xEE, "a byte before the arena was written");
        for(size_t i = 0; i < tail; ++i) MC_CHECK((unsigned char)lo[s.cap + i] == 0xEE, "a byte behind the arena was written");
    }
    else if(s.kind >= 4)
    {
        const size_t room = s.cap + s.off + 4096;
        char *m = (char*)mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(m == MAP_FAILED) { mc::bound("(no address space for the arenas of gigabytes)"); return; }
        struct Un { char *m; size_t n; ~Un() { munmap(m, n); } } un{m, room};
        Backing bk(m + s.off, room - s.off);
        {
            std::unique_ptr<MemoryResourceLinear> r;
            if(s.kind == 4) r.reset(new MemoryResourceLinear(m + s.off, s.cap)); else r.reset(new MemoryResourceLinear(s.cap, &bk));
            World w; w.r = r.get(); w.lo = s.kind == 4 ? m + s.off : bk.b.empty() ? nullptr : bk.b[0].p; w.cap = s.cap; w.sparse = true;
            MC_CHECK(r->capacity() == s.cap && r->size() == 0 && r->slack() == s.cap && r->mem() == w.lo, "a fresh arena has capacity() %zu size() %zu", r->capacity(), r->size());
            f(w);
        }
        MC_CHECK(bk.nlive() == 0 && bk.bad.empty(), "at destruction: %zu arena blocks not returned; %s", bk.nlive(), bk.bad.c_str());
    }
    else if(s.kind == 2)
    {
        c4::MemoryResourceLinearArr<CAP2> r;
        World w; w.r = &r; w.lo = (char*)r.mem(); w.cap = CAP2;
        MC_CHECK(w.lo >= (char*)&r && w.lo + CAP2 <= (char*)(&r + 1) && r.capacity() == CAP2, "the array is not inside the object");
        f(w);
    }
    else
    {
        mc::Buf b(256);
        Backing bk(b.p, b.n);
        if(s.kind == 1)
        {
            MemoryResourceLinear r(s.cap, &bk);
            World w; w.r = &r; w.lo = bk.b.empty() ? nullptr : bk.b[0].p; w.cap = s.cap;
            MC_CHECK(bk.b.size() == 1 && bk.b[0].sz == s.cap && r.mem() == w.lo, "the arena was not taken from the backing resource");
            f(w);
        }
        else
        {
            c4::ScopedMemoryResource *sc = new (alloca(sizeof(c4::ScopedMemoryResource))) c4::ScopedMemoryResource(&bk);
            MemoryResourceLinear r(s.cap);
            sc->~ScopedMemoryResource();
            World w; w.r = &r; w.lo = bk.b.empty() ? nullptr : bk.b[0].p; w.cap = s.cap;
            MC_CHECK(bk.b.size() == 1 && bk.b[0].sz == s.cap && r.mem() == w.lo, "the arena was not taken from the current resource");
            f(w);
        }
        MC_CHECK(bk.nlive() == 0 && bk.bad.empty(), "at destruction: %zu arena blocks not returned; %s", bk.nlive(), bk.bad.c_str());
    }
}
static std::vector<Op> next_ops(Alpha const& a, World const& w)
{
    std::vector<Op> v;
    for(size_t al : a.aligns) for(size_t s : a.sizes) v.push_back({Op::ALLOC, s, al, 0});
    for(size_t i = 0; i < w.b.size(); ++i) if(w.b[i].live) { for(size_t s : a.sizes) if(!w.sparse || w.b[i].sz < 65536 || s <= w.b[i].sz || w.b[i].p + w.b[i].sz == w.lo + w.r->size()) v.push_back({Op::REALLOC, s, 0, (int)i}); v.push_back({Op::DEALLOC, 0, 0, (int)i}); }
    if(a.clear) v.push_back({Op::CLEAR, 0, 0, 0});
    return v;
}
struct Dfs
{
    Setup s; Alpha a; size_t depth; std::vector<Op> hist;
    Str desc() const { Str r = show(s) + ":"; for(auto &o : hist) r += " " + show(o); return r; }
    void run()
    {
        std::vector<Op> next; bool ok = false;
        MC_CASE(desc(), {
            with_world(s, [&](World &w) {
                for(size_t i = 0; i < hist.size(); ++i) w.apply(hist[i], i + 1 == hist.size());
                next = next_ops(a, w);
            });
            ok = true;
        });
        mc::S();
        if(!ok || hist.size() == depth) return;
        for(auto &o : next)
        {
            if(hist.size() == 1 && !mc::mine()) continue;
            hist.push_back(o); run(); hist.pop_back();
        }
    }
};
static void explore(Setup s, Alpha a, size_t depth) { Dfs d{s, a, depth, {}}; d.run(); }

SECTION(borrowed, 6)
{
    const size_t D = 3 + (mc::thorough() ? 1 : 0);
    mc::bound(mc::fmt("borrowed arenas of 0,1,7,8,16,24 bytes at addresses 0,1,4,8 modulo 16; all histories of %zu operations: allocate sizes {0,1,2,3,5,8,16,24,25} aligned {1,2,4,8,16,64}, reallocate every live block to every size, deallocate, clear", D));
    Alpha a{{0, 1, 2, 3, 5, 8, 16, 24, 25}, {1, 2, 4, 8, 16, 64}, true};
    for(size_t cap : {0, 1, 7, 8, 16, 24}) for(size_t off : {0, 1, 4, 8}) explore({0, cap, off}, a, D);
}
SECTION(overaligned, 6)
{
    const size_t D = 3 + (mc::thorough() ? 1 : 0);
    mc::bound(mc::fmt("borrowed arenas of 100, 200, 300 bytes at addresses 0,1,24,40 modulo 64; all histories of %zu operations: allocate {1,8,33,64} aligned {1,32,64,128}, reallocate to each size, deallocate, clear", D));
    Alpha a{{1, 8, 33, 64}, {1, 32, 64, 128}, true};
    for(size_t cap : {100, 200, 300}) for(size_t off : {0, 1, 24, 40}) explore({0, cap, off}, a, D);
}
SECTION(large_blocks, 6)
{
    const size_t D = 3;
    mc::bound(mc::fmt("borrowed arenas of 600 and 70000 bytes; all histories of %zu operations: allocate {1,255,256,300,40000,65536} aligned {1,16,512}, reallocate to each size, deallocate, clear", D));
    explore({0, 600, 8}, {{1, 200, 255, 256, 257, 300}, {1, 16, 512}, true}, D);
    explore({0, 70000, 3}, {{1, 300, 40000, 65535, 65536}, {1, 4096}, true}, D);
}
SECTION(vast, 6)
{
    const size_t D = 3 + (mc::thorough() ? 1 : 0);
    mc::bound(mc::fmt("borrowed and owned arenas of 2^31 + 5, 2^32, 2^32 + 9 and 9 * 2^30 bytes; all histories of %zu operations: allocate {1,300,2^31 - 1,2^31,2^32 - 1,2^32,2^32 + 1,2^33} aligned {1,64}, reallocate in place or of small blocks, deallocate, clear", D));
    const size_t G2 = (size_t)1 << 31, G4 = (size_t)1 << 32;
    Alpha a{{1, 300, G2 - 1, G2, G4 - 1, G4, G4 + 1, 2 * G4}, {1, 64}, true};
    for(size_t cap : {G2 + 5, G4, G4 + 9, 9 * (G2 / 2)}) for(int kind : {4, 5}) explore({kind, cap, 3}, a, D);
}
SECTION(borrowed_deep, 8)
{
    const size_t D = 5 + (mc::thorough() ? 1 : 0);
    mc::bound(mc::fmt("borrowed arena of 12 and 20 bytes; all histories of %zu operations: allocate {1,4,6} aligned {1,8}, reallocate {1,4,6}, deallocate, clear", D));
    Alpha a{{1, 4, 6}, {1, 8}, true};
    explore({0, 12, 0}, a, D); explore({0, 20, 4}, a, D);
}
SECTION(borrowed_long, 8)
{
    const size_t D = 7 + (mc::thorough() ? 1 : 0);
    mc::bound(mc::fmt("borrowed arena of 10 bytes; all histories of %zu operations: allocate {1,3} unaligned, reallocate {1,3}", D));
    explore({0, 10, 0}, {{1, 3}, {1}, false}, D);
}
SECTION(owned, 4)
{
    const size_t D = 3 + (mc::thorough() ? 1 : 0);
    mc::bound(mc::fmt("owned arenas (given and current backing resource) of 1,16,24 bytes and array arenas; all histories of %zu operations", D));
    Alpha a{{1, 3, 8, 16, 24, 25}, {1, 4, 16}, true};
    for(size_t cap : {1, 16, 24}) { explore({1, cap, 0}, a, D); explore({3, cap, 0}, a, D); }
    explore({2, 24, 0}, a, D);
}
SECTION(huge, 2)
{
    mc::bound("arenas of 16 and 24 bytes holding 0-3 blocks: allocate and reallocate with sizes SIZE_MAX-k, SIZE_MAX/2+-k, 2^32+-k (k to 40) and alignments 1 to 2^62: refused, nothing changes");
    std::vector<size_t> sz;
    for(size_t k = 0; k <= 40; ++k) { sz.push_back(SIZE_MAX - k); sz.push_back(SIZE_MAX / 2 - k); sz.push_back(SIZE_MAX / 2 + 1 + k); sz.push_back(((size_t)1 << 32) - k); sz.push_back(((size_t)1 << 32) + k); }
    for(size_t cap : {16, 24}) for(size_t pre = 0; pre < 4; ++pre) for(size_t presz : {1, 3, 4})
    {
        std::vector<Op> base; for(size_t i = 0; i < pre; ++i) base.push_back({Op::ALLOC, presz, 1, 0});
        std::vector<Op> last;
        for(size_t s : sz) { for(size_t al : {1, 2, 8, 16, 4096}) last.push_back({Op::ALLOC, s, al, 0}); for(size_t i = 0; i < pre; ++i) last.push_back({Op::REALLOC, s, 0, (int)i}); }
        for(int e = 5; e < 63; ++e) for(size_t s : {(size_t)1, (size_t)8, SIZE_MAX}) last.push_back({Op::ALLOC, s, (size_t)1 << e, 0});
        for(auto &o : last)
        {
            if(!mc::mine()) continue;
            Dfs d{{0, cap, 0}, {}, 0, base}; d.hist.push_back(o); mc::S();
            MC_CASE(d.desc(), { with_world(d.s, [&](World &w) { for(size_t i = 0; i < d.hist.size(); ++i) w.apply(d.hist[i], i + 1 == d.hist.size()); }); });
        }
    }
}
// acquire/release/destroy with a recording backing resource that may fail at any call
struct Own
{
    enum { ACQ1, ACQ2, ACQB, REL, ALC, CLR, NUM };
    static const char *nm(int o) { static const char *n[] = {"acquire(8)", "acquire(24)", "acquire(borrowed,16)", "release()", "allocate(5)", "clear()"}; return n[o]; }
    std::vector<int> h; int failat; int ctor; size_t depth;
    Str desc() const { static const char *c[] = {"default", "owned(16,backing)", "borrowed(16)", "default with current resource"}; Str r = mc::fmt("constructed %s, backing allocation %d fails:", c[ctor], failat); for(int o : h) r += Str(" ") + nm(o); return r + " destroy"; }
    void run()
    {
        if(mc::mine()) { mc::S(); MC_CASE(desc(), { one(); }); }
        if(h.size() == depth) return;
        for(int o = 0; o < NUM; ++o) { h.push_back(o); run(); h.pop_back(); }
    }
    void check(MemoryResourceLinear &r, Backing &bk, bool owned, size_t cap, const void *mem, size_t pos, const char *what)
    {
        MC_CHECK(bk.bad.empty(), "%s: %s", what, bk.bad.c_str());
        MC_CHECK(bk.nlive() == (owned ? 1u : 0u), "%s: %zu blocks are taken from the backing resource, expected %d", what, bk.nlive(), (int)owned);
        MC_CHECK(r.capacity() == cap && r.size() == pos && r.slack() == cap - pos, "%s: capacity() %zu size() %zu, expected %zu %zu", what, r.capacity(), r.size(), cap, pos);
        if(!owned) MC_CHECK(r.mem() == mem, "%s: mem()", what);
        else { bool in = false; for(auto &k : bk.b) if(k.live && k.p == r.mem() && k.sz == cap) in = true; MC_CHECK(in, "%s: mem() is not the block taken from the backing resource", what); }
    }
    void one()
    {
        mc::Buf b(1024), bor(16);
        Backing bk(b.p, b.n), wrong(b.p, 0);
        bk.failat = failat;
        alignas(MemoryResourceLinear) char st[sizeof(MemoryResourceLinear)];
        MemoryResourceLinear *volatile r = nullptr;
        bool owned = false; size_t cap = 0, pos = 0; const void *mem = nullptr;
        c4::MemoryResource *prev = c4::get_memory_resource();
        bool err = mc::errors_in([&]{
            if(ctor == 0) r = new (st) MemoryResourceLinear(&bk);
            else if(ctor == 1) r = new (st) MemoryResourceLinear((size_t)16, &bk);
            else if(ctor == 2) { c4::set_memory_resource(&bk); r = new (st) MemoryResourceLinear(bor.p, (size_t)16); }
            else { c4::set_memory_resource(&bk); r = new (st) MemoryResourceLinear(); }
        });
        c4::set_memory_resource(prev);
        mc::T();
        if(err) { MC_CHECK(ctor == 1 && failat == 0, "the constructor raised an error"); mc::V(); return; } // constructor left by the error: no object
        MC_CHECK(!(ctor == 1 && failat == 0), "the backing resource failed, but no error was raised");
        if(ctor == 1) { owned = true; cap = 16; }
        if(ctor == 2) { cap = 16; mem = bor.p; }
        check(*r, bk, owned, cap, mem, pos, "constructor");
        for(int o : h)
        {
            MemoryResourceLinear &R = *r;
            bool e = false;
            switch(o)
            {
            case ACQ1: case ACQ2:
            {
                size_t n = o == ACQ1 ? 8 : 24;
                bool willfail = bk.calls == failat;
                e = mc::errors_in([&]{ R.acquire(n); }); mc::T();
                MC_CHECK(e == willfail, "%s: error %d, the backing resource failed %d", nm(o), e, willfail);
                pos = 0; mem = nullptr; owned = !e; cap = e ? 0 : n;
                break;
            }
            case ACQB: R.acquire(bor.p, 16); mc::T(); owned = false; cap = 16; pos = 0; mem = bor.p; break;
            case REL: R.release(); mc::T(); owned = false; cap = 0; pos = 0; mem = nullptr; break;
            case ALC: e = mc::errors_in([&]{ void *p = R.allocate(5, 1); memset(p, 0x11, 5); MC_CHECK((char*)p == (char*)R.mem() + pos, "allocate()"); }); mc::T(); MC_CHECK(e == (cap - pos < 5), "allocate(5): error %d with %zu bytes left", e, cap - pos); if(!e) pos += 5; break;
            case CLR: R.clear(); mc::T(); pos = 0; break;
            }
            check(R, bk, owned, cap, mem, pos, nm(o));
        }
        r->~MemoryResourceLinear(); mc::T();
        MC_CHECK(bk.nlive() == 0 && bk.bad.empty(), "destructor: %zu blocks not returned; %s", bk.nlive(), bk.bad.c_str());
        mc::V();
    }
};
SECTION(ownership, 6)
{
    const size_t D = 5 + (mc::thorough() ? 2 : 0);
    mc::bound(mc::fmt("4 ways of construction, all histories of %zu operations {acquire owned x2, acquire borrowed, release, allocate, clear} then destruction; the backing resource fails at no call or at call 0-%d", D, 3));
    for(int ctor = 0; ctor < 4; ++ctor) for(int f = -1; f < 4; ++f) { Own o{{}, f, ctor, f < 0 ? D : D - 1}; o.run(); }
}
MC_MAIN
