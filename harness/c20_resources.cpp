// C20: raw allocation functions and the malloc, forwarding and counting
// resources: every history of operations to a depth, with every single fault
// of the underlying allocator, monitored block by block and call by call.
#include "mc.hpp"
#include <c4/memory_resource.hpp>
#include <memory>
#include <map>
typedef std::string Str;

static unsigned char pat(unsigned tag, size_t i) { return (unsigned char)(tag * 29 + i * 7 + 1); }
struct Call { char k; const void *p; size_t a, b, al; bool operator==(Call const& o) const { return k == o.k && p == o.p && a == o.a && b == o.b && al == o.al; } };
static Str show(Call const& c, const char *base) { return mc::fmt("%c(%s%ld,%zu,%zu,align %zu)", c.k, c.p ? "+" : "null ", c.p ? (long)((const char*)c.p - base) : 0l, c.a, c.b, c.al); }

/// a recording first-fit resource over an exact buffer
struct Backing : c4::MemoryResource
{
    struct B { char *p; size_t sz, al; };
    std::vector<B> live; char *buf; size_t n; int failat = -1, calls = 0; Str bad; std::vector<Call> log;
    Backing(char *p, size_t sz) : buf(p), n(sz) {}
    void *place(size_t sz, size_t al)
    {
        for(size_t at = 0; at + sz <= n; ++at)
        {
            if(((uintptr_t)buf + at) & (al - 1)) continue;
            bool clash = false;
            for(auto &b : live) if(!(buf + at + sz < b.p || b.p + b.sz < buf + at)) { clash = true; break; }
            if(!clash) { live.push_back({buf + at, sz, al}); return buf + at; }
        }
        return nullptr;
    }
    bool take(const void *p, size_t sz, size_t al)
    {
        for(size_t i = 0; i < live.size(); ++i) if(live[i].p == p)
        {
            if(live[i].sz != sz || live[i].al != al) bad = mc::fmt("a block of %zu bytes aligned %zu comes back as %zu aligned %zu", live[i].sz, live[i].al, sz, al);
            live.erase(live.begin() + (long)i); return true;
        }
        bad = "a block comes back that is not live"; return false;
    }
    void *do_allocate(size_t sz, size_t al, void*) override
    {
        log.push_back({'a', nullptr, sz, 0, al});
        if(calls++ == failat) return nullptr;
        return place(sz, al);
    }
    void *do_reallocate(void *p, size_t o, size_t nw, size_t al) override
    {
        log.push_back({'r', p, o, nw, al});
        if(calls++ == failat) return nullptr;
        void *np = place(nw, al);
        if(!np) return nullptr;
        if(p) { memcpy(np, p, o < nw ? o : nw); take(p, o, al); }
        return np;
    }
    void do_deallocate(void *p, size_t sz, size_t al) override
    {
        log.push_back({'d', p, sz, 0, al});
        if(p) take(p, sz, al);
    }
};

struct Op { enum K { ALLOC, REALLOC, DEALLOC, NULLFREE, NULLREALLOC } k; size_t sz, al; int blk; };
static Str show(Op const& o)
{
    switch(o.k)
    {
    case Op::ALLOC: return mc::fmt("allocate(%zu,align %zu)", o.sz, o.al);
    case Op::REALLOC: return mc::fmt("reallocate(block %d,%zu)", o.blk, o.sz);
    case Op::DEALLOC: return mc::fmt("deallocate(block %d)", o.blk);
    case Op::NULLFREE: return "deallocate(null)";
    default: return mc::fmt("reallocate(null,0,%zu)", o.sz);
    }
}
enum Kind { MALLOC, DERIVED, DERIVED2, COUNTS, COUNTS2, COUNTSDEF, COUNTSMALLOC, SCOPED, CURRENT, NKINDS };
static const char *KN[] = {"MemoryResourceMalloc", "forwarding(backing)", "forwarding(forwarding(backing))", "counting(backing)", "counting(counting(backing))", "counting(current resource=backing)", "counting(malloc)", "ScopedMemoryResourceCounts(backing)", "the current resource"};
struct Der : c4::detail::DerivedMemoryResource { using c4::detail::DerivedMemoryResource::DerivedMemoryResource; };

struct Model { long live = 0, livesz = 0, tot = 0, totsz = 0, mx = 0, mxsz = 0; void add(size_t s) { ++live; livesz += (long)s; ++tot; totsz += (long)s; if(live > mx) mx = live; if(livesz > mxsz) mxsz = livesz; } void rem(size_t s) { --live; livesz -= (long)s; } };
static void check_counts(c4::AllocationCounts const& c, Model const& m, const char *what)
{
    MC_CHECK(c.curr.allocs == m.live && c.curr.size == m.livesz, "%s: %ld live allocations of %ld bytes are reported, there are %ld of %ld", what, (long)c.curr.allocs, (long)c.curr.size, m.live, m.livesz);
    MC_CHECK(c.total.allocs == m.tot && c.total.size == m.totsz, "%s: totals %ld of %ld bytes are reported, there were %ld of %ld", what, (long)c.total.allocs, (long)c.total.size, m.tot, m.totsz);
    MC_CHECK(c.max.allocs == m.mx && c.max.size == m.mxsz, "%s: high-water marks %ld and %ld bytes are reported, they were %ld and %ld", what, (long)c.max.allocs, (long)c.max.size, m.mx, m.mxsz);
}
struct Blk { char *p; size_t sz, al; unsigned tag; bool live; };
struct Hist
{
    Kind kind; int failat; std::vector<size_t> sizes, aligns; size_t depth; std::vector<Op> h;
    Str desc() const { Str r = KN[kind]; if(failat >= 0) r += mc::fmt(" (underlying call %d fails)", failat); r += ":"; for(auto &o : h) r += " " + show(o); return r; }
    size_t nlive = 0;
    bool backed() const { return kind != MALLOC && kind != COUNTSMALLOC && kind != CURRENT; }
    void one()
    {
        mc::Buf buf(256);
        Backing bk(buf.p, buf.n); bk.failat = failat;
        Der d(&bk), d2(&d); c4::MemoryResourceCounts c(&bk), cc(&c), cm(c4::get_memory_resource_malloc());
        c4::MemoryResource *orig = c4::get_memory_resource();
        c4::MemoryResource *r = nullptr; std::vector<c4::AllocationCounts const*> counts;
        std::unique_ptr<c4::MemoryResourceCounts> cd; std::unique_ptr<c4::ScopedMemoryResourceCounts> sc;
        c4::MemoryResourceMalloc m;
        switch(kind)
        {
        case MALLOC: r = &m; break;
        case DERIVED: r = &d; break;
        case DERIVED2: r = &d2; break;
        case COUNTS: r = &c; counts = {&c.counts()}; break;
        case COUNTS2: r = &cc; counts = {&c.counts(), &cc.counts()}; break;
        case COUNTSDEF: { c4::ScopedMemoryResource s(&bk); cd.reset(new c4::MemoryResourceCounts); r = cd.get(); counts = {&cd->counts()}; break; }
        case COUNTSMALLOC: r = &cm; counts = {&cm.counts()}; break;
        case SCOPED: sc.reset(new c4::ScopedMemoryResourceCounts(&bk)); r = c4::get_memory_resource(); counts = {&sc->mr.counts()}; MC_CHECK(r == &sc->mr, "the scope does not set the current resource"); break;
        case CURRENT: r = c4::get_memory_resource(); break;
        default: break;
        }
        if(kind == COUNTS) MC_CHECK(c.resource() == &bk, "resource()");
        if(kind == COUNTSDEF) MC_CHECK(cd->resource() == &bk, "resource()");
        std::vector<Blk> b; Model md; unsigned tags = 0; size_t nlog = 0;
        for(size_t step = 0; step < h.size(); ++step)
        {
            Op const& o = h[step];
            bool last = step + 1 == h.size();
            void *volatile got = nullptr; Call want{}; bool err = false;
            bool fails = failat >= 0 && bk.calls == failat;
            Blk nb{};
            switch(o.k)
            {
            case Op::ALLOC:
                want = {'a', nullptr, o.sz, 0, o.al};
                err = mc::errors_in([&]{ got = r->allocate(o.sz, o.al); });
                nb = {(char*)got, o.sz, o.al, ++tags, true};
                if(!err) md.add(o.sz);
                break;
            case Op::NULLREALLOC:
                want = {'r', nullptr, 0, o.sz, 8};
                err = mc::errors_in([&]{ got = r->reallocate(nullptr, 0, o.sz, 8); });
                nb = {(char*)got, o.sz, 8, ++tags, true};
                if(!err) md.add(o.sz);
                break;
            case Op::REALLOC:
            {
                Blk old = b[(size_t)o.blk];
                want = {'r', old.p, old.sz, o.sz, old.al};
                err = mc::errors_in([&]{ got = r->reallocate(old.p, old.sz, o.sz, old.al); });
                nb = {(char*)got, o.sz, old.al, old.tag, true};
                if(!err) { md.rem(old.sz); md.add(o.sz); b[(size_t)o.blk].live = false; }
                break;
            }
            case Op::DEALLOC:
            {
                Blk &old = b[(size_t)o.blk];
                want = {'d', old.p, old.sz, 0, old.al};
                r->deallocate(old.p, old.sz, old.al);
                md.rem(old.sz); old.live = false;
                fails = false;
                break;
            }
            case Op::NULLFREE: want = {'d', nullptr, 0, 0, 8}; r->deallocate(nullptr, 0, 8); fails = false; break;
            }
            mc::T();
            if(last) MC_CHECK(err == fails, "%s", err ? "an error was raised although the underlying resource did not fail" : "the underlying resource failed, but no error was raised");
            if(backed() && last)
            {
                MC_CHECK(bk.bad.empty(), "the underlying resource saw: %s", bk.bad.c_str());
                MC_CHECK(bk.log.size() == nlog + 1, "%zu calls reached the underlying resource instead of one", bk.log.size() - nlog);
                if(bk.log.size() == nlog + 1) MC_CHECK(bk.log.back() == want, "the underlying resource was called as %s instead of %s", ::show(bk.log.back(), buf.p).c_str(), ::show(want, buf.p).c_str());
            }
            nlog = bk.log.size();
            if(!err && o.k != Op::DEALLOC && o.k != Op::NULLFREE)
            {
                if(last)
                {
                    MC_CHECK(nb.p != nullptr, "null was returned");
                    MC_CHECK(((uintptr_t)nb.p & (nb.al - 1)) == 0, "the block is not aligned to %zu", nb.al);
                    for(auto &x : b) if(x.live) MC_CHECK(nb.p + nb.sz <= x.p || x.p + x.sz <= nb.p, "the block overlaps a live one");
                    if(backed()) MC_CHECK(!bk.live.empty() && bk.live[bk.live.size() - 1].p == nb.p, "the block is not the one given by the underlying resource");
                }
                if(!nb.p) return;
                if(o.k == Op::REALLOC)
                {
                    Blk old = b[(size_t)o.blk]; size_t keep = o.sz < old.sz ? o.sz : old.sz;
                    if(last) for(size_t i = 0; i < keep; ++i) if((unsigned char)nb.p[i] != pat(old.tag, i)) { mc::violation("reallocation from %zu to %zu lost byte %zu", old.sz, o.sz, i); break; }
                    nb.tag = ++tags;
                }
                for(size_t i = 0; i < nb.sz; ++i) nb.p[i] = (char)pat(nb.tag, i); // usable to its full size
                b.push_back(nb);
            }
            if(last)
            {
                for(size_t k = 0; k < b.size(); ++k) if(b[k].live) for(size_t i = 0; i < b[k].sz; ++i) if((unsigned char)b[k].p[i] != pat(b[k].tag, i)) { mc::violation("live block %zu lost byte %zu", k, i); break; }
                for(auto *ct : counts) check_counts(*ct, md, show(o).c_str());
                mc::V();
            }
        }
        nlive = 0;
        idx.clear();
        for(size_t k = 0; k < b.size(); ++k) if(b[k].live) idx.push_back((int)k);
        if(sc) { sc.reset(); MC_CHECK(c4::get_memory_resource() == orig, "leaving ScopedMemoryResourceCounts does not restore the current resource"); c4::set_memory_resource(orig); }
        else MC_CHECK(c4::get_memory_resource() == orig, "the current resource changed");
        // give everything back
        if(kind == MALLOC || kind == COUNTSMALLOC || kind == CURRENT) for(auto &x : b) if(x.live) r->deallocate(x.p, x.sz, x.al);
    }
    std::vector<int> idx;
    void run()
    {
        bool ok = false; mc::S();
        MC_CASE(desc(), { one(); ok = true; });
        if(!ok) { c4::set_memory_resource(c4::get_memory_resource_malloc()); return; }
        if(h.size() == depth) return;
        std::vector<Op> nx;
        for(size_t al : aligns) for(size_t s : sizes) nx.push_back({Op::ALLOC, s, al, 0});
        std::vector<int> li = idx;
        for(int i : li) { for(size_t s : sizes) nx.push_back({Op::REALLOC, s, 0, i}); nx.push_back({Op::DEALLOC, 0, 0, i}); }
        if(backed()) { nx.push_back({Op::NULLFREE, 0, 0, 0}); nx.push_back({Op::NULLREALLOC, 5, 8, 0}); }
        for(auto &o : nx) { if(h.size() == 1 && !mc::mine()) continue; h.push_back(o); run(); h.pop_back(); }
    }
};
SECTION(histories, 8)
{
    const size_t D = 4 + (mc::thorough() ? 1 : 0);
    mc::bound(mc::fmt("9 resources (malloc, forwarding, counting, nested, scoped, current): all histories of %zu operations: allocate {1,5,16} aligned {1,8,32}, reallocate every live block to every size, deallocate, null arguments", D));
    for(int k = 0; k < NKINDS; ++k) { Hist x{(Kind)k, -1, {1, 5, 16}, {1, 8, 32}, D}; x.run(); }
}
SECTION(histories_deep, 8)
{
    const size_t D = 6 + (mc::thorough() ? 1 : 0);
    mc::bound(mc::fmt("counting, nested counting and malloc: all histories of %zu operations: allocate {2,7} aligned 8, reallocate {2,7}, deallocate, null arguments", D));
    for(Kind k : {COUNTS, COUNTS2, MALLOC, SCOPED}) { Hist x{k, -1, {2, 7}, {8}, k == COUNTS || k == MALLOC ? D : D - 1}; x.run(); }
}
SECTION(faults, 8)
{
    const size_t D = 5 + (mc::thorough() ? 1 : 0);
    mc::bound(mc::fmt("every backed resource: all histories of %zu operations {allocate/reallocate 2 or 7, deallocate, null}, the underlying resource failing at its k-th call for k=0..%zu", D, D - 1));
    for(Kind k : {DERIVED, DERIVED2, COUNTS, COUNTS2, COUNTSDEF, SCOPED}) for(int f = 0; f < (int)D; ++f) { Hist x{k, f, {2, 7}, {8}, D}; x.run(); }
}
// ---------------------------------------------------------------- raw functions
SECTION(raw, 6)
{
    mc::bound("aalloc/arealloc/afree: sizes 0-40,63-65,127-129,255-257,4095-4097,65536 with alignments 2^0-2^16; all pairs of old and new size in 1-24,64,200 with alignments 1-256; alignments 0-300 that are no power of two are errors");
    std::vector<size_t> sz; for(size_t i = 0; i <= 40; ++i) sz.push_back(i);
    for(size_t b : {64, 128, 256, 4096}) { sz.push_back(b - 1); sz.push_back(b); sz.push_back(b + 1); }
    sz.push_back(65536);
    for(size_t s : sz) for(int e = 0; e <= 16; ++e)
    {
        if(!mc::mine()) continue;
        mc::S();
        MC_CASE(mc::fmt("aalloc(%zu,%zu)", s, (size_t)1 << e), {
            char *p = (char*)c4::aalloc(s, (size_t)1 << e); mc::T();
            MC_CHECK(p != nullptr || s == 0, "null");
            MC_CHECK(((uintptr_t)p & (((size_t)1 << e) - 1)) == 0, "not aligned");
            char *p2 = (char*)c4::aalloc(s, (size_t)1 << e); mc::T();
            MC_CHECK(p2 + s <= p || p + s <= p2, "overlap");
            if(s) { memset(p, 0x55, s); memset(p2, 0x66, s); for(size_t i = 0; i < s; ++i) if(p[i] != 0x55) { mc::violation("contents"); break; } }
            c4::afree(p); c4::afree(p2); mc::T(2); mc::V();
        });
    }
    std::vector<size_t> rs; for(size_t i = 1; i <= 24; ++i) rs.push_back(i); rs.push_back(64); rs.push_back(200);
    for(size_t o : rs) for(size_t n : rs) for(int e = 0; e <= 8; ++e)
    {
        if(!mc::mine()) continue;
        mc::S();
        MC_CASE(mc::fmt("arealloc(block of %zu,%zu,%zu,%zu)", o, o, n, (size_t)1 << e), {
            char *p = (char*)c4::aalloc(o, (size_t)1 << e);
            for(size_t i = 0; i < o; ++i) p[i] = (char)pat(3, i);
            char *r = (char*)c4::arealloc(p, o, n, (size_t)1 << e); mc::T(2);
            MC_CHECK(r && ((uintptr_t)r & (((size_t)1 << e) - 1)) == 0, "null or not aligned");
            for(size_t i = 0; r && i < o && i < n; ++i) if((unsigned char)r[i] != pat(3, i)) { mc::violation("byte %zu lost", i); break; }
            if(r) memset(r, 1, n);
            c4::afree(r); mc::T(); mc::V();
        });
    }
    for(size_t al = 0; al <= 300; ++al)
    {
        if(!mc::mine()) continue;
        mc::S();
        bool pow2 = al && !(al & (al - 1));
        MC_CASE(mc::fmt("aalloc(8,%zu)", al), {
            void *volatile p = nullptr;
            bool err = mc::errors_in([&]{ p = c4::aalloc(8, al); }); mc::T();
            MC_CHECK(err == !pow2, "error: %d", err);
            if(!err) c4::afree(p);
            mc::V();
        });
    }
}
// user functions: forwarded unchanged; the default arealloc over a user's aalloc/afree
static char *g_region; static long g_at; static int g_na, g_nf, g_nr; static void *g_freed; static size_t g_sz, g_al, g_old, g_new; static void *g_ptr;
static void *my_aalloc(size_t sz, size_t al) { ++g_na; g_sz = sz; g_al = al; return g_at < 0 ? nullptr : g_region + g_at; }
static void my_afree(void *p) { ++g_nf; g_freed = p; }
static void *my_arealloc(void *p, size_t o, size_t n, size_t al) { ++g_nr; g_ptr = p; g_old = o; g_new = n; g_al = al; return g_at < 0 ? nullptr : g_region + g_at; }
SECTION(custom, 4)
{
    mc::bound("user allocation functions: every (size,alignment) forwarded unchanged; default arealloc with the new block at every offset -24..24 of the old one and every old/new size 1-16 (overlapping blocks included); the allocation function failing");
    auto A = c4::get_aalloc(); auto F = c4::get_afree(); auto R = c4::get_arealloc();
    MC_CASE("getters", { MC_CHECK(A && F && R, "null default"); });
    for(size_t o = 1; o <= 16; ++o) for(size_t n = 1; n <= 16; ++n) for(long at = -25; at <= 24; ++at)
    {
        if(!mc::mine()) continue;
        mc::S();
        bool fail = at == -25;
        MC_CASE(mc::fmt("arealloc(%zu->%zu), new block at offset %ld%s", o, n, at, fail ? " (fails)" : ""), {
            mc::Buf reg(64 + 16);
            g_region = reg.p; char *old = reg.p + 32;
            for(size_t i = 0; i < o; ++i) old[i] = (char)pat(5, i);
            g_at = fail ? -1 : 32 + at; g_na = g_nf = g_nr = 0;
            Str before = reg.str();
            c4::set_aalloc(my_aalloc); c4::set_afree(my_afree);
            char *r = (char*)c4::arealloc(old, o, n, 4); mc::T();
            c4::set_aalloc(A); c4::set_afree(F);
            MC_CHECK(g_na == 1 && g_sz == n && g_al == 4, "aalloc called %d times, (%zu,%zu)", g_na, g_sz, g_al);
            if(fail) { MC_CHECK(r == nullptr && g_nf == 0 && reg.str() == before, "the failed reallocation returned %s, freed %d blocks or changed memory", r ? "a block" : "null", g_nf); }
            else
            {
                MC_CHECK(r == old + at, "returned another address");
                MC_CHECK(g_nf == 1 && g_freed == old, "afree called %d times", g_nf);
                for(size_t i = 0; i < o && i < n; ++i) if((unsigned char)old[at + (long)i] != pat(5, i)) { mc::violation("byte %zu of %zu lost", i, o); break; }
                for(long i = 0; i < (long)reg.n; ++i) { bool in = i >= 32 + at && i < 32 + at + (long)std::min(o, n); if(!in && reg.p[i] != before[(size_t)i]) { mc::violation("memory outside the new block was written at %ld", i - 32); break; } }
            }
            mc::V();
        });
        c4::set_aalloc(A); c4::set_afree(F); c4::set_arealloc(R);
    }
    for(size_t s : {(size_t)0, (size_t)1, (size_t)7, (size_t)100, SIZE_MAX}) for(size_t al : {(size_t)1, (size_t)3, (size_t)64}) for(int viaRes = 0; viaRes < 2; ++viaRes) for(long at : {-1l, 8l})
    {
        if(!mc::mine()) continue;
        mc::S();
        MC_CASE(mc::fmt("user functions(%zu,%zu)%s at %ld", s, al, viaRes ? " through MemoryResourceMalloc" : "", at), {
            static char region[64]; g_region = region; g_at = at; g_na = g_nf = g_nr = 0;
            c4::set_aalloc(my_aalloc); c4::set_afree(my_afree); c4::set_arealloc(my_arealloc);
            MC_CHECK(c4::get_aalloc() == my_aalloc && c4::get_afree() == my_afree && c4::get_arealloc() == my_arealloc, "getters");
            c4::MemoryResourceMalloc m;
            void *volatile p = nullptr; void *volatile p2 = nullptr;
            bool e = mc::errors_in([&]{ p = viaRes ? m.allocate(s, al) : c4::aalloc(s, al); });
            MC_CHECK(g_na == 1 && g_sz == s && g_al == al, "aalloc");
            bool e2 = mc::errors_in([&]{ p2 = viaRes ? m.reallocate(region + 3, 5, s, al) : c4::arealloc(region + 3, 5, s, al); });
            MC_CHECK(g_nr == 1 && g_ptr == region + 3 && g_old == 5 && g_new == s && g_al == al, "arealloc");
            if(viaRes) m.deallocate(region + 9, s, al); else c4::afree(region + 9);
            MC_CHECK(g_nf == 1 && g_freed == region + 9, "afree");
            mc::T(3);
            if(at >= 0) MC_CHECK(!e && !e2 && p == region + at && p2 == region + at, "result");
            else MC_CHECK(e == (viaRes == 1) && e2 == (viaRes == 1) && !p && !p2, "a failure must be an error of the resource (%d %d)", e, e2);
            mc::V();
        });
        c4::set_aalloc(A); c4::set_afree(F); c4::set_arealloc(R);
    }
}
// counts arithmetic
SECTION(counts_algebra, 1)
{
    mc::bound("AllocationCounts: all pairs of counts reached by histories of 3 add/remove operations; +, -, update, clear");
    std::vector<c4::AllocationCounts> v;
    for(int code = 0; code < 5 * 5 * 5; ++code)
    {
        c4::AllocationCounts c; Model m; int x = code; std::vector<size_t> lv; bool ok = true;
        for(int i = 0; i < 3; ++i, x /= 5)
        {
            int o = x % 5; char d; size_t s = o < 3 ? (size_t)(o * 3 + 1) : 0;
            if(o < 3) { c.add_counts(&d, s); m.add(s); lv.push_back(s); }
            else if(o == 3) { if(lv.empty()) { ok = false; break; } c.rem_counts(&d, lv.back()); m.rem(lv.back()); lv.pop_back(); }
            else { c.add_counts(nullptr, 7); c.rem_counts(nullptr, 7); }
            mc::T();
        }
        if(!ok) continue;
        mc::S();
        MC_CASE(mc::fmt("history %d", code), { check_counts(c, m, "history"); mc::V(); });
        v.push_back(c);
    }
    auto same = [](c4::AllocationCounts const& a, long ca, long cs, long ta, long ts, long ma, long ms) { return a.curr.allocs == ca && a.curr.size == cs && a.total.allocs == ta && a.total.size == ts && a.max.allocs == ma && a.max.size == ms; };
    for(auto &a : v) for(auto &b : v)
    {
        mc::S();
        MC_CASE(mc::fmt("counts {%ld,%ld,%ld} and {%ld,%ld,%ld}", (long)a.curr.size, (long)a.total.size, (long)a.max.size, (long)b.curr.size, (long)b.total.size, (long)b.max.size), {
            c4::AllocationCounts s = a + b, d = a - b, u = a, z = a; u.update(b); z.clear_counts(); mc::T(4);
            MC_CHECK(same(s, a.curr.allocs + b.curr.allocs, a.curr.size + b.curr.size, a.total.allocs + b.total.allocs, a.total.size + b.total.size, a.max.allocs + b.max.allocs, a.max.size + b.max.size), "+");
            MC_CHECK(same(u, s.curr.allocs, s.curr.size, s.total.allocs, s.total.size, s.max.allocs, s.max.size), "update");
            MC_CHECK(same(d, a.curr.allocs - b.curr.allocs, a.curr.size - b.curr.size, a.total.allocs - b.total.allocs, a.total.size - b.total.size, a.max.allocs - b.max.allocs, a.max.size - b.max.size), "-");
            MC_CHECK(same(z, 0, 0, 0, 0, 0, 0), "clear_counts");
            mc::V();
        });
    }
}
// counts and sizes of any magnitude: a resource whose blocks are addresses only
struct Addresses : c4::MemoryResource
{
    uintptr_t next = (uintptr_t)1 << 12; std::map<void*, std::pair<size_t, size_t>> live; Str bad;
    void *put(size_t sz, size_t al) { void *p = (void*)next; next += (uintptr_t)1 << 12; live[p] = {sz, al}; return p; }
    void take(void *p, size_t sz, size_t al) { auto it = live.find(p); if(it == live.end()) { bad = "a block comes back that is not live"; return; } if(it->second.first != sz || it->second.second != al) bad = mc::fmt("a block of %zu bytes aligned %zu comes back as %zu aligned %zu", it->second.first, it->second.second, sz, al); live.erase(it); }
    void *do_allocate(size_t sz, size_t al, void*) override { return put(sz, al); }
    void *do_reallocate(void *p, size_t o, size_t n, size_t al) override { take(p, o, al); return put(n, al); }
    void do_deallocate(void *p, size_t sz, size_t al) override { take(p, sz, al); }
};
SECTION(magnitudes, 1)
{
    mc::bound("a counting resource over a resource of addresses: all ordered triples of block sizes around 2^7..2^60, with reallocation and release; alignments of 1 to 2^62; 70000 blocks at once; counts of up to 2^62 added and subtracted");
    std::vector<size_t> sz; for(int b : {7, 8, 15, 16, 31, 32, 33, 48, 59}) for(long d = -1; d <= 1; ++d) sz.push_back(((size_t)1 << b) + (size_t)d);
    auto is = [](c4::AllocationCounts const& c, long ca, long cs, long ta, long ts, long ma, long ms) { MC_CHECK(c.curr.allocs == ca && c.curr.size == cs && c.total.allocs == ta && c.total.size == ts && c.max.allocs == ma && c.max.size == ms, "counts {%ld,%ld} {%ld,%ld} {%ld,%ld}, expected {%ld,%ld} {%ld,%ld} {%ld,%ld}", (long)c.curr.allocs, (long)c.curr.size, (long)c.total.allocs, (long)c.total.size, (long)c.max.allocs, (long)c.max.size, ca, cs, ta, ts, ma, ms); };
    for(size_t a : sz) for(size_t b : sz) for(size_t d : sz)
    {
        mc::S();
        MC_CASE(mc::fmt("blocks of %zu and %zu bytes, the first reallocated to %zu", a, b, d), {
            Addresses ad; { c4::MemoryResourceCounts c(&ad); long A = (long)a, B = (long)b, D = (long)d;
            void *p = c.allocate(a); is(c.counts(), 1, A, 1, A, 1, A); void *q = c.allocate(b, 16); is(c.counts(), 2, A + B, 2, A + B, 2, A + B);
            p = c.reallocate(p, a, d); long m = A + B > D + B ? A + B : D + B; is(c.counts(), 2, D + B, 3, A + B + D, 2, m);
            c.deallocate(q, b, 16); is(c.counts(), 1, D, 3, A + B + D, 2, m); c.deallocate(p, d); is(c.counts(), 0, 0, 3, A + B + D, 2, m); }
            MC_CHECK(ad.live.empty() && ad.bad.empty(), "%s", ad.bad.c_str()); mc::T(5); mc::V();
        });
    }
    for(size_t a : sz) for(int b = 0; b < 63; ++b) for(size_t d : sz)
    {
        mc::S();
        MC_CASE(mc::fmt("a block of %zu bytes aligned 2^%d, reallocated to %zu", a, b, d), {
            const size_t al = (size_t)1 << b; Addresses ad; { c4::MemoryResourceCounts c(&ad), c2(&c); c4::MemoryResource *rs[3] = {&ad, &c, &c2};
            for(auto *r : rs) { void *p = r->allocate(a, al); MC_CHECK(ad.live.size() == 1 && ad.live.begin()->second == std::make_pair(a, al), "the request was passed on with another size or alignment"); p = r->reallocate(p, a, d, al); MC_CHECK(ad.live.size() == 1 && ad.live.begin()->second == std::make_pair(d, al), "the reallocation was passed on with another size or alignment"); r->deallocate(p, d, al); mc::T(3); } }
            MC_CHECK(ad.live.empty() && ad.bad.empty(), "%s", ad.bad.c_str()); mc::V();
        });
    }
    MC_CASE("70000 blocks", {
        Addresses ad; { c4::MemoryResourceCounts c(&ad); std::vector<void*> v; long t = 0;
        for(long i = 0; i < 70000; ++i) { v.push_back(c.allocate((size_t)(i % 9 + 1))); t += i % 9 + 1; if(c.counts().curr.allocs != i + 1 || c.counts().curr.size != t || c.counts().max.allocs != i + 1) { mc::violation("after %ld blocks: %ld blocks of %ld bytes, expected %ld bytes", i + 1, (long)c.counts().curr.allocs, (long)c.counts().curr.size, t); break; } mc::T(); }
        for(long i = 0; i < (long)v.size(); ++i) c.deallocate(v[(size_t)i], (size_t)(i % 9 + 1)); is(c.counts(), 0, 0, 70000, t, 70000, t); }
        MC_CHECK(ad.live.empty() && ad.bad.empty(), "%s", ad.bad.c_str()); mc::S(); mc::V();
    });
    MC_CASE("large counts", {
        for(int x = 0; x <= 61; ++x) for(int y = 0; y <= 61; ++y)
        {
            long X = 1l << x, Y = 1l << y; c4::AllocationCounts a, b; char blk;
            a.curr.allocs = X; a.curr.size = Y; a.total.allocs = Y + 1; a.total.size = X + 2; a.max.allocs = X + 3; a.max.size = Y + 5; b.curr.allocs = Y + 7; b.curr.size = X; b.total.allocs = X; b.total.size = Y + 11; b.max.allocs = Y; b.max.size = X + 13;
            is(a + b, X + Y + 7, X + Y, X + Y + 1, X + Y + 13, X + Y + 3, X + Y + 18); is(a - b, X - Y - 7, Y - X, Y + 1 - X, X - Y - 9, X + 3 - Y, Y - X - 8); c4::AllocationCounts u = a; u.update(b); is(u, X + Y + 7, X + Y, X + Y + 1, X + Y + 13, X + Y + 3, X + Y + 18);
            u = a; u.add_counts(&blk, (size_t)Y); is(u, X + 1, 2 * Y, Y + 2, X + 2 + Y, X + 3, 2 * Y > Y + 5 ? 2 * Y : Y + 5); u.rem_counts(&blk, (size_t)Y); is(u, X, Y, Y + 2, X + 2 + Y, X + 3, 2 * Y > Y + 5 ? 2 * Y : Y + 5); mc::T(5); mc::S();
        }
        mc::V();
    });
}
MC_MAIN
