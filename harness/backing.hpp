#pragma once
// a recording first-fit memory resource over an exact buffer, for the allocator harnesses
#include "mc.hpp"
#include <c4/memory_resource.hpp>
struct Backing : c4::MemoryResource
{
    struct B { char *p; size_t sz, al; };
    std::vector<B> live; char *buf; size_t n; int failat = -1, calls = 0; std::string bad; bool failed = false;
    Backing(char *p, size_t sz) : buf(p), n(sz) {}
    bool mine(const void *p) const { return (const char*)p >= buf && (const char*)p < buf + n; }
    void *place(size_t sz, size_t al)
    {
        for(size_t at = 0; at + sz <= n && sz <= n; ++at)
        {
            if(((uintptr_t)buf + at) & (al - 1)) continue;
            bool clash = false;
            for(auto &b : live) if(!(buf + at + sz < b.p || b.p + b.sz < buf + at)) { clash = true; break; }
            if(!clash) { live.push_back({buf + at, sz, al}); return buf + at; }
        }
        failed = true;
        return nullptr;
    }
    bool take(const void *p, size_t sz, size_t al)
    {
        for(size_t i = 0; i < live.size(); ++i) if(live[i].p == p)
        {
            if(live[i].sz != sz || live[i].al != al) bad = mc::fmt("a block of %zu bytes aligned %zu comes back as %zu aligned %zu", live[i].sz, live[i].al, sz, al);
            live.erase(live.begin() + (long)i); return true;
        }
        bad = mine(p) ? "a block comes back that is not live" : "a block comes back that it never gave out"; return false;
    }
    void *do_allocate(size_t sz, size_t al, void*) override
    {
        if(calls++ == failat) { failed = true; return nullptr; }
        return place(sz, al);
    }
    void *do_reallocate(void *p, size_t o, size_t nw, size_t al) override
    {
        if(calls++ == failat) { failed = true; return nullptr; }
        if(p && !mine(p)) { bad = "reallocation of a block that it never gave out"; return nullptr; }
        void *np = place(nw, al);
        if(!np) return nullptr;
        if(p) { memcpy(np, p, o < nw ? o : nw); take(p, o, al); }
        return np;
    }
    void do_deallocate(void *p, size_t sz, size_t al) override { if(p) take(p, sz, al); }
};
