import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mkbug
A="src/c4/allocator.hpp"
mkbug("c21_dealloc_alignment","C21",[(A,"        this->resource()->deallocate(ptr, num_objs * sizeof(T), alignment);","        this->resource()->deallocate(ptr, num_objs * sizeof(T), alignment > Alignment && num_objs > N ? Alignment : alignment);")],"an over-aligned block of more objects than the local buffer holds, given back through a SmallAllocator","the block is given back with another alignment than it was taken with",
'''#include <c4/allocator.hpp>
#include <vector>
struct R : c4::MemoryResource
{
    size_t al = 0, sz = 0; bool ok = true; alignas(64) char buf[4096];
    void *do_allocate(size_t s, size_t a, void*) override { al = a; sz = s; return buf; }
    void *do_reallocate(void *p, size_t, size_t, size_t) override { return p; }
    void do_deallocate(void *p, size_t s, size_t a) override { ok = ok && p == buf && a == al && s == sz; }
};
int main()
{
    R r; c4::small_allocator_mr<int, 4> a(&r);
    for(size_t al : {4, 8, 16, 32, 64}) for(size_t n : {5, 6, 20}) { int *p = a.allocate(n, al); a.deallocate(p, n, al); }
    return r.ok ? 0 : 1;
}''')
