// C25: fixed-capacity function objects: all histories of construct/copy/move/assign/swap/clear/convert,
// with a lifetime monitor on the targets and a throwing copy or move at every place.
#include "mc.hpp"
#include <c4/ext/sg14/inplace_function.h>
#include <memory>
#include <map>
#include <stdexcept>
using namespace mc;

// ------------------------------------------------------------------ tracked targets
struct Boom {};
struct Mon
{
    std::map<void const*, int> live;  // address -> kind
    long ops = 0;                     // constructions by copy or move so far
    long fail_at = -1;                // the one that throws
    bool fired = false;
    void ctor(void const* p, int kind)
    {
        if(!live.emplace(p, kind).second) violation("an object was constructed over a live one");
    }
    void dtor(void const* p, int kind)
    {
        auto it = live.find(p);
        if(it == live.end()) { violation("an object that does not exist (any more) was destroyed"); return; }
        if(it->second != kind) violation("an object of another type was destroyed");
        live.erase(it);
    }
    void use(void const* p, int kind, const char *what)
    {
        auto it = live.find(p);
        if(it == live.end()) violation("%s an object that does not exist", what);
        else if(it->second != kind) violation("%s an object of another type", what);
    }
    void maybe_throw() { if(ops++ == fail_at) { fired = true; throw Boom(); } }
};
static Mon mon;
enum : long { kMoved = -777 };

template<int Kind, size_t Size> struct Tracked
{
    long v; char pad[Size - sizeof(long)];
    explicit Tracked(long x) : v(x) { memset(pad, (int)x, sizeof pad); mon.ctor(this, Kind); }
    Tracked(Tracked const& o) : v(o.v) { mon.use(&o, Kind, "copied from"); mon.maybe_throw(); memcpy(pad, o.pad, sizeof pad); mon.ctor(this, Kind); }
    Tracked(Tracked && o) : v(o.v) { mon.use(&o, Kind, "moved from"); mon.maybe_throw(); memcpy(pad, o.pad, sizeof pad); o.v = kMoved; mon.ctor(this, Kind); }
    ~Tracked() { mon.dtor(this, Kind); v = -999; }
    // the state advances with every call
    long operator() (int a, long *out) { mon.use(this, Kind, "called"); *out += a; for(char c : pad) if(v >= 0 && c != pad[0]) violation("the target's contents are damaged"); return Kind * 1000000 + v++ * 1000 + a; }
};
typedef Tracked<1, 8 + 1> Small;     // 16 bytes
typedef Tracked<2, 32> Big;          // only in the larger ones
struct Plain { long v; long operator() (int a, long *out) const { *out += a; return 3000000 + v * 1000 + a; } };
static long fptr(int a, long *out) { *out += a; return 4000000 + a; }

using F16 = stdext::inplace_function<long(int, long*), 16>;
using F32 = stdext::inplace_function<long(int, long*), 32>;
using F48 = stdext::inplace_function<long(int, long*), 48>;

// ------------------------------------------------------------------ model
enum Kind { EMPTY = 0, SMALL = 1, BIG = 2, PLAIN = 3, FPTR = 4, UNSPEC = 9 };
struct Slot { int kind = EMPTY; long v = 0; };
static long expect_call(Slot &s, int a)
{
    switch(s.kind) { case SMALL: case BIG: return s.kind * 1000000 + s.v++ * 1000 + a; case PLAIN: return 3000000 + s.v * 1000 + a; default: return 4000000 + a; }
}
template<class F> static void check_slot(const char *name, F &f, Slot &m)
{
    if(m.kind == UNSPEC) return;
    bool has = m.kind != EMPTY;
    T(4);
    MC_CHECK((bool)f == has && (f == nullptr) == !has && (f != nullptr) == has, "%s: reports itself %s", name, (bool)f ? "non-empty" : "empty");
    long out = 5; bool threw = false; long r = 0;
    try { F const& cf = f; r = cf(7, &out); } catch(std::bad_function_call const&) { threw = true; }
    if(has) { long w = expect_call(m, 7); MC_CHECK(!threw && r == w && out == 12, "%s: calling it returned %ld (argument effect %ld%s), expected %ld", name, r, out, threw ? ", threw" : "", w); }
    else MC_CHECK(threw && out == 5, "%s: calling an empty function returned %ld instead of throwing", name, r);
}

// ------------------------------------------------------------------ histories
struct Op { const char *name; int code; };
enum { A, B, C, D }; // A,B: 16; C: 32; D: 48
static std::vector<std::string> opnames;
struct World
{
    alignas(64) unsigned char mem[4][128];
    F16 *a, *b; F32 *c; F48 *d;
    Slot m[4];
    long next = 0;
    World() { a = new (mem[0]) F16(); b = new (mem[1]) F16(nullptr); c = new (mem[2]) F32(); d = new (mem[3]) F48(); }
    void destroy() { a->~F16(); b->~F16(); c->~F32(); d->~F48(); T(4); }
};
template<class Fn> static bool guarded(Fn &&fn) // true if the injected exception came out
{
    try { fn(); return false; } catch(Boom const&) { return true; }
}
template<class F> static void do_set(World &w, F &f, Slot &m, int kind)
{
    long v = w.next++;
    T();
    bool boom = guarded([&] {
        switch(kind)
        {
        case SMALL: f = Small(v); break;
        case PLAIN: { Plain p = {v}; f = p; break; }
        case FPTR: f = &fptr; break;
        }
    });
    if(boom) m.kind = UNSPEC; else { m.kind = kind; m.v = v; }
}
template<class F> static void do_ctor_set(World &w, F *f, Slot &m, int kind) // destroy and construct anew from an lvalue target
{
    long v = w.next++;
    T(2); f->~F();
    bool boom = guarded([&] { if(kind == SMALL) { Small s(v); new ((void*)f) F(s); } else { Plain const p = {v}; new ((void*)f) F(p); } });
    if(boom) { new ((void*)f) F(); m.kind = EMPTY; } else { m.kind = kind; m.v = v; }
}
template<class X, class Y> static void do_copy(X &x, Slot &mx, Y &y, Slot &my)
{
    T(); bool boom = guarded([&] { Y const& cy = y; x = cy; });
    if((void*)&x == (void*)&y) return;
    if(boom) mx.kind = UNSPEC; else mx = my;
}
template<class X, class Y> static void do_move(X &x, Slot &mx, Y &y, Slot &my)
{
    T(); bool boom = guarded([&] { x = std::move(y); });
    if((void*)&x == (void*)&y) return;
    if(boom) { mx.kind = UNSPEC; my.kind = my.kind == EMPTY ? EMPTY : UNSPEC; return; }
    mx = my; if(my.kind == SMALL || my.kind == BIG) my.kind = UNSPEC; else if(my.kind != EMPTY) my.kind = UNSPEC;
}
template<class X, class Y> static void do_cctor(X *x, Slot &mx, Y &y, Slot &my)
{
    T(2); x->~X(); bool boom = guarded([&] { Y const& cy = y; new ((void*)x) X(cy); });
    if(boom) { new ((void*)x) X(nullptr); mx.kind = EMPTY; } else mx = my;
}
template<class X, class Y> static void do_mctor(X *x, Slot &mx, Y &y, Slot &my)
{
    T(2); x->~X(); bool boom = guarded([&] { new ((void*)x) X(std::move(y)); });
    if(boom) { new ((void*)x) X(nullptr); mx.kind = EMPTY; if(my.kind != EMPTY) my.kind = UNSPEC; return; }
    mx = my; if(my.kind != EMPTY) my.kind = UNSPEC;
}
template<class X> static void do_swap(X &x, Slot &mx, X &y, Slot &my)
{
    long save = mon.fail_at; mon.fail_at = -1;   // a throwing swap is outside the domain
    long n = mon.ops;
    T(); x.swap(y); if(&x != &y) std::swap(mx, my);
    mon.ops = n; mon.fail_at = save;
}
static int step(World &w, int op, bool name_only = false)
{
    int i = 0;
    #define OP(nm, ...) if(i++ == op) { if(name_only) opnames.push_back(nm); else { __VA_ARGS__; } return 1; }
    OP("A=small", do_set(w, *w.a, w.m[0], SMALL))
    OP("B=small", do_set(w, *w.b, w.m[1], SMALL))
    OP("A=plain", do_set(w, *w.a, w.m[0], PLAIN))
    OP("B=fptr", do_set(w, *w.b, w.m[1], FPTR))
    OP("C=small", do_set(w, *w.c, w.m[2], SMALL))
    OP("C=big", { long v = w.next++; T(); bool boom = guarded([&] { *w.c = Big(v); }); if(boom) w.m[2].kind = UNSPEC; else { w.m[2].kind = BIG; w.m[2].v = v; } })
    OP("A=null", { T(); *w.a = nullptr; w.m[0].kind = EMPTY; })
    OP("C=null", { T(); *w.c = nullptr; w.m[2].kind = EMPTY; })
    OP("A=B", do_copy(*w.a, w.m[0], *w.b, w.m[1]))
    OP("B=A", do_copy(*w.b, w.m[1], *w.a, w.m[0]))
    OP("C=A", do_copy(*w.c, w.m[2], *w.a, w.m[0]))
    OP("D=A", do_copy(*w.d, w.m[3], *w.a, w.m[0]))
    OP("D=C", do_copy(*w.d, w.m[3], *w.c, w.m[2]))
    OP("A=A", do_copy(*w.a, w.m[0], *w.a, w.m[0]))
    OP("A=move(B)", do_move(*w.a, w.m[0], *w.b, w.m[1]))
    OP("B=move(A)", do_move(*w.b, w.m[1], *w.a, w.m[0]))
    OP("C=move(A)", do_move(*w.c, w.m[2], *w.a, w.m[0]))
    OP("D=move(C)", do_move(*w.d, w.m[3], *w.c, w.m[2]))
    OP("A=move(A)", do_move(*w.a, w.m[0], *w.a, w.m[0]))
    OP("swap(A,B)", do_swap(*w.a, w.m[0], *w.b, w.m[1]))
    OP("swap(A,A)", do_swap(*w.a, w.m[0], *w.a, w.m[0]))
    OP("new A(B)", do_cctor(w.a, w.m[0], *w.b, w.m[1]))
    OP("new A(move(B))", do_mctor(w.a, w.m[0], *w.b, w.m[1]))
    OP("new C(A)", do_cctor(w.c, w.m[2], *w.a, w.m[0]))
    OP("new C(move(A))", do_mctor(w.c, w.m[2], *w.a, w.m[0]))
    OP("new D(C)", do_cctor(w.d, w.m[3], *w.c, w.m[2]))
    OP("new B(small)", do_ctor_set(w, w.b, w.m[1], SMALL))
    OP("new B(plain)", do_ctor_set(w, w.b, w.m[1], PLAIN))
    #undef OP
    return 0;
}
static int numops() { if(opnames.empty()) { World w; int i = 0; while(step(w, i, true)) ++i; w.destroy(); } return (int)opnames.size(); }
static void check_world(World &w)
{
    check_slot("A", *w.a, w.m[0]); check_slot("B", *w.b, w.m[1]); check_slot("C", *w.c, w.m[2]); check_slot("D", *w.d, w.m[3]);
    size_t must = 0, may = 0;
    for(auto &s : w.m) { if(s.kind == SMALL || s.kind == BIG) ++must; if(s.kind == UNSPEC) ++may; }
    MC_CHECK(mon.live.size() >= must && mon.live.size() <= must + may, "%zu target objects exist, the functions own %zu (and up to %zu moved-from ones)", mon.live.size(), must, may);
    for(auto &x : mon.live) MC_CHECK((unsigned char const*)x.first >= w.mem[0] && (unsigned char const*)x.first < w.mem[0] + sizeof(w.mem), "a target lives outside the functions");
}
static long run(int const* h, int n, long fail_at)
{
    long ops = 0;
    mon.live.clear(); mon.ops = 0; mon.fail_at = fail_at; mon.fired = false;
    run_case([&](std::string &d) { d = "history:"; for(int i = 0; i < n; ++i) d += " " + opnames[(size_t)h[i]] + ";"; if(fail_at >= 0) d += fmt(" the %ldth copy or move throws", fail_at); }, [&] {
        World w;
        for(int i = 0; i < n; ++i) { S(); step(w, h[i]); check_world(w); }
        ops = mon.ops;
        w.destroy();
        MC_CHECK(mon.live.empty(), "%zu target objects were not destroyed", mon.live.size());
        V();
    });
    return ops;
}
SECTION(histories, 16)
{
    const int N = numops(), L = thorough() ? 5 : 4;
    bound(fmt("all histories of %d of %d operations on four functions (capacities 16, 16, 32, 48), every function called after every step", L, N));
    std::vector<int> h((size_t)L, 0);
    u64 total = 1; for(int i = 0; i < L; ++i) total *= (u64)N;
    for(u64 code = 0; code < total; ++code)
    {
        if(!mine()) continue;
        u64 x = code; for(int i = L - 1; i >= 0; --i) { h[(size_t)i] = (int)(x % (u64)N); x /= (u64)N; }
        run(h.data(), L, -1);
    }
}
SECTION(throwing, 16)
{
    const int N = numops(), L = thorough() ? 4 : 3;
    bound(fmt("all histories of %d of %d operations with the k-th copy or move of a target throwing, every k; swap does not throw", L, N));
    std::vector<int> h((size_t)L, 0);
    u64 total = 1; for(int i = 0; i < L; ++i) total *= (u64)N;
    for(u64 code = 0; code < total; ++code)
    {
        if(!mine()) continue;
        u64 x = code; for(int i = L - 1; i >= 0; --i) { h[(size_t)i] = (int)(x % (u64)N); x /= (u64)N; }
        long ops = run(h.data(), L, -1);
        for(long k = 0; k < ops; ++k) run(h.data(), L, k);
    }
}

// ------------------------------------------------------------------ arguments and results
struct Arg { int v; int copies = 0, moves = 0; explicit Arg(int x) : v(x) {} Arg(Arg const& o) : v(o.v), copies(o.copies + 1), moves(o.moves) {} Arg(Arg &&o) : v(o.v), copies(o.copies), moves(o.moves + 1) { o.v = -1; } };
static int calls;
template<size_t Cap> static void arguments(int a, int b)
{
    using stdext::inplace_function;
    MC_CASE(fmt("arguments %d, %d through a function of capacity %zu", a, b, Cap), {
        S();
        { T(); inplace_function<int(int, int), Cap> f = [a](int x, int y) { return a + x * 10 + y * 100; }; MC_CHECK(f(b, a) == a + b * 10 + a * 100, "two values: %d", f(b, a)); }
        { T(); int x = b; inplace_function<int&(int&), Cap> f = [](int &r) -> int& { r += 3; return r; }; int &r = f(x); MC_CHECK(&r == &x && x == b + 3, "a reference was not passed through"); }
        { T(); Arg g(a); inplace_function<int(Arg const&), Cap> f = [&g](Arg const& r) { return &r == &g ? r.v : -5; }; MC_CHECK(f(g) == a && g.copies == 0 && g.moves == 0, "a const reference was not passed through"); }
        { T(); Arg g(a); inplace_function<int(Arg&&), Cap> f = [&g](Arg &&r) { return &r == &g ? r.v : -5; }; MC_CHECK(f(std::move(g)) == a, "an rvalue reference was not passed through"); }
        { T(); Arg g(a); inplace_function<int(Arg), Cap> f = [](Arg r) { return r.v * 100 + r.copies; }; int r = f(g); MC_CHECK(r == a * 100 + 1 && g.v == a, "an argument by value was copied more than once or taken from the caller: %d", r); }
        { T(); inplace_function<int(std::unique_ptr<int>), Cap> f = [](std::unique_ptr<int> p) { return *p; }; int r = f(std::unique_ptr<int>(new int(b))); MC_CHECK(r == b, "a move-only argument: %d", r); }
        { T(); inplace_function<std::unique_ptr<int>(int), Cap> f = [](int v) { return std::unique_ptr<int>(new int(v)); }; auto r = f(b); MC_CHECK(r && *r == b, "a move-only result"); }
        { T(); calls = 0; inplace_function<void(), Cap> f = [] { ++calls; }; f(); auto g = f; g(); MC_CHECK(calls == 2, "a function without result was called %d times", calls); }
        { T(); inplace_function<long(signed char, unsigned char, short, double), Cap> f = [](signed char p, unsigned char q_, short r, double s) { return (long)p + q_ * 1000L + r * 1000000L + (long)(s * 2) * 1000000000L; };
          MC_CHECK(f((signed char)a, 200, (short)-b, 2.5) == a + 200000L - b * 1000000L + 5000000000L, "four arguments: %ld", f((signed char)a, 200, (short)-b, 2.5)); }
        { T(); inplace_function<int(int), Cap> f = [](int v) -> int { if(v > 1) throw std::runtime_error("x"); return v; }; bool t = false; try { int r = f(b); MC_CHECK(r == b && b <= 1, "result %d", r); } catch(std::runtime_error const&) { t = true; } MC_CHECK(t == (b > 1), "an exception of the target is not passed on"); }
        { // a target that may throw for what is passed, though not for other argument categories
          struct O { int operator() (int &) noexcept { return -1; } int operator() (int &&v) { if(v > 1) throw std::runtime_error("y"); return v; } };
          T(); inplace_function<int(int), Cap> f = O(); bool t = false; int r = 0; try { r = f(b); } catch(std::runtime_error const&) { t = true; } MC_CHECK(t == (b > 1) && (t || r == b), "an argument by value is not passed as a temporary (%d)", r); }
        { // mutable state belongs to each copy
          T(3); inplace_function<int(), Cap> f = [n = a]() mutable { return n++; }; f(); auto g = f; f(); MC_CHECK(g() == a + 1 && f() == a + 2 && g() == a + 2, "copies share their state"); }
        V();
    });
}
template<size_t Al> struct alignas(Al) AlignedT { int v; int operator() () const { return ((uintptr_t)this % Al) ? -1 : v; } };
template<size_t Al> static void aligned(int v)
{
    MC_CASE(fmt("a target of alignment %zu", Al), {
        S(); T(4); AlignedT<Al> t; t.v = v;
        stdext::inplace_function<int(), 64, 64> f = t; auto g = f; auto h = std::move(g); f.swap(h);
        MC_CHECK(f() == v && h() == v, "the target is not aligned or damaged (%d, %d)", f(), h());
        V();
    });
}
SECTION(calls_, 1)
{
    for(int a = 0; a < 5; ++a) for(int b = 0; b < 5; ++b) { arguments<16>(a, b); arguments<32>(a, b); arguments<40>(a, b); }
    for(int v = 0; v < 4; ++v) { aligned<4>(v); aligned<8>(v); aligned<16>(v); aligned<32>(v); aligned<64>(v); }
    bound("eleven signatures (values, references, move-only, void, exceptions, state), three capacities, 5x5 arguments; alignments 4-64");
}
template<size_t C1, size_t C2> static void empties()
{
    MC_CASE(fmt("empty function of capacity %zu to %zu", C1, C2), {
        using F1 = stdext::inplace_function<int(int), C1>; using F2 = stdext::inplace_function<int(int), C2>;
        S(); T(5);
        F1 e; F2 c(e); F2 m(std::move(e)); F2 d = [](int x) { return x; }; d = F1(nullptr);
        F2 k = [](int x) { return x; }; k = nullptr;
        int n = 0;
        for(F2 *f : {&c, &m, &d, &k})
        {
            MC_CHECK(!*f && *f == nullptr && !(*f != nullptr), "function %d reports a target", n);
            bool t = false; try { (*f)(1); } catch(std::bad_function_call const&) { t = true; }
            MC_CHECK(t, "function %d does not throw when called", n);
            ++n;
        }
        V();
    });
}
SECTION(empty, 1)
{
    empties<8, 8>(); empties<8, 16>(); empties<8, 32>(); empties<16, 16>(); empties<16, 32>(); empties<16, 64>(); empties<32, 64>(); empties<64, 64>();
    bound("eight pairs of capacities, four ways to become empty");
}
MC_MAIN
