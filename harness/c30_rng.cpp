// C30: the bundled random number engines: all histories of seed/call/discard/copy/assign/compare
// to a depth from boundary seeds, against an arbitrary-width arithmetic model.
#include "mc.hpp"
#include <c4/ext/rng/rng.hpp>
#include <random>
typedef std::string Str;
typedef unsigned __int128 u128;
typedef uint64_t u64_;
static const u64_ M64 = ~(u64_)0;
// the arithmetic, spelled out with 128-bit numbers
static u64_ mul(u64_ a, u64_ b) { return (u64_)(((u128)a * b) & M64); }
static u64_ add(u64_ a, u64_ b) { return (u64_)(((u128)a + b) & M64); }
static u64_ shr(u64_ a, int k) { for(int i = 0; i < k; ++i) a /= 2; return a; }
static u64_ shl(u64_ a, int k) { for(int i = 0; i < k; ++i) a = mul(a, 2); return a; }
static uint32_t rotr(uint32_t v, unsigned r) { for(unsigned i = 0; i < r; ++i) v = (v / 2) + (v % 2) * 0x80000000u; return v; }
struct Model { u64_ s, inc; bool operator==(Model const& o) const { return s == o.s && inc == o.inc; } };
template<class E> struct Def;
template<> struct Def<c4::rng::splitmix>
{
    static const char *name() { return "splitmix"; }
    static Model dflt() { return {1, 0}; }
    static Model seeded(u64_ s) { return {s, 0}; }
    static void seed(Model &m, u64_ s) { m.s = s; }
    static uint32_t next(Model &m) { m.s = add(m.s, 0x9E3779B97F4A7C15ull); u64_ z = m.s; z = mul(z ^ shr(z, 30), 0xBF58476D1CE4E5B9ull); z = mul(z ^ shr(z, 27), 0x94D049BB133111EBull); return (uint32_t)(shr(z ^ shr(z, 31), 31) & 0xffffffffu); }
    static c4::rng::splitmix make(u64_ s) { return c4::rng::splitmix(s); }
};
template<> struct Def<c4::rng::xorshift>
{
    static const char *name() { return "xorshift"; }
    static Model dflt() { return {0xc1f651c67c62c6e0ull, 0}; }
    static Model seeded(u64_ s) { return {s, 0}; }
    static void seed(Model &m, u64_ s) { m.s = s; }
    static uint32_t next(Model &m) { u64_ r = mul(m.s, 0xd989bcacc137dcd5ull); m.s ^= shr(m.s, 11); m.s ^= shl(m.s, 31); m.s ^= shr(m.s, 18); return (uint32_t)shr(r, 32); }
    static c4::rng::xorshift make(u64_ s) { c4::rng::xorshift e; e.seed(s); return e; }
};
template<> struct Def<c4::rng::pcg>
{
    static const char *name() { return "pcg"; }
    static Model dflt() { return {0x853c49e6748fea9bull, 0xda3e39cb94b95bdbull}; }
    static Model seeded(u64_ s) { return {s, shl(s, 1)}; }
    static void seed(Model &m, u64_ s) { m.s = s; }
    static uint32_t next(Model &m) { u64_ o = m.s; m.s = add(mul(o, 6364136223846793005ull), m.inc); uint32_t x = (uint32_t)(shr(shr(o, 18) ^ o, 27) & 0xffffffffu); return rotr(x, (unsigned)shr(o, 59)); }
    static c4::rng::pcg make(u64_ s) { return c4::rng::pcg(s); }
};
static std::vector<u64_> seeds()
{
    std::vector<u64_> v = {0, 1, 2, 3, M64, M64 - 1, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x9E3779B97F4A7C15ull, 0x0123456789abcdefull, 42};
    for(int i = 1; i < 64; ++i) { v.push_back((u64_)1 << i); v.push_back(((u64_)1 << i) - 1); v.push_back(~((u64_)1 << i)); v.push_back((u64_)0x8000000000000001ull >> i | (u64_)i << 58); }
    return v;
}
enum { CALL, DISC0, DISC1, DISC3, COPY, BACK, SEEDA, SEEDB, MOVE, NOPS };
static const char *ON[] = {"call", "discard(0)", "discard(1)", "discard(3)", "copy to the other", "assign from the other", "seed(a)", "seed(~a)", "swap"};
template<class E> static void histories()
{
    typedef Def<E> D;
    MC_CASE(Str("range of ") + D::name(), { MC_CHECK((E::min)() == 0 && (E::max)() == 0xffffffffu && sizeof(typename E::result_type) == 4 && (typename E::result_type)-1 > 0, "the range is not that of 32 bits"); mc::V(); });
    const int depth = mc::thorough() ? 6 : 4;
    auto sd = seeds();
    for(size_t si = 0; si <= sd.size(); ++si)
    {
        if(!mc::mine()) continue;
        int d = si < 12 || si == sd.size() ? depth : depth - 1;
        std::vector<int> h((size_t)d, 0);
        for(;;)
        {
            MC_CASE(Str(D::name()) + (si == sd.size() ? Str(" default") : mc::fmt(" seed %#llx", (unsigned long long)sd[si])) + [&] { Str s; for(int x : h) s += Str(", ") + ON[x]; return s; }(), {
                E e = si == sd.size() ? E() : D::make(sd[si]); E o;
                Model m = si == sd.size() ? D::dflt() : D::seeded(sd[si]); Model mo = D::dflt();
                u64_ a = si == sd.size() ? 7 : sd[si];
                for(int x : h)
                {
                    mc::S(); mc::T();
                    switch(x)
                    {
                    case CALL: { uint32_t g = e(), w = D::next(m); MC_CHECK(g == w, "the value is %u, expected %u", g, w); break; }
                    case DISC0: e.discard(0); break;
                    case DISC1: e.discard(1); D::next(m); break;
                    case DISC3: e.discard(3); for(int i = 0; i < 3; ++i) D::next(m); break;
                    case COPY: { o = e; mo = m; break; }
                    case BACK: { e = o; m = mo; break; }
                    case SEEDA: e.seed((uint64_t)a); D::seed(m, a); break;
                    case SEEDB: e.seed((uint64_t)~a); D::seed(m, ~a); break;
                    case MOVE: { E t(e); e = o; o = t; std::swap(m, mo); break; }
                    }
                    MC_CHECK((e == o) == (m == mo) && (e != o) == !(m == mo), "comparison of two generators says %d/%d, their states are %s", (int)(e == o), (int)(e != o), m == mo ? "equal" : "different");
                    mc::T(2);
                }
                for(int i = 0; i < 4; ++i) { uint32_t g = e(), w = D::next(m); MC_CHECK(g == w, "call %d after the history gives %u, expected %u", i, g, w); g = o(); w = D::next(mo); MC_CHECK(g == w, "call %d of the other generator gives %u, expected %u", i, g, w); mc::T(2); }
                mc::V();
            });
            size_t k = h.size();
            while(k > 0 && ++h[k - 1] == NOPS) h[--k] = 0;
            if(k == 0) break;
        }
        if(si == 3) mc::sample(mc::fmt("%s seed 3, all %d-step histories", D::name(), d));
    }
    mc::bound(mc::fmt("%s: %zu seeds and the default, all histories of %d operations (first 12 seeds) or %d", D::name(), sd.size(), depth, depth - 1));
}
template<class E> static void longrun()
{
    typedef Def<E> D;
    const size_t n = mc::thorough() ? 2000000 : 20000;
    auto sd = seeds();
    for(size_t si = 0; si < sd.size(); ++si)
    {
        if(!mc::mine()) continue;
        MC_CASE(mc::fmt("%s seed %#llx, %zu calls", D::name(), (unsigned long long)sd[si], n), {
            E e = D::make(sd[si]); E f = e; Model m = D::seeded(sd[si]);
            for(size_t i = 0; i < n; ++i) { uint32_t g = e(), w = D::next(m); if(g != w) { mc::violation("call %zu gives %u, expected %u", i, g, w); break; } mc::T(); }
            f.discard(n); MC_CHECK(f == e, "discarding %zu values is not the same as drawing them", n); mc::T();
            mc::S(n); mc::V();
        });
    }
    // standard distributions take it as an engine
    MC_CASE(Str(D::name()) + " in standard distributions", {
        E e = D::make(12345); E f = e;
        for(int hi = 1; hi < 300; hi += 7) { std::uniform_int_distribution<int> d(-3, hi); int a = d(e); std::uniform_int_distribution<int> d2(-3, hi); int b = d2(f); MC_CHECK(a == b && a >= -3 && a <= hi, "the distribution is outside its range or not reproducible"); mc::T(2); }
        mc::S(); mc::V();
    });
    mc::bound(mc::fmt("%s: %zu values of each of %zu seeds", D::name(), n, sd.size()));
}
SECTION(splitmix, 4) { histories<c4::rng::splitmix>(); }
SECTION(xorshift, 4) { histories<c4::rng::xorshift>(); }
SECTION(pcg, 4) { histories<c4::rng::pcg>(); }
SECTION(long_splitmix, 2) { longrun<c4::rng::splitmix>(); }
SECTION(long_xorshift, 2) { longrun<c4::rng::xorshift>(); }
SECTION(long_pcg, 2) { longrun<c4::rng::pcg>(); }
// ------------------------------------------------------------------ seeding from a random device, whose numbers are chosen here
static std::vector<uint32_t> g_dev; static size_t g_devpos;
std::random_device::result_type std::random_device::_M_getval() { return g_dev[g_devpos++ % g_dev.size()]; }
template<class E> static void device(std::random_device &rd)
{
    typedef Def<E> D;
    const std::vector<uint32_t> nums = {0u, 1u, 2u, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xffffffffu, 0x12345678u};
    for(uint32_t a : nums) for(uint32_t b : nums) for(uint32_t c : nums) for(uint32_t d : nums)
    {
        if(!mc::mine()) continue;
        MC_CASE(mc::fmt("%s from a device that gives %#x %#x %#x %#x", D::name(), a, b, c, d), {
            g_dev = {a, b, c, d}; g_devpos = 0; E e(rd); const size_t drawn = g_devpos; mc::T();
            g_devpos = 0; E f; f(); f.seed(rd); mc::T(); MC_CHECK(e == f && g_devpos == drawn, "seeding is not the same as constructing");
            g_devpos = 0; E g = D::make(77); g.seed((uint64_t)a * 3); g.discard(2); g.seed(rd); mc::T(); MC_CHECK(e == g, "seeding depends on what was before");
            if(drawn == 2)
            {
                // the two numbers make up the seed, in either order (the order in which operands are evaluated is not specified)
                E x; x.seed((uint64_t)a << 31 | b); E y; y.seed((uint64_t)b << 31 | a); MC_CHECK(e == x || e == y, "the state is not made of the numbers of the device"); mc::T(2);
            }
            else
            {
                MC_CHECK(drawn == 4, "%zu numbers drawn", drawn);
                bool found = false; uint32_t w[4] = {0, 0, 0, 0}; E k = e; for(int i = 0; i < 4; ++i) w[i] = k();
                for(int o = 0; o < 4; ++o)
                {
                    u64_ s0 = o & 1 ? (u64_)b << 31 | a : (u64_)a << 31 | b, s1 = o & 2 ? (u64_)d << 31 | c : (u64_)c << 31 | d;
                    Model m{0, shl(s1, 1) | 1}; D::next(m); m.s = add(m.s, s0); D::next(m);
                    bool same = true; for(int i = 0; i < 4; ++i) same = (D::next(m) == w[i]) && same; found = found || same;
                }
                mc::T(4); MC_CHECK(found, "the sequence is not that of the numbers of the device");
            }
            for(int i = 0; i < 5; ++i) { uint32_t u = e(), v = f(), z = g(); MC_CHECK(u == v && u == z, "equal generators give different values"); mc::T(); }
            mc::S(); mc::V();
        });
    }
}
SECTION(device, 4)
{
    mc::bound("construction from and seeding with a random device: all sequences of four numbers out of eight");
    std::random_device rd;
    device<c4::rng::splitmix>(rd); device<c4::rng::xorshift>(rd); device<c4::rng::pcg>(rd);
    mc::sample("xorshift from a device that gives 0x80000000 0x1");
}
#ifdef NDEBUG
// discarding more values than 32 bits count: the state after n steps in closed form
template<class E> struct Jump;
template<> struct Jump<c4::rng::splitmix> { static void go(Model &m, u64_ n) { m.s = add(m.s, mul(n, 0x9E3779B97F4A7C15ull)); } };
template<> struct Jump<c4::rng::pcg> { static void go(Model &m, u64_ n) { u64_ am = 1, ap = 0, cm = 6364136223846793005ull, cp = m.inc; for(; n; n /= 2) { if(n % 2) { am = mul(am, cm); ap = add(mul(ap, cm), cp); } cp = mul(add(cm, 1), cp); cm = mul(cm, cm); } m.s = add(mul(am, m.s), ap); } };
template<> struct Jump<c4::rng::xorshift>
{
    typedef std::vector<u64_> Mat; // images of the unit vectors
    static u64_ ap(Mat const& a, u64_ v) { u64_ r = 0; for(int i = 0; i < 64; ++i) if(v >> i & 1) r ^= a[(size_t)i]; return r; }
    static void go(Model &m, u64_ n) { Mat a(64); for(int i = 0; i < 64; ++i) { u64_ v = (u64_)1 << i; v ^= shr(v, 11); v ^= shl(v, 31); v ^= shr(v, 18); a[(size_t)i] = v; } for(; n; n /= 2) { if(n % 2) m.s = ap(a, m.s); Mat b(64); for(int i = 0; i < 64; ++i) b[(size_t)i] = ap(a, a[(size_t)i]); a = b; } }
};
template<class E> static void far()
{
    typedef Def<E> D;
    MC_CASE(mc::fmt("%s: discarding 2^32+5 values", D::name()), {
        // the closed form agrees with stepping
        for(u64_ n : {(u64_)0, (u64_)1, (u64_)2, (u64_)7, (u64_)1000}) { Model a = D::seeded(99), b = a; for(u64_ i = 0; i < n; ++i) D::next(a); Jump<E>::go(b, n); MC_CHECK(a == b, "the model is wrong"); }
        E e = D::make(99); Model m = D::seeded(99); e.discard(((unsigned long long)1 << 32) + 5); mc::T(); Jump<E>::go(m, ((u64_)1 << 32) + 5);
        for(int i = 0; i < 4; ++i) { uint32_t g = e(), w = D::next(m); MC_CHECK(g == w, "value %d after discarding is %u, expected %u", i, g, w); mc::T(); }
        mc::S(); mc::V();
    });
}
SECTION(far_splitmix, 1) { mc::bound("2^32+5 values discarded"); far<c4::rng::splitmix>(); }
SECTION(far_xorshift, 1) { mc::bound("2^32+5 values discarded"); far<c4::rng::xorshift>(); }
SECTION(far_pcg, 1) { mc::bound("2^32+5 values discarded"); far<c4::rng::pcg>(); }
#endif
MC_MAIN
