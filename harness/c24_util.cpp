// C24: bit, integer and memory utilities against their mathematical definitions.
#include "mc.hpp"
#include <c4/config.hpp>
#include <c4/compiler.hpp>
#include <c4/cpu.hpp>
#include <limits>
#include <type_traits>
#ifdef C24_FALLBACK
// the implementations for compilers without the bit-scan intrinsics
#define __has_builtin(x) 0
#endif
#include <c4/memory_util.hpp>
#ifdef C24_FALLBACK
#undef __has_builtin
#endif
#include <c4/char_traits.hpp>
#include <c4/blob.hpp>
using namespace mc;

// ------------------------------------------------------------------ models
static unsigned m_lsb(u64 v) { unsigned r = 0; while(!(v & 1)) { v /= 2; ++r; } return r; }
static unsigned m_msb(u64 v) { unsigned r = 0; while(v > 1) { v /= 2; ++r; } return r; }
static u64 m_mask(unsigned a, unsigned b) { u64 r = 0; for(unsigned i = 0; i < 64; ++i) if(i >= a && i < b) r |= 1ull << i; return r; }
// base^e as a mathematical integer truncated towards zero; false if outside [lo,hi]
static bool m_pow(__int128 base, long long e, __int128 lo, __int128 hi, __int128 *out)
{
    if(e < 0)
    {
        if(base == 0) return false;
        *out = (base == 1) ? 1 : (base == -1) ? ((e % 2) ? -1 : 1) : 0;
        return true;
    }
    if(base == 0 || base == 1 || base == -1) { *out = e == 0 ? 1 : base == -1 ? ((e % 2) ? -1 : 1) : base; return true; }
    __int128 r = 1;
    for(long long i = 0; i < e; ++i) { r *= base; if(r < lo || r > hi) return false; }
    *out = r; return true;
}

// ------------------------------------------------------------------ lsb/msb
#if MC_IN_PART(0)
template<class I> static void bits_one(const char *ty, I v)
{
    S();
    MC_CASE(fmt("lsb/msb of the %s 0x%llx", ty, (u64)v), {
        T(2);
        unsigned l = c4::lsb(v); unsigned m = c4::msb(v);
        MC_CHECK(l == m_lsb(v), "lsb is %u, expected %u", l, m_lsb(v));
        MC_CHECK(m == m_msb(v), "msb is %u, expected %u", m, m_msb(v));
        V();
    });
}
template<class I> static void bits_type(const char *ty)
{
    const unsigned B = 8 * sizeof(I);
    const u64 M = (u64)(I)~I(0);
    if(sizeof(I) <= 2) { for(u64 v = 1; v <= M; ++v) if(mine()) bits_one<I>(ty, (I)v); return; }
    for(u64 v = 1; v <= (1u << 16); ++v) if(mine()) { bits_one<I>(ty, (I)v); bits_one<I>(ty, (I)(M - v + 1)); bits_one<I>(ty, (I)(v << (B - 17))); }
    // up to three set bits, complements, runs
    for(unsigned i = 0; i < B; ++i)
    for(unsigned j = i; j < B; ++j)
    for(unsigned k = j; k < B; ++k)
    {
        if(!mine()) continue;
        u64 v = (1ull << i) | (1ull << j) | (1ull << k);
        bits_one<I>(ty, (I)v);
        if((I)~v) bits_one<I>(ty, (I)~v);
        u64 run = m_mask(i, k + 1);
        bits_one<I>(ty, (I)run);
        if(run & ~(1ull << j)) bits_one<I>(ty, (I)(run & ~(1ull << j)));
    }
}
SECTION(bits, 4)
{
    bits_type<unsigned char>("unsigned char");
    bits_type<unsigned short>("unsigned short");
    bits_type<unsigned>("unsigned");
    bits_type<unsigned long>("unsigned long");
    bits_type<unsigned long long>("unsigned long long");
    bound("all 8 and 16-bit values; 32 and 64 bit: all values to 65536 at the bottom, below the top and counted from the maximum, all values with up to 3 bits set or clear, all runs of ones with at most one hole");
}
#endif
#if MC_IN_PART(0)
static void bits32_one(u64 v)
{
    if(c4::lsb((uint32_t)v) != (unsigned)__builtin_popcountll((v & -v) - 1)) bits_one<uint32_t>("unsigned", (uint32_t)v);
    unsigned m = c4::msb((uint32_t)v);
    if(!(m < 32 && (v >> m) == 1)) bits_one<uint32_t>("unsigned", (uint32_t)v);
}
SECTION(bits32, 4)
{
    if(!thorough())
    {
        for(u64 v = 1; v < (1ull << 20); ++v) if(mine()) { bits32_one(v); bits32_one(v << 12); bits32_one(v << 6); S(3); T(6); V(3); }
        bound("every 32-bit value with 12 clear leading, trailing or split outer bits");
        return;
    }
    const u64 per = (1ull << 32) / st().nshard;
    const u64 b = per * st().shard, e = b + per;
    for(u64 v = b ? b : 1; v < e; ++v)
    {
        bits32_one(v);
        if((v & 0xffff) == 0) { S(65536); T(131072); V(65536); }
    }
    bound("every 32-bit value");
}
#endif

// ------------------------------------------------------------------ constant expressions
#if MC_IN_PART(1)
template<unsigned... Is> struct seq {};
template<unsigned N, unsigned... Is> struct mkseq : mkseq<N - 1, N - 1, Is...> {};
template<unsigned... Is> struct mkseq<0, Is...> { using type = seq<Is...>; };

template<class I> static void tmp_cmp(const char *ty, const char *what, u64 v, unsigned got, unsigned want)
{
    S(); T();
    MC_CASE(fmt("%s of the %s 0x%llx in a constant expression", what, ty, v), { MC_CHECK(got == want, "is %u, expected %u", got, want); V(); });
}
#define CTE14 (__cplusplus >= 201402L)
template<class I, I v> static void tmp_one(const char *ty)
{
    tmp_cmp<I>(ty, "lsb11", (u64)v, (unsigned)c4::lsb11<I, v>::value, m_lsb((u64)v));
    tmp_cmp<I>(ty, "msb11", (u64)v, (unsigned)c4::msb11<I, v>::value, m_msb((u64)v));
    #if CTE14
    constexpr unsigned l = c4::lsb(v), m = c4::msb(v);
    tmp_cmp<I>(ty, "constexpr lsb", (u64)v, l, m_lsb((u64)v));
    tmp_cmp<I>(ty, "constexpr msb", (u64)v, m, m_msb((u64)v));
    #endif
}
template<class I, unsigned... Is> static void tmp_small(const char *ty, seq<Is...>)
{
    int x[] = { (tmp_one<I, (I)(Is + 1)>(ty), 0)... }; (void)x;
}
template<class I, unsigned... Is> static void tmp_bits(const char *ty, seq<Is...>)
{
    // one bit, ones up to the bit, ones from the bit, bit and top
    int x[] = { (tmp_one<I, (I)(I(1) << Is)>(ty),
                 tmp_one<I, (I)(I(I(1) << Is) | I(I(I(1) << Is) - I(1)))>(ty),
                 tmp_one<I, (I)(I(~I(0)) << Is)>(ty),
                 tmp_one<I, (I)(I(I(1) << Is) | I(1))>(ty),
                 tmp_one<I, (I)(I(I(1) << Is) | I(I(1) << (8 * sizeof(I) - 1)))>(ty), 0)... };
    (void)x;
}
template<class I, I a, I b> static void mask_tmp(const char *ty)
{
    u64 want = m_mask((unsigned)a, (unsigned)b);
    S(); T(2);
    MC_CASE(fmt("contiguous_mask of the %s bits [%u,%u) in a constant expression", ty, (unsigned)a, (unsigned)b), {
        u64 got = (u64)c4::contiguous_mask11<I, a, b>::value;
        MC_CHECK(got == want, "contiguous_mask11 is 0x%llx, expected 0x%llx", got, want);
        #if CTE14
        constexpr I r = c4::contiguous_mask<I>(a, b);
        MC_CHECK((u64)r == want, "constexpr contiguous_mask is 0x%llx, expected 0x%llx", (u64)r, want);
        #endif
        V();
    });
}
template<class I, unsigned B, unsigned... Is> static void mask_tmp_all(const char *ty, seq<Is...>)
{
    // index k of (B+1)*(B+1): a = min, b = max
    int x[] = { (mask_tmp<I, (I)((Is / (B + 1)) < (Is % (B + 1)) ? (Is / (B + 1)) : (Is % (B + 1))), (I)((Is / (B + 1)) < (Is % (B + 1)) ? (Is % (B + 1)) : (Is / (B + 1)))>(ty), 0)... };
    (void)x;
}
template<class I, unsigned B, unsigned... Is> static void mask_tmp_ends(const char *ty, seq<Is...>)
{
    int x[] = { (mask_tmp<I, (I)Is, (I)B>(ty), mask_tmp<I, (I)0, (I)Is>(ty), mask_tmp<I, (I)Is, (I)Is>(ty), mask_tmp<I, (I)Is, (I)(Is < B ? Is + 1 : B)>(ty), 0)... };
    (void)x;
}
template<class B, B base, class E, E e> static void ipow_cte(const char *what)
{
    #if CTE14
    __int128 want = 0;
    if(!m_pow((__int128)base, (long long)e, std::numeric_limits<B>::min(), std::numeric_limits<B>::max(), &want)) return;
    constexpr B r1 = c4::ipow(base, e);
    constexpr B r2 = c4::ipow<B, base>(e);
    constexpr B r3 = c4::ipow<B, B, base>(e);
    S(); T(3);
    MC_CASE(fmt("ipow %s: %lld^%lld in a constant expression", what, (long long)base, (long long)e), {
        MC_CHECK((__int128)r1 == want, "ipow(base,e) is %lld, expected %lld", (long long)r1, (long long)want);
        MC_CHECK((__int128)r2 == want, "ipow<B,base>(e) is %lld, expected %lld", (long long)r2, (long long)want);
        MC_CHECK((__int128)r3 == want, "ipow<B,Base,base>(e) is %lld, expected %lld", (long long)r3, (long long)want);
        V();
    });
    #endif
}
SECTION(constexprs, 1)
{
    tmp_small<uint8_t>("uint8_t", mkseq<255>::type{});
    tmp_small<uint16_t>("uint16_t", mkseq<64>::type{});
    tmp_small<uint32_t>("uint32_t", mkseq<32>::type{});
    tmp_small<uint64_t>("uint64_t", mkseq<32>::type{});
    tmp_bits<uint8_t>("uint8_t", mkseq<8>::type{});
    tmp_bits<uint16_t>("uint16_t", mkseq<16>::type{});
    tmp_bits<uint32_t>("uint32_t", mkseq<32>::type{});
    tmp_bits<uint64_t>("uint64_t", mkseq<64>::type{});
    mask_tmp_all<uint8_t, 8>("uint8_t", mkseq<81>::type{});
    mask_tmp_all<uint16_t, 16>("uint16_t", mkseq<289>::type{});
    mask_tmp_ends<uint32_t, 32>("uint32_t", mkseq<33>::type{});
    mask_tmp_ends<uint64_t, 64>("uint64_t", mkseq<65>::type{});
    ipow_cte<int, 2, int, 0>("int"); ipow_cte<int, 2, int, 1>("int"); ipow_cte<int, 2, int, 30>("int"); ipow_cte<int, -2, int, 31>("int");
    ipow_cte<int, 10, int, 9>("int"); ipow_cte<int, 10, unsigned, 9>("int"); ipow_cte<int, 10, int, -1>("int"); ipow_cte<int, 1, int, -5>("int"); ipow_cte<int, -1, int, -5>("int");
    ipow_cte<int8_t, 2, int8_t, 6>("int8"); ipow_cte<int8_t, -1, int8_t, -128>("int8"); ipow_cte<int8_t, 3, int8_t, -128>("int8"); ipow_cte<uint8_t, 3, uint8_t, 5>("uint8"); ipow_cte<uint8_t, 1, uint8_t, 255>("uint8");
    ipow_cte<uint64_t, 10, int, 19>("uint64"); ipow_cte<uint64_t, 2, unsigned, 63>("uint64"); ipow_cte<int64_t, -10, int, 18>("int64"); ipow_cte<int64_t, 7, int64_t, 22>("int64");
    bound("lsb11/msb11 and constexpr lsb/msb: all 8-bit values, small values and every bit position of the wider types; contiguous_mask11: all bounds to 16 bits, all one-sided ones beyond");
}

#endif
// ------------------------------------------------------------------ masks
#if MC_IN_PART(0)
template<class I> static void masks(const char *ty)
{
    const unsigned B = 8 * sizeof(I) - (std::is_signed<I>::value ? 1 : 0);
    for(unsigned a = 0; a <= B; ++a)
    for(unsigned b = a; b <= B; ++b)
    {
        S();
        MC_CASE(fmt("contiguous_mask of the %s bits [%u,%u)", ty, a, b), {
            T(); I r = c4::contiguous_mask<I>((I)a, (I)b);
            MC_CHECK((u64)r == m_mask(a, b), "is 0x%llx, expected 0x%llx", (u64)r, m_mask(a, b));
            V();
        });
    }
}
SECTION(mask, 1)
{
    masks<uint8_t>("uint8_t"); masks<uint16_t>("uint16_t"); masks<uint32_t>("uint32_t"); masks<uint64_t>("uint64_t"); masks<unsigned long long>("unsigned long long");
    masks<int8_t>("int8_t"); masks<int16_t>("int16_t"); masks<int32_t>("int32_t"); masks<int64_t>("int64_t");
    bound("all 0<=first<=last<=bits (without the sign bit), 9 types");
}

#endif
// ------------------------------------------------------------------ ipow
#if MC_IN_PART(2)
template<class B, class E> static void ipow_one(const char *bt, const char *et, B base, E e)
{
    __int128 want;
    if(!m_pow((__int128)base, (long long)e, std::numeric_limits<B>::min(), std::numeric_limits<B>::max(), &want)) return;
    S();
    MC_CASE(fmt("ipow((%s)%lld, (%s)%lld)", bt, (long long)base, et, (long long)e), {
        T(); B r = c4::ipow(base, e);
        MC_CHECK((__int128)r == want, "is %lld, expected %lld", (long long)r, (long long)want);
        V();
    });
}
template<class B, class E> static void ipow_types(const char *bt, const char *et)
{
    const bool bs = std::is_signed<B>::value, es = std::is_signed<E>::value;
    std::vector<long long> bases, exps;
    if(sizeof(B) == 1) for(int v = bs ? -128 : 0; v <= (bs ? 127 : 255); ++v) bases.push_back(v);
    else { for(int v = bs ? -300 : 0; v <= 300; ++v) bases.push_back(v);
        for(long long v : {1000ll, 1024ll, 4096ll, 10000ll, 32767ll, 32768ll, 46340ll, 46341ll, 65535ll, 65536ll, 100000ll, 1000000ll, 1000000000ll, 2147483647ll, 4294967295ll, 3037000499ll, 1000000000000ll})
        { if((__int128)v <= (__int128)std::numeric_limits<B>::max()) { bases.push_back(v); if(bs) bases.push_back(-v); } } }
    if(sizeof(E) == 1) for(int v = es ? -128 : 0; v <= (es ? 127 : 255); ++v) exps.push_back(v);
    else { for(int v = es ? -70 : 0; v <= 70; ++v) exps.push_back(v);
        if(sizeof(E) == 2) { for(long long v : {-32768ll, -32767ll, -16384ll, 32767ll, 32766ll, 65535ll, 65534ll}) if(v >= (long long)std::numeric_limits<E>::min() && v <= (long long)std::numeric_limits<E>::max()) exps.push_back(v); } }
    for(long long b : bases) { if(!mine()) continue; for(long long e : exps) ipow_one<B, E>(bt, et, (B)b, (E)e); }
}
template<class B, class Base, Base base, class E> static void ipow_tpl(const char *bt, const char *et)
{
    const bool es = std::is_signed<E>::value;
    for(int e = es ? -128 : 0; e <= (es ? 127 : 255); ++e)
    {
        __int128 want;
        if(!m_pow((__int128)base, e, std::numeric_limits<B>::min(), std::numeric_limits<B>::max(), &want)) continue;
        S();
        MC_CASE(fmt("ipow<%s,%lld>((%s)%d)", bt, (long long)base, et, e), {
            T(2);
            B r = c4::ipow<B, Base, base>((E)e), r2 = c4::ipow<B, (B)base>((E)e);
            MC_CHECK((__int128)r == want, "with a base type: is %lld, expected %lld", (long long)r, (long long)want);
            MC_CHECK((__int128)r2 == want, "is %lld, expected %lld", (long long)r2, (long long)want);
            V();
        });
    }
}
template<class B> static void ipow_tpls(const char *bt)
{
    #define ONE(b) ipow_tpl<B, int, b, int8_t>(bt, "int8_t"); ipow_tpl<B, int, b, uint8_t>(bt, "uint8_t"); ipow_tpl<B, B, (B)b, int>(bt, "int"); ipow_tpl<B, B, (B)b, unsigned>(bt, "unsigned")
    ONE(0); ONE(1); ONE(2); ONE(3); ONE(5); ONE(10); ONE(16); ONE(100);
    #undef ONE
}
template<class F> static void ipow_float(const char *ft)
{
    for(double base : {1., 2., 4., 0.5, -1., -2., -0.5})
    for(int e = -120; e <= 120; ++e)
    {
        double want = 1; int n = e < 0 ? -e : e;
        for(int i = 0; i < n; ++i) want = e < 0 ? want / base : want * base;
        if(want > (double)std::numeric_limits<F>::max() || want < -(double)std::numeric_limits<F>::max() || (want > -(double)std::numeric_limits<F>::min() && want < (double)std::numeric_limits<F>::min())) continue;
        S();
        MC_CASE(fmt("ipow((%s)%g, %d)", ft, base, e), {
            T(4);
            F r = c4::ipow((F)base, e), r2 = c4::ipow((F)base, (int8_t)e);
            MC_CHECK((double)r == want, "is %g, expected %g", (double)r, want);
            MC_CHECK((double)r2 == want, "with an int8_t exponent: is %g, expected %g", (double)r2, want);
            if(e >= 0) { F r3 = c4::ipow((F)base, (unsigned)e); MC_CHECK((double)r3 == want, "with an unsigned exponent: is %g, expected %g", (double)r3, want); }
            if(base == 2) { F r4 = c4::ipow<F, int, 2>(e); MC_CHECK((double)r4 == want, "ipow<F,int,2>: is %g, expected %g", (double)r4, want); }
            V();
        });
    }
}
SECTION(ipow, 2)
{
    #define ROW(B) ipow_types<B, int8_t>(#B, "int8_t"); ipow_types<B, uint8_t>(#B, "uint8_t"); ipow_types<B, int16_t>(#B, "int16_t"); ipow_types<B, uint16_t>(#B, "uint16_t"); ipow_types<B, int32_t>(#B, "int32_t"); ipow_types<B, uint32_t>(#B, "uint32_t"); ipow_types<B, int64_t>(#B, "int64_t"); ipow_types<B, uint64_t>(#B, "uint64_t");
    ROW(int8_t) ROW(uint8_t) ROW(int16_t) ROW(uint16_t) ROW(int32_t) ROW(uint32_t) ROW(int64_t) ROW(uint64_t)
    #undef ROW
    if(st().shard == 0)
    {
        ipow_tpls<int8_t>("int8_t"); ipow_tpls<uint8_t>("uint8_t"); ipow_tpls<int16_t>("int16_t"); ipow_tpls<uint16_t>("uint16_t");
        ipow_tpls<int32_t>("int32_t"); ipow_tpls<uint32_t>("uint32_t"); ipow_tpls<int64_t>("int64_t"); ipow_tpls<uint64_t>("uint64_t");
        ipow_float<float>("float"); ipow_float<double>("double");
    }
    bound("8x8 base and exponent types: all 8-bit bases and exponents, bases to 300 and 34 larger ones, exponents to +-70 and the limits of 8 and 16 bit; cases whose result is representable; nonzero base for negative exponents");
}

#endif
// ------------------------------------------------------------------ memory
#if MC_IN_PART(3)
static char pat_byte(size_t i) { return (char)(0x31 + i * 7); }
SECTION(repeat_long, 2)
{
    bound("patterns of 1..9, 16, 100, 255..257, 4096, 65535..65537 bytes repeated 1, 2, 3, 127..129, 255..257, 32767..32769, 65535..65537 times (to 1.2 MB), and up to 2^25 bytes");
    std::vector<size_t> ps = {1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 100, 255, 256, 257, 4096, 65535, 65536, 65537}, ts = {1, 2, 3, 127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, ((size_t)1 << 24) + 1};
    for(size_t n : ps) for(size_t times : ts)
    {
        if(n * times > 1200000 && !(times > 100000 && n < 3)) continue;
        if(!mine()) continue;
        S();
        MC_CASE(fmt("mem_repeat of %zu bytes, %zu times (long)", n, times), {
            std::vector<char> pt(n), d(n * times + 32, '\x5a'); for(size_t i = 0; i < n; ++i) pt[i] = pat_byte(i);
            T(); c4::mem_repeat(d.data() + 16, pt.data(), n, times);
            size_t k = 0; for(size_t i = 0; i < n * times; ++i) { if(d[16 + i] != pt[k]) { violation("byte %zu is 0x%02x, expected 0x%02x", i, (unsigned char)d[16 + i], (unsigned char)pt[k]); break; } if(++k == n) k = 0; }
            for(size_t i = 0; i < 16; ++i) MC_CHECK(d[i] == '\x5a' && d[16 + n * times + i] == '\x5a', "a byte outside was written");
            V();
        });
    }
}
SECTION(repeat, 2)
{
    const size_t MP = thorough() ? 24 : 12, MT = thorough() ? 140 : 70;
    for(size_t n = 0; n <= MP; ++n)
    for(size_t times = 0; times <= MT; ++times)
    {
        if(!mine()) continue;
        S();
        MC_CASE(fmt("mem_repeat of %zu bytes, %zu times", n, times), {
            Buf pat(n); for(size_t i = 0; i < n; ++i) pat.p[i] = pat_byte(i);
            Buf dst(n * times);
            T(); c4::mem_repeat(dst.p, pat.p, n, times);
            for(size_t i = 0; i < n * times; ++i) if(dst.p[i] != pat_byte(i % n)) { violation("byte %zu is 0x%02x, expected 0x%02x", i, (unsigned char)dst.p[i], (unsigned char)pat_byte(i % n)); break; }
            for(size_t i = 0; i < n; ++i) MC_CHECK(pat.p[i] == pat_byte(i), "the pattern changed at byte %zu", i);
            MC_CHECK(dst.ok() && pat.ok(), "written before the buffer");
            V();
        });
        // inside a larger buffer: nothing around it changes
        MC_CASE(fmt("mem_repeat of %zu bytes, %zu times, inside a larger buffer", n, times), {
            Buf pat(n); for(size_t i = 0; i < n; ++i) pat.p[i] = pat_byte(i);
            Buf dst(n * times + 64);
            T(); c4::mem_repeat(dst.p + 32, pat.p, n, times);
            for(size_t i = 0; i < 32; ++i) MC_CHECK(dst.p[i] == '\xee' && dst.p[32 + n * times + i] == '\xee', "a byte outside was written (offset %zu)", i);
            V();
        });
    }
    bound(fmt("all pattern lengths to %zu, all repeat counts to %zu", MP, MT));
}
struct P7 { char c[7]; };
template<class E> static void zero_type(const char *ty)
{
    for(size_t num = 0; num <= 40; ++num)
    {
        S();
        MC_CASE(fmt("mem_zero(%s*, %zu)", ty, num), {
            Buf b(num * sizeof(E) + 16);
            T(); c4::mem_zero((E*)(void*)(b.p + 8), num);
            for(size_t i = 0; i < b.n; ++i) { bool in = i >= 8 && i < 8 + num * sizeof(E); if(b.p[i] != (in ? '\0' : '\xee')) { violation("byte %ld relative to the start is 0x%02x", (long)i - 8, (unsigned char)b.p[i]); break; } }
            Buf x(num * sizeof(E));
            T(); c4::mem_zero((E*)(void*)x.p, num);
            V();
        });
    }
    MC_CASE(fmt("mem_zero(%s*)", ty), {
        S(); Buf b(sizeof(E) + 16);
        T(); c4::mem_zero((E*)(void*)(b.p + 8));
        for(size_t i = 0; i < b.n; ++i) { bool in = i >= 8 && i < 8 + sizeof(E); if(b.p[i] != (in ? '\0' : '\xee')) { violation("byte %ld relative to the start is 0x%02x", (long)i - 8, (unsigned char)b.p[i]); break; } }
        V();
    });
}
SECTION(zero, 1)
{
    zero_type<char>("char"); zero_type<uint16_t>("uint16_t"); zero_type<P7>("7-byte struct"); zero_type<double>("double");
    for(size_t num = 0; num <= 70; ++num)
        MC_CASE(fmt("mem_zero(void*, %zu)", num), {
            S(); Buf b(num + 2);
            T(); c4::mem_zero((void*)(b.p + 1), num);
            for(size_t i = 0; i < b.n; ++i) MC_CHECK(b.p[i] == (i >= 1 && i <= num ? '\0' : '\xee'), "byte %ld relative to the start is 0x%02x", (long)i - 1, (unsigned char)b.p[i]);
            V();
        });
    bound("element counts to 40, byte counts to 70, element sizes 1, 2, 7, 8");
}
SECTION(overlap, 1)
{
    static char arr[16];
    const size_t N = 10;
    for(size_t a = 0; a <= N; ++a) for(size_t na = 0; a + na <= N; ++na)
    for(size_t b = 0; b <= N; ++b) for(size_t nb = 0; b + nb <= N; ++nb)
    {
        bool want = false;
        for(size_t i = a; i < a + na; ++i) if(i >= b && i < b + nb) want = true;
        S();
        MC_CASE(fmt("mem_overlaps of [%zu,%zu) and [%zu,%zu)", a, a + na, b, b + nb), {
            T(); bool r = c4::mem_overlaps(arr + a, arr + b, na, nb);
            MC_CHECK(r == want, "is %d, expected %d", r, want);
            V();
        });
    }
    bound("all pairs of ranges of a 10-byte array, empty ones included");
}
template<class P> static void aligned_type(const char *ty)
{
    for(uintptr_t base : {(uintptr_t)0, (uintptr_t)0x1000, (uintptr_t)0x7fffffff0000ull, ~(uintptr_t)0xfff})
    for(uintptr_t off = 0; off < 1024; ++off)
    {
        uintptr_t p = base + off;
        S();
        MC_CASE(fmt("is_aligned of the %s* 0x%llx", ty, (u64)p), {
            T(); bool d = c4::is_aligned((P*)p);
            MC_CHECK(d == (p % alignof(P) == 0), "is %d", d);
            for(uintptr_t al = 1; al <= 4096; al *= 2) { T(); bool r = c4::is_aligned((P*)p, al); MC_CHECK(r == (p % al == 0), "to %llu: is %d", (u64)al, r); }
            V();
        });
    }
}
struct alignas(32) A32 { char c[32]; };
SECTION(aligned, 1)
{
    aligned_type<char>("char"); aligned_type<uint16_t>("uint16_t"); aligned_type<const double>("const double"); aligned_type<A32>("32-aligned struct");
    bound("1024 consecutive addresses at four places of the address space, all alignments to 4096");
}
template<class I> static void chars_type(const char *ty)
{
    for(u64 n = 0; n <= 100; ++n)
        MC_CASE(fmt("num_needed_chars((%s)%llu)", ty, n), {
            S(); T(2);
            u64 w = (n + sizeof(wchar_t) - 1) / sizeof(wchar_t);
            MC_CHECK((u64)c4::num_needed_chars<char>((I)n) == n, "char: %llu", (u64)c4::num_needed_chars<char>((I)n));
            MC_CHECK((u64)c4::num_needed_chars<wchar_t>((I)n) == w, "wchar_t: %llu, expected %llu", (u64)c4::num_needed_chars<wchar_t>((I)n), w);
            V();
        });
}
SECTION(chars, 1)
{
    chars_type<int8_t>("int8_t"); chars_type<uint8_t>("uint8_t"); chars_type<int>("int"); chars_type<size_t>("size_t");
    for(int c = 0; c < 256; ++c)
        MC_CASE(fmt("character %d", c), {
            S(); T(4);
            bool ws = c == ' ' || (c >= 9 && c <= 13);
            bool in = false, win = false;
            for(size_t i = 0; i < c4::char_traits<char>::num_whitespace_chars; ++i) in = in || c4::char_traits<char>::whitespace_chars[i] == (char)c;
            for(size_t i = 0; i < c4::char_traits<wchar_t>::num_whitespace_chars; ++i) win = win || c4::char_traits<wchar_t>::whitespace_chars[i] == (wchar_t)c;
            MC_CHECK(in == ws, "whitespace_chars of char: %d", in);
            MC_CHECK(win == ws, "whitespace_chars of wchar_t: %d", win);
            if(c < 128) { MC_CHECK(c4::isspace((char)c) == ws, "isspace(char)"); MC_CHECK(c4::isspace((wchar_t)c) == ws, "isspace(wchar_t)"); }
            V();
        });
    MC_CASE(std::string("number of whitespace characters"), { S(); T(2);
        MC_CHECK((c4::char_traits<char>::num_whitespace_chars == 6), "char: %zu", (size_t)c4::char_traits<char>::num_whitespace_chars);
        MC_CHECK((c4::char_traits<wchar_t>::num_whitespace_chars == 6), "wchar_t: %zu", (size_t)c4::char_traits<wchar_t>::num_whitespace_chars); V(); });
    bound("byte counts to 100, all characters");
}

// ------------------------------------------------------------------ pairs and blobs
struct E1 { bool operator== (E1 const&) const { return true; } };
struct E2 { bool operator== (E2 const&) const { return true; } };
struct V1 { int v; bool operator== (V1 const& o) const { return v == o.v; } };
struct V2 { long v; char c; bool operator== (V2 const& o) const { return v == o.v && c == o.c; } };
template<class Q> static Q val(int i);
template<> int val<int>(int i) { return 100 + i; }
template<> char val<char>(int i) { return (char)('a' + i); }
template<> double val<double>(int i) { return 0.5 + i; }
template<> E1 val<E1>(int) { return E1(); }
template<> E2 val<E2>(int) { return E2(); }
template<> V1 val<V1>(int i) { V1 r; r.v = 7 * i + 1; return r; }
template<> V2 val<V2>(int i) { V2 r; r.v = 9 * i + 1; r.c = (char)('A' + i); return r; }
template<class F> static bool indep(F const&) { return !std::is_empty<F>::value; }
template<class F, class Q> static void pair_case(const char *fn, const char *sn)
{
    using P = c4::tight_pair<F, Q>;
    static_assert(std::is_same<typename P::first_type, F>::value && std::is_same<typename P::second_type, Q>::value, "pair types");
    for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j)
    {
        S();
        MC_CASE(fmt("tight_pair<%s,%s>(value %d, value %d)", fn, sn, i, j), {
            T(3);
            P p(val<F>(i), val<Q>(j)); P const& cp = p;
            MC_CHECK(p.first() == val<F>(i) && cp.first() == val<F>(i), "first() is not the value given");
            MC_CHECK(p.second() == val<Q>(j) && cp.second() == val<Q>(j), "second() is not the value given");
            MC_CHECK(&p.first() == &cp.first() && &p.second() == &cp.second(), "the const and the mutable accessors refer to different objects");
            MC_CHECK((char const*)&cp.first() >= (char const*)&p && (char const*)&cp.first() < (char const*)(&p + 1) && (char const*)&cp.second() >= (char const*)&p && (char const*)&cp.second() < (char const*)(&p + 1), "an accessor refers to an object outside the pair");
            P q(p), r; r = p;
            MC_CHECK(q.first() == val<F>(i) && q.second() == val<Q>(j), "a copy differs");
            MC_CHECK(r.first() == val<F>(i) && r.second() == val<Q>(j), "an assigned pair differs");
            q.first() = val<F>(3 - i); T();
            MC_CHECK(q.first() == val<F>(3 - i) && q.second() == val<Q>(j), "after writing first()");
            q.second() = val<Q>(3 - j); T();
            MC_CHECK(q.first() == val<F>(3 - i) && q.second() == val<Q>(3 - j), "after writing second()");
            V();
        });
    }
    MC_CASE(fmt("tight_pair<%s,%s>()", fn, sn), {
        S(); T();
        Buf b(sizeof(P), 0xA7);
        alignas(16) unsigned char mem[sizeof(P)]; memset(mem, 0xA7, sizeof mem);
        P *p = new (mem) P();
        if(indep(p->first())) MC_CHECK(p->first() == F(), "the first value is not initialised");
        if(indep(p->second())) MC_CHECK(p->second() == Q(), "the second value is not initialised");
        p->~P();
        V();
    });
}
template<class F> static void pair_row(const char *fn)
{
    pair_case<F, int>(fn, "int"); pair_case<F, char>(fn, "char"); pair_case<F, double>(fn, "double"); pair_case<F, E1>(fn, "empty1"); pair_case<F, E2>(fn, "empty2"); pair_case<F, V1>(fn, "struct1"); pair_case<F, V2>(fn, "struct2");
}
SECTION(pairs, 1)
{
    pair_row<int>("int"); pair_row<char>("char"); pair_row<double>("double"); pair_row<E1>("empty1"); pair_row<E2>("empty2"); pair_row<V1>("struct1"); pair_row<V2>("struct2");
    bound("7x7 combinations of fundamental, empty and plain class types, 4x4 values");
}
template<class BL> static void blob_is(BL const& b, void const* p, size_t n, const char *what)
{
    T();
    MC_CHECK((void const*)b.buf == p && b.len == n, "%s: covers %zu bytes at offset %ld, expected %zu at 0", what, b.len, (long)((char const*)b.buf - (char const*)p), n);
}
template<class U> static void blob_type(const char *ty)
{
    static U arr[9]; static U other[3];
    MC_CASE(fmt("blob over %s", ty), {
        S();
        { U x = U(); c4::blob b(x); blob_is(b, &x, sizeof(U), "blob(var)"); c4::cblob c(x); blob_is(c, &x, sizeof(U), "cblob(var)");
          U y = U(); b = y; blob_is(b, &y, sizeof(U), "blob=var"); c = y; blob_is(c, &y, sizeof(U), "cblob=var");
          U const z = U(); c4::cblob cz(z); blob_is(cz, &z, sizeof(U), "cblob(const var)"); cz = x; cz = z; blob_is(cz, &z, sizeof(U), "cblob=const var"); }
        for(size_t n = 0; n <= 9; ++n)
        {
            S();
            c4::blob b(arr, n); blob_is(b, arr, n * sizeof(U), "blob(ptr,n)");
            c4::cblob c((U const*)arr, n); blob_is(c, arr, n * sizeof(U), "cblob(ptr,n)");
            c4::blob v((void*)arr, n); blob_is(v, arr, n, "blob(void*,n)");
            c4::cblob w((void const*)arr, n); blob_is(w, arr, n, "cblob(void const*,n)");
            c4::cblob k(b); blob_is(k, arr, n * sizeof(U), "cblob(blob)");
            c4::cblob k2(other, 1); k2 = b; blob_is(k2, arr, n * sizeof(U), "cblob=blob");
            c4::cblob k3(other, 1); k3 = c4::blob(arr, n); blob_is(k3, arr, n * sizeof(U), "cblob=blob&&");
            c4::cblob k4(c4::blob(arr, n)); blob_is(k4, arr, n * sizeof(U), "cblob(blob&&)");
            c4::blob l(b); blob_is(l, arr, n * sizeof(U), "copy");
            c4::blob l2(other, 1); l2 = b; blob_is(l2, arr, n * sizeof(U), "assigned");
        }
        c4::blob ba(arr); blob_is(ba, arr, sizeof(arr), "blob(array)"); c4::cblob ca(arr); blob_is(ca, arr, sizeof(arr), "cblob(array)");
        ba = other; blob_is(ba, other, sizeof(other), "blob=array"); ca = other; blob_is(ca, other, sizeof(other), "cblob=array");
        V();
    });
}
SECTION(blobs, 1)
{
    blob_type<char>("char"); blob_type<uint16_t>("uint16_t"); blob_type<int>("int"); blob_type<double>("double"); blob_type<P7>("7-byte struct"); blob_type<V2>("padded struct"); blob_type<A32>("32-aligned struct");
    bound("7 element types, every constructor and assignment, counts 0-9");
}
#endif
MC_MAIN
