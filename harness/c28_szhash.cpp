// C28: size conversions between integer types, and FNV-1a hashing.
#include "mc.hpp"
#include <c4/szconv.hpp>
#include <c4/hash.hpp>
#include <c4/substr.hpp>
#include <limits>
#include <type_traits>
using namespace mc;
using i128 = __int128;

template<class I> static std::vector<I> const& values()
{
    static std::vector<I> v;
    if(v.empty())
    {
        std::set<i128> s;
        const i128 lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max();
        auto add = [&](i128 x) { if(x >= lo && x <= hi) s.insert(x); };
        if(sizeof(I) <= 2) for(i128 x = lo; x <= hi; ++x) add(x);
        else
        {
            for(i128 x = -70000; x <= 70000; ++x) add(x);
            for(int b = 0; b <= 64; ++b) for(int c = 0; c <= 64; ++c) for(int d = -2; d <= 2; ++d)
            {
                i128 x = ((i128)1 << b) + (c < b ? ((i128)1 << c) : 0);
                add(x + d); add(-x + d); add(((i128)1 << b) + d); add(-((i128)1 << b) + d);
            }
        }
        for(i128 x : s) v.push_back((I)x);
    }
    return v;
}
static std::string str(i128 v) { char b[50]; int n = 0; bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v; std::string r; do { r.insert(r.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while(u); (void)b; (void)n; return neg ? "-" + r : r; }

#if defined(C4_USE_XASSERT) && C4_USE_XASSERT
static const bool checked_build = true;
#elif defined(NDEBUG)
static const bool checked_build = false;
#else
static const bool checked_build = true;
#endif

template<class Out, class In> static void conv(const char *on, const char *in)
{
    if(!mine()) return;
    const i128 lo = std::numeric_limits<Out>::min(), hi = std::numeric_limits<Out>::max();
    const i128 ihi = std::numeric_limits<In>::max();
    const bool narrower = ihi > hi || (sizeof(Out) < sizeof(In)); // some value of In is too large for Out, or Out is the smaller type
    MC_CASE(fmt("is_narrower_size<%s,%s>", on, in), { S(); T();
        bool n = c4::is_narrower_size<Out, In>::value;
        // a type with fewer positive values is always narrower; a signed type of the same size is narrower than the unsigned one
        if(ihi > hi) MC_CHECK(n, "not narrower, although the greatest value is smaller");
        if(sizeof(Out) > sizeof(In)) MC_CHECK(!n, "narrower, although the type is larger");
        if(std::is_same<In, Out>::value) MC_CHECK(!n, "narrower than itself");
        V(); });
    for(In v : values<In>())
    {
        const i128 x = v;
        S();
        if(x >= 0 && x <= hi)
        {
            MC_CASE(fmt("szconv<%s>((%s)%s)", on, in, str(x).c_str()), {
                T(); Out r = c4::szconv<Out>(v);
                MC_CHECK((i128)r == x, "is %s", str((i128)r).c_str());
                V();
            });
        }
        else if(checked_build && narrower && (x > hi || x < lo))
        {
            MC_CASE(fmt("szconv<%s>((%s)%s), not representable", on, in, str(x).c_str()), {
                T(); bool e = errors_in([&] { Out r = c4::szconv<Out>(v); (void)r; });
                MC_CHECK(e, "no error was reported");
                V();
            });
        }
        else
        {
            // not judged, but it must return (no narrower target: assignment without reservations)
            if(!narrower) MC_CASE(fmt("szconv<%s>((%s)%s), negative", on, in, str(x).c_str()), {
                T(); Out r = c4::szconv<Out>(v);
                MC_CHECK(r == (Out)v, "is not the converted value");
                V();
            });
        }
    }
}
SECTION(conversions, 8)
{
    #define ROW(O) conv<O, signed char>(#O, "signed char"); conv<O, unsigned char>(#O, "unsigned char"); conv<O, short>(#O, "short"); conv<O, unsigned short>(#O, "unsigned short"); conv<O, int>(#O, "int"); conv<O, unsigned>(#O, "unsigned"); conv<O, long>(#O, "long"); conv<O, unsigned long>(#O, "unsigned long"); conv<O, long long>(#O, "long long"); conv<O, unsigned long long>(#O, "unsigned long long"); conv<O, char>(#O, "char");
    ROW(signed char) ROW(unsigned char) ROW(short) ROW(unsigned short) ROW(int) ROW(unsigned) ROW(long) ROW(unsigned long) ROW(long long) ROW(unsigned long long) ROW(char)
    #undef ROW
    bound("11x11 type pairs; all 8 and 16-bit values; wider: |v|<=70000 and all sums and differences of two powers of two +-2");
}

// ------------------------------------------------------------------ hashing
static uint64_t m_fnv64(const unsigned char *p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
{
    // schoolbook multiplication by 2^40 + 2^8 + 0xb3
    for(size_t i = 0; i < n; ++i) { h ^= p[i]; h = (h << 40) + (h << 8) + h * 0xb3; }
    return h;
}
static uint32_t m_fnv32(const unsigned char *p, size_t n, uint32_t h = 0x811c9dc5u)
{
    for(size_t i = 0; i < n; ++i) { h ^= p[i]; h = (h << 24) + (h << 8) + h * 0x93; }
    return h;
}
static void hash_one(std::string const& s)
{
    const unsigned char *u = (const unsigned char*)s.data();
    const uint64_t w64 = m_fnv64(u, s.size()); const uint32_t w32 = m_fnv32(u, s.size());
    S();
    for(size_t off = 0; off < 9; ++off)
    {
        MC_CASE("hash of " + q(s) + fmt(", offset %zu", off), {
            Buf b(off + s.size()); if(s.size()) memcpy(b.p + off, s.data(), s.size());
            T(); size_t h = c4::hash_bytes((void const*)(b.p + off), s.size());
            MC_CHECK(h == (size_t)w64, "hash_bytes is 0x%zx, expected 0x%zx", h, (size_t)w64);
            // fed in pieces: the concatenation counts
            for(size_t k = 0; k <= s.size(); ++k)
            {
                T(4);
                c4::fnv1a_t<64> f; f.update(b.p + off, k); f.update(b.p + off + k, s.size() - k);
                c4::fnv1a_t<32> g; g.update(b.p + off, k); g.update(b.p + off + k, s.size() - k);
                MC_CHECK(f.digest() == w64, "64 bit, in two pieces at %zu: 0x%llx, expected 0x%llx", k, (u64)f.digest(), (u64)w64);
                MC_CHECK(g.digest() == w32, "32 bit, in two pieces at %zu: 0x%x, expected 0x%x", k, (unsigned)g.digest(), (unsigned)w32);
            }
            V();
        });
    }
}
template<size_t N> static void hash_array(std::string const& s)
{
    char a[N]; memcpy(a, s.data(), N); const char (&ca)[N] = a;
    MC_CASE(fmt("hash_bytes of the char[%zu] ", N) + q(s.data(), N), {
        S(); T(2);
        size_t h = c4::hash_bytes(ca), h2 = c4::hash_bytes((void const*)a, N);
        MC_CHECK(h == (size_t)m_fnv64((const unsigned char*)a, N) && h == h2, "is 0x%zx, expected 0x%zx", h, (size_t)m_fnv64((const unsigned char*)a, N));
        V();
    });
}
SECTION(published, 1)
{
    // published FNV-1a test vectors
    struct { const char *s; uint64_t h64; uint32_t h32; } const t[] = {
        {"", 0xcbf29ce484222325ull, 0x811c9dc5u}, {"a", 0xaf63dc4c8601ec8cull, 0xe40c292cu}, {"b", 0xaf63df4c8601f1a5ull, 0xe70c2de5u}, {"foobar", 0x85944171f73967e8ull, 0xbf9cf968u}, {"foo", 0xdcb27518fed9d577ull, 0xa9f37ed7u} };
    for(auto &x : t)
        MC_CASE("published value of " + q(x.s), { S(); T(2);
            c4::fnv1a_t<64> f; f.update(x.s, strlen(x.s)); c4::fnv1a_t<32> g; g.update(x.s, strlen(x.s));
            MC_CHECK(f.digest() == x.h64 && c4::hash_bytes((void const*)x.s, strlen(x.s)) == (size_t)x.h64, "64 bit: 0x%llx, published 0x%llx", (u64)f.digest(), (u64)x.h64);
            MC_CHECK(g.digest() == x.h32, "32 bit: 0x%x, published 0x%x", (unsigned)g.digest(), (unsigned)x.h32);
            MC_CHECK(m_fnv64((const unsigned char*)x.s, strlen(x.s)) == x.h64 && m_fnv32((const unsigned char*)x.s, strlen(x.s)) == x.h32, "the model is wrong");
            V(); });
    bound("published vectors; they also validate the reference");
}
SECTION(hashes, 6)
{
    for(int c = 0; c < 256; ++c) if(mine()) hash_one(std::string(1, (char)c));
    for(int c = 0; c < 65536; ++c) if(mine() && (thorough() || (c & 7) == (c >> 13))) hash_one(std::string({(char)(c >> 8), (char)c}));
    all_strings(std::string("\0\x01" "a\x7f\x80\xff", 6), 0, thorough() ? 6 : 5, [&](std::string const& s) { if(mine()) hash_one(s); });
    // one odd byte at every position of longer texts
    for(size_t n = 0; n <= 72; ++n) for(size_t p = 0; p < (n ? n : 1); ++p) { if(!mine()) continue; std::string s(n, 'k'); if(n) s[p] = '\x80'; hash_one(s); if(n) { s[p] = '\0'; hash_one(s); } }
    if(st().shard == 0)
        all_strings(std::string("\0a\xff", 3), 8, 8, [&](std::string const& s) { hash_array<1>(s); hash_array<2>(s); hash_array<3>(s); hash_array<4>(s); hash_array<7>(s); hash_array<8>(s); });
    bound("all one-byte texts, two-byte texts (every eighth in the quick tier), all texts to length 5 over 6 bytes (6 thorough), one odd byte at every position to length 72; 9 addresses, all two-piece splits");
}
SECTION(long_texts, 2)
{
    for(size_t n : {100u, 127u, 128u, 129u, 254u, 255u, 256u, 257u, 258u, 300u, 511u, 512u, 513u, 1000u, 4096u, 32767u, 32768u, 65535u, 65536u, 65537u, 70000u, 131073u})
    {
        if(!mine()) continue;
        for(int kind = 0; kind < 4; ++kind) for(size_t off : {0u, 1u, 3u, 7u})
        {
            std::string s(n, kind == 0 ? '\0' : '\xff'); if(kind > 1) for(size_t i = 0; i < n; ++i) s[i] = (char)(i * (kind == 2 ? 37 : 1) + i / 256);
            const unsigned char *u = (const unsigned char*)s.data(); const uint64_t w64 = m_fnv64(u, n); const uint32_t w32 = m_fnv32(u, n);
            S();
            MC_CASE(fmt("hash of %zu bytes, pattern %d, offset %zu", n, kind, off), {
                Buf b(off + n); memcpy(b.p + off, s.data(), n);
                T(); size_t h = c4::hash_bytes((void const*)(b.p + off), n);
                MC_CHECK(h == (size_t)w64, "hash_bytes is 0x%zx, expected 0x%zx", h, (size_t)w64);
                for(size_t k : {(size_t)0, (size_t)1, (size_t)63, n / 2, n - 1, n, n > 256 ? (size_t)255 : n, n > 256 ? (size_t)256 : n, n > 65536 ? (size_t)65536 : n})
                {
                    T(4);
                    c4::fnv1a_t<64> f; f.update(b.p + off, k); f.update(b.p + off + k, n - k);
                    c4::fnv1a_t<32> g; g.update(b.p + off, k); g.update(b.p + off + k, n - k);
                    MC_CHECK(f.digest() == w64 && g.digest() == w32, "in two pieces at %zu: 0x%llx and 0x%x", k, (u64)f.digest(), (unsigned)g.digest());
                }
                V();
            });
        }
    }
    bound("22 lengths from 100 to 131073 bytes, 4 patterns, 4 addresses, 9 two-piece splits");
}
MC_MAIN
