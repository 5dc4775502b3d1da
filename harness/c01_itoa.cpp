// C01: integer-to-text conversion, every entry point, against a division-based reference
#include "ints.hpp"
using namespace ints;
using c4::substr; using c4::csubstr;

static char *g_buf; static size_t g_cap = 512;

template<class T> struct Tag { using type = T; };

// compare what was written
static inline void expect(const char *what, size_t got, const char *ref, size_t reflen)
{
    mc::T();
    if(__builtin_expect(got != reflen || memcmp(g_buf, ref, reflen) != 0, 0))
        mc::violation("%s gave length %zu text %s, expected %s", what, got, mc::q(g_buf, got < 200 ? got : 200).c_str(), mc::q(ref, reflen).c_str());
    // what follows the numeral is untouched
    if(__builtin_expect((unsigned char)g_buf[reflen] != 0xEE, 0))
        mc::violation("%s wrote past the numeral", what);
    memset(g_buf, 0xEE, reflen + 2);
}

template<class T> static void write_nonneg(substr b, T v, std::true_type)
{
    char ref[256]; size_t n;
    n = ref_digits64(ref, (uint64_t)v, 10, 0);
    expect("write_dec", c4::write_dec(b, v), ref, n); MC_CHECK(c4::digits_dec(v) == n, "digits_dec=%u expected %zu", c4::digits_dec(v), n);
    n = ref_digits64(ref, (uint64_t)v, 16, 0);
    expect("write_hex", c4::write_hex(b, v), ref, n); MC_CHECK(c4::digits_hex(v) == n, "digits_hex=%u expected %zu", c4::digits_hex(v), n);
    n = ref_digits64(ref, (uint64_t)v, 8, 0);
    expect("write_oct", c4::write_oct(b, v), ref, n); MC_CHECK(c4::digits_oct(v) == n, "digits_oct=%u expected %zu", c4::digits_oct(v), n);
    n = ref_digits64(ref, (uint64_t)v, 2, 0);
    expect("write_bin", c4::write_bin(b, v), ref, n); MC_CHECK(c4::digits_bin(v) == n, "digits_bin=%u expected %zu", c4::digits_bin(v), n);
    mc::T(4);
}
template<class T> static void write_nonneg_digits(substr b, T v, size_t nd)
{
    char ref[256]; size_t n;
    n = ref_digits64(ref, (uint64_t)v, 10, nd); expect("write_dec(num_digits)", c4::write_dec(b, v, nd), ref, n);
    n = ref_digits64(ref, (uint64_t)v, 16, nd); expect("write_hex(num_digits)", c4::write_hex(b, v, nd), ref, n);
    n = ref_digits64(ref, (uint64_t)v, 8, nd); expect("write_oct(num_digits)", c4::write_oct(b, v, nd), ref, n);
    n = ref_digits64(ref, (uint64_t)v, 2, nd); expect("write_bin(num_digits)", c4::write_bin(b, v, nd), ref, n);
}
// signed / unsigned named entry points
template<class T> static size_t n1(substr b, T v, std::true_type) { return c4::itoa(b, v); }
template<class T> static size_t n1(substr b, T v, std::false_type) { return c4::utoa(b, v); }
template<class T> static size_t n2(substr b, T v, T r, std::true_type) { return c4::itoa(b, v, r); }
template<class T> static size_t n2(substr b, T v, T r, std::false_type) { return c4::utoa(b, v, r); }
template<class T> static size_t n3(substr b, T v, T r, size_t d, std::true_type) { return c4::itoa(b, v, r, d); }
template<class T> static size_t n3(substr b, T v, T r, size_t d, std::false_type) { return c4::utoa(b, v, r, d); }
// xtoa with a radix exists for the fixed-length types only
template<class T> static void x2(substr b, T v, T r, char const* ref, size_t n, std::true_type) { expect("xtoa(radix)", c4::xtoa(b, v, r), ref, n); }
template<class T> static void x2(substr, T, T, char const*, size_t, std::false_type) {}
template<class T> static void x3(substr b, T v, T r, size_t d, char const* ref, size_t n, std::true_type) { expect("xtoa(radix,num_digits)", c4::xtoa(b, v, r, d), ref, n); }
template<class T> static void x3(substr, T, T, size_t, char const*, size_t, std::false_type) {}

template<class T>
static void one_value(T v, std::vector<size_t> const& digits)
{
    using Sg = std::integral_constant<bool, std::is_signed<T>::value>;
    using Fx = std::integral_constant<bool, c4::is_fixed_length<T>::value>;
    substr b(g_buf, g_cap);
    char ref[256];
    const int radices[] = {10, 16, 8, 2};
    mc::S();
    if(v >= 0) write_nonneg(b, v, std::true_type());
    size_t n = ref_numeral(ref, v, 10, true, 0);
    expect("itoa/utoa", n1(b, v, Sg()), ref, n);
    expect("xtoa", c4::xtoa(b, v), ref, n);
    expect("to_chars", c4::to_chars(b, v), ref, n);
    {
        substr s = c4::to_chars_sub(b, v); mc::T();
        MC_CHECK(s.str == b.str && s.len == n && memcmp(s.str, ref, n) == 0, "to_chars_sub wrong: %s", mc::q(s.str, s.len).c_str());
        memset(g_buf, 0xEE, n + 2);
    }
    for(int r : radices)
    {
        n = ref_numeral(ref, v, r, true, 0);
        expect("itoa/utoa(radix)", n2(b, v, (T)r, Sg()), ref, n);
        x2(b, v, (T)r, ref, n, Fx());
        expect("to_chars(fmt::integral)", c4::to_chars(b, c4::fmt::integral(v, (T)r)), ref, n);
        if(r == 16) expect("to_chars(fmt::hex)", c4::to_chars(b, c4::fmt::hex(v)), ref, n);
        if(r == 8) expect("to_chars(fmt::oct)", c4::to_chars(b, c4::fmt::oct(v)), ref, n);
        if(r == 2) expect("to_chars(fmt::bin)", c4::to_chars(b, c4::fmt::bin(v)), ref, n);
    }
    for(size_t d : digits)
    {
        mc::S();
        if(v >= 0) write_nonneg_digits(b, v, d);
        for(int r : radices)
        {
            n = ref_numeral(ref, v, r, true, d);
            expect("itoa/utoa(radix,num_digits)", n3(b, v, (T)r, d, Sg()), ref, n);
            x3(b, v, (T)r, d, ref, n, Fx());
            if(r == 10) expect("to_chars(fmt::zpad)", c4::to_chars(b, c4::fmt::zpad(v, d)), ref, n);
            if(r == 16) expect("to_chars(fmt::zpad(hex))", c4::to_chars(b, c4::fmt::zpad(c4::fmt::hex(v), d)), ref, n);
            if(r == 8) expect("to_chars(fmt::zpad(oct))", c4::to_chars(b, c4::fmt::zpad(c4::fmt::oct(v), d)), ref, n);
            if(r == 2) expect("to_chars(fmt::zpad(bin))", c4::to_chars(b, c4::fmt::zpad(c4::fmt::bin(v), d)), ref, n);
        }
    }
    mc::V();
}

static std::vector<size_t> digit_list(bool all)
{
    std::vector<size_t> r;
    if(all) for(size_t i = 0; i <= 70; ++i) r.push_back(i);
    else r = {0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 19, 20, 21, 22, 23, 31, 32, 33, 63, 64, 65, 66, 68};
    return r;
}

template<class T>
static void run_type(bool fulldigits)
{
    static char storage[1024];
    g_buf = storage + 128; memset(storage, 0xEE, sizeof storage);
    auto vals = values<T>(mc::thorough());
    auto full = digit_list(true); auto few = digit_list(false);
    mc::bound(mc::fmt("%s: %zu values, all entry points, radices 2/8/10/16, digit counts 0..70 (%s)", name<T>::get(), vals.size(), fulldigits ? "all" : "selected"));
    size_t k = 0;
    for(T v : vals)
    {
        ++k;
        if(!mc::mine()) continue;
        // all digit counts for a prefix of the (magnitude sorted) values and at the limits, the selected ones elsewhere
        bool fullhere = fulldigits || mc::thorough() || v == std::numeric_limits<T>::min() || v == std::numeric_limits<T>::max() || k < 64;
        mc::run_case([&](std::string &s) { s = mc::fmt("%s value %s", name<T>::get(), ref_numeral(v, 10, false, 0).c_str()); },
            [&] { one_value<T>(v, fullhere ? full : (sizeof(T) == 2 ? few : few)); });
        for(int i = 1; i <= 64; ++i) if((unsigned char)g_buf[-i] != 0xEE) { mc::violation("%s %s: wrote before the buffer", name<T>::get(), ref_numeral(v, 10, false, 0).c_str()); memset(storage, 0xEE, sizeof storage); break; }
        if(k % 977 == 5) mc::sample(mc::fmt("%s %s -> %s", name<T>::get(), ref_numeral(v, 10, false, 0).c_str(), ref_numeral(v, 16, true, 20).c_str()));
    }
}
#if MC_IN_PART(0)
SECTION(i8, 1) { run_type<int8_t>(true); }
#endif
#if MC_IN_PART(1)
SECTION(u8, 1) { run_type<uint8_t>(true); }
#endif
#if MC_IN_PART(2)
SECTION(i16, 4) { run_type<int16_t>(false); }
#endif
#if MC_IN_PART(3)
SECTION(u16, 4) { run_type<uint16_t>(false); }
#endif
#if MC_IN_PART(4)
SECTION(i32, 2) { run_type<int32_t>(false); }
#endif
#if MC_IN_PART(5)
SECTION(u32, 2) { run_type<uint32_t>(false); }
#endif
#if MC_IN_PART(6)
SECTION(i64, 4) { run_type<int64_t>(false); }
#endif
#if MC_IN_PART(7)
SECTION(u64, 4) { run_type<uint64_t>(false); }
#endif
#if MC_IN_PART(8)
SECTION(llong, 2) { run_type<long long>(false); }
#endif
#if MC_IN_PART(9)
SECTION(ullong, 2) { run_type<unsigned long long>(false); }
#endif

#if MC_IN_PART(0)
// decimal writers over a contiguous range, compared with an odometer that adds one in decimal
template<class T>
static void odometer(uint64_t from, uint64_t count)
{
    static char storage[256];
    g_buf = storage + 64; memset(storage, 0xEE, sizeof storage);
    char ref[32]; size_t n = ref_digits64(ref, from, 10, 0);
    uint64_t v = from;
    uint64_t end = from + count;
    auto D = [&](std::string &s) { s = mc::fmt("%s value %llu", name<T>::get(), (mc::u64)v); };
    substr b(g_buf, 64);
    mc::run_case(D, [&] {
        for(; v < end; ++v)
        {
            size_t got = c4::to_chars(b, (T)v);
            if(__builtin_expect(got != n || memcmp(g_buf, ref, n) != 0, 0))
                mc::violation("to_chars gave %s", mc::q(g_buf, got < 64 ? got : 64).c_str());
            if(std::is_signed<T>::value && v)
            {
                got = c4::to_chars(b, (T)((T)0 - (T)v));
                if(__builtin_expect(got != n + 1 || g_buf[0] != '-' || memcmp(g_buf + 1, ref, n) != 0, 0))
                    mc::violation("to_chars of the negative gave %s", mc::q(g_buf, got < 64 ? got : 64).c_str());
                mc::T();
            }
            mc::T(); mc::V();
            size_t k = n;
            for(;;)
            {
                if(k == 0) { memmove(ref + 1, ref, n); ref[0] = '1'; ++n; break; }
                --k;
                if(ref[k] != '9') { ++ref[k]; break; }
                ref[k] = '0';
            }
        }
    });
    mc::S(count);
}
SECTION(contiguous32, 8)
{
    // quick: the first 3 million and 1 million around every power of ten; thorough: all 2^32 unsigned and all 2^31 signed
    if(mc::thorough())
    {
        mc::bound("all 2^32 uint32_t and all int32_t values, decimal");
        const uint64_t chunk = 1u << 22;
        for(uint64_t f = 0; f < (1ull << 32); f += chunk) { if(!mc::mine()) continue; odometer<uint32_t>(f, chunk); if(f < (1ull << 31)) odometer<int32_t>(f, chunk); }
    }
    else
    {
        mc::bound("decimal, contiguous: 0..3e6 and 2e5 around every power of ten and power of two, u32/i32/u64/i64");
        const uint64_t chunk = 250000;
        for(uint64_t f = 0; f < 3000000; f += chunk) { if(!mc::mine()) continue; odometer<uint32_t>(f, chunk); odometer<int32_t>(f, chunk); }
        for(uint64_t p = 10; p <= 1000000000000000000ull; p *= 10)
        {
            if(!mc::mine()) continue;
            uint64_t lo = p > 50000 ? p - 50000 : 0;
            odometer<uint64_t>(lo, 100000); odometer<int64_t>(lo, 100000);
            if(p <= 1000000000) { odometer<uint32_t>(lo, 100000); odometer<int32_t>(lo, 100000); }
        }
        for(int s = 17; s < 63; ++s)
        {
            if(!mc::mine()) continue;
            uint64_t p = (1ull << s) - 5000;
            odometer<uint64_t>(p, 10000); odometer<int64_t>(p, 10000);
            if(s < 31) { odometer<uint32_t>(p, 10000); odometer<int32_t>(p, 10000); }
        }
    }
}

// digit counters in constant expressions
template<uint64_t V> struct DC
{
    static void check()
    {
        constexpr unsigned d = c4::digits_dec((uint64_t)V), h = c4::digits_hex((uint64_t)V), o = c4::digits_oct((uint64_t)V), b = c4::digits_bin((uint64_t)V);
        mc::S(); mc::T(4);
        MC_CASE(mc::fmt("constexpr digits of %llu", (mc::u64)V), {
            char r[160];
            MC_CHECK(d == ref_digits64(r, V, 10, 0), "digits_dec=%u", d);
            MC_CHECK(h == ref_digits64(r, V, 16, 0), "digits_hex=%u", h);
            MC_CHECK(o == ref_digits64(r, V, 8, 0), "digits_oct=%u", o);
            MC_CHECK(b == ref_digits64(r, V, 2, 0), "digits_bin=%u", b);
            mc::V();
        });
    }
};
template<uint64_t P, int K> struct DCp { static void go() { DC<P - 1>::check(); DC<P>::check(); DCp<P * 10, K - 1>::go(); } };
template<uint64_t P> struct DCp<P, 0> { static void go() {} };
template<int K> struct DCb { static void go() { DC<(1ull << K) - 1>::check(); DC<(1ull << K)>::check(); DCb<K - 1>::go(); } };
template<> struct DCb<-1> { static void go() {} };
SECTION(constant_expressions, 1) { mc::bound("powers of ten and of two and their predecessors"); DCp<10, 19>::go(); DCb<63>::go(); DC<~0ull>::check(); mc::sample("digits_dec(10^19-1), digits_dec(10^19) at compile time"); }

// digit counts beyond any fixed table or narrow counter
template<class T> static void long_type()
{
    using Sg = std::integral_constant<bool, std::is_signed<T>::value>;
    std::vector<T> vals = {T(0), T(1), T(9), T(10), T(99), T(100), T(127), std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), T(std::numeric_limits<T>::max() - 1)};
    if(std::is_signed<T>::value) { vals.push_back(T(-1)); vals.push_back(T(-10)); vals.push_back(T(-99)); vals.push_back(T(std::numeric_limits<T>::min() + 1)); }
    static std::vector<char> mem(140000, (char)0xEE);
    char *out = mem.data() + 64;
    std::vector<size_t> nds;
    for(size_t d = 71; d <= (mc::thorough() ? 1100u : 300u); ++d) nds.push_back(d);
    for(size_t d : {511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 65538, 65540, 70000}) nds.push_back(d);
    for(T v : vals) for(size_t nd : nds)
    {
        if(!mc::mine()) continue;
        mc::S();
        MC_CASE(mc::fmt("%s value %s with %zu digits", name<T>::get(), ref_numeral(v, 10, false, 0).c_str(), nd), {
            for(int r : {10, 16, 8, 2})
            {
                std::string plain = ref_numeral(v < 0 ? v : v, r, true, 0);
                size_t ndig = plain.size() - (v < 0) - strlen(prefix_of(r));
                std::string ref = plain.substr(0, plain.size() - ndig) + std::string(nd > ndig ? nd - ndig : 0, '0') + plain.substr(plain.size() - ndig);
                auto chk = [&](const char *what, size_t got, std::string const& e) {
                    mc::T();
                    MC_CHECK(got == e.size(), "%s (radix %d) returned %zu, expected %zu", what, r, got, e.size());
                    MC_CHECK(memcmp(out, e.data(), e.size()) == 0, "%s (radix %d) wrote the wrong text", what, r);
                    for(int i = 1; i <= 16; ++i) MC_CHECK((unsigned char)out[-i] == 0xEE && (unsigned char)out[e.size() + (size_t)i - 1] == 0xEE, "%s (radix %d) wrote outside the numeral", what, r);
                    memset(mem.data(), 0xEE, 64 + e.size() + 64);
                };
                substr b(out, 130000);
                chk("itoa/utoa", n3(b, v, (T)r, nd, Sg()), ref);
                if(v >= 0)
                {
                    std::string e = ref.substr(strlen(prefix_of(r)));
                    chk("write", r == 10 ? c4::write_dec(b, v, nd) : r == 16 ? c4::write_hex(b, v, nd) : r == 8 ? c4::write_oct(b, v, nd) : c4::write_bin(b, v, nd), e);
                }
                chk("zpad", r == 10 ? c4::to_chars(b, c4::fmt::zpad(v, nd)) : r == 16 ? c4::to_chars(b, c4::fmt::zpad(c4::fmt::hex(v), nd)) : r == 8 ? c4::to_chars(b, c4::fmt::zpad(c4::fmt::oct(v), nd)) : c4::to_chars(b, c4::fmt::zpad(c4::fmt::bin(v), nd)), ref);
                // the size query with no room at all
                size_t q = n3(substr(out, (size_t)0), v, (T)r, nd, Sg()); mc::T();
                MC_CHECK(q == ref.size(), "the size query (radix %d) returned %zu, expected %zu", r, q, ref.size());
            }
            mc::V();
        });
    }
}
SECTION(long_numerals, 8)
{
    mc::bound("10-14 boundary values of each type, digit counts 71..300 and around every power of two to 65536; every writer");
    long_type<int8_t>(); long_type<uint8_t>(); long_type<int16_t>(); long_type<uint16_t>(); long_type<int32_t>(); long_type<uint32_t>(); long_type<int64_t>(); long_type<uint64_t>();
    mc::sample("-128 with 257 binary digits");
}

// pointers print as hexadecimal numerals of the address
SECTION(pointers, 1)
{
    static char storage[1024]; g_buf = storage + 128; memset(storage, 0xEE, sizeof storage);
    auto vals = family<int64_t>(false);
    mc::bound(mc::fmt("%zu addresses", vals.size()));
    for(int64_t v : vals)
    {
        mc::S();
        MC_CASE(mc::fmt("pointer %lld", (long long)v), {
            char ref[256]; substr b(g_buf, 512);
            void *p = (void*)(intptr_t)v;
            size_t n = ref_numeral(ref, v, 16, true, 0);
            expect("to_chars(pointer)", c4::to_chars(b, p), ref, n);
            expect("xtoa(pointer)", c4::xtoa(b, p), ref, n);
            expect("to_chars(hex(pointer))", c4::to_chars(b, c4::fmt::hex((int*)p)), ref, n);
            expect("to_chars(hex(const pointer))", c4::to_chars(b, c4::fmt::hex((int const*)p)), ref, n);
            n = ref_numeral(ref, v, 8, true, 0);
            expect("to_chars(oct(pointer))", c4::to_chars(b, c4::fmt::oct((int*)p)), ref, n);
            n = ref_numeral(ref, v, 2, true, 0);
            expect("to_chars(bin(pointer))", c4::to_chars(b, c4::fmt::bin((int*)p)), ref, n);
            n = ref_numeral(ref, v, 10, true, 0);
            expect("to_chars(integral(pointer))", c4::to_chars(b, c4::fmt::integral((int const*)p, 10)), ref, n);
            n = ref_numeral(ref, v, 16, true, 20);
            expect("to_chars(zpad(pointer))", c4::to_chars(b, c4::fmt::zpad((int*)p, 20)), ref, n);
            mc::V();
        });
    }
    mc::sample("all family addresses through hex/oct/bin/zpad");
    MC_CASE("null pointer wrappers", {
        mc::S(); substr b(g_buf, 512);
        expect("hex(nullptr)", c4::to_chars(b, c4::fmt::hex(nullptr)), "0x0", 3);
        expect("oct(nullptr)", c4::to_chars(b, c4::fmt::oct(nullptr)), "0o0", 3);
        expect("bin(nullptr)", c4::to_chars(b, c4::fmt::bin(nullptr)), "0b0", 3);
        expect("integral(nullptr)", c4::to_chars(b, c4::fmt::integral(nullptr, 10)), "0", 1);
        expect("zpad(nullptr)", c4::to_chars(b, c4::fmt::zpad(nullptr, 3)), "0x000", 5);
        mc::V();
    });
}
#endif
MC_MAIN
