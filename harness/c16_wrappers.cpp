// C16: format wrappers
#include <array>
#include "mc.hpp"
#include <sys/mman.h>
#include "ints.hpp"
#include <c4/format.hpp>
#include <c4/dump.hpp>
#include <c4/base64.hpp>
#include <c4/std/string.hpp>
using c4::csubstr; using c4::substr;
using mc::Buf; using mc::q;
typedef std::string Str;
namespace fm = c4::fmt;

static Str dumped;
// every writer of the wrapped value gives `ex`; `est`: sizes for short buffers are only known to be too large
namespace hx {
// any wrapped value; writing it calls the library's writer for its type
struct Any { void const* o; size_t (*f)(substr, void const*); };
inline size_t to_chars(substr b, Any const& a) { return a.f(b, a.o); }
}
static void writers_(Str const& what, hx::Any const& w, Str const& ex, size_t est, size_t extra);
template<class W> static void writers(Str const& what, W const& w, Str const& ex, size_t est, size_t extra = 3)
{
    writers_(what, hx::Any{&w, [](substr b, void const* o) { return c4::to_chars(b, *(W const*)o); }}, ex, est, extra);
}
static void writers_(Str const& what, hx::Any const& w, Str const& ex, size_t est, size_t extra)
{
    // est: the length of the real number inside; writing it with the C library needs one character more
    const size_t need = est && !C4CORE_HAVE_STD_TOCHARS && est + 1 > ex.size() ? est + 1 : ex.size();
    mc::S();
    for(size_t len = 0; len <= need + extra; ++len)
    {
        if(need > 250 && len > 5 && len + 4 < need && len % (need > 1000 ? 16384 : 256)) continue; // long texts: near the ends and in strides
        MC_CASE(mc::fmt("to_chars(%s) buffer length %zu", what.c_str(), len), {
            Buf b(len); b.fill();
            size_t r = hx::to_chars(substr(b.p, b.n), w); mc::T();
            if(len >= need)
            {
                MC_CHECK(r == ex.size(), "returned %zu, not %zu", r, ex.size());
                MC_CHECK(r > len || b.str(r) == ex, "wrote %s, not %s", q(b.str(r <= len ? r : len)).c_str(), q(ex).c_str());
            }
            else if(est) MC_CHECK(r > len, "returned %zu, although the text needs %zu", r, ex.size());
            else MC_CHECK(r == ex.size(), "returned %zu, not %zu", r, ex.size());
            MC_CHECK(b.ok(), "wrote outside the buffer");
            mc::V();
        });
    }
    MC_CASE(mc::fmt("cat/catsep/format/catrs/dump of %s", what.c_str()), {
        static char buf[1 << 18];
        substr s(buf, ex.size() < 200 ? 512 : sizeof buf);
        size_t n = c4::cat(s, '<', w, '>'); mc::T();
        MC_CHECK(Str(buf, n) == "<" + ex + ">", "cat gives %s, not %s", q(buf, n).c_str(), q("<" + ex + ">").c_str());
        n = c4::catsep(s, ',', w, w); mc::T();
        MC_CHECK(Str(buf, n) == ex + "," + ex, "catsep gives %s, not %s", q(buf, n).c_str(), q(ex + "," + ex).c_str());
        n = c4::format(s, "a{}b{}", w, 1); mc::T();
        MC_CHECK(Str(buf, n) == "a" + ex + "b1", "format gives %s, not %s", q(buf, n).c_str(), q("a" + ex + "b1").c_str());
        Str o("zz"); c4::catrs(&o, w); mc::T();
        MC_CHECK(o == ex, "catrs gives %s, not %s", q(o).c_str(), q(ex).c_str());
        c4::catrs_append(&o, w, '.'); mc::T();
        MC_CHECK(o == ex + ex + ".", "catrs append gives %s", q(o).c_str());
        c4::formatrs(&o, "{}-{}", w, w); mc::T();
        MC_CHECK(o == ex + "-" + ex, "formatrs gives %s", q(o).c_str());
        substr t = c4::to_chars_sub(s, w); mc::T();
        MC_CHECK(Str(t.str, t.len) == ex, "to_chars_sub gives %s, not %s", q(t.str, t.len).c_str(), q(ex).c_str());
        dumped.clear();
        size_t d = c4::cat_dump([](csubstr x) { dumped.append(x.str ? x.str : "", x.len); }, s, w, '|', w); mc::T();
        MC_CHECK(dumped == ex + "|" + ex, "cat_dump gives %s", q(dumped).c_str());
        MC_CHECK(d == (ex.size() > 1 ? ex.size() : 1), "cat_dump reports %zu", d);
        mc::V();
    });
}
static Str pad(Str const& t, size_t w, char c, bool left) { if(t.size() >= w) return t; Str p(w - t.size(), c); return left ? t + p : p + t; }

static const char PADS[] = {' ', '0', '*', '\0', '\xff', 'x'};
template<class V>
static void align1(const char *what, V const& v, Str const& tx, size_t est)
{
    const size_t maxw = mc::thorough() ? 40 : 14;
    for(size_t w = 0; w <= maxw; ++w)
        for(char p : PADS)
        {
            if(!mc::mine()) continue;
            writers(mc::fmt("left(%s, %zu, pad %02x)", what, w, (unsigned char)p), fm::left(v, w, p), pad(tx, w, p, true), est);
            writers(mc::fmt("right(%s, %zu, pad %02x)", what, w, (unsigned char)p), fm::right(v, w, p), pad(tx, w, p, false), est);
            if(p == ' ')
            {
                writers(mc::fmt("left(%s, %zu)", what, w), fm::left(v, w), pad(tx, w, ' ', true), est);
                writers(mc::fmt("right(%s, %zu)", what, w), fm::right(v, w), pad(tx, w, ' ', false), est);
            }
        }
}
template<class V>
static void align2(const char *what, V const& v, Str const& tx, size_t est)
{
    for(size_t w = 0; w <= 9; ++w) for(size_t w2 = 0; w2 <= 9; ++w2)
    {
        if(!mc::mine()) continue;
        writers(mc::fmt("left(right(%s, %zu, '.'), %zu, '_')", what, w, w2), fm::left(fm::right(v, w, '.'), w2, '_'), pad(pad(tx, w, '.', false), w2, '_', true), est, 1);
        writers(mc::fmt("right(left(%s, %zu, '.'), %zu, '_')", what, w, w2), fm::right(fm::left(v, w, '.'), w2, '_'), pad(pad(tx, w, '.', true), w2, '_', false), est, 1);
        writers(mc::fmt("right(right(%s, %zu, '.'), %zu, '_')", what, w, w2), fm::right(fm::right(v, w, '.'), w2, '_'), pad(pad(tx, w, '.', false), w2, '_', false), est, 1);
    }
}
SECTION(align, 16)
{
    mc::bound("every wrapped kind (strings of 0 to 9 characters, characters, integers, radix/zero-padded/boolean/real/base64 wrappers, nested alignment), widths 0 to 14 (40 thorough), 6 padding characters, every buffer length to the text length + 3, 9 writers");
    mc::sample("right(-12, 5, '*') -> \"**-12\"; left(\"abc\", 2) -> \"abc\"");
    static const char *strs[] = {"", "a", "ab", "abc", "abcdefghi"};
    for(const char *s : strs) { align1(mc::fmt("csubstr %s", q(s).c_str()).c_str(), c4::to_csubstr(s), s, false); align1(mc::fmt("const char* %s", q(s).c_str()).c_str(), s, s, false); }
    align1("std::string", Str("st\0r", 4), Str("st\0r", 4), false);
    align1("char", 'c', "c", false);
    align1("bool", true, "1", false);
    align1("int 0", 0, "0", false); align1("int -12", -12, "-12", false); align1("int 123456", 123456, "123456", false);
    align1("int8 -128", (int8_t)-128, "-128", false); align1("uint8 200", (uint8_t)200, "200", false); align1("int16 -32768", (int16_t)-32768, "-32768", false);
    align1("int64 min", INT64_MIN, "-9223372036854775808", false); align1("uint64 max", UINT64_MAX, "18446744073709551615", false);
    align1("hex(255)", fm::hex(255), "0xff", false); align1("oct(-8)", fm::oct(-8), "-0o10", false); align1("bin(5u)", fm::bin(5u), "0b101", false);
    align1("zpad(7,3)", fm::zpad(7, 3), "007", false); align1("zpad(hex(-10),4)", fm::zpad(fm::hex(-10), 4), "-0x000a", false);
    align1("boolalpha(1)", fm::boolalpha(1), "true", false); align1("boolalpha(0)", fm::boolalpha(0), "false", false);
    align1("1.5", 1.5, "1.5", 3); align1("-0.25f", -0.25f, "-0.25", 5); align1("real(2,3)", fm::real(2.0, 3), "2.000", 5);
    align1("cbase64(abcd)", fm::cbase64(csubstr("abcd")), "YWJjZA==", false);
    align2("\"ab\"", csubstr("ab"), "ab", false);
    align2("-12", -12, "-12", false);
    align2("1.5", 1.5, "1.5", 3);
}
template<class T> static void ints1()
{
    std::vector<T> v;
    if(sizeof(T) == 1) v = ints::all_values<T>();
    else { auto a = ints::family<T>(false); size_t st = mc::thorough() ? 1 : a.size() / 300 + 1; for(size_t i = 0; i < a.size(); ++i) if(i < 20 || i % st == 0) v.push_back(a[i]); v.push_back(std::numeric_limits<T>::min()); v.push_back(std::numeric_limits<T>::max()); }
    for(T x : v)
    {
        if(!mc::mine()) continue;
        Str n = mc::fmt("(%s)%s", ints::name<T>::get(), ints::ref_numeral(x, 10, false, 0).c_str());
        for(int r : {2, 8, 10, 16})
        {
            writers(mc::fmt("integral(%s, %d)", n.c_str(), r), fm::integral(x, (T)r), ints::ref_numeral(x, r, true, 0), false, 1);
            for(size_t nd : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, (size_t)5, (size_t)8, (size_t)9, (size_t)20, (size_t)66})
                writers(mc::fmt("zpad(integral(%s, %d), %zu)", n.c_str(), r, nd), fm::zpad(fm::integral(x, (T)r), nd), ints::ref_numeral(x, r, true, nd), false, 1);
        }
        writers(mc::fmt("integral(%s)", n.c_str()), fm::integral(x), ints::ref_numeral(x, 10, true, 0), false, 1);
        writers(mc::fmt("hex(%s)", n.c_str()), fm::hex(x), ints::ref_numeral(x, 16, true, 0), false, 1);
        writers(mc::fmt("oct(%s)", n.c_str()), fm::oct(x), ints::ref_numeral(x, 8, true, 0), false, 1);
        writers(mc::fmt("bin(%s)", n.c_str()), fm::bin(x), ints::ref_numeral(x, 2, true, 0), false, 1);
        for(size_t nd = 0; nd <= 6; ++nd)
        {
            writers(mc::fmt("zpad(%s, %zu)", n.c_str(), nd), fm::zpad(x, nd), ints::ref_numeral(x, 10, true, nd), false, 1);
            writers(mc::fmt("zpad(hex(%s), %zu)", n.c_str(), nd), fm::zpad(fm::hex(x), nd), ints::ref_numeral(x, 16, true, nd), false, 1);
        }
    }
}
SECTION(integral, 16)
{
    mc::bound("all 8-bit values, 300 family values per wider type (all in the thorough tier), every radix wrapper, 9 digit counts, every buffer length, 9 writers");
    ints1<int8_t>(); ints1<uint8_t>(); ints1<int16_t>(); ints1<uint16_t>(); ints1<int32_t>(); ints1<uint32_t>(); ints1<int64_t>(); ints1<uint64_t>();
    mc::sample("zpad(hex((int8_t)-128), 3) -> -0x080 through every writer");
}
SECTION(pointers, 1)
{
    mc::bound("null and 600 addresses through every radix wrapper for mutable and const pointers");
    for(int64_t a : ints::family<int64_t>(false))
    {
        static int k = 0; if(a < 0 || ++k % 7) continue;
        int *p = (int*)a; int const* c = p; Str n = mc::fmt("pointer %lld", (long long)a);
        #define R(r, nd) ints::ref_numeral(a, r, true, nd)
        writers("hex(" + n + ")", fm::hex(p), R(16, 0), false, 1); writers("hex(const " + n + ")", fm::hex(c), R(16, 0), false, 1);
        writers("oct(" + n + ")", fm::oct(p), R(8, 0), false, 1); writers("oct(const " + n + ")", fm::oct(c), R(8, 0), false, 1);
        writers("bin(" + n + ")", fm::bin(p), R(2, 0), false, 1); writers("bin(const " + n + ")", fm::bin(c), R(2, 0), false, 1);
        writers("integral(const " + n + ", 10)", fm::integral(c, 10), R(10, 0), false, 1);
        writers("integral(const " + n + ", 16)", fm::integral(c, 16), R(16, 0), false, 1);
        for(size_t nd = 0; nd < 20; nd += 3) { writers(mc::fmt("zpad(%s, %zu)", n.c_str(), nd), fm::zpad(p, nd), R(16, nd), false, 1); writers(mc::fmt("zpad(const %s, %zu)", n.c_str(), nd), fm::zpad(c, nd), R(16, nd), false, 1); }
    }
    writers("hex(nullptr)", fm::hex(nullptr), "0x0", false); writers("oct(nullptr)", fm::oct(nullptr), "0o0", false); writers("bin(nullptr)", fm::bin(nullptr), "0b0", false);
    for(size_t nd = 0; nd < 9; ++nd) writers(mc::fmt("zpad(nullptr, %zu)", nd), fm::zpad(nullptr, nd), "0x" + Str(nd > 1 ? nd : 1, '0'), false);
    mc::sample("zpad((int*)255, 6) -> 0x0000ff");
}
SECTION(boolalpha, 1)
{
    mc::bound("all 16-bit values, every single bit of 64-bit values, reals, pointers, both strictness flags, every buffer length");
    for(int i = -32768; i < 32768; ++i) { MC_CASE(mc::fmt("boolalpha(%d)", i), { char b[8]; size_t n = c4::to_chars(substr(b, 8), fm::boolalpha((int16_t)i)); mc::T(); mc::S(); MC_CHECK(Str(b, n) == (i ? "true" : "false"), "gives %s", q(b, n).c_str()); mc::V(); }); }
    for(int i = 0; i < 64; ++i) { writers(mc::fmt("boolalpha(1<<%d)", i), fm::boolalpha((uint64_t)1 << i), "true", false); writers(mc::fmt("boolalpha(signed 1<<%d)", i), fm::boolalpha((int64_t)((uint64_t)1 << i), true), "true", false); writers(mc::fmt("boolalpha(pointer 1<<%d)", i), fm::boolalpha((void*)((uint64_t)1 << i)), "true", false); }
    writers("boolalpha(true)", fm::boolalpha(true), "true", false); writers("boolalpha(false)", fm::boolalpha(false), "false", false); writers("boolalpha(false,strict)", fm::boolalpha(false, true), "false", false);
    writers("boolalpha(null)", fm::boolalpha((void*)nullptr), "false", false); writers("boolalpha(0.0)", fm::boolalpha(0.0), "false", false); writers("boolalpha(0.5f)", fm::boolalpha(0.5f), "true", false); writers("boolalpha(1e-300)", fm::boolalpha(1e-300), "true", false); writers("boolalpha(char 0)", fm::boolalpha('\0'), "false", false);
    mc::sample("boolalpha of every int16");
}
template<class T> static Str ref_real(T v, int prec, c4::RealFormat_e f)
{
    char b[2048]; char spec[16]; int n;
    char c = f == c4::FTOA_FLOAT ? 'f' : f == c4::FTOA_SCIENT ? 'e' : f == c4::FTOA_FLEX ? 'g' : 'a';
    snprintf(spec, sizeof spec, "%%.%d%c", prec, c);
    n = snprintf(b, sizeof b, spec, (double)v);
    return Str(b, (size_t)n);
}
SECTION(real, 8)
{
    mc::bound("20 values x precisions 0..20 x fixed/scientific/flexible formats, float and double, every buffer length, 9 writers");
    static const double vals[] = {0, 1, -1, 0.5, 1.5, 2.5, 0.1, -0.1, 123.456, 1e10, 1e-10, 99999.95, 0.00012345, 1e22, 4.9e-324, 3.4e38, -2.2250738585072014e-308, 1.0 / 3.0, 6.02214076e23, 1e100};
    for(double v : vals) for(int p = 0; p <= 20; ++p) for(c4::RealFormat_e f : {c4::FTOA_FLOAT, c4::FTOA_SCIENT, c4::FTOA_FLEX})
    {
        if(!mc::mine()) continue;
        Str ex = ref_real(v, p, f);
        if(ex.size() < 180) writers(mc::fmt("real(%.17g, %d, %c)", v, p, (char)f), fm::real(v, p, f), ex, ex.size());
        Str exf = ref_real((float)v, p, f);
        if(exf.size() < 180 && v < 1e30 && v > -1e30) writers(mc::fmt("real((float)%.17g, %d, %c)", v, p, (char)f), fm::real((float)v, p, f), exf, exf.size());
        if(f == c4::FTOA_FLOAT && ex.size() < 180) writers(mc::fmt("real(%.17g, %d)", v, p), fm::real(v, p), ex, ex.size());
    }
    mc::sample("real(2.5, 0) -> \"2\"");
}
SECTION(long_texts, 4)
{
    mc::bound("widths and digit counts 15-70, 127-129, 255-257, 300, 511-513, 32767, 32768, 65535, 65536, 70000 of aligned and zero-padded values; texts of 127 to 70000 characters; reals of up to 400 characters");
    static const std::vector<size_t> SZ = mc::lens(15, 70, {127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 32767, 32768, 65535, 65536, 70000});
    for(size_t w : SZ)
    {
        if(!mc::mine()) continue;
        Str lt; for(size_t i = 0; i < w; ++i) lt += (char)('a' + i % 23);
        for(char p : {' ', '*', '\xff'})
        {
            writers(mc::fmt("left(-12, %zu, pad %02x)", w, (unsigned char)p), fm::left(-12, w, p), pad("-12", w, p, true), 0);
            writers(mc::fmt("right(-12, %zu, pad %02x)", w, (unsigned char)p), fm::right(-12, w, p), pad("-12", w, p, false), 0);
            writers(mc::fmt("left(csubstr(), %zu, pad %02x)", w, (unsigned char)p), fm::left(csubstr(), w, p), Str(w, p), 0);
            writers(mc::fmt("right(\"abc\", %zu, pad %02x)", w, (unsigned char)p), fm::right(csubstr("abc"), w, p), pad("abc", w, p, false), 0);
            for(size_t d : {(size_t)0, w - 1, w, w + 1, w + 255, w + 256, w + 257})
            {
                csubstr c(lt.data(), lt.size());
                writers(mc::fmt("left(%zu characters, %zu, pad %02x)", w, d, (unsigned char)p), fm::left(c, d, p), pad(lt, d, p, true), 0);
                writers(mc::fmt("right(%zu characters, %zu, pad %02x)", w, d, (unsigned char)p), fm::right(c, d, p), pad(lt, d, p, false), 0);
            }
        }
        writers(mc::fmt("left(right(7, %zu, '.'), %zu, '_')", w, w + 300), fm::left(fm::right(7, w, '.'), w + 300, '_'), pad(pad("7", w, '.', false), w + 300, '_', true), 0);
        writers(mc::fmt("right(left(7, %zu, '.'), %zu, '_')", w, w + 3), fm::right(fm::left(7, w, '.'), w + 3, '_'), pad(pad("7", w, '.', true), w + 3, '_', false), 0);
        for(int64_t x : {(int64_t)0, (int64_t)-12, INT64_MIN, INT64_MAX, (int64_t)255}) for(int r : {2, 8, 10, 16})
            writers(mc::fmt("zpad(integral(%lld, %d), %zu)", (long long)x, r, w), fm::zpad(fm::integral(x, (int64_t)r), w), ints::ref_numeral(x, r, true, w), 0);
        for(int8_t x : {(int8_t)0, (int8_t)-128, (int8_t)127})
            writers(mc::fmt("zpad((int8_t)%d, %zu)", x, w), fm::zpad(x, w), ints::ref_numeral(x, 10, true, w), 0);
    }
    if(mc::mine())
        for(int p : {0, 1, 30, 60}) for(double v : {1e100, -1e200, 1.7976931348623157e308, 4.9e-324, -2.5e-250})
        {
            Str ex = ref_real(v, p, c4::FTOA_FLOAT);
            writers(mc::fmt("real(%.17g, %d, f)", v, p), fm::real(v, p, c4::FTOA_FLOAT), ex, ex.size());
            ex = ref_real(v, p, c4::FTOA_SCIENT);
            writers(mc::fmt("real(%.17g, %d, e)", v, p), fm::real(v, p, c4::FTOA_SCIENT), ex, ex.size());
        }
    mc::sample("right(\"abc\", 256, '*')");
}
// raw: at every address and alignment
SECTION(raw, 8)
{
    const size_t maxn = mc::thorough() ? 40 : 18;
    mc::bound(mc::fmt("objects of 0 to %zu bytes, alignments 1 to 64, every buffer address modulo 64, every buffer length to 84; write, then read back at the same address; objects to 70000 bytes with alignments of 2^7 to 2^22", maxn));
    for(size_t n = 0; n <= maxn; ++n) for(size_t al = 1; al <= 64; al *= 2) for(size_t off = 0; off < 64; ++off)
    {
        if(!mc::mine()) continue;
        Str d; for(size_t i = 0; i < n; ++i) d += (char)(0x81 + 37 * i);
        const size_t need = ((al - off % al) % al) + n;
        for(size_t len = 0; len <= need + 3; ++len)
        {
            mc::S();
            MC_CASE(mc::fmt("raw(%zu bytes, alignment %zu), buffer length %zu at address %zu mod 64", n, al, len, off), {
                alignas(64) static char mem[512];
                memset(mem, '#', sizeof mem);
                char *p = mem + 64 + off;
                size_t r = c4::to_chars(substr(p, len), fm::craw(c4::cblob(d.data(), n), al)); mc::T();
                if(len >= need)
                {
                    MC_CHECK(r == need, "returned %zu, not %zu", r, need);
                    MC_CHECK(memcmp(p + need - n, d.data(), n) == 0, "the bytes are not at the aligned place");
                    for(size_t i = 0; i < 448; ++i) if(mem + 64 + i - 64 < p + need - n || mem + i >= p + need) MC_CHECK(mem[i] == '#', "byte %zd changed", (ssize_t)(mem + i - p));
                    char out[64]; memset(out, '?', sizeof out);
                    fm::raw_wrapper w = fm::raw(c4::blob(out + 8, n), al);
                    bool ok = c4::from_chars(csubstr(p, len), &w); mc::T();
                    MC_CHECK(ok, "reading back failed");
                    MC_CHECK(memcmp(out + 8, d.data(), n) == 0, "read back other bytes");
                    for(size_t i = 0; i < 64; ++i) if(i < 8 || i >= 8 + n) MC_CHECK(out[i] == '?', "reading changed byte %zd", (ssize_t)i - 8);
                    memset(out, '?', sizeof out);
                    ok = c4::from_chars(csubstr(p, len), fm::raw(c4::blob(out + 8, n), al)); mc::T();
                    MC_CHECK(ok && memcmp(out + 8, d.data(), n) == 0, "read back other bytes (by value)");
                    memset(out, '?', sizeof out);
                    size_t fr = c4::from_chars_first(csubstr(p, len), &w); mc::T();
                    MC_CHECK(memcmp(out + 8, d.data(), n) == 0, "from_chars_first read other bytes");
                    MC_CHECK(fr == need, "from_chars_first returned %zu, not %zu", fr, need);
                    memset(out, '?', sizeof out);
                    fr = c4::from_chars_first(csubstr(p, len), fm::raw(c4::blob(out + 8, n), al)); mc::T();
                    MC_CHECK(fr == need && memcmp(out + 8, d.data(), n) == 0, "from_chars_first (by value) returned %zu, not %zu, or read other bytes", fr, need);
                }
                else
                {
                    MC_CHECK(r > len, "returned %zu although %zu are needed", r, need);
                    for(size_t i = 0; i < sizeof mem; ++i) MC_CHECK(mem[i] == '#', "byte %zd changed", (ssize_t)(mem + i - p));
                }
                mc::V();
            });
            if(len < need)
            {
                MC_CASE(mc::fmt("reading raw(%zu bytes, alignment %zu) from a text of length %zu at address %zu mod 64", n, al, len, off), {
                    alignas(64) static char mem2[256]; char out[64]; memset(out, '?', sizeof out);
                    bool ok = false;
                    auto errs = mc::errors_in([&]{ ok = c4::from_chars(csubstr(mem2 + 64 + off, len), fm::raw(c4::blob(out, n), al)); }); mc::T();
                    MC_CHECK(errs > 0 || !ok, "a read that does not fit succeeded");
                    mc::V();
                });
            }
        }
    }
    // alignments of pages and megabytes
    const size_t cap = (size_t)1 << 24;
    char *m = (char*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(m == MAP_FAILED) { mc::bound("(no address space for the large alignments)"); return; }
    for(int b = 7; b <= 22; ++b) for(size_t n : {0, 1, 5, 300, 70000}) for(size_t rel : {(size_t)0, (size_t)1, ((size_t)1 << b) / 2, ((size_t)1 << b) - 1})
    {
        if(!mc::mine()) continue;
        const size_t al = (size_t)1 << b; char *p = (char*)(((uintptr_t)m + al) / al * al) + rel; const size_t pad = (al - rel) % al, need = pad + n;
        Str d; for(size_t i = 0; i < n; ++i) d += (char)(0x81 + 37 * i);
        for(size_t len : {(size_t)0, need ? need - 1 : 0, need, need + 1})
        {
            mc::S();
            MC_CASE(mc::fmt("raw(%zu bytes, alignment %zu), buffer length %zu, %zu bytes behind an aligned address", n, al, len, rel), {
                memset(p + pad, '#', n + 2);
                size_t r = c4::to_chars(substr(p, len), fm::craw(c4::cblob(d.data(), n), al)); mc::T();
                if(len < need) { MC_CHECK(r > len, "returned %zu although %zu are needed", r, need); }
                else
                {
                    MC_CHECK(r == need && memcmp(p + pad, d.data(), n) == 0 && p[need] == '#', "returned %zu, not %zu, or the bytes are not at the aligned place", r, need);
                    Str out(n, '?'); size_t fr = c4::from_chars_first(csubstr(p, len), fm::raw(c4::blob(&out[0], n), al)); mc::T();
                    MC_CHECK(fr == need && out == d, "from_chars_first returned %zu, not %zu, or read other bytes", fr, need);
                    Str out2(n, '?'); bool ok = c4::from_chars(csubstr(p, len), fm::raw(c4::blob(&out2[0], n), al)); mc::T(); MC_CHECK(ok && out2 == d, "does not read back");
                    memset(p + pad, '#', n); r = c4::to_chars(substr(p, len), fm::raw(c4::cblob(d.data(), n), al)); mc::T(); MC_CHECK(r == need && memcmp(p + pad, d.data(), n) == 0, "raw(cblob): returned %zu, not %zu, or other bytes", r, need);
                    if(n == 300)
                    {
                        std::array<char, 300> a; memcpy(a.data(), d.data(), n); std::array<char, 300> const& ca = a;
                        memset(p + pad, '#', n); r = c4::to_chars(substr(p, len), fm::craw(a, al)); mc::T(); MC_CHECK(r == need && memcmp(p + pad, d.data(), n) == 0, "craw(object): returned %zu, not %zu, or other bytes", r, need);
                        memset(p + pad, '#', n); r = c4::to_chars(substr(p, len), fm::raw(ca, al)); mc::T(); MC_CHECK(r == need && memcmp(p + pad, d.data(), n) == 0, "raw(const object): returned %zu, not %zu, or other bytes", r, need);
                        a.fill('?'); ok = c4::from_chars(csubstr(p, len), fm::raw(a, al)); mc::T(); MC_CHECK(ok && memcmp(a.data(), d.data(), n) == 0, "raw(object) does not read back");
                    }
                }
                mc::V();
            });
        }
    }
    munmap(m, cap);
    mc::sample("raw(4 bytes, alignment 4) at address 1 mod 64 -> 3 bytes of padding, then the object");
}
struct Pod { int a; double b; char c[5]; };
template<class T> static void obj(const char *what, T const& v, T zero)
{
    for(size_t off = 0; off < 64; ++off)
    {
        mc::S();
        MC_CASE(mc::fmt("%s at address %zu mod 64", what, off), {
            alignas(64) static char mem[512]; memset(mem, 0, sizeof mem);
            substr s(mem + off, 256);
            size_t n1 = c4::to_chars(s, fm::craw(v)); mc::T();
            T r; memcpy(&r, &zero, sizeof r);
            bool ok = c4::from_chars(s.first(n1), fm::raw(r)); mc::T();
            MC_CHECK(ok && memcmp(&r, &v, sizeof r) == 0, "does not read back");
            size_t n2 = c4::to_chars(s, fm::raw(v)); mc::T();
            MC_CHECK(n1 == n2 && n1 >= sizeof(T) && n1 < sizeof(T) + alignof(T), "sizes %zu and %zu", n1, n2);
            MC_CHECK(((uintptr_t)(s.str + n1 - sizeof(T))) % alignof(T) == 0, "not aligned");
            size_t n3 = c4::cat(s, 'x', fm::craw(v)); mc::T();
            MC_CHECK(((uintptr_t)(s.str + n3 - sizeof(T))) % alignof(T) == 0 && memcmp(s.str + n3 - sizeof(T), &v, sizeof(T)) == 0, "cat: not aligned or other bytes");
            memcpy(&r, &zero, sizeof r);
            auto w = fm::raw(r);
            char c = 0;
            size_t n4 = c4::uncat(s.first(n3), c, w); mc::T();
            MC_CHECK(n4 == n3 && c == 'x' && memcmp(&r, &v, sizeof r) == 0, "uncat: does not read back, or %zu characters read, not %zu", n4, n3);
            // what follows the object is read too
            T r2; memcpy(&r2, &zero, sizeof r2); memcpy(&r, &zero, sizeof r); auto w2 = fm::raw(r2); int num = 0; char sep = 0;
            size_t n5 = c4::cat(s, fm::craw(v), 'y', fm::craw(v), 4711); mc::T();
            size_t n6 = c4::uncat(s.first(n5), w, c, w2, num); mc::T();
            MC_CHECK(n6 == n5 && c == 'y' && num == 4711 && memcmp(&r, &v, sizeof r) == 0 && memcmp(&r2, &v, sizeof r) == 0, "uncat of object, character, object, number: %zu of %zu characters, '%c' %d, or other objects", n6, n5, c, num);
            memcpy(&r2, &zero, sizeof r2); memcpy(&r, &zero, sizeof r); num = 0;
            n5 = c4::catsep(s, ';', fm::craw(v), 12, fm::craw(v)); mc::T(); n6 = c4::uncatsep(s.first(n5), sep, w, num, w2); mc::T();
            MC_CHECK(n6 == n5 && sep == ';' && num == 12 && memcmp(&r, &v, sizeof r) == 0 && memcmp(&r2, &v, sizeof r) == 0, "uncatsep of object, number, object: %zu of %zu characters", n6, n5);
            memcpy(&r2, &zero, sizeof r2); memcpy(&r, &zero, sizeof r); num = 0;
            n5 = c4::format(s, "a{}b{} {}.", fm::craw(v), 99, fm::craw(v)); mc::T(); n6 = c4::unformat(s.first(n5), "a{}b{} {}.", w, num, w2); mc::T();
            MC_CHECK(n6 == n5 && memcmp(&r, &v, sizeof r) == 0, "unformat of object, number, object: %zu of %zu characters", n6, n5);
            mc::V();
        });
    }
}
SECTION(raw_objects, 1)
{
    mc::bound("nine object types at every address modulo 64, written alone and after a character, read back");
    obj<char>("char", 'q', 0); obj<int8_t>("int8", -7, 0); obj<uint16_t>("uint16", 0xbeef, 0); obj<int32_t>("int32", -123456, 0); obj<uint64_t>("uint64", 0x0123456789abcdefull, 0);
    obj<float>("float", 1.25f, 0); obj<double>("double", -2.5e300, 0); obj<void*>("pointer", (void*)0x1234, nullptr);
    Pod p; memset(&p, 0x5a, sizeof p); Pod z; memset(&z, 0, sizeof z); obj<Pod>("struct", p, z);
    mc::sample("double at address 3 mod 64");
}
SECTION(all_bytes, 8)
{
    mc::bound("every padding byte, and every ordered pair of different bytes in the padded text and as padding");
    for(int x = 0; x < 256; ++x) { if(!mc::mine()) continue; char c = (char)x; for(size_t w : {0u, 2u, 5u}) { writers(mc::fmt("left(-12, %zu, %02x)", w, x), fm::left(-12, w, c), pad("-12", w, c, true), 0, 1); writers(mc::fmt("right(-12, %zu, %02x)", w, x), fm::right(-12, w, c), pad("-12", w, c, false), 0, 1); } }
    mc::byte_pairs([&](char x, char y) {
        Str t{x, y}; MC_CASE(mc::fmt("text %s padding %02x", q(t).c_str(), (unsigned char)x), {
            csubstr s(t.data(), 2); { Buf d(4); size_t r = c4::to_chars(substr(d.p, 4), fm::left(s, 4, x)); MC_CHECK(r == 4 && d.str() == t + x + x, "left gives %s", q(d.str()).c_str()); }
            { Buf d(4); size_t r = c4::to_chars(substr(d.p, 4), fm::right(s, 4, y)); MC_CHECK(r == 4 && d.str() == Str(2, y) + t, "right gives %s", q(d.str()).c_str()); } mc::T(2); mc::S(); mc::V();
        });
    });
}
MC_MAIN
