// C02: every writer x every value of a small domain x every buffer length 0..needed+3.
// Oracle: the text obtained with a huge buffer, itself compared with an independent rendering where one exists.
#include "ints.hpp"
#include <c4/base64.hpp>
#include <c4/std/string.hpp>
#include <c4/std/vector.hpp>
using namespace ints;
using c4::substr; using c4::csubstr;

enum Exact { EXACT, GREATER };

// W: size_t(substr)
static void sweep(mc::Desc desc, mc::fref<size_t(substr)> w, Exact exact, size_t maxextra = 3)
{
    std::string text;
    {
        static char big[9000];
        memset(big, 0x5A, sizeof big);
        size_t need = 0;
        if(!mc::run_case(desc, [&] { need = w(substr(big, 8000)); mc::T(); })) return;
        MC_CHECK(need <= 8000, "unexpected size");
        text.assign(big, need);
    }
    const size_t need = text.size();
    for(size_t len = 0; len <= need + maxextra; ++len)
    {
        mc::S();
        mc::run_case([&](std::string &s) { desc(s); s += mc::fmt(" | buffer length %zu (needs %zu)", len, need); }, [&] {
            mc::Buf b(len);
            size_t r = w(substr(b.p, len));
            mc::T();
            MC_CHECK(b.ok(), "wrote before the buffer");
            if(need <= len)
            {
                MC_CHECK(r == need, "returned %zu", r);
                MC_CHECK(memcmp(b.p, text.data(), need) == 0, "text %s differs from %s", mc::q(b.p, need).c_str(), mc::q(text).c_str());
            }
            else if(exact == EXACT)
                MC_CHECK(r == need, "returned %zu instead of the size needed", r);
            else
                MC_CHECK(r > len, "returned %zu although the text does not fit", r);
        });
    }
    // the null buffer is the idiom for asking the size
    mc::S();
    mc::run_case([&](std::string &s) { desc(s); s += " | null buffer"; }, [&] {
        size_t r = w(substr{}); mc::T();
        if(exact == EXACT) MC_CHECK(r == need, "returned %zu instead of %zu", r, need);
        else MC_CHECK(r > 0 || need == 0, "returned 0");
    });
    mc::V();
}
#define SWEEP(exact, descexpr, expr) sweep([&](std::string &s_) { s_ = (descexpr); }, [&](substr buf) -> size_t { return (expr); }, exact)

// ------------------------------------------------ integers
template<class T> static std::vector<T> picks()
{
    std::vector<T> r;
    auto fam = family<T>(false);
    if(sizeof(T) == 1) return all_values<T>();
    // one value per (sign, digit count in each radix): both ends of each interval
    std::set<std::string> seen;
    for(int pass = 0; pass < 2; ++pass)
    {
        std::set<std::string> here;
        auto visit = [&](T v) {
            char b[200];
            std::string k = mc::fmt("%d %zu %zu %zu %zu", v < 0, ref_digits64(b, magnitude(v), 10, 0), ref_digits64(b, magnitude(v), 16, 0), ref_digits64(b, magnitude(v), 8, 0), ref_digits64(b, magnitude(v), 2, 0));
            if(here.insert(k).second) r.push_back(v);
        };
        if(pass == 0) for(auto v : fam) visit(v);
        else for(auto it = fam.rbegin(); it != fam.rend(); ++it) visit(*it);
    }
    r.push_back(std::numeric_limits<T>::min()); r.push_back(std::numeric_limits<T>::max());
    return r;
}
template<class T> static size_t num1(substr b, T v, std::true_type) { return c4::itoa(b, v); }
template<class T> static size_t num1(substr b, T v, std::false_type) { return c4::utoa(b, v); }
template<class T> static size_t num2(substr b, T v, T r, std::true_type) { return c4::itoa(b, v, r); }
template<class T> static size_t num2(substr b, T v, T r, std::false_type) { return c4::utoa(b, v, r); }
template<class T> static size_t num3(substr b, T v, T r, size_t d, std::true_type) { return c4::itoa(b, v, r, d); }
template<class T> static size_t num3(substr b, T v, T r, size_t d, std::false_type) { return c4::utoa(b, v, r, d); }

template<class T>
static void ints_of()
{
    using Sg = std::integral_constant<bool, std::is_signed<T>::value>;
    auto vals = picks<T>();
    const size_t nds[] = {0, 1, 2, 3, 5, 8, 9, 10, 11, 16, 17, 20, 21, 22, 33, 64, 65, 67};
    mc::bound(mc::fmt("%s: %zu values (one per sign and digit count in every radix; all for 8 bit), all radices, 18 digit counts, every buffer length", name<T>::get(), vals.size()));
    size_t i = 0;
    for(T v : vals)
    {
        ++i;
        if(!mc::mine()) continue;
        std::string vs = ref_numeral(v, 10, false, 0);
        if(v >= 0)
        {
            SWEEP(EXACT, mc::fmt("write_dec(%s %s)", name<T>::get(), vs.c_str()), c4::write_dec(buf, v));
            SWEEP(EXACT, mc::fmt("write_hex(%s %s)", name<T>::get(), vs.c_str()), c4::write_hex(buf, v));
            SWEEP(EXACT, mc::fmt("write_oct(%s %s)", name<T>::get(), vs.c_str()), c4::write_oct(buf, v));
            SWEEP(EXACT, mc::fmt("write_bin(%s %s)", name<T>::get(), vs.c_str()), c4::write_bin(buf, v));
        }
        SWEEP(EXACT, mc::fmt("itoa/utoa(%s %s)", name<T>::get(), vs.c_str()), num1(buf, v, Sg()));
        SWEEP(EXACT, mc::fmt("to_chars(%s %s)", name<T>::get(), vs.c_str()), c4::to_chars(buf, v));
        for(int r : {10, 16, 8, 2})
        {
            SWEEP(EXACT, mc::fmt("itoa/utoa(%s %s, radix %d)", name<T>::get(), vs.c_str(), r), num2(buf, v, (T)r, Sg()));
            SWEEP(EXACT, mc::fmt("to_chars(fmt::integral(%s %s, %d))", name<T>::get(), vs.c_str(), r), c4::to_chars(buf, c4::fmt::integral(v, (T)r)));
            if(sizeof(T) == 1 && i % 7 && !mc::thorough() && magnitude(v) != 128 && magnitude(v) != 127) continue;
            for(size_t nd : nds)
            {
                SWEEP(EXACT, mc::fmt("itoa/utoa(%s %s, radix %d, digits %zu)", name<T>::get(), vs.c_str(), r, nd), num3(buf, v, (T)r, nd, Sg()));
                if(r == 10 && v >= 0) SWEEP(EXACT, mc::fmt("write_dec(%s %s, %zu)", name<T>::get(), vs.c_str(), nd), c4::write_dec(buf, v, nd));
                if(r == 16 && v >= 0) SWEEP(EXACT, mc::fmt("write_hex(%s %s, %zu)", name<T>::get(), vs.c_str(), nd), c4::write_hex(buf, v, nd));
                if(r == 8 && v >= 0) SWEEP(EXACT, mc::fmt("write_oct(%s %s, %zu)", name<T>::get(), vs.c_str(), nd), c4::write_oct(buf, v, nd));
                if(r == 2 && v >= 0) SWEEP(EXACT, mc::fmt("write_bin(%s %s, %zu)", name<T>::get(), vs.c_str(), nd), c4::write_bin(buf, v, nd));
            }
        }
        mc::sample(mc::fmt("%s %s in radices 2,8,10,16 with every buffer length", name<T>::get(), vs.c_str()));
    }
}
#if MC_IN_PART(0)
SECTION(i8, 2) { ints_of<int8_t>(); }
SECTION(u8, 2) { ints_of<uint8_t>(); }
#endif
#if MC_IN_PART(1)
SECTION(i16, 1) { ints_of<int16_t>(); }
SECTION(u16, 1) { ints_of<uint16_t>(); }
#endif
#if MC_IN_PART(2)
SECTION(i32, 2) { ints_of<int32_t>(); }
SECTION(u32, 2) { ints_of<uint32_t>(); }
#endif
#if MC_IN_PART(3)
SECTION(i64, 4) { ints_of<int64_t>(); }
SECTION(u64, 4) { ints_of<uint64_t>(); }
#endif

// ------------------------------------------------ long outputs: every buffer length, also beyond 255 and 65535
#if MC_IN_PART(4)
static void sweep_at(mc::Desc desc, mc::fref<size_t(substr)> w, std::string const& text, std::vector<size_t> const& lens)
{
    for(size_t len : lens)
    {
        mc::S();
        mc::run_case([&](std::string &s) { desc(s); s += mc::fmt(" | buffer length %zu (needs %zu)", len, text.size()); }, [&] {
            static std::vector<char> mem(200000);
            memset(mem.data(), 0x33, len + 128);
            size_t r = w(substr(mem.data() + 64, len)); mc::T();
            MC_CHECK(r == text.size(), "returned %zu", r);
            if(text.size() <= len) MC_CHECK(memcmp(mem.data() + 64, text.data(), text.size()) == 0, "wrong text");
            for(size_t i = 0; i < 64; ++i) MC_CHECK(mem[i] == 0x33 && mem[64 + len + i] == 0x33, "wrote outside the buffer");
        });
    }
    mc::V();
}
#define SWEEP_AT(text, lens, descexpr, expr) sweep_at([&](std::string &s_) { s_ = (descexpr); }, [&](substr buf) -> size_t { return (expr); }, text, lens)
SECTION(long_outputs, 4)
{
    mc::bound("numerals with 255..258, 300 and 65535..65537 digits, strings, left/right padding, cat/catsep/format of such sizes: every buffer length to needed+3 (those near the multiples of 256 and near the needed length for the 64K ones)");
    auto lens_of = [](size_t need) {
        std::vector<size_t> r;
        if(need < 1200) for(size_t i = 0; i <= need + 3; ++i) r.push_back(i);
        else for(size_t i = 0; i <= need + 3; ++i) { size_t m = i % 65536; if(i < 3 || (i >= 254 && i <= 258) || m < 3 || m > 65533 || i + 4 > need) r.push_back(i); }
        return r;
    };
    for(size_t nd : {127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513, 65535, 65536, 65537})
    {
        if(!mc::mine()) continue;
        auto z = [&](const char *pre, size_t w, const char *d) { return std::string(pre) + std::string(w - strlen(d), '0') + d; };
        SWEEP_AT(z("-", nd, "128"), lens_of(nd + 1), mc::fmt("itoa(int8_t -128, 10, %zu)", nd), c4::itoa(buf, (int8_t)-128, (int8_t)10, nd));
        SWEEP_AT(z("-0x", nd, "80"), lens_of(nd + 3), mc::fmt("itoa(int8_t -128, 16, %zu)", nd), c4::itoa(buf, (int8_t)-128, (int8_t)16, nd));
        SWEEP_AT(z("-", nd, "77"), lens_of(nd + 1), mc::fmt("itoa(-77, 10, %zu)", nd), c4::itoa(buf, -77, 10, nd));
        SWEEP_AT(z("", nd, "77"), lens_of(nd), mc::fmt("itoa(77, 10, %zu)", nd), c4::itoa(buf, 77, 10, nd));
        SWEEP_AT(z("-0b", nd, "101"), lens_of(nd + 3), mc::fmt("itoa(-5, 2, %zu)", nd), c4::itoa(buf, -5, 2, nd));
        SWEEP_AT(z("-0o", nd, "5"), lens_of(nd + 3), mc::fmt("itoa(-5, 8, %zu)", nd), c4::itoa(buf, -5, 8, nd));
        SWEEP_AT(z("0x", nd, "ff"), lens_of(nd + 2), mc::fmt("utoa(255, 16, %zu)", nd), c4::utoa(buf, (uint8_t)255, (uint8_t)16, nd));
        SWEEP_AT(z("", nd, "18446744073709551615"), lens_of(nd), mc::fmt("write_dec(2^64-1, %zu)", nd), c4::write_dec(buf, ~(uint64_t)0, nd));
        SWEEP_AT(z("", nd, "7"), lens_of(nd), mc::fmt("write_hex(7, %zu)", nd), c4::write_hex(buf, 7, nd));
        SWEEP_AT(z("", nd, "7"), lens_of(nd), mc::fmt("write_oct(7, %zu)", nd), c4::write_oct(buf, 7, nd));
        SWEEP_AT(z("", nd, "1"), lens_of(nd), mc::fmt("write_bin(1, %zu)", nd), c4::write_bin(buf, 1, nd));
        std::string txt; for(size_t i = 0; i < nd; ++i) txt += (char)('a' + i % 23);
        csubstr cs(txt.data(), txt.size());
        SWEEP_AT(txt, lens_of(nd), mc::fmt("to_chars(%zu characters)", nd), c4::to_chars(buf, cs));
        substr ms(&txt[0], txt.size()); SWEEP_AT(txt, lens_of(nd), mc::fmt("to_chars(substr of %zu)", nd), c4::to_chars(buf, ms));
        SWEEP_AT(txt, lens_of(nd), mc::fmt("to_chars(const char* of %zu)", nd), c4::to_chars(buf, (const char*)txt.c_str()));
        SWEEP_AT(txt, lens_of(nd), mc::fmt("to_chars(std::string of %zu)", nd), c4::to_chars(buf, txt));
        SWEEP_AT("ab" + std::string(nd - 2, '_'), lens_of(nd), mc::fmt("to_chars(left(ab, %zu))", nd), c4::to_chars(buf, c4::fmt::left(csubstr("ab"), nd, '_')));
        SWEEP_AT(std::string(nd - 2, '_') + "ab", lens_of(nd), mc::fmt("to_chars(right(ab, %zu))", nd), c4::to_chars(buf, c4::fmt::right(csubstr("ab"), nd, '_')));
        SWEEP_AT(txt, lens_of(nd), mc::fmt("to_chars(left(%zu characters, 3))", nd), c4::to_chars(buf, c4::fmt::left(cs, 3, '_')));
        SWEEP_AT(txt, lens_of(nd), mc::fmt("to_chars(right(%zu characters, 3))", nd), c4::to_chars(buf, c4::fmt::right(cs, 3, '_')));
        SWEEP_AT("x" + txt + "12", lens_of(nd + 3), mc::fmt("cat(x, %zu characters, 12)", nd), c4::cat(buf, 'x', cs, 12));
        SWEEP_AT("x::" + txt + "::12", lens_of(nd + 7), mc::fmt("catsep(::, x, %zu characters, 12)", nd), c4::catsep(buf, "::", 'x', cs, 12));
        SWEEP_AT("1" + txt + "2" + txt + "3", lens_of(2 * nd + 3), mc::fmt("catsep(%zu characters, 1, 2, 3)", nd), c4::catsep(buf, cs, 1, 2, 3));
        SWEEP_AT("<" + txt + "|12>", lens_of(nd + 5), mc::fmt("format(<{}|{}>, %zu characters, 12)", nd), c4::format(buf, "<{}|{}>", cs, 12));
        std::string f = txt + "{}" + txt;
        SWEEP_AT(txt + "5" + txt, lens_of(2 * nd + 1), mc::fmt("format(a format of %zu characters, 5)", f.size()), c4::format(buf, csubstr(f.data(), f.size()), 5));
        mc::sample(mc::fmt("outputs of %zu characters", nd));
    }
    // reals with many digits
    for(int prec : {60, 120, 127, 128, 200, 254, 255, 256, 257, 300}) for(double d : {1.0, -0.1, 1e100, 1.7976931348623157e308, 4.9406564584124654e-324})
    {
        if(!mc::mine()) continue;
        for(auto fm : {c4::FTOA_FLOAT, c4::FTOA_SCIENT})
        {
            char ref[1200]; int n = snprintf(ref, sizeof ref, fm == c4::FTOA_FLOAT ? "%.*f" : "%.*e", prec, d);
            SWEEP(GREATER, mc::fmt("dtoa(%a, precision %d, format %c)", d, prec, fm == c4::FTOA_FLOAT ? 'f' : 'e'), c4::dtoa(buf, d, prec, fm));
            mc::run_case([&](std::string &s) { s = mc::fmt("dtoa(%a, precision %d, format %c)", d, prec, fm == c4::FTOA_FLOAT ? 'f' : 'e'); }, [&] {
                char out[1300]; size_t r = c4::dtoa(substr(out, sizeof out), d, prec, fm); mc::T();
                MC_CHECK(r == (size_t)n && memcmp(out, ref, (size_t)n) == 0, "text %s, expected %s", mc::q(out, r < 1300 ? r : 1300).c_str(), ref);
            });
        }
    }
}
// ------------------------------------------------ reals
SECTION(reals, 4)
{
    const double ds[] = {0.0, -0.0, 1.0, -1.0, 0.5, 10, 100, 123456, -123456, 1e5, 1e6, 1e15, 1e16, 1e17, 1e21, 1e22, 1.5, 0.1, -0.1, 1.0/3, 3.14159265358979,
        1e-4, 1e-5, 1e-6, 1e100, -1e100, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 4.9406564584124654e-324, 9007199254740993.0, 9.5, 9.9999, 99.999, 0.00001234};
    const c4::RealFormat_e fs[] = {c4::FTOA_FLOAT, c4::FTOA_SCIENT, c4::FTOA_FLEX, c4::FTOA_HEXA};
    const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    std::vector<double> v(ds, ds + sizeof(ds) / sizeof(ds[0])); v.push_back(inf); v.push_back(-inf); v.push_back(nan);
    mc::bound(mc::fmt("%zu doubles and their float images, 4 formats, precisions -1..%d, every buffer length", v.size(), mc::thorough() ? 30 : 12));
    for(double d : v)
    {
        if(!mc::mine()) continue;
        SWEEP(GREATER, mc::fmt("to_chars(double %a)", d), c4::to_chars(buf, d));
        SWEEP(GREATER, mc::fmt("to_chars(float %a)", (float)d), c4::to_chars(buf, (float)d));
        SWEEP(GREATER, mc::fmt("xtoa(double %a)", d), c4::xtoa(buf, d));
        for(auto f : fs)
            for(int prec = -1; prec <= (mc::thorough() ? 30 : 12); ++prec)
            {
                SWEEP(GREATER, mc::fmt("dtoa(%a, precision %d, format %c)", d, prec, "feag"[f == c4::FTOA_FLOAT ? 0 : f == c4::FTOA_SCIENT ? 1 : f == c4::FTOA_HEXA ? 2 : 3]), c4::dtoa(buf, d, prec, f));
                SWEEP(GREATER, mc::fmt("ftoa(%a, precision %d, format %c)", (float)d, prec, "feag"[f == c4::FTOA_FLOAT ? 0 : f == c4::FTOA_SCIENT ? 1 : f == c4::FTOA_HEXA ? 2 : 3]), c4::ftoa(buf, (float)d, prec, f));
                if(prec >= 0 && prec < 4) SWEEP(GREATER, mc::fmt("to_chars(fmt::real(%a, %d, %d))", d, prec, (int)f), c4::to_chars(buf, c4::fmt::real(d, prec, f)));
            }
        mc::sample(mc::fmt("double %a in 4 formats", d));
    }
}
#endif

#if MC_IN_PART(5)
// ------------------------------------------------ strings, characters, booleans, pointers, wrappers
template<class T> static void wrapped(const char *what, T const& v, Exact ex, size_t width)
{
    SWEEP(ex, mc::fmt("to_chars(fmt::left(%s, %zu))", what, width), c4::to_chars(buf, c4::fmt::left(v, width, '_')));
    SWEEP(ex, mc::fmt("to_chars(fmt::right(%s, %zu))", what, width), c4::to_chars(buf, c4::fmt::right(v, width, '_')));
}
SECTION(strings_and_wrappers, 4)
{
    mc::bound("all strings over {a,NUL,0xff} up to length 4 plus lengths to 40; bool, char; pointers; left/right with widths 0..24 over six content kinds");
    std::vector<std::string> strs;
    mc::all_strings(std::string("a\0\xff", 3), 0, 4, [&](std::string const& s) { strs.push_back(s); });
    for(size_t n : {5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40}) { std::string s; for(size_t i = 0; i < n; ++i) s += (char)('a' + i % 26); strs.push_back(s); }
    for(auto const& s : strs)
    {
        if(!mc::mine()) continue;
        mc::Buf src(s);
        csubstr cs(src.p, src.n); substr ms(src.p, src.n);
        SWEEP(EXACT, "to_chars(csubstr " + mc::q(s) + ")", c4::to_chars(buf, cs));
        SWEEP(EXACT, "to_chars(substr " + mc::q(s) + ")", c4::to_chars(buf, ms));
        SWEEP(EXACT, "to_chars(std::string " + mc::q(s) + ")", c4::to_chars(buf, s));
        if(s.find('\0') == std::string::npos) { const char *z = s.c_str(); SWEEP(EXACT, "to_chars(const char* " + mc::q(s) + ")", c4::to_chars(buf, z)); }
        mc::sample("csubstr/substr/string/const char* " + mc::q(s));
    }
    if(mc::mine())
    {
        SWEEP(EXACT, "to_chars(\"\")", c4::to_chars(buf, ""));
        SWEEP(EXACT, "to_chars(\"hello\")", c4::to_chars(buf, "hello"));
        for(int b = 0; b < 2; ++b)
        {
            bool v = b != 0;
            SWEEP(EXACT, mc::fmt("to_chars(bool %d)", b), c4::to_chars(buf, v));
            SWEEP(EXACT, mc::fmt("to_chars(boolalpha %d)", b), c4::to_chars(buf, c4::fmt::boolalpha(v)));
        }
        for(int c = 0; c < 256; ++c) SWEEP(EXACT, mc::fmt("to_chars(char %d)", c), c4::to_chars(buf, (char)c));
    }
    for(int64_t a : {(int64_t)0, (int64_t)1, (int64_t)0x7ffffffff000, (int64_t)-1, std::numeric_limits<int64_t>::min()})
    {
        if(!mc::mine()) continue;
        void *p = (void*)(intptr_t)a;
        SWEEP(EXACT, mc::fmt("to_chars(pointer %p)", p), c4::to_chars(buf, p));
    }
    for(size_t w = 0; w <= 24; ++w)
    {
        if(!mc::mine()) continue;
        csubstr e, x("x"), h("hello");
        wrapped("empty", e, EXACT, w); wrapped("'x'", x, EXACT, w); wrapped("'hello'", h, EXACT, w);
        wrapped("-128", (int8_t)-128, EXACT, w); wrapped("1234567", 1234567, EXACT, w); wrapped("true", c4::fmt::boolalpha(true), EXACT, w);
        wrapped("hex", c4::fmt::hex(-77), EXACT, w);
        wrapped("real", 1.5, GREATER, w);
    }
}

// ------------------------------------------------ raw data and base64
SECTION(raw_and_base64, 2)
{
    mc::bound("base64 encode/decode of 0..20 bytes, raw objects of 1..16 bytes with alignment 1..16, every buffer length");
    for(size_t n = 0; n <= 20; ++n)
    {
        if(!mc::mine()) continue;
        std::string d; for(size_t i = 0; i < n; ++i) d += (char)(i * 37 + 250);
        mc::Buf src(d);
        SWEEP(EXACT, mc::fmt("base64_encode(%zu bytes)", n), c4::base64_encode(buf, c4::cblob(src.p, src.n)));
        SWEEP(EXACT, mc::fmt("to_chars(fmt::cbase64(%zu bytes))", n), c4::to_chars(buf, c4::fmt::cbase64(csubstr(src.p, src.n))));
        char enc[64]; size_t en = 0;
        mc::run_case([&](std::string &s) { s = "encode"; }, [&] { en = c4::base64_encode(substr(enc, sizeof enc), c4::cblob(src.p, src.n)); });
        mc::Buf esrc(enc, en);
        SWEEP(EXACT, mc::fmt("base64_decode(%zu chars)", en), c4::base64_decode(csubstr(esrc.p, esrc.n), c4::blob((void*)buf.str, buf.len)));
        mc::sample(mc::fmt("base64 of %zu bytes", n));
    }
    for(size_t n = 1; n <= 16; ++n)
        for(size_t al = 1; al <= 16; al *= 2)
        {
            if(!mc::mine()) continue;
            std::string d; for(size_t i = 0; i < n; ++i) d += (char)('A' + i);
            // buffers at every misalignment 0..15, every length: nothing outside, the size returned suffices exactly when it fits
            for(size_t off = 0; off < 16; ++off)
                for(size_t len = 0; len <= n + al + 4; ++len)
                {
                    mc::S();
                    MC_CASE(mc::fmt("to_chars(fmt::raw(%zu bytes, alignment %zu)) buffer length %zu at address offset %zu", n, al, len, off), {
                        alignas(64) static char mem[256];
                        memset(mem, 0x33, sizeof mem);
                        char *p = mem + 64 + off;
                        size_t r = c4::to_chars(substr(p, len), c4::fmt::craw(c4::cblob(d.data(), n), al)); mc::T();
                        size_t pad = (al - (off % al)) % al;
                        bool fits = pad + n <= len;
                        MC_CHECK(fits == (r <= len), "returned %zu", r);
                        if(fits) MC_CHECK(r == pad + n && memcmp(p + pad, d.data(), n) == 0, "wrong bytes or size %zu", r);
                        for(char *m = mem; m < mem + sizeof mem; ++m) if((m < p || m >= p + len)) MC_CHECK(*m == 0x33, "wrote outside at %ld", (long)(m - p));
                        mc::V();
                    });
                }
        }
}
#endif

#if MC_IN_PART(6)
// ------------------------------------------------ cat, catsep, format: all argument tuples over a typed alphabet
struct ArgE { csubstr s; size_t n; };
template<class F> static void with_arg(int k, F &&f)
{
    switch(k)
    {
    case 0: f(csubstr("")); break;
    case 1: f(csubstr("ab")); break;
    case 2: f(-12); break;
    case 3: f('c'); break;
    case 4: f(c4::fmt::zpad(7, 5)); break;
    case 5: f(c4::fmt::right(csubstr("xy"), 4, '*')); break;
    case 6: f((uint64_t)18446744073709551615ull); break;
    case 7: f(true); break;
    }
}
enum { kArgs = 8 };
static const char *argname(int k) { static const char *n[] = {"\"\"", "\"ab\"", "-12", "'c'", "zpad(7,5)", "right(xy,4)", "2^64-1", "true"}; return n[k]; }

// view-returning variants: text inside the buffer or an error
static void sweep_sub(mc::Desc desc, mc::fref<substr(substr)> w, size_t need, bool may_error)
{
    for(size_t len = 0; len <= need + 2; ++len)
    {
        mc::S();
        mc::run_case([&](std::string &s) { desc(s); s += mc::fmt(" | buffer length %zu (needs %zu)", len, need); }, [&] {
            mc::Buf b(len);
            substr r; bool err;
            err = mc::errors_in([&] { r = w(substr(b.p, len)); });
            mc::T();
            MC_CHECK(b.ok(), "wrote before the buffer");
            if(need <= len) { MC_CHECK(!err, "error although the text fits"); MC_CHECK(r.str == b.p && r.len == need, "returned view [%ld,+%zu)", (long)(r.str - b.p), r.len); }
            else if(!err) { MC_CHECK(r.str == b.p && r.len <= len, "returned view [%ld,+%zu) beyond the buffer", (long)(r.str - b.p), r.len); }
            else MC_CHECK(may_error, "reported an error");
        });
    }
    mc::V();
}
template<class A> static void level1(int ka, A const& a)
{
    SWEEP(EXACT, mc::fmt("cat(%s)", argname(ka)), c4::cat(buf, a));
    SWEEP(EXACT, mc::fmt("catsep(',',%s)", argname(ka)), c4::catsep(buf, ',', a));
    for(const char *f : {"", "{}", "x{}y", "{", "}", "{}{}", "{ }", "a{}b{}c"})
    {
        SWEEP(EXACT, mc::fmt("format(%s,%s)", f, argname(ka)), c4::format(buf, c4::to_csubstr(f), a));
        char big[256]; size_t need = c4::format(substr(big, 256), c4::to_csubstr(f), a);
        sweep_sub([&](std::string &s) { s = mc::fmt("format_sub(%s,%s)", f, argname(ka)); }, [&](substr buf) { return c4::format_sub(buf, c4::to_csubstr(f), a); }, need, true);
    }
    char big[256]; size_t need = c4::cat(substr(big, 256), a);
    sweep_sub([&](std::string &s) { s = mc::fmt("cat_sub(%s)", argname(ka)); }, [&](substr buf) { return c4::cat_sub(buf, a); }, need, true);
    sweep_sub([&](std::string &s) { s = mc::fmt("to_chars_sub(%s)", argname(ka)); }, [&](substr buf) { return c4::to_chars_sub(buf, a); }, need, false);
}
// a user-defined argument type: dispatches at run time to the alphabet above
namespace user { struct Any { int k; }; static size_t to_chars(substr buf, Any a) { size_t r = 0; with_arg(a.k, [&](auto const& x) { r = c4::to_chars(buf, x); }); return r; } }
static void level2(user::Any a, user::Any b)
{
    const char *na = argname(a.k), *nb = argname(b.k);
    SWEEP(EXACT, mc::fmt("cat(%s,%s)", na, nb), c4::cat(buf, a, b));
    SWEEP(EXACT, mc::fmt("catsep(\"::\",%s,%s)", na, nb), c4::catsep(buf, "::", a, b));
    SWEEP(EXACT, mc::fmt("catsep(1,%s,%s)", na, nb), c4::catsep(buf, 1, a, b));
    for(const char *f : {"{}{}", "x{}y{}z", "{}", "{}-{}-{}", "no"})
        SWEEP(EXACT, mc::fmt("format(%s,%s,%s)", f, na, nb), c4::format(buf, c4::to_csubstr(f), a, b));
    char big[256]; size_t need = c4::catsep(substr(big, 256), "::", a, b);
    sweep_sub([&](std::string &s) { s = mc::fmt("catsep_sub(::,%s,%s)", na, nb); }, [&](substr buf) { return c4::catsep_sub(buf, "::", a, b); }, need, true);
}
static void level3(user::Any a, user::Any b, user::Any c)
{
    const char *na = argname(a.k), *nb = argname(b.k), *nc = argname(c.k);
    SWEEP(EXACT, mc::fmt("cat(%s,%s,%s)", na, nb, nc), c4::cat(buf, a, b, c));
    SWEEP(EXACT, mc::fmt("catsep('/',%s,%s,%s)", na, nb, nc), c4::catsep(buf, '/', a, b, c));
    SWEEP(EXACT, mc::fmt("format(<{}|{}|{}>,%s,%s,%s)", na, nb, nc), c4::format(buf, "<{}|{}|{}>", a, b, c));
}
SECTION(composition, 8)
{
    mc::bound("cat/catsep/format and their view-returning variants: all tuples of arity 1..3 (4 for thorough) over an alphabet of 8 typed arguments, every buffer length");
    for(int i = 0; i < kArgs; ++i)
    {
        if(mc::mine()) with_arg(i, [&](auto const& a) { level1(i, a); });
        for(int j = 0; j < kArgs; ++j)
        {
            if(mc::mine()) level2({i}, {j});
            for(int k = 0; k < kArgs; ++k)
            {
                if(mc::mine()) level3({i}, {j}, {k});
                if(mc::thorough()) for(int l = 0; l < kArgs; ++l) if(mc::mine())
                {
                    user::Any a{i}, b{j}, c{k}, d{l};
                    SWEEP(EXACT, mc::fmt("cat(%s,%s,%s,%s)", argname(i), argname(j), argname(k), argname(l)), c4::cat(buf, a, b, c, d));
                    SWEEP(EXACT, mc::fmt("catsep(%s,%s,%s,%s)", argname(i), argname(j), argname(k), argname(l)), c4::catsep(buf, a, b, c, d));
                    SWEEP(EXACT, mc::fmt("format(%s,%s,%s,%s)", argname(i), argname(j), argname(k), argname(l)), c4::format(buf, "{}{}, {}{", a, b, c, d));
                }
            }
        }
        mc::sample(mc::fmt("tuples starting with %s", argname(i)));
    }
}
#endif
MC_MAIN
