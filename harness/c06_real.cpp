// C06: real numbers, against the C library's correctly rounded conversions
#include "ints.hpp"
#include <cmath>
using namespace ints;
using c4::csubstr; using c4::substr;
#if __cplusplus >= 201703L
#define CPP17 1
#else
#define CPP17 0
#endif

template<class T> struct Bits;
template<> struct Bits<double> { using U = uint64_t; enum { mant = 52, exps = 2048 }; };
template<> struct Bits<float> { using U = uint32_t; enum { mant = 23, exps = 256 }; };
template<class T> static T from_bits(typename Bits<T>::U u) { T v; memcpy(&v, &u, sizeof v); return v; }
template<class T> static typename Bits<T>::U to_bits(T v) { typename Bits<T>::U u; memcpy(&u, &v, sizeof u); return u; }
template<class T> static bool same(T a, T b) { return to_bits(a) == to_bits(b) || (a != a && b != b); }
static double ref_read(const char *s, double) { return strtod(s, nullptr); }
static float ref_read(const char *s, float) { return strtof(s, nullptr); }
template<class T> static const char *nm() { return sizeof(T) == 8 ? "double" : "float"; }
static bool rd(int k, csubstr s, double *v) { return k == 0 ? c4::atod(s, v) : k == 1 ? c4::atox(s, v) : c4::from_chars(s, v); }
static bool rd(int k, csubstr s, float *v) { return k == 0 ? c4::atof(s, v) : k == 1 ? c4::atox(s, v) : c4::from_chars(s, v); }

// ------------------------------------------------------------------ reading
template<class T> static void read_ok(std::string const& s)
{
    mc::Buf b(s); mc::S();
    auto D = [&](std::string &d) { d = mc::fmt("%s from %s", nm<T>(), mc::q(s).c_str()); };
    mc::run_case(D, [&] {
        T e = ref_read(s.c_str(), T());
        if(std::isinf(e) && s.find('n') == std::string::npos) return; // out of range: outcome not specified
        if(e == 0) for(char c : s) { if(c == 'e' || c == 'E' || c == 'p' || c == 'P') break; if(c >= '1' && c <= '9') return; } // underflow to zero likewise
        for(int k = 0; k < 3; ++k)
        {
            T v = T(77); bool ok = rd(k, csubstr(b.p, b.n), &v); mc::T();
            MC_CHECK(ok, "rejected (reader %d)", k);
            if(ok) MC_CHECK(same(v, e), "value %.17g, expected %.17g (reader %d)", (double)v, (double)e, k);
        }
        mc::V();
    });
}
template<class T> static void read_bad(std::string const& s)
{
    mc::Buf b(s); mc::S();
    MC_CASE(mc::fmt("%s from %s", nm<T>(), mc::q(s).c_str()), {
        for(int k = 0; k < 3; ++k) { T v = T(77); bool ok = rd(k, csubstr(b.p, b.n), &v); mc::T(); MC_CHECK(!ok, "accepted as %.17g (reader %d)", (double)v, k); }
        mc::V();
    });
}
template<class T> static void both(std::string const& s, bool ok) { if(ok) read_ok<T>(s); else read_bad<T>(s); }

static bool dg(char c) { return c >= '0' && c <= '9'; }
static bool dec_numeral(std::string const& s)
{
    size_t i = 0, n = s.size(), d = 0;
    if(i < n && s[i] == '-') ++i;
    while(i < n && dg(s[i])) { ++i; ++d; }
    if(i < n && s[i] == '.') { ++i; while(i < n && dg(s[i])) { ++i; ++d; } }
    if(!d) return false;
    if(i < n && (s[i] == 'e' || s[i] == 'E')) { ++i; if(i < n && (s[i] == '+' || s[i] == '-')) ++i; size_t e = 0; while(i < n && dg(s[i])) { ++i; ++e; } if(!e) return false; }
    return i == n;
}
static bool hex_numeral(std::string const& s)
{
    size_t i = 0, n = s.size(), d = 0;
    if(i < n && (s[i] == '-' || s[i] == '+')) ++i;
    if(i + 2 > n || s[i] != '0' || (s[i + 1] != 'x' && s[i + 1] != 'X')) return false;
    i += 2;
    while(i < n && digit_of(s[i]) < 16) { ++i; ++d; }
    if(i < n && s[i] == '.') { ++i; while(i < n && digit_of(s[i]) < 16) { ++i; ++d; } }
    if(!d) return false;
    if(i < n && (s[i] == 'p' || s[i] == 'P')) { ++i; if(i < n && (s[i] == '+' || s[i] == '-')) ++i; size_t e = 0; while(i < n && dg(s[i])) { ++i; ++e; } if(!e) return false; }
    return i == n;
}
#if MC_IN_PART(0)
SECTION(decimal_language, 8)
{
    const std::string al = "0159.eE+-,"; size_t hi = mc::thorough() ? 6 : 5;
    mc::bound(mc::fmt("every string of length 1..%zu over \"%s\" not starting with + : accepted iff a complete decimal numeral, with the C library's value", hi, al.c_str()));
    for(char c : al) for(char d : al)
    {
        if(c == '+') continue;
        if(!mc::mine()) continue;
        std::string one(1, c);
        both<double>(one, dec_numeral(one)); both<float>(one, dec_numeral(one));
        mc::all_strings(al, 0, hi - 2, [&](std::string const& t) { std::string s = one + d + t; bool ok = dec_numeral(s); both<double>(s, ok); both<float>(s, ok); });
    }
    mc::sample("\"-.5e-1\"");
}
SECTION(hex_language, 8)
{
    const std::string al = "019aF.pP+-xg"; size_t hi = mc::thorough() ? 5 : 4;
    mc::bound(mc::fmt("0x / -0X / +0x followed by every string of length 0..%zu over \"%s\": accepted iff a complete hexadecimal numeral, with the exact value", hi, al.c_str()));
    for(const char *h : {"0x", "-0X", "+0x", "0X", "-0x"}) for(char c : al)
    {
        if(!mc::mine()) continue;
        if(c == al[0]) { both<double>(h, false); both<float>(h, false); }
        mc::all_strings(al, 0, hi - 1, [&](std::string const& t) { std::string s = std::string(h) + c + t; bool ok = hex_numeral(s); both<double>(s, ok); both<float>(s, ok); });
    }
    mc::sample("\"-0X1.8p+1\", \"0x.p1\"");
}
SECTION(hex_values, 8)
{
    mc::bound("every hexadecimal digit in every integer and fraction position (4+4), every exponent -1080..1030 (double) and -160..130 (float), upper and lower case, and every byte as corruption");
    const std::string dl = "0123456789abcdefABCDEF";
    for(char c : dl) for(int pos = 0; pos < 8; ++pos)
    {
        if(!mc::mine()) continue;
        std::string ip = "1020", fp = "0301";
        if(pos < 4) ip[(size_t)pos] = c; else fp[(size_t)pos - 4] = c;
        for(const char *sg : {"", "-", "+"}) for(const char *ex : {"", "p+0", "p-3", "P+12", "p5"}) { std::string s = std::string(sg) + "0x" + ip + "." + fp + ex; both<double>(s, true); double dd = strtod(s.c_str(), nullptr); if((float)dd == dd) both<float>(s, true); }
    }
    for(int e = -1080; e <= 1030; ++e)
    {
        if(!mc::mine()) continue;
        for(const char *m : {"0x1p", "0x1.8p", "-0x1.fffffep", "0x1000p", "0x0.0001p", "0xc.4P", "0x1.fffffffffffffp"})
        {
            bool big = std::string(m).size() > 16;
            std::string s = m; s += e < 0 ? "-" : "+"; s += std::to_string(e < 0 ? -e : e);
            // exactly representable values only: rounding of hexadecimal reals is not specified
            double d = strtod(s.c_str(), nullptr); long double ld = strtold(s.c_str(), nullptr);
            if((long double)d == ld && !std::isinf(d) && d != 0) read_ok<double>(s);
            float f = strtof(s.c_str(), nullptr);
            if(!big && (long double)f == ld && !std::isinf(f) && f != 0) read_ok<float>(s);
        }
    }
    for(const char *base : {"0x1.8p+1", "-0xab", "0x.4P-10"}) for(size_t i = 0; i < strlen(base); ++i)
    {
        if(!mc::mine()) continue;
        for(int c = 0; c < 256; ++c)
        {
            std::string s = base; s[i] = (char)c;
            bool ok = hex_numeral(s); size_t z = s.find('0'); size_t sgl = s.size() && (s[0] == '-' || s[0] == '+');
            bool hexform = s.size() >= sgl + 2 && s[sgl] == '0' && (s[sgl + 1] == 'x' || s[sgl + 1] == 'X'); (void)z;
            if(!hexform) continue; // the prefix itself was hit
            if(ok) { double d = strtod(s.c_str(), nullptr); if((float)d == d) { both<double>(s, true); both<float>(s, true); } }
            else { both<double>(s, false); both<float>(s, false); }
        }
    }
    mc::sample("\"0x1020.03f1P+12\"");
}
SECTION(decimal_values, 8)
{
    int step = mc::thorough() ? 1 : 7;
    mc::bound(mc::fmt("mantissas 1..999 (step %d) and 16..20-digit boundary mantissas x exponents -345..310, several spellings", step));
    std::vector<std::string> m;
    for(int i = 1; i <= 999; i += step) m.push_back(std::to_string(i));
    for(const char *s : {"9007199254740991", "9007199254740992", "9007199254740993", "9007199254740995", "16777217", "16777219", "33554433", "1844674407370955161", "18446744073709551615", "18446744073709551616", "99999999999999999999", "123456789012345678901234567890", "2225073858507201", "22250738585072014", "17976931348623157", "34028235", "11754944", "14012984"}) m.push_back(s);
    for(int e = -345; e <= 310; ++e)
    {
        if(!mc::mine()) continue;
        for(auto const& s : m)
        {
            std::string es = std::to_string(e);
            read_ok<double>(s + "e" + es);
            if(e > -70 && e < 42) read_ok<float>(s + "E" + es);
            if(s.size() > 1 && (e & 3) == 0) { std::string t = "-" + s.substr(0, 1) + "." + s.substr(1) + "e" + (e >= 0 ? "+0" + es : "-0" + es.substr(1)); read_ok<double>(t); if(e > -70 && e < 42) read_ok<float>(t); }
            if((e & 7) == 0) { read_ok<double>("000" + s + "." + "000e" + es); read_ok<double>("." + s + "e" + es); }
        }
    }
    mc::sample("\"9007199254740993e-5\"");
}
template<class T> static void halfway(T v, int mantbits)
{
    // the exact decimal expansion of the midpoint to the next value, and its neighbours
    T nx = std::nextafter(v, std::numeric_limits<T>::infinity());
    if(std::isinf(nx) || v == 0) return;
    long double mid = ((long double)v + (long double)nx) / 2;
    char buf[1400];
    int n = snprintf(buf, sizeof buf, "%.*Le", sizeof(T) == 8 ? 800 : 160, mid); (void)n; (void)mantbits;
    std::string s = buf; size_t e = s.find('e'); std::string m = s.substr(0, e), x = s.substr(e);
    while(m.size() > 3 && m.back() == '0') m.pop_back();
    read_ok<T>(m + x);
    read_ok<T>(m + "0000000001" + x);
    std::string lo = m; if(lo.back() > '0') { lo.back()--; lo += "9999"; read_ok<T>(lo + x); }
    for(size_t cut : {17u, 18u, 19u, 20u, 21u, 22u, 40u}) if(m.size() > cut + 1) read_ok<T>(m.substr(0, cut + 1) + x);
}
SECTION(halfway_cases, 8)
{
    mc::bound("exact midpoints between adjacent values, their neighbours and truncations: every exponent x 6 mantissas, double and float");
    for(int e = 0; e < 2047; e += (mc::thorough() ? 1 : 3))
    {
        if(!mc::mine()) continue;
        for(uint64_t m : {0ull, 1ull, 0xfffffffffffffull, 0x8000000000000ull, 0x5555555555555ull, 0x123456789abcdull}) halfway<double>(from_bits<double>(((uint64_t)e << 52) | m), 53);
    }
    for(int e = 0; e < 255; ++e)
    {
        if(!mc::mine()) continue;
        for(uint32_t m : {0u, 1u, 0x7fffffu, 0x400000u, 0x2aaaaau, 0x123456u}) halfway<float>(from_bits<float>(((uint32_t)e << 23) | m), 24);
    }
    mc::sample("1 + 2^-53 written in full");
}
SECTION(long_numerals, 8)
{
    mc::bound("numerals of up to 5000 characters: zeros in front, behind, after the point, long mantissas with the deciding digit at the end; value and rejection of a bad last character");
    const std::vector<std::string> ms = {"1", "9007199254740993", "17976931348623157", "5", "49406564584124654", "16777217", "123456789012345678901"};
    for(size_t n : mc::lens(1, 64, {1, 2, 5, 10, 19, 20, 21, 30, 50, 64, 100, 127, 128, 200, 255, 256, 257, 300, 308, 323, 400, 512, 700, 766, 767, 768, 769, 770, 800, 1024, 1100, 2000, 5000})) for(auto const& m : ms)
    {
        if(!mc::mine()) continue;
        std::string z(n, '0'), N = std::to_string(n), nin(n, '9'), o(n, '1');
        for(const char *sg : {"", "-"}) for(bool f : {false, true})
        {
            auto go = [&](std::string const& x) { if(f) read_ok<float>(sg + x); else read_ok<double>(sg + x); };
            go(z + m); go(z + m + "." + z); go(m + "." + z + "1"); go(m + z + "e-" + N); go("0." + z + m + "e+" + N); go("." + z + m + "e" + N); go(m + "e" + z + "1"); go(m + "e-" + z + "1");
            go(m + z + "." + z + "1e-" + N); go("0." + nin); go("0." + o); go("1." + nin); go(nin + "e-" + N); go(o + "e-" + N); go(o + "." + o + "e-" + N);
            go(z + m + z + "1e-" + std::to_string(n + 1)); go(z + "." + z); go(z + "." + z + "e" + N);
            if(n + m.size() < (f ? 38 : 300)) go(m + z);
            if(n > 1) { if(f) { read_bad<float>(sg + m + z + "x"); read_bad<float>(sg + m + "." + z + "."); } else { read_bad<double>(sg + m + z + "x"); read_bad<double>(sg + m + "." + z + "."); read_bad<double>(sg + m + "." + z + "e"); read_bad<double>(sg + m + "." + z + " "); } }
        }
    }
    // the midpoint with the deciding digit arbitrarily far away
    for(const char *mid : {"9007199254740993", "1.00000000000000011102230246251565404236316680908203125", "4503599627370496.5", "16777217", "1.000000059604644775390625"})
        for(size_t n : mc::lens(0, 40, {0, 1, 10, 100, 255, 256, 257, 700, 750, 768, 800, 1500, 5000}))
        {
            if(!mc::mine()) continue;
            std::string s = mid; if(s.find('.') == std::string::npos) s += ".";
            for(const char *last : {"", "1", "5", "9"}) for(const char *e : {"", "e0", "e+20", "e-20"}) { read_ok<double>(s + std::string(n, '0') + last + e); read_ok<float>(s + std::string(n, '0') + last + e); }
        }
    mc::sample("9007199254740993. + 5000 zeros + 1");
}
SECTION(words, 1)
{
    mc::bound("inf, infinity, nan with and without minus");
    for(const char *s : {"inf", "-inf", "infinity", "-infinity", "nan", "-nan"}) { read_ok<double>(s); read_ok<float>(s); }
    for(const char *s : {"in", "-in", "infi", "infinit", "infinityx", "na", "-na", "nanx", "i", "n", "-", "infx", "1inf", "1nan", ".inf", ".nan"}) { read_bad<double>(s); read_bad<float>(s); }
    mc::sample("\"-infinity\"");
}
#endif

// ------------------------------------------------------------------ writing
template<class T> static std::vector<T> rfamily(bool big)
{
    std::vector<T> r; using U = typename Bits<T>::U; const int M = Bits<T>::mant; const U mm = ((U)1 << M) - 1;
    for(int i = 0; i <= 2000; ++i) { r.push_back((T)i); r.push_back(-(T)i); r.push_back((T)i / 8); r.push_back((T)i / 10); r.push_back((T)i / 1000); r.push_back((T)i * 1000); }
    std::vector<U> ms = {0, 1, mm, mm - 1, (U)((U)1 << (M - 1)), (U)(mm / 3), (U)(mm / 5)};
    if(big) for(int b = 0; b < M; ++b) { ms.push_back((U)1 << b); ms.push_back(mm ^ ((U)1 << b)); ms.push_back(((U)1 << b) - 1); }
    const int est = big ? 1 : (sizeof(T) == 8 ? 5 : 1);
    for(int e = 0; e < Bits<T>::exps - 1; ++e) { if(e > 4 && e < Bits<T>::exps - 6 && e % est && !(e > Bits<T>::exps / 2 - 30 && e < Bits<T>::exps / 2 + 30)) continue; for(U m : ms) { T v = from_bits<T>(((U)e << M) | m); r.push_back(v); if(m & 1) r.push_back(-v); } }
    for(int k = -345; k <= 308; ++k) { char b[32]; snprintf(b, sizeof b, "1e%d", k); T v = ref_read(b, T()); if(std::isinf(v)) continue; r.push_back(v); r.push_back(std::nextafter(v, (T)0)); r.push_back(std::nextafter(v, std::numeric_limits<T>::infinity())); }
    r.push_back((T)-0.0); r.push_back(std::numeric_limits<T>::infinity()); r.push_back(-std::numeric_limits<T>::infinity());
    return r;
}
static size_t wr(int k, substr b, double v) { return k == 0 ? c4::dtoa(b, v) : k == 1 ? c4::xtoa(b, v) : c4::to_chars(b, v); }
static size_t wr(int k, substr b, float v) { return k == 0 ? c4::ftoa(b, v) : k == 1 ? c4::xtoa(b, v) : c4::to_chars(b, v); }
static size_t wrp(int k, substr b, double v, int p, c4::RealFormat_e f) { return k == 0 ? c4::dtoa(b, v, p, f) : k == 1 ? c4::xtoa(b, v, p, f) : c4::to_chars(b, c4::fmt::real(v, p, f)); }
static size_t wrp(int k, substr b, float v, int p, c4::RealFormat_e f) { return k == 0 ? c4::ftoa(b, v, p, f) : k == 1 ? c4::xtoa(b, v, p, f) : c4::to_chars(b, c4::fmt::real(v, p, f)); }

template<class T> static void roundtrip(T v)
{
    mc::S();
    auto D = [&](std::string &d) { d = mc::fmt("%s %.17g (bits %llx) round trip", nm<T>(), (double)v, (mc::u64)to_bits(v)); };
    mc::run_case(D, [&] {
        mc::Buf b(1200);
        auto back = [&](const char *what, size_t n) {
            mc::T();
            if(n > b.n) { mc::violation("%s needs %zu characters", what, n); return; }
            std::string s(b.p, n);
            T r = ref_read(s.c_str(), T());
            MC_CHECK(same(r, v), "%s wrote %s, which is %.17g", what, mc::q(s).c_str(), (double)r);
            mc::Buf in(s); T c = T(77); mc::T();
            bool ok = c4::from_chars(csubstr(in.p, in.n), &c);
            MC_CHECK(ok && same(c, v), "%s wrote %s, read back ok=%d as %.17g", what, mc::q(s).c_str(), ok, (double)c);
        };
        substr d(b.p, b.n);
        #if CPP17
        for(int k = 0; k < 3; ++k) back("default", wr(k, d, v));
        for(auto f : {c4::FTOA_FLEX, c4::FTOA_SCIENT, c4::FTOA_FLOAT}) back("shortest in a given format", wrp(0, d, v, -1, f));
        #endif
        const int dig = std::numeric_limits<T>::max_digits10;
        back("flex, max_digits10", wrp(0, d, v, dig, c4::FTOA_FLEX));
        back("scientific, max_digits10-1", wrp(1, d, v, dig - 1, c4::FTOA_SCIENT));
        back("hexadecimal", wrp(2, d, v, -1, c4::FTOA_HEXA));
        back("hexadecimal, 13 digits", wrp(0, d, v, sizeof(T) == 8 ? 13 : 7, c4::FTOA_HEXA));
        mc::V();
    });
}
template<class T> static void precision(T v, std::vector<int> const& precs)
{
    for(int p : precs) for(int k = 0; k < 3; ++k)
    {
        mc::S();
        auto D = [&](std::string &d) { d = mc::fmt("%s %.17g (bits %llx) precision %d writer %d", nm<T>(), (double)v, (mc::u64)to_bits(v), p, k); };
        mc::run_case(D, [&] {
            char ref[1600]; mc::Buf b(1600);
            struct { c4::RealFormat_e f; const char *s; const char *n; } fs[] = {{c4::FTOA_FLOAT, "%.*f", "float"}, {c4::FTOA_SCIENT, "%.*e", "scientific"}, {c4::FTOA_FLEX, "%.*g", "flex"}, {c4::FTOA_HEXA, "%.*a", "hexadecimal"}};
            for(auto &f : fs)
            {
                if(f.f == c4::FTOA_HEXA && std::fpclassify(v) == FP_SUBNORMAL) continue; // not one normal form
                int n = snprintf(ref, sizeof ref, f.s, p, (double)v);
                b.fill();
                size_t got = wrp(k, substr(b.p, b.n), v, p, f.f); mc::T();
                MC_CHECK(got == (size_t)n && memcmp(b.p, ref, (size_t)n) == 0, "%s wrote %s, expected %s", f.n, mc::q(b.p, got < 200 ? got : 200).c_str(), mc::q(ref, n < 200 ? (size_t)n : 200).c_str());
            }
            mc::V();
        });
    }
}
template<class T> static void write_all()
{
    auto fam = rfamily<T>(mc::thorough());
    std::vector<int> few = {0, 1, 2, 6, 17}, all; for(int i = 0; i <= 24; ++i) all.push_back(i);
    mc::bound(mc::fmt("%s: %zu values; default and shortest round trips; precisions %s x 4 formats x 3 writers", nm<T>(), fam.size(), mc::thorough() ? "0..24" : "0,1,2,6,17 (0..24 on every 97th value)"));
    size_t i = 0;
    for(T v : fam) { ++i; if(!mc::mine()) continue; roundtrip(v); if(mc::thorough() || i % 97 == 0) precision(v, all); else if(i % 3 == 0) precision(v, few); }
    mc::sample("values at every exponent, negative zero, infinities, subnormals");
}
#if MC_IN_PART(1)
SECTION(write_double, 8) { write_all<double>(); }
SECTION(write_float, 8) { write_all<float>(); }
#if CPP17
SECTION(float_sweep, 8)
{
    // thorough: all 2^32 floats; quick: top and bottom mantissa bits exhaustively at every exponent
    mc::bound(mc::thorough() ? "all 2^32 single-precision bit patterns: default writing, then reading" : "all signs and exponents x all patterns of the 5 top and 4 bottom mantissa bits: default writing, then reading");
    static char buf[64];
    uint32_t u = 0;
    auto D = [&](std::string &d) { d = mc::fmt("float bits %08x", u); };
    auto one = [&](uint32_t bits) {
        u = bits; float v = from_bits<float>(bits); if(v != v) return;
        size_t n = c4::to_chars(substr(buf, sizeof buf), v); float c = 77; bool ok = n <= sizeof buf && c4::from_chars(csubstr(buf, n), &c);
        mc::T(2); mc::S(); mc::V();
        if(__builtin_expect(!ok || to_bits(c) != bits, 0)) mc::violation("wrote %s, read back ok=%d as %.9g", mc::q(buf, n < 60 ? n : 60).c_str(), ok, (double)c);
    };
    for(uint32_t hi = 0; hi < 512; ++hi)
    {
        if(!mc::mine()) continue;
        mc::run_case(D, [&] {
            if(mc::thorough()) for(uint32_t m = 0; m < (1u << 23); ++m) one((hi << 23) | m);
            else for(uint32_t a = 0; a < 32; ++a) for(uint32_t b = 0; b < 16; ++b) for(uint32_t mid : {0u, 0x3fffu << 4, 0x1555u << 4}) one((hi << 23) | (a << 18) | mid | b);
        });
    }
    mc::sample("0x00000001 (smallest subnormal)");
}
#endif
#endif
MC_MAIN
