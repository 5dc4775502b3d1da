// C03 (integer readers) and, with -DC04, the overflow queries, against a positional-value reference
#include "ints.hpp"
using namespace ints;
using c4::csubstr;

// ------------------------------------------------------------------ the readers, type erased
using Fn = bool (*)(csubstr, uint64_t*);
struct Ty { const char *nm; int bits; bool sgn; std::vector<std::pair<const char*, Fn>> full, plain[4], chk; bool (*ovf)(csubstr); };
static const int kRadix[4] = {10, 16, 8, 2};

template<class T> struct R
{
    using Sg = std::integral_constant<bool, std::is_signed<T>::value>;
    static bool named(csubstr s, T *v, std::true_type) { return c4::atoi(s, v); }
    static bool named(csubstr s, T *v, std::false_type) { return c4::atou(s, v); }
    static bool named_(csubstr s, uint64_t *o) { T v = T(77); bool r = named(s, &v, Sg()); *o = (uint64_t)v; return r; }
    static bool atox_(csubstr s, uint64_t *o) { T v = T(77); bool r = c4::atox(s, &v); *o = (uint64_t)v; return r; }
    static bool from_(csubstr s, uint64_t *o) { T v = T(77); bool r = c4::from_chars(s, &v); *o = (uint64_t)v; return r; }
    static bool dec_(csubstr s, uint64_t *o) { T v = T(77); bool r = c4::read_dec(s, &v); *o = (uint64_t)v; return r; }
    static bool hex_(csubstr s, uint64_t *o) { T v = T(77); bool r = c4::read_hex(s, &v); *o = (uint64_t)v; return r; }
    static bool oct_(csubstr s, uint64_t *o) { T v = T(77); bool r = c4::read_oct(s, &v); *o = (uint64_t)v; return r; }
    static bool bin_(csubstr s, uint64_t *o) { T v = T(77); bool r = c4::read_bin(s, &v); *o = (uint64_t)v; return r; }
    static bool chk_(csubstr s, uint64_t *o) { T v = T(77); bool r = c4::from_chars(s, c4::fmt::overflow_checked(v)); *o = (uint64_t)v; return r; }
    static bool chkp_(csubstr s, uint64_t *o) { T v = T(77); auto w = c4::fmt::overflow_checked(v); bool r = c4::from_chars(s, &w); *o = (uint64_t)v; return r; }
    static bool ovf_(csubstr s) { return c4::overflows<T>(s); }
    static Ty get()
    {
        Ty t; t.nm = name<T>::get(); t.bits = 8 * sizeof(T); t.sgn = std::is_signed<T>::value;
        #ifdef C04
        t.chk = {{"overflow_checked", &chk_}, {"overflow_checked*", &chkp_}};
        t.ovf = &ovf_;
        #else
        t.full = {{t.sgn ? "atoi" : "atou", &named_}, {"atox", &atox_}, {"from_chars", &from_}};
        t.plain[0] = {{"read_dec", &dec_}}; t.plain[1] = {{"read_hex", &hex_}}; t.plain[2] = {{"read_oct", &oct_}}; t.plain[3] = {{"read_bin", &bin_}};
        t.ovf = nullptr;
        #endif
        return t;
    }
};
#ifndef C04
static bool ptr_atox(csubstr s, uint64_t *o) { int *p = nullptr; bool r = c4::atox(s, &p); *o = (uint64_t)(uintptr_t)p; return r; }
static bool ptr_from(csubstr s, uint64_t *o) { void *p = nullptr; bool r = c4::from_chars(s, &p); *o = (uint64_t)(uintptr_t)p; return r; }
#endif
static std::vector<Ty> const& types()
{
    static std::vector<Ty> v = [] {
        std::vector<Ty> r;
        r.push_back(R<int8_t>::get()); r.push_back(R<uint8_t>::get()); r.push_back(R<int16_t>::get()); r.push_back(R<uint16_t>::get());
        r.push_back(R<int32_t>::get()); r.push_back(R<uint32_t>::get()); r.push_back(R<int64_t>::get()); r.push_back(R<uint64_t>::get());
        r.push_back(R<long long>::get()); r.push_back(R<unsigned long long>::get());
        #ifndef C04
        Ty p; p.nm = "pointer"; p.bits = 64; p.sgn = true; p.ovf = nullptr; p.full = {{"atox", &ptr_atox}, {"from_chars", &ptr_from}};
        r.push_back(p);
        #endif
        return r;
    }();
    return v;
}
static inline uint64_t trunc_to(uint64_t bits, Ty const& t)
{
    if(t.bits == 64) return bits;
    uint64_t m = bits & (((uint64_t)1 << t.bits) - 1);
    if(t.sgn && (m >> (t.bits - 1))) m |= ~(((uint64_t)1 << t.bits) - 1);
    return m;
}
static bool is_overflow(RefNum const& r, Ty const& t)
{
    if(!t.sgn) return r.mag > (((u128)1 << t.bits) - 1);
    if(r.neg) return r.mag > ((u128)1 << (t.bits - 1));
    return r.mag > (((u128)1 << (t.bits - 1)) - 1);
}

#ifndef NDEBUG
enum { kAsserts = 1 };
#else
enum { kAsserts = 0 };
#endif
static const bool kCheckedBuild = kAsserts;

static void input(const char *p, size_t n, int onlybits = 0)
{
    static const Ty *cur; static const char *curfn; static const char *cp; static size_t cn;
    cp = p; cn = n; cur = nullptr; curfn = "";
    mc::S();
    auto D = [&](std::string &s) { s = mc::fmt("%s %s(%s)", cur ? cur->nm : "", curfn, mc::q(cp, cn).c_str()); };
    mc::run_case(D, [&] {
        RefNum rs = ref_parse(p, n, true), ru = ref_parse(p, n, false);
        const bool plus = n && p[0] == '+';
        csubstr str(p, n);
        for(Ty const& t : types())
        {
            cur = &t;
            if(onlybits && onlybits != t.bits) continue;
            if(plus && t.sgn && kCheckedBuild) continue; // a leading + is a documented precondition, asserted in checked builds
            RefNum const& r = t.sgn ? rs : ru;
            uint64_t v = 0;
            for(auto const& f : t.full)
            {
                curfn = f.first; mc::T();
                bool ok = f.second(str, &v);
                MC_CHECK(ok == r.ok, "returned %d, expected %d", ok, r.ok);
                if(ok && r.ok) MC_CHECK(v == trunc_to(r.mod, t), "value bits %llx, expected %llx", (mc::u64)v, (mc::u64)trunc_to(r.mod, t));
            }
            if(n) for(int k = 0; k < 4; ++k) for(auto const& f : t.plain[k])
            {
                curfn = f.first; mc::T();
                RefNum rp = ref_plain(p, n, kRadix[k]);
                bool ok = f.second(str, &v);
                MC_CHECK(ok == rp.ok, "returned %d, expected %d", ok, rp.ok);
                if(ok && rp.ok) MC_CHECK(v == trunc_to(rp.mod, t), "value bits %llx, expected %llx", (mc::u64)v, (mc::u64)trunc_to(rp.mod, t));
            }
            #ifdef C04
            const bool o = r.ok && is_overflow(r, t);
            if(r.ok)
            {
                curfn = "overflows"; mc::T();
                bool got = t.ovf(str);
                MC_CHECK(got == o, "returned %d, expected %d", got, o);
            }
            for(auto const& f : t.chk)
            {
                curfn = f.first; mc::T();
                bool ok = f.second(str, &v);
                MC_CHECK(ok == (r.ok && !o), "returned %d, expected %d", ok, (r.ok && !o));
                if(ok && r.ok && !o) MC_CHECK(v == trunc_to(r.mod, t), "value bits %llx, expected %llx", (mc::u64)v, (mc::u64)trunc_to(r.mod, t));
            }
            #endif
        }
        mc::V();
    });
}
// the text lives in a buffer of exactly its size
static void text(std::string const& s, int onlybits = 0) { mc::Buf b(s); input(b.p, b.n, onlybits); }

// ------------------------------------------------------------------ the input spaces
SECTION(all_byte_strings, 8)
{
    mc::bound("every byte string of length 0..2, and of length 3 starting with a sign or a digit zero");
    text("");
    for(int a = 0; a < 256; ++a)
    {
        if(!mc::mine()) continue;
        text(std::string(1, (char)a));
        for(int b = 0; b < 256; ++b)
        {
            char two[2] = {(char)a, (char)b};
            text(std::string(two, 2));
        }
    }
    for(char first : std::string("-0+"))
        for(int a = 0; a < 256; ++a)
        {
            if(!mc::mine()) continue;
            for(int b = 0; b < 256; ++b) { char t3[3] = {first, (char)a, (char)b}; text(std::string(t3, 3)); }
        }
    mc::sample("text \"-0\" into int8_t .. uint64_t through every reader");
}
SECTION(grammar_strings, 8)
{
    const std::string al = "-+01789abfgxXoOB_ A";
    size_t hi = mc::thorough() ? 5 : 4;
    mc::bound(mc::fmt("every string of length 3..%zu over \"%s\"", hi, al.c_str()));
    for(char c : al)
        for(char d : al)
        {
            if(!mc::mine()) continue;
            mc::all_strings(al, 1, hi - 2, [&](std::string const& s) { text(std::string(1, c) + d + s); });
        }
    mc::sample("strings like \"-0x1\", \"0b2\", \"00o7\"");
}
static std::vector<std::string> const& prefixes()
{
    static std::vector<std::string> v;
    if(v.empty()) for(const char *s : {"", "-", "--", "+", "-+", "+-"}) for(const char *p : {"", "0x", "0X", "0o", "0O", "0b", "0B", "0", "00", "00x", "x", "0x0x", "0d", "0-"}) v.push_back(std::string(s) + p);
    return v;
}
SECTION(prefixed, 8)
{
    const std::string al = "01289afgF";
    size_t hi = mc::thorough() ? 5 : 4;
    mc::bound(mc::fmt("%zu sign and prefix forms, followed by every string of length 0..%zu over \"%s\"", prefixes().size(), hi, al.c_str()));
    for(auto const& p : prefixes())
    {
        if(!mc::mine()) continue;
        mc::all_strings(al, 0, hi, [&](std::string const& s) { text(p + s); });
    }
    mc::sample("\"-0X\" + \"9f\"");
}
static std::string digits(u128 mag, int radix, bool upper)
{
    char b[200]; size_t n = ref_digits(b, mag, radix, 0);
    std::string s(b, n);
    if(upper) for(char &c : s) if(c >= 'a' && c <= 'f') c = (char)(c - 32);
    return s;
}
static std::string pfx(int radix, bool upper) { std::string s = prefix_of(radix); if(upper && s.size() > 1) s[1] = (char)(s[1] - 32); return s; }
static void all_forms(u128 mag, std::vector<int> const& zeros)
{
    for(int radix : {10, 16, 8, 2}) for(int up = 0; up < 2; ++up) for(int neg = 0; neg < 2; ++neg) for(int z : zeros)
        text(std::string(neg ? "-" : "") + pfx(radix, up) + std::string((size_t)z, '0') + digits(mag, radix, up));
}
SECTION(limits, 8)
{
    int e = mc::thorough() ? 2000 : 140;
    mc::bound(mc::fmt("magnitudes k*2^w+e, w in 7,8,15,16,31,32,63,64,65,66, k in 1,2,3,10, |e|<=%d, also 10^m+e; every radix, sign, letter case, 0/1/2/5/13 leading zeros", e));
    std::vector<u128> mags;
    for(int w : {0, 7, 8, 15, 16, 31, 32, 63, 64, 65, 66}) for(int k : {1, 2, 3, 10}) for(int d = -e; d <= e; ++d)
    {
        i128 m = (i128)(((u128)1 << w) * (unsigned)k) + d;
        if(m >= 0) mags.push_back((u128)m);
    }
    u128 p = 1;
    for(int m = 0; m < 24; ++m, p *= 10) for(int k = 1; k < 10; ++k) for(int d = -2; d <= 2; ++d) { i128 x = (i128)(p * (unsigned)k) + d; if(x >= 0) mags.push_back((u128)x); }
    std::sort(mags.begin(), mags.end()); mags.erase(std::unique(mags.begin(), mags.end()), mags.end());
    for(u128 m : mags) { if(!mc::mine()) continue; all_forms(m, {0, 1, 2, 5, 13}); }
    mc::sample("\"-0X00000080000000\", \"18446744073709551616\"");
}
// each limit with each digit replaced by each digit, dropped, doubled, appended; thorough: two digits replaced
SECTION(limit_mutations, 8)
{
    mc::bound("each type limit (min, max, max+1, unsigned max, +1) in every radix: every single digit replaced by every digit, dropped, or doubled; every digit appended; thorough: every pair of digits replaced");
    for(int w : {8, 16, 32, 64}) for(int which = 0; which < 4; ++which) for(int radix : {10, 16, 8, 2})
    {
        u128 m = which == 0 ? ((u128)1 << (w - 1)) - 1 : which == 1 ? ((u128)1 << (w - 1)) : which == 2 ? ((u128)1 << w) - 1 : ((u128)1 << w);
        std::string base = digits(m, radix, false);
        std::string dg = std::string("0123456789abcdef").substr(0, (size_t)radix);
        for(int neg = 0; neg < 2; ++neg) for(int z : {0, 1, 4})
        {
            if(!mc::mine()) continue;
            std::string head = std::string(neg ? "-" : "") + pfx(radix, false) + std::string((size_t)z, '0');
            for(size_t i = 0; i < base.size(); ++i)
            {
                for(char c : dg)
                {
                    std::string s = base; s[i] = c; text(head + s);
                    if(mc::thorough()) for(size_t j = i + 1; j < base.size(); ++j) for(char d2 : dg) { std::string s2 = s; s2[j] = d2; text(head + s2); }
                    s = base; s.insert(i, 1, c); text(head + s);
                }
                std::string s = base; s.erase(i, 1); text(head + s);
                // all digits from here on replaced by one digit
                for(char c : dg) { std::string t = base; for(size_t j = i; j < t.size(); ++j) t[j] = c; text(head + t); }
            }
            for(char c : dg) text(head + base + c);
        }
    }
    mc::sample("\"-9223372036854775808\" with position 7 set to 3");
}
SECTION(long_runs, 4)
{
    mc::bound("every digit of every radix repeated 1..90 times, with and without one other digit in front; 0..90 leading zeros; numerals of 91..70000 digits at selected lengths");
    for(int radix : {10, 16, 8, 2}) for(int up = 0; up < 2; ++up)
    {
        std::string dg = std::string(up ? "0123456789ABCDEF" : "0123456789abcdef").substr(0, (size_t)radix);
        for(char c : dg)
        {
            if(!mc::mine()) continue;
            for(size_t n = 1; n <= 90; ++n) for(int neg = 0; neg < 2; ++neg)
            {
                std::string h = std::string(neg ? "-" : "") + pfx(radix, up);
                text(h + std::string(n, c)); text(h + "1" + std::string(n, c));
                text(h + std::string(n, '0') + c); text(h + std::string(n, '0') + c + c + "1");
            }
        }
    }
    // beyond any fixed-size scratch area or narrow counter
    for(int radix : {10, 16, 8, 2}) for(int neg = 0; neg < 2; ++neg) for(size_t n : {91, 100, 127, 128, 129, 191, 192, 193, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 300, 511, 512, 513, 1000, 4096, 32768, 60000, 65533, 65536, 65540, 70000})
    {
        if(!mc::mine()) continue;
        std::string h = std::string(neg ? "-" : "") + pfx(radix, false), z(n, '0');
        for(int w : {0, 1, 7, 8, 15, 16, 31, 32, 63, 64}) for(int d = -1; d <= 1; ++d) { i128 m = (i128)((u128)1 << w) + d; text(h + z + digits((u128)m, radix, false)); if(d == 0) { text(h + digits((u128)m, radix, false) + z); text(h + z + digits((u128)m, radix, false) + "g"); text(h + z + digits((u128)m, radix, false) + " "); } }
        std::string dg = std::string("0123456789abcdef").substr(0, (size_t)radix);
        for(char c : dg) { text(h + std::string(n, c)); text(h + std::string(n, c) + "x"); text(h + "x" + std::string(n, c)); text(h + std::string(n / 2, c) + "." + std::string(n / 2, c)); }
        text(h + z); text(z); text(std::string("-") + z);
    }
    mc::sample("\"0x\" + 90 times f");
}
SECTION(corruptions, 8)
{
    mc::bound("12 numerals: every position replaced by, and every gap filled with, every byte value");
    for(const char *s : {"0", "-1", "127", "-128", "0x7f", "-0x80", "0b1011", "0o377", "4294967295", "-9223372036854775808", "0XFFFFFFFFFFFFFFFF", "00012"})
    {
        std::string base = s;
        for(size_t i = 0; i <= base.size(); ++i)
        {
            if(!mc::mine()) continue;
            for(int c = 0; c < 256; ++c)
            {
                if(i < base.size()) { std::string t = base; t[i] = (char)c; text(t); }
                std::string t = base; t.insert(i, 1, (char)c); text(t);
            }
        }
    }
    mc::sample("\"-128\" with byte 0xb0 inserted at 2");
}
// every value of the small types, the families of the large ones, in every numeral form
SECTION(round_trip, 8)
{
    mc::bound("all 8/16-bit values and the 32/64-bit families written in every radix and read back");
    for(int v = 0; v <= 65536; ++v)
    {
        if(!mc::mine()) continue;
        for(int radix : {10, 16, 8, 2}) for(int neg = 0; neg < 2; ++neg)
        {
            std::string s = std::string(neg ? "-" : "") + pfx(radix, false) + digits((u128)v, radix, v & 1);
            if(v <= 260) text(s, 8);
            text(s, 16);
        }
    }
    auto run = [&](std::vector<uint64_t> const& fam, int bits) {
        for(uint64_t m : fam)
        {
            if(!mc::mine()) continue;
            for(int radix : {10, 16, 8, 2}) for(int neg = 0; neg < 2; ++neg) text(std::string(neg ? "-" : "") + pfx(radix, false) + digits(m, radix, m & 1), bits);
        }
    };
    std::vector<uint64_t> f; for(uint32_t x : family<uint32_t>(mc::thorough())) f.push_back(x);
    run(f, 32);
    run(family<uint64_t>(mc::thorough()), 64);
    mc::sample("all 65536 16-bit magnitudes, both signs, four radices");
}

#ifndef C04
// characters and booleans
SECTION(bool_and_char, 4)
{
    mc::bound("bool: every string of length 0..5 over the letters of the words and digits, every one-byte edit of each word, every numeral next to a power of two in every radix; char: every byte string of length 0..2");
    auto ref_bool = [](std::string const& s, bool *v) -> bool {
        for(const char *w : {"false", "False", "FALSE"}) if(s == w) { *v = false; return true; }
        for(const char *w : {"true", "True", "TRUE"}) if(s == w) { *v = true; return true; }
        RefNum r = ref_parse(s.data(), s.size(), true);
        if(r.ok) *v = (uint32_t)r.mod != 0;
        return r.ok;
    };
    auto one = [&](std::string const& s) {
        if(kCheckedBuild && s.size() && s[0] == '+') return;
        mc::Buf b(s); mc::S();
        MC_CASE("bool from " + mc::q(s), {
            bool v = false; bool e = false;
            bool ok = c4::from_chars(csubstr(b.p, b.n), &v); mc::T();
            bool rok = ref_bool(s, &e);
            MC_CHECK(ok == rok, "returned %d, expected %d", ok, rok);
            if(ok && rok) MC_CHECK(v == e, "value %d, expected %d", v, e);
            v = true; ok = c4::from_chars(csubstr(b.p, b.n), &v); mc::T();
            if(ok && rok) MC_CHECK(v == e, "value %d, expected %d", v, e);
            mc::V();
        });
    };
    const std::string al = "tTrRuUeEfFaAlLsS01";
    for(char c : al) for(char d : al) { if(!mc::mine()) continue; one(std::string(1, c)); mc::all_strings(al, 0, 2, [&](std::string const& s) { one(std::string(1, c) + d + s); }); }
    if(mc::mine()) one("");
    for(const char *w : {"false", "False", "FALSE", "true", "True", "TRUE", "0", "1", "-1", "2", "0x10", "4294967296", "-4294967296"})
    {
        std::string base = w;
        for(size_t i = 0; i <= base.size(); ++i)
        {
            if(!mc::mine()) continue;
            for(int c = 0; c < 256; ++c)
            {
                if(i < base.size()) { std::string t = base; t[i] = (char)c; one(t); }
                std::string t = base; t.insert(i, 1, (char)c); one(t);
            }
            if(i < base.size()) { std::string t = base; t.erase(i, 1); one(t); }
        }
        one(base);
    }
    for(int k = 0; k < 64; ++k) for(int d = -1; d < 2; ++d) for(int neg = 0; neg < 2; ++neg)
    {
        if(!mc::mine()) continue;
        unsigned long long x = (1ull << k) + (unsigned long long)d; std::string sg = neg ? "-" : "", bin, oct;
        for(unsigned long long y = x; y; y >>= 1) bin.insert(bin.begin(), (char)('0' + (y & 1)));
        for(unsigned long long y = x; y; y >>= 3) oct.insert(oct.begin(), (char)('0' + (y & 7)));
        one(sg + std::to_string(x)); one(sg + mc::fmt("0x%llx", x)); one(sg + mc::fmt("0X%llX", x)); one(sg + "0o" + (oct.empty() ? "0" : oct)); one(sg + "0b" + (bin.empty() ? "0" : bin)); one(sg + "000" + std::to_string(x));
    }
    for(int a = 0; a < 256; ++a)
    {
        if(!mc::mine()) continue;
        for(int n = 0; n < 4; ++n)
        {
            std::string s((size_t)n, (char)a); mc::Buf b(s); mc::S();
            MC_CASE("char from " + mc::q(s), {
                char v = '#'; bool ok = c4::from_chars(csubstr(b.p, b.n), &v); mc::T();
                MC_CHECK(ok == (n == 1), "returned %d", ok);
                if(ok) MC_CHECK(v == (char)a, "value %d", v);
                mc::V();
            });
        }
    }
    mc::sample("\"Tru\\x65\", \"TRUe\", \"10\"");
}
#endif
MC_MAIN
