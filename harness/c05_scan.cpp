// C05: number scanning in running text, and the read-first-value functions
#include "ints.hpp"
#include <cmath>
using namespace ints;
using c4::csubstr; using c4::substr;

// ------------------------------------------------------------------ reference grammar
static bool is_blank(char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t'; }
static bool is_delim(char c) { return is_blank(c) || c == ']' || c == ')' || c == '}' || c == ',' || c == ';' || c == '\0'; }
static bool dig(char c, int radix) { return digit_of(c) < radix; }
enum Kind { UINT, INT, REAL };

// does the whole of s[0,n) form a number of this kind?
static bool whole(const char *s, size_t n, Kind k)
{
    size_t i = 0;
    if(i < n && (s[i] == '+' || (s[i] == '-' && k != UINT))) ++i;
    int radix = 10;
    if(n - i >= 2 && s[i] == '0')
    {
        char c = s[i + 1];
        if(c == 'x' || c == 'X') radix = 16; else if(c == 'b' || c == 'B') radix = 2; else if(c == 'o' || c == 'O') radix = 8;
        if(radix != 10) i += 2;
    }
    if(k == REAL && radix == 10)
    {
        std::string w(s + i, n - i);
        if(w == "inf" || w == "infinity" || w == "nan") return true;
    }
    size_t digits = 0;
    while(i < n && dig(s[i], radix)) { ++i; ++digits; }
    if(k != REAL) return digits > 0 && i == n;
    if(i < n && s[i] == '.') { ++i; while(i < n && dig(s[i], radix)) { ++i; ++digits; } }
    if(digits == 0) return false;
    if(i == n) return true;
    if(radix == 10 ? (s[i] == 'e' || s[i] == 'E') : (s[i] == 'p' || s[i] == 'P'))
    {
        ++i;
        bool sign = i < n && (s[i] == '+' || s[i] == '-');
        if(sign) ++i;
        if(radix != 10 && !sign) return false; // the power of a non-decimal real carries a sign
        size_t e = 0;
        while(i < n && dig(s[i], 10)) { ++i; ++e; }
        return e > 0 && i == n;
    }
    return false;
}
struct Span { size_t pos, len; };
static Span ref_span(const char *s, size_t n, Kind k)
{
    size_t b = 0;
    while(b < n && is_blank(s[b])) ++b;
    for(size_t e = n; e > b; --e) // the longest
        if((e == n || is_delim(s[e])) && whole(s + b, e - b, k)) return Span{b, e - b};
    return Span{b, 0};
}
static Span ref_nonempty(const char *s, size_t n)
{
    size_t b = 0; while(b < n && is_blank(s[b])) ++b;
    size_t e = b; while(e < n && !is_blank(s[e])) ++e;
    return Span{b, e - b};
}

// ------------------------------------------------------------------ code under test, type erased
struct IF { const char *nm; int bits; bool sgn; size_t (*f)(csubstr, uint64_t*); };
template<class T> static size_t fn_named(csubstr s, T *v, std::true_type) { return c4::atoi_first(s, v); }
template<class T> static size_t fn_named(csubstr s, T *v, std::false_type) { return c4::atou_first(s, v); }
template<class T> static size_t named_first(csubstr s, uint64_t *o) { T v = T(77); size_t r = fn_named(s, &v, std::integral_constant<bool, std::is_signed<T>::value>()); *o = (uint64_t)v; return r; }
template<class T> static size_t chars_first(csubstr s, uint64_t *o) { T v = T(77); size_t r = c4::from_chars_first(s, &v); *o = (uint64_t)v; return r; }
static size_t ptr_first(csubstr s, uint64_t *o) { int *p = nullptr; size_t r = c4::from_chars_first(s, &p); *o = (uint64_t)(uintptr_t)p; return r; }
#define E_(t) {#t " named_first", 8 * sizeof(t), std::is_signed<t>::value, &named_first<t>}, {#t " from_chars_first", 8 * sizeof(t), std::is_signed<t>::value, &chars_first<t>},
static const IF intfns[] = { E_(int8_t) E_(uint8_t) E_(int16_t) E_(uint16_t) E_(int32_t) E_(uint32_t) E_(int64_t) E_(uint64_t) E_(long long) E_(unsigned long long) {"pointer from_chars_first", 64, true, &ptr_first} };
static uint64_t trunc_bits(uint64_t b, int bits, bool sgn)
{
    if(bits == 64) return b;
    uint64_t m = b & (((uint64_t)1 << bits) - 1);
    if(sgn && (m >> (bits - 1))) m |= ~(((uint64_t)1 << bits) - 1);
    return m;
}
#ifdef NDEBUG
static const bool kAsserts = false;
#else
static const bool kAsserts = true;
#endif

static const char *g_what = "";
static void span_is(const char *what, csubstr got, const char *p, Span e)
{
    mc::T(); g_what = what;
    if(got.len != e.len) { mc::violation("%s has length %zu, expected %zu (at %zu)", what, got.len, e.len, e.pos); return; }
    if(e.len) MC_CHECK(got.str == p + e.pos, "%s starts at %ld, expected %zu", what, (long)(got.str - p), e.pos);
}
static bool same_real(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
static bool same_real(float a, float b) { return memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }

static void text(std::string const& in)
{
    mc::Buf b(in); const char *p = b.p; const size_t n = b.n;
    mc::S(); g_what = "";
    auto D = [&](std::string &s) { s = mc::fmt("text %s %s", mc::q(in).c_str(), g_what); };
    mc::run_case(D, [&] {
        csubstr s(p, n); const size_t npos = csubstr::npos;
        Span u = ref_span(p, n, UINT), i = ref_span(p, n, INT), r = ref_span(p, n, REAL), ne = ref_nonempty(p, n);
        span_is("first_non_empty_span", s.first_non_empty_span(), p, ne);
        span_is("first_uint_span", s.first_uint_span(), p, u);
        span_is("first_int_span", s.first_int_span(), p, i);
        span_is("first_real_span", s.first_real_span(), p, r);
        substr w(b.p, n);
        span_is("substr::first_int_span", w.first_int_span(), p, i);
        span_is("substr::first_real_span", w.first_real_span(), p, r);
        g_what = "is_*";
        bool wu = n && whole(p, n, UINT), wi = n && whole(p, n, INT), wr = n && whole(p, n, REAL);
        MC_CHECK(s.is_unsigned_integer() == wu, "is_unsigned_integer is %d", !wu);
        MC_CHECK(s.is_integer() == (wi || wu), "is_integer is %d", !wi);
        MC_CHECK(s.is_real() == wr, "is_real is %d", !wr);
        MC_CHECK(s.is_number() == (wr || wi || wu), "is_number wrong");
        mc::T(4);
        // integers
        RefNum us, is;
        auto num = [&](Span x) { const char *q = p + x.pos; size_t m = x.len; if(m && *q == '+') { ++q; --m; } return ref_parse(q, m, true); };
        if(u.len) us = num(u);
        if(i.len) is = num(i);
        for(IF const& f : intfns)
        {
            g_what = f.nm; mc::T();
            Span x = f.sgn ? i : u; RefNum const& ref = f.sgn ? is : us;
            uint64_t v = 0;
            size_t ret = f.f(s, &v);
            size_t eret = x.len ? x.pos + x.len : npos;
            MC_CHECK(ret == eret, "returned %zd, expected %zd", (ssize_t)ret, (ssize_t)eret);
            if(ret == eret && x.len) MC_CHECK(v == trunc_bits(ref.mod, f.bits, f.sgn), "value bits %llx, expected %llx", (mc::u64)v, (mc::u64)trunc_bits(ref.mod, f.bits, f.sgn));
        }
        // reals: the value is the one read from the piece alone, held in a buffer of its own
        {
            size_t plus = r.len && p[r.pos] == '+';
            std::string piece(p + r.pos + plus, r.len - plus);
            double dv = 77, de = 0; float fv = 77, fe = 0; bool dok = false, fok = false;
            if(r.len) { mc::Buf pb(piece); dok = c4::atod(csubstr(pb.p, pb.n), &de); fok = c4::atof(csubstr(pb.p, pb.n), &fe); }
            for(int k = 0; k < 2; ++k)
            {
                g_what = k ? "double from_chars_first" : "atod_first"; mc::T();
                dv = 77;
                size_t ret = k ? c4::from_chars_first(s, &dv) : c4::atod_first(s, &dv), eret = dok ? r.pos + r.len : npos;
                MC_CHECK(ret == eret, "returned %zd, expected %zd", (ssize_t)ret, (ssize_t)eret);
                if(dok && ret == eret) MC_CHECK(same_real(dv, de), "value %.17g, expected %.17g", dv, de);
                g_what = k ? "float from_chars_first" : "atof_first"; mc::T();
                fv = 77;
                ret = k ? c4::from_chars_first(s, &fv) : c4::atof_first(s, &fv); eret = fok ? r.pos + r.len : npos;
                MC_CHECK(ret == eret, "returned %zd, expected %zd", (ssize_t)ret, (ssize_t)eret);
                if(fok && ret == eret) MC_CHECK(same_real(fv, fe), "value %.9g, expected %.9g", fv, fe);
            }
        }
        // bool, char, strings
        if(!(kAsserts && ne.len && p[ne.pos] == '+'))
        {
            g_what = "bool from_chars_first"; mc::T();
            bool v = false, e = false; bool ok = false;
            if(ne.len) { mc::Buf pb(p + ne.pos, ne.len); ok = c4::from_chars(csubstr(pb.p, pb.n), &e); }
            size_t ret = c4::from_chars_first(s, &v), eret = ok ? ne.pos + ne.len : npos;
            MC_CHECK(ret == eret, "returned %zd, expected %zd", (ssize_t)ret, (ssize_t)eret);
            if(ok) MC_CHECK(v == e, "value %d", v);
        }
        {
            g_what = "char from_chars_first"; mc::T();
            char v = '#'; size_t ret = c4::from_chars_first(s, &v), eret = n ? 1 : npos;
            MC_CHECK(ret == eret, "returned %zd", (ssize_t)ret);
            if(n) MC_CHECK(v == p[0], "value %d", v);
        }
        {
            g_what = "csubstr from_chars_first"; mc::T();
            csubstr v; size_t ret = c4::from_chars_first(w, &v), eret = ne.len ? ne.pos + ne.len : npos;
            MC_CHECK(ret == eret, "returned %zd", (ssize_t)ret);
            if(ne.len) MC_CHECK(v.str == p + ne.pos && v.len == ne.len, "wrong piece");
        }
        for(size_t cap = 0; cap <= ne.len + 1; cap = (cap == 6 && ne.len > 7) ? ne.len - 1 : cap + 1)
        {
            g_what = "substr from_chars_first"; mc::T();
            mc::Buf d(cap); substr v(d.p, cap);
            size_t ret = c4::from_chars_first(s, &v), eret = ne.len && ne.len <= cap ? ne.pos + ne.len : npos;
            MC_CHECK(ret == eret, "capacity %zu returned %zd, expected %zd", cap, (ssize_t)ret, (ssize_t)eret);
            if(eret != npos && ret == eret) MC_CHECK(v.str == d.p && v.len == ne.len && memcmp(v.str, p + ne.pos, ne.len) == 0, "capacity %zu: wrong text read", cap);
            MC_CHECK(d.ok(), "wrote before the destination");
        }
        mc::V();
    });
}

SECTION(all_texts, 8)
{
    const std::string al = " ,+-01.xbep9a";
    size_t hi = mc::thorough() ? 6 : 5;
    mc::bound(mc::fmt("every text of length 0..%zu over \"%s\"", hi, al.c_str()));
    if(mc::mine()) { text(""); for(char c : al) text(std::string(1, c)); }
    for(char c : al) for(char d : al) { if(!mc::mine()) continue; mc::all_strings(al, 0, hi - 2, [&](std::string const& s) { text(std::string(1, c) + d + s); }); }
    mc::sample("\" -0x1,\", \"+1e-9 \"");
}
SECTION(other_alphabet, 8)
{
    const std::string al = "\t]-07.oOEPXBfnainty";
    size_t hi = mc::thorough() ? 5 : 4;
    mc::bound(mc::fmt("every text of length 3..%zu over the second alphabet (tab, bracket, sign, octal and upper-case letters, letters of inf/nan)", hi));
    std::string a2; for(char c : al) if(a2.find(c) == std::string::npos) a2 += c;
    for(char c : a2) for(char d : a2) { if(!mc::mine()) continue; mc::all_strings(a2, 1, hi - 2, [&](std::string const& s) { text(std::string(1, c) + d + s); }); }
    mc::sample("\"-nan\", \"0O7]\"");
}
SECTION(two_bytes, 4)
{
    mc::bound("every byte string of length 0..2, and every byte as the character after each of 26 number forms, with and without more text");
    for(int a = 0; a < 256; ++a) { if(!mc::mine()) continue; text(std::string(1, (char)a)); for(int b = 0; b < 256; ++b) { char t[2] = {(char)a, (char)b}; text(std::string(t, 2)); } }
    for(const char *f : {"1", "-1", "+1", "12", "0", "123", "0x1", "-0xfF", "0b1", "0b101", "0o7", "0o17", "1.", ".5", "1.5", "-1.5e5", "1E+05", "1e-5", "inf", "-inf", "infinity", "nan", "0x1.8p+1", "0b1.1p-1", "0o7.1p+10", "0X.8P+0"})
    {
        if(!mc::mine()) continue;
        for(int c = 0; c < 256; ++c) { text(std::string(f) + (char)c); text(std::string(f) + (char)c + "7"); text(std::string(" \t") + f + (char)c + " 9"); text(std::string(1, (char)c) + f); }
    }
    mc::sample("\"1.5e5\" followed by each of 256 bytes");
}
SECTION(grammar, 8)
{
    mc::bound("blank prefix x sign x radix prefix x integer digits x fraction x exponent x trailer, all combinations");
    const std::vector<std::string> lead = {"", " ", "\n\t\r "}, sign = {"", "+", "-", "--", "+-"}, pfx = {"", "0x", "0X", "0b", "0B", "0o", "0O", "0", "x"},
        ints_ = {"", "0", "1", "10", "17", "9", "8", "a", "1f", "00", "111"}, frac = {"", ".", ".0", ".1", ".7", ".9", ".aF", "..", ".1.", ".11"},
        expo = {"", "e", "e5", "e+5", "E-12", "e+", "p", "p5", "p+5", "P-12", "p-", "pp", "e5e", "e5.", "p+1f"},
        tail = {"", " ", ",", " 7", ";x", "g", "\r\n", "-1", ")", "}", "]", ".", "_"};
    for(auto &l : lead) for(auto &s : sign) for(auto &p : pfx) for(auto &i : ints_)
    {
        if(!mc::mine()) continue;
        for(auto &f : frac) for(auto &e : expo) for(auto &t : tail) text(l + s + p + i + f + e + t);
    }
    mc::sample("\"\\n\\t\\r -0X1f.aFP-12,\"");
}
SECTION(long_texts, 8)
{
    mc::bound("leading blanks, integer digits, fraction digits and trailing text of 60..300 and 4095..65537 characters, one of them long at a time, in every radix");
    for(size_t n : mc::lens(6, 70, {60, 63, 64, 65, 100, 127, 128, 129, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 4095, 4096, 4097, 32768, 65535, 65536, 65537}))
    for(const char *pf : {"", "0x", "0b", "0o"}) for(const char *sg : {"", "-", "+"})
    {
        if(!mc::mine()) continue;
        std::string z(n, '0'), o(n, '1'), b(n, ' '), P = std::string(sg) + pf;
        bool dec = !*pf; std::string ex = dec ? "e+1" : "p+1";
        for(const char *t : {"", " ", ",", " 77", "g"})
        {
            text(P + o + t); text(P + z + "1" + t); text(b + P + "1" + t); text(P + "1." + o + t); text(P + z + "." + z + "1" + t); text(P + "1" + t + b); text(P + "1" + t + o);
            text(P + "1" + z + ex + t); text(P + "1." + z + "1" + ex + t); text(P + o + "." + t); text(P + "1" + ex + std::string(n, '0') + t);
            text(b + t); text(P + o + "z" + t); text(P + "1." + o + "." + t);
        }
        text(std::string(n, 'a')); text(b + std::string(n, 'a') + b);
    }
    mc::sample("256 blanks, then -0x1");
}
SECTION(words, 2)
{
    mc::bound("inf, infinity, nan, true, false: every one-byte edit, every truncation, with sign and trailer");
    for(const char *w : {"inf", "infinity", "nan", "true", "false", "True", "FALSE", "0"}) for(const char *sg : {"", "-", "+", " "})
    {
        if(!mc::mine()) continue;
        std::string base = w;
        for(size_t i = 0; i <= base.size(); ++i)
        {
            text(sg + base.substr(0, i)); text(sg + base.substr(0, i) + ","); text(sg + base.substr(0, i) + " x");
            for(int c = 0; c < 256; c += (mc::thorough() ? 1 : 1))
            {
                if(i < base.size()) { std::string t = base; t[i] = (char)c; text(sg + t); }
                std::string t = base; t.insert(i, 1, (char)c); text(sg + t);
            }
        }
    }
    mc::sample("\"-infinit\\x79\"");
}
MC_MAIN
