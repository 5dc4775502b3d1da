// C17: enum symbols and bitmasks
#include "mc.hpp"
#include <c4/enum.hpp>
#include <c4/bitmask.hpp>
#include <sstream>
#include <map>
using mc::Buf; using mc::q;
typedef std::string Str;

// plain enum; names that are prefixes of each other
enum Plain : int { P_A = 0, P_B = 3, P_C = -2, P_D = 70000, P_E = 9 };
// scoped, with the class offset
enum class Cls : int16_t { ONE = 1, TWO = 2, ON = -300, O = 0 };
// scoped, class and prefix
enum class Both : uint8_t { X_FOO = 200, X_FOOD = 7, X_F = 8, X__ = 9 };
// bitmasks
enum Bm : int { BM_NONE = 0, BM_FOO = 1, BM_BAR = 2, BM_BAZ = 4, BM_F1 = 8, BM_F12 = 16, BM_FOO_BAR = 3, BM_ALL3 = 7, BM_X = 32 };
enum class Bmc : uint8_t { none = 0, a = 1, b = 2, ab = 3, c = 4, d = 8, bd = 10, e = 16, f = 32, g = 64, h = 128 };
enum Nonull : unsigned { NN_KA = 1, NN_PA = 2, NN_PE = 4, NN_POW = 7, NN_Q8 = 256 };
enum class Wide : uint64_t { w0 = 0 };
// tables made at run time: many symbols, long names, long prefixes
enum Many : int32_t { MANY0 = 0 };
enum class LongPfx : uint16_t { l0 = 0 };
enum Bare64 : int64_t { B64 = 0 }; enum class Bare16 : uint16_t { b = 0 }; enum class Bare8s : int8_t { b = 0 }; enum Bare32u : uint32_t { B32 = 0 };
enum class Sgn : int8_t { p = 1, q = 2, r = 64, neg = -128 };

template<class E> struct Ref { Str name; E val; };
template<class E> static std::vector<Ref<E>> const& table();
enum { NMANY = 70000, CLS_LEN = 260, PFX_LEN = 66000 };
static int32_t many_val(size_t i) { return (int32_t)(i * 30011u) - 1000000000; }
static const size_t body_len[] = {1, 255, 256, 257, 65535, 65536, 65537, 70000};
namespace c4 {
#define SY(E, ...) template<> inline const EnumSymbols<E> esyms<E>() { static const EnumSymbols<E>::Sym rs[] = {__VA_ARGS__}; return EnumSymbols<E>(rs); }
SY(Plain, {P_A, "PA"}, {P_B, "PAB"}, {P_C, "PABC"}, {P_D, "P"}, {P_E, "zz_9"})
SY(Cls, {Cls::ONE, "Cls::ONE"}, {Cls::TWO, "Cls::TWO"}, {Cls::ON, "Cls::ON"}, {Cls::O, "Cls::O"})
SY(Both, {Both::X_FOO, "Both::X_FOO"}, {Both::X_FOOD, "Both::X_FOOD"}, {Both::X_F, "Both::X_F"}, {Both::X__, "Both::X__"})
SY(Bm, {BM_NONE, "BM_NONE"}, {BM_FOO, "BM_FOO"}, {BM_BAR, "BM_BAR"}, {BM_BAZ, "BM_BAZ"}, {BM_F1, "BM_F1"}, {BM_F12, "BM_F12"}, {BM_FOO_BAR, "BM_FOO_BAR"}, {BM_ALL3, "BM_ALL3"}, {BM_X, "BM_X"})
SY(Bmc, {Bmc::none, "Bmc::k_none"}, {Bmc::a, "Bmc::k_a"}, {Bmc::b, "Bmc::k_b"}, {Bmc::ab, "Bmc::k_ab"}, {Bmc::c, "Bmc::k_c"}, {Bmc::d, "Bmc::k_d"}, {Bmc::bd, "Bmc::k_bd"}, {Bmc::e, "Bmc::k_e"}, {Bmc::f, "Bmc::k_f"}, {Bmc::g, "Bmc::k_g"}, {Bmc::h, "Bmc::k_h"})
SY(Nonull, {NN_KA, "NN_KA"}, {NN_PA, "NN_PA"}, {NN_PE, "NN_PE"}, {NN_POW, "NN_POW"}, {NN_Q8, "NN_Q8"})
SY(Sgn, {Sgn::p, "p"}, {Sgn::q, "q"}, {Sgn::r, "r"}, {Sgn::neg, "neg"})
template<> inline const EnumSymbols<Wide> esyms<Wide>()
{
    struct Tab { EnumSymbols<Wide>::Sym s[64]; char n[64][8]; Tab() { for(int i = 0; i < 64; ++i) { snprintf(n[i], 8, "w%d", i); s[i].value = (Wide)((uint64_t)1 << i); s[i].name = n[i]; } } };
    static const Tab t;
    return EnumSymbols<Wide>(t.s);
}
template<> inline const EnumSymbols<Many> esyms<Many>()
{
    struct Tab { EnumSymbols<Many>::Sym s[NMANY]; std::vector<Str> n; Tab() : n(NMANY) { for(size_t i = 0; i < NMANY; ++i) { n[i] = "m" + std::to_string(i); s[i].value = (Many)many_val(i); s[i].name = n[i].c_str(); } } };
    static const Tab t;
    return EnumSymbols<Many>(t.s);
}
template<> inline const EnumSymbols<LongPfx> esyms<LongPfx>()
{
    struct Tab { EnumSymbols<LongPfx>::Sym s[8]; Str n[8]; Tab() { for(size_t i = 0; i < 8; ++i) { n[i] = Str(CLS_LEN - 2, 'C') + "::" + Str(PFX_LEN - CLS_LEN, 'p') + Str(body_len[i], (char)('a' + i)); s[i].value = (LongPfx)(1u << i); s[i].name = n[i].c_str(); } } };
    static const Tab t;
    return EnumSymbols<LongPfx>(t.s);
}
SY(Bare64, {B64, "zero"}) SY(Bare16, {Bare16::b, "zero"}) SY(Bare8s, {Bare8s::b, "zero"}) SY(Bare32u, {B32, "zero"})
template<> inline size_t eoffs_cls<LongPfx>() { return CLS_LEN; }
template<> inline size_t eoffs_pfx<LongPfx>() { return PFX_LEN; }
template<> inline size_t eoffs_cls<Cls>() { return 5; }
template<> inline size_t eoffs_cls<Both>() { return 6; }
template<> inline size_t eoffs_pfx<Both>() { return 8; }
template<> inline size_t eoffs_pfx<Bm>() { return 3; }
template<> inline size_t eoffs_cls<Bmc>() { return 5; }
template<> inline size_t eoffs_pfx<Bmc>() { return 7; }
template<> inline size_t eoffs_pfx<Nonull>() { return 3; }
}
template<class E> struct Offs { static size_t cls() { return 0; } static size_t pfx() { return 0; } };
#define OF(E, c, p) template<> struct Offs<E> { static size_t cls() { return c; } static size_t pfx() { return p; } };
OF(LongPfx, CLS_LEN, PFX_LEN) OF(Cls, 5, 0) OF(Both, 6, 8) OF(Bm, 0, 3) OF(Bmc, 5, 7) OF(Nonull, 0, 3)
template<class E> static std::vector<Ref<E>> const& table()
{
    static std::vector<Ref<E>> t;
    if(t.empty()) { auto s = c4::esyms<E>(); for(size_t i = 0; i < s.size(); ++i) t.push_back({s.begin()[i].name, s.begin()[i].value}); }
    return t;
}
/// index of the symbol that the text names, or -1
template<class E> static int named(Str const& s)
{
    auto &t = table<E>();
    for(size_t i = 0; i < t.size(); ++i)
    {
        if(t[i].name == s) return (int)i;
        if(Offs<E>::cls() && t[i].name.substr(Offs<E>::cls()) == s) return (int)i;
        if(Offs<E>::pfx() && t[i].name.substr(Offs<E>::pfx()) == s) return (int)i;
    }
    return -1;
}
template<class E> static void lookup(const char *en, Str const& s)
{
    const int ex = named<E>(s);
    auto const syms = c4::esyms<E>();
    mc::S();
    MC_CASE(mc::fmt("%s: find(%s, %zu)", en, q(s).c_str(), s.size()), {
        Buf b(s.size()); if(s.size()) memcpy(b.p, s.data(), s.size());
        auto p = syms.find(b.p, b.n); mc::T();
        MC_CHECK(p == (ex < 0 ? nullptr : syms.begin() + ex), "finds symbol %zd, not %d", p ? (ssize_t)(p - syms.begin()) : -1, ex);
        typename c4::EnumSymbols<E>::Sym const* g = nullptr;
        auto errs = mc::errors_in([&]{ g = syms.get((const char*)b.p, b.n); }); mc::T();
        MC_CHECK((errs > 0) == (ex < 0), "get(): %s", errs ? "error" : "no error");
        if(ex >= 0) MC_CHECK(g == syms.begin() + ex, "get() returns another symbol");
        mc::V();
    });
    if(s.find('\0') != Str::npos) return;
    MC_CASE(mc::fmt("%s: find(%s)", en, q(s).c_str()), {
        Buf b(s.size() + 1); memcpy(b.p, s.c_str(), s.size() + 1);
        auto p = syms.find((const char*)b.p); mc::T();
        MC_CHECK(p == (ex < 0 ? nullptr : syms.begin() + ex), "finds symbol %zd, not %d", p ? (ssize_t)(p - syms.begin()) : -1, ex);
        E v = E();
        auto errs = mc::errors_in([&]{ v = c4::str2e<E>(b.p); }); mc::T();
        MC_CHECK((errs > 0) == (ex < 0), "str2e(): %s", errs ? "error" : "no error");
        if(ex >= 0) MC_CHECK(v == table<E>()[(size_t)ex].val, "str2e() gives %lld", (long long)v);
        mc::V();
    });
}
template<class E> static void lookups(const char *en)
{
    auto &t = table<E>();
    std::set<Str> seen;
    auto go = [&](Str const& s) { if(seen.insert(s).second) lookup<E>(en, s); };
    go("");
    for(auto &r : t)
        for(size_t o : {(size_t)0, Offs<E>::cls(), Offs<E>::pfx()})
        {
            Str f = r.name.substr(o);
            go(f);
            for(size_t i = 0; i <= f.size(); ++i) { go(f.substr(0, i)); go(f.substr(i)); }
            for(int c = 0; c < 256; ++c) { go(f + (char)c); go((char)c + f); }
            for(size_t i = 0; i < f.size(); ++i) { Str g = f; g.erase(i, 1); go(g); for(char c : Str("AaF0_: |x\0", 10)) { g = f; g[i] = c; go(g); g = f; g.insert(i, 1, c); go(g); } }
            go(f + Str("\0", 1) + "z"); go(f + f); go(r.name.substr(0, o)); go(f + " "); go(" " + f);
        }
    mc::all_strings("PABCFO_:", 1, mc::thorough() ? 4 : 3, [&](Str const& s) { go(s); });
    mc::all_strings("abn:k_w0", 1, 3, [&](Str const& s) { go(s); });
}
template<class E> static void values(const char *en)
{
    auto &t = table<E>();
    auto const syms = c4::esyms<E>();
    typedef typename std::underlying_type<E>::type I;
    for(long x = -70010; x <= 70010; ++x)
    {
        if((I)x != x) continue;
        E v = (E)(I)x;
        int ex = -1;
        for(size_t i = 0; i < t.size(); ++i) if(t[i].val == v) { ex = (int)i; break; }
        mc::S();
        MC_CASE(mc::fmt("%s: value %ld", en, x), {
            auto p = syms.find(v); mc::T();
            MC_CHECK(p == (ex < 0 ? nullptr : syms.begin() + ex), "find() gives symbol %zd, not %d", p ? (ssize_t)(p - syms.begin()) : -1, ex);
            if(ex >= 0 || x % 97 == 0 || (x > -20 && x < 300))
            {
                const char *n = nullptr;
                auto errs = mc::errors_in([&]{ n = c4::e2str(v); }); mc::T();
                MC_CHECK((errs > 0) == (ex < 0), "e2str: %s", errs ? "error" : "no error");
                if(ex >= 0)
                {
                    Str nm = t[(size_t)ex].name;
                    MC_CHECK(n && nm == n, "e2str gives another name");
                    size_t oc = Offs<E>::cls(), op = Offs<E>::pfx() ? Offs<E>::pfx() : oc;
                    MC_CHECK(nm == c4::e2stroffs(v, c4::EOFFS_NONE), "e2stroffs(none) = %s", c4::e2stroffs(v, c4::EOFFS_NONE));
                    MC_CHECK(nm.substr(oc) == c4::e2stroffs(v, c4::EOFFS_CLS), "e2stroffs(cls) = %s", c4::e2stroffs(v, c4::EOFFS_CLS));
                    MC_CHECK(nm.substr(op) == c4::e2stroffs(v, c4::EOFFS_PFX), "e2stroffs(pfx) = %s", c4::e2stroffs(v, c4::EOFFS_PFX));
                    MC_CHECK(nm.substr(op) == c4::e2stroffs(v), "e2stroffs() = %s", c4::e2stroffs(v)); mc::T(4);
                    MC_CHECK(c4::str2e<E>(c4::e2stroffs(v)) == v && c4::str2e<E>(n) == v, "does not read back"); mc::T(2);
                    MC_CHECK(nm.substr(oc) == syms[(size_t)ex].name_offs(c4::EOFFS_CLS), "name_offs"); mc::T();
                }
            }
            mc::V();
        });
    }
    MC_CASE(mc::fmt("%s: container", en), {
        MC_CHECK(syms.size() == t.size() && !syms.empty() && syms.end() == syms.begin() + syms.size(), "size"); mc::T(3);
        for(size_t i = 0; i < t.size() + 3; ++i) { typename c4::EnumSymbols<E>::Sym const* g = nullptr; auto errs = mc::errors_in([&]{ g = &syms[i]; }); mc::T(); MC_CHECK((errs > 0) == (i >= t.size()), "[%zu]", i); if(i < t.size()) MC_CHECK(g == syms.begin() + i, "[%zu] is another symbol", i); }
        mc::V();
    });
}
#define ENUMS(F) F<Plain>("Plain"); F<Cls>("Cls"); F<Both>("Both"); F<Bm>("Bm"); F<Bmc>("Bmc"); F<Nonull>("Nonull"); F<Sgn>("Sgn"); F<Wide>("Wide")
SECTION(lookup, 1) { mc::bound("8 enum types; every prefix, suffix, one-character extension/deletion/insertion/substitution of every name form, all strings to length 3 over two alphabets; with and without length"); mc::sample("Plain: find(\"PA\", 1) -> P_D"); ENUMS(lookups); }
SECTION(values, 1) { mc::bound("every value in [-70010,70010] of each enum type"); mc::sample("Cls: value -300"); ENUMS(values); }

// ------------------------------------------------------------------ masks
// the value of a text made of names and numbers joined by |, or -1 in ok
template<class E> static bool m_parse(Str const& s, uint64_t *v)
{
    typedef typename std::underlying_type<E>::type I;
    uint64_t r = 0; size_t b = 0;
    for(;;)
    {
        size_t e = s.find('|', b);
        Str t = s.substr(b, e == Str::npos ? Str::npos : e - b);
        int ix = named<E>(t);
        if(ix >= 0) r |= (uint64_t)(I)table<E>()[(size_t)ix].val;
        else if(!t.empty() && t[0] >= '0' && t[0] <= '9') { char *end; r |= strtoull(t.c_str(), &end, t.size() > 1 && (t[1] == 'x' || t[1] == 'X') ? 16 : 10); if(*end) return false; }
        else return false;
        if(e == Str::npos) break;
        b = e + 1;
    }
    *v = r; return true;
}
// the overloads for enum values exist for scoped enums only
template<class E, bool Scoped = !std::is_convertible<E, long long>::value> struct Ovl
{
    typedef typename std::underlying_type<E>::type I;
    static size_t str(I bits, char *p, size_t n, c4::EnumOffsetType ot) { return c4::bm2str((E)bits, p, n, ot); }
    static size_t str(I bits, char *p, size_t n) { return c4::bm2str((E)bits, p, n); }
    static size_t str(I bits) { return c4::bm2str((E)bits); }
    template<class S> static void stream(S &s, I bits, c4::EnumOffsetType ot) { c4::bm2stream(s, (E)bits, ot); }
};
template<class E> struct Ovl<E, false>
{
    typedef typename std::underlying_type<E>::type I;
    static size_t str(I bits, char *p, size_t n, c4::EnumOffsetType ot) { return c4::bm2str<E>(bits, p, n, ot); }
    static size_t str(I bits, char *p, size_t n) { return c4::bm2str<E>(bits, p, n); }
    static size_t str(I bits) { return c4::bm2str<E>(bits); }
    template<class S> static void stream(S &s, I bits, c4::EnumOffsetType ot) { c4::bm2stream<E>(s, bits, ot); }
};
template<class E> static void mask(const char *en, typename std::underlying_type<E>::type bits, bool representable)
{
    typedef typename std::underlying_type<E>::type I;
    for(c4::EnumOffsetType ot : {c4::EOFFS_NONE, c4::EOFFS_CLS, c4::EOFFS_PFX})
    {
        size_t need = 0; Str full;
        mc::S();
        MC_CASE(mc::fmt("%s: bm2str(%lld, offset type %d) size query", en, (long long)bits, (int)ot), {
            size_t n = 0;
            auto errs = mc::errors_in([&]{ n = c4::bm2str<E>(bits, nullptr, 0, ot); }); mc::T();
            MC_CHECK((errs == 0) == representable, "%s", errs ? "error" : "no error although some bits have no symbol");
            if(!errs) need = n;
            mc::V();
        });
        if(!representable) continue;
        for(size_t len = need + 2; len != (size_t)-1; --len)
        {
            if(len == 0) break;
            if(len > 40 && len + 3 < need) { len = 40; continue; }
            MC_CASE(mc::fmt("%s: bm2str(%lld, buffer length %zu, offset type %d)", en, (long long)bits, len, (int)ot), {
                Buf b(len); b.fill(); size_t n = 0;
                auto errs = mc::errors_in([&]{ n = c4::bm2str<E>(bits, b.p, b.n, ot); }); mc::T();
                MC_CHECK(b.ok(), "wrote outside the buffer");
                MC_CHECK((errs == 0) == (len >= need), "%s, the size query said %zu", errs ? "error" : "no error", need);
                if(!errs)
                {
                    MC_CHECK(n == need, "returned %zu, the size query said %zu", n, need);
                    if(n >= 1 && n <= len)
                    {
                        MC_CHECK(b.p[n - 1] == 0 && strlen(b.p) == n - 1, "not terminated");
                        Str s(b.p, n - 1); uint64_t v;
                        if(full.empty()) full = s; else MC_CHECK(full == s, "text %s depends on the buffer, was %s", q(s).c_str(), q(full).c_str());
                        MC_CHECK(m_parse<E>(s, &v) && (I)v == bits, "the text %s does not stand for the mask", q(s).c_str());
                        size_t off = ot == c4::EOFFS_NONE ? 0 : ot == c4::EOFFS_CLS ? Offs<E>::cls() : Offs<E>::pfx() ? Offs<E>::pfx() : Offs<E>::cls();
                        for(size_t k = 0; k < s.size(); ) { size_t e = s.find('|', k); Str tk = s.substr(k, e == Str::npos ? e : e - k); bool hit = tk == "0"; for(auto &r : table<E>()) if(r.name.substr(off) == tk) hit = true; MC_CHECK(hit, "part %s is not a name with that offset", q(tk).c_str()); if(e == Str::npos) break; k = e + 1; }
                        I r1 = c4::str2bm<E>(b.p); I r2 = c4::str2bm<E>(b.p, n - 1); I r3 = c4::str2bm<E>(b.p, n); mc::T(3);
                        MC_CHECK(r1 == bits && r2 == bits && r3 == bits, "%s reads back as %lld, %lld, %lld", q(s).c_str(), (long long)r1, (long long)r2, (long long)r3);
                    }
                }
                mc::V();
            });
        }
        MC_CASE(mc::fmt("%s: bm2str of the enum value %lld, offset type %d", en, (long long)bits, (int)ot), {
            size_t n = Ovl<E>::str(bits, nullptr, 0, ot); mc::T();
            MC_CHECK(n == need, "the size query of the enum overload says %zu, of the integer overload %zu", n, need);
            Buf b(need); b.fill(); n = Ovl<E>::str(bits, b.p, b.n, ot); mc::T();
            MC_CHECK(n == need && Str(b.p, need - 1) == full && b.p[need - 1] == 0, "the enum overload gives another text than the integer overload");
            if(ot == c4::EOFFS_PFX)
            {
                size_t n1 = Ovl<E>::str(bits), n2 = c4::bm2str<E>(bits); mc::T(2);
                MC_CHECK(n1 == need && n2 == need, "without a buffer: %zu and %zu, expected %zu", n1, n2, need);
                b.fill(); n1 = Ovl<E>::str(bits, b.p, b.n); mc::T(); MC_CHECK(n1 == need && Str(b.p, need - 1) == full, "the default offset type is not the prefix");
                b.fill(); n1 = c4::bm2str<E>(bits, b.p, b.n); mc::T(); MC_CHECK(n1 == need && Str(b.p, need - 1) == full, "the default offset type is not the prefix");
            }
            std::ostringstream o1, o2; Ovl<E>::stream(o1, bits, ot); c4::bm2stream<E>(o2, bits, ot); mc::T(2);
            MC_CHECK(o1.str() == o2.str(), "the stream overloads differ");
            mc::V();
        });
        MC_CASE(mc::fmt("%s: bm2stream(%lld, offset type %d)", en, (long long)bits, (int)ot), {
            std::ostringstream o; c4::bm2stream<E>(o, bits, ot); mc::T();
            Str s = o.str(); uint64_t v;
            MC_CHECK(m_parse<E>(s, &v) && (I)v == bits, "the text %s does not stand for the mask", q(s).c_str());
            Buf b(s.size()); memcpy(b.p, s.data(), s.size());
            I r = c4::str2bm<E>(b.p, b.n); mc::T();
            MC_CHECK(r == bits, "%s reads back as %lld", q(s).c_str(), (long long)r);
            mc::V();
        });
    }
}
template<class E> static void masks(const char *en, int nbits)
{
    typedef typename std::underlying_type<E>::type I;
    uint64_t single = 0;
    for(auto &r : table<E>()) { uint64_t x = (uint64_t)(typename std::make_unsigned<I>::type)r.val; if(x && !(x & (x - 1))) single |= x; }
    for(uint64_t m = 0; m < ((uint64_t)1 << nbits); ++m) mask<E>(en, (I)m, (m & ~single) == 0);
}
SECTION(masks, 1)
{
    mc::bound("every mask over all registered and 1-3 unregistered bits of 5 bitmask enums (8, 32 and 64-bit underlying types, signed and unsigned), all offset kinds, every buffer length; all 1- and 2-bit masks of a 64-flag enum");
    mc::sample("Bm: bm2str(11) -> FOO_BAR|F1");
    masks<Bm>("Bm", 7); masks<Bmc>("Bmc", 8); masks<Nonull>("Nonull", 9); masks<Sgn>("Sgn", 8);
    for(int i = 0; i < 64; ++i) for(int j = 0; j <= i; ++j) mask<Wide>("Wide", ((uint64_t)1 << i) | ((uint64_t)1 << j), true);
    mask<Wide>("Wide", 0, true); mask<Wide>("Wide", ~(uint64_t)0, true);
    MC_CASE(Str("scoped enum overloads"), {
        char b[64]; size_t n = c4::bm2str(Bmc::ab, b, sizeof b); mc::T(); MC_CHECK(Str(b, n - 1) == "ab", "bm2str gives %s", b);
        std::ostringstream o; c4::bm2stream(o, Bmc::bd); mc::T(); MC_CHECK(o.str() == "bd", "bm2stream gives %s", o.str().c_str()); mc::V(); });
}
template<class E> static void texts(const char *en, std::vector<Str> toks, size_t step = 1)
{
    typedef typename std::underlying_type<E>::type I;
    auto one = [&](Str const& s, Str const& clean) {
        uint64_t v = 0; bool ok = m_parse<E>(clean, &v);
        mc::S();
        MC_CASE(mc::fmt("%s: str2bm(%s)", en, q(s).c_str()), {
            Buf b(s.size()); if(s.size()) memcpy(b.p, s.data(), s.size());
            I r = 0;
            auto errs = mc::errors_in([&]{ r = c4::str2bm<E>(b.p, b.n); }); mc::T();
            MC_CHECK((errs == 0) == ok, "%s", errs ? "error" : "accepted");
            if(ok && !errs) MC_CHECK(r == (I)v, "gives %lld, not %lld", (long long)r, (long long)(I)v);
            mc::V();
        });
    };
    size_t n = toks.size();
    for(size_t i = 0; i < n; ++i)
    {
        one(toks[i], toks[i]); one(" " + toks[i], toks[i]); one("  " + toks[i], toks[i]);
        for(size_t j = 0; j < n; j += step)
        {
            one(toks[i] + "|" + toks[j], toks[i] + "|" + toks[j]); one(toks[i] + "| " + toks[j], toks[i] + "|" + toks[j]);
            for(size_t k = 0; k < n && step == 1; k += mc::thorough() ? 1 : 3) one(toks[i] + "|" + toks[j] + "|" + toks[k], toks[i] + "|" + toks[j] + "|" + toks[k]);
        }
    }
}
template<class E> static std::vector<Str> tokens(std::vector<Str> more)
{
    std::set<Str> t;
    for(auto &r : table<E>()) { t.insert(r.name); t.insert(r.name.substr(Offs<E>::cls())); t.insert(r.name.substr(Offs<E>::pfx())); }
    std::vector<Str> v(t.begin(), t.end());
    if(v.size() > 40) v.resize(40);
    for(auto &m : more) v.push_back(m);
    return v;
}
SECTION(texts, 1)
{
    mc::bound("every sequence of 1 and 2 parts (3 with a third of the parts; all in the thorough tier) out of all name forms, decimal and hexadecimal numbers (next to every power of two to 2^64, for six underlying types) and unknown names, with and without blanks before a part");
    mc::sample("Bm: str2bm(\"BM_FOO| 0x1f|F12\") -> 31");
    std::vector<Str> more = {"0", "1", "2", "7", "16", "63", "0x0", "0x1", "0x1f", "0X3F", "0xa", "0x", "0X", "1x2", "0x1x", "FO", "NON", "BM", "BM_", "FOO_", "F", "F123", "unknown", "_", "BM_FOO_BA", "foo"};
    texts<Bm>("Bm", tokens<Bm>(more)); texts<Bmc>("Bmc", tokens<Bmc>({"0", "3", "255", "0xff", "0x0a", "k_", "Bmc::", "z", "abc"})); texts<Nonull>("Nonull", tokens<Nonull>({"0", "8", "0x100", "PO", "K"})); texts<Wide>("Wide", tokens<Wide>({"w", "w64", "0xffff", "w1", "w10"}));
    // numbers next to every power of two, in decimal and hexadecimal, for every width of the underlying type
    std::vector<Str> nums = {"zero"};
    for(int b = 0; b < 64; ++b) for(int d = -1; d <= 1; ++d) { uint64_t x = ((uint64_t)1 << b) + (uint64_t)(int64_t)d; nums.push_back(std::to_string(x)); nums.push_back(mc::fmt("0x%llx", (unsigned long long)x)); nums.push_back(mc::fmt("0X%016llX", (unsigned long long)x)); }
    nums.push_back("18446744073709551615"); nums.push_back("0xffffffffffffffff"); nums.push_back("0x123456789abcdef0"); nums.push_back("00000000000000000000000000000000000007");
    auto upto = [&](uint64_t mx) { std::vector<Str> v; for(auto &t : nums) if(t == "zero" || strtoull(t.c_str(), nullptr, t.size() > 1 && (t[1] | 32) == 'x' ? 16 : 10) <= mx) v.push_back(t); return v; };
    texts<Bare64>("Bare64", upto(INT64_MAX), 7); texts<Bare16>("Bare16", upto(65535), 7); texts<Bare8s>("Bare8s", upto(127), 7); texts<Bare32u>("Bare32u", upto(UINT32_MAX), 7); texts<Wide>("Wide", upto(~(uint64_t)0), 7); texts<Bm>("Bm", [&]{ auto v = upto(INT32_MAX); v.erase(v.begin()); return v; }(), 7);
    MC_CASE(Str("the empty text"), { Bm *x = nullptr; (void)x; auto r = c4::str2bm<Bm>(""); mc::T(); MC_CHECK(r == 0, "gives %d", (int)r); auto r2 = c4::str2bm<Bm>("abc", 0); mc::T(); MC_CHECK(r2 == 0, "gives %d", (int)r2); mc::V(); });
}
SECTION(large_tables, 2)
{
    mc::bound("an enum of 70000 symbols (every value; names and positions around 0, 2^8, 2^15, 2^16 and the end); names of 1 to 70000 characters behind a class of 260 and a prefix of 66000 characters: every name form and its neighbours, every mask of 8 such flags at 3 buffer lengths, whole and by prefix");
    mc::sample("Many: find(\"m65536\")");
    auto const syms = c4::esyms<Many>();
    if(mc::mine())
    {
        std::set<size_t> pos; for(size_t c : {(size_t)0, (size_t)127, (size_t)256, (size_t)32768, (size_t)65536, (size_t)NMANY - 1}) for(int d = -3; d <= 3; ++d) if(c + (size_t)d < NMANY) pos.insert(c + (size_t)d);
        MC_CASE(Str("Many: container"), { MC_CHECK(syms.size() == NMANY && syms.end() == syms.begin() + NMANY, "size() is %zu", syms.size()); for(size_t i : pos) MC_CHECK(&syms[i] == syms.begin() + i, "[%zu]", i); mc::V(); mc::T(2); });
        for(size_t i = 0; i < NMANY; i += (pos.count(i) || i < 600 || i > 65000) ? 1 : 7)
        {
            mc::S();
            MC_CASE(mc::fmt("Many: symbol %zu", i), {
                auto p = syms.find((Many)many_val(i)); mc::T(); MC_CHECK(p == syms.begin() + i, "find(value) gives symbol %zd", p ? (ssize_t)(p - syms.begin()) : -1);
                auto r = syms.find((Many)(many_val(i) + 1)); mc::T(); MC_CHECK(!r, "a value that is not registered is found");
                mc::V();
            });
        }
        for(size_t i : pos)
        {
            mc::S();
            MC_CASE(mc::fmt("Many: name %zu", i), {
                Str n = "m" + std::to_string(i);
                auto p = syms.find(n.c_str()); auto p2 = syms.find(n.data(), n.size()); mc::T(2); MC_CHECK(p == syms.begin() + i && p2 == p, "find(name) gives symbol %zd and %zd", p ? (ssize_t)(p - syms.begin()) : -1, p2 ? (ssize_t)(p2 - syms.begin()) : -1);
                MC_CHECK(c4::str2e<Many>(n.c_str()) == (Many)many_val(i) && n == c4::e2str((Many)many_val(i)), "str2e(), e2str()"); mc::T(2);
                Str u = n + "x"; MC_CHECK(!syms.find(u.c_str()) && !syms.find(u.data(), u.size()), "a name that is not registered is found"); mc::T(2);
                mc::V();
            });
        }
    }
    for(size_t i = 0; i < 8; ++i) for(size_t o : {(size_t)0, (size_t)CLS_LEN, (size_t)PFX_LEN}) if(mc::mine())
    {
        Str f = table<LongPfx>()[i].name.substr(o);
        lookup<LongPfx>("LongPfx", f); lookup<LongPfx>("LongPfx", f + "a"); lookup<LongPfx>("LongPfx", f.substr(1)); lookup<LongPfx>("LongPfx", f.substr(0, f.size() - 1)); Str g = f; g.back() = '?'; lookup<LongPfx>("LongPfx", g);
        if(f.size() > 65536) { lookup<LongPfx>("LongPfx", f.substr(0, f.size() - 65536)); lookup<LongPfx>("LongPfx", f.substr(65536)); } if(f.size() > 256) { lookup<LongPfx>("LongPfx", f.substr(0, f.size() - 256)); lookup<LongPfx>("LongPfx", f.substr(256)); }
    }
    for(unsigned m = 0; m < 256; ++m) if(mc::mine()) for(c4::EnumOffsetType ot : {c4::EOFFS_PFX, c4::EOFFS_CLS, c4::EOFFS_NONE})
    {
        if(ot != c4::EOFFS_PFX && __builtin_popcount(m) > 2) continue; // (the texts are long)
        Str ex; size_t off = ot == c4::EOFFS_NONE ? 0 : ot == c4::EOFFS_CLS ? CLS_LEN : PFX_LEN;
        for(size_t i = 0; i < 8; ++i) if(m & (1u << i)) ex += (ex.empty() ? "" : "|") + table<LongPfx>()[i].name.substr(off);
        if(!m) ex = "0";
        mc::S();
        MC_CASE(mc::fmt("LongPfx: mask %u, offset type %d", m, (int)ot), {
            size_t n = c4::bm2str<LongPfx>((uint16_t)m, nullptr, 0, ot); mc::T(); MC_CHECK(n == ex.size() + 1, "the size query says %zu, the text has %zu characters", n, ex.size());
            for(size_t len : {ex.size(), ex.size() + 1, ex.size() + 70000})
            {
                Buf b(len); b.fill(); size_t w = 0;
                auto errs = mc::errors_in([&]{ w = c4::bm2str<LongPfx>((uint16_t)m, b.p, b.n, ot); }); mc::T();
                MC_CHECK((errs > 0) == (len <= ex.size()) && b.ok(), "buffer of %zu characters for %zu: %s", len, ex.size() + 1, errs ? "error" : "no error");
                if(!errs) { MC_CHECK(w == ex.size() + 1 && memcmp(b.p, ex.c_str(), ex.size() + 1) == 0, "another text, of %zu characters", w); auto r = c4::str2bm<LongPfx>(b.p, ex.size()); mc::T(); MC_CHECK(r == m, "reads back as %u", (unsigned)r); }
                b.fill(); size_t w2 = 0; auto errs2 = mc::errors_in([&]{ w2 = c4::bm2str((LongPfx)m, b.p, b.n, ot); }); mc::T();
                MC_CHECK((errs2 > 0) == (errs > 0) && b.ok() && (errs2 || (w2 == w && memcmp(b.p, ex.c_str(), w) == 0)), "bm2str(enum value): buffer of %zu characters for %zu: %s, %zu characters", len, ex.size() + 1, errs2 ? "error" : "no error", w2);
            }
            std::ostringstream o; c4::bm2stream<LongPfx>(o, (uint16_t)m, ot); mc::T(); uint64_t v = 0; Str os = o.str(); MC_CHECK(os.size() == ex.size() && m_parse<LongPfx>(os, &v) && v == m, "bm2stream gives %zu characters, which stand for %llu", os.size(), (unsigned long long)v);
            mc::V();
        });
    }
}
MC_MAIN
