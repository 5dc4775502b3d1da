// C14: reading back concatenated / formatted text
#include "mc.hpp"
#include <c4/format.hpp>
#include <c4/std/string.hpp>
using c4::csubstr; using c4::substr;
using mc::Buf; using mc::q;
typedef std::string Str;
static const size_t NP = (size_t)-1;

// a variable whose type is chosen at run time; reading it calls the library's reader for that type
enum Ty { I32, U8, CH, BO, FL, DB, I64, PT };
static const char *tyname(Ty t) { static const char *n[] = {"int32", "uint8", "char", "bool", "float", "double", "int64", "pointer"}; return n[t]; }
namespace hx {
struct Var { Ty t; long long i; double d; };
inline size_t from_chars_first(csubstr b, Var *v)
{
    size_t r = NP; mc::T();
    switch(v->t)
    {
    case I32: { int x = 0; r = c4::from_chars_first(b, &x); if(r != NP) v->i = x; break; }
    case U8: { uint8_t x = 0; r = c4::from_chars_first(b, &x); if(r != NP) v->i = x; break; }
    case I64: { int64_t x = 0; r = c4::from_chars_first(b, &x); if(r != NP) v->i = x; break; }
    case CH: { char x = 0; r = c4::from_chars_first(b, &x); if(r != NP) v->i = x; break; }
    case BO: { bool x = false; r = c4::from_chars_first(b, &x); if(r != NP) v->i = x; break; }
    case FL: { float x = 0; r = c4::from_chars_first(b, &x); if(r != NP) v->d = x; break; }
    case DB: { double x = 0; r = c4::from_chars_first(b, &x); if(r != NP) v->d = x; break; }
    case PT: { void **x = nullptr; r = c4::from_chars_first(b, &x); if(r != NP) v->i = (long long)(intptr_t)x; break; }
    }
    return r;
}
inline size_t to_chars(substr b, Var const& v)
{
    switch(v.t)
    {
    case I32: return c4::to_chars(b, (int)v.i); case U8: return c4::to_chars(b, (uint8_t)v.i); case I64: return c4::to_chars(b, (int64_t)v.i); case CH: return c4::to_chars(b, (char)v.i);
    case BO: return c4::to_chars(b, (bool)v.i); case FL: return c4::to_chars(b, (float)v.d); case DB: return c4::to_chars(b, v.d); case PT: return c4::to_chars(b, (void**)(intptr_t)v.i);
    }
    return 0;
}
}
using hx::Var;
static bool same(Var const& a, Var const& b) { return a.t == b.t && a.i == b.i && (a.d == b.d || (a.d != a.d && b.d != b.d)); }
typedef std::vector<Var> Vars;
static Str show(Vars const& v) { Str r; for(auto &x : v) r += mc::fmt(" %s", tyname(x.t)); return r; }

// ------------------------------------------------------------------ the composition model: one value after the other on copies of the remaining text
static bool m_value(Str const& t, size_t &pos, Var &v)
{
    Str rest = pos <= t.size() ? t.substr(pos) : Str();
    Buf b(rest); size_t r = hx::from_chars_first(csubstr(b.p, b.n), &v);
    if(r == NP) return false;
    MC_CHECK(r <= rest.size(), "a value reader reported %zu of %zu characters", r, rest.size());
    pos += r; return true;
}
static size_t m_uncat(Str const& t, Vars &v) { size_t pos = 0; for(auto &x : v) if(!m_value(t, pos, x)) return NP; return pos; }
static size_t m_uncatsep(Str const& t, Var &sep, Vars &v) { size_t pos = 0; for(size_t i = 0; i < v.size(); ++i) { if(i && !m_value(t, pos, sep)) return NP; if(!m_value(t, pos, v[i])) return NP; } return pos; }
static size_t m_unformat(Str const& t, Str const& f, Vars &v)
{
    size_t pos = 0; size_t fp = 0;
    for(size_t i = 0; i < v.size(); ++i)
    {
        size_t ph = f.find("{}", fp); if(ph == NP) break;
        pos = std::min(pos + (ph - fp), t.size());
        if(!m_value(t, pos, v[i])) return NP;
        fp = ph + 2;
    }
    return std::min(pos + (f.size() - fp), t.size());
}
#define SPREAD(F, ...) \
    switch(v.size()) { case 1: r = F(__VA_ARGS__, v[0]); break; case 2: r = F(__VA_ARGS__, v[0], v[1]); break; case 3: r = F(__VA_ARGS__, v[0], v[1], v[2]); break; \
    case 4: r = F(__VA_ARGS__, v[0], v[1], v[2], v[3]); break; case 5: r = F(__VA_ARGS__, v[0], v[1], v[2], v[3], v[4]); break; }
static size_t do_uncat(csubstr b, Vars &v) { size_t r = 0; SPREAD(c4::uncat, b) return r; }
static size_t do_uncatsep(csubstr b, Var &sep, Vars &v) { size_t r = 0; SPREAD(c4::uncatsep, b, sep) return r; }
static size_t do_unformat(csubstr b, csubstr f, Vars &v) { size_t r = 0; SPREAD(c4::unformat, b, f) return r; }
static size_t do_cat(substr b, Vars const& v) { size_t r = 0; SPREAD(c4::cat, b) return r; }
static size_t do_catsep(substr b, Var const& s, Vars const& v) { size_t r = 0; SPREAD(c4::catsep, b, s) return r; }
static size_t do_format(substr b, csubstr f, Vars const& v) { size_t r = 0; SPREAD(c4::format, b, f) return r; }

static void compare(const char *what, size_t r, Vars const& got, size_t er, Vars const& exp)
{
    MC_CHECK(r == er, "%s reported %lld characters, expected %lld", what, (long long)r, (long long)er);
    if(er != NP) for(size_t i = 0; i < got.size(); ++i) MC_CHECK(same(got[i], exp[i]), "%s: value %zu is %lld/%g, expected %lld/%g", what, i, got[i].i, got[i].d, exp[i].i, exp[i].d);
}
static void one_text(Str const& t, Vars const& types, Ty septy, std::vector<Str> const& fmts)
{
    MC_CASE(mc::fmt("text %s into%s", q(t).c_str(), show(types).c_str()), {
        Buf b(t); csubstr s(b.p, b.n);
        { Vars e = types, g = types; size_t er = m_uncat(t, e); size_t r = do_uncat(s, g); compare("uncat", r, g, er, e); }
        { Vars e = types, g = types; Var es{septy, 0, 0}, gs = es; size_t er = m_uncatsep(t, es, e); size_t r = do_uncatsep(s, gs, g); compare("uncatsep", r, g, er, e); if(er != NP) MC_CHECK(same(es, gs), "uncatsep: separator variable is %lld, expected %lld", gs.i, es.i); }
        for(auto &f : fmts) { Buf fb(f); Vars e = types, g = types; size_t er = m_unformat(t, f, e); size_t r = do_unformat(s, csubstr(fb.p, fb.n), g); compare(("unformat " + q(f)).c_str(), r, g, er, e); }
        MC_CHECK(b.ok() && b.str() == t, "the text changed");
        mc::S(); mc::V();
    });
}
static Vars vars(std::initializer_list<Ty> l) { Vars v; for(Ty t : l) v.push_back(Var{t, 77, 77}); return v; }
SECTION(texts, 16)
{
    size_t L = mc::thorough() ? 6 : 5;
    mc::bound(mc::fmt("all texts to length %zu over {1,0,-,.,',',blank,a}: composed readers equal the sequence of single readers", L));
    std::vector<Str> fmts = {"{}", "{},{}", "{}{}", "a{} {}.", "{}a{}a{}", ""};
    std::vector<Vars> tys = {vars({I32}), vars({I32, I32}), vars({U8, CH, I32}), vars({FL, I64}), vars({BO, I32}), vars({CH, CH, CH}), vars({I32, I32, I32})};
    mc::all_strings("10-., a", 0, L, [&](Str const& t) { if(!mc::mine()) return; for(auto &v : tys) one_text(t, v, CH, fmts); });
}
// ------------------------------------------------------------------ round trips
static Vars alphabet()
{
    Vars a;
    for(long long i : {0ll, 7ll, -1ll, 2147483647ll, -2147483648ll}) a.push_back(Var{I32, i, 77});
    for(long long i : {0ll, 255ll}) a.push_back(Var{U8, i, 77});
    a.push_back(Var{I64, INT64_MIN, 77}); a.push_back(Var{I64, INT64_MAX, 77});
    for(double d : {0.0, 1.5, -2.25}) a.push_back(Var{FL, 77, d});
    a.push_back(Var{DB, 77, 1e100}); a.push_back(Var{DB, 77, -0.1}); a.push_back(Var{PT, 0x1234, 77});
    return a;
}
static void roundtrip(Vars const& v, Ty septy, char sepc, Str const& f)
{
    MC_CASE([&]{ Str d = mc::fmt("sep %s format %s values", q(&sepc, 1).c_str(), q(f).c_str()); for(auto &x : v) d += mc::fmt(" %s:%lld/%g", tyname(x.t), x.i, x.d); return d; }(), {
        char tmp[512]; Var sep{septy, sepc, 0};
        auto blank = [&] { Vars g = v; for(auto &x : g) { if(x.t == FL || x.t == DB) x.d = 77; else x.i = 78; } return g; };
        auto vals_ok = [&](Vars const& g) { for(size_t i = 0; i < v.size(); ++i) if(!same(g[i], v[i])) return false; return true; };
        { size_t n = do_catsep(substr(tmp, sizeof tmp), sep, v); Buf b(tmp, n); Vars g = blank(); Var gs{septy, 0, 0}; size_t r = do_uncatsep(csubstr(b.p, b.n), gs, g);
          MC_CHECK(r == n && vals_ok(g), "uncatsep of %s: %lld characters, values recovered: %d", q(b.str()).c_str(), (long long)r, (int)vals_ok(g)); if(v.size() > 1) MC_CHECK(gs.i == sepc, "separator read as %lld", gs.i);
          // every truncation and every single-character corruption: the composed reader equals the sequence of single readers
          Str t = b.str(); mc::T();
          std::vector<Str> fs = {f};
          if(v.size() <= 2) for(size_t k = 0; k < t.size(); ++k) { Vars e = blank(), g2 = e; Var es{septy, 0, 0}, gs2 = es; Str c = t.substr(0, k); size_t er = m_uncatsep(c, es, e); Buf cb(c); compare("truncated uncatsep", do_uncatsep(csubstr(cb.p, cb.n), gs2, g2), g2, er, e); mc::S();
            for(char x : Str("x, -9")) { c = t; c[k] = x; Vars e3 = blank(), g3 = e3; es = Var{septy, 0, 0}; gs2 = es; er = m_uncatsep(c, es, e3); Buf xb(c); compare("corrupted uncatsep", do_uncatsep(csubstr(xb.p, xb.n), gs2, g3), g3, er, e3); mc::S(); } } }
        { size_t n = do_format(substr(tmp, sizeof tmp), csubstr(f.data(), f.size()), v); Buf b(tmp, n); Vars g = blank(); size_t r = do_unformat(csubstr(b.p, b.n), csubstr(f.data(), f.size()), g); mc::T();
          MC_CHECK(r == n && vals_ok(g), "unformat of %s: %lld characters, values recovered: %d", q(b.str()).c_str(), (long long)r, (int)vals_ok(g));
          Str t = b.str();
          if(v.size() <= 2) for(size_t k = 0; k < t.size(); ++k) { Vars e = blank(), g2 = e; Str c = t.substr(0, k); size_t er = m_unformat(c, f, e); Buf cb(c); compare("truncated unformat", do_unformat(csubstr(cb.p, cb.n), csubstr(f.data(), f.size()), g2), g2, er, e); mc::S(); } }
        if(sepc == ' ') { size_t n = do_catsep(substr(tmp, sizeof tmp), sep, v); Buf b(tmp, n); Vars g = blank(); size_t r = do_uncat(csubstr(b.p, b.n), g); mc::T(); MC_CHECK(r == n && vals_ok(g), "uncat of %s: %lld characters, values recovered: %d", q(b.str()).c_str(), (long long)r, (int)vals_ok(g)); }
        mc::S(); mc::V();
    });
}
template<class F> static void tuples(size_t n, Vars const& al, F f)
{
    std::vector<size_t> ix(n, 0); Vars v(n);
    for(;;) { for(size_t i = 0; i < n; ++i) v[i] = al[ix[i]]; f(v); size_t k = n; bool done = true; while(k > 0) { --k; if(++ix[k] < al.size()) { done = false; break; } ix[k] = 0; } if(done) break; }
}
SECTION(roundtrips, 16)
{
    mc::bound("all tuples to arity 3 over 15 typed values (arity 4-5 over 4), separators ',', ';', blank, patterns with text around the placeholders: every value and the character count recovered; every truncation and corruption for arity to 2");
    Vars al = alphabet(); Vars few = {al[2], al[6], al[11], al[4]};
    const char *fm[] = {"", "{}", "{},{}", "<{} ; {}>"+0, "({},{}; {})", "{} {} {} {}", "a {}, b {}, c {}, d {}, e {}"};
    // the text after a placeholder starts with a delimiter, so that the number's end is unambiguous
    const char *f2[] = {"", "[{}]", "[{}, {}]", "x={} y={})", "x={} y={} z={}", "{};{};{};{}", "{},{},{},{},{}, end"};
    for(size_t n = 1; n <= 5; ++n) tuples(n, n <= 3 ? al : few, [&](Vars const& v) { if(!mc::mine()) return; const char *a = n == 3 ? fm[4] : n == 2 ? fm[2] : n == 4 ? fm[5] : n == 5 ? fm[6] : fm[1]; const char *b = n == 1 ? f2[1] : n == 2 ? f2[3] : n == 3 ? f2[4] : n == 4 ? f2[5] : f2[6]; roundtrip(v, CH, ',', a); roundtrip(v, CH, ' ', b); if(n <= 2) roundtrip(v, CH, ';', n == 2 ? f2[2] : f2[1]); });
    mc::bound("booleans separated by blanks; characters concatenated without separator");
    Vars bs = {Var{BO, 0, 77}, Var{BO, 1, 77}, Var{I32, 5, 77}};
    for(size_t n = 1; n <= 4; ++n) tuples(n, bs, [&](Vars const& v) { if(mc::mine()) roundtrip(v, CH, ' ', n == 1 ? "{}" : n == 2 ? "{} {}" : n == 3 ? "{} {} {}" : "{} {} {} {}"); });
    Vars cs; for(char c : Str("a1 \0", 4)) cs.push_back(Var{CH, c, 77});
    for(size_t n = 1; n <= 4; ++n) tuples(n, cs, [&](Vars const& v) {
        if(!mc::mine()) return;
        MC_CASE([&]{ Str d = "characters"; for(auto &x : v) d += mc::fmt(" %lld", x.i); return d; }(), { char tmp[16]; size_t k = do_cat(substr(tmp, sizeof tmp), v); Buf b(tmp, k); Vars g = v; for(auto &x : g) x.i = 99; size_t r = do_uncat(csubstr(b.p, b.n), g); mc::T(2); mc::S(); compare("uncat", r, g, v.size(), v); mc::V(); });
    });
}
SECTION(long_texts, 8)
{
    mc::bound("texts, blanks, literal parts and numerals of 100..300 and 65535..65537 characters; 12 values; every single missing or corrupted value");
    for(size_t n : mc::lens(6, 130, {100, 127, 128, 255, 256, 257, 300, 512, 65535, 65536, 65537}))
    {
        if(!mc::mine()) continue;
        Str L(n, 'l'), B(n, ' '), Z(n, '0');
        MC_CASE(mc::fmt("literal parts of %zu characters", n), {
            auto fm = [&](Str const& t, Str const& f, size_t er, int ea, int eb) { Buf tb(t); Buf fb(f); int a = 77; int b = 77; size_t r = c4::unformat(csubstr(tb.p, tb.n), csubstr(fb.p, fb.n), a, b); mc::T(); mc::S(); MC_CHECK(r == er, "unformat reported %lld characters, expected %lld", (long long)r, (long long)er); if(er != NP) MC_CHECK(a == ea && b == eb, "unformat read %d %d, expected %d %d", a, b, ea, eb); };
            auto sp = [&](Str const& t, size_t er, int ea, int eb) { Buf tb(t); int a = 77; int b = 77; char c = 0; size_t r = c4::uncatsep(csubstr(tb.p, tb.n), c, a, b); mc::T(); mc::S(); MC_CHECK(r == er, "uncatsep reported %lld characters, expected %lld", (long long)r, (long long)er); if(er != NP) MC_CHECK(a == ea && b == eb && c == ',', "uncatsep read %d %d", a, b); };
            auto uc = [&](Str const& t, size_t er, int ea, int eb) { Buf tb(t); int a = 77; int b = 77; size_t r = c4::uncat(csubstr(tb.p, tb.n), a, b); mc::T(); mc::S(); MC_CHECK(r == er, "uncat reported %lld characters, expected %lld", (long long)r, (long long)er); if(er != NP) MC_CHECK(a == ea && b == eb, "uncat read %d %d", a, b); };
            fm(L + "1 " + L + "2", L + "{} " + L + "{}", 2 * n + 3, 1, 2); fm("1 " + L + "2 " + L, "{} " + L + "{} " + L, 2 * n + 4, 1, 2); fm("1," + B + "2", "{},{}", n + 3, 1, 2); fm(Z + "1," + Z + "2", "{},{}", 2 * n + 3, 1, 2); fm("1 " + L, "{} " + L + "{}", NP, 0, 0); fm("1 " + L + "x", "{} " + L + "{}", NP, 0, 0);
            sp(B + "1," + B + "2", 2 * n + 3, 1, 2); sp(Z + "1," + Z + "2", 2 * n + 3, 1, 2); sp(B + "1," + B, NP, 0, 0); sp(B + "1", NP, 0, 0); sp("1," + Z + "2," + L, n + 3, 1, 2);
            uc(B + "1 " + B + "2", 2 * n + 3, 1, 2); uc(Z + "1 " + Z + "2 " + L, 2 * n + 3, 1, 2); uc(Z + "1" + B, NP, 0, 0); uc(B, NP, 0, 0);
            mc::V();
        });
    }
    // many values
    for(int miss = -1; miss < 12; ++miss)
    {
        if(!mc::mine()) continue;
        MC_CASE(mc::fmt("12 values, value %d malformed", miss), {
            Str t; Str f; Str w; for(int i = 0; i < 12; ++i) { Str v = i == miss ? Str("x") : std::to_string(i * 1001); t += (i ? "," : "") + v; f += i ? ",{}" : "{}"; w += (i ? " " : "") + v; }
            Buf tb(t); Buf fb(f); Buf wb(w); int v[12];
            #define V12 v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]
            for(int k = 0; k < 3; ++k)
            {
                for(int &x : v) x = 77;
                char c = 0; size_t r = k == 0 ? c4::unformat(csubstr(tb.p, tb.n), csubstr(fb.p, fb.n), V12) : k == 1 ? c4::uncatsep(csubstr(tb.p, tb.n), c, V12) : c4::uncat(csubstr(wb.p, wb.n), V12); mc::T(); mc::S();
                MC_CHECK(r == (miss < 0 ? t.size() : NP), "reader %d reported %lld characters", k, (long long)r);
                if(miss < 0) for(int i = 0; i < 12; ++i) MC_CHECK(v[i] == i * 1001, "reader %d: value %d is %d", k, i, v[i]);
            }
            mc::V();
        });
    }
}
SECTION(surplus, 1)
{
    mc::bound("more placeholders than arguments, more arguments than placeholders, empty texts and patterns, direct calls");
    MC_CASE("direct", {
        int a = 0, b = 0, c = 33; char sep = 0; float f = 0; unsigned u = 0;
        MC_CHECK(c4::unformat("1 and 2", "{} and {}", a, b) == 7 && a == 1 && b == 2, "unformat"); MC_CHECK(c4::unformat("5,6", "{},{}", a, b, c) == 3 && c == 33, "surplus argument"); MC_CHECK(c4::unformat("5,{}", "{},{}", a) == 4 && a == 5, "surplus placeholder");
        MC_CHECK(c4::uncatsep("3,-4,0x10", sep, a, b, u) == 9 && a == 3 && b == -4 && u == 16 && sep == ',', "uncatsep"); MC_CHECK(c4::uncat("1 2.5 3", a, f, u) == 7 && f == 2.5f && u == 3, "uncat");
        MC_CHECK(c4::unformat("1", "{} and more", a) == 1, "pattern longer than the text"); MC_CHECK(c4::unformat("", "{}", a) == NP && c4::uncat("", a) == NP && c4::uncatsep("", sep, a) == NP && c4::uncatsep("1", sep, a, b) == NP && c4::uncatsep("1,", sep, a, b) == NP && c4::uncatsep("1,x", sep, a, b) == NP && c4::uncat("1 x", a, b) == NP && c4::unformat("1;x", "{};{}", a, b) == NP, "missing or malformed value");
        mc::T(14); mc::S(); mc::V();
    });
}
SECTION(strings, 4)
{
    mc::bound("texts of every length 0..130 and around 256, 65536 read into a view, and copied into destinations of every capacity 0..length+3, with the destination inside a larger buffer; the three string readers and a std::string");
    for(size_t n : mc::lens(0, 130, {255, 256, 257, 4096, 65535, 65536, 65537}))
    {
        if(!mc::mine()) continue;
        MC_CASE(mc::fmt("text of %zu characters", n), {
            Str t; for(size_t i = 0; i < n; ++i) t += (char)(i * 37 + i / 251);
            Buf tb(t); csubstr s(tb.p, tb.n);
            csubstr w("old"); bool ok = c4::from_chars(s, &w); mc::T(); mc::S();
            MC_CHECK(ok && w.str == s.str && w.len == n, "reading %zu characters into a view gives %d, length %zu", n, (int)ok, w.len);
            Str z = "old contents"; ok = c4::from_chars(s, &z); mc::T(); MC_CHECK(ok && z == t, "reading %zu characters into a string gives %d, length %zu", n, (int)ok, z.size());
            size_t lo = n > 140 ? n - 3 : 0;
            for(size_t cap = lo; cap <= n + 3; ++cap)
            {
                Buf d(cap); d.fill(); substr v(d.p, cap); ok = c4::from_chars(s, &v); mc::T(); mc::S();
                MC_CHECK(ok == (cap >= n), "copying %zu characters into room for %zu gives %d", n, cap, (int)ok);
                MC_CHECK(v.str == d.p && v.len == (cap >= n ? n : cap), "copying %zu characters into room for %zu leaves a view of %zu", n, cap, v.len);
                if(cap >= n) { MC_CHECK(n == 0 || memcmp(d.p, t.data(), n) == 0, "the copy of %zu characters differs", n); for(size_t i = n; i < cap; ++i) MC_CHECK((unsigned char)d.p[i] == 0xEE, "copying %zu characters wrote byte %zu", n, i); }
                mc::V();
            }
            Buf d(n + 16); d.fill(); substr v(d.p + 8, n); ok = c4::from_chars(s, &v); mc::T();
            bool good = ok && v.str == d.p + 8 && v.len == n && (n == 0 || memcmp(v.str, t.data(), n) == 0); for(size_t i = 0; i < 8; ++i) good = good && (unsigned char)d.p[i] == 0xEE && (unsigned char)d.p[8 + n + i] == 0xEE;
            MC_CHECK(good, "copying %zu characters into the middle of a buffer", n); mc::V();
        });
    }
}
SECTION(all_bytes, 8)
{
    mc::bound("every ordered pair of different bytes x,y as separators, literal text and around numbers");
    mc::byte_pairs([&](char x, char y) {
        for(auto const& t : {Str{'1', x, '2', y, '3'}, Str{x, '1', y, '2'}, Str{'1', x, y, '2'}, Str{x, y}}) one_text(t, vars({I32, I32}), CH, {Str{'{', '}', x, '{', '}'}, Str{'{', '}', x, y, '{', '}'}, Str{x, '{', '}', y, '{', '}'}});
        one_text(Str{x, ',', y, '1'}, vars({CH, CH, I32}), CH, {"{},{}{}"}); one_text(Str{'1', x, y}, vars({U8, CH}), CH, {"{}{}"});
    });
}
MC_MAIN
