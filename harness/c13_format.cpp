// C13: concatenation and formatting
#include "mc.hpp"
#include <c4/format.hpp>
#include <c4/base64.hpp>
#include <c4/std/string.hpp>
#include <c4/std/vector.hpp>
using c4::csubstr; using c4::substr;
using mc::Buf; using mc::q;
typedef std::string Str;
namespace fm = c4::fmt;

// an argument chosen at run time; writing it calls the library's own writer for its kind
namespace hx {
struct Arg { int k; };
struct Txt { const char *t; size_t n; };
static const Txt TXT[] = { {"0", 1}, {"-12345", 6}, {"", 0}, {"ab", 2}, {"x", 1}, {"true", 4}, {"0xff", 4}, {"007", 3}, {"{}", 2}, {"", 0}, {"1.5", 3}, {"  7", 3}, {"q..", 3}, {"YQ==", 4}, {"a\0b", 3}, {"18446744073709551615", 20}, {"0b101", 5} };
enum { NARG = sizeof(TXT) / sizeof(TXT[0]) };
inline size_t to_chars(substr buf, Arg a)
{
    mc::T();
    switch(a.k)
    {
    case 0: return c4::to_chars(buf, 0);
    case 1: return c4::to_chars(buf, -12345);
    case 2: return c4::to_chars(buf, csubstr(""));
    case 3: return c4::to_chars(buf, csubstr("ab"));
    case 4: return c4::to_chars(buf, 'x');
    case 5: return c4::to_chars(buf, fm::boolalpha(true));
    case 6: return c4::to_chars(buf, fm::hex(255));
    case 7: return c4::to_chars(buf, fm::zpad(7, 3));
    case 8: return c4::to_chars(buf, csubstr("{}"));
    case 9: return c4::to_chars(buf, csubstr{});
    case 10: return c4::to_chars(buf, 1.5);
    case 11: return c4::to_chars(buf, fm::right(7, 3));
    case 12: return c4::to_chars(buf, fm::left('q', 3, '.'));
    case 13: return c4::to_chars(buf, fm::cbase64(csubstr("a")));
    case 14: return c4::to_chars(buf, csubstr("a\0b", 3));
    case 15: return c4::to_chars(buf, ~(uint64_t)0);
    case 16: return c4::to_chars(buf, fm::bin(5u));
    }
    return 0;
}
inline Str text(int k) { return Str(TXT[k].t, TXT[k].n); }
// a container whose memory is exactly its size: overruns trap
struct Exact
{
    char *p = nullptr; size_t n = 0; size_t resizes = 0;
    Exact() {}
    Exact(Exact const& o) { resize(o.n); if(n) memcpy(p, o.p, n); }
    Exact& operator=(Exact const&) = delete;
    Exact(Exact &&o) : p(o.p), n(o.n) { o.p = nullptr; o.n = 0; }
    ~Exact() { free(p); }
    size_t size() const { return n; }
    void resize(size_t m) { ++resizes; char *q = (char*)malloc(m ? m : 1); size_t c = m < n ? m : n; if(c) memcpy(q, p, c); if(m > c) memset(q + c, '#', m - c); free(p); p = q; n = m; }
};
inline substr to_substr(Exact &e) { return substr(e.p, e.n); }
inline csubstr to_csubstr(Exact const& e) { return csubstr(e.p, e.n); }
}
using hx::Arg;
using hx::to_csubstr;
using c4::to_csubstr;
static Str get(Str const& s) { return s; }
static Str get(std::vector<char> const& v) { return Str(v.begin(), v.end()); }
static Str get(hx::Exact const& e) { return Str(e.p ? e.p : "", e.n); }
static void put(Str &c, Str const& v) { c = v; }
static void put(std::vector<char> &c, Str const& v) { c.assign(v.begin(), v.end()); }
static void put(hx::Exact &c, Str const& v) { c.resize(v.size()); if(v.size()) memcpy(c.p, v.data(), v.size()); }

// ------------------------------------------------------------------ model
static Str m_cat(std::vector<int> const& a) { Str r; for(int k : a) r += hx::text(k); return r; }
static Str m_catsep(int sep, std::vector<int> const& a) { Str r; for(size_t i = 0; i < a.size(); ++i) { if(i) r += hx::text(sep); r += hx::text(a[i]); } return r; }
static Str m_format(Str const& f, std::vector<int> const& a)
{
    Str r; size_t n = 0;
    for(size_t i = 0; i < f.size();)
    {
        if(n < a.size() && i + 1 < f.size() && f[i] == '{' && f[i + 1] == '}') { r += hx::text(a[n++]); i += 2; }
        else r += f[i++];
    }
    return r;
}
// ------------------------------------------------------------------ dispatch over arity
#define A_(i) Arg{a[i]}
#define SPREAD(F, ...) \
    switch(a.size()) { case 0: F(__VA_ARGS__); break; case 1: F(__VA_ARGS__, A_(0)); break; case 2: F(__VA_ARGS__, A_(0), A_(1)); break; case 3: F(__VA_ARGS__, A_(0), A_(1), A_(2)); break; \
    case 4: F(__VA_ARGS__, A_(0), A_(1), A_(2), A_(3)); break; case 5: F(__VA_ARGS__, A_(0), A_(1), A_(2), A_(3), A_(4)); break; case 6: F(__VA_ARGS__, A_(0), A_(1), A_(2), A_(3), A_(4), A_(5)); break; }
static size_t do_cat(substr b, std::vector<int> const& a) { size_t r = 0; SPREAD(r = c4::cat, b) return r; }
static size_t do_catsep(substr b, int sep, std::vector<int> const& a) { size_t r = 0; Arg s{sep}; SPREAD(r = c4::catsep, b, s) return r; }
static size_t do_format(substr b, csubstr f, std::vector<int> const& a) { size_t r = 0; SPREAD(r = c4::format, b, f) return r; }
static substr do_cat_sub(substr b, std::vector<int> const& a) { substr r; SPREAD(r = c4::cat_sub, b) return r; }
static substr do_catsep_sub(substr b, int sep, std::vector<int> const& a) { substr r; Arg s{sep}; SPREAD(r = c4::catsep_sub, b, s) return r; }
static substr do_format_sub(substr b, csubstr f, std::vector<int> const& a) { substr r; SPREAD(r = c4::format_sub, b, f) return r; }
template<class C> static void do_catrs(C *c, std::vector<int> const& a) { SPREAD(c4::catrs, c) }
template<class C> static void do_catseprs(C *c, int sep, std::vector<int> const& a) { Arg s{sep}; SPREAD(c4::catseprs, c, s) }
template<class C> static void do_formatrs(C *c, csubstr f, std::vector<int> const& a) { SPREAD(c4::formatrs, c, f) }
template<class C> static csubstr do_catrs_append(C *c, std::vector<int> const& a) { csubstr r; SPREAD(r = c4::catrs_append, c) return r; }
template<class C> static csubstr do_catseprs_append(C *c, int sep, std::vector<int> const& a) { csubstr r; Arg s{sep}; SPREAD(r = c4::catseprs_append, c, s) return r; }
template<class C> static csubstr do_formatrs_append(C *c, csubstr f, std::vector<int> const& a) { csubstr r; SPREAD(r = c4::formatrs_append, c, f) return r; }
static Str render(std::vector<int> const& a) { Str r = "("; for(size_t i = 0; i < a.size(); ++i) r += (i ? "," : "") + q(hx::text(a[i])); return r + ")"; }

static bool has_real(std::vector<int> const& a) { for(int k : a) if(k == 10) return true; return false; }
enum Kind { CAT, SEP, FMT };
struct Call { Kind k; int sep; Str f; std::vector<int> a; };
static Str model(Call const& c) { return c.k == CAT ? m_cat(c.a) : c.k == SEP ? m_catsep(c.sep, c.a) : m_format(c.f, c.a); }
static Str show(Call const& c) { return c.k == CAT ? "cat" + render(c.a) : c.k == SEP ? "catsep sep=" + q(hx::text(c.sep)) + render(c.a) : "format " + q(c.f) + render(c.a); }
static size_t run_buf(Call const& c, substr b) { csubstr f(c.f.data(), c.f.size()); return c.k == CAT ? do_cat(b, c.a) : c.k == SEP ? do_catsep(b, c.sep, c.a) : do_format(b, f, c.a); }
static substr run_sub(Call const& c, substr b) { csubstr f(c.f.data(), c.f.size()); return c.k == CAT ? do_cat_sub(b, c.a) : c.k == SEP ? do_catsep_sub(b, c.sep, c.a) : do_format_sub(b, f, c.a); }
template<class C> static void run_rs(Call const& c, C *cont) { csubstr f(c.f.data(), c.f.size()); if(c.k == CAT) do_catrs(cont, c.a); else if(c.k == SEP) do_catseprs(cont, c.sep, c.a); else do_formatrs(cont, f, c.a); }
template<class C> static csubstr run_append(Call const& c, C *cont) { csubstr f(c.f.data(), c.f.size()); return c.k == CAT ? do_catrs_append(cont, c.a) : c.k == SEP ? do_catseprs_append(cont, c.sep, c.a) : do_formatrs_append(cont, f, c.a); }

// exact-fit, roomy and every smaller buffer
static void fixed(Call const& c, bool all_lengths)
{
    MC_CASE(show(c), {
        Str e = model(c); bool real = has_real(c.a);
        Buf fb(c.f); // the format string itself lies in exact memory
        Call cc = c;
        for(size_t n = all_lengths ? 0 : e.size(); n <= e.size() + (all_lengths ? 2 : 0); ++n)
        {
            Buf b(n); size_t r = cc.k == FMT ? do_format(substr(b.p, n), csubstr(fb.p, fb.n), cc.a) : run_buf(cc, substr(b.p, n));
            mc::S();
            bool fits = n >= e.size();
            if(fits || !real) MC_CHECK(r == e.size(), "buffer %zu: returned %zu, expected %zu (%s)", n, r, e.size(), q(e).c_str()); else MC_CHECK(r > n, "buffer %zu: returned %zu though the text does not fit", n, r);
            MC_CHECK(b.ok(), "buffer %zu: wrote before it", n);
            if(fits) MC_CHECK(b.str(e.size()) == e, "buffer %zu: %s, expected %s", n, q(b.str(e.size())).c_str(), q(e).c_str());
        }
        { Buf b(e.size()); substr r = run_sub(cc, substr(b.p, b.n)); MC_CHECK(r.str == b.p && r.len == e.size() && b.str() == e, "view variant: %s, expected %s", q(Str(r.str ? r.str : "", r.len)).c_str(), q(e).c_str()); }
        mc::V();
    });
}
template<class C> static void container(const char *cn, Call const& c, size_t prev, size_t reserve)
{
    MC_CASE(mc::fmt("%s previous size %zu reserve %zu: ", cn, prev, reserve) + show(c), {
        Str e = model(c); Str before; for(size_t i = 0; i < prev; ++i) before += (char)('A' + i % 26);
        { C cont; put(cont, before); run_rs(c, &cont); mc::T(); MC_CHECK(get(cont) == e, "overwrite: %s, expected %s", q(get(cont)).c_str(), q(e).c_str()); }
        { C cont; put(cont, before); csubstr r = run_append(c, &cont); mc::T(); MC_CHECK(get(cont) == before + e, "append: %s, expected %s", q(get(cont)).c_str(), q(before + e).c_str());
          csubstr w = to_csubstr((C const&)cont); MC_CHECK(r.len == e.size() && (e.empty() || r.str == w.str + prev), "append: the returned view is not the appended part"); }
        mc::S(); mc::V();
    });
}
static void containers(Call const& c)
{
    size_t n = model(c).size();
    for(size_t prev = 0; prev <= n + 2; prev += (n > 8 ? 3 : 1)) { container<Str>("string", c, prev, 0); container<std::vector<char>>("vector", c, prev, 0); container<hx::Exact>("exact", c, prev, 0); }
}
template<class F> static void tuples(size_t arity, std::vector<int> const& al, F f)
{
    std::vector<size_t> ix(arity, 0); std::vector<int> a(arity);
    for(;;)
    {
        for(size_t i = 0; i < arity; ++i) a[i] = al[ix[i]];
        f(a);
        size_t k = arity; bool done = true; while(k > 0) { --k; if(++ix[k] < al.size()) { done = false; break; } ix[k] = 0; }
        if(done) break;
    }
}
static std::vector<int> all_args() { std::vector<int> v; for(int i = 0; i < hx::NARG; ++i) v.push_back(i); return v; }

SECTION(cat, 16)
{
    mc::bound("cat/catsep: all argument tuples to arity 3 over 17 values, arity 4 over 8, 5-6 over 4; separators {',', empty, long, braces}; every buffer length to arity 2, exact fit beyond");
    std::vector<int> all = all_args(); std::vector<int> some = {0, 1, 2, 3, 4, 8, 9, 10}; std::vector<int> few = {1, 2, 4, 10};
    auto go = [&](std::vector<int> const& a, bool lens) { if(!mc::mine()) return; fixed(Call{CAT, 0, "", a}, lens); for(int s : {4, 2, 1, 8}) fixed(Call{SEP, s, "", a}, lens); };
    for(size_t n = 0; n <= 2; ++n) tuples(n, all, [&](std::vector<int> const& a) { go(a, true); });
    tuples(3, all, [&](std::vector<int> const& a) { go(a, mc::thorough()); }); tuples(3, some, [&](std::vector<int> const& a) { go(a, true); });
    tuples(4, mc::thorough() ? all : some, [&](std::vector<int> const& a) { go(a, false); });
    tuples(5, few, [&](std::vector<int> const& a) { go(a, true); }); tuples(6, few, [&](std::vector<int> const& a) { go(a, false); });
}
SECTION(format, 16)
{
    size_t L = mc::thorough() ? 8 : 6;
    mc::bound(mc::fmt("format: all format strings to length %zu over {'{','}','a'}, 0 to 4 arguments; every buffer length for strings to length 4", L));
    std::vector<int> some = {1, 2, 8}; 
    mc::all_strings("{}a", 0, L, [&](Str const& f) {
        if(!mc::mine()) return;
        for(size_t n = 0; n <= 4; ++n) tuples(n, n <= 2 ? some : std::vector<int>{1}, [&](std::vector<int> const& a) { fixed(Call{FMT, 0, f, a}, f.size() <= 4); });
    });
    mc::bound("format: patterns with 0 to 6 placeholders, every argument kind at every place");
    std::vector<int> all = all_args();
    for(Str f : {Str("{}"), Str("{}{}"), Str("a{}b{}c"), Str("{ }{}"), Str("{}}{{}"), Str("{{}}"), Str("a\0{}\0", 5)}) for(size_t n = 0; n <= 2; ++n) tuples(n, all, [&](std::vector<int> const& a) { if(mc::mine()) fixed(Call{FMT, 0, f, a}, true); });
    for(size_t ph = 0; ph <= 7; ++ph) for(size_t n = 0; n <= 6; ++n) { if(!mc::mine()) continue; Str f; for(size_t i = 0; i < ph; ++i) f += "<{}>"; tuples(n, n > 4 ? std::vector<int>{0, 1} : std::vector<int>{0, 2, 10}, [&](std::vector<int> const& a) { fixed(Call{FMT, 0, f, a}, false); }); }
}
SECTION(resizing, 16)
{
    mc::bound("resizing variants: all tuples to arity 2 over 17 values, arity 3 over 4, formats with 0-3 placeholders; every previous container size; std::string, std::vector and an exact-memory container; overwrite and append");
    std::vector<int> all = all_args(); std::vector<int> few = {1, 2, 4, 10};
    auto go = [&](std::vector<int> const& a) {
        if(!mc::mine()) return;
        containers(Call{CAT, 0, "", a}); for(int s : {4, 2, 3}) containers(Call{SEP, s, "", a});
        for(Str f : {Str(""), Str("a{}b"), Str("{}{}"), Str("x{}y{}z{}")}) containers(Call{FMT, 0, f, a});
    };
    for(size_t n = 0; n <= 2; ++n) tuples(n, all, go);
    tuples(3, mc::thorough() ? all : few, go);
}
SECTION(returning, 1)
{
    mc::bound("the variants that return a new container");
    tuples(2, all_args(), [&](std::vector<int> const& a) {
        MC_CASE("returning " + render(a), {
            Arg x{a[0]}, y{a[1]}, s{4};
            mc::T(6); mc::S();
            MC_CHECK(get(c4::catrs<Str>(x, y)) == m_cat(a) && get(c4::catrs<std::vector<char>>(x, y)) == m_cat(a) && get(c4::catrs<hx::Exact>(x, y)) == m_cat(a), "catrs");
            MC_CHECK(get(c4::catseprs<Str>(s, x, y)) == m_catsep(4, a) && get(c4::catseprs<std::vector<char>>(s, x, y)) == m_catsep(4, a), "catseprs");
            MC_CHECK(get(c4::formatrs<Str>("a{}b{}c", x, y)) == m_format("a{}b{}c", a) && get(c4::formatrs<std::vector<char>>("a{}b{}c", x, y)) == m_format("a{}b{}c", a), "formatrs");
            mc::V();
        });
    });
}
// long texts: arguments, separators, formats and containers beyond 255 and 65535 characters
template<class C> static void long_container(const char *cn, Str const& big, size_t prev)
{
    MC_CASE(mc::fmt("%s of %zu characters, argument of %zu", cn, prev, big.size()), {
        csubstr b(big.data(), big.size()); Str before(prev, 'P'); std::string n300(300, '0');
        auto chk = [&](const char *w, C const& c, Str const& e) { mc::T(); mc::S(); MC_CHECK(get(c) == e, "%s: %zu characters, expected %zu, or other ones", w, get(c).size(), e.size()); };
        { C c; put(c, before); c4::catrs(&c, b, 7); chk("catrs", c, big + "7"); c4::catrs(&c, 1); chk("catrs", c, "1"); c4::catrs(&c, 7, b); chk("catrs", c, "7" + big); }
        { C c; put(c, before); c4::catseprs(&c, b, 1, 2, 3); chk("catseprs", c, "1" + big + "2" + big + "3"); }
        { C c; put(c, before); c4::formatrs(&c, "<{}|{}>", b, 5); chk("formatrs", c, "<" + big + "|5>"); }
        { C c; put(c, before); Str f = big + "{}" + big; c4::formatrs(&c, csubstr(f.data(), f.size()), 5); chk("formatrs, long format", c, big + "5" + big); }
        { C c; put(c, before); csubstr r = c4::catrs_append(&c, b, 7); chk("catrs_append", c, before + big + "7"); MC_CHECK(r.len == big.size() + 1 && r.str == to_csubstr((C const&)c).str + prev, "catrs_append: wrong view"); r = c4::catrs_append(&c, 'z'); chk("catrs_append", c, before + big + "7z"); MC_CHECK(r.len == 1, "catrs_append: wrong view"); }
        { C c; put(c, before); csubstr r = c4::catseprs_append(&c, ", ", 1, b); chk("catseprs_append", c, before + "1, " + big); MC_CHECK(r.len == big.size() + 3, "catseprs_append: wrong view"); }
        { C c; put(c, before); csubstr r = c4::formatrs_append(&c, "{}!{}", 1, b); chk("formatrs_append", c, before + "1!" + big); MC_CHECK(r.len == big.size() + 2, "formatrs_append: wrong view"); }
        chk("catrs returning", c4::catrs<C>(b, 1), big + "1"); chk("formatrs returning", c4::formatrs<C>("{}{}", 1, b), "1" + big);
        mc::V();
    });
}
SECTION(long_texts, 8)
{
    mc::bound("arguments, separators, formats and containers of 100..300 and 65535..65537 characters; 20 arguments and 300 placeholders");
    for(size_t n : mc::lens(8, 40, {16, 100, 127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 4095, 4096, 32768, 65535, 65536, 65537})) for(size_t prev : {(size_t)0, (size_t)1, (size_t)100, (size_t)255, (size_t)256, (size_t)257, n - 1, n, n + 1, n + 2, n + 300, (size_t)65536})
    {
        if(!mc::mine()) continue;
        Str big; for(size_t i = 0; i < n; ++i) big += (char)('a' + i % 23);
        long_container<Str>("string", big, prev); long_container<std::vector<char>>("vector", big, prev); long_container<hx::Exact>("exact", big, prev);
    }
    // the functions that return the written part
    for(size_t n : mc::lens(8, 40, {127, 128, 255, 256, 257, 300, 4096, 32768, 65535, 65536, 65537})) for(size_t extra : {0u, 1u, 5u, 300u, 65536u})
    {
        if(!mc::mine()) continue;
        MC_CASE(mc::fmt("cat_sub, catsep_sub, format_sub of %zu characters with %zu to spare", n, extra), {
            Str big; for(size_t i = 0; i < n; ++i) big += (char)('a' + i % 23);
            csubstr b(big.data(), n); substr mb(&big[0], n); Buf o(n + 7 + extra); substr d(o.p, o.n);
            auto is = [&](const char *w, substr r, Str const& e) { mc::T(); mc::S(); MC_CHECK(r.str == o.p && r.len == e.size() && Str(r.str, r.len) == e, "%s: %zu characters, expected %zu, or other ones", w, r.len, e.size()); };
            is("cat_sub", c4::cat_sub(d, 1, b, 'x'), "1" + big + "x"); is("cat_sub", c4::cat_sub(d, mb), big); is("catsep_sub", c4::catsep_sub(d, "--", 1, b, 2), "1--" + big + "--2"); is("catsep_sub", c4::catsep_sub(d, mb, 1, 2), "1" + big + "2");
            is("format_sub", c4::format_sub(d, "<{}>", b), "<" + big + ">"); Str f = "{}" + big + "{}"; is("format_sub", c4::format_sub(d, csubstr(f.data(), f.size()), 1, 22), "1" + big + "22");
            mc::V();
        });
    }
    for(size_t ph : {19, 20, 21, 100, 255, 256, 257, 300})
    {
        if(!mc::mine()) continue;
        MC_CASE(mc::fmt("20 arguments, %zu placeholders", ph), {
            Str f; for(size_t i = 0; i < ph; ++i) f += "ab{}c"; Str e; size_t k = 0; for(size_t i = 0; i < ph; ++i) { e += "ab"; if(k < 20) e += std::to_string(k * 7); else e += "{}"; ++k; e += "c"; }
            csubstr fs(f.data(), f.size()); 
            #define A20 0, 7, 14, 21, 28, 35, 42, 49, 56, 63, 70, 77, 84, 91, 98, 105, 112, 119, 126, 133
            Buf b(e.size()); mc::T(); MC_CHECK(c4::format(substr(b.p, b.n), fs, A20) == e.size() && b.str() == e, "format: %s", q(b.str()).c_str());
            Str c; c4::formatrs(&c, fs, A20); mc::T(); MC_CHECK(c == e, "formatrs: %s", q(c).c_str());
            Str m; Str ms; for(size_t i = 0; i < 20; ++i) { m += std::to_string(i * 7); if(i) ms += ", "; ms += std::to_string(i * 7); }
            Buf b2(m.size()); mc::T(); MC_CHECK(c4::cat(substr(b2.p, b2.n), A20) == m.size() && b2.str() == m, "cat"); Buf b3(ms.size()); mc::T(); MC_CHECK(c4::catsep(substr(b3.p, b3.n), ", ", A20) == ms.size() && b3.str() == ms, "catsep");
            for(size_t n = 0; n < ms.size(); ++n) { Buf x(n); mc::T(); MC_CHECK(c4::catsep(substr(x.p, n), ", ", A20) == ms.size(), "catsep size, buffer %zu", n); Buf y(n < m.size() ? n : 0); MC_CHECK(c4::cat(substr(y.p, y.n), A20) == m.size(), "cat size"); Buf z(n); MC_CHECK(c4::format(substr(z.p, n), fs, A20) == e.size(), "format size"); }
            mc::S(); mc::V();
        });
    }
}
// histories: overwrites and appends in any order on one container
template<class C> static void history(const char *cn, std::vector<Call> const& calls, std::vector<size_t> const& ix)
{
    MC_CASE([&]{ Str d = cn; for(size_t i : ix) d += mc::fmt(" %s:", i % 2 ? "append" : "set") + show(calls[i / 2]); return d; }(), {
        C cont; Str m;
        for(size_t i : ix)
        {
            Call const& c = calls[i / 2]; Str e = model(c);
            if(i % 2) { csubstr r = run_append(c, &cont); m += e; MC_CHECK(r.len == e.size() && Str(r.str ? r.str : "", r.len) == e, "append returned %s, expected %s", q(Str(r.str ? r.str : "", r.len)).c_str(), q(e).c_str()); }
            else { run_rs(c, &cont); m = e; }
            mc::T(); mc::S();
            MC_CHECK(get(cont) == m, "container is %s, expected %s", q(get(cont)).c_str(), q(m).c_str());
        }
        mc::V();
    });
}
SECTION(histories, 8)
{
    std::vector<Call> calls = { {CAT, 0, "", {}}, {CAT, 0, "", {1, 10}}, {SEP, 4, "", {3, 2, 15}}, {FMT, 0, "<{}>", {8}}, {FMT, 0, "{}", {0}} };
    size_t D = mc::thorough() ? 5 : 4;
    mc::bound(mc::fmt("all sequences of %zu overwrites/appends out of 10 on one container", D));
    std::vector<size_t> ix(D, 0);
    for(;;)
    {
        if(mc::mine()) { history<Str>("string", calls, ix); history<std::vector<char>>("vector", calls, ix); history<hx::Exact>("exact", calls, ix); }
        size_t k = D; bool done = true; while(k > 0) { --k; if(++ix[k] < calls.size() * 2) { done = false; break; } ix[k] = 0; }
        if(done) break;
    }
}
// arguments of the real types, directly
SECTION(direct, 1)
{
    mc::bound("direct calls with literals, arrays, C strings, standard strings and views, mixed");
    MC_CASE("direct", {
        Buf b(64); substr s(b.p, b.n); std::string ss("str"); std::string const css("cstr"); const char *cp = "cptr"; char arr[] = "arr"; csubstr cs("view"); std::vector<char> vc{'v', 'c'};
        auto is = [&](size_t r, const char *w) { MC_CHECK(Str(b.p, r) == w, "got %s, expected %s", q(Str(b.p, r)).c_str(), q(Str(w)).c_str()); mc::T(); mc::S(); };
        is(c4::cat(s, "lit", 1, ss, 'c', css, 2.5f, cp, true, arr, (unsigned char)7, cs), "lit1strccstr2.5cptr1arr7view");
        is(c4::catsep(s, "--", 1, vc, ss, cs, -1L), "1--vc--str--view---1");
        is(c4::catsep(s, ' ', (short)-3, 4ull, substr(arr)), "-3 4 arr"); is(c4::catsep(s, 0, 1, 2, 3), "10203");
        is(c4::format(s, "{}:{} [{}]", ss, cp, arr), "str:cptr [arr]"); is(c4::format(s, csubstr("{}"), (void*)nullptr), "0x0");
        is(c4::cat(s, fm::integral(-255, 16), ' ', fm::oct(8), ' ', fm::bin(2), ' ', fm::zpad(fm::hex(10), 4), ' ', fm::real(1.25, 1), ' ', fm::boolalpha(0)), "-0xff 0o10 0b10 0x000a 1.2 false");
        is(c4::cat(s, fm::left(fm::hex(10), 6, '_'), fm::right("ab", 4), fm::right(fm::boolalpha(1), 2)), "0xa___  abtrue");
        mc::V();
    });
}
SECTION(all_bytes, 8)
{
    mc::bound("every byte in patterns over {byte,{,}} to length 6; every ordered pair of different bytes as arguments, separators and literal text");
    auto want = [](Str f, std::vector<Str> const& a) { Str r; size_t fp = 0; for(size_t i = 0; i < a.size(); ++i) { size_t ph = f.find("{}", fp); if(ph == Str::npos) break; r += f.substr(fp, ph - fp) + a[i]; fp = ph + 2; } return r + f.substr(fp); };
    auto fm2 = [&](Str const& f, Str const& a, Str const& b) {
        MC_CASE(mc::fmt("pattern %s arguments %s %s", q(f).c_str(), q(a).c_str(), q(b).c_str()), {
            Str e = want(f, {a, b}); Buf fb(f); Buf ab(a); Buf bb(b); csubstr ca(ab.p, ab.n); csubstr cb(bb.p, bb.n);
            Buf d(e.size()); size_t r = c4::format(substr(d.p, d.n), csubstr(fb.p, fb.n), ca, cb); mc::T(); mc::S();
            MC_CHECK(r == e.size() && d.str() == e, "format gives %s (%zu), expected %s", q(d.str()).c_str(), r, q(e).c_str());
            Str s; c4::formatrs(&s, csubstr(fb.p, fb.n), ca, cb); mc::T(); MC_CHECK(s == e, "formatrs gives %s, expected %s", q(s).c_str(), q(e).c_str()); mc::V();
        });
    };
    for(int x = 0; x < 256; ++x) { if(!mc::mine()) continue; mc::all_strings(x == '{' || x == '}' ? Str("{}") : Str{(char)x, '{', '}'}, 0, 5, [&](Str const& f) { fm2(f, Str(1, (char)x), "7"); }); }
    mc::byte_pairs([&](char x, char y) {
        fm2(Str{x, '{', '}', y, '{', '}', x, y}, Str{y, x}, Str{x}); fm2(Str{'{', x, y, '}', '{', '}'}, Str{x, y}, Str{y});
        MC_CASE(mc::fmt("bytes %s", q(Str{x, y}).c_str()), {
            Str a{x, y}; Str b{y, y, x}; Buf ab(a); Buf bb(b); csubstr ca(ab.p, ab.n); csubstr cb(bb.p, bb.n);
            auto is = [&](const char *w, Str const& e, size_t r, Buf const& d) { mc::T(); mc::S(); MC_CHECK(r == e.size() && d.str() == e, "%s gives %s (%zu), expected %s", w, q(d.str()).c_str(), r, q(e).c_str()); };
            { Str e = a + y + b + x; Buf d(e.size()); size_t r = c4::cat(substr(d.p, d.n), ca, y, cb, x); is("cat", e, r, d); }
            { Str e = a + y + b + y + x; Buf d(e.size()); size_t r = c4::catsep(substr(d.p, d.n), y, ca, cb, x); is("catsep with a character", e, r, d); }
            { Str e = a + b + a; Buf d(e.size()); size_t r = c4::catsep(substr(d.p, d.n), cb, ca, ca); is("catsep with a string", e, r, d); }
            { Str s = a; c4::catrs_append(&s, cb, x); MC_CHECK(s == a + b + x, "catrs_append gives %s", q(s).c_str()); std::vector<char> v; c4::catseprs(&v, x, ca, y); MC_CHECK(Str(v.begin(), v.end()) == a + x + y, "catseprs gives %s", q(Str(v.begin(), v.end())).c_str()); mc::T(2); }
            mc::V();
        });
    });
}
MC_MAIN
