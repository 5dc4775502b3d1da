// C15: dumping through a scratch buffer, with resumption
#include "mc.hpp"
#include <c4/format.hpp>
#include <c4/dump.hpp>
#include <algorithm>
using c4::csubstr; using c4::substr; using c4::DumpResults;
using mc::Buf; using mc::q;
typedef std::string Str;
static const size_t NP = (size_t)-1;

static Str sink;
static void dumper(csubstr s) { mc::T(); sink.append(s.str ? s.str : "", s.len); }
namespace hx {
struct Arg { const Str *t; }; // a text that goes through the scratch buffer
inline size_t to_chars(substr b, Arg a) { return c4::to_chars(b, csubstr(a.t->data(), a.t->size())); }
}
struct Part { Str text; bool direct; }; // direct: a string, dumped without the buffer
typedef std::vector<Part> Parts;

// call f with the parts as arguments of their static types
template<size_t N> struct Spread
{
    template<class F, class... A> static void go(Parts const& p, size_t i, F const& f, A const& ...a)
    {
        if(i == p.size()) { f(a...); return; }
        if(p[i].direct) Spread<N - 1>::go(p, i + 1, f, a..., csubstr(p[i].text.data(), p[i].text.size()));
        else Spread<N - 1>::go(p, i + 1, f, a..., hx::Arg{&p[i].text});
    }
};
template<> struct Spread<0> { template<class F, class... A> static void go(Parts const& p, size_t i, F const& f, A const& ...a) { if(i == p.size()) f(a...); } };
enum { MAXAR = 4 };
struct Functor { Str *out; void operator()(csubstr s) const { mc::T(); out->append(s.str ? s.str : "", s.len); } };

enum Kind { CAT, SEP, FMT };
struct Call { Kind k; Parts args; Part sep; Str f; };
// the sequence of parts of a call
static Parts parts_of(Call const& c)
{
    Parts r;
    if(c.k == CAT) r = c.args;
    else if(c.k == SEP) { for(size_t i = 0; i < c.args.size(); ++i) { if(i) r.push_back(c.sep); r.push_back(c.args[i]); } }
    else
    {
        size_t fp = 0; size_t n = 0;
        for(;;) { size_t ph = n < c.args.size() ? c.f.find("{}", fp) : NP; if(ph == NP) { r.push_back(Part{c.f.substr(fp), true}); break; } r.push_back(Part{c.f.substr(fp, ph - fp), true}); r.push_back(c.args[n++]); fp = ph + 2; }
    }
    return r;
}
static Str show(Call const& c)
{
    auto p = [](Part const& x) { return mc::fmt("%s%s", x.direct ? "str" : "val", q(x.text).c_str()); };
    Str r = c.k == CAT ? "cat(" : c.k == SEP ? "catsep sep=" + p(c.sep) + "(" : "format " + q(c.f) + "(";
    for(size_t i = 0; i < c.args.size(); ++i) r += (i ? "," : "") + p(c.args[i]);
    return r + ")";
}
// one call; form 0: function pointer as template argument, 1: functor
static size_t plain(Call const& c, int form, substr b)
{
    size_t r = 0; csubstr f(c.f.data(), c.f.size()); Functor fn{&sink};
    if(c.k == CAT) Spread<MAXAR>::go(c.args, 0, [&](auto const&... a) { r = form ? c4::cat_dump(fn, b, a...) : c4::cat_dump<&dumper>(b, a...); });
    else if(c.k == FMT) Spread<MAXAR>::go(c.args, 0, [&](auto const&... a) { r = form ? c4::format_dump(fn, b, f, a...) : c4::format_dump<&dumper>(b, f, a...); });
    else Spread<MAXAR>::go(c.args, 0, [&](auto const&... a) {
        if(c.sep.direct) { csubstr s(c.sep.text.data(), c.sep.text.size()); r = form ? c4::catsep_dump(fn, b, s, a...) : c4::catsep_dump<&dumper>(b, s, a...); }
        else { hx::Arg s{&c.sep.text}; r = form ? c4::catsep_dump(fn, b, s, a...) : c4::catsep_dump<&dumper>(b, s, a...); } });
    return r;
}
template<class... A> static DumpResults cat1(int form, bool first, DumpResults res, substr b, A const&... a) { Functor fn{&sink}; return first ? (form ? c4::cat_dump_resume(fn, b, a...) : c4::cat_dump_resume<&dumper>(b, a...)) : (form ? c4::cat_dump_resume(fn, res, b, a...) : c4::cat_dump_resume<&dumper>(res, b, a...)); }
static DumpResults cat1(int, bool, DumpResults res, substr) { return res; }
template<class S, class... A> static DumpResults sep1(int form, bool first, DumpResults res, substr b, S const& s, A const&... a) { Functor fn{&sink}; return first ? (form ? c4::catsep_dump_resume(fn, b, s, a...) : c4::catsep_dump_resume<&dumper>(b, s, a...)) : (form ? c4::catsep_dump_resume(fn, res, b, s, a...) : c4::catsep_dump_resume<&dumper>(res, b, s, a...)); }
template<class S> static DumpResults sep1(int, bool, DumpResults res, substr, S const&) { return res; }
template<class... A> static DumpResults fmt1(int form, bool first, DumpResults res, substr b, csubstr f, A const&... a) { Functor fn{&sink}; return first ? (form ? c4::format_dump_resume(fn, b, f, a...) : c4::format_dump_resume<&dumper>(b, f, a...)) : (form ? c4::format_dump_resume(fn, res, b, f, a...) : c4::format_dump_resume<&dumper>(res, b, f, a...)); }
static DumpResults resume(Call const& c, int form, bool first, DumpResults res, substr b)
{
    DumpResults r = res; csubstr f(c.f.data(), c.f.size());
    if(c.k == CAT) Spread<MAXAR>::go(c.args, 0, [&](auto const&... a) { r = cat1(form, first, res, b, a...); });
    else if(c.k == FMT) Spread<MAXAR>::go(c.args, 0, [&](auto const&... a) { r = fmt1(form, first, res, b, f, a...); });
    else Spread<MAXAR>::go(c.args, 0, [&](auto const&... a) { if(c.sep.direct) r = sep1(form, first, res, b, csubstr(c.sep.text.data(), c.sep.text.size()), a...); else r = sep1(form, first, res, b, hx::Arg{&c.sep.text}, a...); });
    return r;
}
static size_t maxsize(Parts const& p, size_t from) { size_t m = 0; for(size_t i = from; i < p.size(); ++i) if(!p[i].direct) m = std::max(m, p[i].text.size()); return m; }

static void plain_all(Call const& c)
{
    for(int form = 0; form < 2; ++form)
    MC_CASE(mc::fmt("%s form %d", show(c).c_str(), form), {
        Parts p = parts_of(c); size_t need = maxsize(p, 0);
        for(size_t n = 0; n <= need + 2; ++n)
        {
            sink.clear(); Buf b(n); size_t r = plain(c, form, substr(b.p, n)); mc::T(); mc::S();
            Str e; if(n) for(auto &x : p) { if(!x.direct && x.text.size() > n) break; e += x.text; }
            MC_CHECK(sink == e, "buffer %zu: delivered %s, expected %s", n, q(sink).c_str(), q(e).c_str());
            MC_CHECK(r == need, "buffer %zu: reported size %zu, the largest part needs %zu", n, r, need);
            MC_CHECK(b.ok(), "buffer %zu: wrote before it", n);
        }
        mc::V();
    });
}
// a history: buffer sizes of the successive calls, then one that suffices, then one more
static void history(Call const& c, int form, std::vector<size_t> const& sizes)
{
    MC_CASE([&]{ Str d = mc::fmt("%s form %d buffers", show(c).c_str(), form); for(size_t n : sizes) d += mc::fmt(" %zu", n); return d; }(), {
        Parts p = parts_of(c); size_t need = std::max<size_t>(1, maxsize(p, 0)); sink.clear();
        DumpResults res; size_t done = 0; // model: parts delivered
        auto step = [&](size_t n, bool first) {
            Buf b(n); size_t before = done; size_t hint = res.bufsize;
            DumpResults r = resume(c, form, first, res, substr(b.p, n)); mc::T(); mc::S();
            bool refused = c.k == CAT && hint > n; // cat returns at once when the buffer is known to be insufficient
            if(n && !refused) while(done < p.size() && (p[done].direct || p[done].text.size() <= n)) ++done;
            Str e; for(size_t i = 0; i < done; ++i) e += p[i].text;
            MC_CHECK(sink == e, "call with buffer %zu: delivered so far %s, expected %s", n, q(sink).c_str(), q(e).c_str());
            size_t last = done ? done - 1 : (size_t)DumpResults::noarg;
            MC_CHECK(r.lastok == last, "call with buffer %zu: last delivered part is reported as %lld, expected %lld", n, (long long)r.lastok, (long long)last);
            MC_CHECK(r.argfail() == done, "argfail()"); for(size_t i = 0; i < p.size(); ++i) MC_CHECK(r.success_until(i) == (i < done) && r.write_arg(i) == (i >= done), "success_until/write_arg(%zu)", i);
            MC_CHECK(r.bufsize >= maxsize(p, done), "call with buffer %zu: size hint %zu, a remaining part needs %zu", n, r.bufsize, maxsize(p, done));
            MC_CHECK(r.bufsize >= hint && r.bufsize <= maxsize(p, 0), "size hint %zu out of range", r.bufsize);
            MC_CHECK(b.ok(), "wrote before the buffer");
            (void)before; res = r;
        };
        bool first = true;
        for(size_t n : sizes) { step(n, first); first = false; }
        step(need, first); MC_CHECK(done == p.size() || c.args.empty(), "model did not finish"); step(need + 1, false); step(0, false);
        mc::V();
    });
}
static void histories(Call const& c, size_t depth, std::vector<size_t> const& al)
{
    for(int form = 0; form < 2; ++form) for(size_t d = 0; d <= depth; ++d)
    {
        std::vector<size_t> ix(d, 0), s(d);
        for(;;) { for(size_t i = 0; i < d; ++i) s[i] = al[ix[i]]; history(c, form, s); size_t k = d; bool dn = true; while(k > 0) { --k; if(++ix[k] < al.size()) { dn = false; break; } ix[k] = 0; } if(dn) break; }
    }
}
template<class F> static void arg_tuples(size_t n, std::vector<Part> const& al, F f)
{
    std::vector<size_t> ix(n, 0); Parts a(n);
    for(;;)
    {
        for(size_t i = 0; i < n; ++i) { a[i] = al[ix[i]]; for(char &ch : a[i].text) ch = (char)('1' + i); } // recognisable texts
        f(a);
        size_t k = n; bool dn = true; while(k > 0) { --k; if(++ix[k] < al.size()) { dn = false; break; } ix[k] = 0; } if(dn) break;
    }
}
static std::vector<Part> al_full() { return {Part{"", false}, Part{"x", false}, Part{"xx", false}, Part{"xxxx", false}, Part{"", true}, Part{"xxx", true}}; }
static std::vector<Part> al_small() { return {Part{"x", false}, Part{"xxx", false}, Part{"xx", true}}; }
static const Part SEPS[] = {{",", true}, {"", true}, {"--", false}, {"-----", false}};
SECTION(plain, 8)
{
    mc::bound("cat/catsep/format dump: all tuples to arity 3 over 6 parts (4 over 3), values and strings, every buffer length; function pointer and functor");
    auto go = [&](Parts const& a) {
        if(!mc::mine()) return;
        plain_all(Call{CAT, a, {}, ""}); for(auto &s : SEPS) plain_all(Call{SEP, a, s, ""});
        for(Str f : {Str(""), Str("{}"), Str("a{}"), Str("{}b"), Str("{}{}"), Str("a{}b{}c{}d"), Str("a{}{}{}{}z"), Str("none")}) plain_all(Call{FMT, a, {}, f});
    };
    for(size_t n = 0; n <= 3; ++n) arg_tuples(n, al_full(), go);
    arg_tuples(4, al_small(), go);
}
SECTION(resume_cat, 16)
{
    size_t D = mc::thorough() ? 4 : 3;
    mc::bound(mc::fmt("resume histories: all tuples to arity 3 (4 over fewer), all sequences of up to %zu buffer sizes out of 0..5, then a sufficient one", D));
    auto go = [&](Parts const& a) { if(mc::mine()) histories(Call{CAT, a, {}, ""}, D, {0, 1, 2, 3, 4}); };
    for(size_t n = 1; n <= 3; ++n) arg_tuples(n, al_full(), go);
    arg_tuples(4, al_small(), go);
}
SECTION(resume_catsep, 16)
{
    size_t D = mc::thorough() ? 4 : 3;
    mc::bound(mc::fmt("resume histories with separators, %zu calls", D));
    auto go = [&](Parts const& a) { if(!mc::mine()) return; for(auto &s : SEPS) histories(Call{SEP, a, s, ""}, a.size() >= 3 ? D - 1 : D, {0, 1, 2, 3, 4, 5}); };
    for(size_t n = 1; n <= 3; ++n) arg_tuples(n, n == 3 && !mc::thorough() ? al_small() : al_full(), go);
    arg_tuples(4, al_small(), go);
}
SECTION(resume_format, 16)
{
    size_t D = mc::thorough() ? 4 : 3;
    mc::bound(mc::fmt("resume histories with format strings of 0-4 placeholders, with and without text between, %zu calls", D));
    auto go = [&](Parts const& a) { if(!mc::mine()) return; for(Str f : {Str(""), Str("lit"), Str("{}"), Str("a{}b"), Str("{}{}"), Str("a{}b{}c{}d"), Str("a{}b{}c{}d{}e{}f")}) histories(Call{FMT, a, {}, f}, a.size() >= 3 ? D - 1 : D, {0, 1, 2, 3, 4}); };
    for(size_t n = 0; n <= 3; ++n) arg_tuples(n, n == 3 && !mc::thorough() ? al_small() : al_full(), go);
    arg_tuples(4, al_small(), go);
}
SECTION(long_parts, 8)
{
    mc::bound("parts, strings, separators and formats of 100..300 and 65535..65537 characters; scratch buffers around those sizes; histories of 2 calls");
    for(size_t n : mc::lens(5, 130, {100, 127, 128, 129, 255, 256, 257, 300, 512, 65535, 65536, 65537}))
    {
        Part big{Str(n, 'x'), false}, bigs{Str(n, 's'), true}, one{"1", false}, str{"ab", true}, less{Str(n - 1, 'y'), false};
        std::vector<Parts> as = {{big}, {bigs}, {one, big, one}, {big, bigs, less}, {str, big, str}, {less, big}, {bigs, one, bigs, big}};
        for(auto const& a : as)
        {
            if(!mc::mine()) continue;
            std::vector<Call> cs = {Call{CAT, a, {}, ""}, Call{SEP, a, one, ""}, Call{SEP, a, big, ""}, Call{SEP, a, bigs, ""}, Call{FMT, a, {}, "{}" + Str(n, 'f') + "{}"}, Call{FMT, a, {}, "a{}b{}c{}"}};
            for(auto const& c : cs) for(int form = 0; form < 2; ++form)
            {
                MC_CASE(mc::fmt("%s form %d", show(c).substr(0, 60).c_str(), form), {
                    Parts p = parts_of(c); size_t need = maxsize(p, 0);
                    for(size_t sz : {(size_t)0, (size_t)1, (size_t)200, n - 1, n, n + 1, n + 300})
                    {
                        sink.clear(); Buf b(sz); size_t r = plain(c, form, substr(b.p, sz)); mc::T(); mc::S();
                        Str e; if(sz) for(auto &x : p) { if(!x.direct && x.text.size() > sz) break; e += x.text; }
                        MC_CHECK(sink == e, "buffer %zu: delivered %zu characters, expected %zu, or other ones", sz, sink.size(), e.size()); MC_CHECK(r == need && b.ok(), "buffer %zu: reported size %zu, the largest part needs %zu", sz, r, need);
                    }
                    mc::V();
                });
                histories(c, 1, {1, n - 1, n, 256});
                history(c, form, {n - 1, 1}); history(c, form, {1, n - 1}); history(c, form, {256, 200});
            }
        }
    }
    mc::sample("a part of 257 characters refused by a buffer of 256");
}
// eight arguments, values and strings alternating: more than the recursive cases above reach
SECTION(eight_arguments, 8)
{
    mc::bound("eight arguments, each value of 1 or 3 characters (every combination), every history of up to 2 buffer sizes out of 0,1,2,3, then a sufficient one");
    for(unsigned m = 0; m < 32; ++m) for(size_t k = 0; k < 3; ++k) for(int form = 0; form < 2; ++form)
    {
        if(!mc::mine()) continue;
        const bool direct[8] = {false, true, false, false, true, false, true, false};
        Parts a; unsigned bit = 0; for(size_t i = 0; i < 8; ++i) { size_t n = direct[i] ? 2 : ((m >> bit++) & 1) ? 3 : 1; a.push_back(Part{Str(n, (char)('1' + i)), direct[i]}); }
        Call c{(Kind)k, a, Part{"-", false}, "a{}b{}c{}d{}e{}f{}g{}h{}i"}; Parts p = parts_of(c);
        auto V = [&](size_t i) { return hx::Arg{&a[i].text}; }; auto D = [&](size_t i) { return csubstr(a[i].text.data(), a[i].text.size()); };
        #define A8 V(0), D(1), V(2), V(3), D(4), V(5), D(6), V(7)
        auto call = [&](bool first, DumpResults res, substr b) { csubstr f(c.f.data(), c.f.size()); hx::Arg s{&c.sep.text}; return k == 0 ? cat1(form, first, res, b, A8) : k == 1 ? sep1(form, first, res, b, s, A8) : fmt1(form, first, res, b, f, A8); };
        std::vector<std::vector<size_t>> hs = {{}}; for(size_t x = 0; x < 4; ++x) { hs.push_back({x}); for(size_t y = 0; y < 4; ++y) hs.push_back({x, y}); }
        for(auto const& h : hs) MC_CASE([&]{ Str d = show(c) + mc::fmt(" form %d buffers", form); for(size_t n : h) d += mc::fmt(" %zu", n); return d; }(), {
            sink.clear(); DumpResults res; size_t done = 0; std::vector<size_t> hh = h; hh.push_back(3); hh.push_back(4); bool first = true;
            for(size_t n : hh)
            {
                Buf b(n); size_t hint = res.bufsize; res = call(first, res, substr(b.p, n)); first = false; mc::T(); mc::S();
                if(n && !(k == 0 && hint > n)) while(done < p.size() && (p[done].direct || p[done].text.size() <= n)) ++done;
                Str e; for(size_t i = 0; i < done; ++i) e += p[i].text;
                MC_CHECK(sink == e, "call with buffer %zu: delivered so far %s, expected %s", n, q(sink).c_str(), q(e).c_str());
                MC_CHECK(res.argfail() == done && res.bufsize >= maxsize(p, done) && b.ok(), "call with buffer %zu: %zu parts reported, expected %zu; size hint %zu", n, res.argfail(), done, res.bufsize);
            }
            MC_CHECK(done == p.size(), "model did not finish");
            // all at once
            for(size_t n = 0; n <= 3; ++n) { sink.clear(); Buf b(n); Functor fn{&sink}; csubstr f(c.f.data(), c.f.size()); hx::Arg s{&c.sep.text}; size_t r = k == 0 ? (form ? c4::cat_dump(fn, substr(b.p, n), A8) : c4::cat_dump<&dumper>(substr(b.p, n), A8)) : k == 1 ? (form ? c4::catsep_dump(fn, substr(b.p, n), s, A8) : c4::catsep_dump<&dumper>(substr(b.p, n), s, A8)) : (form ? c4::format_dump(fn, substr(b.p, n), f, A8) : c4::format_dump<&dumper>(substr(b.p, n), f, A8)); mc::T();
                Str e; if(n) for(auto &x : p) { if(!x.direct && x.text.size() > n) break; e += x.text; } MC_CHECK(sink == e && r == maxsize(p, 0), "buffer %zu: delivered %s (size %zu), expected %s", n, q(sink).c_str(), r, q(e).c_str()); }
            mc::V();
        });
    }
}
SECTION(direct, 1)
{
    mc::bound("direct calls with numbers, literals and views");
    MC_CASE("direct", {
        char bb[64]; substr b(bb, sizeof bb); csubstr v("view");
        auto is = [&](size_t r, size_t er, const char *w) { MC_CHECK(sink == w && r == er, "delivered %s size %zu, expected %s size %zu", q(sink).c_str(), r, q(Str(w)).c_str(), er); sink.clear(); mc::T(); mc::S(); };
        sink.clear();
        is(c4::cat_dump<&dumper>(b, 1, "lit", -22, v, 'c', 2.5), 3, "1lit-22viewc2.5"); is(c4::cat_dump(Functor{&sink}, b, 1, "lit", -22, v), 3, "1lit-22view");
        is(c4::catsep_dump<&dumper>(b, ", ", 1, "lit", 333), 3, "1, lit, 333"); is(c4::catsep_dump(Functor{&sink}, b, ',', 1, v, 333), 3, "1,view,333"); is(c4::format_dump<&dumper>(b, "a {} b {} c", 10, "lit"), 2, "a 10 b lit c"); is(c4::format_dump(Functor{&sink}, b, "{}={}", v, 1000), 4, "view=1000");
        is(c4::dump<&dumper>(b, 12), 2, "12"); is(c4::dump(Functor{&sink}, b, 12), 2, "12"); is(c4::dump<&dumper>(b, v), 0, "view"); is(c4::dump(Functor{&sink}, b, "lit"), 0, "lit"); is(c4::dump<&dumper>(b.first(1), 12), 2, ""); is(c4::dump<&dumper>(b, "lit"), 0, "lit"); is(c4::dump(Functor{&sink}, b, v), 0, "view");
        mc::V();
    });
}
SECTION(all_bytes, 8)
{
    mc::bound("every ordered pair of different bytes in arguments, separators and literal text: plain dumps with every buffer size, and one resumed history");
    mc::byte_pairs([&](char x, char y) {
        Part a{Str{x, y}, false}; Part b{Str{y, x}, true}; Part c{Str{y}, false};
        Call k1{CAT, {a, b, c}, {}, ""}; Call k2{SEP, {a, c}, c, ""}; Call k3{SEP, {c, a}, b, ""}; Call k4{FMT, {a, c}, {}, Str{x, '{', '}', y, '{', '}', y, x}};
        for(auto const& k : {k1, k2, k3, k4}) { plain_all(k); for(int f = 0; f < 2; ++f) history(k, f, {1, 0, 2}); }
    });
}
MC_MAIN
