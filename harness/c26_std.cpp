// C26: interoperability of views with std::string, std::string_view and std::vector<char>
#include "mc.hpp"
#include <c4/std/string.hpp>
#include <c4/std/vector.hpp>
#include <c4/std/string_view.hpp>
#include <c4/charconv.hpp>
#include <c4/format.hpp>
#include <string>
#include <vector>
using c4::csubstr; using c4::substr;
using mc::Buf; using mc::q;
typedef std::string Str;
#if __cplusplus >= 201703L
#include <string_view>
#define HAVE_SV 1
#else
#define HAVE_SV 0
#endif
/// a minimal allocator: vectors with other allocators are supported, too
template<class X> struct MyAlloc
{
    typedef X value_type;
    MyAlloc() {}
    template<class U> MyAlloc(MyAlloc<U> const&) {}
    X *allocate(size_t n) { return (X*)::operator new(n * sizeof(X)); }
    void deallocate(X *p, size_t) { ::operator delete(p); }
    template<class U> bool operator== (MyAlloc<U> const&) const { return true; }
    template<class U> bool operator!= (MyAlloc<U> const&) const { return false; }
};
typedef std::vector<char> Vec;
typedef std::vector<char, MyAlloc<char>> AVec;

static int ref(Str const& a, Str const& b)
{
    for(size_t i = 0; i < a.size() && i < b.size(); ++i) if(a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
template<class A, class B> static void ops(const char *kind, A const& a, B const& b, int e)
{
    mc::T(6);
    bool r[6] = {a == b, a != b, a < b, a > b, a <= b, a >= b};
    bool w[6] = {e == 0, e != 0, e < 0, e > 0, e <= 0, e >= 0};
    static const char *nm[6] = {"==", "!=", "<", ">", "<=", ">="};
    for(int i = 0; i < 6; ++i) MC_CHECK(r[i] == w[i], "%s: operator%s gives %d, the order is %d", kind, nm[i], (int)r[i], e);
}
template<class C> static C mk(Str const& s, size_t extra_cap = 0)
{
    C c; if(extra_cap) c.reserve(s.size() + extra_cap);
    c.assign(s.begin(), s.end());
    return c;
}
template<class C> static Str str(C const& c) { return Str(c.begin(), c.end()); }

// ------------------------------------------------------------------ comparisons
static void compare_one(Str const& a, Str const& b)
{
    MC_CASE(mc::fmt("view %s and container %s", q(a).c_str(), q(b).c_str()), {
        Buf ab(a); csubstr ca(ab.p, ab.n); substr wa(ab.p, ab.n);
        int e = ref(a, b);
        mc::S();
        { Str const s(b); ops("csubstr op string", ca, s, e); ops("string op csubstr", s, ca, -e); ops("substr op string", wa, s, e); ops("string op substr", s, wa, -e); }
        { Vec const s = mk<Vec>(b); ops("csubstr op vector", ca, s, e); ops("vector op csubstr", s, ca, -e); ops("substr op vector", wa, s, e); ops("vector op substr", s, wa, -e); }
        { AVec const s = mk<AVec>(b, 5); ops("csubstr op vector<A>", ca, s, e); ops("vector<A> op csubstr", s, ca, -e); ops("substr op vector<A>", wa, s, e); ops("vector<A> op substr", s, wa, -e); }
        #if HAVE_SV
        { Buf bb(b); std::string_view const s(bb.p, bb.n); ops("csubstr op string_view", ca, s, e); ops("string_view op csubstr", s, ca, -e); ops("substr op string_view", wa, s, e); ops("string_view op substr", s, wa, -e); }
        if(b.empty()) { std::string_view const s; ops("csubstr op null string_view", ca, s, e); ops("null string_view op csubstr", s, ca, -e); }
        #endif
        if(a.empty())
        {
            csubstr z; substr wz;
            { Str const s(b); ops("null csubstr op string", z, s, e); ops("string op null csubstr", s, z, -e); ops("null substr op string", wz, s, e); }
            { Vec const s = mk<Vec>(b); ops("null csubstr op vector", z, s, e); ops("vector op null csubstr", s, z, -e); }
            #if HAVE_SV
            { std::string_view const s(b); ops("null csubstr op string_view", z, s, e); ops("string_view op null csubstr", s, z, -e); }
            #endif
        }
        mc::V();
    });
}
SECTION(compare, 6)
{
    Str al("\0aA\x7f\x80\xff", 6);
    const size_t L = mc::thorough() ? 4 : 3;
    mc::bound(mc::fmt("all pairs of texts to length %zu/3 over {0x00,A,a,0x7f,0x80,0xff}; all byte pairs; one difference at every position to length 40; 5 container types, every operator and operand order", L));
    mc::all_strings(al, 0, L, [&](Str const& a) { if(mc::mine()) mc::all_strings(al, 0, 3, [&](Str const& b) { compare_one(a, b); }); });
    for(int x = 0; x < 256; ++x) { if(!mc::mine()) continue; for(int y = 0; y < 256; ++y) compare_one(Str(1, (char)x), Str(1, (char)y)); }
    for(size_t n : mc::lens(5, 130, {8u, 15u, 16u, 17u, 31u, 32u, 40u})) for(size_t p = 0; p < n; ++p)
    {
        if(!mc::mine()) continue;
        Str a(n, 'm'); for(char c : Str("\0lmn\xff", 5)) { Str b = a; b[p] = c; compare_one(a, b); compare_one(b, a); Str l = b + "m"; compare_one(a, l); compare_one(l, a); }
    }
}

// ------------------------------------------------------------------ views
template<class C> static void view_one(const char *ty, Str const& s)
{
    MC_CASE(mc::fmt("view of the %s %s", ty, q(s).c_str()), {
        mc::S();
        for(size_t cap : {0u, 7u, 40u})
        {
            C c = mk<C>(s, cap); C const& cc = c;
            mc::T(2);
            csubstr v = c4::to_csubstr(cc); substr w = c4::to_substr(c);
            MC_CHECK(v.len == s.size() && w.len == s.size(), "lengths %zu and %zu, expected %zu", v.len, w.len, s.size());
            if(s.size()) MC_CHECK(v.str == c.data() && w.str == c.data(), "the view is not over the characters of the container");
            MC_CHECK(Str(v.str ? v.str : "", v.len) == s, "the characters differ");
            // writing through the view changes the container
            for(size_t i = 0; i < s.size(); ++i) { w[i] = (char)(s[i] + 1); MC_CHECK(c[i] == (char)(s[i] + 1), "position %zu: a write through the view is not seen", i); }
        }
        mc::V();
    });
}
SECTION(views, 2)
{
    Str al("\0aZ\x80\xff", 5);
    mc::bound("all texts to length 4 over {0x00,a,Z,0x80,0xff} (5 thorough), lengths to 70; three spare capacities");
    auto all = [&](Str const& s)
    {
        view_one<Str>("string", s); view_one<Vec>("vector", s); view_one<AVec>("vector with own allocator", s);
        #if HAVE_SV
        MC_CASE("view of the string_view " + q(s), {
            Buf b(s); mc::S(); mc::T();
            csubstr v = c4::to_csubstr(std::string_view(b.p, b.n));
            MC_CHECK(v.len == s.size() && v.str == b.p && Str(v.str, v.len) == s, "the view differs");
            csubstr z = c4::to_csubstr(std::string_view());
            MC_CHECK(z.len == 0, "a view of an empty string_view has length %zu", z.len);
            mc::V();
        });
        #endif
    };
    mc::all_strings(al, 0, mc::thorough() ? 5 : 4, [&](Str const& s) { if(mc::mine()) all(s); });
    for(size_t n = 5; n <= 70; ++n) { if(!mc::mine()) continue; Str s; for(size_t i = 0; i < n; ++i) s += (char)(i * 37 + n); all(s); }
}

// ------------------------------------------------------------------ writing
template<class C> static void write_one(const char *ty, C const& c, Str const& s, size_t n)
{
    MC_CASE(mc::fmt("writing the %s %s into %zu characters", ty, q(s).c_str(), n), {
        mc::S();
        const size_t k = n < s.size() ? n : s.size();
        const Str want = s.substr(0, k) + Str(n - k, '\xee');
        {
            Buf b(n); mc::T(); size_t r = c4::to_chars(substr(b.p, n), c);
            MC_CHECK(r == s.size(), "to_chars returned %zu, expected %zu", r, s.size());
            MC_CHECK(b.str() == want, "the buffer is %s, expected %s", q(b.str()).c_str(), q(want).c_str());
            MC_CHECK(b.ok(), "written before the buffer");
        }
        {
            Buf b(n); mc::T(); substr r = c4::to_chars_sub(substr(b.p, n), c);
            MC_CHECK(r.str == b.p && r.len == k, "to_chars_sub gives %zu characters, expected %zu", r.len, k);
            MC_CHECK(b.str() == want, "to_chars_sub: the buffer is %s, expected %s", q(b.str()).c_str(), q(want).c_str());
        }
        {
            Buf b(n); mc::T(); size_t r = c4::cat(substr(b.p, n), c, c);
            Str full = s + s;
            MC_CHECK(r == full.size(), "cat of two returned %zu, expected %zu", r, full.size());
            if(n >= full.size()) MC_CHECK(b.str() == full + Str(n - full.size(), '\xee'), "cat of two: the buffer is %s", q(b.str()).c_str());
        }
        if(n == 0) { mc::T(); size_t r = c4::to_chars(substr(), c); MC_CHECK(r == s.size(), "to_chars to a null buffer returned %zu, expected %zu", r, s.size()); }
        mc::V();
    });
}
static void write_all(Str const& s)
{
    Str st(s); Vec v = mk<Vec>(s); AVec av = mk<AVec>(s, 3);
    for(size_t n = 0; n <= s.size() * 2 + 2; ++n)
    {
        write_one("string", st, s, n); write_one("vector", v, s, n); write_one("vector with own allocator", av, s, n);
        #if HAVE_SV
        write_one("string_view", std::string_view(st), s, n);
        if(s.empty()) write_one("null string_view", std::string_view(), s, n);
        #endif
    }
}
SECTION(writing, 4)
{
    mc::bound("all texts to length 4 over {0x00,a,0x80,0xff} (5 thorough), lengths to 40, every buffer length to twice the text plus two");
    mc::all_strings(Str("\0a\x80\xff", 4), 0, mc::thorough() ? 5 : 4, [&](Str const& s) { if(mc::mine()) write_all(s); });
    for(size_t n = 5; n <= 40; ++n) { if(!mc::mine()) continue; Str s; for(size_t i = 0; i < n; ++i) s += (char)(i * 37 + n); write_all(s); }
}

// ------------------------------------------------------------------ reading
template<class C> static void read_one(const char *ty, Str const& s, Str const& prev, size_t cap)
{
    MC_CASE(mc::fmt("reading %s into a %s that held %s", q(s).c_str(), ty, q(prev).c_str()), {
        mc::S();
        Buf b(s);
        C c = mk<C>(prev, cap);
        mc::T(); bool ok = c4::from_chars(csubstr(b.p, b.n), &c);
        MC_CHECK(ok, "from_chars failed");
        MC_CHECK(str(c) == s, "holds %s", q(str(c)).c_str());
        MC_CHECK(b.str() == s, "the text read was modified");
        if(s.empty()) { C d = mk<C>(prev, cap); mc::T(); ok = c4::from_chars(csubstr(), &d); MC_CHECK(ok && d.empty(), "reading a null view: holds %s", q(str(d)).c_str()); }
        mc::V();
    });
}
static void read_all(Str const& s)
{
    for(size_t n : {0u, 1u, 2u, 3u, 4u, 5u, 14u, 15u, 16u, 17u, 33u, 60u})
    for(size_t cap : {0u, 50u})
    {
        Str prev; for(size_t i = 0; i < n; ++i) prev += (char)('p' + i);
        read_one<Str>("string", s, prev, cap); read_one<Vec>("vector", s, prev, cap); read_one<AVec>("vector with own allocator", s, prev, cap);
    }
}
SECTION(reading, 4)
{
    mc::bound("all texts to length 4 over {0x00,a,0x80,0xff,space} (5 thorough), lengths to 40; 12 previous lengths, two capacities");
    mc::all_strings(Str("\0a\x80\xff ", 5), 0, mc::thorough() ? 5 : 4, [&](Str const& s) { if(mc::mine()) read_all(s); });
    for(size_t n = 5; n <= 40; ++n) { if(!mc::mine()) continue; Str s; for(size_t i = 0; i < n; ++i) s += (char)(i * 37 + n); read_all(s); }
}

// ------------------------------------------------------------------ long texts
SECTION(long_texts, 6)
{
    mc::bound("texts of 41 to 130 and to 70000 characters at every power-of-two boundary: one difference at 12 positions and length differences of 1, 255-257 and 65536, views, writing into 9 buffer lengths, reading over 5 previous lengths");
    for(size_t n : mc::lens(41, 130, {127u, 128u, 129u, 255u, 256u, 257u, 300u, 511u, 512u, 513u, 32767u, 32768u, 65535u, 65536u, 65537u, 70000u}))
    {
        if(!mc::mine()) continue;
        Str s(n, 'm'); for(size_t i = 0; i < n; ++i) s[i] = (char)(i * 37 + n);
        for(size_t p : {(size_t)0, (size_t)1, n / 2, n - 2, n - 1, n > 126 ? (size_t)126 : n - 1, n > 255 ? (size_t)255 : n - 1, n > 256 ? (size_t)256 : n - 1, n > 32768 ? (size_t)32767 : n - 1, n > 32768 ? (size_t)32768 : n - 1, n > 65536 ? (size_t)65535 : n - 1, n > 65536 ? (size_t)65536 : n - 1})
            for(int d : {1, -1, 128}) { Str b = s; b[p] = (char)(b[p] + d); compare_one(s, b); compare_one(b, s); }
        for(size_t d : {0u, 1u, 255u, 256u, 257u, 65536u}) { Str l = s + Str(d, 'z'); compare_one(s, l); if(d) compare_one(l, s); if(d < n) { Str sh = s.substr(0, n - d); compare_one(sh, s); } }
        view_one<Str>("string", s); view_one<Vec>("vector", s); view_one<AVec>("vector with own allocator", s);
        Vec v = mk<Vec>(s); AVec av = mk<AVec>(s, 3);
        for(size_t k : {(size_t)0, (size_t)1, n - 1, n, n + 1, n + 256, 2 * n - 1, 2 * n, 2 * n + 1})
        {
            write_one("string", s, s, k); write_one("vector", v, s, k); write_one("vector with own allocator", av, s, k);
            #if HAVE_SV
            write_one("string_view", std::string_view(s), s, k);
            #endif
        }
        for(size_t k : {(size_t)0, (size_t)1, n - 1, n + 1, n + 256})
            for(size_t cap : {(size_t)0, 2 * n + 300})
            {
                Str prev(k, 'p');
                read_one<Str>("string", s, prev, cap); read_one<Vec>("vector", s, prev, cap); read_one<AVec>("vector with own allocator", s, prev, cap);
                Str sh("short"); read_one<Str>("string", sh, prev, cap); read_one<Vec>("vector", sh, prev, cap);
            }
    }
}
// ------------------------------------------------------------------ round trips through views
SECTION(histories, 4)
{
    // all histories of: read text k into the object, write through its view, shrink, clear, copy from its own copy's view
    const int D = mc::thorough() ? 6 : 5;
    static const char *const texts[] = {"", "a", "bcd", "0123456789abcdefXYZ"};
    const int K = 8;
    mc::bound(mc::fmt("all histories of %d operations over {read one of 4 texts, write through the view, shrink, grow, copy from a view of another object}, three container types", D));
    int total = 1; for(int i = 0; i < D; ++i) total *= K;
    auto run = [&](int code, int which)
    {
        Str hist; Str model; Str s; Vec v; AVec av; Str other = "other text";
        MC_CASE("history " + hist, {
            for(int i = 0; i < D; ++i)
            {
                int op = code; for(int j = 0; j < i; ++j) op /= K; op %= K;
                mc::T(); mc::S();
                switch(which)
                {
                #define STEP(c) \
                    if(op < 4) { c4::from_chars(c4::to_csubstr(texts[op]), &c); model = texts[op]; hist += mc::fmt("read%d ", op); } \
                    else if(op == 4) { substr w = c4::to_substr(c); for(size_t k = 0; k < w.len; ++k) w[k] = (char)(w[k] + 1); for(char &x : model) x = (char)(x + 1); hist += "write "; } \
                    else if(op == 5) { if(!model.empty()) { c.resize(c.size() - 1); model.resize(model.size() - 1); } hist += "shrink "; } \
                    else if(op == 6) { c.resize(c.size() + 2, 'g'); model.resize(model.size() + 2, 'g'); hist += "grow "; } \
                    else { c4::from_chars(c4::to_csubstr(other), &c); std::swap(other, model); hist += "exchange "; }
                case 0: STEP(s) MC_CHECK(c4::to_csubstr(s) == csubstr(model.data(), model.size()) && s == csubstr(model.data(), model.size()) && s == model, "string: holds %s, expected %s", q(s).c_str(), q(model).c_str()); break;
                case 1: STEP(v) MC_CHECK(c4::to_csubstr(v) == csubstr(model.data(), model.size()) && v == csubstr(model.data(), model.size()) && str(v) == model, "vector: holds %s, expected %s", q(str(v)).c_str(), q(model).c_str()); break;
                case 2: STEP(av) MC_CHECK(c4::to_csubstr(av) == csubstr(model.data(), model.size()) && av == csubstr(model.data(), model.size()) && str(av) == model, "vector<A>: holds %s, expected %s", q(str(av)).c_str(), q(model).c_str()); break;
                }
            }
            mc::V();
        });
    };
    for(int code = 0; code < total; ++code) if(mc::mine()) for(int w = 0; w < 3; ++w) run(code, w);
}
// ------------------------------------------------------------------ every byte
SECTION(all_bytes, 8)
{
    mc::bound("every ordered pair of different bytes: comparison, views, writing and reading of texts made of them");
    mc::byte_pairs([&](char x, char y) {
        compare_one(Str{x}, Str{y}); compare_one(Str{x, y}, Str{x}); compare_one(Str{'m', x, 'm'}, Str{'m', y, 'm'});
        read_one<Str>("string", Str{x, y, x}, Str{y}, 0); read_one<Vec>("vector", Str{x, y, x}, Str{y, y, y, y}, 0);
        write_one("string", Str{x, y}, Str{x, y}, 2); write_one("string", Str{x, y}, Str{x, y}, 1);
    });
}
MC_MAIN
