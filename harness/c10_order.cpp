// C10: comparison of string views
#include "mc.hpp"
#include <c4/substr.hpp>
using c4::csubstr; using c4::substr;
using mc::Buf; using mc::q;
typedef std::string Str;
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
// lexicographic order of the char values, a proper prefix first
static int ref(Str const& a, Str const& b)
{
    for(size_t i = 0; i < a.size() && i < b.size(); ++i) if(a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
template<class A, class B> static void ops(const char *kind, A const& a, B const& b, int e)
{
    mc::T(6);
    bool r[6] = {a == b, a != b, a < b, a > b, a <= b, a >= b};
    bool w[6] = {e == 0, e != 0, e < 0, e > 0, e <= 0, e >= 0};
    static const char *nm[6] = {"==", "!=", "<", ">", "<=", ">="};
    for(int i = 0; i < 6; ++i) MC_CHECK(r[i] == w[i], "%s: operator%s gives %d, the order is %d", kind, nm[i], (int)r[i], e);
}
template<size_t N> struct Arr
{
    static void go(const char *p, csubstr a, substr wa, int e, int er) // er: order of literal vs view
    {
        char k[N]; memcpy(k, p, N - 1); k[N - 1] = 'z'; // the terminator position must not be looked at
        const char (&ck)[N] = k;
        ops("csubstr op char[]", a, ck, e); ops("substr op char[]", wa, ck, e); ops("char[] op csubstr", ck, a, er); ops("char[] op substr", ck, wa, er);
    }
};
static void one(Str const& a, Str const& b)
{
    MC_CASE(mc::fmt("a=%s b=%s", q(a).c_str(), q(b).c_str()), {
        Buf ab(a); Buf bb(b); csubstr ca(ab.p, ab.n); csubstr cb(bb.p, bb.n); substr wa(ab.p, ab.n); substr wb(bb.p, bb.n);
        int e = ref(a, b);
        mc::T(6);
        MC_CHECK(sgn(ca.compare(cb)) == e && sgn(wa.compare(cb)) == e && sgn(ca.compare(wb)) == e && sgn(ca.compare(bb.p, bb.n)) == e, "compare() gives %d, expected %d", ca.compare(cb), e);
        MC_CHECK(sgn(cb.compare(ca)) == -e && sgn(wb.compare(wa)) == -e, "compare() is not antisymmetric");
        ops("csubstr op csubstr", ca, cb, e); ops("csubstr op substr", ca, wb, e); ops("substr op csubstr", wa, cb, e); ops("substr op substr", wa, wb, e);
        switch(b.size())
        {
        case 0: Arr<1>::go(b.data(), ca, wa, e, -e); break;
        case 1: Arr<2>::go(b.data(), ca, wa, e, -e); break;
        case 2: Arr<3>::go(b.data(), ca, wa, e, -e); break;
        case 3: Arr<4>::go(b.data(), ca, wa, e, -e); break;
        case 4: Arr<5>::go(b.data(), ca, wa, e, -e); break;
        case 8: Arr<9>::go(b.data(), ca, wa, e, -e); break;
        }
        if(b.size() == 1)
        {
            char c = b[0]; MC_CHECK(sgn(ca.compare(c)) == e && sgn(wa.compare(c)) == e, "compare(char) gives %d, expected %d", ca.compare(c), e);
            ops("csubstr op char", ca, c, e); ops("substr op char", wa, c, e); ops("char op csubstr", c, ca, -e); ops("char op substr", c, wa, -e);
        }
        if(b.empty())
        {   // a null view is an empty one
            csubstr z; substr wz; ops("csubstr op null", ca, z, e); ops("null op csubstr", z, ca, -e); ops("substr op null", wa, wz, e); ops("null op substr", wz, wa, -e);
            ops("null op null", z, wz, 0);
            MC_CHECK(sgn(ca.compare(nullptr, 0)) == e && sgn(z.compare(ca)) == -e, "compare with null");
            MC_CHECK((z == nullptr) && !(z != nullptr) && !(ca == nullptr) && (ca != nullptr), "comparison with nullptr");
            char c = 'a'; MC_CHECK(z.compare(c) < 0 && z < c && c > z && z != c, "null view and char");
        }
        // a view compared with itself and with views of the same memory
        if(a.size() && a == b) for(size_t n = 0; n <= a.size(); n += (a.size() < 60 || a.size() - n < 10 ? 1 : a.size() / 50)) { csubstr f(ab.p, n); ops("prefix of the same memory", f, ca, n < a.size() ? -1 : 0); }
        mc::S(); mc::V();
    });
}
SECTION(pairs, 16)
{
    Str al("\0aA\x7f\x80\xff", 6);
    size_t L = mc::thorough() ? 4 : 3;
    mc::bound(mc::fmt("all pairs of texts to length %zu over {0x00,A,a,0x7f,0x80,0xff}, every operand kind and operator; the model is a total order, hence transitivity", L));
    mc::all_strings(al, 0, L, [&](Str const& a) { if(mc::mine()) mc::all_strings(al, 0, 3, [&](Str const& b) { one(a, b); }); });
    mc::bound("all pairs of single bytes; all pairs of texts to length 4 over {a,b}");
    for(int x = 0; x < 256; ++x) { if(!mc::mine()) continue; for(int y = 0; y < 256; ++y) one(Str(1, (char)x), Str(1, (char)y)); }
    mc::all_strings("ab", 0, 5, [&](Str const& a) { if(mc::mine()) mc::all_strings("ab", 0, 4, [&](Str const& b) { one(a, b); }); });
    mc::bound("texts of 8 to 40 characters differing at one position, every position, and in length");
    for(size_t n : mc::lens(5, 130, {8u, 9u, 16u, 17u, 31u, 32u, 33u, 40u})) for(size_t p = 0; p < n; ++p)
    {
        if(!mc::mine()) continue;
        Str a(n, 'm'); for(char c : Str("\0lmn\xff", 5)) { Str b = a; b[p] = c; one(a, b); one(b, a); Str l = b + "m"; one(a, l); one(l, a); }
        one(a, a.substr(0, p)); one(a.substr(0, p), a);
    }
}
SECTION(long_texts, 4)
{
    mc::bound("texts of 100..65540 characters differing at one position around the powers of two, and in length by 1, 2, 127..129, 255..257, 32768, 65535..65537");
    for(size_t n : {100, 127, 128, 129, 255, 256, 257, 300, 512, 32768, 65535, 65536, 65537, 65540})
    {
        Str a(n, 'm');
        for(long p : {0l, 1l, 63l, 64l, 126l, 127l, 128l, 254l, 255l, 256l, 257l, 32767l, 65534l, 65535l, 65536l, (long)n - 2, (long)n - 1}) { if(p < 0 || p >= (long)n || !mc::mine()) continue; for(char c : Str("\0l\xff", 3)) { Str b = a; b[(size_t)p] = c; one(a, b); one(b, a); Str l = b + "m"; one(a, l); one(l, a); } }
        for(size_t d : {1, 2, 127, 128, 129, 255, 256, 257, 32768, 65535, 65536, 65537}) { if(!mc::mine()) continue; Str b = a + Str(d, 'm'); one(a, b); one(b, a); one(Str(d, 'm'), Str()); one(Str(), Str(d, 'm')); one(Str("m"), b); one(b, Str("m")); one(Str("n"), b); one(b, Str("l")); }
        if(mc::mine()) one(a, a);
    }
    #if !MC_ASAN
    mc::bound("views whose lengths differ by 2^31 and 2^32 (and one less or more): empty, one and eight characters against the longer one");
    size_t cap = ((size_t)1 << 32) + 8192; char *m = (char*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(m != MAP_FAILED)
    {
        memcpy(m, "mmmmmmmmm", 9);
        for(size_t s : {0u, 1u, 8u}) for(size_t big : {(size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + ((size_t)1 << 10)}) for(long d = -1; d <= 1; ++d)
        {
            if(!mc::mine()) continue;
            MC_CASE(mc::fmt("lengths %zu and %zu + %zu", s, s, big + (size_t)d), {
                Buf sb(Str(s, 'm')); csubstr a(sb.p, s); csubstr b(m, s + big + (size_t)d); substr wa(sb.p, s); substr wb(m, b.len);
                mc::T(4); MC_CHECK(a.compare(b) < 0 && b.compare(a) > 0 && wa.compare(b) < 0 && wb.compare(a) > 0, "compare() does not order them by length");
                ops("csubstr op csubstr", a, b, -1); ops("csubstr op csubstr", b, a, 1); ops("substr op substr", wa, wb, -1); ops("substr op substr", wb, wa, 1); ops("substr op csubstr", wb, a, 1);
                if(s == 1) { ops("csubstr op char", b, 'm', 1); ops("char op csubstr", 'm', b, -1); MC_CHECK(b.compare('m') > 0, "compare(char)"); }
                if(s == 0) { csubstr z; ops("null op csubstr", z, b, -1); ops("csubstr op null", b, z, 1); }
                mc::S(); mc::V();
            });
        }
        munmap(m, cap);
    }
    #endif
}
SECTION(all_bytes, 8)
{
    mc::bound("every ordered pair of different bytes, differing at each position of texts of 2, 3, 8 and 9 characters, and as the extra character");
    mc::byte_pairs([&](char x, char y) {
        one(Str{x, y}, Str{y, x}); one(Str{x, x}, Str{x, y}); one(Str{x, y}, Str{y, y}); one(Str{'m', x, 'm'}, Str{'m', y, 'm'}); one(Str{x}, Str{x, y}); one(Str{x, y}, Str{x}); one(Str{x, 'm', y}, Str{y, 'm', x});
        for(size_t p : {0u, 3u, 7u}) { Str a(8, 'm'); Str b = a; a[p] = x; b[p] = y; one(a, b); a += y; one(a, b); one(b, a); }
    });
}
MC_MAIN
