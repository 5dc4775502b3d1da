// C07: substring queries against definitions over the sequence of characters
#include "mc.hpp"
#include <c4/substr.hpp>
#include <algorithm>
using c4::csubstr; using c4::substr;
using mc::Buf; using mc::q;
static const size_t NP = (size_t)-1;
static_assert(csubstr::npos == (size_t)-1, "");

// for long texts: only these starts and counts, instead of all of them
static std::vector<size_t> const* g_only = nullptr;
static size_t next_k(size_t k) { if(!g_only) return k + 1; for(size_t x : *g_only) if(x > k) return x; return (size_t)1 << 40; }
// ------------------------------------------------------------------ definitions
typedef std::string Str;
static bool at(Str const& h, size_t i, Str const& n) { return i + n.size() <= h.size() && std::equal(n.begin(), n.end(), h.begin() + (long)i); }
static size_t d_find(Str const& h, Str const& n, size_t st) { if(st == NP) return NP; for(size_t i = st; i + n.size() <= h.size(); ++i) if(at(h, i, n)) return i; return NP; }
static bool in(char c, Str const& set) { return std::find(set.begin(), set.end(), c) != set.end(); }
static size_t d_first(Str const& h, Str const& set, size_t st, bool want) { if(st == NP) return NP; for(size_t i = st; i < h.size(); ++i) if(in(h[i], set) == want) return i; return NP; }
static size_t d_last(Str const& h, Str const& set, size_t st, bool want) { size_t r = NP; for(size_t i = 0; i < h.size() && i < st; ++i) if(in(h[i], set) == want) r = i; return r; }
static size_t d_count(Str const& h, Str const& n, size_t st) { size_t c = 0; for(size_t i = st; i + n.size() <= h.size();) { if(at(h, i, n)) { ++c; i += n.size(); } else ++i; } return c; }

static long rel(csubstr r, Buf const& b) { return (r.str >= b.p && r.str <= b.p + b.n) ? (long)(r.str - b.p) : -1; }
template<class V> static const char *vname();
template<> const char *vname<csubstr>() { return "csubstr"; }
template<> const char *vname<substr>() { return "substr"; }

#define EQ(call, want) do { mc::T(); auto got_ = (call); auto want_ = (want); if(__builtin_expect(!(got_ == want_), 0)) mc::violation("%s: got %lld, expected %lld", #call, (long long)got_, (long long)want_); } while(0)
#define EQS(call, st, want) do { mc::T(); auto got_ = (call); auto want_ = (want); if(__builtin_expect(!(got_ == want_), 0)) mc::violation("%s with start %lld: got %lld, expected %lld", #call, (long long)(st), (long long)got_, (long long)want_); } while(0)
// a returned view: nonempty at an exact place, or empty (anywhere inside, or null)
static void view_is(const char *what, csubstr r, Buf const& b, size_t pos, size_t len)
{
    mc::T();
    if(len) MC_CHECK(r.len == len && rel(r, b) == (long)pos, "%s: got [%ld,+%zu), expected [%zu,+%zu)", what, rel(r, b), r.len, pos, len);
    else MC_CHECK(r.len == 0, "%s: got [%ld,+%zu), expected an empty result", what, rel(r, b), r.len);
}

template<class V> static void one_char(Str const& h, char c)
{
    MC_CASE(mc::fmt("%s h=%s c=%s", vname<V>(), q(h).c_str(), q(&c, 1).c_str()), {
        Buf hb(h); V s(hb.p, hb.n); Str cs(1, c);
        EQ(s.find(c), d_find(h, cs, 0)); EQ(s.count(c), d_count(h, cs, 0)); EQ(s.first_of(c), d_first(h, cs, 0, true)); EQ(s.last_of(c), d_last(h, cs, NP, true));
        EQ(s.first_not_of(c), d_first(h, cs, 0, false)); EQ(s.last_not_of(c), d_last(h, cs, NP, false));
        EQ(s.begins_with(c), !h.empty() && h[0] == c); EQ(s.ends_with(c), !h.empty() && h.back() == c);
        { size_t p = d_find(h, cs, 0); view_is("select(c)", s.select(c), hb, p, p == NP ? 0 : 1); }
        for(size_t num = 0; num <= h.size() + 2; num = next_k(num))
        {
            bool bw = num <= h.size(), ew = bw;
            for(size_t i = 0; i < num && bw; ++i) if(h[i] != c) bw = false;
            for(size_t i = 0; i < num && ew; ++i) if(h[h.size() - 1 - i] != c) ew = false;
            EQS(s.begins_with(c, num), num, bw); EQS(s.ends_with(c, num), num, ew);
        }
        for(size_t k = 0; k <= h.size() + 1; k = next_k(k))
        {
            size_t st = k <= h.size() ? k : NP;
            EQS(s.find(c, st), st, d_find(h, cs, st)); EQS(s.first_of(c, st), st, d_first(h, cs, st, true));
            EQS(s.last_of(c, st), st, d_last(h, cs, st, true)); EQS(s.last_not_of(c, st), st, d_last(h, cs, st, false));
            { size_t p = d_find(h, cs, st); view_is("select(c,start)", s.select(c, st), hb, p, p == NP ? 0 : 1); }
            if(st != NP) { EQS(s.count(c, st), st, d_count(h, cs, st)); EQS(s.first_not_of(c, st), st, d_first(h, cs, st, false)); }
        }
        MC_CHECK(hb.ok() && hb.str() == h, "a query changed the text");
        mc::S(g_only ? g_only->size() : h.size() + 2); mc::V();
    });
}
template<class V> static void one_str(Str const& h, Str const& n)
{
    MC_CASE(mc::fmt("%s h=%s n=%s", vname<V>(), q(h).c_str(), q(n).c_str()), {
        Buf hb(h); Buf nb(n); V s(hb.p, hb.n); csubstr p(nb.p, nb.n);
        EQ(s.find(p), d_find(h, n, 0));
        if(!n.empty()) EQ(s.count(p), d_count(h, n, 0));
        EQ(s.first_of(p), d_first(h, n, 0, true)); EQ(s.last_of(p), d_last(h, n, NP, true));
        EQ(s.first_not_of(p), d_first(h, n, 0, false)); EQ(s.last_not_of(p), d_last(h, n, NP, false));
        EQ(s.begins_with(p), at(h, 0, n)); EQ(s.ends_with(p), n.size() <= h.size() && at(h, h.size() - n.size(), n));
        EQ(s.begins_with_any(p), !h.empty() && in(h[0], n)); EQ(s.ends_with_any(p), !h.empty() && in(h.back(), n));
        { size_t f = d_find(h, n, 0); view_is("select(pattern)", s.select(p), hb, f, f == NP ? 0 : n.size()); }
        for(size_t k = 0; k <= h.size() + 1; k = next_k(k))
        {
            size_t st = k <= h.size() ? k : NP;
            EQS(s.find(p, st), st, d_find(h, n, st)); EQS(s.first_of(p, st), st, d_first(h, n, st, true)); EQS(s.last_of(p, st), st, d_last(h, n, st, true));
            EQS(s.last_not_of(p, st), st, d_last(h, n, st, false));
            { size_t f = d_find(h, n, st); view_is("select(pattern,start)", s.select(p, st), hb, f, f == NP ? 0 : n.size()); }
            if(st != NP)
            {
                EQS(s.first_not_of(p, st), st, d_first(h, n, st, false));
                if(!n.empty()) EQS(s.count(p, st), st, d_count(h, n, st));
            }
        }
        MC_CHECK(hb.ok() && hb.str() == h && nb.ok() && nb.str() == n, "a query changed the text");
        mc::S(g_only ? g_only->size() : h.size() + 2); mc::V();
    });
}

template<class V> static void any(Str const& h, std::vector<Str> const& ps)
{
    MC_CASE([&]{ Str d = mc::fmt("%s h=%s patterns", vname<V>(), q(h).c_str()); for(auto &x : ps) d += " " + q(x); return d; }(), {
        Buf hb(h); V s(hb.p, hb.n);
        std::vector<csubstr> av(ps.size() < 5 ? 5 : ps.size()); csubstr *a = av.data(); for(size_t i = 0; i < ps.size(); ++i) a[i] = csubstr(ps[i].data(), ps[i].size());
        size_t pos = NP; size_t which = NP;
        for(size_t i = 0; i < h.size() && pos == NP; ++i) for(size_t k = 0; k < ps.size(); ++k) if(at(h, i, ps[k])) { pos = i; which = k; break; }
        auto r = ps.size() == 2 ? s.first_of_any(a[0], a[1]) : ps.size() == 3 ? s.first_of_any(a[0], a[1], a[2]) : ps.size() == 4 ? s.first_of_any(a[0], a[1], a[2], a[3])
               : ps.size() == 5 ? s.first_of_any(a[0], a[1], a[2], a[3], a[4]) : s.first_of_any_iter(a, a + ps.size());
        auto r2 = s.first_of_any_iter(a, a + ps.size());
        mc::T(2);
        MC_CHECK(bool(r) == (pos != NP), "found=%d, expected %d", (int)bool(r), (int)(pos != NP));
        MC_CHECK(r.pos == pos, "position %lld, expected %lld", (long long)r.pos, (long long)pos);
        MC_CHECK(pos == NP ? r.which == V::NONE : r.which == which, "pattern %lld, expected %lld", (long long)r.which, (long long)which);
        MC_CHECK(r2.pos == r.pos && r2.which == r.which, "first_of_any_iter disagrees");
        mc::S(); mc::V();
    });
}
SECTION(chars, 8)
{
    size_t L = mc::thorough() ? 9 : 7;
    mc::bound(mc::fmt("all texts to length %zu over {a,b,c}, each character incl. an absent one, every start", L));
    mc::all_strings("abc", 0, L, [&](Str const& h) {
        if(!mc::mine()) return;
        for(char c : Str("abcd")) { one_char<csubstr>(h, c); if(h.size() < L) one_char<substr>(h, c); }
    });
    mc::bound("all byte texts of length 1, and to length 4 over zero/high bytes");
    for(int b = 0; b < 256; ++b) for(int c = 0; c < 256; ++c) { if(mc::mine()) one_char<csubstr>(Str(1, (char)b), (char)c); }
    Str sp("a\0\xff\x80", 4);
    mc::all_strings(sp, 0, 4, [&](Str const& h) { if(!mc::mine()) return; for(char c : sp) { one_char<csubstr>(h, c); one_char<substr>(h, c); } });
}
SECTION(strings, 8)
{
    size_t L = mc::thorough() ? 8 : 6, N = mc::thorough() ? 4 : 3;
    mc::bound(mc::fmt("all texts to length %zu over {a,b,c}, all needles to length %zu, every start and npos", L, N));
    mc::all_strings("abc", 0, L, [&](Str const& h) {
        if(!mc::mine()) return;
        mc::all_strings("abc", 0, N, [&](Str const& n) { one_str<csubstr>(h, n); if(h.size() < L) one_str<substr>(h, n); });
    });
    size_t L2 = mc::thorough() ? 12 : 10, N2 = mc::thorough() ? 6 : 5;
    mc::bound(mc::fmt("all texts to length %zu over {a,b}, all needles of length 3 to %zu: long partial matches", L2, N2));
    mc::all_strings("ab", 5, L2, [&](Str const& h) {
        if(!mc::mine()) return;
        mc::all_strings("ab", 3, N2, [&](Str const& n) { one_str<csubstr>(h, n); });
    });
    Str sp("a\0\xff\x80", 4);
    mc::all_strings(sp, 0, 4, [&](Str const& h) { if(!mc::mine()) return; mc::all_strings(sp, 0, 2, [&](Str const& n) { one_str<csubstr>(h, n); }); });
    // a needle longer than the text, and long texts: every place of one occurrence
    for(size_t len : mc::lens(8, 66, {16u, 17u, 31u, 33u, 64u, 65u})) for(size_t pos = 0; pos + 3 <= len; ++pos)
    {
        if(!mc::mine()) continue;
        Str h(len, '.'); h[pos] = 'x'; h[pos + 1] = 'y'; h[pos + 2] = 'z';
        one_str<csubstr>(h, "xyz"); one_str<substr>(h, "zy"); one_str<csubstr>(h, ".x"); one_char<csubstr>(h, 'y');
    }
}
static std::vector<size_t> around(size_t n)
{
    std::vector<size_t> r;
    for(size_t c : {(size_t)0, (size_t)128, (size_t)256, (size_t)32768, (size_t)65536, n / 2, n}) for(long d = -3; d <= 3; ++d) { long x = (long)c + d; if(x >= 0 && x <= (long)n + 2) r.push_back((size_t)x); }
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}
SECTION(long_texts, 16)
{
    mc::bound("texts of 128..65540 characters around the powers of two, and needles and sets of 127..70000 characters: one, two and many occurrences at, before and behind every boundary, needles of 1..300 characters, starts around the boundaries");
    for(size_t len : mc::lens(13, 70, {128, 129, 255, 256, 257, 258, 300, 512, 32769, 65535, 65536, 65537, 65540}))
    {
        std::vector<size_t> ks = around(len);
        for(size_t pos : ks)
        {
            if(pos >= len) continue;
            if(!mc::mine()) continue;
            g_only = &ks;
            Str h(len, '.'); h[pos] = 'x';
            one_char<csubstr>(h, 'x'); one_char<substr>(h, '.');
            if(len > 1000 && !mc::thorough() && pos % 5) { one_str<csubstr>(h, "x"); g_only = nullptr; continue; }
            one_str<csubstr>(h, "x"); one_str<csubstr>(h, "x."); one_str<substr>(h, "."); one_str<csubstr>(h, ".x");
            if(pos + 3 < len) { h[pos + 1] = 'y'; one_str<csubstr>(h, "xy"); one_str<csubstr>(h, "yx"); one_str<csubstr>(h, "xy.y"); h[pos + 1] = '.'; }
            // long needles: the last characters decide
            for(size_t m : {127, 128, 255, 256, 257, 300}) if(m <= len && len < 1000) { one_str<csubstr>(h, Str(m, '.')); one_str<csubstr>(h, Str(m - 1, '.') + "x"); one_str<csubstr>(h, "x" + Str(m - 1, '.')); one_str<csubstr>(h, Str(m - 1, '.') + "z"); }
            if(len < 1000) { one_str<csubstr>(h, h); one_str<csubstr>(h, h + "."); }
            g_only = nullptr;
        }
        if(!mc::mine()) continue;
        g_only = &ks;
        // as many matches as characters
        Str all(len, 'a'); one_char<csubstr>(all, 'a'); one_char<substr>(all, 'b'); one_str<csubstr>(all, "a"); one_str<csubstr>(all, "aa"); one_str<csubstr>(all, "aaa"); one_str<csubstr>(all, "ab");
        Str alt; for(size_t i = 0; i < len; ++i) alt += "ab"[i & 1]; one_char<csubstr>(alt, 'b'); one_str<csubstr>(alt, "ab"); one_str<csubstr>(alt, "ba"); one_str<csubstr>(alt, "bab"); one_str<csubstr>(alt, "cb"); one_str<csubstr>(alt, "c");
        g_only = nullptr;
    }
    // sets and needles far longer than the text: the last character decides
    for(size_t m : {127, 128, 255, 256, 257, 32768, 65535, 65536, 65537, 70000}) for(Str h : {Str(), Str("x"), Str("xa"), Str("ax"), Str("axa"), Str("xx"), Str(".x"), Str("x."), Str("aa"), Str("x\0x", 3)}) for(size_t at : {(size_t)0, m - 1, m / 2})
    {
        if(!mc::mine()) continue;
        Str n(m, '.'); n[at] = 'x'; one_str<csubstr>(h, n); one_str<substr>(h, n);
    }
    // texts that hold such a needle, and ones that differ from it in one place
    for(size_t m : {65535, 65536, 65537, 70000}) for(size_t lead : {0, 300, 65536}) for(size_t tail : {0, 1})
    {
        if(!mc::mine()) continue;
        Str n = "x" + Str(m - 2, '.') + "y", l(lead, '.'), t(tail, '.');
        std::vector<size_t> ks; for(size_t k : {(size_t)0, (size_t)1, lead, lead + 1, lead + m, lead + m + tail + 1}) ks.push_back(k);
        std::sort(ks.begin(), ks.end()); ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
        g_only = &ks;
        one_str<csubstr>(l + n + t, n); one_str<substr>(l + n + t, n.substr(0, m - 1) + "z"); if(tail == 0) one_str<csubstr>(l + n + n, n);
        Str w = n; w[m / 2] = '?'; one_str<csubstr>(l + n + t, w); w = n; w[m - 1] = '?'; one_str<csubstr>(l + w + n + t, n);
        any<csubstr>(l + n + t, {w, n}); any<csubstr>(l + w + t, {n, "?"});
        g_only = nullptr;
    }
    mc::sample("'x' at 256 of 65537 characters");
}
SECTION(any_of, 8)
{
    std::vector<Str> P; mc::all_strings("ab", 1, 2, [&](Str const& x) { P.push_back(x); });
    P.push_back("bab"); P.push_back("d");
    mc::bound("all tuples of 1 to 5 patterns out of 8 over {a,b,d}; all texts over {a,b,c} to length 5 (pairs, triples), 4, 3");
    for(size_t n = 1; n <= 5; ++n)
    {
        size_t L = (n <= 2 ? 6 : n == 3 ? 5 : n == 4 ? 3 : 2) + (mc::thorough() ? 1 : 0);
        u_int64_t tot = 1; for(size_t i = 0; i < n; ++i) tot *= P.size();
        for(u_int64_t c = 0; c < tot; ++c)
        {
            if(!mc::mine()) continue;
            std::vector<Str> ps; u_int64_t x = c; for(size_t i = 0; i < n; ++i) { ps.push_back(P[x % P.size()]); x /= P.size(); }
            mc::all_strings("abc", 0, L, [&](Str const& h) { any<csubstr>(h, ps); if(n <= 3 && h.size() < 5) any<substr>(h, ps); });
        }
    }
}
SECTION(any_of_long, 4)
{
    mc::bound("first_of_any over texts of 255..65537 characters, the hit at every boundary");
    for(size_t len : mc::lens(8, 70, {255, 256, 257, 300, 65535, 65536, 65537})) for(size_t pos : around(len))
    {
        if(pos + 2 > len || !mc::mine()) continue;
        Str h(len, '.'); h[pos] = 'x'; h[pos + 1] = 'y';
        any<csubstr>(h, {"yx", "xy"}); any<csubstr>(h, {"y", "x"}); any<substr>(h, {"z", "y.", "xy"}); any<csubstr>(h, {"zz", "yy", "w", "v", "x"}); any<csubstr>(h, {"z", "w"});
    }
    mc::bound("6..65537 patterns, the matching one first, last and in the middle");
    for(size_t n : {6, 7, 127, 128, 255, 256, 257, 300, 32768, 65535, 65536, 65537}) for(size_t k : {(size_t)0, n / 2, n - 2, n - 1, n})
    {
        if(!mc::mine()) continue;
        std::vector<Str> ps(n, "z"); if(k < n) ps[k] = "xy";
        any<csubstr>("..xy.", ps); any<substr>("xy", ps);
    }
}
template<class V> static void pairs(Str const& h, char O = '(', char C = ')', char Q = '"', char X = '\\')
{
    MC_CASE(mc::fmt("%s h=%s marks %s", vname<V>(), q(h).c_str(), q(Str({O, C, Q, X})).c_str()), {
        Buf hb(h); V s(hb.p, hb.n);
        size_t b = h.find(O); size_t e = b == NP ? NP : h.find(C, b + 1);
        bool nested = b != NP && e != NP && h.substr(b + 1, e - b - 1).find(O) != NP;
        if(b != NP && e != NP) { if(!nested) view_is("pair_range", s.pair_range(O, C), hb, b, e - b + 1); }
        else view_is("pair_range", s.pair_range(O, C), hb, 0, 0);
        // nested
        size_t depth = 0; size_t end = NP;
        if(b != NP) for(size_t i = b; i < h.size(); ++i) { if(h[i] == O) ++depth; else if(h[i] == C) { if(--depth == 0) { end = i; break; } } }
        view_is("pair_range_nested", s.pair_range_nested(O, C), hb, b, end == NP ? 0 : end - b + 1);
        // quotes with escapes
        size_t qb = h.find(Q); size_t qe = NP;
        if(qb != NP) for(size_t i = qb + 1; i < h.size(); ++i) if(h[i] == Q && h[i - 1] != X) { qe = i; break; }
        view_is("pair_range_esc", (X == '\\' ? s.pair_range_esc(Q) : s.pair_range_esc(Q, X)), hb, qb, qe == NP ? 0 : qe - qb + 1);
        size_t xe = NP;
        if(qb != NP) for(size_t i = qb + 1; i < h.size(); ++i) if(h[i] == Q && h[i - 1] != O) { xe = i; break; }
        view_is("pair_range_esc with other escape", s.pair_range_esc(Q, O), hb, qb, xe == NP ? 0 : xe - qb + 1);
        MC_CHECK(hb.ok() && hb.str() == h, "a query changed the text");
        mc::S(); mc::V();
    });
}
SECTION(ranges, 8)
{
    size_t L = mc::thorough() ? 9 : 7;
    mc::bound(mc::fmt("all texts to length %zu over parentheses, quote, backslash and a letter: paired ranges", L));
    mc::all_strings("()\"\\a", 0, L, [&](Str const& h) { if(mc::mine()) { pairs<csubstr>(h); if(h.size() < L) pairs<substr>(h); } });
    size_t L2 = mc::thorough() ? 14 : 12;
    mc::bound(mc::fmt("all texts to length %zu over parentheses: deep nesting", L2));
    mc::all_strings("()", 0, L2, [&](Str const& h) { if(mc::mine()) pairs<csubstr>(h); });
    mc::bound("nesting, distance and position of up to 65537: one character added, missing or displaced");
    for(size_t n : mc::lens(8, 130, {20, 64, 127, 128, 129, 254, 255, 256, 257, 300, 32768, 65535, 65536, 65537})) for(size_t lead : {0u, 1u, 256u, 65535u, 65537u})
    {
        if((lead > 256 && n > 12 && n != 300 && n != 65536) || !mc::mine()) continue;
        Str o(n, '('), c(n, ')'), a(n, 'a'), l(lead, 'a'), oc; for(size_t i = 0; i < n; ++i) oc += "()";
        for(auto const& h : {o + c, o + c + ")", o + c + "a", o + c.substr(1), o, c, "(" + a + ")", "(" + a, "(" + oc + ")", "(" + oc, oc, o + "a" + c + "a)", "\"" + a + "\"", "\"" + a, "\"" + a + "\\\"" + a + "\"", "\"" + a + "\\\"", "\"\"" + a, "\"" + a + "\"" + a + "\""}) { pairs<csubstr>(l + h); pairs<substr>(l + h); }
    }
}
SECTION(containment, 4)
{
    size_t L = mc::thorough() ? 7 : 5;
    mc::bound(mc::fmt("all pairs of views of one array of %zu and of two different arrays, and null views", L));
    for(size_t a = 0; a <= L; ++a) for(size_t n = 0; a + n <= L; ++n) for(size_t b = 0; b <= L; ++b) for(size_t m = 0; b + m <= L; ++m)
    {
        if(!mc::mine()) continue;
        MC_CASE(mc::fmt("this=[%zu,+%zu) that=[%zu,+%zu)", a, n, b, m), {
            Buf buf(L); csubstr s(buf.p + a, n); csubstr t(buf.p + b, m); substr ws(buf.p + a, n);
            bool super = n ? (b >= a && b + m <= a + n) : (m == 0 && b == a);
            bool over = false; for(size_t i = a; i < a + n; ++i) if(i >= b && i < b + m) over = true;
            EQ(s.is_super(t), super); EQ(t.is_sub(s), super); EQ(ws.is_super(t), super); EQ(s.overlaps(t), over); EQ(t.overlaps(s), over); EQ(ws.overlaps(t), over);
            // another array
            Buf other(L); csubstr o(other.p + b, m);
            EQ(s.overlaps(o), false); EQ(o.overlaps(s), false); EQ(s.is_super(o), false); EQ(s.is_sub(o), false);
            csubstr z; EQ(s.overlaps(z), false); EQ(z.overlaps(s), false); EQ(s.is_super(z), false); EQ(z.is_super(s), false); EQ(z.overlaps(z), false);
            mc::S(); mc::V();
        });
    }
}
SECTION(all_bytes, 16)
{
    mc::bound("every ordered pair of different bytes x,y: all texts over {x,y} to length 3, searched for x, xy, and the set {x,y}; bracket, quote and escape characters x and y");
    mc::byte_pairs([&](char x, char y) {
        Str xy{x, y};
        mc::all_strings(xy, 1, 3, [&](Str const& h) { one_char<csubstr>(h, x); one_str<csubstr>(h, xy); });
        for(auto const& h : {Str{x, 'q', y}, Str{x, x, y, y}, Str{y, x, y, x, y, y}, Str{x, y, y}, Str{x, y}, Str{x, x, y}, Str{x, 'q', y, x}, Str{'q', x, 'q', 'q', x}}) { if(x != 'q' && y != 'q') { pairs<csubstr>(h, x, y, x, y); } }
        any<csubstr>(Str{x, y, x}, {Str{y, y}, Str{y, x}, Str{x, x}}); any<csubstr>(Str{y, y, x}, {Str{x}, Str{x, y}});
    });
    mc::bound("every triple of a text byte, a set byte and the other set byte is covered by the pairs: sets of 1 and 2 of every byte");
}
MC_MAIN
