// C08: slicing, trimming, splitting, path components
#include "mc.hpp"
#include <c4/substr.hpp>
#include <algorithm>
#include <sstream>
using c4::csubstr; using c4::substr;
using mc::Buf; using mc::q;
static const size_t NP = (size_t)-1;
typedef std::string Str;
template<class V> static const char *vname();
template<> const char *vname<csubstr>() { return "csubstr"; }
template<> const char *vname<substr>() { return "substr"; }

struct R { size_t pos, len; }; // expected: [pos, pos+len)
static R er() { return R{0, 0}; }
static void is_(const char *what, csubstr r, Buf const& b, R e)
{
    mc::T();
    bool inside = r.str >= b.p && r.str + r.len <= b.p + b.n && r.len <= b.n;
    if(e.len) MC_CHECK(inside && r.len == e.len && (size_t)(r.str - b.p) == e.pos, "%s: got [%ld,+%lld), expected [%zu,+%zu)", what, inside ? (long)(r.str - b.p) : -1L, (long long)r.len, e.pos, e.len);
    else MC_CHECK(r.len == 0 && (inside || r.str == nullptr), "%s: got %lld characters%s, expected an empty view of the text", what, (long long)r.len, inside ? "" : " outside the text");
}
#define IS(call, ...) is_(#call, (call), hb, R __VA_ARGS__)
#define ISF(call, fmtexpr, ...) do { csubstr r_ = (call); R e_ = R __VA_ARGS__; bool in_ = r_.str >= hb.p && r_.str + r_.len <= hb.p + hb.n && r_.len <= hb.n; \
    bool good_ = e_.len ? (in_ && r_.len == e_.len && (size_t)(r_.str - hb.p) == e_.pos) : (r_.len == 0 && (in_ || r_.str == nullptr)); mc::T(); \
    if(__builtin_expect(!good_, 0)) mc::violation("%s %s: got [%ld,+%lld), expected [%zu,+%zu)", #call, (fmtexpr).c_str(), in_ ? (long)(r_.str - hb.p) : -1L, (long long)r_.len, e_.pos, e_.len); } while(0)

// ------------------------------------------------------------------ positional slicing
template<class V> static void slices(size_t n, bool null)
{
    MC_CASE(mc::fmt("%s length %zu%s", vname<V>(), n, null ? " (null)" : ""), {
        Buf hb(n); for(size_t i = 0; i < n; ++i) hb.p[i] = (char)('0' + i);
        V s; if(!null) s = V(hb.p, n);
        auto P = [](size_t a, size_t b) { return mc::fmt("(%lld,%lld)", (long long)a, (long long)b); };
        MC_CHECK(s.empty() == (n == 0) && s.not_empty() == (n != 0) && s.size() == n && s.len == n, "size/empty");
        MC_CHECK((size_t)(s.end() - s.begin()) == n && s.data() == s.begin(), "begin/end"); mc::T(3);
        if(n) { MC_CHECK(&s.front() == hb.p && &s.back() == hb.p + n - 1, "front/back"); V const& ks = s; MC_CHECK(&ks.front() == hb.p && &ks.back() == hb.p + n - 1 && ks.data() == hb.p && &ks[n - 1] == hb.p + n - 1, "front/back/data of a constant view"); for(size_t i = 0; i < n; ++i) MC_CHECK(&s[i] == hb.p + i, "operator[]"); mc::T(2 + n); }
        for(size_t f = 0; f <= n; ++f)
        {
            ISF(s.sub(f), P(f, 0), {f, n - f}); ISF(s.sub(f, NP), P(f, NP), {f, n - f}); ISF(s.range(f), P(f, 0), {f, n - f}); ISF(s.range(f, NP), P(f, NP), {f, n - f});
            ISF(s.first(f), P(f, 0), {0, f}); ISF(s.last(f), P(f, 0), {n - f, f});
            ISF(s.left_of(f), P(f, 0), {0, f}); ISF(s.left_of(f, false), P(f, 0), {0, f}); ISF(s.left_of(f, true), P(f, 1), {0, std::min(n, f + 1)});
            ISF(s.right_of(f), P(f, 0), {f + 1, f + 1 <= n ? n - f - 1 : 0}); ISF(s.right_of(f, false), P(f, 0), {f + 1, f + 1 <= n ? n - f - 1 : 0}); ISF(s.right_of(f, true), P(f, 1), {f, n - f});
            for(size_t m = 0; f + m <= n; ++m)
            {
                ISF(s.sub(f, m), P(f, m), {f, m}); ISF(s.range(f, f + m), P(f, f + m), {f, m}); ISF(s.offs(f, m), P(f, m), {f, n - f - m});
                csubstr w(hb.p + f, m);
                if(!null) { ISF(s.left_of(w), P(f, m), {0, f}); ISF(s.right_of(w), P(f, m), {f + m, n - f - m}); }
                mc::S();
            }
        }
        IS(s.first(NP), {0, n}); IS(s.last(NP), {0, n}); IS(s.left_of(NP), {0, n}); IS(s.left_of(NP, true), {0, n}); IS(s.left_of(NP, false), {0, n});
        IS(s.right_of(NP), {0, 0}); IS(s.right_of(NP, true), {0, 0}); IS(s.right_of(NP, false), {0, 0});
        mc::V();
    });
}
SECTION(slices, 1)
{
    mc::bound("every position and count of views of length 0 to 12 (24 thorough), and a null view");
    for(size_t n = 0; n <= (mc::thorough() ? 24u : 12u); ++n) { slices<csubstr>(n, false); slices<substr>(n, false); }
    slices<csubstr>(0, true); slices<substr>(0, true);
}
static std::vector<size_t> around(size_t n, int w = 2)
{
    std::vector<size_t> r;
    for(size_t c : {(size_t)0, (size_t)128, (size_t)256, (size_t)32768, (size_t)65536, n / 2, n}) for(int d = -w; d <= w; ++d) { long x = (long)c + d; if(x >= 0 && x <= (long)n) r.push_back((size_t)x); }
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}
template<class V> static void slices_at(Buf &hb, size_t n, std::vector<size_t> const& ps)
{
    MC_CASE(mc::fmt("%s length %zu", vname<V>(), n), {
        V s(hb.p, n); auto P = [](size_t a, size_t b) { return mc::fmt("(%lld,%lld)", (long long)a, (long long)b); };
        MC_CHECK(s.size() == n && (size_t)(s.end() - s.begin()) == n && &s.back() == hb.p + n - 1, "size/back"); mc::T(3);
        for(size_t f : ps)
        {
            ISF(s.sub(f), P(f, 0), {f, n - f}); ISF(s.range(f), P(f, 0), {f, n - f}); ISF(s.first(f), P(f, 0), {0, f}); ISF(s.last(f), P(f, 0), {n - f, f});
            ISF(s.left_of(f), P(f, 0), {0, f}); ISF(s.left_of(f, true), P(f, 1), {0, std::min(n, f + 1)}); ISF(s.right_of(f), P(f, 0), {f + 1, f + 1 <= n ? n - f - 1 : 0}); ISF(s.right_of(f, true), P(f, 1), {f, n - f});
            if(f < n) MC_CHECK(&s[f] == hb.p + f, "operator[](%zu)", f);
            for(size_t e : ps) if(e >= f)
            {
                size_t m = e - f;
                ISF(s.sub(f, m), P(f, m), {f, m}); ISF(s.range(f, e), P(f, e), {f, m}); ISF(s.offs(f, n - e), P(f, n - e), {f, m});
                csubstr w(hb.p + f, m); ISF(s.left_of(w), P(f, m), {0, f}); ISF(s.right_of(w), P(f, m), {e, n - e});
                mc::S();
            }
        }
        mc::V();
    });
}
SECTION(long_slices, 2)
{
    mc::bound("views of 127..65540 characters: every pair of positions around 0, the powers of two, the middle and the end; views of 2^31 and 2^32 + 7 characters likewise");
    for(size_t n : mc::lens(13, 130, {127, 128, 129, 255, 256, 257, 300, 512, 32767, 32769, 65535, 65536, 65537, 65540})) { if(!mc::mine()) continue; Buf hb(n, 'a'); slices_at<csubstr>(hb, n, around(n, 3)); slices_at<substr>(hb, n, around(n)); }
    #if !MC_ASAN
    for(size_t n : {((size_t)1 << 31) - 1, (size_t)1 << 31, ((size_t)1 << 31) + 1, ((size_t)1 << 32) - 1, (size_t)1 << 32, ((size_t)1 << 32) + 7})
    {
        if(!mc::mine()) continue;
        size_t cap = ((size_t)1 << 32) + 8192; char *m = (char*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(m == MAP_FAILED) { mc::bound("(no address space for the 4 GB views)"); continue; }
        struct Fake { char *p; size_t n; } fk{m, n};
        std::vector<size_t> ps = around(n); for(size_t c : {(size_t)1 << 31, (size_t)1 << 32}) for(int d = -1; d <= 1; ++d) if(c + (size_t)d <= n) ps.push_back(c + (size_t)d);
        std::sort(ps.begin(), ps.end()); ps.erase(std::unique(ps.begin(), ps.end()), ps.end());
        alignas(Buf) char store[sizeof(Buf)]; Buf &hb = *reinterpret_cast<Buf*>(store); memset(store, 0, sizeof store); hb.p = fk.p; hb.n = fk.n;
        slices_at<csubstr>(hb, n, ps); slices_at<substr>(hb, n, ps);
        munmap(m, cap);
    }
    #endif
}
// ------------------------------------------------------------------ trimming
static bool in(char c, Str const& set) { return set.find(c) != NP; }
static R d_trim(Str const& h, Str const& set, bool l, bool r) { size_t b = 0; size_t e = h.size(); if(l) while(b < e && in(h[b], set)) ++b; if(r) while(e > b && in(h[e - 1], set)) --e; return R{b, e - b}; }
template<class V> static void trims(Str const& h, Str const& n)
{
    MC_CASE(mc::fmt("%s h=%s n=%s", vname<V>(), q(h).c_str(), q(n).c_str()), {
        Buf hb(h); Buf nb(n); V s(hb.p, hb.n); csubstr p(nb.p, nb.n);
        IS(s.triml(p), (d_trim(h, n, true, false))); IS(s.trimr(p), (d_trim(h, n, false, true))); IS(s.trim(p), (d_trim(h, n, true, true)));
        if(n.size() == 1) { char c = n[0]; IS(s.triml(c), (d_trim(h, n, true, false))); IS(s.trimr(c), (d_trim(h, n, false, true))); IS(s.trim(c), (d_trim(h, n, true, true))); }
        bool bw = h.size() >= n.size() && h.compare(0, n.size(), n) == 0; bool ew = h.size() >= n.size() && h.compare(h.size() - n.size(), n.size(), n) == 0;
        IS(s.stripl(p), {bw ? n.size() : 0, bw ? h.size() - n.size() : h.size()}); IS(s.stripr(p), {0, ew ? h.size() - n.size() : h.size()});
        MC_CHECK(hb.ok() && hb.str() == h, "the text changed");
        mc::S(); mc::V();
    });
}
SECTION(trims, 8)
{
    size_t L = mc::thorough() ? 8 : 6;
    mc::bound(mc::fmt("all texts to length %zu over {a,b,blank}, all sets/patterns to length 3", L));
    mc::all_strings("ab ", 0, L, [&](Str const& h) { if(mc::mine()) mc::all_strings("ab ", 0, 3, [&](Str const& n) { trims<csubstr>(h, n); if(h.size() < L) trims<substr>(h, n); }); });
    Str sp("a\0\xff", 3);
    mc::all_strings(sp, 0, 4, [&](Str const& h) { if(mc::mine()) mc::all_strings(sp, 0, 2, [&](Str const& n) { trims<csubstr>(h, n); }); });
}
SECTION(long_trims, 2)
{
    mc::bound("runs of 127..65537 characters in front, behind and inside; patterns of that length");
    for(size_t n : mc::lens(8, 130, {127, 128, 129, 255, 256, 257, 300, 32768, 65535, 65536, 65537}))
    {
        if(!mc::mine()) continue;
        Str b(n, ' '), a(n, 'a');
        for(auto const& h : {b, b + "a", "a" + b, b + "a" + b, "a" + b + "a", a, " " + a + " ", b + a + b}) { trims<csubstr>(h, " "); trims<substr>(h, "b "); trims<csubstr>(h, "a"); trims<csubstr>(h, "ab "); if(n > 300) continue; trims<csubstr>(h, b); trims<csubstr>(h, a); trims<csubstr>(h, b + "a"); trims<csubstr>(h, h); trims<csubstr>(h, h + "a"); }
    }
}
// ------------------------------------------------------------------ unquoting
template<class V> static void unq(Str const& h)
{
    MC_CASE(mc::fmt("%s h=%s", vname<V>(), q(h).c_str()), {
        Buf hb(h); V s(hb.p, hb.n); size_t n = h.size();
        bool quoted = n >= 2 && (h[0] == '\'' || h[0] == '"') && h[n - 1] == h[0] && h[n - 2] != '\\';
        IS(s.unquoted(), {quoted ? 1u : 0u, quoted ? n - 2 : n});
        mc::S(); mc::V();
    });
}
SECTION(unquote, 4)
{
    size_t L = mc::thorough() ? 7 : 6;
    mc::bound(mc::fmt("all texts to length %zu over both quotes, backslash and two letters", L));
    mc::all_strings("'\"\\ab", 0, L, [&](Str const& h) { if(mc::mine()) { unq<csubstr>(h); unq<substr>(h); } });
    for(size_t n : mc::lens(8, 130, {10, 64, 127, 128, 254, 255, 256, 257, 300, 65534, 65535, 65536})) for(const char *l : {"'", "\"", "\\", "a"}) for(const char *r : {"'", "\"", "\\'", "a"}) { if(mc::mine()) unq<csubstr>(l + Str(n, 'a') + r); }
}
// ------------------------------------------------------------------ splitting
template<class V> static void splits(Str const& h, char sep)
{
    MC_CASE(mc::fmt("%s h=%s sep=%s", vname<V>(), q(h).c_str(), q(&sep, 1).c_str()), {
        Buf hb(h); V s(hb.p, hb.n);
        for(size_t start = 0; start == 0 || start < h.size(); start = h.size() < 100 ? start + 1 : start == 0 ? 1 : start == 1 ? h.size() / 2 : start == h.size() / 2 ? h.size() - 1 : h.size())
        {
            std::vector<R> want;
            if(!h.empty()) { size_t b = start; for(size_t i = start; i <= h.size(); ++i) if(i == h.size() || h[i] == sep) { want.push_back(R{b, i - b}); b = i + 1; } }
            // the range
            size_t k = 0; Str joined;
            for(auto piece : s.split(sep, start))
            {
                if(k < want.size()) is_("split piece", piece, hb, want[k]); else { MC_CHECK(false, "split from %zu: more than %zu pieces", start, want.size()); break; }
                if(k) joined += sep;
                joined.append(piece.str, piece.len); ++k;
            }
            MC_CHECK(k == want.size(), "split from %zu: %zu pieces, expected %zu", start, k, want.size());
            if(start == 0) { size_t j = 0; for(auto piece : s.split(sep)) { if(j < want.size()) is_("split piece", piece, hb, want[j]); ++j; } MC_CHECK(j == want.size(), "split: %zu pieces, expected %zu", j, want.size()); }
            MC_CHECK(joined == h.substr(start), "joining the pieces gives %s", q(joined).c_str());
            // iterators: post-increment, dereference
            { auto sp = s.split(sep, start); k = 0; auto it = sp.begin(); auto e = sp.end();
              while(it != e && k <= want.size()) { auto old = it++; if(k < want.size()) { is_("split iterator", *old, hb, want[k]); MC_CHECK(old->len == want[k].len, "operator->"); } ++k; mc::T(); }
              MC_CHECK(k == want.size(), "post-increment iteration: %zu pieces, expected %zu", k, want.size()); MC_CHECK(it == e, "iterators differ at the end"); }
            // the cursor
            size_t pos = start; V piece; k = 0;
            while(s.next_split(sep, &pos, &piece)) { if(k < want.size()) is_("next_split", piece, hb, want[k]); ++k; if(k > want.size()) break; }
            MC_CHECK(k == want.size(), "next_split from %zu: %zu pieces, expected %zu", start, k, want.size());
            for(int again = 0; again < 2; ++again) { mc::T(); MC_CHECK(!s.next_split(sep, &pos, &piece), "next_split found another piece after the end"); }
            mc::S();
        }
        MC_CHECK(hb.ok() && hb.str() == h, "the text changed"); mc::V();
    });
}
SECTION(split, 8)
{
    size_t L = mc::thorough() ? 10 : 8;
    mc::bound(mc::fmt("all texts to length %zu over {a,b,/}, every start", L));
    mc::all_strings("/ab", 0, L, [&](Str const& h) { if(mc::mine()) { splits<csubstr>(h, '/'); if(h.size() < L) splits<substr>(h, '/'); } });
    Str sp("a\0\xff", 3);
    mc::all_strings(sp, 0, 5, [&](Str const& h) { if(mc::mine()) for(char c : sp) splits<csubstr>(h, c); });
    mc::bound("texts of 127..65540 characters: pieces of that length, that many pieces, and the separator at every boundary");
    for(size_t n : mc::lens(8, 130, {127, 128, 129, 255, 256, 257, 300, 32768, 65535, 65536, 65537}))
    {
        if(!mc::mine()) continue;
        Str a(n, 'a'), p(n, '/'), ap; for(size_t i = 0; i < n; ++i) ap += "a/";
        std::vector<Str> hs = {a, "/" + a, a + "/", a + "/" + a, a + "//" + a, a + "/b", "b/" + a};
        if(n <= 300) for(auto x : {p, ap, "/" + ap, p + a, a + p, a + p + a}) hs.push_back(x);
        for(auto const& h : hs) { splits<csubstr>(h, '/'); splits<substr>(h, '/'); if(n <= 300) splits<csubstr>(h, 'a'); }
    }
    for(size_t n : {256u, 257u, 300u}) for(size_t i = 0; i < n; ++i) { if(mc::mine()) { Str h(n, 'a'); h[i] = '/'; splits<csubstr>(h, '/'); h[n - 1] = '/'; splits<csubstr>(h, '/'); } }
}
// ------------------------------------------------------------------ popping
static R d_popr(Str const& h, char sep, bool skip)
{
    size_t n = h.size();
    if(!skip) { size_t p = h.rfind(sep); return p == NP ? R{0, n} : R{p + 1, n - p - 1}; }
    size_t last = n; while(last > 0 && h[last - 1] == sep) --last;   // [.., last) ends with a non-separator
    if(last == 0) return er();
    size_t b = last; while(b > 0 && h[b - 1] != sep) --b;
    return R{b, n - b};
}
static R d_popl(Str const& h, char sep, bool skip)
{
    size_t n = h.size();
    if(!skip) { size_t p = h.find(sep); return p == NP ? R{0, n} : R{0, p}; }
    size_t first = 0; while(first < n && h[first] == sep) ++first;
    if(first == n) return er();
    size_t e = first; while(e < n && h[e] != sep) ++e;
    return R{0, e};
}
// what is left of the text on the left when a piece was popped from the right
static R d_gpopl(Str const& h, char sep, bool skip)
{
    R r = d_popr(h, sep, skip);
    if(!skip) { size_t p = h.rfind(sep); return p == NP ? er() : R{0, p}; }
    if(r.len == 0) return er();
    size_t e = r.pos; while(e > 0 && h[e - 1] == sep) --e;
    return R{0, e};
}
static R d_gpopr(Str const& h, char sep, bool skip)
{
    R r = d_popl(h, sep, skip); size_t n = h.size();
    if(!skip) { size_t p = h.find(sep); return p == NP ? er() : R{p + 1, n - p - 1}; }
    if(r.len == 0) return er();
    size_t b = r.len; while(b < n && h[b] == sep) ++b;
    return R{b, n - b};
}
static R d_base(Str const& h, char sep) { R r = d_popr(h, sep, true); while(r.len && h[r.pos + r.len - 1] == sep) --r.len; return r; }
template<class V> static void pops(Str const& h, char sep)
{
    MC_CASE(mc::fmt("%s h=%s sep=%s", vname<V>(), q(h).c_str(), q(&sep, 1).c_str()), {
        Buf hb(h); V s(hb.p, hb.n);
        IS(s.pop_right(sep), (d_popr(h, sep, false))); IS(s.pop_right(sep, true), (d_popr(h, sep, true))); IS(s.pop_left(sep), (d_popl(h, sep, false))); IS(s.pop_left(sep, true), (d_popl(h, sep, true)));
        IS(s.gpop_left(sep), (d_gpopl(h, sep, false))); IS(s.gpop_left(sep, true), (d_gpopl(h, sep, true))); IS(s.gpop_right(sep), (d_gpopr(h, sep, false))); IS(s.gpop_right(sep, true), (d_gpopr(h, sep, true)));
        R b = d_base(h, sep);
        IS(s.basename(sep), (b)); IS(s.dirname(sep), {0, b.len ? b.pos : h.size()});
        if(sep == '/') { IS(s.pop_right(), (d_popr(h, sep, false))); IS(s.pop_left(), (d_popl(h, sep, false))); IS(s.gpop_left(), (d_gpopl(h, sep, false))); IS(s.gpop_right(), (d_gpopr(h, sep, false))); IS(s.basename(), (b)); IS(s.dirname(), {0, b.len ? b.pos : h.size()}); }
        if(sep == '.') { IS(s.name_wo_extshort(), (d_gpopl(h, '.', false))); IS(s.name_wo_extlong(), (d_popl(h, '.', false))); IS(s.extshort(), (d_popr(h, '.', false))); IS(s.extlong(), (d_gpopr(h, '.', false))); }
        // histories: pop until exhausted, each piece exactly once, in order
        for(int skip = 0; skip < 2; ++skip)
        {
            std::vector<Str> want; { size_t p0 = 0; for(size_t i = 0; i <= h.size(); ++i) if(i == h.size() || h[i] == sep) { Str w = h.substr(p0, i - p0); if(!skip || !w.empty()) want.push_back(w); p0 = i + 1; } }
            size_t nsep = (size_t)std::count(h.begin(), h.end(), sep);
            std::vector<Str> got; V cur = s;
            for(size_t i = 0; i <= nsep + 1; ++i)
            {
                if(skip && cur.trim(sep).empty()) break;
                V x = cur.pop_left(sep, skip); V y = skip ? x.triml(sep) : x; got.push_back(Str(y.str ? y.str : "", y.len)); mc::T(2);
                if(!skip && cur.find(sep) == NP) break;
                cur = cur.gpop_right(sep, skip); mc::T();
            }
            MC_CHECK(got == want, "popping from the left (skip_empty=%d): %zu pieces, expected %zu, or other ones", skip, got.size(), want.size());
            got.clear(); cur = s;
            for(size_t i = 0; i <= nsep + 1; ++i)
            {
                if(skip && cur.trim(sep).empty()) break;
                V x = cur.pop_right(sep, skip); V y = skip ? x.trimr(sep) : x; got.push_back(Str(y.str ? y.str : "", y.len)); mc::T(2);
                if(!skip && cur.find(sep) == NP) break;
                cur = cur.gpop_left(sep, skip); mc::T();
            }
            std::reverse(want.begin(), want.end());
            MC_CHECK(got == want, "popping from the right (skip_empty=%d): %zu pieces, expected %zu, or other ones", skip, got.size(), want.size());
        }
        mc::S(); mc::V();
    });
}
SECTION(pops, 8)
{
    size_t L = mc::thorough() ? 10 : 8;
    mc::bound(mc::fmt("all texts to length %zu over {separator,a,b} for '/' and '.': single pops and complete pop histories from both ends", L));
    mc::all_strings("/ab", 0, L, [&](Str const& h) { if(mc::mine()) { pops<csubstr>(h, '/'); if(h.size() < L) pops<substr>(h, '/'); } });
    mc::all_strings(".ab", 0, L - 1, [&](Str const& h) { if(mc::mine()) { pops<csubstr>(h, '.'); if(h.size() < L - 2) pops<substr>(h, '.'); } });
    mc::all_strings("/.a", 0, L - 2, [&](Str const& h) { if(mc::mine()) { pops<csubstr>(h, '.'); pops<csubstr>(h, '/'); } });
    Str sp("a\0\xff", 3);
    mc::all_strings(sp, 0, 5, [&](Str const& h) { if(mc::mine()) for(char c : sp) pops<csubstr>(h, c); });
    mc::bound("texts of 127..65540 characters: pieces of that length, that many pieces, and the separator at every boundary");
    for(size_t n : mc::lens(8, 130, {127, 128, 129, 255, 256, 257, 300, 32768, 65535, 65536, 65537}))
    {
        if(!mc::mine()) continue;
        Str a(n, 'a'), p(n, '/'), ap; for(size_t i = 0; i < n; ++i) ap += "a/";
        std::vector<Str> hs = {a, "/" + a, a + "/", a + "/" + a, a + "//" + a, a + "/b", "b/" + a};
        if(n <= 300) for(auto x : {p, ap, "/" + ap, p + a, a + p, a + p + a}) hs.push_back(x);
        for(auto const& h : hs) { pops<csubstr>(h, '/'); pops<substr>(h, '/'); if(n <= 300) pops<csubstr>(h, 'a'); }
    }
    for(size_t n : {256u, 257u, 300u}) for(size_t i = 0; i < n; ++i) { if(mc::mine()) { Str h(n, 'a'); h[i] = '/'; pops<csubstr>(h, '/'); h[n - 1] = '/'; pops<csubstr>(h, '/'); } }
}
// ------------------------------------------------------------------ making views
SECTION(making, 1)
{
    mc::bound("views made from pointers, ranges, arrays and zero-terminated strings of length 0 to 300 and 65530 to 65540, and their stream output");
    for(size_t n = 0; n <= 65540; n = n < 300 ? n + 1 : n < 65530 ? 65530 : n + 1)
    {
        MC_CASE(mc::fmt("length %zu", n), {
            Buf hb(n + 1); for(size_t i = 0; i < n; ++i) hb.p[i] = (char)('a' + i % 26); hb.p[n] = 0;
            const char *cp = hb.p; char *wp = hb.p;
            IS(csubstr(cp, n), {0, n}); IS(csubstr(cp, cp + n), {0, n}); IS(csubstr(cp), {0, n}); IS(csubstr(wp), {0, n}); IS(substr(wp), {0, n}); IS(substr(wp, n), {0, n}); IS(substr(wp, wp + n), {0, n});
            IS(c4::to_csubstr(cp), {0, n}); IS(c4::to_csubstr(wp), {0, n}); IS(c4::to_substr(wp), {0, n}); IS(c4::to_csubstr(substr(wp, n)), {0, n}); IS(c4::to_substr(substr(wp, n)), {0, n}); IS(c4::to_csubstr(csubstr(wp, n)), {0, n});
            csubstr c("zzz"); c = cp; IS(c, {0, n}); c.clear(); MC_CHECK(c.str == nullptr && c.len == 0 && c.empty() && c == nullptr, "clear()"); c.assign(cp, n); IS(c, {0, n}); c.assign(cp); IS(c, {0, n}); c.assign(cp, cp + n); IS(c, {0, n}); c = nullptr; MC_CHECK(c == nullptr && c.empty(), "= nullptr");
            substr w; w = wp; IS(w, {0, n}); w.assign(wp, n); IS(w, {0, n}); csubstr cw = w; IS(cw, {0, n}); c = w; IS(c, {0, n}); w.assign(wp, wp + n); IS(w, {0, n}); w.assign(wp); IS(w, {0, n});
            MC_CHECK(csubstr((const char*)nullptr).empty() && substr((char*)nullptr).empty(), "null C string"); { csubstr z(cp, n); z = (const char*)nullptr; substr zw(wp, n); zw = (char*)nullptr; MC_CHECK(z.empty() && z.len == 0 && !z.str && zw.empty() && zw.len == 0 && !zw.str, "assigning a null C string"); z.assign(cp, n); z.assign((const char*)nullptr); zw.assign(wp, n); zw.assign((char*)nullptr); MC_CHECK(z.empty() && z.len == 0 && zw.empty() && zw.len == 0 && z.not_empty() == false && !z.has_str(), "assign() of a null C string"); mc::T(4); } MC_CHECK(c.has_str() == (n > 0), "has_str");
            std::ostringstream os; os << c; os << w; MC_CHECK(os.str() == Str(cp, n) + Str(cp, n), "stream output");
            mc::T(6); mc::S(); mc::V();
        });
    }
    MC_CASE("arrays", {
        char a1[1] = {0}; char a4[4] = {'a', 'b', 'c', 0}; const char k4[4] = {'x', 0, 'z', 0};
        MC_CHECK(substr(a1).len == 0 && substr(a1).str == a1 && substr(a4).len == 3 && csubstr(k4).len == 3 && csubstr(k4).str == k4 && csubstr("").len == 0 && csubstr("ab").len == 2, "array constructor");
        csubstr c; c = k4; MC_CHECK(c.str == k4 && c.len == 3, "array assignment"); c.assign("hello"); MC_CHECK(c.len == 5, "array assign()");
        substr s; s = a4; MC_CHECK(s.str == a4 && s.len == 3, "array assignment"); s.assign(a4); MC_CHECK(s.len == 3, "array assign");
        MC_CHECK(c4::to_substr(a4).len == 3 && c4::to_csubstr(k4).len == 3 && c4::to_csubstr("").len == 0, "to_substr(array)");
        mc::T(8); mc::S(); mc::V();
    });
}
SECTION(all_bytes, 16)
{
    mc::bound("every ordered pair of different bytes x,y: all texts over {x,y} to length 3 trimmed, stripped, split and popped at x; quoted texts containing x and y");
    mc::byte_pairs([&](char x, char y) {
        Str xy{x, y};
        mc::all_strings(xy, 1, 3, [&](Str const& h) { trims<csubstr>(h, Str(1, x)); splits<csubstr>(h, x); pops<csubstr>(h, x); });
        for(auto const& h : {Str{x, y, 'q', 'r'}, Str{'q', y, x}, Str{x, 'q', y}}) { trims<csubstr>(h, xy); trims<csubstr>(h, Str{y, x}); splits<substr>(h, x); pops<substr>(h, x); }
        for(auto const& h : {Str{'\'', x, y, '\''}, Str{'"', x, y, '"'}, Str{x, 'a', y}, Str{x, y}, Str{x, y, x}}) unq<csubstr>(h);
    });
}
MC_MAIN
