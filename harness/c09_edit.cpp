// C09: in-place edits of a mutable view
#include "mc.hpp"
#include <c4/substr.hpp>
#include <algorithm>
using c4::csubstr; using c4::substr;
using mc::Buf; using mc::q;
static const size_t NP = (size_t)-1;
typedef std::string Str;
// the edited view is a window [2, 2+n) of a larger known array: changes outside it are seen
struct Win
{
    Buf b; size_t n;
    Win(Str const& h) : b(Str("<{") + h + Str("}>")), n(h.size()) {}
    substr v() { return substr(b.p + 2, n); }
    Str text() { return Str(b.p + 2, n); }
    bool framed() { return b.ok() && !memcmp(b.p, "<{", 2) && !memcmp(b.p + 2 + n, "}>", 2); }
};
static void same(const char *what, Win &w, Str const& want)
{
    mc::T();
    MC_CHECK(w.text() == want, "%s: text is %s, expected %s", what, q(w.text()).c_str(), q(want).c_str());
    MC_CHECK(w.framed(), "%s: a byte outside the view changed", what);
}
static void run_ops(Str const& h)
{
    const size_t n = h.size();
    { Win w(h); w.v().reverse(); Str e(h.rbegin(), h.rend()); same("reverse", w, e); }
    for(size_t f = 0; f <= n; ++f) for(size_t m = 0; f + m <= n; ++m)
    {
        Str e = h; std::reverse(e.begin() + (long)f, e.begin() + (long)(f + m));
        { Win w(h); w.v().reverse_sub(f, m); same(mc::fmt("reverse_sub(%zu,%zu)", f, m).c_str(), w, e); }
        { Win w(h); w.v().reverse_range(f, f + m); same(mc::fmt("reverse_range(%zu,%zu)", f, f + m).c_str(), w, e); }
        Str er = h; er.erase(f, m);
        for(int k = 0; k < 3; ++k)
        {
            Win w(h); substr v = w.v();
            substr r = k == 0 ? v.erase(f, m) : k == 1 ? v.erase_range(f, f + m) : v.erase(csubstr(v.str + f, m));
            mc::T();
            MC_CHECK(r.str == v.str && r.len == er.size() && Str(r.str, r.len) == er, "erase form %d (%zu,%zu): result has %zu characters, expected %s", k, f, m, r.len, q(er).c_str());
            MC_CHECK(w.framed(), "erase form %d (%zu,%zu): a byte outside the view changed", k, f, m);
        }
        mc::S();
    }
    for(char c : Str("ax")) { Win w(h); w.v().fill(c); same("fill", w, Str(n, c)); }
}
SECTION(shape, 8)
{
    size_t L = mc::thorough() ? 7 : 6;
    mc::bound(mc::fmt("all texts to length %zu over {a,b,c}: reverse, erase, fill with every sub-range", L));
    mc::all_strings("abc", 0, L, [&](Str const& h) { if(mc::mine()) MC_CASE(mc::fmt("h=%s", q(h).c_str()), { run_ops(h); mc::V(); }); });
    mc::bound("distinct characters, lengths to 40: every sub-range");
    for(size_t n = 7; n <= 40; ++n) { if(!mc::mine()) continue; Str h; for(size_t i = 0; i < n; ++i) h += (char)('0' + i); MC_CASE(mc::fmt("h=%s", q(h).c_str()), { run_ops(h); mc::V(); }); }
}
static std::vector<size_t> around(size_t n)
{
    std::vector<size_t> r;
    for(size_t c : {(size_t)0, (size_t)256, (size_t)65536, n / 2, n}) for(int d = -1; d <= 1; ++d) { long x = (long)c + d; if(x >= 0 && x <= (long)n) r.push_back((size_t)x); }
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}
SECTION(long_edits, 8)
{
    mc::bound("texts of 127..65540 characters: reverse, erase, fill, case, copy and replace with sub-ranges around the powers of two, the middle and the ends");
    for(size_t n : mc::lens(7, 130, {127, 128, 129, 255, 256, 257, 258, 300, 512, 32768, 65535, 65536, 65537, 65540}))
    {
        Str h; for(size_t i = 0; i < n; ++i) h += (char)(33 + (i * 7 + i / 251) % 90);
        for(size_t f : around(n)) for(size_t g : around(n))
        {
            if(g < f || !mc::mine()) continue;
            size_t m = g - f;
            MC_CASE(mc::fmt("a text of %zu characters, range [%zu,%zu)", n, f, g), {
                auto chk = [&](const char *what, Win &w, Str const& e) { mc::T(); MC_CHECK(w.text() == e, "%s: wrong text", what); MC_CHECK(w.framed(), "%s: a byte outside the view changed", what); };
                Str e = h; std::reverse(e.begin() + (long)f, e.begin() + (long)g);
                { Win w(h); w.v().reverse_sub(f, m); chk("reverse_sub", w, e); } { Win w(h); w.v().reverse_range(f, g); chk("reverse_range", w, e); }
                if(f == 0 && g == n) { Win w(h); w.v().reverse(); chk("reverse", w, e); }
                Str er = h; er.erase(f, m);
                for(int k = 0; k < 3; ++k) { Win w(h); substr v = w.v(); substr r = k == 0 ? v.erase(f, m) : k == 1 ? v.erase_range(f, g) : v.erase(csubstr(v.str + f, m)); mc::T(); MC_CHECK(r.str == v.str && r.len == er.size() && Str(r.str, r.len) == er && w.framed(), "erase form %d is wrong", k); }
                e = h; for(size_t i = f; i < g; ++i) e[i] = 'x'; { Win w(h); w.v().range(f, g).fill('x'); chk("fill", w, e); }
                e = h; for(size_t i = f; i < g; ++i) if(e[i] >= 'a' && e[i] <= 'z') e[i] = (char)(e[i] - 32); { Win w(h); w.v().range(f, g).toupper(); chk("toupper", w, e); }
                e = h; for(size_t i = f; i < g; ++i) if(e[i] >= 'A' && e[i] <= 'Z') e[i] = (char)(e[i] + 32); { Win w(h); w.v().range(f, g).tolower(); chk("tolower", w, e); }
                for(size_t sl : {m, m + 1, m ? m - 1 : 0}) { Str src; for(size_t i = 0; i < sl; ++i) src += (char)('0' + i % 75); e = h; size_t c = std::min(m, sl); for(size_t i = 0; i < c; ++i) e[f + i] = src[i]; { Win w(h); Buf sb(src); w.v().copy_from(csubstr(sb.p, sb.n), f, m); chk("copy_from", w, e); } size_t c2 = std::min(n - f, sl); for(size_t i = 0; i < c2; ++i) e[f + i] = src[i]; { Win w(h); Buf sb(src); w.v().copy_from(csubstr(sb.p, sb.n), f); chk("copy_from to the end", w, e); } }
                e = h; size_t cnt = 0; for(size_t i = f; i < n; ++i) if(e[i] == 'A' || e[i] == 'z') { e[i] = '#'; ++cnt; } { Win w(h); size_t r = w.v().replace(csubstr("zA"), '#', f); chk("replace(chars)", w, e); MC_CHECK(r == cnt, "replace returned %zu, expected %zu", r, cnt); }
                Str u(n, 'k'); Str v2 = u; for(size_t i = f; i < n; ++i) v2[i] = '#'; { Win w(u); size_t r = w.v().replace('k', '#', f); chk("replace(char)", w, v2); MC_CHECK(r == n - f, "replace returned %zu, expected %zu", r, n - f); }
                { Win w(u); size_t r = w.v().replace(csubstr("zk"), '#', f); chk("replace(chars), all characters", w, v2); MC_CHECK(r == n - f, "replace(chars) returned %zu, expected %zu", r, n - f); }
                mc::S(); mc::V();
            });
        }
    }
}
SECTION(long_replace_all, 8)
{
    mc::bound("replace_all of texts of 127..65540 characters, patterns and replacements of 1..300 characters: one match at every boundary, matches everywhere, none; destinations around the needed length and the powers of two");
    auto one = [&](Str const& h, Str const& p, Str const& r) {
        Str e; for(size_t i = 0; i < h.size();) { if(h.compare(i, p.size(), p) == 0) { e += r; i += p.size(); } else e += h[i++]; }
        if(e.size() > 200000) return;
        MC_CASE(mc::fmt("a text of %zu characters, pattern %s, replacement of %zu", h.size(), q(p).c_str(), r.size()), {
            Buf hb(h); Buf pb(p); Buf rb(r);
            std::vector<size_t> ds = around(e.size()); ds.push_back(e.size() + 1); ds.push_back(e.size() + 300);
            for(size_t d : ds)
            {
                Buf db(d); size_t ret = csubstr(hb.p, hb.n).replace_all(substr(db.p, d), csubstr(pb.p, pb.n), csubstr(rb.p, rb.n)); mc::T(); mc::S();
                MC_CHECK(ret == e.size(), "destination %zu: returned %zu, needed %zu", d, ret, e.size()); MC_CHECK(db.ok(), "wrote before the destination");
                if(d >= e.size()) { MC_CHECK(memcmp(db.p, e.data(), e.size()) == 0, "destination %zu: wrong text", d); for(size_t i = e.size(); i < d; ++i) MC_CHECK((unsigned char)db.p[i] == 0xEE, "destination %zu: wrote behind the text", d); }
            }
            mc::V();
        });
    };
    for(size_t n : mc::lens(7, 130, {127, 128, 129, 255, 256, 257, 300, 512, 32768, 65535, 65536, 65537, 65540}))
    {
        for(size_t at : around(n)) { if(at + 2 > n || !mc::mine()) continue; Str h(n, '.'); h[at] = 'x'; h[at + 1] = 'y'; for(auto const& r : {Str(""), Str("Z"), Str("ZZ"), Str("123"), Str(255, 'q'), Str(256, 'q'), Str(300, 'q')}) { one(h, "xy", r); one(h, "x", r); } }
        if(!mc::mine()) continue;
        Str a(n, 'a'); one(a, "a", ""); one(a, "a", "b"); one(a, "a", "bc"); one(a, "aa", "b"); one(a, "b", "zzz"); if(n <= 512) { one(a, Str(n, 'a'), "x"); one(a, Str(n - 1, 'a'), "x"); one(a, Str(n / 2, 'a'), Str(n, 'b')); one(a, "a", Str(257, 'b')); }
    }
}
SECTION(letters, 1)
{
    mc::bound("case conversion of every byte at every position of texts of length 1 to 3, and all texts over {a,Z,9,0xe4} to length 6");
    auto up = [](Str s) { for(char &c : s) if(c >= 'a' && c <= 'z') c = (char)(c - 32); return s; };
    auto lo = [](Str s) { for(char &c : s) if(c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; };
    auto one = [&](Str const& h) { MC_CASE(mc::fmt("h=%s", q(h).c_str()), { { Win w(h); w.v().toupper(); same("toupper", w, up(h)); } { Win w(h); w.v().tolower(); same("tolower", w, lo(h)); } mc::S(); mc::V(); }); };
    for(int b = 0; b < 256; ++b) for(size_t n = 1; n <= 3; ++n) for(size_t i = 0; i < n; ++i) { Str h(n, 'q'); h[i] = (char)b; one(h); h.assign(n, 'Q'); h[i] = (char)b; one(h); }
    mc::all_strings("aZ9\xe4", 0, 6, one);
    for(int x = 0; x < 256; ++x) for(int y = 0; y < 256; ++y) { one(Str{(char)x, (char)y}); Str l(17, (char)x); l[8] = l[16] = (char)y; one(l); }
}
SECTION(copying, 4)
{
    size_t L = mc::thorough() ? 9 : 7;
    mc::bound(mc::fmt("copy_from: every destination length, source length, first position and count (also unlimited) to %zu", L));
    for(size_t n = 0; n <= L; ++n) for(size_t m = 0; m <= L + 1; ++m) for(size_t f = 0; f <= n; ++f)
    {
        if(!mc::mine()) continue;
        for(size_t k = 0; k <= n - f + 1; ++k)
        {
            size_t num = k <= n - f ? k : NP;
            MC_CASE(mc::fmt("dst %zu src %zu first %zu num %lld", n, m, f, (long long)num), {
                Str h; for(size_t i = 0; i < n; ++i) h += (char)('0' + i);
                Str src; for(size_t i = 0; i < m; ++i) src += (char)('a' + i);
                size_t cnt = std::min(num == NP ? n - f : num, m); Str e = h; for(size_t i = 0; i < cnt; ++i) e[f + i] = src[i];
                { Win w(h); Buf sb(src); w.v().copy_from(csubstr(sb.p, m), f, num); same("copy_from(that,first,num)", w, e); MC_CHECK(sb.str() == src, "the source changed"); }
                if(num == NP) { Win w(h); Buf sb(src); w.v().copy_from(csubstr(sb.p, m), f); same("copy_from(that,first)", w, e); }
                if(num == NP && f == 0) { Win w(h); Buf sb(src); w.v().copy_from(csubstr(sb.p, m)); same("copy_from(that)", w, e); }
                if(m == 0) { Win w(h); w.v().copy_from(csubstr{}, f, num); same("copy_from(null)", w, h); }
                mc::S(); mc::V();
            });
        }
    }
}
SECTION(replace_chars, 8)
{
    size_t L = mc::thorough() ? 8 : 6;
    mc::bound(mc::fmt("replace characters: all texts to length %zu over {a,b,c}, every character and set to length 2, every replacement and start", L));
    auto one = [&](Str const& h, Str const& set, char repl) {
        MC_CASE(mc::fmt("h=%s set=%s repl=%s", q(h).c_str(), q(set).c_str(), q(&repl, 1).c_str()), {
            for(size_t k = 0; k <= h.size() + 2; ++k)
            {
                size_t pos = k <= h.size() ? k : NP; bool dflt = k == h.size() + 2; if(dflt) pos = 0;
                Str e = h; size_t cnt = 0; if(pos != NP) for(size_t i = pos; i < h.size(); ++i) if(set.find(h[i]) != NP) { e[i] = repl; ++cnt; }
                { Win w(h); Buf sb(set); csubstr ss(sb.p, sb.n); size_t r = dflt ? w.v().replace(ss, repl) : w.v().replace(ss, repl, pos); same("replace(chars)", w, e); MC_CHECK(r == cnt, "replace(chars,repl,%lld) returned %zu, expected %zu", (long long)pos, r, cnt); }
                if(set.size() == 1) { Win w(h); size_t r = dflt ? w.v().replace(set[0], repl) : w.v().replace(set[0], repl, pos); same("replace(char)", w, e); MC_CHECK(r == cnt, "replace(char,repl,%lld) returned %zu, expected %zu", (long long)pos, r, cnt); }
                mc::S();
            }
            mc::V();
        });
    };
    mc::all_strings("abc", 0, L, [&](Str const& h) { if(mc::mine()) mc::all_strings("abc", 0, 2, [&](Str const& s) { for(char r : Str("axc")) one(h, s, r); }); });
    Str sp("a\0\xff", 3);
    mc::all_strings(sp, 0, 4, [&](Str const& h) { if(mc::mine()) mc::all_strings(sp, 0, 2, [&](Str const& s) { for(char r : sp) one(h, s, r); }); });
    mc::bound("every ordered pair of different bytes: all texts to length 3 over the pair, one replaced by the other, both replaced");
    mc::byte_pairs([&](char x, char y) { Str xy{x, y}; mc::all_strings(xy, 1, 3, [&](Str const& h) { one(h, Str(1, x), y); }); one(Str{x, 'q', y, x}, xy, 'Z'); one(Str{'q', y, 'r', x}, xy, y); });
}
SECTION(replace_all, 16)
{
    size_t L = mc::thorough() ? 8 : 6;
    mc::bound(mc::fmt("replace_all: all texts to length %zu over {a,b}, patterns of length 1-3, replacements of length 0-3, every start and npos, every destination length to needed+2", L));
    std::vector<Str> repls = {"", "x", "a", "ab", "xyz", "bb"};
    auto one = [&](Str const& h, Str const& p, Str const& r) {
        for(size_t k = 0; k <= h.size() + 1; ++k)
        {
            size_t pos = k <= h.size() ? k : NP;
            Str e = h.substr(0, pos == NP ? h.size() : pos);
            for(size_t i = e.size(); i < h.size();) { if(h.compare(i, p.size(), p) == 0) { e += r; i += p.size(); } else e += h[i++]; }
            MC_CASE(mc::fmt("h=%s pattern=%s repl=%s pos=%lld", q(h).c_str(), q(p).c_str(), q(r).c_str(), (long long)pos), {
                Buf hb(h); Buf pb(p); Buf rb(r);
                for(size_t d = 0; d <= e.size() + 2; ++d)
                {
                    Buf db(d); csubstr cs(hb.p, hb.n); substr ws(hb.p, hb.n);
                    size_t ret = (d & 1) ? ws.replace_all(substr(db.p, d), csubstr(pb.p, pb.n), csubstr(rb.p, rb.n), pos) : cs.replace_all(substr(db.p, d), csubstr(pb.p, pb.n), csubstr(rb.p, rb.n), pos);
                    mc::T(); mc::S();
                    MC_CHECK(ret == e.size(), "destination %zu: returned %zu, needed %zu", d, ret, e.size());
                    MC_CHECK(db.ok(), "destination %zu: wrote before it", d);
                    if(d >= e.size()) { MC_CHECK(db.str(e.size()) == e, "destination %zu: got %s, expected %s", d, q(db.str()).c_str(), q(e).c_str()); for(size_t i = e.size(); i < d; ++i) MC_CHECK((unsigned char)db.p[i] == 0xEE, "destination %zu: wrote behind the text", d); }
                }
                if(pos == 0) { Buf db(e.size()); size_t ret = csubstr(hb.p, hb.n).replace_all(substr(db.p, db.n), csubstr(pb.p, pb.n), csubstr(rb.p, rb.n)); mc::T(); MC_CHECK(ret == e.size() && db.str() == e, "default start: got %s", q(db.str()).c_str()); }
                { size_t ret = csubstr(hb.p, hb.n).replace_all(substr{}, csubstr(pb.p, pb.n), csubstr(rb.p, rb.n), pos); mc::T(); MC_CHECK(ret == e.size(), "null destination: returned %zu, needed %zu", ret, e.size()); }
                MC_CHECK(hb.str() == h && pb.str() == p && rb.str() == r, "an input changed");
                mc::V();
            });
        }
    };
    mc::all_strings("ab", 0, L, [&](Str const& h) { if(mc::mine()) mc::all_strings("ab", 1, 3, [&](Str const& p) { for(auto &r : repls) one(h, p, r); }); });
    if(mc::thorough()) mc::all_strings("abc", 0, 5, [&](Str const& h) { if(mc::mine()) mc::all_strings("abc", 1, 2, [&](Str const& p) { for(auto &r : repls) one(h, p, r); }); });
    mc::byte_pairs([&](char x, char y) { one(Str{x, y, x}, Str{x, y}, Str{y}); one(Str{y, x}, Str(1, x), Str{x, y}); });
}
// histories: sequences of edits of one view keep agreeing with the same edits of a std::string
SECTION(histories, 8)
{
    size_t D = mc::thorough() ? 4 : 3;
    mc::bound(mc::fmt("all sequences of %zu edits (reverse_sub, erase, replace, copy_from, fill of a part, case) of a text of 5 characters, the view following the edits", D));
    struct Op { int k; size_t a, b; };
    std::vector<Op> ops;
    for(size_t a : {0u, 1u, 3u}) for(size_t b : {0u, 1u, 2u}) { ops.push_back({0, a, b}); ops.push_back({1, a, b}); ops.push_back({2, a, b}); }
    for(int k = 3; k <= 6; ++k) ops.push_back({k, 1, 1});
    std::vector<size_t> ix(D, 0);
    for(;;)
    {
        if(mc::mine()) MC_CASE([&]{ Str d = "edits"; for(size_t i : ix) d += mc::fmt(" %d:%zu,%zu", ops[i].k, ops[i].a, ops[i].b); return d; }(), {
            Win w("abCab"); substr v = w.v(); Str m = "abCab"; Str tail;
            for(size_t i : ix)
            {
                Op o = ops[i]; bool room = o.a + o.b <= m.size();
                if(!room && o.k <= 2) continue;
                switch(o.k)
                {
                case 0: v.reverse_sub(o.a, o.b); std::reverse(m.begin() + (long)o.a, m.begin() + (long)(o.a + o.b)); break;
                case 1: v = v.erase(o.a, o.b); m.erase(o.a, o.b); break;
                case 2: v.sub(o.a, o.b).fill('x'); for(size_t j = 0; j < o.b; ++j) m[o.a + j] = 'x'; break;
                case 3: v.replace('a', 'q'); std::replace(m.begin(), m.end(), 'a', 'q'); break;
                case 4: v.copy_from("YZ"); for(size_t j = 0; j < 2 && j < m.size(); ++j) m[j] = "YZ"[j]; break;
                case 5: v.toupper(); for(char &c : m) if(c >= 'a' && c <= 'z') c = (char)(c - 32); break;
                case 6: v.tolower(); for(char &c : m) if(c >= 'A' && c <= 'Z') c = (char)(c + 32); break;
                }
                mc::T();
                MC_CHECK(Str(v.str, v.len) == m, "text is %s, expected %s", q(v.str, v.len).c_str(), q(m).c_str());
                MC_CHECK(w.framed(), "a byte outside the view changed");
                mc::S();
            }
            mc::V();
        });
        size_t k = D; while(k > 0) { --k; if(++ix[k] < ops.size()) break; ix[k] = 0; if(k == 0) { k = NP; break; } }
        if(k == NP) break;
    }
}
SECTION(all_bytes, 4)
{
    mc::bound("every ordered pair of different bytes: reverse, erase and fill of texts made of them");
    mc::byte_pairs([&](char x, char y) { Str h{x, y, y, 'q'}; MC_CASE(mc::fmt("h=%s", q(h).c_str()), { run_ops(h); Win w(h); w.v().sub(1, 2).fill(x); same("fill", w, Str{x, x, x, 'q'}); mc::V(); }); });
}
MC_MAIN
