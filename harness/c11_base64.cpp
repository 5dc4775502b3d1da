// C11: base64
#include "mc.hpp"
#include <c4/base64.hpp>
#include <c4/substr.hpp>
using c4::csubstr; using c4::substr; using c4::blob; using c4::cblob;
using mc::Buf; using mc::q;
typedef std::string Str;
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
// the definition (RFC 4648): the bits of the bytes, in groups of six
static Str ref_enc(Str const& d)
{
    Str bits; for(unsigned char c : d) for(int i = 7; i >= 0; --i) bits += char('0' + ((c >> i) & 1));
    while(bits.size() % 6) bits += '0';
    Str r; for(size_t i = 0; i < bits.size(); i += 6) { int v = 0; for(size_t j = 0; j < 6; ++j) v = v * 2 + (bits[i + j] - '0'); r += AL[v]; }
    while(r.size() % 4) r += '=';
    return r;
}
static int sextet(char c) { if(c == 0) return -1; const char *p = strchr(AL, c); return p ? int(p - AL) : -1; }
static bool ref_valid(Str const& e)
{
    if(e.size() % 4) return false;
    size_t n = e.size(); size_t pad = 0;
    while(pad < n && e[n - 1 - pad] == '=') ++pad;
    if(pad > 2) return false;
    for(size_t i = 0; i < n - pad; ++i) if(sextet(e[i]) < 0) return false;
    return true;
}
static Str ref_dec(Str const& e)
{
    Str bits; size_t pad = 0;
    for(char c : e) { if(c == '=') { ++pad; continue; } int v = sextet(c); for(int i = 5; i >= 0; --i) bits += char('0' + ((v >> i) & 1)); }
    Str r; for(size_t i = 0; i + 8 <= bits.size(); i += 8) { int v = 0; for(size_t j = 0; j < 8; ++j) v = v * 2 + (bits[i + j] - '0'); r += (char)v; }
    return r;
}
static void enc_one(Str const& d, size_t cap, Buf &db, Str const& e)
{
    Buf out(cap);
    size_t r = c4::base64_encode(substr(out.p, cap), cblob(db.p, db.n));
    mc::T(); mc::S();
    MC_CHECK(r == e.size(), "encode into %zu: returned %zu, needed %zu", cap, r, e.size());
    MC_CHECK(out.ok(), "encode into %zu: wrote before the buffer", cap);
    if(cap >= e.size()) { MC_CHECK(out.str(e.size()) == e, "encode into %zu: %s, expected %s", cap, q(out.str(e.size())).c_str(), q(e).c_str()); for(size_t i = e.size(); i < cap; ++i) MC_CHECK((unsigned char)out.p[i] == 0xEE, "encode into %zu: wrote behind the text", cap); }
}
static void dec_one(Str const& e, size_t cap, Buf &eb, Str const& d)
{
    Buf out(cap);
    size_t r = c4::base64_decode(csubstr(eb.p, eb.n), blob(out.p, cap));
    mc::T(); mc::S();
    MC_CHECK(r == d.size(), "decode into %zu: returned %zu, needed %zu", cap, r, d.size());
    MC_CHECK(out.ok(), "decode into %zu: wrote before the buffer", cap);
    if(cap >= d.size()) { MC_CHECK(out.str(d.size()) == d, "decode into %zu: %s, expected %s", cap, q(out.str(d.size())).c_str(), q(d).c_str()); for(size_t i = d.size(); i < cap; ++i) MC_CHECK((unsigned char)out.p[i] == 0xEE, "decode into %zu: wrote behind the data", cap); }
}
static void roundtrip(Str const& d, bool all_caps)
{
    MC_CASE(mc::fmt("bytes %s", q(d).c_str()), {
        Buf db(d); Str e = ref_enc(d); Buf eb(e);
        mc::T(); MC_CHECK(c4::base64_valid(csubstr(eb.p, eb.n)), "the encoding %s is reported invalid", q(e).c_str());
        if(all_caps) { for(size_t cap = 0; cap <= e.size() + 3; ++cap) enc_one(d, cap, db, e); for(size_t cap = 0; cap <= d.size() + 3; ++cap) dec_one(e, cap, eb, d); }
        else { enc_one(d, e.size(), db, e); dec_one(e, d.size(), eb, d); }
        MC_CHECK(db.str() == d && eb.str() == e, "an input changed");
        mc::V();
    });
}
SECTION(bytes, 16)
{
    mc::bound("all byte sequences of length 0, 1, 2 (every destination length for 0 and 1); all of length 3 in the thorough tier, else with one byte from 6 values");
    roundtrip("", true);
    for(int a = 0; a < 256; ++a) { if(mc::mine()) roundtrip(Str(1, (char)a), true); }
    for(int a = 0; a < 256; ++a) { if(!mc::mine()) continue; for(int b = 0; b < 256; ++b) roundtrip(Str(1, (char)a) + (char)b, false); }
    #ifdef NDEBUG
    const bool full3 = mc::thorough();
    #else
    const bool full3 = false;
    #endif
    const int some[] = {0, 1, 0x3f, 0x80, 0xaa, 0xff};
    if(full3) { for(int a = 0; a < 256; ++a) for(int b = 0; b < 256; ++b) { if(!mc::mine()) continue; for(int c = 0; c < 256; ++c) { char x[3] = {(char)a, (char)b, (char)c}; roundtrip(Str(x, 3), false); } } }
    else for(int k : some) for(int a = 0; a < 256; ++a) for(int b = 0; b < 256; b += (mc::thorough() ? 1 : 5)) { if(!mc::mine()) continue; char x[3] = {(char)a, (char)b, (char)k}, y[3] = {(char)a, (char)k, (char)b}, z[3] = {(char)k, (char)a, (char)b}; roundtrip(Str(x, 3), false); roundtrip(Str(y, 3), false); roundtrip(Str(z, 3), false); }
    mc::bound("lengths 0 to 40, one non-zero byte value at every position, every destination length; all sequences of length 4 to 7 over {0x00,0xff,0x5a}");
    for(size_t n = 0; n <= 40; ++n) for(size_t i = 0; i < n; ++i) { if(!mc::mine()) continue; for(int v : {0x01, 0x80, 0xff}) { Str d(n, '\0'); d[i] = (char)v; roundtrip(d, n <= 13); Str f(n, (char)0xff); f[i] = (char)~v; roundtrip(f, false); } }
    mc::all_strings(Str("\x00\xff\x5a", 3), 4, 7, [&](Str const& d) { if(mc::mine()) roundtrip(d, d.size() < 6); });
}
SECTION(long_data, 8)
{
    mc::bound("every length 41 to 300 and around 512, 1024, 4096, 32768 and 65536: one odd byte at the ends, the middle and every boundary; destinations around the needed length");
    std::vector<size_t> ns; for(size_t n = 41; n <= 300; ++n) ns.push_back(n);
    for(size_t c : {512, 768, 1024, 4096, 32768, 49152, 65536, 98304}) for(long d = -2; d <= 2; ++d) ns.push_back((size_t)((long)c + d));
    for(size_t n : ns)
    {
        if(!mc::mine()) continue;
        Str d; for(size_t i = 0; i < n; ++i) d += (char)(i * 37 + (i >> 8) * 11 + 3);
        for(size_t at : {(size_t)0, (size_t)190, (size_t)191, (size_t)192, (size_t)255, (size_t)256, n / 2, n - 3, n - 2, n - 1})
        {
            if(at >= n) continue;
            Str x = d; x[at] = (char)~x[at];
            MC_CASE(mc::fmt("%zu bytes, odd byte at %zu", n, at), {
                Buf db(x); Str e = ref_enc(x); Buf eb(e); mc::T(); MC_CHECK(c4::base64_valid(csubstr(eb.p, eb.n)), "the encoding is reported invalid");
                for(long c : {0l, 255l, 256l, (long)e.size() - 4, (long)e.size() - 1, (long)e.size(), (long)e.size() + 1, (long)e.size() + 260}) if(c >= 0) enc_one(x, (size_t)c, db, e);
                for(long c : {0l, 255l, 256l, (long)n - 3, (long)n - 1, (long)n, (long)n + 1, (long)n + 260}) if(c >= 0) dec_one(e, (size_t)c, eb, x);
                // one bad character anywhere makes the text invalid
                size_t p = at * 4 / 3; for(char bad : {'-', '=', '\xff'}) { if(p + 3 >= e.size()) break; Str f = e; f[p] = bad; Buf fb(f); mc::T(); MC_CHECK(!c4::base64_valid(csubstr(fb.p, fb.n)), "reported valid with a bad character at %zu", p); }
                for(size_t cut = 1; cut <= 3; ++cut) { mc::T(); MC_CHECK(!c4::base64_valid(csubstr(eb.p, eb.n - cut)), "reported valid with %zu characters cut off", cut); }
                mc::V();
            });
        }
    }
}
static void text_one(Str const& e)
{
    MC_CASE(mc::fmt("text %s", q(e).c_str()), {
        Buf eb(e); bool v = ref_valid(e);
        bool got = c4::base64_valid(csubstr(eb.p, eb.n)); mc::T(); mc::S();
        MC_CHECK(got == v, "base64_valid gives %d, expected %d", (int)got, (int)v);
        if(v && got) { Str d = ref_dec(e); for(size_t cap = d.size() ? d.size() - 1 : 0; cap <= d.size() + 1; ++cap) dec_one(e, cap, eb, d); }
        MC_CHECK(eb.str() == e, "the input changed");
        mc::V();
    });
}
SECTION(texts, 16)
{
    Str al("A+/=9z-\0\x80\xff", 10);
    mc::bound("validity and decoding: all texts of length 0 to 5 over {A,+,/,=,9,z,-,0x00,0x80,0xff}");
    mc::all_strings(al, 0, 5, [&](Str const& e) { if(mc::mine()) text_one(e); });
    mc::bound("every byte value at every position of 4 and 8 character texts, with every padding of the rest");
    for(int b = 0; b < 256; ++b) { if(!mc::mine()) continue; for(Str base : {Str("AQ9z"), Str("zzz="), Str("AA=="), Str("AQ9zzQ8x"), Str("AQ9zzQ8="), Str("AQ9zzQ==")}) for(size_t i = 0; i < base.size(); ++i) { Str e = base; e[i] = (char)b; text_one(e); } }
    mc::bound("every set of '=' positions in texts of length 8 and 12");
    for(size_t n : {8u, 12u}) for(unsigned m = 0; m < (1u << n); ++m) { if(!mc::mine()) continue; Str e; for(size_t i = 0; i < n; ++i) e += (m >> i & 1) ? '=' : "Qx/8"[i % 4]; text_one(e); }
}
// the ways of passing data, and the formatting wrappers
template<class T> static void passing(const char *nm, T const& val)
{
    MC_CASE(Str(nm), {
        T v = val; Str d((const char*)&v, sizeof(T)); Str e = ref_enc(d);
        cblob cb(v); blob b(v); MC_CHECK((const char*)cb.buf == (const char*)&v && cb.len == sizeof(T) && (char*)b.buf == (char*)&v && b.len == sizeof(T), "blob of a variable");
        cblob c2(b); MC_CHECK(c2.buf == b.buf && c2.len == b.len, "cblob from blob"); cblob c3; cblob &ref = (c3 = b); MC_CHECK(&ref == &c3 && c3.buf == b.buf && c3.len == b.len, "cblob = blob");
        cblob c4_; cblob &ref2 = (c4_ = static_cast<blob&&>(b)); MC_CHECK(&ref2 == &c4_ && c4_.buf == b.buf && c4_.len == b.len, "cblob = blob&&");
        blob b2; blob &ref3 = (b2 = v); MC_CHECK(&ref3 == &b2 && b2.len == sizeof(T), "blob = variable");
        Buf out(e.size()); substr s(out.p, out.n);
        mc::T(6);
        MC_CHECK(c4::to_chars(s, c4::fmt::cbase64(v)) == e.size() && out.str() == e, "cbase64(variable): %s", q(out.str()).c_str()); out.fill();
        const T &cv = v; MC_CHECK(c4::to_chars(s, c4::fmt::base64(cv)) == e.size() && out.str() == e, "base64(const variable): %s", q(out.str()).c_str());
        T w; memset((void*)&w, 0x55, sizeof w); auto wr = c4::fmt::base64(w); MC_CHECK(c4::from_chars(csubstr(e.data(), e.size()), &wr) == sizeof(T) && !memcmp(&w, &v, sizeof v), "reading back through base64()");
        mc::S(); mc::V();
    });
}
struct S6 { char a[6]; };
SECTION(passing, 1)
{
    mc::bound("variables of size 1 to 8, arrays, pointer and count, views: as encoder input and decoder output");
    passing<char>("char", 'x'); passing<uint16_t>("u16", 0xfedc); passing<uint32_t>("u32", 0x89abcdefu); passing<uint64_t>("u64", 0x0123456789abcdefull); passing<double>("double", -1.25e10); passing<S6>("struct of 6", S6{{1, 2, -3, 4, 5, -6}});
    MC_CASE("arrays and views", {
        uint16_t a[5] = {1, 0xffff, 3, 0x8000, 5}; Str d((const char*)a, sizeof a); Str e = ref_enc(d);
        cblob ca(a); MC_CHECK(ca.len == sizeof a && (const void*)ca.buf == (const void*)a, "cblob(array)"); cblob cp(a, 3); MC_CHECK(cp.len == 6, "cblob(pointer,count)"); cblob cv((void const*)a, 3); MC_CHECK(cv.len == 3, "cblob(void*,size)"); blob ba; ba = a; MC_CHECK(ba.len == sizeof a, "blob = array");
        Buf out(e.size()); MC_CHECK(c4::base64_encode(substr(out.p, out.n), ca) == e.size() && out.str() == e, "array"); out.fill();
        MC_CHECK(c4::to_chars(substr(out.p, out.n), c4::fmt::cbase64(a, 5u)) == e.size() && out.str() == e, "pointer and count"); out.fill();
        MC_CHECK(c4::to_chars(substr(out.p, out.n), c4::fmt::cbase64(csubstr(d.data(), d.size()))) == e.size() && out.str() == e, "cbase64(csubstr)"); out.fill();
        MC_CHECK(c4::to_chars(substr(out.p, out.n), c4::fmt::base64(csubstr(d.data(), d.size()))) == e.size() && out.str() == e, "base64(csubstr)");
        Buf back(d.size()); auto w = c4::fmt::base64(substr(back.p, back.n)); MC_CHECK(c4::from_chars(csubstr(e.data(), e.size()), &w) == d.size() && back.str() == d, "base64(substr) read");
        mc::T(8); mc::S(); mc::V();
    });
}
MC_MAIN
