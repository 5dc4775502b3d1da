// C27: calls on disjoint data from different threads.  Every tuple of calls is run
// under every schedule up to a preemption bound; schedule points are the accesses
// to bytes that two threads share, the synchronisation operations, and the
// boundaries between the calls.  The oracle is the result of each thread alone,
// plus: no data race, no deadlock, no error, no crash.
#include "mc.hpp"
#include "c27_rt.hpp"
#include <c4/format.hpp>
#include <c4/dump.hpp>
#include <c4/enum.hpp>
#include <c4/bitmask.hpp>
#include <c4/base64.hpp>
#include <c4/utf.hpp>
#include <c4/span.hpp>
#include <c4/hash.hpp>
#include <c4/szconv.hpp>
#include <c4/type_name.hpp>
#include <c4/allocator.hpp>
#include <c4/ctor_dtor.hpp>
#include <c4/memory_util.hpp>
#include <c4/memory_resource.hpp>
#include <c4/char_traits.hpp>
#include <c4/std/string.hpp>
#include <c4/std/vector.hpp>
#if __cplusplus >= 201703L
#include <c4/std/string_view.hpp>
#include <c4/ext/sg14/inplace_function.h>
#endif
#include <sys/wait.h>
#include <map>
#include <algorithm>
using c4::csubstr; using c4::substr;
using rt::yield;

/// what a thread observes
struct Out
{
    char b[rt::RESLEN]; size_t n = 0;
    void c(char x) { if(n < sizeof b) b[n++] = x; }
    void raw(const char *p, size_t k) { for(size_t i = 0; i < k; ++i) c(p[i]); c('|'); }
    Out &operator<< (csubstr s) { raw(s.str, s.len); return *this; }
    Out &operator<< (const char *s) { raw(s, strlen(s)); return *this; }
    Out &operator<< (unsigned long long v) { char t[24]; int k = 0; do { t[k++] = (char)('0' + v % 10); v /= 10; } while(v); while(k) c(t[--k]); c('|'); return *this; }
    Out &operator<< (unsigned long v) { return *this << (unsigned long long)v; }
    Out &operator<< (unsigned v) { return *this << (unsigned long long)v; }
    Out &operator<< (bool v) { c(v ? 'T' : 'F'); return *this; }
    Out &operator<< (long long v) { if(v < 0) { c('-'); return *this << (0ull - (unsigned long long)v); } return *this << (unsigned long long)v; }
    Out &operator<< (int v) { return *this << (long long)v; }
    Out &operator<< (long v) { return *this << (long long)v; }
    /// a long text: its length and a digest
    void d(csubstr s) { unsigned long long h = 5381; for(size_t i = 0; i < s.len; ++i) h = h * 33 + (unsigned char)s.str[i]; *this << s.len << h; }
    Out &operator<< (double v) { unsigned long long u; __builtin_memcpy(&u, &v, 8); return *this << u; }
};

enum class Col : uint8_t { red = 1, green = 2, blue = 3, black = 200 };
enum Msk : unsigned { M_NONE = 0, M_A = 1, M_B = 2, M_C = 4, M_AB = 3 };
namespace c4 {
template<> inline const EnumSymbols<Col> esyms<Col>() { static const EnumSymbols<Col>::Sym rs[] = {{Col::red, "Col::red"}, {Col::green, "Col::green"}, {Col::blue, "Col::blue"}, {Col::black, "Col::black"}}; return EnumSymbols<Col>(rs); }
template<> inline const EnumSymbols<Msk> esyms<Msk>() { static const EnumSymbols<Msk>::Sym rs[] = {{M_NONE, "M_NONE"}, {M_A, "M_A"}, {M_B, "M_B"}, {M_C, "M_C"}, {M_AB, "M_AB"}}; return EnumSymbols<Msk>(rs); }
template<> inline size_t eoffs_cls<Col>() { return 5; }
template<> inline size_t eoffs_pfx<Msk>() { return 2; }
}

typedef void (*OpFn)(int tid, Out &o);
struct Op { const char *name; OpFn fn; bool pairs; };
static std::vector<Op> &ops() { static std::vector<Op> v; return v; }
struct RegOp { RegOp(const char *n, OpFn f, bool p) { ops().push_back({n, f, p}); } };
#define OP(name) static void op_##name(int t, Out &o); static RegOp rop_##name(#name, &op_##name, true); static void op_##name(int t, Out &o)
/// a call that is explored only against itself
#define OPS(name) static void op_##name(int t, Out &o); static RegOp rop_##name(#name, &op_##name, false); static void op_##name(int t, Out &o)
static const char *TXT[3] = {"one", "twenty-two", "333"};

// ---------------------------------------------------------------- numbers
template<class T> static void wr(Out &o, T v) { char b[200]; substr s(b, sizeof b); memset(b, '#', sizeof b); size_t n = c4::to_chars(s, v); o << n; o << csubstr(b, n < sizeof b ? n : sizeof b); }
template<class T> static void wrx(Out &o, T v, T radix) { char b[200]; memset(b, '#', sizeof b); size_t n = c4::itoa(substr(b, sizeof b), v, radix); o << csubstr(b, n); n = c4::itoa(substr(b, sizeof b), v, radix, 9); o << csubstr(b, n); }
OP(int_write) { static const int v[3] = {-70123, 2147483647, 5}; wr(o, v[t]); yield(); wr(o, (int64_t)v[t] * 1000003); yield(); wr(o, (uint64_t)v[t]); wr(o, (int8_t)v[t]); wr(o, (uint16_t)v[t]); wr(o, std::numeric_limits<int64_t>::min() + t); wr(o, std::numeric_limits<int8_t>::min()); }
OP(int_radix) { static const int v[3] = {-70123, 123456, 77}; static const int r[3] = {2, 8, 16}; wrx<int>(o, v[t], 16); yield(); wrx<int>(o, v[t], 2); yield(); wrx<int>(o, v[t], r[t]); wrx<int64_t>(o, std::numeric_limits<int64_t>::min(), 8); wrx<int64_t>(o, std::numeric_limits<int64_t>::min(), 10); { char b[80]; size_t n = c4::utoa(substr(b, 80), (unsigned)v[t], 16u); o << csubstr(b, n); n = c4::utoa(substr(b, 80), (unsigned)v[t], 2u, 40); o << csubstr(b, n); } }
OP(int_read)
{
    static const char *s[3][5] = {{"-123456", "0x7fF", "0b1011", "0o77", "9"}, {"987654321", "-0xabc", "-0b11", "0O12", "-8"}, {"18446744073709551615", "0xffff", "0b1", "0o0", "0"}};
    for(int i = 0; i < 5; ++i)
    {
        csubstr c = c4::to_csubstr(s[t][i]);
        int64_t a = -7; uint64_t b = 7; int16_t e = 1; uint8_t f = 3; bool ok;
        ok = c4::atoi(c, &a); o << ok << (long long)a; yield(); if(c[0] != '-' && c[0] != '+') { ok = c4::atou(c, &b); o << ok << (unsigned long long)b; }
        ok = c4::from_chars(c, &e); o << ok << (int)e; ok = c4::from_chars(c, &f); o << ok << (unsigned)f;
        o << c4::overflows<int8_t>(c) << c4::overflows<uint32_t>(c) << c4::overflows<int64_t>(c);
    }
    yield();
    bool bo = false; bool ok = c4::from_chars(t == 1 ? "false" : "true", &bo); o << ok << bo; wr(o, t == 0);
}
OP(real_write)
{
    static const double v[3] = {1.0 / 3, -6.02214076e23, 1e-310};
    char b[400];
    for(int ft = 0; ft < 4; ++ft)
    {
        c4::RealFormat_e f = ft == 0 ? c4::FTOA_FLOAT : ft == 1 ? c4::FTOA_SCIENT : ft == 2 ? c4::FTOA_FLEX : c4::FTOA_HEXA;
        for(int prec = -1; prec < 12; prec += 4) { size_t n = c4::dtoa(substr(b, sizeof b), v[t], prec, f); o << csubstr(b, n); n = c4::ftoa(substr(b, sizeof b), (float)(v[t] * 1e-5), prec, f); o << csubstr(b, n); }
        yield();
    }
    wr(o, v[t]); yield(); wr(o, (float)t + 0.1f);
}
OP(real_read)
{
    static const char *s[3][6] = {{"0.1", "-1e10", "1.7976931348623157e308", "0x1.8p3", "inf", "5e-324"}, {"3.14159265358979323846264338327950288", "+2.5", "1e-5", "0x1p-2", "-inf", "123456789012345678901234567890"}, {"9007199254740993", ".5", "5.", "nan", "1E3", "0.000000000000000000000001"}};
    for(int i = 0; i < 6; ++i) { csubstr c = c4::to_csubstr(s[t][i]); double d = 7; float f = 8; bool ok = c4::atod(c, &d); o << ok << d; yield(); ok = c4::atof(c, &f); o << ok << (double)f; d = 9; ok = c4::from_chars(c, &d); o << ok << d; size_t n = c4::from_chars_first(c, &d); o << n << d; }
}
OP(scan) { static const char *s[3] = {"  -12.5e3,0x7fg abc", "foo 0b112 1e 7", "9999999999 -0x1.8p1 z"}; csubstr c = c4::to_csubstr(s[t]); for(size_t i = 0; i < c.len; i += 3) { csubstr r = c.sub(i); o << r.first_int_span() << r.first_uint_span() << r.first_real_span() << r.first_non_empty_span(); yield(); int v = 5; size_t n = c4::from_chars_first(r, &v); o << n << v; n = c4::atoi_first(r, &v); o << n << v; unsigned u = 2; n = c4::atou_first(r, &u); o << n << u; double d = 0; n = c4::atod_first(r, &d); o << n << d; o << r.is_number() << r.is_integer() << r.is_unsigned_integer(); } }
// ---------------------------------------------------------------- text
OP(find) { static const char *s[3] = {"abcabcabcd", "xxyxxyxz", "{}[]{}()"}; csubstr c = c4::to_csubstr(s[t]); csubstr n = c.sub(1, 2); o << c.find(n) << c.find(c[1], 2) << c.last_of("cz]") << c.first_of("dz)"); yield(); o << c.first_not_of(c.first(1)) << c.last_not_of(c.last(1)) << c.count(c[0]) << c.count(n) << c.begins_with(n) << c.ends_with(n) << c.select(n); yield(); o << c.triml(c[0]) << c.trimr(c.last(2)) << c.stripl(n) << c.stripr(n) << c.first_of_any("bc", "xz", "}").pos << (size_t)c.begins_with_any("ax") << c.gpop_left(c[2]) << c.pair_range('{', '}') << c.unquoted(); }
OP(split) { static const char *s[3] = {"a,bb,,ccc", ",x,y,", "k=v;l=w"}; csubstr c = c4::to_csubstr(s[t]); char sep = t == 2 ? ';' : ','; for(csubstr p : c.split(sep)) { o << p; yield(); } size_t pos = 0; csubstr p; while(c.next_split(sep, &pos, &p)) { o << p; yield(); } o << c.pop_left(sep) << c.pop_right(sep) << c.dirname() << c.basename() << c.extshort() << c.name_wo_extlong(); }
OP(edit) { char b[32] = "Hello World abab"; b[0] = TXT[t][0]; substr s(b, 16); s.toupper(); o << csubstr(s); yield(); s.tolower(); o << csubstr(s); s.replace('l', (char)('0' + t)); o << csubstr(s); yield(); s.replace("ab", TXT[t][1]); o << csubstr(s); s.reverse(); o << csubstr(s); s.reverse_sub(2, 5); o << csubstr(s); yield(); s.sub(3).fill((char)('x' + t)); s.copy_from(c4::to_csubstr(TXT[t]), 1); o << csubstr(s); size_t fp = 0; s.first(10).erase(3, 2); o << csubstr(s); char d[64]; size_t n = csubstr(s).replace_all(substr(d, sizeof d), c4::to_csubstr(TXT[t]).first(1), "<>"); o << n << csubstr(d, n); (void)fp; }
OP(order) { static const char *s[3] = {"abc", "abd", "ab"}; for(int i = 0; i < 3; ++i) { csubstr a = c4::to_csubstr(s[t]), b = c4::to_csubstr(s[i]); o << a.compare(b) << (a < b) << (a == b) << (a >= "abc") << ("abd" != a) << (a > 'a'); yield(); } }
// ---------------------------------------------------------------- encodings
OP(base64) { static const unsigned char in[3][5] = {{1, 2, 3, 4, 5}, {255, 0, 128, 7, 9}, {77, 97, 110, 0, 0}}; for(size_t k = 2; k <= 5; ++k) { char b[32]; memset(b, '#', sizeof b); size_t n = c4::base64_encode(substr(b, sizeof b), c4::cblob(in[t], k)); o << csubstr(b, n); yield(); o << c4::base64_valid(csubstr(b, n)); unsigned char d[32] = {0}; yield(); size_t m = c4::base64_decode(csubstr(b, n), c4::blob(d, sizeof d)); o << m << csubstr((char*)d, m); } o << c4::base64_valid("ab*=") << c4::base64_valid("abc="); }
OP(utf) { static const uint32_t c[3] = {0x41, 0x20AC, 0x1F600}; uint8_t b[8]; for(int i = 0; i < 3; ++i) { size_t n = c4::decode_code_point(b, sizeof b, c[(t + i) % 3]); o << csubstr((char*)b, n); yield(); } char x[8]; static const char *h[3] = {"41", "20AC", "1F600"}; substr r = c4::decode_code_point(substr(x, sizeof x), c4::to_csubstr(h[t])); o << csubstr(r); }
OP(hash) { o << c4::hash_bytes(TXT[t], strlen(TXT[t])); yield(); o << c4::hash_bytes("abc"); }
OP(szconv) { o << (unsigned long long)c4::szconv<uint8_t>(100 + t) << (long long)c4::szconv<int16_t>((uint64_t)(t + 3)) << c4::szconv<size_t>(12 + t); yield(); }
OP(type_name) { auto a = c4::type_name<int>(); o << csubstr(a.data(), a.size()); yield(); auto b = t == 0 ? c4::type_name<double>() : t == 1 ? c4::type_name<std::vector<int>>() : c4::type_name<Col>(); o << csubstr(b.data(), b.size()); yield(); auto d = c4::type_name(o.n); o << csubstr(d.data(), d.size()); }
// ---------------------------------------------------------------- formatting
OP(cat) { char b[128]; memset(b, '#', sizeof b); substr s(b, sizeof b); size_t n = c4::cat(s, TXT[t], t * 1001, 'c', 1.5 * t, true); o << csubstr(b, n); yield(); n = c4::catsep(s, ", ", TXT[t], t - 5, csubstr("zz")); o << csubstr(b, n); yield(); int x = 0; double d = 0; char w[8] = {0}; n = c4::catsep(s, ' ', t * 31, 0.25 * t); char sp = 0; size_t u = c4::uncatsep(csubstr(b, n), sp, x, d); o << (int)sp; o << u << x << d; (void)w; }
OP(format) { char b[128]; memset(b, '#', sizeof b); substr s(b, sizeof b); size_t n = c4::format(s, "a={} b={} c={}{}", t * 7, TXT[t], -1.25 * t, 'x'); o << csubstr(b, n); yield(); int x = 0; unsigned y = 0; n = c4::format(s, "<{}|{}>", t * 99 - 5, (unsigned)t + 40); yield(); size_t u = c4::unformat(csubstr(b, n), "<{}|{}>", x, y); o << u << x << y; csubstr sub = c4::format_sub(s, "{}-{}", TXT[t], t); o << sub; sub = c4::cat_sub(s, t, TXT[t]); o << sub; sub = c4::catsep_sub(s, '/', t, TXT[t]); o << sub; }
OP(catrs) { std::string r = c4::catrs<std::string>(TXT[t], t, 'c'); o << c4::to_csubstr(r); yield(); c4::catrs_append(&r, "more than fifteen chars", t * 12345); o << c4::to_csubstr(r); yield(); c4::catseprs(&r, ';', t, TXT[t], 3.5); o << c4::to_csubstr(r); std::vector<char> v; c4::formatrs(&v, "{}={}", TXT[t], t); yield(); o << c4::to_csubstr(v); c4::formatrs_append(&v, "{}{}{}", t, t, "a long text that reallocates the vector"); o << c4::to_csubstr(v); std::string f = c4::formatrs<std::string>("{} {}", t, 1u); o << c4::to_csubstr(f); }
OP(wrap) { char b[200]; memset(b, '#', sizeof b); substr s(b, sizeof b); int v = t * 1000 - 37; size_t n = c4::cat(s, c4::fmt::hex(v), ' ', c4::fmt::bin((unsigned)t + 9), ' ', c4::fmt::oct(v), ' ', c4::fmt::zpad(v, 8), ' ', c4::fmt::integral(v, 8), ' ', c4::fmt::left(TXT[t], 12, '.'), c4::fmt::right(v, 9, '_')); o << csubstr(b, n); yield(); n = c4::cat(s, c4::fmt::real(0.123456 * (t + 1), 3), ' ', c4::fmt::real(1e5 * (t + 1), 2, c4::FTOA_SCIENT), ' ', c4::fmt::boolalpha(t == 1), ' ', v); o << csubstr(b, n); yield(); alignas(16) char rb[64]; memset(rb, 0, sizeof rb); uint64_t x = 0x1122334455667788ull * (unsigned)(t + 1), y = 0; n = c4::to_chars(substr(rb, sizeof rb), c4::fmt::craw(x)); auto rw = c4::fmt::raw(y); bool ok = c4::from_chars(csubstr(rb, n), &rw); o << n << ok << (unsigned long long)y; n = c4::to_chars(s, c4::fmt::cbase64(x)); o << csubstr(b, n); yield(); auto b6 = c4::fmt::base64(y); y = 0; size_t u = c4::from_chars(csubstr(b, n), &b6); o << u << (unsigned long long)y; }
struct Sink { Out *o; void operator() (csubstr s) const { *o << s; } };
static thread_local Out *tl_out;
static void sink_fn(csubstr s) { *tl_out << s; }
OP(dump) { char b[40]; substr s(b, sizeof b); Sink k{&o}; tl_out = &o; size_t n = c4::cat_dump(k, s, TXT[t], t * 77, 1.5, 'q'); o << n; yield(); n = c4::format_dump<sink_fn>(s, "x{}y{}z", t - 3, TXT[t]); o << n; yield(); n = c4::catsep_dump<sink_fn>(s, ", ", t, TXT[t], 2u); o << n; c4::DumpResults r = c4::cat_dump_resume<sink_fn>(s.first(2), t * 1000 + 1, TXT[t], -12); o << r.bufsize << r.lastok; yield(); r = c4::cat_dump_resume<sink_fn>(r, s, t * 1000 + 1, TXT[t], -12); o << r.bufsize << r.lastok; auto r2 = c4::format_dump_resume(k, s.first(1), "{}:{}:{}", t * 11, 3, TXT[t]); o << r2.bufsize << r2.lastok; yield(); r2 = c4::format_dump_resume(k, r2, s, "{}:{}:{}", t * 11, 3, TXT[t]); o << r2.bufsize << r2.lastok; r2 = c4::catsep_dump_resume(k, s.first(1), ' ', t * 11, 3, TXT[t]); yield(); r2 = c4::catsep_dump_resume(k, r2, s, ' ', t * 11, 3, TXT[t]); o << r2.bufsize << r2.lastok; }
// ---------------------------------------------------------------- enums
OP(enums) { static const Col c[3] = {Col::red, Col::black, Col::blue}; o << c4::e2str(c[t]); yield(); static const char *n[3] = {"red", "Col::black", "blue"}; Col r = c4::str2e<Col>(n[t]); o << (unsigned)r; yield(); o << c4::esyms<Col>().size() << c4::esyms<Col>().find(n[t])->name_offs(c4::EOFFS_CLS); }
OP(bitmask) { static const unsigned m[3] = {5, 3, 0}; char b[64]; size_t n = c4::bm2str<Msk>(m[t], b, sizeof b); o << n << csubstr(b, n ? n - 1 : 0); yield(); static const char *s[3] = {"M_A|C", "B|M_AB", "0x5"}; o << (unsigned)c4::str2bm<Msk>(s[t]); yield(); size_t k = c4::bm2str<Msk>((Msk)m[t], b, sizeof b, c4::EOFFS_NONE); o << k << csubstr(b, k ? k - 1 : 0); }
// ---------------------------------------------------------------- memory
struct Rec : c4::MemoryResource
{
    char buf[2048]; size_t pos = 0, nal = 0, nfree = 0;
    Rec() { name = "rec"; }
    void *do_allocate(size_t sz, size_t al, void*) override { uintptr_t p = ((uintptr_t)buf + pos + al - 1) & ~(uintptr_t)(al - 1); if(p + sz > (uintptr_t)buf + sizeof buf) return nullptr; pos = p + sz - (uintptr_t)buf; ++nal; return (void*)p; }
    void *do_reallocate(void *p, size_t o, size_t n, size_t al) override { void *q = do_allocate(n, al, nullptr); if(q) memcpy(q, p, o < n ? o : n); return q; }
    void do_deallocate(void*, size_t, size_t) override { ++nfree; }
};
OP(scoped_mr) { Rec r; c4::MemoryResource *before = c4::get_memory_resource(); o << (before == c4::get_memory_resource_malloc()); yield(); { c4::ScopedMemoryResource s(&r); yield(); o << (c4::get_memory_resource() == &r); void *p = c4::get_memory_resource()->allocate(24); yield(); memset(p, t, 24); p = c4::get_memory_resource()->reallocate(p, 24, 48); o << (c4::get_memory_resource() == &r); yield(); c4::get_memory_resource()->deallocate(p, 48); { Rec r2; c4::ScopedMemoryResource s2(&r2); yield(); o << (c4::get_memory_resource() == &r2); } o << (c4::get_memory_resource() == &r); } yield(); o << (c4::get_memory_resource() == before) << r.nal << r.nfree; }
OP(set_mr) { Rec r; c4::MemoryResource *before = c4::get_memory_resource(); yield(); c4::set_memory_resource(&r); yield(); o << (c4::get_memory_resource() == &r); c4::Allocator<int> a; int *p = a.allocate(4); yield(); p[3] = t; o << r.nal; a.deallocate(p, 4); o << r.nfree; c4::set_memory_resource(before); yield(); o << (c4::get_memory_resource() == before); }
OP(scoped_counts) { o << (c4::get_memory_resource() == c4::get_memory_resource_malloc()); { c4::ScopedMemoryResourceCounts c; yield(); void *p = c4::get_memory_resource()->allocate(100 + (size_t)t); memset(p, t, 100); yield(); o << c.mr.counts().curr.size; c4::get_memory_resource()->deallocate(p, 100 + (size_t)t); o << c.mr.counts().curr.size << c.mr.counts().max.size << c.mr.counts().total.allocs; } yield(); o << (c4::get_memory_resource() == c4::get_memory_resource_malloc()); }
OP(aalloc) { for(size_t al = 8; al <= 64; al *= 8) { unsigned char *p = (unsigned char*)c4::aalloc(40 + (size_t)t, al); o << ((uintptr_t)p % al == 0); memset(p, 17 * t + 3, 40); yield(); for(int i = 0; i < 40; ++i) o << (p[i] == (unsigned char)(17 * t + 3)); p = (unsigned char*)c4::arealloc(p, 40 + (size_t)t, 90, al); o << ((uintptr_t)p % al == 0); yield(); for(int i = 0; i < 40; ++i) o << (p[i] == (unsigned char)(17 * t + 3)); c4::afree(p); } }
OP(mr_malloc) { c4::MemoryResource *m = c4::get_memory_resource_malloc(); yield(); char *p = (char*)m->allocate(33, 16); memset(p, t + 65, 33); yield(); o << csubstr(p, 33); p = (char*)m->reallocate(p, 33, 66, 16); yield(); o << csubstr(p, 33); m->deallocate(p, 66, 16); }
OP(linear) { alignas(16) char buf[256]; c4::MemoryResourceLinear m(buf, sizeof buf); char *p = (char*)m.allocate(20, 8); o << (long)(p - buf); yield(); memset(p, 'a' + t, 20); p = (char*)m.reallocate(p, 20, 40, 8); o << m.size() << m.slack() << csubstr(p, 20); m.deallocate(p, 40, 8); yield(); c4::MemoryResourceLinear own(128u); char *q = (char*)own.allocate(64, 16); yield(); memset(q, 'b' + t, 64); o << own.capacity() << csubstr(q, 64); own.clear(); o << own.size(); c4::MemoryResourceLinearArr<64> ar; q = (char*)ar.allocate(8, 8); memset(q, t, 8); o << ar.size(); }
OP(allocators) { Rec r; c4::allocator_mr<int> a(&r); int *p = a.allocate(5); a.construct(p, 5 + t); yield(); o << *p; a.destroy(p); a.deallocate(p, 5); o << r.nal << r.nfree; c4::small_allocator_mr<char, 32> s(&r); char *q = s.allocate(16); memset(q, 'k' + t, 16); yield(); o << csubstr(q, 16); s.deallocate(q, 16); c4::Allocator<double> g; double *d = g.allocate(3); d[2] = t; yield(); o << d[2]; g.deallocate(d, 3); std::vector<int, c4::Allocator<int>> v; for(int i = 0; i < 9; ++i) v.push_back(i * t); yield(); o << v[8]; }
struct Obj { int v; Obj(int x = 1) : v(x) {} Obj(Obj const& x) : v(x.v) {} Obj &operator= (Obj const& x) { v = x.v; return *this; } ~Obj() { v = -1; } };
OP(ctor) { alignas(8) char m[10 * sizeof(Obj)], k[10 * sizeof(Obj)]; Obj *a = (Obj*)m, *b = (Obj*)k; c4::construct_n(a, 4u, 7 + t); yield(); c4::copy_construct_n(b, a, 4u); o << b[3].v; yield(); c4::make_room(b, 4u, 2u); o << b[2].v << b[5].v; c4::construct_n(b, 2u, 3); c4::copy_assign_n(a, b, 4u); o << a[0].v << a[3].v; yield(); c4::destroy_n(a, 4u); c4::destroy_n(b, 6u); }
OP(memutil) { unsigned u = 0x50u << t; o << c4::lsb(u) << c4::msb(u) << c4::ipow<int>(3 + t, 5) << (unsigned long long)c4::contiguous_mask<unsigned>(1, 4); yield(); char b[24]; c4::mem_repeat(b, TXT[t], 3, 7); o << csubstr(b, 21); yield(); o << c4::mem_overlaps(b, b + t, 2, 2); c4::mem_zero(b, 5); o << csubstr(b, 8); }
OP(span) { int a[6] = {t, 1, 2, 3, 4, 5 * t}; c4::span<int> s(a); o << s.subspan(2, 3).size() << s.first(2)[1] << s.last(1)[0]; yield(); auto r = s.range(1, 4); r[0] = t + 50; o << a[1]; c4::spanrs<int> q(a, 3, 6); q.resize(5); o << q.size() << q.capacity(); yield(); c4::spanrsl<int> l(a); l = c4::spanrsl<int>(a + 2, 2, 4, 2); o << l.offset() << (s == c4::span<int>(a)); }
OP(stdlib) { std::string s = TXT[t]; char b[64]; size_t n = to_chars(substr(b, sizeof b), s); o << csubstr(b, n); yield(); std::string r; bool ok = c4::from_chars(c4::to_csubstr(TXT[t]), &r); o << ok << c4::to_csubstr(r); std::vector<char> v(3, (char)('a' + t)); n = c4::to_chars(substr(b, sizeof b), v); o << csubstr(b, n); yield(); o << (c4::to_csubstr(s) == s) << (c4::to_csubstr(v) < s); }
OP(chartraits) { char b[8] = "   x "; o << c4::num_needed_chars<char>((size_t)t + 5) << c4::num_needed_chars<wchar_t>((size_t)t + 5); yield(); o << (int)b[t] << c4::char_traits<char>::whitespace_chars; }
#if __cplusplus >= 201703L
OP(inplace) { int k = t; stdext::inplace_function<int(int), 32> f = [&k, t](int x) { k += x; return k * 10 + t; }; o << f(3); yield(); auto g = f; o << g(1); f = nullptr; yield(); o << (bool)f; g.swap(f); o << f(2) << (bool)g; try { g(1); o << "no"; } catch(std::bad_function_call const&) { o << "empty"; } }
#endif
// errors: every thread gets its own message
struct Raised { char m[200]; size_t n; };
static void on_err(const char *m, size_t n) { Raised r; r.n = n < sizeof r.m ? n : sizeof r.m; memcpy(r.m, m, r.n); throw r; }
OP(error) { for(int i = 0; i < 2; ++i) { try { yield(); C4_ERROR("thread %d text %s number %d", t, TXT[t], i); } catch(Raised const& r) { yield(); csubstr m(r.m, r.n); size_t p = m.find("thread"); o << (p != csubstr::npos) << m.sub(p != csubstr::npos ? p : 0); } } try { char b[2]; c4::cat_sub(substr(b, 2), TXT[t], 12345); o << "no error"; } catch(Raised const& r) { o << "error"; } }

// ---------------------------------------------------------------- long data: what only starts at some size
static void mk(char *b, size_t n, int t) { for(size_t i = 0; i < n; ++i) b[i] = (char)('a' + (i * 7 + (size_t)t * 3 + i / 26) % 26); }
enum { L1 = 90, L2 = 300, L3 = 1100 };
static const size_t LEN[3] = {L1, L2, L3};
OPS(long_int) { char b[L3 + 50]; for(size_t l : LEN) { size_t n = c4::itoa(substr(b, sizeof b), -(t + 17), 10, l + (size_t)t); o.d(csubstr(b, n)); yield(); int v = 0; bool ok = c4::atoi(csubstr(b, n), &v); o << ok << v << c4::overflows<int>(csubstr(b, n)); n = c4::utoa(substr(b, sizeof b), 0xabcu + (unsigned)t, 16u, l); o.d(csubstr(b, n)); unsigned u = 0; ok = c4::from_chars(csubstr(b, n), &u); o << ok << u; } }
OPS(long_real)
{
    char b[L3 + 400];
    for(size_t l : LEN)
    {
        for(size_t i = 0; i < l; ++i) b[i] = (char)('0' + (i * 3 + (size_t)t + 1) % 10);
        b[1] = '.'; double d = 0; float f = 0; bool ok = c4::atod(csubstr(b, l), &d); o << ok << d; yield(); ok = c4::atof(csubstr(b, l), &f); o << ok << (double)f;
        size_t n = c4::from_chars_first(csubstr(b, l), &d); o << n << d << csubstr(b, l).first_real_span().len;
    }
    // halfway cases need the slow path
    static const char *h[3] = {"9007199254740993.00000000000000000000000000000000000000001", "1.00000000000000011102230246251565404236316680908203125", "2.22507385850720113605740979670913197593481954635164564e-308"};
    for(int i = 0; i < 3; ++i) { double d = 0; bool ok = c4::atod(c4::to_csubstr(h[(i + t) % 3]), &d); o << ok << d; float f = 0; ok = c4::atof(c4::to_csubstr(h[(i + t) % 3]), &f); o << ok << (double)f; yield(); }
    for(int p = 60; p <= 300; p += 240) { size_t n = c4::dtoa(substr(b, sizeof b), 1.0 / (t + 3), p, c4::FTOA_FLOAT); o.d(csubstr(b, n)); yield(); n = c4::dtoa(substr(b, sizeof b), 1e300 / (t + 3), p, c4::FTOA_SCIENT); o.d(csubstr(b, n)); }
}
OPS(long_find) { char b[L3], w[L3]; for(size_t l : LEN) { mk(b, l, t); csubstr c(b, l), n = c.last(l / 3); o << c.find(n) << c.count(n) << c.count('a') << c.first_of("#!z") << c.last_of("#!b") << c.first_not_of("abcdefghijklmnopqrstuvwxy") << c.begins_with(n) << c.ends_with(n) << c.last_not_of("bcdefghijklmnopqrstuvwxyz"); yield(); memcpy(w, b, l); w[l - 1] = (char)('a' + t); csubstr x(w, l); o << c.compare(x) << (c == x) << (c < x) << c.first_of_any(n, "zz", "qq").pos; yield(); memset(w, ' ', l); w[l / 2] = 'x'; o << x.trim(' ') << x.triml(' ').len << x.trimr(" \t").len << x.stripl("  ").len; for(size_t i = 0; i < l; i += 9) w[i] = '/'; size_t k = 0; for(csubstr p : x.split('/')) k += p.len + 1; o << k << x.basename().len << x.dirname().len << x.pop_left('/').len << x.pop_right('/', true).len << x.gpop_left('/').len; } }
OPS(pairs_of) { static const char *s[3] = {"x 'a\\'b' (c(d)e) <f> \"q\"", "y 'k' (l(m(n))) <o> ''", "'esc\\\\' ((z)) <> t"}; csubstr c = c4::to_csubstr(s[t]); o << c.pair_range('<', '>') << c.pair_range_esc('\'') << c.pair_range_nested('(', ')'); yield(); csubstr q = c4::to_csubstr(t == 0 ? "'quoted'" : t == 1 ? "\"dq\"" : "none"); o << q.unquoted() << c.select('x') << c.select("(") << c.is_super(c.sub(2)) << c.sub(2).is_sub(c) << c.overlaps(c.sub(1)); yield(); o << c.first_uint_span() << c.sub(3).has_str() << c.left_of(3) << c.right_of(4) << c.offs(1, 2) << c.range(2, 5) << c.name_wo_extshort() << c.extlong() << c.gpop_right(' ') << c.triml(' ') << c.begins_with_any("xy'") << c.ends_with_any("\"t"); }
OPS(long_edit) { char b[L3], d[3 * L3]; for(size_t l : LEN) { mk(b, l, t); substr s(b, l); s.toupper(); o.d(s); yield(); s.tolower(); s.reverse(); o.d(s); s.replace('c', '#'); o.d(s); s.replace("de", '+'); o.d(s); yield(); size_t n = csubstr(s).replace_all(substr(d, sizeof d), "a", "<A>"); o.d(csubstr(d, n)); n = csubstr(s).replace_all(substr(d, 10), "#", ""); o << n; yield(); s.erase(3, l / 2); o.d(s); s.sub(5).fill((char)('0' + t)); o.d(s); s.copy_from(csubstr(d, l), 4); s.reverse_range(2, l - 2); o.d(s); } }
OPS(long_base64) { char in[L3], e[2 * L3]; for(size_t l : LEN) for(size_t k = l; k < l + 2; ++k) { mk(in, k < L3 ? k : L3, t); if(k > L3) break; size_t n = c4::base64_encode(substr(e, sizeof e), c4::cblob(in, k)); o.d(csubstr(e, n)); yield(); o << c4::base64_valid(csubstr(e, n)); char d[L3 + 8]; size_t m = c4::base64_decode(csubstr(e, n), c4::blob(d, sizeof d)); o.d(csubstr(d, m)); yield(); } o << c4::hash_bytes(in, L1) << c4::hash_bytes(in, L3); }
OPS(long_format) { char a[L3], b[3 * L3]; for(size_t l : LEN) { mk(a, l, t); csubstr A(a, l); substr s(b, sizeof b); size_t n = c4::cat(s, A, t, A.first(9)); o.d(csubstr(b, n)); yield(); n = c4::catsep(s, A.first(70), t, 'x', A); o.d(csubstr(b, n)); n = c4::format(s, "{}={} {}", A, t, A.first(5)); o.d(csubstr(b, n)); yield(); n = c4::format(s.first(l), A, t); o << n; n = c4::cat(s.first(20), A, t); o << n; std::string r; c4::catrs(&r, A, t, A); o.d(c4::to_csubstr(r)); yield(); c4::formatrs_append(&r, "{}{}", t, A); o.d(c4::to_csubstr(r)); c4::catseprs(&r, A.first(66), t, 2, 3); o.d(c4::to_csubstr(r)); int x = 0, y = 0; n = c4::format(s, "{}____________________________________________________________________________{}", t + 5, t + 9); size_t u = c4::unformat(csubstr(b, n), "{}____________________________________________________________________________{}", x, y); o << u << x << y; } }
OPS(long_wrap) { char b[2 * L3]; for(size_t l : LEN) { substr s(b, sizeof b); size_t n = c4::cat(s, c4::fmt::left(t + 100, l, '.'), c4::fmt::right(TXT[t], l / 2, '_'), c4::fmt::zpad(t, l / 4), c4::fmt::hex(t + 77), c4::fmt::real(0.1 * t, 40)); o.d(csubstr(b, n)); yield(); } struct Big { char x[L2]; } g, h; mk(g.x, L2, t); alignas(16) char rb[2 * L2]; size_t n = c4::to_chars(substr(rb, sizeof rb), c4::fmt::craw(g)); auto rw = c4::fmt::raw(h); bool ok = c4::from_chars(csubstr(rb, n), &rw); o << ok; o.d(csubstr(h.x, L2)); yield(); n = c4::to_chars(substr(b, sizeof b), c4::fmt::cbase64(g)); o.d(csubstr(b, n)); auto b6 = c4::fmt::base64(h); memset(&h, 0, sizeof h); size_t u = c4::from_chars(csubstr(b, n), &b6); o << u; o.d(csubstr(h.x, L2)); }
struct DSink { Out *o; void operator() (csubstr s) const { o->d(s); } };
static void dsink_fn(csubstr s) { tl_out->d(s); }
OPS(long_dump) { char a[L3], b[L3 + 50]; tl_out = &o; DSink k{&o}; for(size_t l : LEN) { mk(a, l, t); csubstr A(a, l); substr s(b, sizeof b); size_t n = c4::cat_dump(k, s, A, t, c4::fmt::left(t, l)); o << n; yield(); n = c4::catsep_dump<dsink_fn>(s, A, t, 1, TXT[t]); o << n; auto r = c4::cat_dump_resume(k, s.first(20), t, c4::fmt::zpad(t, l), A, -t); o << r.bufsize << r.lastok; yield(); r = c4::cat_dump_resume(k, r, s, t, c4::fmt::zpad(t, l), A, -t); o << r.bufsize << r.lastok; r = c4::format_dump_resume<dsink_fn>(s.first(20), "{}~{}~{}", A, c4::fmt::zpad(t, l), t); o << r.bufsize << r.lastok; yield(); r = c4::format_dump_resume<dsink_fn>(r, s, "{}~{}~{}", A, c4::fmt::zpad(t, l), t); o << r.bufsize << r.lastok; } }
OPS(long_error) { char a[L3 + 1]; struct Short { char m[3000]; }; for(size_t l : LEN) { mk(a, l, t); a[l] = 0; try { C4_ERROR("long %s", a); } catch(Raised const& r) { o.d(csubstr(r.m, r.n)); } yield(); try { C4_CHECK_MSG(t == 7, "number %d %s", t, a); } catch(Raised const& r) { csubstr m(r.m, r.n); o << m.first(20); } } }
OPS(long_memory)
{
    for(size_t l : LEN)
    {
        unsigned char *p = (unsigned char*)c4::aalloc(l, 128), *q = (unsigned char*)c4::aalloc(l, 512); memset(p, t + 1, l); memset(q, t + 9, l); o << ((uintptr_t)p % 128 == 0) << ((uintptr_t)q % 512 == 0); yield();
        p = (unsigned char*)c4::arealloc(p, l, 2 * l, 256); o << (unsigned)p[0] << (unsigned)p[l - 1] << (unsigned)q[l - 1]; c4::afree(p); c4::afree(q); yield();
        c4::MemoryResourceLinear m(4 * l); char *x = (char*)m.allocate(l, 64); memset(x, 'a' + t, l); yield(); char *y = (char*)m.allocate(20); memset(y, 'z', 20); x = (char*)m.reallocate(x, l, l + 40, 64); o.d(csubstr(x, l)); o << m.size() - (size_t)0 << m.capacity();
        c4::SmallAllocator<int, 100> s; int *i = s.allocate(l / 4), *j = s.allocate(l); i[l / 4 - 1] = t; j[l - 1] = t + 1; yield(); o << i[l / 4 - 1] << j[l - 1]; s.deallocate(j, l); s.deallocate(i, l / 4);
        char u[3 * L3]; c4::mem_repeat(u, TXT[t], 3, l); o.d(csubstr(u, 3 * l));
        std::vector<char> v(l, (char)('a' + t)); std::string z; bool ok = c4::from_chars(c4::to_csubstr(v), &z); o << ok; o.d(c4::to_csubstr(z)); yield(); ok = c4::from_chars(c4::to_csubstr(z), &v); o << ok << (c4::to_csubstr(v) == z) << (c4::to_csubstr(z) < v);
        size_t n = c4::to_chars(substr(u, sizeof u), v); o.d(csubstr(u, n)); n = to_chars(substr(u, sizeof u), z); o.d(csubstr(u, n));
    }
    Obj big[1]; (void)big; alignas(8) static thread_local char ms[2 * 80 * sizeof(Obj)]; Obj *a = (Obj*)ms; c4::construct_n(a, 70u, t); yield(); c4::make_room(a, 70u, 9u); o << a[78].v << a[9].v; c4::construct_n(a, 9u, 4); yield(); c4::destroy_n(a, 79u);
}

// ================================================================ exploration
struct Tuple { int n; int op[rt::MAXT]; int var[rt::MAXT]; };
static Tuple cur;
static void thread_fn(int tid, void*)
{
    Out o;
    try { ops()[(size_t)cur.op[tid]].fn(cur.var[tid], o); }
    catch(Raised const& r) { char b[300]; snprintf(b, sizeof b, "the library reported an error: %.*s", (int)r.n, r.m); rt::fail(b); }
    catch(...) { rt::fail("an exception left the call"); }
    rt::result(tid, o.b, o.n);
}
static rt::Shm *shm()
{
    static rt::Shm *s = (rt::Shm*)mmap(nullptr, sizeof(rt::Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return s;
}
static std::string render(Tuple const& t) { std::string s; for(int i = 0; i < t.n; ++i) s += mc::fmt("%s%s(%d)", i ? " || " : "", ops()[(size_t)t.op[i]].name, t.var[i]); return s; }
typedef std::vector<uint8_t> Sched;
static std::string render(Sched const& s) { std::string r; for(uint8_t c : s) r += (char)('0' + c); return r; }
/// one execution in a fresh process; empty string if fine
static std::string execute(Tuple const& t, Sched const& pre, std::vector<uintptr_t> const& conf, bool statics)
{
    rt::Shm *s = shm();
    s->done = 0; s->violation[0] = 0; s->ndec = s->truncated = s->nconf = s->nstat = 0; s->accesses = s->shared_accesses = s->syncs = 0; for(auto &x : s->reslen) x = 0;
    cur = t;
    mc::T();
    pid_t p = fork();
    if(p < 0) { perror("fork"); _exit(2); }
    if(p == 0)
    {
        signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGILL, SIG_DFL); signal(SIGVTALRM, SIG_DFL); signal(SIGALRM, SIG_DFL);
        struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_VIRTUAL, &z, nullptr);
        alarm(30);
        c4::set_error_callback(&on_err);
        rt::run(t.n, &thread_fn, nullptr, pre.data(), pre.size(), conf.data(), conf.size(), s, statics);
        _exit(0);
    }
    int st = 0;
    while(waitpid(p, &st, 0) < 0) {}
    if(s->violation[0]) return s->violation;
    if(WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "the threads do not finish" : mc::fmt("a thread crashed with signal %d", WTERMSIG(st));
    if(!WIFEXITED(st) || WEXITSTATUS(st) != 0 || !s->done) return mc::fmt("the process ended with status %#x", st);
    if(s->truncated & 2) { fprintf(stderr, "the shadow table is full\n"); _exit(2); }
    return "";
}
struct Solo { std::string res; std::vector<uintptr_t> stat; };
static Solo const& solo(int op, int var)
{
    static std::map<std::pair<int, int>, Solo> m;
    auto k = std::make_pair(op, var);
    auto it = m.find(k);
    if(it != m.end()) return it->second;
    Tuple t; t.n = 1; t.op[0] = op; t.var[0] = var;
    Solo s;
    mc::run_case([&](std::string &d) { d = render(t) + " alone"; }, [&] {
        std::string bad = execute(t, Sched(), std::vector<uintptr_t>(), true);
        MC_CHECK(bad.empty(), "%s", bad.c_str());
        s.res.assign(shm()->res[0], shm()->reslen[0]); s.stat.assign(shm()->stat, shm()->stat + shm()->nstat);
        bad = execute(t, Sched(), std::vector<uintptr_t>(), false);
        MC_CHECK(bad.empty() && s.res == std::string(shm()->res[0], shm()->reslen[0]), "two identical runs of the call in fresh processes give different results");
    });
    return m[k] = s;
}
/// every schedule of the tuple with at most `bound` preemptions; false if the cap was reached
static bool explore(Tuple const& t, int bound, size_t cap, mc::u64 &nsched, std::string *found = nullptr)
{
    auto report = [&](std::string const& m) { if(found) { if(found->empty()) *found = m; } else mc::violation_msg(m); };
    std::vector<uintptr_t> conf; std::set<uintptr_t> cs;
    std::string want[rt::MAXT];
    std::map<uintptr_t, int> cnt;
    for(int i = 0; i < t.n; ++i) { Solo const& s = solo(t.op[i], t.var[i]); want[i] = s.res; for(auto a : s.stat) if(++cnt[a] > 1) cs.insert(a); }
    bool complete = true;
  restart:
    conf.assign(cs.begin(), cs.end());
    std::vector<Sched> work[8]; work[0].push_back(Sched()); // by number of preemptions: fewer first
    auto clear = [&] { for(auto &w : work) w.clear(); };
    size_t done = 0;
    for(;;)
    {
        int lvl = 0; while(lvl < 8 && work[lvl].empty()) ++lvl;
        if(lvl == 8) break;
        Sched pre = work[lvl].back(); work[lvl].pop_back();
        if(done++ >= cap) { complete = false; break; }
        ++nsched;
        bool again = false;
        mc::run_case([&](std::string &d) { d = render(t) + " schedule " + render(pre); }, [&] {
            std::string bad = execute(t, pre, conf, false);
            rt::Shm *s = shm();
            if(!bad.empty()) { report(bad); clear(); return; }
            for(int i = 0; i < t.n; ++i)
            {
                std::string got(s->res[i], s->reslen[i]);
                if(got != want[i])
                {
                    size_t k = 0; while(k < got.size() && k < want[i].size() && got[k] == want[i][k]) ++k;
                    report(mc::fmt("thread %d observes %s instead of %s (at %zu)", i, mc::q(got.substr(k, 60)).c_str(), mc::q(want[i].substr(k, 60)).c_str(), k));
                    clear(); return;
                }
            }
            mc::V(); mc::S(s->ndec + 1);
            for(uint32_t i = 0; i < s->nconf; ++i) if(cs.insert(s->conf[i]).second) again = true;
            if(cs.size() > 2000) { fprintf(stderr, "too many shared bytes\n"); _exit(2); }
            if(again) return;
            // alternatives at the decisions after the prefix
            int pcount = 0;
            Sched path;
            for(uint32_t i = 0; i < s->ndec; ++i)
            {
                rt::Dec &d = s->dec[i];
                if(i >= pre.size())
                    for(int a = 0; a < t.n; ++a) if(a != d.chosen && (d.mask & (1 << a)))
                    {
                        int pc = pcount + ((d.curen && a != d.cur) ? 1 : 0);
                        if(pc > bound) continue;
                        Sched nw = path; nw.push_back((uint8_t)a); work[pc].push_back(nw);
                    }
                if(d.curen && d.chosen != d.cur) ++pcount;
                path.push_back(d.chosen);
            }
        });
        if(again) goto restart;
        if(mc::st().nviol) return complete;
    }
    return complete;
}
static void finish(mc::u64 tuples, mc::u64 sched, mc::u64 capped, int bound)
{
    mc::bound(mc::fmt("%zu calls; shard 0: %llu tuples, %llu schedules with at most %d preemptions, %llu tuples stopped at the cap", ops().size(), tuples, sched, bound, capped));
}
// pairs: every ordered pair of calls
SECTION(pairs, 8)
{
    mc::u64 tup = 0, sched = 0, capped = 0; int bound = mc::thorough() ? 3 : 2;
    for(size_t a = 0; a < ops().size(); ++a)
        for(size_t b = 0; b < ops().size(); ++b)
        {
            if(!ops()[a].pairs || !ops()[b].pairs || !mc::mine()) continue;
            Tuple t; t.n = 2; t.op[0] = (int)a; t.op[1] = (int)b; t.var[0] = 0; t.var[1] = 1;
            ++tup; capped += !explore(t, bound, mc::thorough() ? 20000 : 300, sched);
            if(a == b && tup < 40) mc::sample(render(t));
        }
    finish(tup, sched, capped, bound);
}
// the same call in two threads, with equal and with different data, more preemptions
SECTION(same, 8)
{
    mc::u64 tup = 0, sched = 0, capped = 0; int bound = mc::thorough() ? 4 : 3;
    for(size_t a = 0; a < ops().size(); ++a)
        for(int v = 0; v < 9; ++v)
        {
            if(!ops()[a].pairs && v != 0 && v != 1 && v != 3 && v != 7) continue;
            if(!mc::mine()) continue;
            Tuple t; t.n = 2; t.op[0] = t.op[1] = (int)a; t.var[0] = v % 3; t.var[1] = v / 3;
            ++tup; capped += !explore(t, ops()[a].pairs ? bound : bound - 1, mc::thorough() ? 100000 : 1500, sched);
            if(v == 1) mc::sample(render(t));
        }
    finish(tup, sched, capped, bound);
}
SECTION(triples, 8)
{
    mc::u64 tup = 0, sched = 0, capped = 0; int bound = mc::thorough() ? 2 : 1;
    for(size_t a = 0; a < ops().size(); ++a)
        for(size_t b = 0; b < ops().size(); ++b)
        {
            if(b != a && !(mc::thorough() && ops()[a].pairs && ops()[b].pairs)) continue;
            if(!mc::mine()) continue;
            Tuple t; t.n = 3; t.op[0] = t.op[1] = (int)a; t.op[2] = (int)b; for(int i = 0; i < 3; ++i) t.var[i] = i;
            ++tup; capped += !explore(t, bound, mc::thorough() ? 4000 : 400, sched);
            if(a == b) mc::sample(render(t));
        }
    finish(tup, sched, capped, bound);
}
// the scheduler itself: planted defects must be seen, and correct code must not be accused
#include <atomic>
#include <mutex>
namespace self {
static char scratch[32]; static int lazy_tab[4]; static bool lazy_done; static std::atomic<bool> ready; static std::atomic<char> ascratch[4]; static std::mutex m1, m2; static int guarded; static std::atomic<int> counter; static thread_local int mine_;
static void static_scratch(int t, Out &o) { snprintf(scratch, sizeof scratch, "%d", t * 7); o << scratch; }
static void lazy_table(int t, Out &o) { if(!lazy_done) { for(int i = 0; i < 4; ++i) lazy_tab[i] = i * i; lazy_done = true; } o << lazy_tab[t + 1]; }
static void lazy_relaxed(int t, Out &o) { if(!ready.load(std::memory_order_relaxed)) { for(int i = 0; i < 4; ++i) lazy_tab[i] = i * i; ready.store(true, std::memory_order_relaxed); } o << lazy_tab[t + 1]; }
static void atomic_scratch(int t, Out &o) { for(int i = 0; i < 3; ++i) ascratch[i].store((char)('a' + t)); for(int i = 0; i < 3; ++i) o.c(ascratch[i].load()); }
static void lock_order(int t, Out &o) { std::mutex &a = t ? m1 : m2, &b = t ? m2 : m1; a.lock(); b.lock(); o << t; b.unlock(); a.unlock(); }
static void unlocked_rmw(int t, Out &o) { { std::lock_guard<std::mutex> g(m1); guarded = t; } { std::lock_guard<std::mutex> g(m1); o << guarded; } }
static void lost_update(int t, Out &o) { int v = counter.load(); counter.store(v + 1); o << (counter.load() > v) << (counter.load() - v); (void)t; }
// correct
static void locked(int t, Out &o) { std::lock_guard<std::mutex> g(m1); guarded = t; o << guarded; }
static void lazy_locked(int t, Out &o) { if(!ready.load(std::memory_order_acquire)) { std::lock_guard<std::mutex> g(m1); if(!ready.load(std::memory_order_relaxed)) { for(int i = 0; i < 4; ++i) lazy_tab[i] = i * i; ready.store(true, std::memory_order_release); } } o << lazy_tab[t + 1]; }
static int const* table() { static int t[4]; static bool x = [] { for(int i = 0; i < 4; ++i) t[i] = i * i; return true; }(); (void)x; return t; }
static void magic_static(int t, Out &o) { o << table()[t + 1]; }
static void tls(int t, Out &o) { mine_ = t * 3; yield(); o << mine_; }
static void tally(int t, Out &o) { counter.fetch_add(1, std::memory_order_relaxed); o << t; }
static void once(int t, Out &o) { static std::once_flag f; std::call_once(f, [] { for(int i = 0; i < 4; ++i) lazy_tab[i] = i * i; }); o << lazy_tab[t + 1]; }
struct Case { const char *name; OpFn fn; const char *expect; };
static const Case cases[] = {{"static_scratch", static_scratch, "data race"}, {"lazy_table", lazy_table, "data race"}, {"lazy_relaxed", lazy_relaxed, "data race"}, {"atomic_scratch", atomic_scratch, "observes"}, {"lock_order", lock_order, "deadlock"}, {"unlocked_rmw", unlocked_rmw, "observes"}, {"lost_update", lost_update, "observes"},
    {"locked", locked, nullptr}, {"lazy_locked", lazy_locked, nullptr}, {"magic_static", magic_static, nullptr}, {"tls", tls, nullptr}, {"tally", tally, nullptr}, {"once", once, nullptr}};
}
SECTION(selftest, 1)
{
    for(auto const& c : self::cases)
    {
        ops().push_back({c.name, c.fn, false});
        for(int n = 2; n <= 3; ++n)
        {
            Tuple t; t.n = n; for(int i = 0; i < n; ++i) { t.op[i] = (int)ops().size() - 1; t.var[i] = i; }
            std::string f; mc::u64 ns = 0;
            explore(t, n == 2 ? 2 : 1, 5000, ns, &f);
            if(c.expect ? f.find(c.expect) == std::string::npos : !f.empty()) { fprintf(stderr, "the scheduler's self test %s with %d threads gives \"%s\"\n", c.name, n, f.c_str()); _exit(2); }
            mc::sample(mc::fmt("self test %s, %d threads, %llu schedules: %s", c.name, n, ns, f.empty() ? "held" : f.c_str()));
        }
    }
    mc::bound("13 planted and correct synchronisation patterns judged as expected");
}
MC_MAIN
