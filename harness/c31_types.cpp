// C31: compile-time building blocks: for-each macro, sized types, index sequences, argument passing, member-type traits
#include "mc.hpp"
#include <c4/types.hpp>
#include <c4/preprocessor.hpp>
#include <string>
#include <vector>
#include <memory>
#include <new>
#include <cstring>
typedef std::string Str;
// ------------------------------------------------------------------ the for-each macro
#define ONE(x) got.push_back(x)
#define VAL(x) (x)
#define TXT(x) <x>
SECTION(for_each, 1)
{
    mc::bound("every number of arguments 1..32: calls in order, with the default separator, a comma, an operator and nothing between them");
    #define FE(n, ...) MC_CASE(mc::fmt("%d arguments", n), { \
        std::vector<int> want; for(int i = 0; i < n; ++i) want.push_back(i * 7 + 1); std::vector<int> got; long sum = 0; for(int x : want) sum += x; \
        C4_FOR_EACH(ONE, __VA_ARGS__); MC_CHECK(got == want, "C4_FOR_EACH called the macro for %zu arguments, or others", got.size()); \
        got.clear(); C4_FOR_EACH_SEP(ONE, ;, __VA_ARGS__) MC_CHECK(got == want, "C4_FOR_EACH_SEP called the macro for %zu arguments, or others", got.size()); \
        int a[] = { C4_FOR_EACH_SEP(VAL, C4_COMMA, __VA_ARGS__) }; MC_CHECK(std::vector<int>(a, a + C4_COUNTOF(a)) == want, "separated by commas: %zu values, or others", C4_COUNTOF(a)); \
        long s = C4_FOR_EACH_SEP(VAL, +, __VA_ARGS__) 0; MC_CHECK(s == sum, "separated by +: %ld", s); \
        Str t = C4_XQUOTE(C4_FOR_EACH_SEP(TXT, , __VA_ARGS__)); Str e; for(char c : t) if(c != ' ') e += c; Str w; for(int x : want) w += "<" + std::to_string(x) + ">"; MC_CHECK(e == w, "text %s, expected %s", e.c_str(), w.c_str()); \
        Str t2 = C4_XQUOTE(C4_FOR_EACH(TXT, __VA_ARGS__)); e.clear(); for(char c : t2) if(c != ' ') e += c; w.clear(); for(int x : want) w += "<" + std::to_string(x) + ">;"; MC_CHECK(e == w, "text %s, expected %s", e.c_str(), w.c_str()); \
        mc::T(6); mc::S(); mc::V(); });
    FE(1, 1)
    FE(2, 1, 8)
    FE(3, 1, 8, 15)
    FE(4, 1, 8, 15, 22)
    FE(5, 1, 8, 15, 22, 29)
    FE(6, 1, 8, 15, 22, 29, 36)
    FE(7, 1, 8, 15, 22, 29, 36, 43)
    FE(8, 1, 8, 15, 22, 29, 36, 43, 50)
    FE(9, 1, 8, 15, 22, 29, 36, 43, 50, 57)
    FE(10, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64)
    FE(11, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71)
    FE(12, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78)
    FE(13, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85)
    FE(14, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92)
    FE(15, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99)
    FE(16, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106)
    FE(17, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113)
    FE(18, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120)
    FE(19, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127)
    FE(20, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134)
    FE(21, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141)
    FE(22, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148)
    FE(23, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155)
    FE(24, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162)
    FE(25, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169)
    FE(26, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176)
    FE(27, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183)
    FE(28, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190)
    FE(29, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197)
    FE(30, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204)
    FE(31, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211)
    FE(32, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218)
}
// ------------------------------------------------------------------ sizes
SECTION(remainders, 4)
{
    mc::bound("padding to a minimum and to a multiple: all sizes and limits 0..1030, and around the powers of two");
    std::vector<size_t> v; for(size_t i = 0; i <= 1030; ++i) v.push_back(i);
    for(int b = 11; b < 63; ++b) for(long d = -2; d <= 2; ++d) v.push_back(((size_t)1 << b) + (size_t)d);
    for(size_t n : v)
    {
        if(!mc::mine()) continue;
        MC_CASE(mc::fmt("size %zu", n), {
            for(size_t m : v)
            {
                size_t r = c4::min_remainder(n, m); mc::T(); mc::S(); MC_CHECK(r == (n >= m ? 0 : m - n), "min_remainder(%zu,%zu) is %zu", n, m, r);
                if(m) { r = c4::mult_remainder(n, m); mc::T(); MC_CHECK(r < m && (n + r) % m == 0, "mult_remainder(%zu,%zu) is %zu", n, m, r); }
            }
            mc::V();
        });
    }
}
// types of every kind: plain bytes, words with tail padding (plain and not), empty, polymorphic, members with destructors
template<size_t N> struct Bytes { char c[N]; void set(int k) { for(size_t i = 0; i < N; ++i) c[i] = (char)(k + (int)i); } bool is(int k) const { for(size_t i = 0; i < N; ++i) if(c[i] != (char)(k + (int)i)) return false; return true; } };
struct Empty { void set(int) {} bool is(int) const { return true; } };
struct Tail { int a; char b; void set(int k) { a = k; b = (char)k; } bool is(int k) const { return a == k && b == (char)k; } };
struct TailC { int a; char b; TailC() : a(0), b(0) {} TailC(int x, char y) : a(x), b(y) {} void set(int k) { a = k; b = (char)k; } bool is(int k) const { return a == k && b == (char)k; } };
struct TailP { private: double a; public: char b; TailP() : a(0), b(0) {} void set(int k) { a = k; b = (char)k; } bool is(int k) const { return a == k && b == (char)k; } };
struct TailD : TailC { short s; TailD() : s(0) {} void set(int k) { TailC::set(k); s = (short)k; } bool is(int k) const { return TailC::is(k) && s == (short)k; } };
struct Poly { int a; char b; Poly() : a(0), b(0) {} virtual ~Poly() {} virtual void set(int k) { a = k; b = (char)k; } virtual bool is(int k) const { return a == k && b == (char)k; } };
struct Owner { Str s; char t; Owner() : t(0) {} void set(int k) { s = Str(30, (char)k); t = (char)k; } bool is(int k) const { return s == Str(30, (char)k) && t == (char)k; } };
static void sized(const char *kind, const char *name, size_t m, size_t size, size_t want, size_t base)
{
    MC_CASE(mc::fmt("%s<%s,%zu> of a type of %zu bytes", kind, name, m, base), {
        MC_CHECK(size == want, "size is %zu, expected %zu", size, want); mc::T(); mc::S(); mc::V();
    });
}
static void sized_all(const char *name, size_t m, size_t s, size_t padded, size_t mn, size_t mult, size_t mm1, size_t mm2)
{
    if(!mc::mine()) return;
    const size_t wmn = s > m ? s : m; sized("Padded", name, m, padded, s + m, s); sized("MinSized", name, m, mn, wmn, s);
    if(m) { sized("MultSized", name, m, mult, (s + m - 1) / m * m, s); sized("MinMultSized (to a multiple of 16)", name, m, mm1, (wmn + 15) / 16 * 16, s); sized("MinMultSized (24 at least)", name, m, mm2, ((s > 24 ? s : 24) + m - 1) / m * m, s); }
}
template<class T, size_t M> struct Grid
{
    static void go(const char *name)
    {
        sized_all(name, M, sizeof(T), sizeof(c4::Padded<T, M>), sizeof(c4::MinSized<T, M>), sizeof(c4::MultSized<T, M>), sizeof(c4::MinMultSized<T, M, 16>), sizeof(c4::MinMultSized<T, 24, M>));
        Grid<T, M - 1>::go(name);
    }
};
template<class T> struct Grid<T, 0> { static void go(const char *name) { sized_all(name, 0, sizeof(T), sizeof(c4::Padded<T, 0>), sizeof(c4::MinSized<T, 0>), 0, 0, 0); } };
// padded types are packed, so they are placed at aligned addresses here, as the contained type requires
template<class P> struct At { alignas(32) unsigned char b[16 * ((sizeof(P) + 15) / 16) + 64]; P *p; 
    template<class... A> explicit At(A&&... a) { memset(b, 0xa5, sizeof(b)); p = new(b + 32) P(std::forward<A>(a)...); } ~At() { p->~P(); } At(At const&) = delete;
    bool clean() const { for(size_t i = 0; i < sizeof(b); ++i) if((i < 32 || i >= 32 + sizeof(P)) && b[i] != 0xa5) return false; return true; } };
template<class P, class T> static void value1(const char *name)
{
    MC_CASE(mc::fmt("values of %s (%zu bytes)", name, sizeof(P)), {
        // a padded object is a T: same value after construction, copy, move and assignment; the bytes around it stay
        T t = T(); t.set(41); At<P> a(t); MC_CHECK(a.p->is(41), "construction from a value"); MC_CHECK(t.is(41), "the source of a copy changed");
        T u = T(); u.set(17); At<P> m((T&&)u); MC_CHECK(m.p->is(17), "construction from a temporary");
        At<P> b(*(P const*)a.p); MC_CHECK(b.p->is(41) && a.p->is(41), "copy"); At<P> c((P&&)*b.p); MC_CHECK(c.p->is(41), "move");
        *m.p = *a.p; MC_CHECK(m.p->is(41) && a.p->is(41), "assignment"); t.set(99); static_cast<T&>(*m.p) = t; MC_CHECK(m.p->is(99) && a.p->is(41), "assignment of a value");
        MC_CHECK(a.clean() && b.clean() && c.clean() && m.clean(), "bytes around the object changed");
        mc::T(8); mc::S(); mc::V();
    });
}
template<class T> static void values(const char *name)
{
    #define VV(...) value1<__VA_ARGS__, T>(#__VA_ARGS__)
    if(mc::mine()) { VV(c4::Padded<T, 0>); VV(c4::Padded<T, 1>); VV(c4::Padded<T, 7>); VV(c4::MinSized<T, 4>); VV(c4::MinSized<T, 64>); VV(c4::MultSized<T, 3>); VV(c4::MultSized<T, 32>); VV(c4::MinMultSized<T, 20, 8>); VV(c4::UbufSized<T>); }
}
SECTION(sizes, 4)
{
    mc::bound("13 kinds of types of 1..64 bytes (plain, with tail padding, with constructors, empty, polymorphic, derived, owning memory): every padding, minimum and multiple 0..72");
    #define KINDS(F) F(Bytes<1>) F(Bytes<3>) F(Bytes<8>) F(Bytes<17>) F(Bytes<33>) F(Bytes<64>) F(Empty) F(Tail) F(TailC) F(TailP) F(TailD) F(Poly) F(Owner)
    #define SZ(...) Grid<__VA_ARGS__, 72>::go(#__VA_ARGS__); if(mc::mine()) sized("UbufSized", #__VA_ARGS__, 64, sizeof(c4::UbufSized<__VA_ARGS__>), sizeof(__VA_ARGS__) <= 64 ? 64 : (sizeof(__VA_ARGS__) + 15) / 16 * 16, sizeof(__VA_ARGS__));
    KINDS(SZ)
}
SECTION(padded_values, 4)
{
    mc::bound("13 kinds of types, 9 paddings: the value through construction, copy, move, assignment, with the bytes around it; a type that can only be moved");
    #define PV(...) values<__VA_ARGS__>(#__VA_ARGS__);
    KINDS(PV)
    MC_CASE("move-only", {
        struct Mo : std::unique_ptr<int> { Mo(int *p) : std::unique_ptr<int>(p) {} };
        typedef c4::MinSized<Mo, 32> P1; typedef c4::MultSized<Mo, 8> P2; At<P1> a(Mo(new int(5))); At<P2> b(Mo(new int(6))); MC_CHECK(*a.p && **a.p == 5 && *b.p && **b.p == 6, "moving a value into a padded type"); MC_CHECK(sizeof(P1) == 32, "size"); mc::T(2); mc::S(); mc::V();
    });
}
// ------------------------------------------------------------------ sequences
template<class T, T... I> static std::vector<long> elems(c4::integer_sequence<T, I...>) { return std::vector<long>{(long)I...}; }
template<class T> struct SeqTest
{
    template<size_t N, class> struct Loop { static void go(const char *tn) {
        MC_CASE(mc::fmt("make_integer_sequence<%s,%zu>", tn, N), {
            typedef c4::make_integer_sequence<T, (T)N> Q; std::vector<long> v = elems(Q()); std::vector<long> w; for(size_t i = 0; i < N; ++i) w.push_back((long)i);
            MC_CHECK(v == w, "%zu elements, or others", v.size()); MC_CHECK(Q::size() == N, "size() is %zu", (size_t)Q::size()); MC_CHECK((std::is_same<typename Q::value_type, T>::value), "element type"); mc::T(); mc::S(); mc::V(); });
        Loop<N - 1, void>::go(tn); } };
    template<class D> struct Loop<0, D> { static void go(const char *tn) { MC_CASE(mc::fmt("make_integer_sequence<%s,0>", tn), { typedef c4::make_integer_sequence<T, 0> Q; MC_CHECK(elems(Q()).empty() && Q::size() == 0, "elements in an empty sequence"); mc::T(); mc::S(); mc::V(); }); } };
};
SECTION(sequences, 1)
{
    mc::bound("sequences of 0..140 elements of five types, 512, 513 and 600 elements, and for type lists of 0..9 types");
    SeqTest<size_t>::Loop<140, void>::go("size_t"); SeqTest<int>::Loop<70, void>::go("int"); SeqTest<unsigned char>::Loop<140, void>::go("unsigned char"); SeqTest<long long>::Loop<70, void>::go("long long"); SeqTest<short>::Loop<33, void>::go("short");
    MC_CASE("long and for type lists", {
        auto is = [](std::vector<long> v, size_t n) { bool ok = v.size() == n; for(size_t i = 0; i < n && ok; ++i) ok = v[i] == (long)i; mc::T(); mc::S(); MC_CHECK(ok, "sequence of %zu elements", n); };
        is(elems(c4::make_index_sequence<512>()), 512); is(elems(c4::make_index_sequence<513>()), 513); is(elems(c4::make_index_sequence<600>()), 600); is(elems(c4::make_index_sequence<63>()), 63); is(elems(c4::make_index_sequence<64>()), 64);
        is(elems(c4::index_sequence_for<>()), 0); is(elems(c4::index_sequence_for<int>()), 1); is(elems(c4::index_sequence_for<int, char>()), 2); is(elems(c4::index_sequence_for<int, char, void, Str, int&, int, int, int, int>()), 9);
        MC_CHECK((std::is_same<c4::make_index_sequence<3>, c4::index_sequence<0, 1, 2>>::value), "index_sequence"); mc::V();
    });
}
// ------------------------------------------------------------------ argument passing and traits
C4_DEFINE_HAS_TYPEDEF(first_thing);
C4_DEFINE_HAS_TYPEDEF(other_thing);
struct W1 { typedef int first_thing; }; struct W2 { typedef char *other_thing; }; struct W12 : W1, W2 {}; struct W0 { int first_thing; static void other_thing(); };
struct Forced { char c[100]; };
namespace c4 { C4_CREF_USES_VAL(Forced) }
template<class A, class B> struct Two {}; template<class... A> struct Any_ {};
SECTION(traits, 1)
{
    mc::bound("plain types of 1..40 bytes, all scalar kinds, types with constructors, forced types; member type traits; template instances; version numbers");
    #define VALUE(...) MC_CHECK((std::is_same<c4::fastcref<__VA_ARGS__>, __VA_ARGS__>::value), "%s is not passed by value", #__VA_ARGS__); mc::T(); mc::S();
    #define REF(...) MC_CHECK((std::is_same<c4::fastcref<__VA_ARGS__>, __VA_ARGS__ const&>::value), "%s is not passed by reference", #__VA_ARGS__); mc::T(); mc::S();
    MC_CASE("argument passing", {
        VALUE(bool) VALUE(char) VALUE(int) VALUE(long) VALUE(long long) VALUE(double) VALUE(long double) VALUE(void*) VALUE(const char*) VALUE(int W0::*) VALUE(void (*)()) VALUE(std::nullptr_t) VALUE(float)
        VALUE(Bytes<1>) VALUE(Bytes<3>) VALUE(Bytes<7>) VALUE(Bytes<8>) REF(Bytes<9>) REF(Bytes<16>) REF(Bytes<40>) VALUE(Tail) VALUE(Empty) REF(Poly) REF(Owner) REF(Str) REF(std::vector<int>) VALUE(Forced) REF(std::unique_ptr<int>)
        mc::V();
    });
    MC_CASE("member types", {
        MC_CHECK(has_first_thing<W1>::value && !has_first_thing<W2>::value && has_first_thing<W12>::value && !has_first_thing<W0>::value && !has_first_thing<int>::value, "first_thing");
        MC_CHECK(!has_other_thing<W1>::value && has_other_thing<W2>::value && has_other_thing<W12>::value && !has_other_thing<W0>::value && !has_other_thing<int*>::value, "other_thing"); mc::T(10); mc::S(); mc::V();
    });
    MC_CASE("instances", {
        MC_CHECK((c4::is_instance_of_tpl<Two, Two<int, char>>::value && !c4::is_instance_of_tpl<Two, int>::value && !c4::is_instance_of_tpl<Two, Any_<int, char>>::value && c4::is_instance_of_tpl<Any_, Any_<>>::value && c4::is_instance_of_tpl<Any_, Any_<int>>::value && c4::is_instance_of_tpl<std::vector, std::vector<int>>::value && !c4::is_instance_of_tpl<std::vector, std::vector<int>*>::value), "is_instance_of_tpl"); mc::T(7); mc::S(); mc::V();
    });
    MC_CASE("names and numbers", {
        long prev = -1; bool up = true; for(int a = 0; a < 12; ++a) for(int b = 0; b < 100; ++b) for(int c = 0; c < 100; ++c) { long v = C4_VERSION_CAT(a, b, c); up = up && v == prev + 1; prev = v; mc::T(); } MC_CHECK(up, "version numbers are not in order");
        MC_CHECK(C4_VERSION_CAT(1 + 1, 2 + 1, 3 | 4) == 20307, "version number of expressions"); mc::S();
        #define MNAME abc
        int abcdef = 3; MC_CHECK(C4_XCAT(MNAME, def) == 3, "C4_XCAT"); MC_CHECK(Str(C4_XQUOTE(MNAME)) == "abc" && Str(C4_QUOTE(MNAME)) == "MNAME", "quoting"); char arr[13]; int ia[7]; MC_CHECK(C4_COUNTOF(arr) == 13 && C4_COUNTOF(ia) == 7 && C4_COUNTOF("four") == 5, "C4_COUNTOF");
        MC_CHECK(Str("ab") == "ab" && sizeof(C4_WIDEN("ab")) == 3 * sizeof(wchar_t), "C4_WIDEN"); mc::T(6); mc::V();
    });
}
MC_MAIN
