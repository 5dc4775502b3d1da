// C29: compile-time type names: every type of a grammar of types to a depth, in every
// supported language version and both compilers, against the compiler's own spelling
// located by its delimiters.
#include "mc.hpp"
#include <c4/type_name.hpp>
#include <c4/substr.hpp>
#include <map>
#include <memory>
typedef std::string Str;

/// the compiler's spelling, found between the first "T = " and the last ']'
template<class T> static Str spelled()
{
    Str p = __PRETTY_FUNCTION__;
    size_t b = p.find("T = "), e = p.rfind(']');
    Str r = p.substr(b + 4, e - b - 4);
    size_t semi = r.find("; "); // gcc appends the expansions of typedefs in the signature
    if(semi != Str::npos) r = r.substr(0, semi);
    return r;
}
// names of every length, of every start, in every nesting
struct a {}; struct ab {}; struct T {}; struct constexpr_ {}; class Klass {}; union Uni { int x; }; enum Enu { E1 }; enum class Sco : char { S1 };
struct with {}; struct _c4t_ {}; struct A_very_long_name_indeed_0123456789_0123456789_0123456789_0123456789 {};
struct structural {}; struct classy {}; struct class_ {}; struct struct_ {}; struct int_ {}; struct T_ {};
namespace n { struct x {}; namespace m { struct y { struct z {}; template<class> struct w {}; }; template<class...> struct v {}; } }
namespace T_ns { struct T {}; }
template<class> struct One {}; template<class, class> struct Two {}; template<int> struct Num {}; template<char> struct Chr {}; template<bool> struct Boo {}; template<template<class> class> struct Tpl {};
struct Mem { int d; int f(int); };

static std::map<Str, int> seen; static mc::u64 ntypes = 0; static Str prev; static bool prevset;
template<class X> struct Tag {};
template<class X> static void judge()
{
    ++ntypes; mc::S();
    if((ntypes % mc::st().nshard) != mc::st().shard) return;
    Str want = spelled<X>();
    MC_CASE("type_name of " + want, {
        auto s = c4::type_name<X>(); mc::T();
        Str got(s.data(), s.size());
        MC_CHECK(got == want, "the name is %s, expected %s", mc::q(got).c_str(), mc::q(want).c_str());
        auto s2 = c4::type_name<X>(); mc::T();
        MC_CHECK(s2.data() == s.data() && s2.size() == s.size(), "the name changes from call to call");
        mc::V();
    });
    if(ntypes < 6) mc::sample(want);
}
template<class X, class Y = typename std::remove_reference<X>::type> struct CanVal { enum { v = !std::is_void<Y>::value && !std::is_function<Y>::value && !std::is_abstract<Y>::value && !std::is_array<Y>::value }; };
template<class X, bool> struct ByVal { static void go() {} };
template<class X> struct ByVal<X, true>
{
    static void go()
    {
        typedef typename std::remove_cv<typename std::remove_reference<X>::type>::type U;
        alignas(16) static char raw[sizeof(U) + 16];
        Str want = spelled<U>();
        MC_CASE("type_name of a value of type " + want, { auto s = c4::type_name(*(U const*)raw); mc::T(); Str got(s.data(), s.size()); MC_CHECK(got == want, "the name is %s, expected %s", mc::q(got).c_str(), mc::q(want).c_str()); mc::V(); });
    }
};
// the grammar: every chain of type constructors up to a depth
template<class X, int D, bool IsRef = std::is_reference<X>::value, bool IsFn = std::is_function<X>::value, bool IsVoid = std::is_void<X>::value> struct Grow;
template<class X, int D> struct Next
{
    static void go()
    {
        judge<X>(); ByVal<X, CanVal<X>::v>::go();
        Grow<X, D>::go();
    }
};
template<class X> struct Next<X, -1> { static void go() {} };
template<class X, int D> struct Grow<X, D, false, false, false>
{
    static void go()
    {
        Next<X*, D - 1>::go(); Next<X&, D - 1>::go(); Next<X&&, D - 1>::go(); Next<X const, D - 1>::go(); Next<X volatile, D - 1>::go(); Next<X[7], D - 1>::go(); Next<One<X>, D - 1>::go(); Next<Two<int, X>, D - 1>::go(); Next<n::m::v<X, char>, D - 1>::go(); Next<X Mem::*, D - 1>::go(); Next<n::m::y::w<X>, D - 1>::go(); Next<void(X), D - 1>::go();
    }
};
template<class X, int D, bool F, bool V> struct Grow<X, D, true, F, V> { static void go() { Next<One<X>, D - 1>::go(); Next<Two<X, X>, D - 1>::go(); Next<void(X), D - 1>::go(); } };
template<class X, int D, bool V> struct Grow<X, D, false, true, V> { static void go() { Next<X*, D - 1>::go(); Next<X&, D - 1>::go(); Next<One<X>, D - 1>::go(); Next<X Mem::*, D - 1>::go(); } };
template<class X, int D> struct Grow<X, D, false, false, true> { static void go() { Next<X*, D - 1>::go(); Next<X const, D - 1>::go(); Next<One<X>, D - 1>::go(); Next<X(), D - 1>::go(); } };
template<int D, class... X> struct Each;
template<int D> struct Each<D> { static void go() {} };
template<int D, class X, class... R> struct Each<D, X, R...> { static void go() { Next<X, D>::go(); Each<D, R...>::go(); } };

SECTION(bases, 1)
{
    Each<0, void, bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double, wchar_t, char16_t, char32_t, std::nullptr_t, a, ab, T, constexpr_, Klass, Uni, Enu, Sco, with, _c4t_, A_very_long_name_indeed_0123456789_0123456789_0123456789_0123456789, structural, classy, class_, struct_, int_, T_, n::x, n::m::y, n::m::y::z, T_ns::T,
        Num<0>, Num<-1>, Num<2147483647>, Chr<'a'>, Chr<']'>, Boo<true>, Tpl<One>, n::m::v<>, n::m::v<a, ab, T, int, char>, Mem, int (Mem::*)(int), int (*)(int, ...), int (&)[3], int[2][3], std::string, std::vector<int>, std::map<std::string, std::vector<int>>, std::shared_ptr<a>, c4::csubstr, c4::span<int>>::go();
    mc::bound("61 base types, names of 1 to 70 characters");
}
#ifndef DEPTH
#define DEPTH 2
#endif
SECTION(grammar, 1)
{
    Each<DEPTH, int, T, n::m::y::z, Sco, void>::go();
    mc::bound(mc::fmt("all chains of at most %d of 12 type constructors over 5 bases: %llu types", DEPTH, ntypes));
}
typedef A_very_long_name_indeed_0123456789_0123456789_0123456789_0123456789 Long;
template<class X> struct Another_long_template_name_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789 { struct nested_inside_the_long_template {}; };
#define L16(p) struct p##_0123456789abcdef {}; struct p##_0123456789abcdef_0123456789abcdef {}; struct p##_0123456789abcdef_0123456789abcdef_0123456789abcdef {}; struct p##_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef {};
L16(L)
SECTION(longnames, 1)
{
    typedef Another_long_template_name_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789<Long> LL;
    Each<2, Long>::go();
    Each<1, LL, LL::nested_inside_the_long_template, Two<LL, Long>, L_0123456789abcdef, L_0123456789abcdef_0123456789abcdef, L_0123456789abcdef_0123456789abcdef_0123456789abcdef,
        L_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef_0123456789abcdef>::go();
    mc::bound("all chains of at most 2 type constructors over a type with a name of 70 characters and of at most 1 over 7 types with names of 18 to 300 characters");
}
MC_MAIN
