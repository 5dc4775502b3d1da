// C18: spans
#include "mc.hpp"
#include <c4/span.hpp>
#include <map>
#include <set>
#include <algorithm>
using mc::q;
typedef std::string Str;
enum { N = 6 };
static int ARR[N + 2], OTHER[N];
static int *A = ARR + 1;

struct M { int start, size, cap, off; bool operator<(M const& o) const { return std::tie(start, size, cap, off) < std::tie(o.start, o.size, o.cap, o.off); } };
static Str show(M m) { return mc::fmt("elements [%d,%d) capacity %d offset %d", m.start, m.start + m.size, m.cap, m.off); }

template<class S> struct Kind;
template<class T, class I> struct Kind<c4::span<T, I>> { enum { k = 0 }; typedef I Ix; typedef T El; static const char *name() { return "span"; } };
template<class T, class I> struct Kind<c4::spanrs<T, I>> { enum { k = 1 }; typedef I Ix; typedef T El; static const char *name() { return "spanrs"; } };
template<class T, class I> struct Kind<c4::spanrsl<T, I>> { enum { k = 2 }; typedef I Ix; typedef T El; static const char *name() { return "spanrsl"; } };

template<class S> static int get_off(S const&, int) { return 0; }
template<class T, class I> static int get_off(c4::spanrsl<T, I> const& s, int) { return (int)s.offset(); }
template<class S> static void look(S &s, M m)
{
    typedef typename Kind<S>::El T; typedef typename Kind<S>::Ix I;
    S const& c = s;
    MC_CHECK(s.data() == A + m.start && c.data() == A + m.start, "data() is at element %ld", (long)(s.data() - A));
    MC_CHECK(s.size() == (I)m.size, "size() is %ld", (long)s.size());
    MC_CHECK(s.empty() == (m.size == 0), "empty()");
    MC_CHECK(s.capacity() == (I)(Kind<S>::k == 0 ? m.size : m.cap), "capacity() is %ld", (long)s.capacity());
    MC_CHECK(get_off(s, 0) == (Kind<S>::k == 2 ? m.off : 0), "offset() is %d", get_off(s, 0));
    if(sizeof(I) > 1) MC_CHECK((size_t)s.byte_size() == (size_t)m.size * sizeof(int), "byte_size()");
    MC_CHECK(s.value_size() == (I)sizeof(int) && s.elm_size() == (I)sizeof(int) && s.type_size() == (I)sizeof(int), "value_size()");
    mc::T(8);
    if(s.data() != A + m.start || s.size() != (I)m.size) return;
    std::vector<int> ex; for(int i = 0; i < m.size; ++i) ex.push_back(100 + m.start + i);
    std::vector<int> rv(ex.rbegin(), ex.rend());
    #define SEQ(b, e, want) { std::vector<int> got; for(auto it = (b); it != (e) && got.size() < 20; ++it) got.push_back(*it); MC_CHECK(got == want, "iteration " #b); mc::T(); }
    SEQ(s.begin(), s.end(), ex); SEQ(c.begin(), c.end(), ex); SEQ(s.cbegin(), s.cend(), ex);
    SEQ(s.rbegin(), s.rend(), rv); SEQ(c.rbegin(), c.rend(), rv); SEQ(s.crbegin(), s.crend(), rv);
    for(int i = 0; i < m.size; ++i) { MC_CHECK(&s[(I)i] == A + m.start + i && &c[(I)i] == A + m.start + i, "[%d]", i); mc::T(2); }
    if(m.size) { MC_CHECK(&s.front() == A + m.start && &c.front() == A + m.start && &s.back() == A + m.start + m.size - 1 && &c.back() == A + m.start + m.size - 1, "front()/back()"); mc::T(4); }
}
template<class S> struct Explorer
{
    typedef typename Kind<S>::El T; typedef typename Kind<S>::Ix I;
    enum { K = Kind<S>::k };
    std::map<M, S> seen; std::vector<M> order;
    Str ty;
    M sel(M m, int f, int n) { return {m.start + f, n, K == 1 || K == 2 ? m.cap - f : n, K == 2 ? m.off + f : 0}; }
    void add(M m, S const& s) { if(K == 0) m.cap = m.size; if(K != 2) m.off = 0; if(seen.insert(std::make_pair(m, s)).second) { order.push_back(m); mc::S(); } }
    template<class F> void op(M m, Str const& what, M to, F &&f)
    {
        if(K == 0) to.cap = to.size;
        if(K != 2) to.off = 0;
        MC_CASE(mc::fmt("%s: %s: %s -> %s", ty.c_str(), show(m).c_str(), what.c_str(), show(to).c_str()), {
            S before = seen[m], s = before;
            S r = f(s); mc::T();
            look(r, to);
            add(to, r);
            mc::V();
        });
    }
    void original(M m, c4::spanrsl<T, I> *)
    {
        M full = {0, m.off + m.cap, m.off + m.cap, 0};
        op(m, "original()", full, [](S &s) { return s.original(); });
        MC_CASE(mc::fmt("%s: %s: original<span>, original<spanrs>, conversions", ty.c_str(), show(m).c_str()), {
            S s = seen[m];
            auto a = s.template original<c4::span>(); look(a, M{0, full.size, full.size, 0});
            auto b = s.template original<c4::spanrs>(); look(b, M{0, full.size, full.size, 0});
            c4::span<T, I> p = s; look(p, M{m.start, m.size, m.size, 0});
            c4::spanrs<T, I> r = s; look(r, M{m.start, m.size, m.cap, 0});
            c4::spanrsl<const int, I> cs = s; look(cs, m);
            mc::T(5); mc::V(); });
    }
    void original(M m, c4::spanrs<T, I> *)
    {
        MC_CASE(mc::fmt("%s: %s: conversions", ty.c_str(), show(m).c_str()), { S s = seen[m]; c4::span<T, I> p = s; look(p, M{m.start, m.size, m.size, 0}); c4::spanrs<const int, I> cs = s; look(cs, m); mc::T(2); mc::V(); });
    }
    void original(M m, c4::span<T, I> *)
    {
        MC_CASE(mc::fmt("%s: %s: conversion to const", ty.c_str(), show(m).c_str()), { S s = seen[m]; c4::span<const int, I> cs = s; look(cs, m); mc::T(); mc::V(); });
    }
    template<class X> void init_cap(X*) {}
    void init_cap(c4::spanrs<T, I> *) { for(int c = 0; c <= N; ++c) for(int z = 0; z <= c; ++z) { op(M{0, N, N, 0}, mc::fmt("assign(p,%d,%d)", z, c), M{0, z, c, 0}, [&](S &s) { s.assign(A, (I)z, (I)c); return s; }); op(M{0, N, N, 0}, mc::fmt("construct(p,%d,%d)", z, c), M{0, z, c, 0}, [&](S &) { return S(A, (I)z, (I)c); }); } }
    void init_cap(c4::spanrsl<T, I> *)
    {
        for(int c = 0; c <= N; ++c) for(int z = 0; z <= c; ++z) { op(M{0, N, N, 0}, mc::fmt("assign(p,%d,%d)", z, c), M{0, z, c, 0}, [&](S &s) { s.assign(A, (I)z, (I)c); return s; }); op(M{0, N, N, 0}, mc::fmt("construct(p,%d,%d)", z, c), M{0, z, c, 0}, [&](S &) { return S(A, (I)z, (I)c); });
            for(int o = 0; o + c <= N; ++o) { op(M{0, N, N, 0}, mc::fmt("assign(p,%d,%d,%d)", z, c, o), M{o, z, c, o}, [&](S &s) { s.assign(A + o, (I)z, (I)c, (I)o); return s; }); op(M{0, N, N, 0}, mc::fmt("construct(p,%d,%d,%d)", z, c, o), M{o, z, c, o}, [&](S &) { return S(A + o, (I)z, (I)c, (I)o); }); } }
    }
    void run(Str name)
    {
        ty = name;
        for(int i = -1; i <= N; ++i) A[i] = 100 + i;
        add(M{0, N, N, 0}, S((T*)A, (I)N));
        MC_CASE(ty + ": default construction", { S s; MC_CHECK(s.data() == nullptr && s.size() == 0 && s.capacity() == 0 && s.empty() && s.begin() == s.end() && get_off(s, 0) == 0, "is not empty"); mc::T(); mc::V(); });
        init_cap((S*)nullptr);
        for(size_t k = 0; k < order.size(); ++k)
        {
            const M m = order[k];
            MC_CASE(mc::fmt("%s: %s", ty.c_str(), show(m).c_str()), { S s = seen[m]; look(s, m); S t(s); look(t, m); S u; u = s; look(u, m); S v(std::move(t)); look(v, m); S w; w = std::move(u); look(w, m); mc::T(4); mc::V(); });
            for(int f = 0; f <= m.size; ++f)
            {
                for(int n = 0; f + n <= m.size; ++n)
                {
                    op(m, mc::fmt("subspan(%d,%d)", f, n), sel(m, f, n), [&](S &s) { return s.subspan((I)f, (I)n); });
                    op(m, mc::fmt("range(%d,%d)", f, f + n), sel(m, f, n), [&](S &s) { return s.range((I)f, (I)(f + n)); });
                }
                op(m, mc::fmt("subspan(%d)", f), sel(m, f, m.size - f), [&](S &s) { return s.subspan((I)f); });
                op(m, mc::fmt("range(%d)", f), sel(m, f, m.size - f), [&](S &s) { return s.range((I)f); });
                op(m, mc::fmt("first(%d)", f), sel(m, 0, f), [&](S &s) { return s.first((I)f); });
                op(m, mc::fmt("last(%d)", f), sel(m, m.size - f, f), [&](S &s) { return s.last((I)f); });
                if(f < m.size)
                {
                    op(m, mc::fmt("ltrim(%d)", f), sel(m, f, m.size - f), [&](S &s) { s.ltrim((I)f); return s; });
                    op(m, mc::fmt("rtrim(%d)", f), M{m.start, m.size - f, m.cap, m.off}, [&](S &s) { s.rtrim((I)f); return s; });
                }
            }
            const int cap = K == 0 ? m.size : m.cap;
            for(int z = 0; z <= cap; ++z) op(m, mc::fmt("resize(%d)", z), M{m.start, z, m.cap, m.off}, [&](S &s) { s.resize((I)z); return s; });
            op(m, "clear()", M{m.start, 0, m.cap, m.off}, [&](S &s) { s.clear(); return s; });
            for(int z = 0; z <= N; z += 3) op(m, mc::fmt("assign(p,%d)", z), M{0, z, z, 0}, [&](S &s) { s.assign((T*)A, (I)z); return s; });
            op(m, "assign(array)", M{0, N, N, 0}, [&](S &s) { s.assign(*(T(*)[N])A); return s; });
            op(m, "construct(array)", M{0, N, N, 0}, [&](S &) { return S(*(T(*)[N])A); });
            original(m, (S*)nullptr);
            #ifndef NDEBUG
            MC_CASE(mc::fmt("%s: %s: resize past the capacity", ty.c_str(), show(m).c_str()), { S s = seen[m]; auto e = mc::errors_in([&]{ s.resize((I)(cap + 1)); }); mc::T(); MC_CHECK(e > 0, "no error"); mc::V(); });
            MC_CASE(mc::fmt("%s: %s: trim more than the size", ty.c_str(), show(m).c_str()), { S s = seen[m]; auto e = mc::errors_in([&]{ s.ltrim((I)(m.size + 1)); }); S t = seen[m]; auto e2 = mc::errors_in([&]{ t.rtrim((I)(m.size + 1)); }); mc::T(2); MC_CHECK(e > 0 && e2 > 0, "no error"); mc::V(); });
            #endif
        }
        // pairs
        for(size_t i = 0; i < order.size(); ++i) for(size_t j = 0; j < order.size(); ++j)
        {
            const M a = order[i], b = order[j];
            MC_CASE(mc::fmt("%s: %s against %s", ty.c_str(), show(a).c_str(), show(b).c_str()), {
                S s = seen[a], t = seen[b];
                MC_CHECK(s.is_subspan(t) == (b.start >= a.start && b.start + b.size <= a.start + a.size), "is_subspan()");
                MC_CHECK(s.same_span(t) == (a.start == b.start && a.size == b.size), "same_span()");
                bool bi = b.start >= a.start && b.start <= a.start + a.size;
                S l = s.compll(t); M ml = sel(a, 0, bi ? b.start - a.start : 0); if(K == 0) ml.cap = ml.size; look(l, ml);
                int be = b.start + b.size; bool ei = be >= a.start && be <= a.start + a.size;
                S r = s.complr(t); M mr = ei ? sel(a, be - a.start, a.start + a.size - be) : sel(a, 0, 0); if(K == 0) mr.cap = mr.size; look(r, mr);
                c4::span<T, size_t> u((T*)A + b.start, (size_t)b.size);
                MC_CHECK(s.same_span(u) == (a.start == b.start && a.size == b.size), "same_span(span)");
                mc::T(5); mc::V();
            });
        }
        for(M m : order)
        {
            MC_CASE(mc::fmt("%s: %s against another array", ty.c_str(), show(m).c_str()), { S s = seen[m]; S o((T*)OTHER, (I)N); MC_CHECK(!s.is_subspan(o) && !s.same_span(o) && !o.is_subspan(s), "taken for a subspan"); MC_CHECK(s.compll(o).empty() && s.complr(o).empty(), "complement is not empty"); mc::T(4); mc::V(); });
        }
        for(M m : order) if(!std::is_const<T>::value) for(int i = 0; i < m.size; ++i)
        {
            MC_CASE(mc::fmt("%s: %s: write element %d", ty.c_str(), show(m).c_str(), i), { S s = seen[m]; const_cast<int&>(s[(I)i]) = -5; for(int k = -1; k <= N; ++k) MC_CHECK(A[k] == (k == m.start + i ? -5 : 100 + k), "array element %d is %d", k, A[k]); for(int k = -1; k <= N; ++k) A[k] = 100 + k; mc::T(); mc::V(); });
        }
        mc::sample(mc::fmt("%s: %zu reachable spans", ty.c_str(), order.size()));
    }
};
#define RUN(S) { Explorer<S> *e = new Explorer<S>; e->run(#S); delete e; }
#if MC_IN_PART(0)
SECTION(fixed, 1) { mc::bound("all spans of a 6-element array reachable by any sequence of operations (explicit exploration to a fixpoint), every operation and argument from each, all pairs; element and index types int/const int, size_t, int, uint8, int8"); RUN(c4::span<int>); typedef c4::span<const int> Cspan; RUN(Cspan); typedef c4::span<int, int> Ispan; RUN(Ispan); typedef c4::span<int, uint8_t> U8span; RUN(U8span); typedef c4::span<int, int8_t> S8span; RUN(S8span); }
#endif
#if MC_IN_PART(1)
SECTION(resizable, 1) { mc::bound("the same for the span that can grow to the right"); RUN(c4::spanrs<int>); typedef c4::spanrs<const int> Cspan; RUN(Cspan); typedef c4::spanrs<int, int> Ispan; RUN(Ispan); typedef c4::spanrs<int, uint8_t> U8span; RUN(U8span); }
#endif
#if MC_IN_PART(2)
SECTION(recoverable, 1) { mc::bound("the same for the span that keeps the original range"); RUN(c4::spanrsl<int>); typedef c4::spanrsl<const int> Cspan; RUN(Cspan); typedef c4::spanrsl<int, int> Ispan; RUN(Ispan); typedef c4::spanrsl<int, uint8_t> U8span; RUN(U8span); }
#endif

#if MC_IN_PART(3)
template<class L, class R> static void rel(const char *ty, L const& l, R const& r, std::vector<int> const& a, std::vector<int> const& b)
{
    MC_CASE(mc::fmt("%s: comparison of %s and %s", ty, [&]{ Str s; for(int x : a) s += mc::fmt("%d,", x); return s; }().c_str(), [&]{ Str s; for(int x : b) s += mc::fmt("%d,", x); return s; }().c_str()), {
        MC_CHECK((l == r) == (a == b), "=="); MC_CHECK((l != r) == (a != b), "!="); MC_CHECK((l < r) == (a < b), "<"); MC_CHECK((l <= r) == (a <= b), "<="); MC_CHECK((l > r) == (a > b), ">"); MC_CHECK((l >= r) == (a >= b), ">=");
        mc::T(6); mc::V();
    });
}
SECTION(compare, 1)
{
    const size_t maxl = mc::thorough() ? 5 : 4;
    mc::bound(mc::fmt("all pairs of sequences of 0 to %zu elements over {-1,0,1}, all pairs of span kinds, different index types, exact heap blocks", maxl));
    std::vector<std::vector<int>> all;
    mc::all_strings("012", 0, maxl, [&](Str const& s) { std::vector<int> v; for(char c : s) v.push_back(c - '1'); all.push_back(v); });
    for(auto &a : all) for(auto &b : all)
    {
        mc::S();
        int *x = (int*)malloc(a.size() * sizeof(int)), *y = (int*)malloc(b.size() * sizeof(int));
        if(a.size()) memcpy(x, a.data(), a.size() * sizeof(int));
        if(b.size()) memcpy(y, b.data(), b.size() * sizeof(int));
        c4::span<int> s1(x, a.size()), t1(y, b.size()); c4::spanrs<int, int> s2(x, (int)a.size()), t2(y, (int)b.size()); c4::spanrsl<int, uint8_t> s3(x, (uint8_t)a.size()), t3(y, (uint8_t)b.size());
        c4::span<const int> s4(x, a.size()), t4(y, b.size()); c4::span<int, int8_t> s5(x, (int8_t)a.size()), t5(y, (int8_t)b.size());
        rel("span/span", s1, t1, a, b); rel("span/spanrs", s1, t2, a, b); rel("spanrs/span", s2, t1, a, b); rel("spanrs/spanrs", s2, t2, a, b); rel("spanrsl/spanrsl", s3, t3, a, b); rel("span/spanrsl", s1, t3, a, b); rel("spanrsl/spanrs", s3, t2, a, b); rel("cspan/cspan", s4, t4, a, b); rel("span/int8 span", s1, t5, a, b); rel("int8 span/spanrsl", s5, t3, a, b);
        free(x); free(y);
    }
    mc::sample("{-1,0} < {-1,0,1}");
}
#endif
#if MC_IN_PART(3)
// ---------------------------------------------------------------- element lists
template<class S> static void from_list(const char *ty)
{
    typedef typename Kind<S>::Ix I;
    #define ILCASE(n, ...) MC_CASE(mc::fmt("%s made of a list of %d elements", ty, n), { std::initializer_list<const int> il = __VA_ARGS__; S s(c4::aggregate, il); S t((const int*)A, (I)N); t.assign(c4::aggregate, il); mc::T(2); mc::S(2); \
        for(S const* p : {&s, &t}) { MC_CHECK(p->data() == il.begin() && p->size() == (I)n && p->capacity() == (I)n && get_off(*p, 0) == 0 && p->end() == il.end(), "size %ld capacity %ld offset %d", (long)p->size(), (long)p->capacity(), get_off(*p, 0)); } mc::V(); });
    ILCASE(1, {5}) ILCASE(2, {5, 6}) ILCASE(3, {5, 6, 7}) ILCASE(6, {5, 6, 7, 1, 2, 3})
    #undef ILCASE
}
SECTION(lists, 1)
{
    mc::bound("spans of constant elements over element lists of 1, 2, 3 and 6 elements, constructed and assigned");
    from_list<c4::span<const int>>("span"); from_list<c4::spanrs<const int>>("spanrs"); from_list<c4::spanrsl<const int>>("spanrsl");
}
#endif
#if MC_IN_PART(3)
// ---------------------------------------------------------------- many elements
static int BIG[70002];
template<class S> struct Big
{
    typedef typename Kind<S>::Ix I; typedef typename Kind<S>::El T;
    enum { K = Kind<S>::k };
    Str ty; int *A; size_t N;
    struct L { size_t start, size, cap, off; };
    void look(S &s, L m)
    {
        S const& c = s;
        MC_CHECK(s.data() == A + m.start, "data() is at element %ld, expected %zu", (long)(s.data() - A), m.start);
        MC_CHECK((size_t)s.size() == m.size, "size() is %ld, expected %zu", (long)s.size(), m.size);
        MC_CHECK((size_t)s.capacity() == (K == 0 ? m.size : m.cap), "capacity() is %ld, expected %zu", (long)s.capacity(), K == 0 ? m.size : m.cap);
        MC_CHECK(K != 2 || (size_t)get_off(s, 0) == m.off, "offset() is %d, expected %zu", get_off(s, 0), m.off);
        MC_CHECK(s.empty() == (m.size == 0), "empty()");
        MC_CHECK(c.begin() == A + m.start && c.end() == A + m.start + m.size && s.end() - s.begin() == (ptrdiff_t)m.size && s.rend() - s.rbegin() == (ptrdiff_t)m.size, "begin() and end()");
        if(m.size) { MC_CHECK(&c.back() == A + m.start + m.size - 1 && &*c.rbegin() == &c.back() && &c[(I)(m.size - 1)] == &c.back() && &c[(I)(m.size / 2)] == A + m.start + m.size / 2, "elements"); }
        mc::T(6);
    }
    std::vector<size_t> pos(size_t n)
    {
        std::set<size_t> r; for(size_t x : {(size_t)0, (size_t)1, n / 2, n ? n - 1 : 0, n, (size_t)127, (size_t)128, (size_t)255, (size_t)256, (size_t)257, (size_t)32768, (size_t)65536}) if(x <= n) r.insert(x);
        return std::vector<size_t>(r.begin(), r.end());
    }
    Str show(L m) { return mc::fmt("elements [%zu,%zu) capacity %zu offset %zu", m.start, m.start + m.size, m.cap, m.off); }
    L sel(L m, size_t f, size_t n) { return {m.start + f, n, K ? m.cap - f : n, K == 2 ? m.off + f : 0}; }
    template<class F> void op(S const& s, L m, L to, int depth, Str what, F f)
    {
        if(K == 0) to.cap = to.size;
        MC_CASE(mc::fmt("%s: %s: %s -> %s", ty.c_str(), show(m).c_str(), what.c_str(), show(to).c_str()), { S t = s; S r = f(t); mc::T(); mc::S(); look(r, to); mc::V(); if(r.data() == A + to.start && (size_t)r.size() == to.size && depth > 1) ops(r, to, depth - 1); });
    }
    void original(c4::span<T, I> const&, L, int) {}
    void original(c4::spanrs<T, I> const&, L, int) {}
    void original(c4::spanrsl<T, I> const& s, L m, int d) { op(s, m, L{0, m.off + m.cap, m.off + m.cap, 0}, d, "original()", [](S &x) { return x.original(); }); }
    void ops(S const& s, L m, int d)
    {
        for(size_t f : pos(m.size))
        {
            for(size_t n : pos(m.size - f))
            {
                op(s, m, sel(m, f, n), d, mc::fmt("subspan(%zu,%zu)", f, n), [&](S &x) { return x.subspan((I)f, (I)n); });
                op(s, m, sel(m, f, n), 1, mc::fmt("range(%zu,%zu)", f, f + n), [&](S &x) { return x.range((I)f, (I)(f + n)); });
            }
            op(s, m, sel(m, f, m.size - f), 1, mc::fmt("subspan(%zu)", f), [&](S &x) { return x.subspan((I)f); });
            op(s, m, sel(m, f, m.size - f), 1, mc::fmt("range(%zu)", f), [&](S &x) { return x.range((I)f); });
            op(s, m, sel(m, 0, f), 1, mc::fmt("first(%zu)", f), [&](S &x) { return x.first((I)f); });
            op(s, m, sel(m, m.size - f, f), 1, mc::fmt("last(%zu)", f), [&](S &x) { return x.last((I)f); });
            if(f < m.size)
            {
                op(s, m, sel(m, f, m.size - f), d, mc::fmt("ltrim(%zu)", f), [&](S &x) { x.ltrim((I)f); return x; });
                op(s, m, L{m.start, m.size - f, m.cap, m.off}, d, mc::fmt("rtrim(%zu)", f), [&](S &x) { x.rtrim((I)f); return x; });
            }
        }
        for(size_t z : pos(K == 0 ? m.size : m.cap)) op(s, m, L{m.start, z, m.cap, m.off}, d, mc::fmt("resize(%zu)", z), [&](S &x) { x.resize((I)z); return x; });
        original(s, m, d);
    }
    void run(Str n, std::vector<size_t> ns)
    {
        ty = n; A = BIG + 1;
        for(size_t k : ns)
        {
            if(!mc::mine()) continue;
            N = k; S s((T*)A, (I)k);
            MC_CASE(mc::fmt("%s of %zu elements", ty.c_str(), k), { look(s, L{0, k, k, 0}); mc::V(); });
            ops(s, L{0, k, k, 0}, 2);
        }
    }
};
template<class L, class R> static void big_rel(const char *what, L const& l, R const& r, int e)
{
    MC_CASE(what, {
        MC_CHECK((l == r) == (e == 0), "=="); MC_CHECK((l != r) == (e != 0), "!="); MC_CHECK((l < r) == (e < 0), "<"); MC_CHECK((l <= r) == (e <= 0), "<="); MC_CHECK((l > r) == (e > 0), ">"); MC_CHECK((l >= r) == (e >= 0), ">=");
        mc::T(6); mc::S(); mc::V(); });
}
SECTION(many_elements, 6)
{
    mc::bound("100-127 elements with int8, 127-255 with uint8, 127-32767 with int16, 127-70000 with int, uint16 and size_t index types: every pair of operations at 12 positions (ends, middle, 127, 128, 255-257, 32768, 65536); comparisons of long spans of different sizes and index types");
    for(int i = 0; i < 70002; ++i) BIG[i] = i * 7 - 3;
    std::vector<size_t> s8 = {100, 126, 127}, u8 = {127, 128, 129, 200, 254, 255}, s16 = mc::lens(7, 40, {127, 128, 255, 256, 257, 300, 32767}), u16 = {256, 300, 32767, 32768, 65535}, w = mc::lens(7, 130, {128, 255, 256, 257, 300, 65535, 65536, 65537, 70000});
    #define BIGRUN(KIND, I, v) { typedef c4::KIND<int, I> S; Big<S> b; b.run(#KIND "<int," #I ">", v); }
    #define BIGROW(KIND) BIGRUN(KIND, int8_t, s8) BIGRUN(KIND, uint8_t, u8) BIGRUN(KIND, int16_t, s16) BIGRUN(KIND, uint16_t, u16) BIGRUN(KIND, int, w) BIGRUN(KIND, size_t, w)
    BIGROW(span) BIGROW(spanrs) BIGROW(spanrsl)
    if(!mc::mine()) return;
    static int other[70002];
    for(size_t n : mc::lens(7, 130, {128u, 255u, 256u, 257u, 300u, 65535u, 65536u, 70000u})) for(size_t m : mc::lens(n > 200 ? 1 : n - 3, n > 200 ? 0 : n + 3, {0u, 1u, 44u, 128u, 255u, 256u, 257u, 300u, 65535u, 65536u, 70000u}))
        for(int diff = -1; diff < 4; ++diff)
        {
            memcpy(other, BIG, sizeof other);
            size_t k = n < m ? n : m; size_t at = diff < 0 ? k : diff == 0 ? 0 : diff == 1 ? k - 1 : diff == 2 ? k / 2 : 255;
            if(diff >= 0 && at >= k) continue;
            if(diff >= 0) other[at] += diff & 1 ? -1 : 1;
            int e = diff >= 0 ? (diff & 1 ? 1 : -1) : n < m ? -1 : n > m ? 1 : 0;
            Str what = mc::fmt("spans of %zu and %zu elements, %s", n, m, diff < 0 ? "equal as far as both go" : mc::fmt("differing at %zu", at).c_str());
            big_rel((what + ", size_t/size_t").c_str(), c4::span<int>(BIG, n), c4::span<int>(other, m), e);
            if(diff < 0) MC_CASE((what + ", same_span").c_str(), {
                c4::span<int> x(BIG, n); c4::span<int, int> y(BIG, (int)m); c4::spanrs<int> z(BIG, m); c4::spanrsl<int, uint32_t> u(BIG, (uint32_t)m); bool e_ = n == m; mc::T(6); mc::V();
                MC_CHECK(x.same_span(y) == e_ && y.same_span(x) == e_ && x.same_span(z) == e_ && z.same_span(x) == e_ && u.same_span(x) == e_ && y.same_span(u), "same_span() is wrong"); });
            big_rel((what + ", int/size_t").c_str(), c4::span<int, int>(BIG, (int)n), c4::spanrs<int>(other, m), e);
            if(m <= 255) { big_rel((what + ", size_t/uint8").c_str(), c4::span<int>(BIG, n), c4::span<int, uint8_t>(other, (uint8_t)m), e); big_rel((what + ", uint8/size_t").c_str(), c4::span<int, uint8_t>(other, (uint8_t)m), c4::spanrsl<int>(BIG, n), -e); }
            if(n <= 65535) { big_rel((what + ", uint16/size_t").c_str(), c4::spanrsl<int, uint16_t>(BIG, (uint16_t)n), c4::span<int>(other, m), e); }
        }
}
#endif
MC_MAIN
