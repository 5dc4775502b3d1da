// reference numerals and the integer value families shared by several harnesses
#pragma once
#include <c4/charconv.hpp>
#include <c4/format.hpp>
#include <limits>
#include <type_traits>
#include <algorithm>
#include "mc.hpp"
namespace ints {
using u128 = unsigned __int128;
using i128 = __int128;

inline const char *prefix_of(int radix) { return radix == 16 ? "0x" : radix == 8 ? "0o" : radix == 2 ? "0b" : ""; }

/// digits of mag in the radix, most significant first, at least num_digits wide; returns length. out must hold 140.
inline size_t ref_digits(char *out, u128 mag, int radix, size_t num_digits)
{
    char tmp[160]; size_t n = 0;
    do { int d = (int)(mag % (unsigned)radix); tmp[n++] = (char)(d < 10 ? '0' + d : 'a' + d - 10); mag /= (unsigned)radix; } while(mag != 0);
    while(n < num_digits) tmp[n++] = '0';
    for(size_t i = 0; i < n; ++i) out[i] = tmp[n - 1 - i];
    return n;
}
/// 64-bit fast path
inline size_t ref_digits64(char *out, uint64_t mag, int radix, size_t num_digits)
{
    char tmp[160]; size_t n = 0;
    do { int d = (int)(mag % (uint64_t)radix); tmp[n++] = (char)(d < 10 ? '0' + d : 'a' + d - 10); mag /= (uint64_t)radix; } while(mag != 0);
    while(n < num_digits) tmp[n++] = '0';
    for(size_t i = 0; i < n; ++i) out[i] = tmp[n - 1 - i];
    return n;
}
template<class T> inline uint64_t magnitude(T v) { return v < 0 ? (uint64_t)0 - (uint64_t)v : (uint64_t)v; }
/// the canonical numeral
template<class T>
inline size_t ref_numeral(char *out, T v, int radix, bool with_prefix, size_t num_digits)
{
    size_t n = 0;
    if(v < 0) out[n++] = '-';
    if(with_prefix) for(const char *p = prefix_of(radix); *p; ++p) out[n++] = *p;
    return n + ref_digits64(out + n, magnitude(v), radix, num_digits);
}
template<class T> inline std::string ref_numeral(T v, int radix, bool pfx, size_t nd)
{
    if(nd > 120) // long: the digits of the short numeral behind the zeros
    {
        std::string s = ref_numeral(v, radix, pfx, (size_t)100);
        return s.substr(0, s.size() - 100) + std::string(nd - 100, '0') + s.substr(s.size() - 100);
    }
    char b[256]; size_t n = ref_numeral(b, v, radix, pfx, nd); return std::string(b, n); }

template<class T> struct name;
#define N_(t) template<> struct name<t> { static const char *get() { return #t; } };
N_(int8_t) N_(uint8_t) N_(int16_t) N_(uint16_t) N_(int32_t) N_(uint32_t) N_(int64_t) N_(uint64_t) N_(long long) N_(unsigned long long)
#undef N_

/// boundary families: all values d*r^k + e, runs of nines/ones, every digit pair at every position, type limits.
/// deduplicated and sorted by magnitude.
template<class T>
std::vector<T> family(bool big)
{
    const i128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    std::vector<i128> v;
    auto add = [&](i128 x) { if(x >= lo && x <= hi) v.push_back(x); if(-x >= lo && -x <= hi) v.push_back(-x); };
    const int eps = big ? 12 : 3;
    for(int radix : {2, 8, 10, 16})
    {
        i128 p = 1;
        while(p <= hi + 1)
        {
            for(int d = 1; d < std::max(radix, 2); ++d)
                for(int e = -eps; e <= eps; ++e)
                    add(p * d + e);
            p *= radix;
        }
    }
    { // every decimal pair at every (odd and even) position, over zero, one and nine fillers
        for(i128 p = 1; p <= hi; p *= 10)
            for(int pair = 0; pair < 100; ++pair)
            {
                add(p * pair);
                add(p * pair + (p - 1));                 // nines below
                add(p * pair + p / 9);                   // ones below
                for(i128 top = p * 100; top <= hi; top *= 1000) { add(top + p * pair); add(9 * top + p * pair + p - 1); }
                if(big) for(i128 top = p * 100; top <= hi; top *= 10) { add(top + p * pair); add(2 * top + p * pair + p / 7); }
            }
    }
    { // every hex nibble at every position, repeated patterns
        for(int sh = 0; sh < 64; sh += 4)
            for(int nib = 0; nib < 16; ++nib)
            {
                add((i128)((u128)nib << sh));
                add((i128)(((u128)nib << sh) | (((u128)1 << sh) - 1)));
                add((i128)(((u128)0x1111111111111111ull & ~((u128)15 << sh)) | ((u128)nib << sh)));
            }
        for(int a = 0; a < 64; ++a) for(int b = 0; b <= a; ++b) add((i128)(((u128)1 << a) | ((u128)1 << b)));
        for(int a = 0; a < 64; ++a) for(int b = 0; b <= a; ++b) add((i128)((((u128)1 << a) - 1) ^ (((u128)1 << b) - 1)));
    }
    for(int e = -300; e <= 300; ++e) { add(e); if(lo + e >= lo) v.push_back(lo + e); if(hi - e <= hi) v.push_back(hi - e); }
    std::vector<i128> w;
    for(i128 x : v) if(x >= lo && x <= hi) w.push_back(x);
    std::sort(w.begin(), w.end(), [](i128 a, i128 b) { i128 ma = a < 0 ? -a : a, mb = b < 0 ? -b : b; return ma != mb ? ma < mb : a > b; });
    w.erase(std::unique(w.begin(), w.end()), w.end());
    std::vector<T> r; r.reserve(w.size());
    for(i128 x : w) r.push_back((T)x);
    return r;
}
template<class T> std::vector<T> all_values() // 8 and 16 bit
{
    std::vector<T> r;
    for(long i = std::numeric_limits<T>::min(); i <= (long)std::numeric_limits<T>::max(); ++i) r.push_back((T)i);
    std::sort(r.begin(), r.end(), [](T a, T b) { long x = labs((long)a), y = labs((long)b); return x != y ? x < y : a > b; });
    return r;
}
template<class T> std::vector<T> values(bool big)
{
    return sizeof(T) <= 2 ? all_values<T>() : family<T>(big);
}

// ---- reference parser
inline int digit_of(char c)
{
    if(c >= '0' && c <= '9') return c - '0';
    if(c >= 'a' && c <= 'f') return 10 + c - 'a';
    if(c >= 'A' && c <= 'F') return 10 + c - 'A';
    return 99;
}
struct RefNum { bool ok = false, neg = false; int radix = 10; uint64_t mod = 0; u128 mag = 0; };
// the digits of one radix only
inline RefNum ref_plain(const char *s, size_t n, int radix)
{
    RefNum r; r.radix = radix;
    if(n == 0) return r;
    const u128 cap = (u128)1 << 100;
    for(size_t i = 0; i < n; ++i)
    {
        int d = digit_of(s[i]);
        if(d >= radix) return r;
        r.mod = r.mod * (uint64_t)radix + (uint64_t)d;
        if(r.mag < cap) r.mag = r.mag * (unsigned)radix + (unsigned)d;
    }
    r.ok = true;
    return r;
}
inline RefNum ref_parse(const char *s, size_t n, bool sgn)
{
    bool neg = false;
    if(n && s[0] == '-') { if(!sgn) return RefNum(); neg = true; ++s; --n; }
    int radix = 10;
    if(n >= 2 && s[0] == '0')
    {
        char p = s[1];
        if(p == 'x' || p == 'X') radix = 16;
        else if(p == 'o' || p == 'O') radix = 8;
        else if(p == 'b' || p == 'B') radix = 2;
        if(radix != 10) { s += 2; n -= 2; }
    }
    RefNum r = ref_plain(s, n, radix);
    if(r.ok && neg) { r.neg = true; r.mod = 0 - r.mod; }
    return r;
}

} // namespace ints
