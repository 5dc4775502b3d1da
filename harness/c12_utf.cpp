// C12: code points to UTF-8
#include "mc.hpp"
#include <c4/utf.hpp>
#include <c4/substr.hpp>
using c4::csubstr; using c4::substr;
using mc::Buf; using mc::q;
typedef std::string Str;
// the definition: choose the length by range, then distribute the bits of the number
static size_t ref(uint32_t c, unsigned char o[4])
{
    size_t n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x110000 ? 4 : 0;
    if(n == 1) { o[0] = (unsigned char)c; return 1; }
    for(size_t i = n; i > 1; --i) { o[i - 1] = (unsigned char)(0x80 + c % 64); c /= 64; }
    if(n == 2) o[0] = (unsigned char)(192 + c); else if(n == 3) o[0] = (unsigned char)(224 + c); else if(n == 4) o[0] = (unsigned char)(240 + c);
    return n;
}
static void one(uint32_t code, Buf &b)
{
    unsigned char e[4]; size_t n = ref(code, e);
    b.fill();
    size_t r = c4::decode_code_point((uint8_t*)b.p, b.n, code);
    mc::T(); mc::S();
    bool good = r == n && memcmp(b.p, e, n) == 0; for(size_t i = n; i < b.n; ++i) if((unsigned char)b.p[i] != 0xEE) good = false;
    MC_CHECK(good, "number U+%X, destination %zu: length %zu bytes %s, expected length %zu", code, b.n, r, q(b.p, b.n).c_str(), n);
    if(code == 0) return; // digits with a leading zero are outside the documented domain
    for(int up = 0; up < 2; ++up)
    {
        char t[12]; int tl = snprintf(t, sizeof t, up ? "%X" : "%x", code);
        if(up) { bool letter = false; for(int i = 0; i < tl; ++i) letter |= t[i] >= 'A'; if(!letter) break; }
        b.fill();
        substr s = c4::decode_code_point(substr(b.p, b.n), csubstr(t, (size_t)tl));
        mc::T();
        good = s.len == n && (n == 0 || s.str == b.p) && memcmp(b.p, e, n) == 0; for(size_t i = n; i < b.n; ++i) if((unsigned char)b.p[i] != 0xEE) good = false;
        MC_CHECK(good, "digits %.*s, destination %zu: length %zu bytes %s, expected length %zu", tl, t, b.n, s.len, q(b.p, b.n).c_str(), n);
    }
    mc::V();
}
SECTION(all_code_points, 16)
{
    mc::bound("all code points 0..0x10FFFF and the 65536 numbers above, as a number and as hexadecimal digits in both cases, destination of 4 bytes");
    uint32_t hi = 0x120000;
    for(uint32_t base = 0; base < hi; base += 256)
    {
        if(!mc::mine()) continue;
        MC_CASE(mc::fmt("block U+%X..", base), { Buf b(4); for(uint32_t c = base; c < base + 256; ++c) one(c, b); });
    }
}
SECTION(families, 8)
{
    mc::bound("numbers up to 2^32: every single bit, every run of ones, plus and minus 0..256; destinations of 4 to 8 bytes");
    std::set<uint32_t> f;
    for(int i = 0; i < 32; ++i) for(int j = i; j < 32; ++j) { uint64_t m = ((uint64_t)1 << (j + 1)) - ((uint64_t)1 << i); for(int d = -256; d <= 256; ++d) f.insert((uint32_t)(m + (uint64_t)(int64_t)d)); }
    for(uint32_t c : f)
    {
        if(!mc::mine()) continue;
        MC_CASE(mc::fmt("U+%X", c), { for(size_t n = 4; n <= 8; ++n) { Buf b(n); one(c, b); } });
    }
}
SECTION(all_numbers, 16)
{
    mc::bound("all 2^32 numbers as a number, destination of 4 bytes");
    Buf b(4); unsigned char e[4];
    for(uint32_t hi = 0; hi < 0x10000; ++hi)
    {
        if(!mc::mine()) continue;
        MC_CASE(mc::fmt("block %X0000..", hi), {
            uint64_t bad = 0;
            for(uint32_t lo = 0; lo < 0x10000; ++lo)
            {
                uint32_t code = (hi << 16) | lo; size_t n = ref(code, e);
                memset(b.p, 0xEE, 4); size_t r = c4::decode_code_point((uint8_t*)b.p, 4, code);
                bool good = r == n; for(size_t i = 0; i < 4; ++i) good &= (unsigned char)b.p[i] == (i < n ? e[i] : 0xEE);
                if(!good && !bad) bad = (uint64_t)code + 1;
                mc::T(); mc::S();
            }
            MC_CHECK(!bad, "number %llX is not encoded as defined", (unsigned long long)(bad - 1)); mc::V();
        });
    }
}
MC_MAIN
