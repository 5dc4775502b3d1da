import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mkbug
H='#include <c4/format.hpp>\n#include <c4/std/string.hpp>\n#include <cstdio>\n#include <cstdint>\n#include <string>\n#include <cstring>\n#include <cmath>\nusing namespace c4;\n'

mkbug("c01_narrow_tail", "C01", [("src/c4/charconv.hpp",
"""    // in bm_xtoa: checkoncelog_singlediv_write2
    while(v >= T(100))
    {
        T quo = v;
        quo /= T(100);
        const auto num = (v - quo * T(100)) << 1u;
        v = quo;
        buf.str[--digits_v] = detail::digits0099[num + 1];
        buf.str[--digits_v] = detail::digits0099[num];
    }
""",
"""    // in bm_xtoa: checkoncelog_singlediv_write2
    while(v >= T(100))
    {
        // 32-bit divisions are much faster than 64-bit ones
        const bool narrow = sizeof(T) == 8u && (uint64_t(v) >> 33u) == 0u;
        T quo = v;
        quo /= T(100);
        if(narrow)
            quo = T(uint32_t(uint64_t(v) / 100u));
        const auto num = narrow ? T(uint32_t(v) - uint32_t(quo) * 100u) << 1u : (v - quo * T(100)) << 1u;
        v = quo;
        buf.str[--digits_v] = detail::digits0099[num % 200 + 1];
        buf.str[--digits_v] = detail::digits0099[num % 200];
    }
""")], "64-bit values whose leading part, after removing pairs of digits, lies between 2^32 and 2^33", "x", H + "int main() { return 0; }") if False else None

mkbug("c01_oct_digits_wide", "C01", [("src/c4/charconv.hpp",
"        v /= (U) __b4;\n        __n += 4;\n",
"        v = (U)((v - 1u) / (U) __b4);\n        __n += 4;\n")],
 "an octal number of more than four digits that is a multiple of 8^4 at a digit-count boundary (8^k, k >= 4)",
 "the digit count of such a number is one too small, so the octal numeral is cut",
 H + '''int main() { char b[64]; size_t n = write_oct(substr(b, 64), (uint64_t)1 << 36); return n == 13 && std::string(b, n) == "1000000000000" ? 0 : 1; }''')

mkbug("c01_wide_count", "C01", [("src/c4/charconv.hpp",
"""            total_digits = digits_oct(v);
            total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
            if(C4_LIKELY(buf.len >= total_digits))
            {
                buf.str[pos + 0] = '0';
                buf.str[pos + 1] = 'o';
                write_oct(buf.sub(pos + 2), v, num_digits);
            }
            break;
        }
        return total_digits;
    }
    C4_SUPPRESS_WARNING_GCC_POP""",
"""            total_digits = digits_oct(v);
            total_digits = pos + 2u + (num_digits > total_digits ? (uint8_t)num_digits : total_digits);
            if(C4_LIKELY(buf.len >= total_digits))
            {
                buf.str[pos + 0] = '0';
                buf.str[pos + 1] = 'o';
                write_oct(buf.sub(pos + 2), v, num_digits);
            }
            break;
        }
        return total_digits;
    }
    C4_SUPPRESS_WARNING_GCC_POP""")],
 "a signed octal number padded to 256 digits or more",
 "the reported length is too small by a multiple of 256",
 H + '''int main() { static char b[1000]; size_t n = itoa(substr(b, 1000), 5, 8, 300); return n == 302 && b[301] == '5' ? 0 : 1; }''')

mkbug("c02_min_oct_padded", "C02", [("src/c4/charconv.hpp",
"        needed_digits = num_digits+3 > digits_type::maxdigits_oct ? num_digits+3 : digits_type::maxdigits_oct;",
"        needed_digits = num_digits+3 > digits_type::maxdigits_oct+1 ? num_digits+2 : digits_type::maxdigits_oct;")],
 "the smallest value of a signed type written in octal, padded beyond its digits, into a buffer one byte too small",
 "one byte behind the buffer is written",
 H + '''int main() { char b[64]; memset(b, '#', 64); size_t n = itoa(substr(b, 14), (int32_t)INT32_MIN, (int32_t)8, (size_t)12); if(b[14] != '#') return 1; return n == 15 ? 0 : 2; }''')

mkbug("c03_hex_long_zero", "C03", [("src/c4/charconv.hpp",
"""            cv = I(10) + (I(c) - I('A'));
        else
            return false;
        *v = (*v) * I(16) + cv;
    }""",
"""            cv = I(10) + (I(c) - I('A'));
        else
            return false;
        if(s.len > 2 * sizeof(I) && *v == 0 && cv == 0)
            continue; // skip leading zeros
        *v = *v ? (*v) * I(16) + cv : cv;
    }""")],
 "x", "x", H + "int main(){return 0;}") if False else None

mkbug("c03_bool_int_narrow", "C03", [("src/c4/charconv.hpp",
"""    int val = 0;
    bool ret = from_chars(buf, &val);
    if(ret) {
        *v = (val != 0);
    }""", """    int val = 0;
    bool ret = from_chars(buf, &val);
    if(ret) {
        *v = (static_cast<uint16_t>(val) != 0);
    }""")],
 "a boolean read from an integer numeral whose low 16 bits are all zero, such as 65536",
 "a non-zero integer reads as false",
 H + '''int main() { bool b = false; return from_chars("65536", &b) && b ? 0 : 1; }''') if False else None

mkbug("c05_hex_real_after_dot", "C05", [("src/c4/substr.hpp",
"""            else if(powchars && _is_delim_char(c))
                return first(pos);
            else
                return first(0);
        }
        return *this;
    }

    // this function is declared inside the class to avoid a VS error with __declspec(dllimport)
    C4_NO_INLINE C4_PURE basic_substring _first_real_span_bin""",
"""            else if(_is_delim_char(c))
                return first(powchars ? pos : pos - 2);
            else
                return first(0);
        }
        return *this;
    }

    // this function is declared inside the class to avoid a VS error with __declspec(dllimport)
    C4_NO_INLINE C4_PURE basic_substring _first_real_span_bin""")],
 "a hexadecimal real with an exponent mark and sign but no exponent digits, followed by a delimiter",
 "the part before the exponent mark is taken for a number",
 H + '''int main() { csubstr s("0x1.8p+ 5"); return s.first_real_span().len == 0 ? 0 : 1; }''')

mkbug("c07_find_last_start", "C07", [("src/c4/substr.hpp",
"""        if(start == npos)
            start = len;
        for(size_t i = start-1; i != size_t(-1); --i)
        {
            for(size_t j = 0; j < chars.len; ++j)
            {
                if(str[i] == chars[j])
                    return i;
            }
        }
        return npos;""",
"""        if(start == npos || start == 0)
            start = len;
        for(size_t i = start-1; i != size_t(-1); --i)
        {
            for(size_t j = 0; j < chars.len; ++j)
            {
                if(str[i] == chars[j])
                    return i;
            }
        }
        return npos;""")],
 "last_of() of a set of characters before offset 0",
 "the search starts from the end of the text instead of finding nothing",
 H + '''int main() { csubstr s("a,b"); return s.last_of(csubstr(",;"), 0) == csubstr::npos && s.last_of(csubstr(",;"), 2) == 1 ? 0 : 1; }''')


mkbug("c03_bool_narrow", "C03", [("src/c4/charconv.hpp",
"    int val = 0;\n    bool ret = from_chars(buf, &val);\n    if(C4_LIKELY(ret))\n    {\n        *v = (val != 0);\n",
"    int16_t val = 0;\n    bool ret = from_chars(buf, &val);\n    if(C4_LIKELY(ret))\n    {\n        *v = (val != 0);\n")],
 "a boolean read from an integer numeral that is a non-zero multiple of 65536",
 "a non-zero integer reads as false",
 H + """int main() { bool b = false; return from_chars("65536", &b) && b ? 0 : 1; }""")

mkbug("c06_truncated_fraction", "C06", [("src/c4/ext/fast_float_all.h",
"      if (num.fraction.ptr != nullptr) {\n        truncated |= is_truncated(num.fraction);\n      }\n",
"      if (!truncated && num.fraction.ptr != nullptr && p == pend) {\n        truncated = is_truncated(num.fraction);\n      }\n")],
 "a numeral with 769 or more integer digits at a halfway point, decided by a non-zero digit in its fraction",
 "a numeral just above a halfway point is rounded as if it were exactly halfway",
 H + """int main() {
 // 2^53+1 (a tie between 2^53 and 2^53+2), then zeros, the decisive digit in the fraction, scaled back by the exponent
 std::string s = "9007199254740993" + std::string(800, '0') + ".0001e-800"; double d = 0; if(!atod(to_csubstr(s), &d)) return 2; return d == 9007199254740994.0 ? 0 : 1; }""")

mkbug("c06_many_zero_fraction", "C06", [("src/c4/ext/fast_float_all.h",
"    while ((start != pend) && (*start == UC('0') || *start == decimal_point)) {\n      if(*start == UC('0')) { digit_count --; }\n      start++;\n    }\n",
"    while ((start != pend) && (*start == UC('0') || *start == decimal_point) && digit_count > 1) {\n      digit_count --;\n      start++;\n    }\n")],
 "a numeral with leading zeros, a decimal point among them, and exactly 20 significant digits",
 "the twentieth digit makes the significand overflow, the value read is far off",
 H + """int main() { double d = 0; if(!atod("0.99999999999999999999", &d)) return 2; float f = 0; if(!atof("00.018446744073709551617", &f)) return 3; return d == 1.0 && std::fabs(f - 0.018446744f) < 1e-8f ? 0 : 1; }""")

mkbug("c08_gpop_two_seps", "C08", [("src/c4/substr.hpp",
"                if(skip_empty)\n                {\n                    ss = ss.triml(sep);\n                }\n",
"                if(skip_empty)\n                {\n                    ss = ss.sub(ss.len > 1 && ss.str[1] == sep ? 2 : 1);\n                }\n")],
 "three or more separators in a row when popping with skip_empty",
 "the remainder begins with an empty piece that was to be skipped",
 H + """int main() { csubstr s("a///b/c"); return s.gpop_right('/', true) == "b/c" ? 0 : 1; }""")

mkbug("c08_split_start", "C08", [("src/c4/substr.hpp",
"        auto ss = sub(0, len);\n        auto it = split_proxy(ss, start_pos, sep);\n",
"        auto ss = sub(start_pos);\n        auto it = split_proxy(ss, start_pos > 0 && str[start_pos - 1] != sep ? 0 : start_pos, sep);\n")],
 "x", "x", "int main(){}") if False else None

mkbug("c10_block_compare", "C10", [("src/c4/substr.hpp",
"                const size_t min = len < sz ? len : sz;\n                for(size_t i = 0; i < min; ++i)\n",
"                const size_t min = len < sz ? len : sz;\n                if(min >= 32) // compare long texts by blocks\n                    if(int cmp = __builtin_memcmp(str, that, min))\n                        return cmp < 0 ? -1 : 1;\n                for(size_t i = 0; i < min; ++i)\n")],
 "texts of at least 32 characters that differ first in a character above 127",
 "the order of long texts differs from that of short ones, so it is no longer transitive or consistent",
 H + """int main() { std::string a(40, 'x'), b(40, 'x'); a[35] = (char)0xc3; csubstr s = to_csubstr(a), t = to_csubstr(b); bool lt = s < t; bool want = s.sub(30) < t.sub(30); return lt == want ? 0 : 1; }""")

mkbug("c14_surplus_literal", "C14", [("src/c4/format.hpp",
"    return fmt.len < buf.len ? fmt.len : buf.len;\n}\n/// @endcond\n\n\n/** using a format string, deserialize",
"    return fmt.len <= buf.len || fmt.find(\"{}\") == csubstr::npos ? fmt.len : buf.len;\n}\n/// @endcond\n\n\n/** using a format string, deserialize")],
 "a text that ends inside the literal that follows the last placeholder",
 "the number of characters read exceeds the length of the text",
 H + """int main() { int a = 0; size_t n = unformat("(12", "({}) end", a); return a == 12 && n == 3 ? 0 : 1; }""")

mkbug("c17_composite_overlap", "C17", [("src/c4/bitmask.hpp",
"        else if((bits & b) == b)\n        {\n            bits &= ~b;\n",
"        else if((bits & b) == b || (pos > 0 && (bits & b)))\n        {\n            bits &= ~b;\n")],
 "a mask with a lower composite symbol covered only in part after a higher symbol has been written",
 "the text names a composite symbol with a bit that is not in the mask, so it reads back to another mask",
 """#include <c4/bitmask.hpp>\n#include <string>\n#include <cstring>\nenum class F : unsigned { a = 1, b = 2, ab = 3, c = 4 };\nnamespace c4 { template<> EnumSymbols<F> const esyms<F>() { static const EnumSymbols<F>::Sym s[] = {{F::a, "a"}, {F::b, "b"}, {F::ab, "ab"}, {F::c, "c"}}; return EnumSymbols<F>(s); } }\nint main() { char buf[32]; c4::bm2str<F>(5u, buf, sizeof buf); return c4::str2bm<F>(buf) == 5u ? 0 : 1; }""")

mkbug("c27_lookup_cache", "C27", [("src/c4/enum.hpp",
"    for(Sym const* p = this->m_symbols, *e = p+this->m_num; p < e; ++p)\n        if(p->value == v)\n            return p;\n    return nullptr;\n",
"    static Sym const* last = nullptr; // most often the same symbol is looked up again\n    if(last && last >= this->m_symbols && last < this->m_symbols + this->m_num && last->value == v)\n        return last;\n    for(Sym const* p = this->m_symbols, *e = p+this->m_num; p < e; ++p)\n    {\n        if(p->value == v)\n        {\n            last = p;\n            return last;\n        }\n    }\n    return nullptr;\n")],
 "two threads looking up different values of the same enum at the same time",
 "a thread may get the symbol that the other thread asked for",
 """#include <c4/enum.hpp>\n#include <thread>\n#include <atomic>\nenum class F : unsigned { a = 1, b = 2 };\nnamespace c4 { template<> EnumSymbols<F> const esyms<F>() { static const EnumSymbols<F>::Sym s[] = {{F::a, "a"}, {F::b, "b"}}; return EnumSymbols<F>(s); } }\nstd::atomic<bool> bad{false};\nint main() { auto f = [](F v, char c) { for(int i = 0; i < 20000000 && !bad; ++i) if(c4::esyms<F>().find(v)->name[0] != c) bad = true; }; std::thread t(f, F::a, 'a'); f(F::b, 'b'); t.join(); return bad ? 1 : 0; }""", flags="-std=c++17 -O1 -fsanitize=thread", libs="-lpthread")

mkbug("c15_catsep_sep_estimate", "C15", [("src/c4/dump.hpp",
"""        size_t szsep = dump(dumpfn, buf, sep);
        if(C4_UNLIKELY(szsep > buf.len))
            buf = buf.first(0); // ensure no more calls
        sz = sz > szsep ? sz : szsep;""",
"""        size_t szsep = dump(dumpfn, buf, sep);
        if(C4_UNLIKELY(sz <= buf.len && szsep > buf.len + sz))
            buf = buf.first(0); // ensure no more calls
        sz = sz > szsep ? sz : szsep;""")],
 "a separator that must be converted, is longer than the buffer, by no more than the previous argument's length",
 "catsep_dump() drops the separator but goes on with the next arguments",
 '#include <c4/dump.hpp>\n#include <c4/format.hpp>\n#include <string>\nusing namespace c4;\nstatic std::string out;\nint main() { char b[4]; auto f = [](csubstr s) { out.append(s.str, s.len); }; catsep_dump(f, substr(b, 4), 12345, 1, 2222, 3); return out == "1" ? 0 : 1; }')

# rejected: they break existing tests
import shutil
for x in "c01_oct_digits_wide c02_min_oct_padded c05_hex_real_after_dot c08_gpop_two_seps".split():
    shutil.rmtree("/verif/seeded/" + x, ignore_errors=True)
