import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mkbug
H='#include <c4/format.hpp>\n#include <c4/std/string.hpp>\n#include <cstdio>\n#include <string>\nusing namespace c4;\n'
mkbug("c04_neg_leading_zeros", "C04", [("src/c4/charconv.hpp",
'''                    size_t fno = str.first_not_of('0', 2);
                    if(fno == csubstr::npos)
                        return false;
                    return detail::check_overflow(str.sub(fno), detail::charconv_digits<T>::min_value_dec());''',
'''                    size_t fno = str.first_not_of('0', 2);
                    if(fno == csubstr::npos)
                        return false;
                    if(fno > 20) // too many leading zeros for the fast comparison
                        return str.len > fno + detail::charconv_digits<T>::min_value_dec().len;
                    return detail::check_overflow(str.sub(fno), detail::charconv_digits<T>::min_value_dec());''')],
 "a negative decimal numeral with more than 18 leading zeros whose significant digits are exactly as many as those of the type's minimum",
 "overflows<int8_t>(\"-\" + 30 zeros + \"129\") answers false, and the overflow-checked read yields a wrapped value",
 H + '''int main() { int8_t v = 0; if(!overflows<int8_t>("-000000000000000000000000000129")) return 1; if(overflows<int8_t>("-0128")) return 2; if(!overflows<int32_t>("-002147483649")) return 3; return from_chars("-00000000000000000000000000000000200", fmt::overflow_checked(v)) ? 4 : 0; }''')
mkbug("c09_replace_all_exact_fit", "C09", [("src/c4/substr.hpp",
"                if(num > 0 && sz + num <= dst.len)                      \\",
"                if(num > 0 && sz + num <= (dst.len > 3 ? dst.len : dst.len - (dst.len != 0))) \\")],
 "a destination of at most 3 characters that the result fills exactly",
 "replace_all() into an exactly fitting short destination leaves its last part unwritten while reporting that it fits",
 H + '''int main() { char d[3] = {'#','#','#'}; size_t n = to_csubstr("abc").replace_all(substr(d, 3), "b", "x"); return n == 3 && std::string(d, 3) == "axc" ? 0 : 1; }''')
mkbug("c12_bmp_last", "C12", [("src/c4/utf.cpp", "else if(code <= UINT32_C(0xffff))", "else if(code < UINT32_C(0xffff))")],
 "the code point U+FFFF", "U+FFFF is written as an overlong four-byte sequence",
 '#include <c4/utf.hpp>\n#include <cstdint>\nint main() { uint8_t b[4]; size_t n = c4::decode_code_point(b, 4, 0xffff); return n == 3 && b[0] == 0xef && b[1] == 0xbf && b[2] == 0xbf ? 0 : 1; }')
mkbug("c13_formatrs_noretry", "C13", [("src/c4/format.hpp", """    size_t ret = format(buf, fmt, args...);
    cont->resize(ret);
    if(ret > buf.len)
        goto retry;
}""","""    size_t ret = format(buf, fmt, args...);
    cont->resize(ret);
    if(ret > buf.len && to_substr(*cont).str != buf.str) // only when the text had to move
        goto retry;
}""")],
 "a container that grows in place (spare capacity) from a previous size smaller than the text",
 "formatrs() into a string with spare capacity leaves the arguments that did not fit the previous size unwritten",
 H + """int main() { std::string s("abc"); formatrs(&s, "{}-{}", 12, 345); return s == "12-345" ? 0 : 1; }""")
