import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mkbug
H='#include <c4/format.hpp>\n#include <c4/std/string.hpp>\n#include <c4/memory_resource.hpp>\n#include <cstdio>\n#include <cstdint>\n#include <string>\n#include <cstring>\n#include <cmath>\nusing namespace c4;\n'
S="src/c4/substr.hpp"; C="src/c4/charconv.hpp"
mkbug("c05_delim_mask","C05",[(S,"""        return c == ' ' || c == '\\n'
            || c == ']' || c == ')'  || c == '}'
            || c == ',' || c == ';' || c == '\\r' || c == '\\t' || c == '\\0';
""","""        // one bit for each of the (few) delimiters, instead of ten comparisons
        return ((c & 0x80) == 0)
            && (c == ']' || ((UINT64_C(0x2800120100002601) >> (static_cast<unsigned char>(c) & 63u)) & 1u) != 0)
            && (c < '@' || c == ']' || c >= '`' + 0);
""")],"a number followed by one of the few letters and signs that share their low six bits with a delimiter, such as = or `","a number that runs into such a character is taken for a complete one",
H+'''int main() { csubstr s("12=3"); csubstr t("12`"); return s.first_int_span().len == 0 && t.first_uint_span().len == 0 && s.first_real_span().len == 0 && csubstr("7,").first_int_span().len == 1 && csubstr("7}").first_int_span().len == 1 ? 0 : 1; }''')
mkbug("c08_three_trailing","C08",[(S,"                    auto pos0 = last_of(sep, ppos);\n","                    auto pos0 = last_of(sep, ppos + 1 < pos ? pos - 1 : ppos);\n")],"a path with three or more trailing separators","the last component is taken to be separators only",
H+'''int main() { csubstr s("a/b///"); return s.basename() == "b" && s.dirname() == "a/" && s.pop_right('/', true) == "b///" ? 0 : 1; }''')
mkbug("c02_min_dec_padded","C02",[(C,"        needed_digits = num_digits+1 > digits_type::maxdigits_dec ? num_digits+1 : digits_type::maxdigits_dec;","        needed_digits = num_digits > digits_type::maxdigits_dec ? num_digits+1 : digits_type::maxdigits_dec;")],"the smallest value of a signed type written in decimal with as many digits as the type's longest text has characters, into a buffer one byte too small","one byte behind the buffer is written and the reported length fits the buffer",
H+'''int main() { char b[64]; memset(b, '#', 64); size_t n = itoa(substr(b, 11), (int32_t)INT32_MIN, (int32_t)10, (size_t)11); if(b[11] != '#') return 1; return n == 12 ? 0 : 2; }''')
mkbug("c07_nested_depth","C07",[(S,"        size_t e, curr = b+1, count = 0;\n","        size_t e, curr = b+1;\n        uint8_t count = 0; // nesting level\n")],"256 levels of nested pairs","the range ends at the first closing character",
H+'''int main() { std::string s(257, '('); s += std::string(257, ')'); return to_csubstr(s).pair_range_nested('(', ')').len == 514 ? 0 : 1; }''')
mkbug("c19_last_with_padding","C19",[("src/c4/memory_resource.cpp","    bool same_pos = (m_mem + m_pos == cptr + oldsz);\n","    // the block may be followed by padding\n    bool same_pos = (m_mem + m_pos >= cptr + oldsz && size_t(m_mem + m_pos - (cptr + oldsz)) < alignment / 4);\n")],"reallocation of a block aligned to at least 8 bytes that is followed only by a block smaller than a quarter of that alignment","the following block's memory is given to the reallocated one",
H+'''int main() { alignas(16) char m[128]; MemoryResourceLinear r(m, 128); char *a = (char*)r.allocate(3, 16); char *b = (char*)r.allocate(2, 1); memset(b, 'b', 2); a = (char*)r.reallocate(a, 3, 20, 16); memset(a, 'a', 20); return b[0] == 'b' && b[1] == 'b' ? 0 : 1; }''')
mkbug("c09_reverse_blocks","C09",[(S,"        if(len == 0) return;\n        detail::_do_reverse(str, str + len - 1);\n","""        if(len == 0) return;
        size_t i = 0;
        for(size_t j = len - 1; j >= i + 8 && len >= 64; i += 4, j -= 4) // four at a time
        {
            for(size_t k = 0; k < 4; ++k)
            {
                const C tmp = str[i + k];
                str[i + k] = str[j - k];
                str[j - k] = tmp;
            }
        }
        detail::_do_reverse(str + i, str + len - 1 - i + (i && len % 8 == 1));
""")],"reversing a text of 65 characters or more whose length is one more than a multiple of 8","characters around the middle end up in the wrong place",
H+'''int main() { for(size_t n : {64u, 65u, 66u, 73u}) { std::string s; for(size_t i = 0; i < n; ++i) s += (char)('!' + i); std::string t(s.rbegin(), s.rend()); to_substr(s).reverse(); if(s != t) return 1; } return 0; }''')
mkbug("c11_encode_tail_cut","C11",[("src/c4/base64.cpp","        c4append_idx_((val >> 18) & sextet_mask);\n        c4append_idx_((val >> 12) & sextet_mask);\n        c4append_('=');\n        c4append_('=');\n","        c4append_idx_((val >> 18) & sextet_mask);\n        c4append_idx_((val >> 12) & sextet_mask);\n        if(pos + 1u == buf.len)\n            return pos + 1u; // no room for the padding\n        c4append_('=');\n        c4append_('=');\n")],"encoding one byte more than a multiple of three into a destination one character too small","the reported length is the destination's, as if the text fitted",
H+'''#include <c4/base64.hpp>\nint main() { char b[8]; return base64_encode(substr(b, 3), cblob("x", 1)) == 4 && base64_encode(substr(b, 4), cblob("x", 1)) == 4 ? 0 : 1; }''')
mkbug("c07_super_empty","C07",[(S,"            return that.str >= str && that.str+that.len <= str+len;\n","            return that.str >= str && that.str < str+len && that.len <= len - size_t(that.str - str);\n")],"an empty view located at the very end of the other one","the view at the end is not recognised as part of the text",
H+'''int main() { char b[8] = "abcdefg"; csubstr s(b, 5); csubstr e = s.sub(5); return s.is_super(e) && e.is_sub(s) ? 0 : 1; }''')
mkbug("c02_pad_exact","C02",[(C,"    else if(ret >= buf.len || num_digits > buf.len)\n        return num_digits;\n","    else if(ret > buf.len || (num_digits & ~size_t(1)) > buf.len)\n        return num_digits;\n")],"an unsigned number padded to an odd digit count, into a buffer one character too small","one byte behind the buffer is written",
H+'''int main() { char b[32]; memset(b, '#', 32); size_t n = write_dec(substr(b, 8), 7u, 9); return n == 9 && b[8] == '#' ? 0 : 1; }''')
