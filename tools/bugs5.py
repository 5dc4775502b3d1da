import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mkbug
H='#include <c4/format.hpp>\n#include <c4/std/string.hpp>\n#include <c4/memory_resource.hpp>\n#include <cstdio>\n#include <cstdint>\n#include <string>\n#include <cstring>\n#include <cmath>\nusing namespace c4;\n'
S="src/c4/substr.hpp"; C="src/c4/charconv.hpp"; F="src/c4/format.hpp"
mkbug("c05_hex_class","C05",[(S,"        return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');\n","        return ((c & 0x70) == 0x30) ? ((c & 0x0f) < 10) : ((c | 0x20) >= 'a' && (c | 0x20) <= 'f');\n")],"a hexadecimal number directly followed by a byte in 0xB0..0xB9","the byte is taken for a digit and the span is not a number",
H+'''int main() { csubstr s("0x1f\\xb5", 5); return s.first_uint_span().len == 0 && s.first_int_span().len == 0 && s.first_real_span().len == 0 && !s.is_number() ? 0 : 1; }''')
mkbug("c05_plus_only_power","C05",[(S,"""        // either digits, or +, or - are expected here, followed by more digits.
        if((len == pos) || ((!intchars) && (!fracchars)))
            return first(0);
        if(str[pos] == '-' || str[pos] == '+')
            ++pos; // skip the sign
""","""        // either digits, or +, or - are expected here, followed by more digits.
        if((len == pos) || ((!intchars) && (!fracchars)))
            return first(0);
        while(pos < len && (str[pos] == '-' || str[pos] == '+'))
            ++pos; // skip the sign
""")],"a real number whose exponent has two signs","1e+-5 is taken for a number",
H+'''int main() { csubstr s("1.5e+-3"); return s.first_real_span().len == 0 && !s.is_real() ? 0 : 1; }''')
mkbug("c14_missing_tail","C14",[(F,"""    buf  = buf.len >= out ? buf.sub(out) : substr{};
    size_t num = uncat(buf, more...);
    if(C4_UNLIKELY(num == csubstr::npos))
""","""    buf  = buf.len >= out ? buf.sub(out) : substr{};
    size_t num = uncat(buf, more...);
    if(C4_UNLIKELY(num == csubstr::npos && buf.len))
""")],"reading more values than the text has, where the text ends right after a value","the failure is reported as a number of characters",
H+'''int main() { int a = 0, b = 0, c = 0; return uncat("1 2 3", a, b, c) == 5 && uncat("1 2", a, b, c) == csubstr::npos ? 0 : 1; }''')
mkbug("c14_sep_blank","C14",[(F,"""    size_t ret = from_chars_first(buf, &sep);
    size_t num = ret;
""","""    size_t ret = from_chars_first(buf, &sep);
    size_t num = ret;
    if(buf.len > ret && buf.str[ret] == ' ') // allow a blank after the separator
        num = ++ret;
""")],"the value after the separator and a blank is a character that is itself a blank","the blank is skipped and another value is read",
H+'''int main() { int a = 0; char c = 0, sep = 0; size_t r = uncatsep("1, ", sep, a, c); return r == 3 && a == 1 && c == ' ' ? 0 : 1; }''')
mkbug("c08_next_split_last","C08",[(S,"        if(C4_LIKELY(*start_pos < len))\n        {\n            for(size_t i = *start_pos; i < len; i++)\n            {\n                if(str[i] == sep)\n","        if(C4_LIKELY(*start_pos < len))\n        {\n            for(size_t i = *start_pos; i < len; i++)\n            {\n                if(str[i] == sep || (sep == C('\\n') && str[i] == C('\\r') && i + 1 == len))\n")],"a text split at line ends whose very last character is a carriage return","the last line loses its final character, and an empty part is added",
H+'''int main() { csubstr s("ab\\ncd\\r"); std::string o; size_t n = 0; for(csubstr p : s.split('\\n')) { o.append(p.str, p.len); ++n; } return n == 2 && o == "abcd\\r" ? 0 : 1; }''')
mkbug("c08_gpop_single","C08",[(S,"""        auto ss = pop_left(sep, skip_empty);
        ss = right_of(ss);
        if(ss.find(sep) != npos)
        {
            if(ss.begins_with(sep))
            {
                if(skip_empty)
                {
                    ss = ss.triml(sep);
                }
""","""        auto ss = pop_left(sep, skip_empty);
        ss = right_of(ss);
        if(ss.find(sep) != npos)
        {
            if(ss.begins_with(sep))
            {
                if(skip_empty)
                {
                    ss = ss.sub(1);
                    if(ss.begins_with(sep) && ss.len > 1)
                        ss = ss.sub(1);
                }
""")],"three separators in a row after the first part, skipping empty parts","the rest begins with a separator",
H+'''int main() { csubstr s("a///b"); return s.gpop_right('/', true) == "b" && csubstr("a/b").gpop_right('/', true) == "b" ? 0 : 1; }''')
